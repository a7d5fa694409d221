"""Values and memory of the symbolic interpreter."""
import z3
from z3 import BitVecRef, BoolRef

M64 = (1 << 64) - 1

class ToolLimit(Exception):
    """the engine cannot represent something: never reported as a violation"""

class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off=0): self.obj = obj; self.off = off
    def __repr__(self): return 'Ptr(%s+%s)' % (self.obj, self.off)
class Fn:
    __slots__ = ('name',)
    def __init__(self, n): self.name = n
    def __repr__(self): return 'Fn(%s)' % self.name
class PInt:
    """a pointer viewed as an integer"""
    __slots__ = ('p',)
    def __init__(self, p): self.p = p
    def __repr__(self): return 'PInt(%r)' % self.p
NULL = Ptr(None, 0)

def is_sym(v): return isinstance(v, z3.ExprRef)
def bv(v, n):
    """coerce to z3 BitVec of width n"""
    if isinstance(v, int): return z3.BitVecVal(v, n)
    if isinstance(v, BoolRef): return z3.If(v, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
    return v
_simp_cache = {}
def simp(v):
    """fold to int / python bool when the simplifier reaches a literal"""
    if isinstance(v, (int, Ptr, Fn, PInt, list)) or v is None: return v
    if z3.is_bv_value(v): return v.as_long()
    s = z3.simplify(v)
    if z3.is_bv_value(s): return s.as_long()
    if z3.is_true(s): return 1
    if z3.is_false(s): return 0
    return s
def fold(v):
    """cheap literal detection only"""
    if isinstance(v, BitVecRef):
        if z3.is_bv_value(v): return v.as_long()
    elif isinstance(v, BoolRef):
        if z3.is_true(v): return 1
        if z3.is_false(v): return 0
    return v
def tobool(v):
    if isinstance(v, int): return z3.BoolVal(bool(v))
    if isinstance(v, BoolRef): return v
    return v == 1

# ------------------------------------------------------------------ functional byte logs
class Node:
    __slots__ = ('kind', 'prev', 'd', 'n', 'v', 's', 'memo', 'id')
    cnt = 0
    def __init__(self, kind, prev=None, d=None, n=None, v=None, s=None):
        self.kind = kind; self.prev = prev; self.d = d; self.n = n; self.v = v; self.s = s; self.memo = {}
        Node.cnt += 1; self.id = Node.cnt

def base(name): return Node('base', v=z3.Function(name, z3.BitVecSort(64), z3.BitVecSort(8)))
def const_bytes(bs): return Node('bytes', v=bytes(bs))
def fillnode(v): return Node('const', v=v)
def w1(prev, idx, val): return Node('w1', prev, d=idx, v=val)
def wcopy(prev, d, n, src, s): return Node('copy', prev, d=d, n=n, v=src, s=s)
def wfill(prev, d, n, val): return Node('fill', prev, d=d, n=n, v=val)
def wfn(prev, d, n, fn): return Node('fn', prev, d=d, n=n, v=fn)   # fn(rel idx) -> byte

def sub64(a, b):
    if isinstance(a, int) and isinstance(b, int): return (a - b) & M64
    if isinstance(b, int) and b == 0: return a
    return simp(bv(a, 64) - bv(b, 64))
def add64(a, b):
    if isinstance(a, int) and isinstance(b, int): return (a + b) & M64
    if isinstance(b, int) and b == 0: return a
    if isinstance(a, int) and a == 0: return b
    return simp(bv(a, 64) + bv(b, 64))
def inrange(i, d, n):
    """i in [d,d+n) as int/Bool; assumes no wrap of d+n"""
    r = sub64(i, d)
    if isinstance(r, int) and isinstance(n, int): return 1 if r < n else 0
    if isinstance(n, int) and n == 0: return 0
    return fold(z3.simplify(z3.ULT(bv(r, 64), bv(n, 64))))

def _key(i): return i if isinstance(i, int) else ('z', i.get_id())

def select(node, i):
    """byte i of the log: int or BitVec8"""
    # iterative over the chain of conditions
    conds = []
    start = node; k = _key(i)
    m = node.memo.get(k)
    if m is not None: return m[0]
    while True:
        kd = node.kind
        if kd == 'base':
            r = node.v(bv(i, 64)); break
        if kd == 'bytes':
            b = node.v
            if isinstance(i, int):
                r = b[i] if i < len(b) else 0
            else:
                r = z3.BitVecVal(0, 8)
                # group equal values
                for j in range(len(b)):
                    if b[j]: r = z3.If(i == j, z3.BitVecVal(b[j], 8), r)
            break
        if kd == 'const': r = node.v; break
        if kd == 'w1':
            d = sub64(i, node.d)
            if isinstance(d, int):
                if d == 0: r = node.v; break
                node = node.prev; continue
            c = z3.simplify(bv(i, 64) == bv(node.d, 64))
            if z3.is_true(c): r = node.v; break
            if not z3.is_false(c): conds.append((c, node.v))
            node = node.prev; continue
        c = inrange(i, node.d, node.n)
        if isinstance(c, int) and c == 0:
            node = node.prev; continue
        if kd == 'copy': val = select(node.v, add64(sub64(i, node.d), node.s))
        elif kd == 'fill': val = node.v
        elif kd == 'fn': val = node.v(sub64(i, node.d))
        else: raise ToolLimit('log kind ' + kd)
        if isinstance(c, int): r = val; break
        conds.append((c, val)); node = node.prev
    for c, v in reversed(conds):
        r = z3.If(c, bv(v, 8), bv(r, 8))
    start.memo[k] = (r, i)
    return r

def bases_of(node, acc=None):
    acc = set() if acc is None else acc
    while node is not None:
        if node.kind == 'base': acc.add(node.v.get_id())
        if node.kind == 'copy': bases_of(node.v, acc)
        node = node.prev
    return acc

# ------------------------------------------------------------------ objects
class Obj:
    __slots__ = ('id', 'size', 'cells', 'log', 'alive', 'kind', 'init', 'ro', 'name', 'cstr', 'addr', 'align')
    def __init__(self, id, size, kind, init='undef', name='', log=None, ro=False):
        self.id = id; self.size = size; self.kind = kind; self.init = init; self.name = name or str(id)
        self.cells = {}; self.log = log; self.alive = True; self.ro = ro; self.cstr = None; self.addr = None; self.align = 16
    def copy(self):
        o = Obj.__new__(Obj)
        o.id = self.id; o.size = self.size; o.cells = dict(self.cells); o.log = self.log; o.alive = self.alive
        o.kind = self.kind; o.init = self.init; o.ro = self.ro; o.name = self.name; o.cstr = self.cstr; o.addr = self.addr; o.align = self.align
        return o

def concat_bytes(bs):
    """little endian list of byte values -> int or BV"""
    if all(isinstance(b, int) for b in bs):
        r = 0
        for k, b in enumerate(bs): r |= b << (8 * k)
        return r
    if len(bs) == 1: return bs[0]
    # merge extracts of the same term
    e = z3.Concat(*[bv(b, 8) for b in reversed(bs)])
    return simp(e)

def split_byte(v, n, k):
    """byte k of an n-byte integer value"""
    if isinstance(v, int): return (v >> (8 * k)) & 255
    if isinstance(v, BoolRef): v = bv(v, 8)
    if n == 1: return v
    return simp(z3.Extract(8 * k + 7, 8 * k, v))
