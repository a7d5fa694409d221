"""Models of the C/C++ runtime and the verification intrinsics (irv_*)."""
import re, z3
from .mem import *

def E():
    from . import engine
    return engine

def cstring(eng, st, p, limit=4096):
    if not isinstance(p, Ptr) or p.obj is None: raise ToolLimit('cstring of %r' % (p,))
    o = eng.getobj(st, p.obj); off = simp(p.off)
    if not isinstance(off, int): raise ToolLimit('cstring offset')
    b = bytearray()
    while True:
        c = o.cells.get(off)
        if c is None or c[0] != 1 or not isinstance(c[1], int):
            if c is None and o.init == 'zero': break
            raise ToolLimit('cstring content')
        if c[1] == 0: break
        b.append(c[1]); off += 1
        if len(b) > limit: raise ToolLimit('long cstring')
    return bytes(b).decode('latin1')

# ------------------------------------------------------------------ intrinsics
def nondet(w):
    def h(eng, st, a, ins):
        nm = cstring(eng, st, a[0])
        v = eng.fresh('in_' + nm, w if w != 1 else 1)
        st.inputs.append(('u', nm, w, v))
        return v
    return h
def h_buf(eng, st, a, ins):
    nm = cstring(eng, st, a[0]); n = simp(a[1])
    if not isinstance(n, int):
        eng.assume(st, z3.ULE(n, z3.BitVecVal(eng.bounded_mode or (1 << 40), 64)))
        if st.model is None:
            r, m = eng.solver.check(st.pc)
            if r == z3.unsat: raise E().Infeasible()
            st.model = m
    i = eng.fresh_id()
    node = base('buf_%s_%d' % (nm, i))
    o = eng.newobj(st, n, 'heap', 'input', 'buf_' + nm, node)
    o.log = node; o.kind = 'input'
    st.inputs.append(('buf', nm, n, node.v))
    return Ptr(o.id, 0)
def h_cstr(eng, st, a, ins):
    """NUL-terminated input string of the given (symbolic) length"""
    nm = cstring(eng, st, a[0]); n = simp(a[1])
    sz = add64(n, 1)
    p = h_buf(eng, st, [a[0], sz], ins)
    o = eng.wobj(st, p.obj); o.cstr = n
    node = o.log
    eng.assume(st, bv(select(node, n), 8) == 0)
    st.hyps.append((o.id, ('cs', eng.fresh_id()), lambda off, node=node, n=n: z3.Implies(z3.ULT(bv(off, 64), bv(n, 64)), bv(select(node, off), 8) != 0)))
    st.inputs[-1] = ('cstr', nm, n, node.v)
    return p
def h_assume(eng, st, a, ins):
    eng.assume(st, tobool(a[0]) if not isinstance(a[0], int) else a[0])
    if st.model is None:
        r, m = eng.solver.check(st.pc)
        if r == z3.unsat: raise E().Infeasible()
        st.model = m
def h_assert(eng, st, a, ins):
    c = a[0]
    if not isinstance(c, int): c = tobool(c)
    eng.obligation(st, c, cstring(eng, st, a[1]), 'assert')
def h_cover(eng, st, a, ins):
    if eng.quiet: return
    nm = cstring(eng, st, a[0])
    if eng.res.covers.get(nm): return
    r, m = eng.solver.check(st.pc)
    if r != z3.unsat: eng.res.covers[nm] = eng.res.covers.get(nm, 0) + 1
def bytes_at(eng, st, p, off):
    return eng.rb(st, p.obj, add64(p.off, off))
def h_assert_bytes_eq(eng, st, a, ins):
    p, q, n, nm = a; nm = cstring(eng, st, nm); n = simp(n)
    if isinstance(n, int) and n == 0:
        eng.obligation(st, 1, nm, 'assert'); return
    if not isinstance(n, int) and eng.decide(st, n == 0):
        eng.obligation(st, 1, nm, 'assert'); return
    eng.check_access(st, p, n, nm + ':lhs'); eng.check_access(st, q, n, nm + ':rhs')
    if isinstance(n, int) and n <= 32:
        cs = [bv(bytes_at(eng, st, p, k), 8) == bv(bytes_at(eng, st, q, k), 8) for k in range(n)]
        eng.obligation(st, z3.And(*cs), nm, 'assert'); return
    j = eng.fresh('sk', 64)
    x = bytes_at(eng, st, p, j); y = bytes_at(eng, st, q, j)
    eng.obligation(st, z3.Implies(z3.ULT(j, bv(n, 64)), bv(x, 8) == bv(y, 8)), nm, 'assert')
def h_assume_bytes_eq(eng, st, a, ins):
    p, q, n = a; n = simp(n)
    add_eq_hyp(eng, st, p, q, n)
def add_eq_hyp(eng, st, p, q, n):
    """forall j<n: p[j]==q[j], instantiated at every later read of either object"""
    if isinstance(n, int) and n <= 16:
        for k in range(n): eng.assume(st, bv(bytes_at(eng, st, p, k), 8) == bv(bytes_at(eng, st, q, k), 8))
        return
    po = eng.getobj(st, p.obj); qo = eng.getobj(st, q.obj)
    if po.log is None: po = eng.to_log(st, po)
    if qo.log is None: qo = eng.to_log(st, qo)
    A, B = po.log, qo.log; tag = ('eq', eng.fresh_id())
    def inst(j):
        c = inrange(j, 0, n)
        if isinstance(c, int) and not c: return None
        e = bv(select(A, add64(p.off, j)), 8) == bv(select(B, add64(q.off, j)), 8)
        return e if isinstance(c, int) else z3.Implies(c, e)
    st.hyps.append((po.id, tag + (0,), lambda off: inst(sub64(off, p.off))))
    st.hyps.append((qo.id, tag + (1,), lambda off: inst(sub64(off, q.off))))
    tr = st.ghost.setdefault('readix', {})
    # already-read symbolic indices of either object
    for oid, po_ in ((po.id, p.off), (qo.id, q.off)):
        for off in list(tr.get(oid, [])):
            f = inst(sub64(off, po_))
            if f is not None: eng.assume(st, z3.simplify(f))
def copy_hyps(eng, st, so, do, soff, doff, n):
    for h in list(st.hyps):
        if h[0] == so:
            st.hyps.append((do, (h[1], 'cp', eng.fresh_id()), lambda off, f=h[2]: f(add64(sub64(off, doff), soff))))
def h_error_code(eng, st, a, ins):
    """code of a caught mfast::fast_error as a small integer: the (up to 8) characters packed"""
    g = st.ghost.get('exc') or {}
    c = g.get(a[0].obj)
    if c is None: return 0
    return int.from_bytes(c.encode('latin1')[:8], 'little')
def h_dump(eng, st, a, ins):
    print('DUMP', cstring(eng, st, a[0]), simp(a[1]))
def h_same_object(eng, st, a, ins):
    """1 if both pointers point into the same allocation"""
    p, q = a
    return 1 if isinstance(p, Ptr) and isinstance(q, Ptr) and p.obj is not None and p.obj == q.obj else 0
def h_live(eng, st, a, ins):
    p = a[0]
    if p.obj is None: return 0
    return 1 if eng.getobj(st, p.obj).alive else 0
def h_objsize(eng, st, a, ins):
    p = a[0]
    if p.obj is None: return 0
    return eng.getobj(st, p.obj).size
def h_heap_live(eng, st, a, ins):
    n = 0
    for o in st.mem.values():
        if o.kind == 'heap' and o.alive: n += 1
    return n
def h_abstract(eng, st, a, ins):
    st.ghost['abstract'] = True
def h_concretize(eng, st, a, ins):
    return eng.concretize(st, a[0], 300)
def h_is_symbolic(eng, st, a, ins): return 1

# ------------------------------------------------------------------ C runtime
def heapalloc(eng, st, n, what='heap'):
    n = simp(n)
    if not isinstance(n, int): eng.assume(st, z3.ULE(n, z3.BitVecVal(1 << 46, 64)))
    elif n > 1 << 46: raise E().Infeasible()
    o = eng.newobj(st, n, 'heap')
    return Ptr(o.id, 0)
def h_malloc(eng, st, a, ins): return heapalloc(eng, st, a[0])
def h_calloc(eng, st, a, ins):
    n = eng.binop(st, 'mul', a[0], a[1], 64, [])
    o = eng.newobj(st, simp(n), 'heap', 'zero'); return Ptr(o.id, 0)
def h_free(eng, st, a, ins):
    p = a[0]
    if eng.is_null(p): return None
    if not isinstance(p, Ptr) or p.obj is None: raise ToolLimit('free of integer')
    o = eng.getobj(st, p.obj)
    ok = o.kind == 'heap' and o.alive
    if not ok:
        eng.obligation(st, 0, 'free:invalid-pointer(%s%s)' % (o.kind, '' if o.alive else ',dead'), 'memory'); raise E().PathEnd()
    off = simp(p.off)
    eng.obligation(st, 1 if (isinstance(off, int) and off == 0) else (0 if isinstance(off, int) else off == 0), 'free:start-of-block', 'memory')
    eng.wobj(st, p.obj).alive = False
    if st.writes is not None: st.writes.append((p.obj, 0, 0))
    return None
def h_realloc(eng, st, a, ins):
    p, n = a; n = simp(n)
    if eng.is_null(p): return heapalloc(eng, st, n)
    o = eng.getobj(st, p.obj)
    if not (o.kind == 'heap' and o.alive):
        eng.obligation(st, 0, 'realloc:invalid-pointer(%s)' % o.kind, 'memory'); raise E().PathEnd()
    eng.obligation(st, 1 if isinstance(p.off, int) and p.off == 0 else 0, 'realloc:start-of-block', 'memory')
    osz = o.size
    if isinstance(n, int) and isinstance(osz, int): m = min(n, osz)
    else:
        m = osz if eng.decide(st, z3.ULE(bv(osz, 64), bv(n, 64))) else n
    q = heapalloc(eng, st, n)
    eng.mcopy(st, q, p, m, 'realloc')
    eng.wobj(st, p.obj).alive = False
    return q
def h_memcpy(eng, st, a, ins):
    n = simp(a[2])
    eng.mcopy(st, a[0], a[1], n, 'memcpy')
    return a[0]
def h_memset(eng, st, a, ins):
    v = a[1]
    if is_sym(v) and v.size() != 8: v = simp(z3.Extract(7, 0, v))
    elif isinstance(v, int): v &= 255
    eng.mfill(st, a[0], a[2], v); return a[0]
def h_strlen(eng, st, a, ins):
    p = a[0]
    if not isinstance(p, Ptr) or p.obj is None:
        eng.obligation(st, 0, 'strlen:null-pointer', 'memory'); raise E().PathEnd()
    o = eng.check_access(st, p, 1, 'strlen')
    if o.cstr is not None: return sub64(o.cstr, p.off)
    off = simp(p.off)
    if o.log is None and isinstance(off, int):
        n = 0
        while True:
            b = eng.structbyte(st, o.id, off + n)
            if not isinstance(b, int):
                if eng.decide(st, b == 0): return n
            elif b == 0: return n
            n += 1
            if isinstance(o.size, int) and off + n >= o.size:
                eng.obligation(st, 0, 'strlen:unterminated', 'memory'); raise E().PathEnd()
    if isinstance(o.size, int) and isinstance(off, int) and o.size - off <= 4096:
        n = 0
        while True:
            if off + n >= o.size:
                eng.obligation(st, 0, 'strlen:unterminated', 'memory'); raise E().PathEnd()
            b = eng.rb(st, o.id, off + n)
            if isinstance(b, int):
                if b == 0: return n
            elif eng.decide(st, b == 0): return n
            n += 1
    raise ToolLimit('strlen of symbolic buffer')
def h_memcmp(eng, st, a, ins):
    p, q, n = a; n = simp(n)
    if isinstance(n, int) and n == 0: return 0
    if not isinstance(n, int) and eng.decide(st, n == 0): return 0
    eng.check_access(st, p, n, 'memcmp'); eng.check_access(st, q, n, 'memcmp')
    eng.rb(st, p.obj, p.off); eng.rb(st, q.obj, q.off)
    w = eng.fresh('mcw', 64); r = eng.fresh('mcr', 32)
    if isinstance(n, int) and n <= 16:
        xs = [(bv(bytes_at(eng, st, p, k), 8), bv(bytes_at(eng, st, q, k), 8)) for k in range(n)]
        e = z3.BitVecVal(0, 32)
        for x, y in reversed(xs):
            e = z3.If(x == y, e, z3.If(z3.ULT(x, y), z3.BitVecVal(0xffffffff, 32), z3.BitVecVal(1, 32)))
        return simp(e)
    k = ('memcmp', n.get_id() if is_sym(n) else n, repr(p), repr(q))
    d = eng.fresh('mceq', 1)
    M = E().Multi
    pl = eng.getobj(st, p.obj).log; ql = eng.getobj(st, q.obj).log
    def eff_eq(s): add_eq_hyp(eng, s, p, q, n)
    def eff_ne(s):
        add_eq_hyp(eng, s, p, q, w)
        x = bv(bytes_at(eng, s, p, w), 8); y = bv(bytes_at(eng, s, q, w), 8)
        eng.assume(s, z3.And(z3.ULT(w, bv(n, 64)), x != y, r != 0, (r < 0) == z3.ULT(x, y)))
        if s.model is None:
            rr, m = eng.solver.check(s.pc)
            if rr == z3.unsat: raise E().Infeasible()
            s.model = m
    return M([(d, 0, eff_eq), (z3.Not(d), r, eff_ne)])
def h_assert_fail(eng, st, a, ins):
    try: msg = cstring(eng, st, a[0])
    except ToolLimit: msg = '?'
    eng.obligation(st, 0, 'source-assert:' + msg, 'assert'); raise E().PathEnd()
def h_abort(eng, st, a, ins):
    eng.obligation(st, 0, 'abort', 'assert'); raise E().PathEnd()
def h_nop(eng, st, a, ins): return NULL if ins.ty == ('ptr',) else (0 if ins.ty[0] == 'i' else None)
def h_ret_this(eng, st, a, ins): return a[0]
# exceptions
def h_alloc_exc(eng, st, a, ins):
    o = eng.newobj(st, simp(a[0]), 'exc'); return Ptr(o.id, 0)
def h_throw(eng, st, a, ins):
    t = a[1]
    raise E().Thrown(t.obj[1], a[0])
def h_rethrow(eng, st, a, ins):
    if not st.caught: raise ToolLimit('rethrow without exception')
    t, p = st.caught[-1]
    raise E().Thrown(t, p)
def h_begin_catch(eng, st, a, ins):
    st.caught.append((st.exc[0], st.exc[1])); return a[0]
def h_end_catch(eng, st, a, ins):
    if st.caught: st.caught.pop()
    return None
def h_typeid_for(eng, st, a, ins):
    p = a[0]
    return eng.tid(p.obj[1])
def h_exc_ctor(eng, st, a, ins):
    code = ''
    for x in a[1:]:
        if isinstance(x, Ptr) and x.obj is not None:
            try: code = cstring(eng, st, x)
            except ToolLimit: pass
    g = st.ghost.setdefault('exc', {}); 
    g = dict(g); g[a[0].obj] = code; st.ghost['exc'] = g
    return None
def h_boost_throw(eng, st, a, ins):
    d = eng.m.demangle()[eng._cur[0]]
    m = re.search(r'throw_exception<(.*?)>\(', d)
    T = m.group(1)
    ti = None
    for k, v in eng.m.demangle().items():
        if v == 'typeinfo for ' + T: ti = k
    if ti is None: ti = '_ZTI?' + T
    st.ghost.setdefault('thrown', [])
    raise E().Thrown(ti, Ptr(a[0].obj, 0))
def h_throw_std(T):
    def h(eng, st, a, ins):
        o = eng.newobj(st, 64, 'exc')
        raise E().Thrown(T, Ptr(o.id, 0))
    return h
def h_guard_acquire(eng, st, a, ins):
    return 1
def h_ctlz(eng, st, a, ins): raise ToolLimit('ctlz')
def h_expect(eng, st, a, ins): return a[0]
def h_umin(f, signed):
    def h(eng, st, a, ins):
        w = ins.ty[1]
        lt = eng.icmp(st, ('s' if signed else 'u') + f, a[0], a[1], ins.ty)
        return eng.select(st, lt, a[0] if isinstance(a[0], int) or is_sym(a[0]) else a[0], a[1]) if not (isinstance(a[0], int) and isinstance(a[1], int)) else (a[0] if lt else a[1])
    return h
def h_ovf(op, signed):
    def h(eng, st, a, ins):
        w = eng.m.rtype(ins.ty)[1][0][1]
        x, y = bv(a[0], w), bv(a[1], w)
        ext = z3.SignExt if signed else z3.ZeroExt
        X, Y = ext(w, x), ext(w, y)
        r = {'add': X + Y, 'sub': X - Y, 'mul': X * Y}[op]
        t = simp(z3.Extract(w - 1, 0, r))
        return [t, fold(z3.simplify(ext(w, bv(t, w)) != r))]
    return h
def h_abs(eng, st, a, ins):
    w = ins.ty[1]
    x = bv(a[0], w); return simp(z3.If(x < 0, -x, x))

EXACT = {
  'irv_u8': nondet(8), 'irv_u16': nondet(16), 'irv_u32': nondet(32), 'irv_u64': nondet(64), 'irv_bool': nondet(1),
  'irv_buf': h_buf, 'irv_cstr': h_cstr, 'irv_assume': h_assume, 'irv_assert': h_assert, 'irv_cover': h_cover,
  'irv_assert_bytes_eq': h_assert_bytes_eq, 'irv_assume_bytes_eq': h_assume_bytes_eq, 'irv_error_code': h_error_code,
  'irv_dump': h_dump, 'irv_same_object': h_same_object, 'irv_live': h_live, 'irv_objsize': h_objsize, 'irv_heap_live': h_heap_live,
  'irv_abstract': h_abstract, 'irv_concretize': h_concretize, 'irv_is_symbolic': h_is_symbolic,
  'malloc': h_malloc, 'calloc': h_calloc, 'free': h_free, 'realloc': h_realloc, '_Znwm': h_malloc, '_Znam': h_malloc,
  '_ZdlPv': h_free, '_ZdlPvm': h_free, '_ZdaPv': h_free, '_ZdaPvm': h_free, '_ZdlPvmSt11align_val_t': h_free,
  'memcpy': h_memcpy, 'memmove': h_memcpy, 'memset': h_memset, 'strlen': h_strlen, 'memcmp': h_memcmp,
  'llvm.memcpy.p0.p0.i64': h_memcpy, 'llvm.memmove.p0.p0.i64': h_memcpy, 'llvm.memset.p0.i64': h_memset,
  '__assert_fail': h_assert_fail, 'abort': h_abort, '__clang_call_terminate': h_abort, '_ZSt9terminatev': h_abort,
  '__cxa_allocate_exception': h_alloc_exc, '__cxa_free_exception': h_nop, '__cxa_throw': h_throw, '__cxa_rethrow': h_rethrow,
  '__cxa_begin_catch': h_begin_catch, '__cxa_end_catch': h_end_catch, 'llvm.eh.typeid.for': h_typeid_for, 'llvm.eh.typeid.for.p0': h_typeid_for,
  '__cxa_guard_acquire': h_guard_acquire, '__cxa_guard_release': h_nop, '__cxa_atexit': h_nop,
  '_ZSt17__throw_bad_allocv': h_throw_std('_ZTISt9bad_alloc'), '_ZSt20__throw_length_errorPKc': h_throw_std('_ZTISt12length_error'),
  '_ZSt20__throw_out_of_rangePKc': h_throw_std('_ZTISt12out_of_range'), '_ZSt24__throw_out_of_range_fmtPKcz': h_throw_std('_ZTISt12out_of_range'),
  '_ZSt19__throw_logic_errorPKc': h_throw_std('_ZTISt11logic_error'), '_ZSt28__throw_bad_array_new_lengthv': h_throw_std('_ZTISt20bad_array_new_length'),
  'llvm.expect.i64': h_expect, 'llvm.expect.i1': h_expect, 'llvm.is.constant.i64': lambda e, s, a, i: 0, 'llvm.is.constant.i32': lambda e, s, a, i: 0,
  'llvm.trap': h_abort,
}
for w in (8, 16, 32, 64):
    for f, sg in (('min', 0), ('max', 0), ('min', 1), ('max', 1)):
        EXACT['llvm.%s%s.i%d' % ('s' if sg else 'u', f, w)] = h_umin('lt' if f == 'min' else 'gt', sg)
    for op in ('add', 'sub', 'mul'):
        EXACT['llvm.u%s.with.overflow.i%d' % (op, w)] = h_ovf(op, False)
        EXACT['llvm.s%s.with.overflow.i%d' % (op, w)] = h_ovf(op, True)
    EXACT['llvm.abs.i%d' % w] = h_abs
HOOKS = [
  (re.compile(r'^mfast::fast_(dynamic|static|reportable)_error::fast_\w+\(char const\*\)'), h_exc_ctor),
  (re.compile(r'^mfast::(coder::)?(template_not_found_error|duplicate_template_id_error)::\w+\('), h_exc_ctor),
  (re.compile(r'^mfast::buffer_overflow_error::buffer_overflow_error\('), h_exc_ctor),
  (re.compile(r'^mfast::fast_\w*error::~'), h_nop),
  (re.compile(r'^mfast::buffer_overflow_error::~'), h_nop),
  (re.compile(r'^void boost::throw_exception<.*>\('), h_boost_throw),
  (re.compile(r'^std::(exception|runtime_error|bad_alloc|length_error)::~'), h_nop),
  (re.compile(r'^boost::exception::~'), h_nop),
]
