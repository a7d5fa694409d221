"""Symbolic executor / verification condition generator over LLVM IR of the real code.

Every path of a harness is executed with full-domain symbolic inputs; every memory access, throw,
assertion and postcondition becomes a named obligation handed to an SMT solver.  Loops are either
unrolled completely (solver-pruned) or cut at the header with inferred + supplied invariants (loops.py).
"""
import z3, time, re, sys
from .parse import Module, Instr, loops_of, IRError, PTR
from .mem import *

sys.setrecursionlimit(20000)

class Fork(Exception):
    """re-execute the current instruction in children, each with an extra constraint"""
    def __init__(self, alts): self.alts = alts      # list of (constraint, known (ast,int) or None)
class Infeasible(Exception): pass
class Thrown(Exception):
    def __init__(self, tinfo, ptr): self.tinfo = tinfo; self.ptr = ptr
class PathEnd(Exception): pass
class NeedCut(Exception):
    def __init__(self, fn, hdr): self.fn = fn; self.hdr = hdr
class Multi:
    """handler result: several outcomes: list of (constraint, value|Thrown, effect(state))"""
    def __init__(self, alts): self.alts = alts

class Frame:
    __slots__ = ('fn', 'blk', 'idx', 'prev', 'env', 'call', 'allocas', 'cnt', 'code')
    def __init__(self, fn, call):
        self.fn = fn; self.blk = fn.entry; self.idx = 0; self.prev = None; self.env = {}; self.call = call
        self.allocas = []; self.cnt = {}; self.code = fn.blocks[fn.entry]
    def clone(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn; f.blk = self.blk; f.idx = self.idx; f.prev = self.prev; f.env = dict(self.env)
        f.call = self.call; f.allocas = list(self.allocas); f.cnt = dict(self.cnt); f.code = self.code
        return f

class State:
    def __init__(self):
        self.frames = []; self.mem = {}; self.own = set(); self.pc = []; self.inputs = []; self.known = {}
        self.ghost = {}; self.model = None; self.steps = 0; self.hyps = []; self.exc = None; self.caught = []
        self.trace = []; self.bounded = False; self.stop = None; self.writes = None
    def clone(self):
        s = State.__new__(State)
        s.frames = [f.clone() for f in self.frames]; s.mem = dict(self.mem)
        self.own = set(); s.own = set()
        s.pc = list(self.pc); s.inputs = list(self.inputs); s.known = dict(self.known)
        s.ghost = {k: (v.copy() if isinstance(v, (dict, list)) else v) for k, v in self.ghost.items()}
        s.model = self.model; s.steps = self.steps; s.hyps = list(self.hyps); s.exc = self.exc; s.caught = list(self.caught)
        s.trace = list(self.trace); s.bounded = self.bounded; s.stop = self.stop
        s.writes = self.writes
        return s

class Solver:
    """one-shot solving (a fresh solver per query is far faster and steadier than push/pop here)"""
    def __init__(self, timeout):
        self.vars = {}; self.timeout = timeout; self.calls = 0; self.time = 0.0; self.cache = {}; self.unknowns = 0
    def varset(self, e):
        """uninterpreted symbols of an expression (cached; the expression is kept alive)"""
        r = self.vars.get(e.get_id())
        if r is not None: return r[0]
        out = set(); st = [e]; seen = set()
        while st:
            x = st.pop(); i = x.get_id()
            if i in seen: continue
            seen.add(i)
            c = self.vars.get(i)
            if c is not None: out |= c[0]; continue
            if z3.is_app(x):
                d = x.decl()
                if d.kind() == z3.Z3_OP_UNINTERPRETED: out.add(d.get_id())
                st.extend(x.children())
        out = frozenset(out); self.vars[e.get_id()] = (out, e)
        return out
    def slice(self, pc, extra):
        """constraints connected to the goal by shared symbols: unsat of the slice is unsat of the whole"""
        vs = set(self.varset(extra)); rest = [(c, self.varset(c)) for c in pc]; keep = set(); ch = True
        while ch:
            ch = False
            for k, (c, v) in enumerate(rest):
                if k not in keep and (not v or v & vs): keep.add(k); vs |= v; ch = True
        return [c for k, (c, v) in enumerate(rest) if k in keep]
    def one_shot(self, cs, to):
        """portfolio: plain SMT core for the many easy queries, then ackermannisation + SAT, then z3's default"""
        s = z3.SimpleSolver(); s.set('timeout', min(300, to)); s.add(*cs); r = s.check()
        if r != z3.unknown: return r, s
        if to > 300:
            g = z3.Goal(); g.add(*cs)
            s = z3.Tactic('qfaufbv').solver() if z3.Probe('is-qfbv')(g) else z3.Then('simplify', 'propagate-values', 'solve-eqs', 'ackermannize_bv', 'simplify', 'bit-blast', 'sat').solver()
            s.set('timeout', max(to // 2, 1000)); s.add(*cs)
            try: r = s.check()
            except z3.Z3Exception: r = z3.unknown
            if r != z3.unknown: return r, s
        s = z3.Solver(); s.set('timeout', to); s.add(*cs); r = s.check()
        return r, s
    def check(self, pc, extra=None, timeout=None):
        key = (tuple(c.get_id() for c in pc), extra.get_id() if extra is not None else None)
        hit = self.cache.get(key)
        if hit is not None: return hit[0], hit[1]
        t = time.time(); to = timeout or self.timeout
        self.calls += 1
        if extra is not None and len(pc) > 3:
            sl = self.slice(pc, extra)
            if len(sl) < len(pc):
                if self.one_shot(sl + [extra], to)[0] == z3.unsat:
                    self.cache[key] = (z3.unsat, None, list(pc), extra); dt = time.time() - t; self.time += dt
                    if PROFILE and dt > float(PROFILE):
                        print('SLOW %.2f unsat %s' % (dt, str(extra)[:100].replace('\n', ' ')))
                        open('/tmp/w/slow/u%d.smt2' % self.calls, 'w').write(mksmt(sl + [extra]))
                    return z3.unsat, None
        r, s = self.one_shot(list(pc) + ([extra] if extra is not None else []), to)
        m = s.model() if r == z3.sat else None
        if r == z3.unknown: self.unknowns += 1
        else: self.cache[key] = (r, m, list(pc), extra)
        if len(self.cache) > 4000: self.cache.clear()
        dt = time.time() - t
        self.time += dt
        if PROFILE and dt > float(PROFILE):
            print('SLOW %.2f %s %s' % (dt, r, str(extra)[:100].replace('\n', ' ')))
            open('/tmp/w/slow/q%d.smt2' % self.calls, 'w').write(mksmt(list(pc) + ([extra] if extra is not None else [])))
        return r, m

import os
PROFILE = os.environ.get('IRV_PROFILE')
def mksmt(cs):
    s = z3.Solver(); s.add(*cs); return s.to_smt2()
class Failure:
    def __init__(self, name, loc, kind, pc, neg, inputs, trace):
        self.name = name; self.loc = loc; self.kind = kind; self.pc = pc; self.neg = neg; self.inputs = inputs
        self.trace = trace; self.model = None; self.bounded = False
    def __repr__(self): return 'Failure(%s @ %s, %s)' % (self.name, self.loc, self.kind)

class Result:
    def __init__(self):
        self.obl = 0; self.discharged = 0; self.trivial = 0; self.byname = {}; self.failures = []; self.unknown = []
        self.paths = 0; self.covers = {}; self.bounded = set(); self.limits = []; self.functions = set(); self.externals = set()
        self.wall = 0; self.solver_calls = 0; self.solver_time = 0; self.cuts = {}; self.stubs = set()
    def ok(self): return not self.failures and not self.unknown and not self.limits

def ubound(t):
    "an upper bound of an unsigned term, from its leading zeros"
    w = t.size()
    if z3.is_bv_value(t): return t.as_long()
    k = t.decl().kind()
    if k == z3.Z3_OP_CONCAT and z3.is_bv_value(t.arg(0)) and t.arg(0).as_long() == 0: return (1 << (w - t.arg(0).size())) - 1
    if k == z3.Z3_OP_ZERO_EXT: return (1 << t.arg(0).size()) - 1
    if k == z3.Z3_OP_ITE: return max(ubound(t.arg(1)), ubound(t.arg(2)))
    return (1 << w) - 1
def exact_quotient(A, b, w):
    "A / b when A is syntactically a sum of multiples of b that cannot overflow"
    A = z3.simplify(A); total = 0; q = z3.BitVecVal(0, w)
    for t in (A.children() if A.decl().kind() == z3.Z3_OP_BADD else [A]):
        if z3.is_bv_value(t): c, y = t.as_long(), None
        elif t.decl().kind() == z3.Z3_OP_BMUL and t.num_args() == 2 and z3.is_bv_value(t.arg(0)): c, y = t.arg(0).as_long(), t.arg(1)
        else: return None
        if c >> (w - 1): c -= 1 << w
        if c % b: return None
        total += abs(c) * (1 if y is None else ubound(y))
        q = q + (z3.BitVecVal(c // b, w) if y is None else z3.BitVecVal(c // b, w) * y)
    return q if total < 1 << (w - 1) else None
class Engine:
    def __init__(self, mod, stubs=None, hooks=None, unroll=40, cut=True, obl_timeout=20000, br_timeout=12000,
                 max_paths=20000, max_time=600, max_steps=400000, cut_hints=None, nocut=(), maxfail=12, dedupe=True, force_cut=(), lenient=()):
        self.m = mod; self.stubs = stubs or {}; self.uhooks = hooks or []; self.unroll = unroll; self.cut = cut
        self.obl_timeout = obl_timeout; self.br_timeout = br_timeout; self.max_paths = max_paths; self.max_time = max_time
        self.max_steps = max_steps; self.cuts = set(); self.uid = 0; self.cut_hints = cut_hints or []; self.nocut = nocut
        self.maxfail = maxfail; self.bounded_mode = 0; self.recheck = None; self.force_cut = force_cut
        self.solver = Solver(br_timeout); self.res = Result()
        self.hookcache = {}; self.globobj = {}; self.axioms = []
        self.assume_terms = None
        self.quiet = False            # inside invariant inference: obligations are assumed, not recorded
        from . import models
        self.hooks = models.HOOKS; self.exact = models.EXACT
        self.models = models
        self.user_exact = {}
        self.lemma_fns = []           # callables(engine, state, goal) -> list of extra facts (definition unfoldings)

    # ------------------------------------------------------------------ names
    def fresh(self, name, n):
        self.uid += 1
        nm = '%s!%d' % (name, self.uid)
        return z3.Bool(nm) if n == 1 else z3.BitVec(nm, n)
    def fresh_id(self):
        self.uid += 1; return self.uid

    # ------------------------------------------------------------------ solver helpers
    def feasible(self, st, c):
        c = fold(c)
        if isinstance(c, int): return bool(c)
        if st.model is not None:
            v = st.model.eval(c, model_completion=True)
            if z3.is_true(v): return True
        r, m = self.solver.check(st.pc, c)
        if r == z3.unsat: return False
        if m is not None: self._lastmodel = m
        return True
    def assume(self, st, c, model=None):
        c = fold(c)
        if isinstance(c, int):
            if not c: raise Infeasible()
            return
        if z3.is_true(c): return
        if z3.is_false(c): raise Infeasible()
        st.pc.append(c)
        if model is not None: st.model = model
        elif st.model is not None and not z3.is_true(st.model.eval(c, model_completion=True)): st.model = None
    def split(self, st, c):
        """(true_feasible, false_feasible, model_true, model_false)"""
        mt = mf = None; tf = ff = None
        if st.model is not None:
            v = st.model.eval(c, model_completion=True)
            if z3.is_true(v): tf = True; mt = st.model
            elif z3.is_false(v): ff = True; mf = st.model
        if tf is None:
            r, mt = self.solver.check(st.pc, c); tf = r != z3.unsat
        if ff is None:
            if not tf: ff = True
            else:
                r, mf = self.solver.check(st.pc, z3.Not(c)); ff = r != z3.unsat
        return tf, ff, mt, mf
    def prove(self, st, c, timeout=None):
        """True if pc => c, silently"""
        c = fold(c)
        if isinstance(c, int): return bool(c)
        if st.model is not None and z3.is_false(st.model.eval(c, model_completion=True)): return False
        r, m = self.solver.check(st.pc, z3.Not(c), timeout)
        return r == z3.unsat
    def decide(self, st, c):
        """fork on a symbolic condition from inside an instruction: returns python bool"""
        c = fold(c)
        if isinstance(c, int): return bool(c)
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        k = ('d', c.get_id())
        r = st.known.get(k)
        if r is not None: return r[0]
        tf, ff, mt, mf = self.split(st, c)
        if tf and ff: raise Fork([(c, (k, True, c), mt), (z3.Not(c), (k, False, c), mf)])
        if not tf and not ff: raise Infeasible()
        st.known[k] = (tf, c)
        return tf
    def concretize(self, st, v, limit=70):
        v = simp(v)
        if isinstance(v, int): return v
        k = ('c', v.get_id())
        r = st.known.get(k)
        if r is not None: return r[0]
        vals = []; pc = st.pc; extra = None
        cons = []
        while True:
            r, m = self.solver.check(pc, z3.And(*cons) if cons else None)
            if r == z3.unsat: break
            if m is None: raise ToolLimit('concretize: solver unknown')
            x = m.eval(v, model_completion=True).as_long(); vals.append((x, m)); cons.append(v != x)
            if len(vals) > limit: raise ToolLimit('concretize: too many values for %s' % str(v)[:80])
        if not vals: raise Infeasible()
        if len(vals) == 1:
            st.known[k] = (vals[0][0], v); return vals[0][0]
        raise Fork([(v == x, (k, x, v), m) for x, m in vals])

    # ------------------------------------------------------------------ obligations
    def loc(self, st):
        for f in reversed(st.frames):
            return '%s:%s' % (f.fn.name, f.blk)
        return '?'
    def obligation(self, st, c, name, kind='assert'):
        """must hold on this path; afterwards it is assumed"""
        c = fold(c)
        if self.quiet:
            if isinstance(c, int):
                if not c: raise PathEnd()
            else:
                c = z3.simplify(c)
                if z3.is_false(c): raise PathEnd()
                if not z3.is_true(c): self.assume(st, c)
            return
        R = self.res; R.obl += 1
        loc = self.loc(st)
        e = R.byname.setdefault(name, [0, 0]); e[0] += 1
        if not isinstance(c, int): 
            c = fold(z3.simplify(c))
        if isinstance(c, int):
            if c:
                # a path that is itself unreachable also counts; trivially true
                R.discharged += 1; R.trivial += 1; e[1] += 1; return
            r, m = self.solver.check(st.pc, None, self.obl_timeout)
            if r == z3.unsat:
                R.discharged += 1; e[1] += 1; raise Infeasible()
            self.fail(st, name, loc, kind, z3.BoolVal(True), m, r)
            raise PathEnd()
        facts = self.facts(st, c)
        neg = z3.Not(c)
        q = z3.And(neg, *facts) if facts else neg
        r = None
        if not facts and st.model is not None and z3.is_false(st.model.eval(c, model_completion=True)): r = z3.sat; m = st.model
        if r is None: r, m = self.solver.check(st.pc, q, self.obl_timeout)
        if r == z3.unknown:
            r, m = self.second_opinion(st.pc, q)
        if r == z3.unsat:
            R.discharged += 1; e[1] += 1
            if self.recheck: self.recheck(name, st.pc, q)
            if name.startswith('lemma'): self.assume(st, c)      # a proved obligation is already implied
            return
        if r == z3.sat:
            self.fail(st, name, loc, kind, q, m, r)
            self.assume(st, c)
            if st.model is None:
                r, m = self.solver.check(st.pc)
                if r == z3.unsat: raise PathEnd()
                st.model = m
            return
        R.unknown.append((name, loc)); self.assume(st, c)
    def facts(self, st, c):
        fs = []
        for lf in self.lemma_fns: fs += lf(self, st, c)
        self.inst_terms(st, c)
        for f in fs: self.inst_terms(st, f)
        return fs
    def second_opinion(self, pc, q):
        s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-uncnstr', 'smt').solver()
        s.set('timeout', self.obl_timeout)
        s.add(*pc); s.add(q); t = time.time()
        r = s.check(); self.solver.time += time.time() - t; self.solver.calls += 1
        return r, (s.model() if r == z3.sat else None)
    def fail(self, st, name, loc, kind, neg, model, r):
        R = self.res
        f = Failure(name, loc, kind, list(st.pc), neg, list(st.inputs), list(st.trace)); f.model = model; f.bounded = st.bounded
        f.abstract = bool(st.ghost.get('abstract'))
        f.unknown = (r == z3.unknown)
        f.stack = [fr.fn.name + ':' + fr.blk for fr in st.frames]
        R.failures.append(f)
        if len(R.failures) >= self.maxfail: raise StopRun()

    # ------------------------------------------------------------------ memory
    def newobj(self, st, size, kind, init='undef', name='', log=None):
        i = self.fresh_id()
        o = Obj(i, size, kind, init, name or '%s%d' % (kind, i), log)
        if log is None and not isinstance(size, int):
            o.log = base('mem_%s_%d' % (o.name, i)) if init != 'zero' else fillnode(0)
        st.mem[i] = o; st.own.add(i)
        return o
    def getobj(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            if isinstance(oid, tuple) and oid[0] == 'g':
                o = self.globalobj(oid[1]); st.mem[oid] = o
            else: raise ToolLimit('no object %r' % (oid,))
        return o
    def wobj(self, st, oid):
        o = self.getobj(st, oid)
        if oid not in st.own:
            o = o.copy(); st.mem[oid] = o; st.own.add(oid)
        return o
    def globalobj(self, name):
        o = self.globobj.get(name)
        if o is None:
            g = self.m.glob(name)
            if g is None: raise ToolLimit('unknown global ' + name)
            try: size = self.m.sizeof(g['type'])
            except IRError: size = 1 << 20
            o = Obj(('g', name), size, 'global', 'zero' if g['init'] is not None else 'input', name, None, g['const'])
            if g['init'] is not None: self.init_cells(o, 0, g['type'], g['init'])
            self.globobj[name] = o
        return o
    def init_cells(self, o, off, ty, v):
        k = v[0]
        if k in ('zero', 'undef'): return
        t = self.m.rtype(ty)
        if k == 'c': o.cells[off] = (self.m.sizeof(t), v[1])
        elif k == 'null': o.cells[off] = (8, NULL)
        elif k == 'g': o.cells[off] = (8, self.gptr(v))
        elif k == 'str':
            for j, b in enumerate(v[1]):
                o.cells[off + j] = (1, b)
        elif k == 'agg':
            if t[0] == 'st':
                offs = self.m.layout(t)[2]
                for (et, ev), fo in zip(v[1], offs): self.init_cells(o, off + fo, et, ev)
            else:
                es = self.m.sizeof(t[2])
                for j, (et, ev) in enumerate(v[1]): self.init_cells(o, off + j * es, et, ev)
        elif k == 'fp': pass
        elif k == 'p2i' or k == 'cbin' or k == 'pint': pass
        else: raise ToolLimit('init ' + k)
    def gptr(self, v):
        n = self.m.aliases.get(v[1], v[1])
        if n in self.m.funcs_src or n in self.m.decls: return Fn(n)
        return Ptr(('g', n), v[2] & M64)

    def is_null(self, p):
        if isinstance(p, Ptr): return p.obj is None and isinstance(p.off, int) and p.off == 0
        return False
    def check_access(self, st, p, n, what):
        """bounds/liveness obligation; returns object"""
        if isinstance(p, (int,)) or is_sym(p) or isinstance(p, PInt):
            raise ToolLimit('pointer value %r' % (p,))
        if isinstance(p, Fn): raise ToolLimit('data access through function pointer')
        if p.obj is None:
            if self.quiet: raise PathEnd()
            self.obligation(st, 0, what + ':null-pointer', 'memory')
            raise PathEnd()
        o = self.getobj(st, p.obj)
        if not o.alive:
            self.obligation(st, 0, what + ':use-after-free(%s)' % o.kind, 'memory'); raise PathEnd()
        off = p.off; size = o.size
        if isinstance(off, int) and isinstance(size, int) and isinstance(n, int):
            ok = 1 if off + n <= size else 0
            if ok:
                if not self.quiet: self.res.memchk = getattr(self.res, 'memchk', 0) + 1
                return o
        else:
            # off <= size && n <= size - off
            ob = bv(off, 64); sb = bv(size, 64); nb = bv(n, 64)
            if isinstance(n, int) and n == 1:
                ok = z3.ULT(ob, sb)
            else:
                ok = z3.And(z3.ULE(ob, sb), z3.ULE(nb, sb - ob))
        self.obligation(st, ok, what + ':in-bounds', 'memory')
        return o
    def load(self, st, p, ty):
        t = self.m.rtype(ty)
        if t[0] in ('st', 'arr'):
            raise ToolLimit('aggregate load')
        n = self.m.sizeof(t)
        o = self.check_access(st, p, n, 'read')
        v = self.read(st, o, p.off, n, t)
        if t[0] == 'i' and t[1] < 8 * n:
            v = self.cast_trunc(v, t[1])
        return v
    def as_type(self, st, v, t, n):
        """reinterpret a stored cell value at the loaded type"""
        if t[0] == 'ptr':
            if isinstance(v, (Ptr, Fn)): return v
            if isinstance(v, PInt): return v.p
            if isinstance(v, int): return NULL if v == 0 else Ptr(None, v)
            return self.int2ptr(st, v)
        if t[0] == 'fp':
            if isinstance(v, tuple): return v
            raise ToolLimit('fp load')
        if isinstance(v, Ptr):
            if v.obj is None: return v.off
            return PInt(v)
        if isinstance(v, Fn): raise ToolLimit('fn ptr as int')
        return v
    def int2ptr(self, st, v):
        if isinstance(v, PInt): return v.p
        if isinstance(v, int): return NULL if v == 0 else Ptr(None, v)
        # recognise base(obj)+off
        p = self.recog_ptr(st, v)
        if p is not None: return p
        if self.prove(st, v == 0): return NULL
        raise ToolLimit('integer to pointer: %s' % str(v)[:100])
    def recog_ptr(self, st, v):
        """v is a sum with exactly one object base variable"""
        terms = []
        def flat(e):
            if z3.is_app_of(e, z3.Z3_OP_BADD):
                for c in e.children(): flat(c)
            else: terms.append(e)
        flat(z3.simplify(v))
        bases = [t for t in terms if z3.is_const(t) and t.decl().name().startswith('addr_')]
        if len(bases) != 1: return None
        oid = self.addr_objs.get(bases[0].decl().name())
        if oid is None: return None
        rest = [t for t in terms if t is not bases[0]]
        off = z3.simplify(sum(rest[1:], rest[0])) if rest else 0
        return Ptr(oid, simp(off) if not isinstance(off, int) else 0)
    addr_objs = {}
    def addr(self, st, p):
        """integer address of a pointer"""
        if p.obj is None: return p.off
        name = 'addr_%s' % (p.obj if not isinstance(p.obj, tuple) else p.obj[1])
        a = z3.BitVec(name, 64)
        self.addr_objs[name] = p.obj
        if ('addr', name) not in st.known:
            st.known[('addr', name)] = (True, None)
            o = self.getobj(st, p.obj)
            sz = bv(o.size, 64)
            self.assume(st, z3.And(z3.UGE(a, 4096), z3.ULE(a, z3.BitVecVal((1 << 47), 64)), z3.ULE(sz, z3.BitVecVal(1 << 46, 64)), (a & (o.align - 1)) == 0))
        return add64(a, p.off)

    def read(self, st, o, off, n, t):
        if o.log is not None:
            if o.cells and isinstance(off, int):
                c = o.cells.get(off)
                if c is not None and c[0] == n: return self.as_type(st, c[1], t, n)
            off = simp(off)
            bs = [self.readbyte(st, o, add64(off, k)) for k in range(n)]
            return self.as_type(st, concat_bytes(bs), t, n)
        if not isinstance(off, int):
            off = simp(off)
        if not isinstance(off, int):
            if o.size != 0 and isinstance(o.size, int) and o.size <= 1 << 16 and all(not isinstance(v, (Ptr, Fn, PInt)) for _, v in o.cells.values()) and o.init in ('zero', 'undef') and t[0] == 'i':
                o = self.to_log(st, o)
                return self.read(st, o, off, n, t)
            off = self.concretize(st, off)
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return self.as_type(st, c[1], t, n)
        # overlapping?
        ov = [(a, c) for a, c in o.cells.items() if a < off + n and a + c[0] > off]
        if not ov:
            if o.init == 'zero': return self.as_type(st, 0, t, n)
            if t[0] == 'ptr': raise ToolLimit('read of uninitialised pointer in %s+%d' % (o.name, off))
            if t[0] == 'fp': raise ToolLimit('fp')
            v = self.fresh('%s_%s_%d' % ('in' if o.init == 'input' else 'undef', o.name, off), 8 * n)
            w = self.wobj(st, o.id); w.cells[off] = (n, v)
            return v
        if len(ov) == 1 and ov[0][0] <= off and ov[0][0] + ov[0][1][0] >= off + n:
            a, (cn, cv) = ov[0]
            if isinstance(cv, (Ptr, PInt)):
                if isinstance(cv, Ptr) and cv.obj is None and isinstance(cv.off, int): cv = cv.off
                else: cv = bv(self.addr(st, cv if isinstance(cv, Ptr) else cv.p), 64)
            if isinstance(cv, Fn): raise ToolLimit('partial read of fn')
            if isinstance(cv, int): return self.as_type(st, (cv >> (8 * (off - a))) & ((1 << (8 * n)) - 1), t, n)
            if isinstance(cv, BoolRef): cv = bv(cv, 8)
            return self.as_type(st, simp(z3.Extract(8 * (off - a + n) - 1, 8 * (off - a), cv)), t, n)
        bs = [self.structbyte(st, o.id, off + k) for k in range(n)]
        return self.as_type(st, concat_bytes(bs), t, n)
    def structbyte(self, st, oid, off):
        o = self.getobj(st, oid)
        for a, (cn, cv) in o.cells.items():
            if a <= off < a + cn:
                if isinstance(cv, (Ptr, PInt)):
                    if isinstance(cv, Ptr) and cv.obj is None and isinstance(cv.off, int): cv = cv.off
                    else: cv = bv(self.addr(st, cv if isinstance(cv, Ptr) else cv.p), 64)
                if isinstance(cv, Fn): raise ToolLimit('fn byte')
                return split_byte(cv, cn, off - a)
        if o.init == 'zero': return 0
        v = self.fresh('%s_%s_%d' % ('in' if o.init == 'input' else 'undef', o.name, off), 8)
        self.wobj(st, oid).cells[off] = (1, v)
        return v
    def readbyte(self, st, o, off):
        v = select(o.log, off)
        for h in st.hyps:
            if h[0] == o.id or h[0] == '*' : self.inst_hyp(st, h, off)
        return v
    def inst_hyp(self, st, h, off):
        # h = (objid, tag, fn(off)->Bool)
        k = ('h', h[1], off if isinstance(off, int) else off.get_id())
        if k in st.known: return
        st.known[k] = (True, off)
        f = h[2](off)
        if f is None: return
        f = fold(z3.simplify(f)) if not isinstance(f, int) else f
        if not isinstance(f, int): self.assume(st, f)
        elif not f: raise Infeasible()
    def inst_terms(self, st, e):
        """instantiate the quantified hypotheses at every byte index a formula mentions"""
        if not st.hyps or not is_sym(e): return
        arr = {}
        for h in st.hyps:
            o = st.mem.get(h[0])
            if o is not None and o.log is not None and o.log.kind == 'base': arr.setdefault(o.log.v.name(), []).append(h)
            elif len(h) > 3:
                for nm in h[3]: arr.setdefault(nm, []).append(h)
        if not arr: return
        seen = set(); stk = [e]
        while stk:
            x = stk.pop(); i = x.get_id()
            if i in seen: continue
            seen.add(i)
            if z3.is_app(x):
                if x.num_args() == 1 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    for h in arr.get(x.decl().name(), ()): self.inst_hyp(st, h, simp(x.arg(0)))
                stk.extend(x.children())
    def to_log(self, st, o):
        """turn a cell object without pointers into a byte log"""
        w = self.wobj(st, o.id)
        if isinstance(w.size, int) and w.init == 'zero':
            node = fillnode(0)
        else:
            node = base('mem_%s_%d' % (w.name, self.fresh_id()))
        # all-constant cells: compact
        if w.init == 'zero' and isinstance(w.size, int) and w.size <= 4096 and all(isinstance(v, int) for _, v in w.cells.values()):
            b = bytearray(w.size)
            for a, (cn, cv) in w.cells.items():
                b[a:a+cn] = cv.to_bytes(cn, 'little')
            node = const_bytes(b)
        else:
            for a, (cn, cv) in sorted(w.cells.items()):
                if isinstance(cv, (Ptr, Fn, PInt)): raise ToolLimit('log with pointers')
                for k in range(cn): node = w1(node, a + k, split_byte(cv, cn, k))
        w.log = node; w.cells = {}
        return w
    def store(self, st, p, v, ty):
        t = self.m.rtype(ty)
        n = self.m.sizeof(t)
        o = self.check_access(st, p, n, 'write')
        if o.ro:
            self.obligation(st, 0, 'write:read-only-object', 'memory'); raise PathEnd()
        if t[0] in ('st', 'arr'): raise ToolLimit('aggregate store')
        if t[0] == 'i' and t[1] == 1 and isinstance(v, BoolRef): v = bv(v, 8)
        if t[0] == 'i' and t[1] != 8 * n and t[1] != 1:
            v = v if isinstance(v, int) else simp(z3.ZeroExt(8 * n - t[1], v))
        self.write(st, o.id, p.off, n, v)
    def write(self, st, oid, off, n, v):
        if st.writes is not None: st.writes.append((oid, off, n))
        o = self.wobj(st, oid)
        if o.log is not None:
            if isinstance(v, (Ptr, Fn, PInt)):
                if isinstance(v, Ptr) and v.obj is None and isinstance(v.off, int): v = v.off
                elif isinstance(off, int):
                    o.cells[off] = (n, v); return
                else: raise ToolLimit('pointer into byte log')
            if o.cells and isinstance(off, int):
                for a in [a for a, c in o.cells.items() if a < off + n and a + c[0] > off]: del o.cells[a]
            elif o.cells: raise ToolLimit('symbolic write over pointer cells')
            off = simp(off)
            for k in range(n): o.log = w1(o.log, add64(off, k), split_byte(v, n, k))
            return
        if not isinstance(off, int): off = simp(off)
        if not isinstance(off, int):
            if not isinstance(v, (Ptr, Fn, PInt)) and all(not isinstance(x, (Ptr, Fn, PInt)) for _, x in o.cells.values()) and o.init in ('zero', 'undef'):
                o = self.to_log(st, o); return self.write(st, oid, off, n, v)
            off = self.concretize(st, off)
        c = o.cells.get(off)
        if c is None or c[0] != n:
            for a in [a for a, c in o.cells.items() if a < off + n and a + c[0] > off]:
                cn, cv = o.cells.pop(a)
                if a < off or a + cn > off + n:
                    # keep the bytes outside
                    if isinstance(cv, (Ptr, PInt)):
                        if isinstance(cv, Ptr) and cv.obj is None and isinstance(cv.off, int): cv = cv.off
                        else: cv = bv(self.addr(st, cv if isinstance(cv, Ptr) else cv.p), 64)
                    if isinstance(cv, Fn): raise ToolLimit('partial overwrite of fn')
                    for k in range(cn):
                        if not (off <= a + k < off + n): o.cells[a + k] = (1, split_byte(cv, cn, k))
        o.cells[off] = (n, v)
    def mcopy(self, st, d, s, n, what='memcpy'):
        """memmove semantics"""
        n = simp(n)
        if not isinstance(n, int):
            if self.decide(st, n == 0): return
        elif n == 0: return
        so = self.check_access(st, s, n, what + '-read')
        do = self.check_access(st, d, n, what + '-write')
        if do.ro:
            self.obligation(st, 0, 'write:read-only-object', 'memory'); raise PathEnd()
        if st.writes is not None: st.writes.append((do.id, d.off, n))
        doff = simp(d.off); soff = simp(s.off)
        if isinstance(n, int) and isinstance(doff, int) and isinstance(soff, int) and (so.log is None or (so.cells and False)) and do.log is None:
            if so.size == n or n <= 4096:
                cells = []
                covered = 0
                for a, (cn, cv) in list(so.cells.items()):
                    if a >= soff and a + cn <= soff + n: cells.append((a - soff, cn, cv)); covered += cn
                    elif a < soff + n and a + cn > soff:
                        if isinstance(cv, (Ptr, Fn, PInt)):
                            if isinstance(cv, Fn): raise ToolLimit('memcpy splits pointer')
                            cv = bv(self.addr(st, cv if isinstance(cv, Ptr) else cv.p), 64)
                        for k in range(cn):
                            if soff <= a + k < soff + n: cells.append((a + k - soff, 1, split_byte(cv, cn, k))); covered += 1
                if covered < n and so.init == 'zero':
                    have = set()
                    for a, cn, _ in cells: have.update(range(a, a + cn))
                    k = 0
                    while k < n:
                        if k not in have:
                            if k % 8 == 0 and not any((k + j) in have for j in range(min(8, n - k))) and k + 8 <= n: cells.append((k, 8, 0)); k += 8; continue
                            cells.append((k, 1, 0))
                        k += 1
                elif covered < n:
                    have = set()
                    for a, cn, _ in cells: have.update(range(a, a + cn))
                    k = 0
                    while k < n:
                        if k in have: k += 1; continue
                        w = 8
                        while w > 1 and (k % w or k + w > n or any((k + j) in have for j in range(w))): w //= 2
                        v = self.fresh('%s_%s_%d' % ('in' if so.init == 'input' else 'undef', so.name, soff + k), 8 * w)
                        if so.init == 'input': self.wobj(st, so.id).cells[soff + k] = (w, v)
                        else: self.wobj(st, so.id).cells[soff + k] = (w, v)
                        cells.append((k, w, v)); k += w
                sv, st.writes = st.writes, None
                # clear destination range first
                dob = self.wobj(st, do.id)
                for a in [a for a, c in dob.cells.items() if a >= doff and a + c[0] <= doff + n]: del dob.cells[a]
                for a, cn, cv in cells: self.write(st, do.id, doff + a, cn, cv)
                st.writes = sv
                return
        # byte-log copy
        if so.log is None:
            if any(isinstance(v, (Ptr, Fn, PInt)) and not (isinstance(v, Ptr) and v.obj is None) for _, v in so.cells.values()):
                if isinstance(n, int) and isinstance(soff, int) and n <= 64:
                    pass
                else:
                    nn = self.concretize(st, n); ss = self.concretize(st, soff)
                    dd = doff if nn <= 64 else self.concretize(st, doff)
                    return self.mcopy(st, Ptr(d.obj, dd), Ptr(s.obj, ss), nn, what)
        if isinstance(n, int) and n <= 16 and isinstance(soff, int) is False or (isinstance(n, int) and n <= 64 and isinstance(soff, int) and so.log is None and any(isinstance(v, Ptr) for _, v in so.cells.values())) or (isinstance(n, int) and n <= 8 and (so.log is None or do.log is None)):
            bs = [self.rb(st, so.id, add64(soff, k)) for k in range(n)]
            sv, st.writes = st.writes, None
            for k in range(n): self.write(st, do.id, add64(doff, k), 1, bs[k])
            st.writes = sv
            return
        if so.log is None: so = self.to_log(st, so)
        if do.log is None:
            do = self.getobj(st, do.id)
            if do.cells and any(isinstance(v, (Ptr, Fn, PInt)) for _, v in do.cells.values()):
                if isinstance(n, int) and isinstance(doff, int):
                    srcn = so.log
                    for k in range(n): self.write(st, do.id, doff + k, 1, select(srcn, add64(soff, k)))
                    return
            do = self.to_log(st, do)
        do = self.wobj(st, do.id)
        if so.cells or do.cells: raise ToolLimit('log copy over pointer cells')
        do.log = wcopy(do.log, doff, n, self.getobj(st, so.id).log, soff)
        self.models.copy_hyps(self, st, so.id, do.id, soff, doff, n)
    def rb(self, st, oid, off):
        o = self.getobj(st, oid)
        if o.log is not None: return self.readbyte(st, o, off)
        if not isinstance(off, int): off = simp(off)
        if not isinstance(off, int):
            o = self.to_log(st, o); return self.readbyte(st, o, off)
        return self.structbyte(st, oid, off)
    def mfill(self, st, d, n, val):
        n = simp(n)
        if not isinstance(n, int):
            if self.decide(st, n == 0): return
        elif n == 0: return
        do = self.check_access(st, d, n, 'memset')
        if st.writes is not None: st.writes.append((do.id, d.off, n))
        doff = simp(d.off)
        if do.log is None and isinstance(n, int) and isinstance(doff, int) and n <= 65536:
            dob = self.wobj(st, do.id)
            for a in [a for a, c in dob.cells.items() if a >= doff and a + c[0] <= doff + n]: del dob.cells[a]
            k = 0
            sv, st.writes = st.writes, None
            while k < n:
                w = 8 if (k + doff) % 8 == 0 and k + 8 <= n else 1
                if isinstance(val, int): x = int.from_bytes(bytes([val & 255]) * w, 'little')
                else: w = 1; x = val
                self.write(st, do.id, doff + k, w, x); k += w
            st.writes = sv
            return
        if do.log is None: do = self.to_log(st, do)
        do = self.wobj(st, do.id)
        if do.cells: raise ToolLimit('fill over pointer cells')
        do.log = wfill(do.log, doff, n, val)

    # ------------------------------------------------------------------ expressions
    def cast_trunc(self, v, w):
        if isinstance(v, int): return v & ((1 << w) - 1)
        if isinstance(v, PInt): raise ToolLimit('trunc of pointer')
        if isinstance(v, BoolRef): return v
        if w == 1:
            e = z3.simplify(z3.Extract(0, 0, v) == 1); return fold(e)
        if v.size() == w: return v
        return simp(z3.Extract(w - 1, 0, v))
    def val(self, st, fr, op, ty):
        k = op[0]
        if k == 'v': 
            try: return fr.env[op[1]]
            except KeyError: raise ToolLimit('undefined value %%%s in %s' % (op[1], fr.fn.name))
        if k == 'c': return op[1]
        if k == 'g': return self.gptr(op)
        if k == 'null': return NULL
        if k == 'undef':
            t = self.m.rtype(op[1])
            if t[0] == 'st': return [self.val(st, fr, ('undef', x), x) for x in t[1]]
            if t[0] == 'arr': return [self.val(st, fr, ('undef', t[2]), t[2]) for _ in range(t[1])]
            if t[0] == 'ptr': return NULL
            if t[0] == 'fp': return ('fp', 'undef')
            return self.fresh('undef', t[1])
        if k == 'zero':
            t = self.m.rtype(op[1])
            if t[0] == 'st': return [self.val(st, fr, ('zero', x), x) for x in t[1]]
            if t[0] == 'arr': return [self.val(st, fr, ('zero', t[2]), t[2]) for _ in range(t[1])]
            if t[0] == 'ptr': return NULL
            return 0
        if k == 'agg': return [self.val(st, fr, v, t) for t, v in op[1]]
        if k == 'pint': return Ptr(None, op[1])
        if k == 'p2i':
            return PInt(self.val(st, fr, op[1], PTR))
        if k == 'fp': return op
        raise ToolLimit('operand ' + k)

    def binop(self, st, op, a, b, w, flags):
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt) and a.p.obj == b.p.obj:
                return sub64(a.p.off, b.p.off)
            if isinstance(a, PInt): a2 = self.addr(st, a.p)
            else: a2 = a
            b2 = self.addr(st, b.p) if isinstance(b, PInt) else b
            if op == 'add' and isinstance(a, PInt) and not isinstance(b, PInt): return PInt(Ptr(a.p.obj, add64(a.p.off, b)))
            if op == 'sub' and isinstance(a, PInt) and not isinstance(b, PInt): return PInt(Ptr(a.p.obj, sub64(a.p.off, b)))
            if op == 'and' and isinstance(a, PInt) and isinstance(b, int):
                # alignment test of a low mask against an aligned base
                o = self.getobj(st, a.p.obj) if a.p.obj is not None else None
                if o is not None and b < o.align: 
                    return (a.p.off & b) if isinstance(a.p.off, int) else simp(bv(a.p.off, 64) & b)
            a, b = a2, b2
        if isinstance(a, int) and isinstance(b, int):
            mask = (1 << w) - 1
            def s(x): return x - (1 << w) if x >> (w - 1) else x
            if op == 'add': return (a + b) & mask
            if op == 'sub': return (a - b) & mask
            if op == 'mul': return (a * b) & mask
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) & mask if b < w else 0
            if op == 'lshr': return a >> b if b < w else 0
            if op == 'ashr': return (s(a) >> b) & mask if b < w else (mask if s(a) < 0 else 0)
            if op in ('udiv', 'urem', 'sdiv', 'srem') :
                if b == 0:
                    self.obligation(st, 0, 'division-by-zero', 'arith'); raise PathEnd()
                if op == 'udiv': return a // b
                if op == 'urem': return a % b
                q = abs(s(a)) // abs(s(b)); q = -q if (s(a) < 0) != (s(b) < 0) else q
                if op == 'sdiv': return q & mask
                return (s(a) - q * s(b)) & mask
        if w == 1:
            A = tobool(a); B = tobool(b)
            if op == 'and': r = z3.And(A, B)
            elif op == 'or': r = z3.Or(A, B)
            elif op in ('xor', 'add', 'sub'): r = z3.Xor(A, B)
            else: raise ToolLimit('i1 ' + op)
            return fold(z3.simplify(r))
        # identities
        if isinstance(b, int):
            if b == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'): return a
            if b == 0 and op in ('and', 'mul'): return 0
            if b == 1 and op in ('mul', 'udiv', 'sdiv'): return a
        if isinstance(a, int) and a == 0:
            if op in ('add', 'or', 'xor'): return b
            if op in ('and', 'mul', 'shl', 'lshr', 'ashr'): return 0
        A = bv(a, w); B = bv(b, w)
        if op == 'add': r = A + B
        elif op == 'sub': r = A - B
        elif op == 'mul': r = A * B
        elif op == 'and': r = A & B
        elif op == 'or': r = A | B
        elif op == 'xor': r = A ^ B
        elif op == 'shl': r = A << B
        elif op == 'lshr': r = z3.LShR(A, B)
        elif op == 'ashr': r = A >> B
        elif op in ('udiv', 'urem', 'sdiv', 'srem'):
            if not isinstance(b, int): self.obligation(st, B != 0, 'division-by-zero', 'arith')
            elif op in ('sdiv', 'udiv') and b & (b - 1) == 0:
                q = exact_quotient(A, b, w)
                if q is not None: return simp(q)
            r = {'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda x, y: x / y, 'srem': z3.SRem}[op](A, B)
        else: raise ToolLimit('binop ' + op)
        return simp(r)
    def icmp(self, st, pred, a, b, ty):
        if ty[0] == 'ptr' or isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            return self.pcmp(st, pred, a, b)
        w = ty[1]
        if isinstance(a, PInt) or isinstance(b, PInt):
            if isinstance(a, PInt) and isinstance(b, PInt): return self.pcmp(st, pred, a.p, b.p)
            if isinstance(a, PInt) and isinstance(b, int) and b == 0 and pred in ('eq', 'ne'): return self.pcmp(st, pred, a.p, NULL)
            a = self.addr(st, a.p) if isinstance(a, PInt) else a
            b = self.addr(st, b.p) if isinstance(b, PInt) else b
        if isinstance(a, int) and isinstance(b, int):
            def s(x): return x - (1 << w) if x >> (w - 1) else x
            return int({'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b,
                    'slt': s(a) < s(b), 'sle': s(a) <= s(b), 'sgt': s(a) > s(b), 'sge': s(a) >= s(b)}[pred])
        if w == 1:
            A = tobool(a); B = tobool(b)
            if pred == 'eq': r = A == B
            elif pred == 'ne': r = A != B
            else: raise ToolLimit('i1 icmp ' + pred)
            return fold(z3.simplify(r))
        A = bv(a, w); B = bv(b, w)
        r = {'eq': lambda: A == B, 'ne': lambda: A != B, 'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B),
             'ugt': lambda: z3.UGT(A, B), 'uge': lambda: z3.UGE(A, B), 'slt': lambda: A < B, 'sle': lambda: A <= B,
             'sgt': lambda: A > B, 'sge': lambda: A >= B}[pred]()
        return fold(z3.simplify(r))
    def pcmp(self, st, pred, a, b):
        if isinstance(a, PInt): a = a.p
        if isinstance(b, PInt): b = b.p
        if isinstance(a, int): a = Ptr(None, a)
        if isinstance(b, int): b = Ptr(None, b)
        if isinstance(a, Fn) or isinstance(b, Fn):
            same = isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name
            if pred in ('eq', 'ne'): return int(same == (pred == 'eq'))
            raise ToolLimit('fn compare')
        if a.obj == b.obj:
            A, B = a.off, b.off
            if isinstance(A, int) and isinstance(B, int):
                def s(x): return x - (1 << 64) if x >> 63 else x
                A = s(A); B = s(B)
                return int({'eq': A == B, 'ne': A != B, 'ult': A < B, 'ule': A <= B, 'ugt': A > B, 'uge': A >= B}[pred])
            A = bv(A, 64); B = bv(B, 64)
            # offsets within an object compare like addresses (objects do not wrap); signed handles one-before
            r = {'eq': lambda: A == B, 'ne': lambda: A != B, 'ult': lambda: A < B, 'ule': lambda: A <= B, 'ugt': lambda: A > B, 'uge': lambda: A >= B}[pred]()
            return fold(z3.simplify(r))
        if a.obj is None or b.obj is None:
            x, y = (a, b) if a.obj is None else (b, a)
            if isinstance(x.off, int) and x.off < 4096:
                # null-ish against a real object
                if pred == 'eq': return 0
                if pred == 'ne': return 1
                lt = {'ult': 1, 'ule': 1, 'ugt': 0, 'uge': 0}[pred]
                return lt if a.obj is None else 1 - lt
        if pred == 'eq': return 0
        if pred == 'ne': return 1
        A = bv(self.addr(st, a), 64); B = bv(self.addr(st, b), 64)
        return fold(z3.simplify({'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE}[pred](A, B)))
    def cast(self, st, op, v, sty, dty):
        if op in ('fptoui', 'fptosi', 'uitofp', 'sitofp', 'fptrunc', 'fpext'):
            raise ToolLimit('floating point')
        if op == 'ptrtoint':
            if isinstance(v, Ptr) and v.obj is None: return v.off
            if dty[1] != 64: raise ToolLimit('ptrtoint width')
            return PInt(v)
        if op == 'inttoptr': return self.int2ptr(st, v)
        if op == 'bitcast': return v
        w = dty[1]; sw = sty[1]
        if op == 'trunc':
            if isinstance(v, PInt): v = bv(self.addr(st, v.p), 64)
            return self.cast_trunc(v, w)
        if isinstance(v, PInt): raise ToolLimit('ext of pointer')
        if isinstance(v, int):
            if op == 'zext': return v
            return v | (((1 << w) - 1) ^ ((1 << sw) - 1)) if v >> (sw - 1) else v
        if isinstance(v, BoolRef):
            return z3.If(v, z3.BitVecVal(1 if op == 'zext' else (1 << w) - 1, w), z3.BitVecVal(0, w))
        return simp(z3.ZeroExt(w - sw, v) if op == 'zext' else z3.SignExt(w - sw, v))
    def select(self, st, c, a, b):
        c = fold(c)
        if isinstance(c, int): return a if c else b
        if isinstance(a, (Ptr, Fn, PInt, list)) or isinstance(b, (Ptr, Fn, PInt, list)):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.obj is not None:
                return Ptr(a.obj, simp(z3.If(c, bv(a.off, 64), bv(b.off, 64))))
            return a if self.decide(st, c) else b
        if isinstance(a, int) and isinstance(b, int):
            if a == b: return a
        if isinstance(a, BoolRef) or isinstance(b, BoolRef):
            return fold(z3.simplify(z3.If(c, tobool(a), tobool(b))))
        w = a.size() if is_sym(a) else (b.size() if is_sym(b) else None)
        return ('W', c, a, b) if w is None else simp(z3.If(c, bv(a, w), bv(b, w)))

    # ------------------------------------------------------------------ running
    def run(self, harness, args=()):
        t0 = time.time(); self.t0 = t0
        while True:
            self.res.wall = time.time() - t0
            keep = self.res
            self.res = Result(); self.res.cuts = keep.cuts
            st = State()
            f = self.m.func(harness)
            if f is None: raise ToolLimit('no harness ' + harness)
            try:
                st = self.static_init(st, harness)
                st.frames.append(Frame(f, None))
                for (ty, pn, at), v in zip(f.params, args): st.frames[0].env[pn] = v
                self.explore([st])
                break
            except NeedCut as nc:
                self.quiet = False
                self.cuts.add((nc.fn, nc.hdr))
                continue
            except StopRun:
                break
        R = self.res; R.wall = time.time() - t0; R.solver_calls = self.solver.calls; R.solver_time = self.solver.time
        return R
    def static_init(self, st, harness):
        """runs the dynamic initialisers of the globals the harness can reach"""
        for g in self.m.static_inits(harness):
            out = []
            s = st.clone(); s.frames.append(Frame(self.m.func(g), None))
            self.explore([s], lambda r, x: out.append((r, x)))
            if len(out) == 1 and out[0][0][0] == 'ret': st = out[0][1]; st.frames = []; st.ghost.pop('__ret', None); st.ghost.pop('__event', None)
            else: raise ToolLimit('static initialiser %s' % g)
        return st
    def explore(self, work, on_end=None):
        """run until the worklist is empty; on_end(kind, state, info) is called for terminated paths"""
        while work:
            st = work.pop()
            if time.time() - self.t0 > self.max_time:
                self.res.limits.append('time limit'); raise StopRun()
            self.run_path(st, work, on_end)
    def run_path(self, st, work, on_end):
        try:
            while True:
                r = st.ghost.pop('__event', None)
                if r is None: r = self.step(st, work)
                if r is not None:
                    if on_end: on_end(r, st)
                    else: self.path_done(r, st)
                    return
        except Infeasible: return
        except PathEnd:
            self.res.paths += 1; return
        except ToolLimit as e:
            if self.quiet: raise
            self.res.limits.append('%s @ %s' % (e, self.loc(st)))
            return
    def path_done(self, r, st):
        self.res.paths += 1
        if self.res.paths > self.max_paths:
            self.res.limits.append('path limit'); raise StopRun()
        if r[0] == 'throw':
            try: self.obligation(st, 0, 'uncaught-exception:' + str(r[1]), 'exception')
            except (PathEnd, Infeasible): pass

    def goto(self, st, fr, lab, work):
        """transfer to block lab, evaluating phis; returns stop event or None"""
        prev = fr.blk
        code = fr.fn.blocks[lab]
        # phis
        i = 0; newv = []
        while i < len(code) and code[i].op == 'phi':
            ins = code[i]
            newv.append((ins.dst, self.val(st, fr, ins.a[prev], ins.ty))); i += 1
        for d, v in newv: fr.env[d] = v
        fr.prev = prev; fr.blk = lab; fr.code = code; fr.idx = i
        loops = loops_of(fr.fn)
        if lab in loops:
            if prev in loops[lab]:
                tot = fr.cnt.get((lab, 't'), 0) + 1; fr.cnt[(lab, 't')] = tot
                n = fr.cnt.get(lab, 0)
                if fr.cnt.get((lab, 'pc')) != len(st.pc): n += 1      # only iterations that depended on symbolic data count
                fr.cnt[lab] = n; fr.cnt[(lab, 'pc')] = len(st.pc)
                if st.stop is not None and st.stop.backedge(self, st, fr, lab): return ('backedge', lab)
                if n > self.unroll_limit(fr, lab) or tot > 3000:
                    key = (fr.fn.name, lab)
                    if self.cut and not self.quiet_nocut and key not in self.cuts and not any(x in fr.fn.name for x in self.nocut):
                        raise NeedCut(*key)
                    self.res.bounded.add('%s:%s unrolled %d' % (fr.fn.name, lab, n))
                    raise PathEnd()
                # loops nested inside restart their count
                for h in loops:
                    if h != lab and h in loops[lab]:
                        fr.cnt.pop(h, None); fr.cnt.pop((h, 't'), None)
            else:
                fr.cnt[lab] = 0; fr.cnt[(lab, 't')] = 0; fr.cnt[(lab, 'pc')] = len(st.pc)
                if (fr.fn.name, lab) in self.cuts:
                    from . import loops as L
                    try: return L.process(self, st, fr, lab, work)
                    except Fork: raise ToolLimit('fork at loop entry')
        if st.stop is not None and st.stop.check(self, st, fr, prev, lab): return ('exit', lab)
        return None
    quiet_nocut = False
    def unroll_limit(self, fr, lab):
        return self.unroll

    def step(self, st, work):
        fr = st.frames[-1]
        code = fr.code
        while True:
            ins = code[fr.idx]
            op = ins.op
            st.steps += 1
            if st.steps > self.max_steps: raise ToolLimit('step limit')
            try:
                if op == 'bin':
                    o, a, b = ins.a
                    fr.env[ins.dst] = self.fixw(self.binop(st, o, self.val(st, fr, a, ins.ty), self.val(st, fr, b, ins.ty), ins.ty[1] if ins.ty[0] == 'i' else self.badty(ins), ins.x), ins.ty)
                elif op == 'load': fr.env[ins.dst] = self.load(st, self.val(st, fr, ins.a, PTR), ins.ty)
                elif op == 'store': self.store(st, self.val(st, fr, ins.a[1], PTR), self.val(st, fr, ins.a[0], ins.ty), ins.ty)
                elif op == 'gep': fr.env[ins.dst] = self.gep(st, fr, ins)
                elif op == 'icmp':
                    p, a, b, ty = ins.a
                    fr.env[ins.dst] = self.icmp(st, p, self.val(st, fr, a, ty), self.val(st, fr, b, ty), ty)
                elif op == 'cast':
                    o, v, sty = ins.a
                    fr.env[ins.dst] = self.cast(st, o, self.val(st, fr, v, sty), self.m.rtype(sty), self.m.rtype(ins.ty))
                elif op == 'br':
                    c = fold(self.val(st, fr, ins.a[0], None))
                    if isinstance(c, int): lab = ins.a[1] if c else ins.a[2]
                    elif ins.a[1] == ins.a[2]: lab = ins.a[1]
                    else:
                        tf, ff, mt, mf = self.split(st, c)
                        if tf and ff:
                            o = st.clone()
                            self.assume(o, z3.Not(c), mf)
                            r = self.goto_safe(o, ins.a[2], work)
                            self.assume(st, c, mt); lab = ins.a[1]
                        elif tf:
                            lab = ins.a[1]
                        else:
                            lab = ins.a[2]
                            if not ff: raise Infeasible()
                    r = self.goto(st, fr, lab, work)
                    if r is not None: return r if r != 'done' else ('done',)
                    return None if st.frames[-1] is not fr else self.cont(st)
                elif op == 'jmp':
                    r = self.goto(st, fr, ins.a, work)
                    if r is not None: return r
                    return None
                elif op == 'switch':
                    v = self.val(st, fr, ins.a[0], ins.ty); v = fold(v)
                    if isinstance(v, int):
                        lab = ins.a[1]
                        for c, l in ins.a[2]:
                            if c == v: lab = l; break
                    else:
                        w = ins.ty[1]; alts = []
                        groups = {}
                        for c, l in ins.a[2]: groups.setdefault(l, []).append(v == z3.BitVecVal(c, w))
                        dflt = z3.And(*[v != z3.BitVecVal(c, w) for c, l in ins.a[2]]) if ins.a[2] else z3.BoolVal(True)
                        for l, cs in groups.items(): alts.append((z3.Or(*cs), l))
                        alts.append((dflt, ins.a[1]))
                        ok = []
                        for c, l in alts:
                            r, m = self.solver.check(st.pc, c)
                            if r != z3.unsat: ok.append((c, l, m))
                        if not ok: raise Infeasible()
                        for c, l, m in ok[1:]:
                            o = st.clone(); self.assume(o, c, m); self.goto_safe(o, l, work)
                        self.assume(st, ok[0][0], ok[0][2]); lab = ok[0][1]
                    r = self.goto(st, fr, lab, work)
                    if r is not None: return r
                    return None
                elif op == 'phi': raise ToolLimit('phi outside goto')
                elif op == 'select':
                    c, a, b = ins.a
                    v = self.select(st, self.val(st, fr, c, None), self.val(st, fr, a, ins.ty), self.val(st, fr, b, ins.ty))
                    if isinstance(v, tuple) and v[0] == 'W':
                        t = ins.ty
                        v = fold(z3.simplify(z3.If(v[1], tobool(v[2]), tobool(v[3])))) if t[1] == 1 else z3.If(v[1], bv(v[2], t[1]), bv(v[3], t[1]))
                    fr.env[ins.dst] = v
                elif op == 'call':
                    r = self.call(st, fr, ins, work)
                    if r is not None: return r
                    if st.frames[-1] is not fr or fr.code is not code: return None
                    continue
                elif op == 'ret':
                    v = None if ins.a is None else self.val(st, fr, ins.a, ins.ty)
                    return self.do_ret(st, v, work)
                elif op == 'alloca':
                    ty, n = ins.a
                    nn = self.val(st, fr, n, None)
                    if not isinstance(nn, int): raise ToolLimit('dynamic alloca')
                    o = self.newobj(st, self.m.sizeof(ty) * nn, 'stack', 'undef', (ins.dst or 'a').replace('!', ''))
                    fr.allocas.append(o.id)
                    fr.env[ins.dst] = Ptr(o.id, 0)
                elif op == 'extractvalue':
                    v, idx = ins.a; x = self.val(st, fr, v, None)
                    for i in idx: x = x[i]
                    fr.env[ins.dst] = x
                elif op == 'insertvalue':
                    v, e, idx = ins.a; x = list(self.val(st, fr, v, ins.ty)); top = x
                    for i in idx[:-1]: x[i] = list(x[i]); x = x[i]
                    x[idx[-1]] = self.val(st, fr, e, None); fr.env[ins.dst] = top
                elif op == 'copy': fr.env[ins.dst] = self.val(st, fr, ins.a, ins.ty)
                elif op == 'landingpad':
                    fr.env[ins.dst] = [st.exc[1], st.exc[2]]
                elif op == 'resume':
                    return self.unwind(st, st.exc[0], st.exc[1], work)
                elif op == 'unreachable':
                    if self.quiet: raise PathEnd()
                    self.obligation(st, 0, 'unreachable-reached', 'ub'); raise PathEnd()
                elif op == 'nop': pass
                elif op == 'atomicrmw':
                    o, p, v = ins.a
                    pv = self.val(st, fr, p, PTR); old = self.load(st, pv, ins.ty); x = self.val(st, fr, v, ins.ty)
                    new = self.binop(st, o, old, x, ins.ty[1], []) if o != 'xchg' else x
                    self.store(st, pv, new, ins.ty); fr.env[ins.dst] = old
                else: raise ToolLimit('instruction ' + op + ' ' + str(ins.a))
            except Fork as f:
                self.dofork(st, f, work)
                return ('forked',) if False else self._dead()
            fr.idx += 1
    def _dead(self): raise Infeasible()
    def cont(self, st): return None
    def badty(self, ins): raise ToolLimit('type of ' + str(ins.ty))
    def fixw(self, v, ty): return v
    def dofork(self, st, f, work):
        for c, kn, m in reversed(f.alts):
            o = st.clone()
            try: self.assume(o, c, m)
            except Infeasible: continue
            if kn is not None: o.known[kn[0]] = (kn[1], kn[2])
            work.append(o)
    def goto_safe(self, o, lab, work):
        """enter a block in a forked state and queue it"""
        try:
            r = self.goto(o, o.frames[-1], lab, work)
        except Infeasible: return
        except PathEnd:
            return
        except Fork as f:
            raise ToolLimit('fork in goto')
        if r is None: work.append(o)
        else: self.pending(o, r, work)
    def pending(self, o, r, work):
        o.ghost['__event'] = r
        work.append(o)
    def gep(self, st, fr, ins):
        b, off, dyn = ins.a
        p = self.val(st, fr, b, PTR)
        if isinstance(p, (Fn,)): raise ToolLimit('gep on fn')
        if not isinstance(p, Ptr): p = self.int2ptr(st, p)
        o = add64(p.off, off & M64)
        for sc, v, it in dyn:
            x = self.val(st, fr, v, it)
            if isinstance(x, PInt): raise ToolLimit('gep idx ptr')
            if it[1] != 64: x = self.cast(st, 'sext', x, it, ('i', 64))
            if sc != 1: x = self.binop(st, 'mul', x, sc, 64, [])
            o = add64(o, x)
        return Ptr(p.obj, o)

    # ------------------------------------------------------------------ calls
    def do_ret(self, st, v, work):
        fr = st.frames.pop()
        for a in fr.allocas:
            if a in st.mem:
                self.wobj(st, a).alive = False
                del st.mem[a]; st.own.discard(a)
                st.mem[a] = DEAD
        if not st.frames or fr.call is None:
            st.ghost['__ret'] = v
            return ('ret', v)
        c = st.frames[-1]; ins = fr.call
        if st.stop is not None and st.stop.ret(self, st): 
            return ('leave', 'ret')
        if ins.dst is not None: c.env[ins.dst] = v
        if ins.a[2]:
            r = self.goto(st, c, ins.a[2], work)
            if r is not None: return r
        else: c.idx += 1
        return None
    def resolve_stub(self, name):
        r = self.hookcache.get(name)
        if r is None:
            r = ('none',)
            d = self.m.demangle().get(name, name)
            if name in self.user_exact: r = ('h', self.user_exact[name])
            else:
                for pat, tgt in self.stubs.items():
                    if re.search(pat, d):
                        if callable(tgt): r = ('h', tgt)
                        else:
                            r = ('s', tgt)
                        break
                else:
                    if name in self.exact: r = ('h', self.exact[name])
                    else:
                        for pat, h in self.hooks:
                            if pat.search(d): r = ('h', h); break
            self.hookcache[name] = r
        return r
    def call(self, st, fr, ins, work):
        callee, args, nrm, unw = ins.a
        if callee[0] == 'v':
            f = fr.env[callee[1]]
            if isinstance(f, Ptr):
                if self.is_null(f):
                    self.obligation(st, 0, 'call:null-function-pointer', 'memory'); raise PathEnd()
                raise ToolLimit('call through data pointer')
            name = f.name
        elif callee[0] == 'g': name = callee[1]
        else: raise ToolLimit('asm call')
        name = self.m.aliases.get(name, name)
        if name.startswith('llvm.'):
            if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime') or name.startswith('llvm.experimental.noalias') or name.startswith('llvm.assume') or name.startswith('llvm.prefetch'):
                fr.idx += 1; return None
        av = [self.val(st, fr, v, t) for t, v, _ in args]
        for k, (t, v, at) in enumerate(args):
            if 'byval' in at:
                o = self.newobj(st, self.m.sizeof(at['byval']), 'stack', 'undef', 'byval')
                self.mcopy(st, Ptr(o.id, 0), av[k], o.size); av[k] = Ptr(o.id, 0)
        h = self.resolve_stub(name)
        if h[0] == 'h':
            self._cur = (name, ins)
            try:
                v = h[1](self, st, av, ins)
            except Thrown as t:
                return self.unwind(st, t.tinfo, t.ptr, work)
            return self.finish_call(st, fr, ins, v, work)
        if h[0] == 's':
            self.res.stubs.add(self.m.demangle().get(name, name))
            name = h[1]
        f = self.m.func(name)
        if f is None:
            if name.startswith('llvm.'): raise ToolLimit('intrinsic ' + name)
            self.res.externals.add(self.m.demangle().get(name, name))
            raise ToolLimit('external function ' + self.m.demangle().get(name, name))
        self.res.functions.add(name)
        if len(st.frames) > 200: raise ToolLimit('recursion')
        nf = Frame(f, ins)
        for (ty, pn, at), v in zip(f.params, av): nf.env[pn] = v
        st.frames.append(nf)
        return None
    def finish_call(self, st, fr, ins, v, work):
        if isinstance(v, Multi):
            alts = []
            for c, val, eff in v.alts:
                c = fold(c)
                if isinstance(c, int):
                    if c: alts.append((None, val, eff, None))
                    continue
                r, m = self.solver.check(st.pc, c)
                if r != z3.unsat: alts.append((c, val, eff, m))
            if not alts: raise Infeasible()
            for k, (c, val, eff, m) in enumerate(alts):
                o = st if k == len(alts) - 1 else st.clone()
                try:
                    if c is not None: self.assume(o, c, m)
                    if eff: eff(o)
                    if isinstance(val, Thrown): r = self.unwind(o, val.tinfo, val.ptr, work)
                    else: r = self.set_result(o, o.frames[-1], ins, val, work)
                except Infeasible:
                    if o is st: raise
                    continue
                except PathEnd:
                    if o is st: raise
                    continue
                if o is not st:
                    if r is None: work.append(o)
                    else: self.pending(o, r, work)
                else: return r
        return self.set_result(st, fr, ins, v, work)
    def set_result(self, st, fr, ins, v, work):
        if ins.dst is not None: fr.env[ins.dst] = v
        if ins.a[2]: return self.goto(st, fr, ins.a[2], work)
        fr.idx += 1
        return None
    # ------------------------------------------------------------------ exceptions
    def unwind(self, st, tinfo, ptr, work):
        """current frame's current instruction threw"""
        while st.frames:
            fr = st.frames[-1]
            ins = fr.code[fr.idx] if fr.idx < len(fr.code) else None
            if ins is not None and ins.op == 'call' and ins.a[3]:
                lab = ins.a[3]
                lp = None
                for x in fr.fn.blocks[lab]:
                    if x.op == 'phi': continue
                    if x.op == 'landingpad': lp = x
                    break
                if lp is None: raise ToolLimit('no landingpad')
                cleanup, clauses = lp.a
                sel = None
                for k, v in clauses:
                    if k == 'catch':
                        if v[0] == 'null': sel = 1 << 20; break
                        if self.derives(tinfo, v[1]): sel = self.tid(v[1]); break
                    else: raise ToolLimit('filter clause')
                if sel is not None or cleanup:
                    st.exc = (tinfo, ptr, sel if sel is not None else 0)
                    return self.goto(st, fr, lab, work)
            st.frames.pop()
            for a in fr.allocas:
                if a in st.mem: st.mem[a] = DEAD; st.own.discard(a)
            if st.stop is not None and len(st.frames) < st.stop.depth:
                return ('leave-throw', tinfo, ptr)
        return ('throw', self.m.demangle().get(tinfo, tinfo), self.exc_code(st, ptr))
    def exc_code(self, st, ptr):
        g = st.ghost.get('exc') or {}
        return g.get(ptr.obj)
    _tids = {}
    def tid(self, name):
        return self._tids.setdefault(name, len(self._tids) + 1)
    def derives(self, t, b):
        if t == b: return True
        g = self.m.glob(t)
        if g is None or g['init'] is None: return False
        for ty, v in (g['init'][1] if g['init'][0] == 'agg' else [])[2:]:
            if v[0] == 'g' and v[1].startswith('_ZTI') and self.derives(v[1], b): return True
        return False

class StopRun(Exception): pass
class _Dead:
    alive = False; kind = 'stack'; size = 0; name = 'dead'; ro = False; log = None; cells = {}; init = 'undef'; id = -1; align = 1
    def copy(self): return self
DEAD = _Dead()
