"""Recursively defined specification functions: uninterpreted symbols + on-demand unfolding."""
import z3
from .mem import *

AW = 80
class IntScan:
    """value of the 7-bit groups of bytes 0..j of a buffer (exact in 128 bits while !big)"""
    def __init__(self, eng, st, p, n, sgn):
        i = eng.fresh_id()
        self.A = z3.Function('acc_%d' % i, z3.BitVecSort(64), z3.BitVecSort(AW))
        self.B = z3.Function('big_%d' % i, z3.BitVecSort(64), z3.BoolSort())
        self.node = eng.getobj(st, p.obj).log; self.off = p.off; self.n = n; self.sgn = sgn
        self.L = z3.BitVec('L!%d' % i, 64); self.T = z3.Bool('term!%d' % i)
    def byte(self, j): return bv(select(self.node, add64(self.off, simp(j))), 8)
    def unfold(self, t):
        """definition of A(t), B(t)"""
        g = z3.Extract(6, 0, self.byte(t))
        ext = z3.SignExt(AW - 7, g) if self.sgn else z3.ZeroExt(AW - 7, g)
        lim = z3.BitVecVal(1 << 70, AW)
        p = t - 1
        big = z3.Or(self.B(p), self.A(p) >= lim, self.A(p) < -lim)
        return z3.If(t == 0, z3.And(self.A(t) == ext, z3.Not(self.B(t))),
                     z3.And(self.B(t) == big, z3.Implies(z3.Not(self.B(t)), self.A(t) == (self.A(p) << 7) + z3.ZeroExt(AW - 7, g))))

def find_apps(e, decls, acc, seen):
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(x):
            if x.num_args() == 1 and x.decl().get_id() in decls: acc.setdefault((decls[x.decl().get_id()], x.arg(0).get_id()), (decls[x.decl().get_id()], x.arg(0)))
            st.extend(x.children())

def lemma_unfold(eng, st, goal):
    sc = st.ghost.get('scans')
    if not sc: return []
    decls = {}
    for k, s in enumerate(sc):
        decls[s.A.get_id()] = k; decls[s.B.get_id()] = k
    acc = {}
    if is_sym(goal): find_apps(goal, decls, acc, set())
    facts = []
    for k, t in acc.values(): facts.append(sc[k].unfold(t))
    return facts

def same(eng, st, x, y):
    """equal in every state described by the path condition"""
    if isinstance(x, int) and isinstance(y, int): return x == y
    if not isinstance(x, int) and not isinstance(y, int) and x.eq(y): return True
    d = bv(x, 64) != bv(y, 64)
    if st.model is not None and z3.is_true(st.model.eval(d, model_completion=True)): return False
    return eng.solver.check(st.pc + [d])[0] == z3.unsat
def h_scan_int(eng, st, a, ins):
    p, n, sgn, out = a
    sgn = bool(sgn) if isinstance(sgn, int) else eng.decide(st, tobool(sgn))
    # the same bytes scanned again: the same value
    node = eng.getobj(st, p.obj).log; o, nn = simp(p.off), simp(n)
    for k in st.ghost.get('scans') or []:
        if k.node is node and k.sgn == sgn and same(eng, st, k.off, o) and same(eng, st, k.n, nn):
            scan_out(eng, st, out, k); return
    s = IntScan(eng, st, Ptr(p.obj, o), nn, sgn)
    st.ghost.setdefault('scans', []); st.ghost['scans'] = st.ghost['scans'] + [s]
    nb = bv(n, 64)
    # T: there is a first stop byte at L
    eng.assume(st, z3.Implies(s.T, z3.And(z3.ULT(s.L, nb), z3.Extract(7, 7, s.byte(s.L)) == 1)))
    eng.assume(st, z3.Implies(z3.Not(s.T), s.L == nb))
    def hyp(off):
        j = sub64(off, p.off)
        return z3.Implies(z3.ULT(bv(j, 64), s.L), z3.Extract(7, 7, bv(select(s.node, off), 8)) == 0)
    st.hyps.append((p.obj, ('scan', eng.fresh_id()), hyp))
    eng.inst_hyp(st, st.hyps[-1], p.off)
    eng.assume(st, s.unfold(z3.BitVecVal(0, 64)))
    eng.assume(st, s.unfold(s.L))
    for t in range(eng.bounded_mode):
        eng.assume(st, s.unfold(z3.BitVecVal(t, 64))); eng.inst_hyp(st, st.hyps[-1], add64(p.off, t))
    scan_out(eng, st, out, s)
def scan_out(eng, st, out, s):
    eng.write(st, out.obj, add64(out.off, 0), 1, z3.If(s.T, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
    eng.write(st, out.obj, add64(out.off, 1), 1, z3.If(s.B(s.L), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
    eng.write(st, out.obj, add64(out.off, 8), 8, s.L + 1)
    eng.write(st, out.obj, add64(out.off, 16), 16, z3.SignExt(128 - AW, s.A(s.L)))

def h_stop(eng, st, a, ins):
    """r = 0 and no byte has its top bit set, or r-1 is the first that has"""
    p, n = a; i = eng.fresh_id()
    r = z3.BitVec('stop!%d' % i, 64); node = eng.getobj(st, p.obj).log
    if node is None: node = eng.to_log(st, eng.getobj(st, p.obj)).log
    nb = bv(simp(n), 64)
    for n2, o2, r2, nb2 in st.ghost.get('stops') or []:
        if n2 is node and same(eng, st, o2, p.off) and same(eng, st, nb2, nb): return r2
    top = lambda off: z3.Extract(7, 7, bv(select(node, off), 8))
    eng.assume(st, z3.Implies(r != 0, z3.And(z3.ULE(r, nb), top(add64(p.off, r - 1)) == 1)))
    lim = z3.If(r != 0, r - 1, nb)
    def hyp(off):
        j = sub64(off, p.off)
        return z3.Implies(z3.ULT(bv(j, 64), lim), top(off) == 0)
    st.hyps.append((p.obj, ('stop', i), hyp))
    eng.inst_hyp(st, st.hyps[-1], p.off)
    for t in range(eng.bounded_mode): eng.inst_hyp(st, st.hyps[-1], add64(p.off, t))
    st.ghost['stops'] = st.ghost.get('stops', []) + [(node, p.off, r, nb)]
    if st.model is None:
        rr, m = eng.solver.check(st.pc)
        if rr == z3.unsat: raise Infeasible_()
        st.model = m
    return r
def Infeasible_():
    from .engine import Infeasible
    return Infeasible()
def hint_stop(ctx):
    out = []
    for node, off, r, nb in ctx.st.ghost.get('stops') or []:
        for d in (0, 1):
            out.append(('k<stop', lambda vv, k, r=r, nb=nb, d=d: z3.ULE(k + d, z3.If(r != 0, r, nb))))
            out.append(('k<=stop', lambda vv, k, r=r, nb=nb, d=d: z3.ULE(k + d, z3.If(r != 0, r - 1, nb))))
            for l in ctx.locs:
                if ctx.width(l, ctx.v0[l]) == 8:
                    out.append(('c=s[k+%d]' % d, lambda vv, k, l=l, d=d, node=node, off=off: bv(ctx.num(vv[l]), 8) == bv(select(node, add64(off, simp(k + d))), 8)))
    return out

def hint_scan(ctx):
    """loop invariant candidates: the loop-carried values are the accumulated value of the bytes so far"""
    sc = ctx.st.ghost.get('scans') or []
    out = []
    for s in sc:
        if s.sgn: out.append(('sign', lambda vv, k, s=s: z3.Implies(z3.Not(s.B(k)), (s.A(k) < 0) == (z3.Extract(6, 6, s.byte(z3.BitVecVal(0, 64))) == 1))))
        else: out.append(('sign', lambda vv, k, s=s: z3.Implies(z3.Not(s.B(k)), s.A(k) >= 0)))
        for d in (0, 1):
            out.append(('k<=L', lambda vv, k, s=s, d=d: z3.ULE(k + d, s.L)))
            for l in ctx.locs:
                w = ctx.width(l, ctx.v0[l])
                if w == 8:
                    out.append(('c=b[k+%d]' % d, lambda vv, k, s=s, l=l, d=d: bv(ctx.num(vv[l]), 8) == s.byte(k + d)))
                if w in (16, 32, 64):
                    out.append(('v=acc', lambda vv, k, s=s, l=l, d=d, w=w: z3.Implies(z3.Not(s.B(k + d)), bv(ctx.num(vv[l]), w) == z3.Extract(w - 1, 0, s.A(k + d)))))
                if w in (1, 8):
                    out.append(('carry', lambda vv, k, s=s, l=l, d=d: z3.Implies(z3.And(z3.Not(s.B(k + d)), s.A(k + d) < z3.BitVecVal((1 << 64) + 128, AW)), ((bv(ctx.num(vv[l]), 8) & 1) == 1) == (s.A(k + d) >= z3.BitVecVal(1 << 64, AW)))))
    return out

def install(eng):
    eng.user_exact['spec_scan_int_'] = h_scan_int
    eng.user_exact['spec_stop_'] = h_stop
    eng.cut_hints.append(hint_stop)
    eng.lemma_fns = [lemma_unfold]
