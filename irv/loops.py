"""Cutting a loop at its header: havoc what an iteration modifies, infer an inductive invariant
(Houdini over affine, bound and hint candidates), continue from the invariant."""
import z3
from .mem import *
from .parse import loops_of, PTR

class LoopStop:
    def __init__(self, key, lab, body, depth, mode, parent):
        self.key = key; self.lab = lab; self.body = body; self.depth = depth; self.mode = mode; self.parent = parent
    def backedge(self, eng, st, fr, lab):
        if lab == self.lab and len(st.frames) == self.depth and fr.fn.name == self.key[0]:
            if self.mode == 'final':
                from .engine import PathEnd
                raise PathEnd()
            return True
        return False
    def check(self, eng, st, fr, prev, lab):
        if len(st.frames) == self.depth and lab not in self.body:
            return self.leave(st)
        return False
    def leave(self, st):
        if self.mode == 'final':
            st.stop = self.parent
            while st.stop is not None and st.stop.depth > len(st.frames): st.stop = st.stop.parent
            return False
        return True
    def ret(self, eng, st):
        if len(st.frames) < self.depth: return self.leave(st)
        return False

class Ctx:
    """what a hint callback sees"""
    def __init__(self, eng, st, fr, lab): self.eng = eng; self.st = st; self.fr = fr; self.lab = lab; self.fn = fr.fn.name

def getval(eng, st, depth, loc):
    fr = st.frames[depth - 1]
    if loc[0] == 'phi': return fr.env[loc[1]]
    _, oid, off, n = loc
    o = eng.getobj(st, oid)
    c = o.cells.get(off)
    if c is None or c[0] != n:
        class T: pass
        return eng.read(st, o, off, n, ('i', 8 * n))
    return c[1]

def process(eng, st, fr, lab, work):
    from .engine import PathEnd, Infeasible, Fork
    fn = fr.fn; key = (fn.name, lab); body = loops_of(fn)[lab]; depth = len(st.frames)
    phis = [i for i in fn.blocks[lab] if i.op == 'phi']
    entry = st.clone(); entry.stop = None
    parent = st.stop
    locs = [('phi', p.dst, p.ty) for p in phis]
    cells = []; logs = []
    k = eng.fresh('k', 64)

    def fresh_like(v, name, ty=None):
        if isinstance(v, Ptr):
            if v.obj is None: raise ToolLimit('loop-carried null/absolute pointer ' + name)
            return Ptr(v.obj, eng.fresh(name + '_off', 64))
        if isinstance(v, PInt): return PInt(fresh_like(v.p, name))
        if isinstance(v, Fn): return v
        if isinstance(v, list): raise ToolLimit('aggregate phi')
        if isinstance(v, BoolRef): return eng.fresh(name, 1)
        if is_sym(v): return eng.fresh(name, v.size())
        if ty is not None and ty[0] == 'i': return eng.fresh(name, ty[1])
        raise ToolLimit('loop value ' + name)
    def havoc(kind):
        s = entry.clone()
        s.stop = LoopStop(key, lab, body, depth, kind, parent)
        f = s.frames[-1]
        vals = {}
        for p in phis:
            l = ('phi', p.dst, p.ty)
            if l in constlocs: vals[l] = f.env[p.dst]; continue
            f.env[p.dst] = fresh_like(f.env[p.dst], 'h_' + p.dst, p.ty); vals[l] = f.env[p.dst]
        for c in cells:
            _, oid, off, n = c
            v0 = getval(eng, s, depth, c)
            v = fresh_like(v0, 'h_cell%s_%d' % (eng.getobj(s, oid).name, off), ('i', 8 * n))
            o = eng.wobj(s, oid)
            o.cells[off] = (n, v); vals[c] = v
        for oid in logs:
            o = eng.wobj(s, oid); o.log = base('h_log_%s_%d' % (o.name, eng.fresh_id()))
        eng.assume(s, z3.ULT(k, z3.BitVecVal(1 << 62, 64)))
        return s, vals
    constlocs = set()
    def iterate(s):
        """run the body; returns back-edge states"""
        ends = []
        def on_end(r, x):
            if r[0] == 'backedge': ends.append(x)
        q = eng.quiet; eng.quiet = True
        try: eng.explore([s], on_end)
        finally: eng.quiet = q
        return ends
    # ---- A: modified memory
    for _ in range(12):
        s, vals = havoc('infer')
        s.writes = []
        wr = s.writes
        ghost0 = {g: (dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v) for g, v in s.ghost.items()}
        ends = iterate(s)
        new = False
        for oid, off, n in wr:
            if oid not in entry.mem or entry.mem[oid].kind == 'dead' or not entry.mem[oid].alive: continue
            o = entry.mem[oid]
            if o.log is not None or not isinstance(off, int) or not isinstance(n, int):
                # converted to / is a byte log
                if o.log is None: raise ToolLimit('symbolic write to cell object in cut loop')
                if oid not in logs: logs.append(oid); new = True
                continue
            c = ('cell', oid, off, n)
            if c in cells: continue
            ov = [d for d in cells if d[1] == oid and d[2] < off + n and d[2] + d[3] > off]
            if ov:
                if any(d[2] <= off and d[2] + d[3] >= off + n for d in ov): continue
                raise ToolLimit('overlapping loop cells')
            cells.append(c); new = True
        for e in ends:
            for g in ('events', 'exc'):
                if e.ghost.get(g) != ghost0.get(g): raise ToolLimit('ghost log changes in a cut loop')
        if not new: break
    else: raise ToolLimit('loop footprint does not stabilise')
    locs = [('phi', p.dst, p.ty) for p in phis] + cells
    v0 = {l: getval(eng, entry, depth, l) for l in locs}
    # pointer object stability
    for e in ends:
        for l in locs:
            a, b = vals[l], getval(eng, e, depth, l)
            if isinstance(a, Ptr) and (not isinstance(b, Ptr) or b.obj != a.obj): raise ToolLimit('loop pointer changes object')
    # ---- B: candidates
    def num(v):
        if isinstance(v, Ptr): return bv(v.off, 64)
        if isinstance(v, PInt): return bv(v.p.off, 64)
        return v
    def width(l, v):
        if isinstance(v, (Ptr, PInt)): return 64
        if isinstance(v, BoolRef): return 1
        if is_sym(v): return v.size()
        return l[2][1] if l[0] == 'phi' else 8 * l[3]
    cands = []   # (name, fn(vals,k))
    deltas = {}
    for l in locs:
        w = width(l, vals[l])
        if w == 1:
            ds = []
            for e in ends:
                ds.append(getval(eng, e, depth, l))
            cands.append(('const', lambda vv, kk, l=l: tobool(num(vv[l])) == tobool(num(v0[l]))))
            continue
        cs = set()
        for e in ends:
            d = simp(bv(num(getval(eng, e, depth, l)), w) - bv(num(vals[l]), w))
            cs.add(d if isinstance(d, int) else None)
        for c in cs:
            if c is None: continue
            deltas[l] = c
            def f(vv, kk, l=l, c=c, w=w):
                kw = kk if w == 64 else (z3.Extract(w - 1, 0, kk) if w < 64 else z3.ZeroExt(w - 64, kk))
                return bv(num(vv[l]), w) == bv(num(v0[l]), w) + kw * z3.BitVecVal(c, w)
            f.aff = (l, c); cands.append(('affine%d' % c, f))
        if 0 not in cs:
            cands.append(('const', lambda vv, kk, l=l, w=w: bv(num(vv[l]), w) == bv(num(v0[l]), w)))
    # bounds from the guards met during an iteration
    hv = {}
    for l in locs:
        x = num(vals[l])
        if is_sym(x) and z3.is_const(x): hv[x.get_id()] = l
    atoms = {}
    def collect(c):
        if z3.is_not(c) or z3.is_and(c) or z3.is_or(c):
            for x in c.children(): collect(x)
        elif c.num_args() == 2 and z3.is_bv(c.arg(0)):
            dk = c.decl().kind()
            if dk in (z3.Z3_OP_EQ, z3.Z3_OP_ULEQ, z3.Z3_OP_SLEQ, z3.Z3_OP_ULT, z3.Z3_OP_SLT, z3.Z3_OP_UGEQ, z3.Z3_OP_SGEQ):
                atoms[(c.arg(0).get_id(), c.arg(1).get_id())] = (c.arg(0), c.arg(1))
    npc = len(s.pc) if False else len(entry.pc)
    for e in ends:
        for c in e.pc[npc:]: collect(c)
    from z3 import z3util
    hvars = {}
    for l in locs:
        x = num(vals[l])
        if is_sym(x): hvars[l] = x
    def mk(x, y, rel):
        subs = [(hvars[l], l) for l in hvars]
        def f(vv, kk):
            sub = [(hx, bv(num(vv[l]), hx.size()) if not isinstance(hx, BoolRef) else tobool(num(vv[l]))) for hx, l in subs]
            return rel(z3.substitute(x, *sub), z3.substitute(y, *sub))
        return f
    names = set(str(x) for x in hvars.values())
    def freevars(e):
        return set(str(v) for v in z3util.get_vars(e))
    entryvars = None
    n = 0
    for x, y in list(atoms.values())[:40]:
        fv = freevars(x) | freevars(y)
        if not (fv & names): continue
        if fv & localnames(ends, entry, names): continue
        for rn, rel in (('ule', z3.ULE), ('sle', lambda a, b: a <= b)):
            cands.append((rn, mk(x, y, rel))); cands.append((rn + 'r', mk(y, x, rel)))
    ctx = Ctx(eng, entry, fr, lab); ctx.locs = locs; ctx.v0 = v0; ctx.num = num; ctx.width = width; ctx.deltas = deltas
    for h in eng.cut_hints:
        cands += h(ctx)
    # ---- C: Houdini
    good = []
    for nm, f in cands:
        try: c = f(v0, z3.BitVecVal(0, 64))
        except ToolLimit: continue
        facts = eng.facts(entry, c)
        if eng.prove(entry, z3.Implies(z3.And(*facts), c) if facts else c, 4000): good.append((nm, f))
    rounds = 0
    while True:
        rounds += 1
        s, vals = havoc('infer')
        for nm, f in good:
            try:
                c = f(vals, k); eng.assume(s, c); eng.inst_terms(s, c)
            except Infeasible: raise ToolLimit('contradictory invariant')
        ends = iterate(s)
        bad = set()
        for e in ends:
            vv = {l: getval(eng, e, depth, l) for l in locs}
            if any(isinstance(vals[l], Ptr) and (not isinstance(vv[l], Ptr) or vv[l].obj != vals[l].obj) for l in locs): raise ToolLimit('loop pointer changes object')
            for i, (nm, f) in enumerate(good):
                if i in bad: continue
                c = f(vv, k + 1)
                facts = eng.facts(e, c)
                if not eng.prove(e, z3.Implies(z3.And(*facts), c) if facts else c, 8000): bad.add(i)
        if not bad: break
        good = [g for i, g in enumerate(good) if i not in bad]
        if rounds > 30: raise ToolLimit('houdini rounds')
    if not eng.quiet:
        eng.res.cuts[key] = sorted(nm for nm, _ in good)
        # preservation of every kept invariant is a discharged obligation
        eng.res.obl += len(good); eng.res.discharged += len(good)
        e = eng.res.byname.setdefault('loop-invariant', [0, 0]); e[0] += len(good); e[1] += len(good)
    # ---- D: continue
    hist = history(eng, entry, s, ends, vals, v0, deltas, good_affine(good, deltas, locs), locs, num, width, k)
    s, vals = havoc('final')
    for nm, f in good:
        c = f(vals, k); eng.assume(s, c); eng.inst_terms(s, c)
    if hist and not eng.quiet: eng.res.cuts[key] = eng.res.cuts[key] + ['every completed iteration satisfied its guard']
    for oid, h, nm in hist: s.hyps.append((oid, ('hist', eng.fresh_id()), h, (nm,)))
    s.frames[-1].cnt[lab] = 0; s.frames[-1].cnt[(lab, 't')] = 0
    s.bounded = st.bounded
    s.model = None
    work.append(s)
    raise PathEnd2()

def good_affine(good, deltas, locs):
    r = {}
    for nm, f in good:
        a = getattr(f, 'aff', None)
        if a: r[a[0]] = a[1]
    return r

def history(eng, entry, s, ends, vals, v0, deltas, aff, locs, num, width, k):
    """quantified invariant 'iteration t (t < k) passed its guards': every guard over loop variables that are
    affine in the iteration number, re-expressed in t, as a hypothesis on the bytes it reads"""
    if not ends: return []
    subs = []; bad = set()
    for l in locs:
        x = num(vals[l])
        if not is_sym(x): continue
        if l in aff:
            w = width(l, vals[l])
            kw = k if w == 64 else (z3.Extract(w - 1, 0, k) if w < 64 else z3.ZeroExt(w - 64, k))
            if isinstance(x, BoolRef): bad.add(str(x)); continue
            subs.append((x, bv(num(v0[l]), w) + kw * z3.BitVecVal(aff[l], w)))
        else: bad.add(str(x))
    hnames = set(str(num(vals[l])) for l in locs if is_sym(num(vals[l])))
    start = int(str(k).rsplit('!', 1)[1])
    def ok_sym(e):
        seen = set(); stk = [e]
        while stk:
            x = stk.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_app(x):
                d = x.decl()
                if d.kind() == z3.Z3_OP_UNINTERPRETED:
                    nm = d.name()
                    if x.num_args() == 0:
                        if nm in bad: return False
                        if nm not in hnames and nm != str(k):
                            t = nm.rsplit('!', 1)
                            if len(t) == 2 and t[1].isdigit() and int(t[1]) > start: return False
                    elif nm not in bases: return False
                stk.extend(x.children())
        return True
    bases = {}
    for o in entry.mem.values():
        if getattr(o, 'log', None) is not None:
            collect_bases(o.log, bases, o.id)
    disj = []
    n0 = len(entry.pc)
    for e in ends:
        cj = [c for c in e.pc[n0:] if is_sym(c) and ok_sym(c)]
        cj = [z3.substitute(c, *subs) if subs else c for c in cj]
        disj.append(cj)
    # keep it small: only conjuncts with byte reads
    apps = {}
    def apps_of(e):
        seen = set(); stk = [e]
        while stk:
            x = stk.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.num_args() == 1 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in bases:
                    apps[x.get_id()] = (x.decl().name(), x.arg(0))
                stk.extend(x.children())
    dd = []
    for cj in disj:
        keep = []
        for c in cj:
            m = len(apps); apps_of(c); keep.append(c)
        dd.append(keep)
    if not apps: return []
    allc = [z3.And(*c) if c else z3.BoolVal(True) for c in dd]
    G = allc[0] if len(allc) == 1 else z3.Or(*allc)
    out = []
    done = set()
    for nm, idx in apps.values():
        i0 = z3.simplify(z3.substitute(idx, (k, z3.BitVecVal(0, 64))))
        i1 = z3.simplify(z3.substitute(idx, (k, z3.BitVecVal(1, 64))) - i0)
        if not z3.is_bv_value(i1): continue
        d = i1.as_signed_long()
        if d == 0 or z3.simplify(idx - i0 - k * z3.BitVecVal(d, 64)).sexpr() != '#x' + '0' * 16: continue
        if d not in (1, -1): continue
        for oid in bases[nm]:
            if (oid, i0.get_id(), d) in done: continue
            done.add((oid, i0.get_id(), d))
            def h(off, i0=i0, d=d):
                t = bv(off, 64) - i0 if d == 1 else i0 - bv(off, 64)
                return z3.Implies(z3.ULT(t, k), z3.substitute(G, (k, t)))
            out.append((oid, h, nm))
    return out[:6]

def collect_bases(node, acc, oid):
    while node is not None:
        if node.kind == 'base': acc.setdefault(node.v.name(), set()).add(oid)
        if node.kind == 'copy': collect_bases(node.v, acc, oid)
        node = node.prev

from .engine import PathEnd
class PathEnd2(PathEnd): pass

def localnames(ends, entry, hnames):
    """variables created inside the iteration (not expressible at the header)"""
    return _Fresh(entry, hnames)
class _Fresh:
    def __init__(self, entry, hnames): self.hn = hnames; self.uid = None
    def __rand__(self, fv):
        # names carry a global creation counter: anything newer than the havoced variables is local
        mx = max([int(n.rsplit('!', 1)[1]) for n in self.hn if '!' in n] or [0])
        return [v for v in fv if '!' in v and v.rsplit('!', 1)[1].isdigit() and int(v.rsplit('!', 1)[1]) > mx]
