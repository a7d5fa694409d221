"""Runs the harnesses (contracts) of one property: proves, replays counterexamples, writes evidence."""
import os, sys, time, json, re, subprocess, multiprocessing as mp, traceback, signal, resource
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from . import build, parse

JOBS = int(os.environ.get('IRV_JOBS', '8'))

def hexbytes(m, fn, n):
    return ''.join('%02x' % m.eval(fn(k), model_completion=True).as_long() for k in range(n))

def small_model(eng, f, sizes=(8, 24, 80, 600, 5000, 70000, 400000)):
    """prefer a counterexample with small buffers"""
    import z3
    cons = [i[2] for i in f.inputs if i[0] in ('buf', 'cstr') and not isinstance(i[2], int)]
    if not cons: return f.model
    for b in sizes:
        r, m = eng.solver.check(f.pc + [z3.ULE(c, z3.BitVecVal(b, 64)) for c in cons], f.neg, 5000)
        if m is not None: return m
    return f.model

def dump_inputs(m, inputs):
    out = []
    import z3
    for i in inputs:
        kind, nm, n, v = i
        if kind == 'u':
            x = m.eval(v, model_completion=True)
            x = int(z3.is_true(x)) if z3.is_bool(x) else x.as_long()
            out.append('u %s %x' % (nm, x))
        else:
            nn = n if isinstance(n, int) else m.eval(n, model_completion=True).as_long()
            sz = nn + (1 if kind == 'cstr' else 0)
            if sz > 1 << 20: return None
            out.append('%s %s %x %s' % ('buf', nm, sz, hexbytes(m, v, sz)))
    return '\n'.join(out) + '\n'

def mkengine(mod, cfg, bounded=0, **kw):
    from . import engine, specs
    opts = dict(unroll=cfg.get('unroll', 3), cut_hints=[specs.hint_scan] + [getattr(specs, h) for h in cfg.get('hints', ())],
                stubs=cfg.get('stubs'), max_time=cfg.get('max_time', 240), max_paths=cfg.get('max_paths', 20000), nocut=cfg.get('nocut', ()))
    opts.update(kw)
    if bounded: opts.update(cut=False, unroll=bounded + 2)
    e = engine.Engine(mod, **opts)
    specs.install(e)
    e.bounded_mode = bounded
    return e

def worker(mod, h, cfg, tier, q):
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    t0 = time.time()
    R = dict(harness=h, failures=[], limits=[], unknown=[], obl=0, discharged=0, byname={}, covers={}, functions=[], externals=[],
             cuts={}, stubs=[], bounded=[], calls=0, stime=0.0, paths=0, memchk=0, recheck={})
    try:
        bq = bounded_quick(cfg, h, tier)
        eng = mkengine(mod, cfg, bounded=bq, max_time=100) if bq else mkengine(mod, cfg)
        if tier == 'thorough':
            from . import recheck
            eng.recheck = recheck.Recheck(R['recheck'])
            eng.obl_timeout = 60000; eng.max_time = cfg.get('max_time', 240) * 3
        r = eng.run(h)
        R.update(obl=r.obl, discharged=r.discharged, byname=r.byname, covers=r.covers, functions=sorted(r.functions), externals=sorted(r.externals),
                 cuts={'%s:%s' % k: v for k, v in r.cuts.items()}, stubs=sorted(r.stubs), bounded=sorted(r.bounded), calls=r.solver_calls,
                 stime=r.solver_time, paths=r.paths, limits=r.limits + (['bounded: at most %d loop iterations (thorough tier: no bound)' % bq] if bq else []), unknown=r.unknown, memchk=getattr(r, 'memchk', 0), trivial=r.trivial)
        seen = {}
        for f in r.failures:
            k = f.name
            if seen.get(k, 0) >= 3: continue
            seen[k] = seen.get(k, 0) + 1
            m = small_model(eng, f) if f.model is not None else None
            inp = None
            if m is not None:
                try: inp = dump_inputs(m, f.inputs)
                except Exception: inp = None
            R['failures'].append(dict(name=f.name, loc=f.loc, kind=f.kind, stack=f.stack, inputs=inp, unknown=f.unknown))
    except Exception as e:
        R['limits'].append('engine: %s' % (traceback.format_exc()[-600:]))
    R['wall'] = time.time() - t0
    q.send(R); q.close()

def bounded_quick(cfg, h, tier):
    b = cfg.get('bounded_quick')
    return b[1] if b and tier == 'quick' and re.match(b[0], h) else 0

def bounded_worker(mod, h, cfg, bound, q):
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    out = dict(harness=h, failures=[], limits=[], paths=0, obl=0, bound=bound, done=False)
    try:
        eng = mkengine(mod, cfg, bounded=bound, maxfail=6, max_time=90)
        r = eng.run(h)
        out.update(paths=r.paths, obl=r.obl, limits=r.limits, done=not r.limits and not r.unknown, bounded=sorted(r.bounded))
        for f in r.failures:
            inp = None
            try: inp = dump_inputs(f.model, f.inputs) if f.model is not None else None
            except Exception: pass
            out['failures'].append(dict(name=f.name, loc=f.loc, kind=f.kind, stack=f.stack, inputs=inp))
    except Exception as e:
        out['limits'].append(traceback.format_exc()[-400:])
    q.send(out); q.close()

def pool(tasks, timeout, deadline=None, stop=None):
    """tasks: list of (fn, args); every one in its own process, at most JOBS at once"""
    pend = list(enumerate(tasks)); run = {}; res = [None] * len(tasks)
    while pend or run:
        if stop and pend and stop(res): pend = []
        if deadline and time.time() > deadline:
            for p, a, t in run.values(): p.kill(); p.join()
            return res
        while pend and len(run) < JOBS:
            i, (fn, args) = pend.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=fn, args=tuple(args) + (b,)); p.start(); b.close()
            run[i] = (p, a, time.time())
        for i in list(run):
            p, a, t = run[i]
            if a.poll(0.01):
                try: res[i] = a.recv()
                except EOFError: res[i] = None
                p.join(); del run[i]
            elif not p.is_alive():
                p.join(); del run[i]
            elif time.time() - t > timeout:
                p.kill(); p.join(); del run[i]
    return res

def replay_native(exe, h, path, timeout=20):
    env = dict(os.environ, ASAN_OPTIONS='exitcode=43:detect_leaks=0:allocator_may_return_null=1')
    try:
        r = subprocess.run([exe, h, path], capture_output=True, text=True, timeout=timeout, env=env, errors='replace')
    except subprocess.TimeoutExpired: return 'timeout', ''
    return r.returncode, (r.stdout + r.stderr)[-3000:]

BADRC = lambda rc: rc in (42, 43, 44) or (isinstance(rc, int) and rc < 0)

def random_native(exe, h, secs, seed0=1):
    env = dict(os.environ, ASAN_OPTIONS='exitcode=43:detect_leaks=0:allocator_may_return_null=1')
    t = time.time(); n = 0
    while time.time() - t < secs:
        try: r = subprocess.run([exe, h, '--random', str(seed0 + n)], capture_output=True, text=True, timeout=20, env=env, errors='replace')
        except subprocess.TimeoutExpired: continue
        n += 1
        if BADRC(r.returncode): return seed0 + n - 1, r.returncode, (r.stdout + r.stderr)[-2000:]
    return None

def run_property(pid, cfg, tier, seed):
    t0 = time.time()
    evdir = os.path.join(VERIF, 'evidence'); rdir = os.path.join(evdir, 'replay')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + '-'): os.remove(os.path.join(rdir, f))
    violations = []; notes = []; undecided = []
    results = []; allfuncs = set(); tasks = []; mods = []
    def violate(h, ob, detail, inputs=None, found=False, extra=''):
        n = len(violations)
        path = os.path.join(rdir, '%s-%s-%d.txt' % (pid, re.sub(r'\W', '_', h or 'build'), n))
        with open(path, 'w') as fo:
            fo.write('# property %s harness %s\n# failed obligation: %s\n' % (pid, h, ob))
            for l in str(detail).split('\n'): fo.write('# %s\n' % l)
            if found: fo.write('# replay: python3-vt %s/irv/main.py --replay %s\n' % (VERIF, path))
            if inputs: fo.write(inputs)
        violations.append(dict(harness=h, obligation=ob, replay=path, input_found=found))
        print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if found else ' no-failing-input-found'))
        print('  %s: %s' % (h, ob)); sys.stdout.flush()
    expect = {}
    ep = os.path.join(VERIF, 'drivers', 'expect.json')
    if os.path.exists(ep): expect = json.load(open(ep))
    natives = {}
    def native(g):
        if g['name'] not in natives:
            try: natives[g['name']] = build.native(g['name'], g['driver'], g.get('native_tus', g.get('tus', ())), tuple(g.get('extra', ())), fast=True)
            except build.BuildError as e: natives[g['name']] = None; notes.append('native replay build failed: ' + str(e)[-500:])
        return natives[g['name']]
    for g in cfg['groups']:
        try:
            ll = build.module(g['name'], g['driver'], g.get('tus', ()), tuple(g.get('extra', ())))
        except build.BuildError as e:
            violate(None, 'contracts of group %s no longer type-check against the source' % g['name'], str(e)[-3000:])
            continue
        mod = parse.Module(ll)
        hs = sorted(f for f in mod.funcs_src if re.match(g.get('prefix', 'h_'), f))
        pat = g.get('harnesses')
        if pat: hs = [h for h in hs if re.match(pat, h)]
        if os.environ.get('IRV_ONLY'): hs = [h for h in hs if re.search(os.environ['IRV_ONLY'], h)]
        if tier == 'quick' and g.get('skip_quick'): hs = [h for h in hs if not re.match(g['skip_quick'], h)]
        mod.demangle()
        for h in hs: tasks.append((g, mod, h))
    deadline = t0 + (760 if tier == 'quick' else 6 * 3600); late = lambda: time.time() > deadline - 40
    weight = {}
    wp = os.path.join(VERIF, 'drivers', 'seconds.json')
    if os.path.exists(wp): weight = json.load(open(wp))
    tasks.sort(key=lambda t: -weight.get(pid + ':' + t[2], 1))
    kf = json.load(open(os.path.join(VERIF, 'known_findings.json'))) if os.path.exists(os.path.join(VERIF, 'known_findings.json')) else []
    findings = {(e['harness'], e['obligation']) for e in kf if e.get('property') == pid and e.get('status') == 'finding'}; seen_findings = set()
    enough = lambda res: sum(1 for r in res if r and [f for f in r["failures"] if (r["harness"], f["name"]) not in findings]) >= int(os.environ.get("IRV_ENOUGH", 6))
    rs = pool([(worker, (mod, h, g, tier)) for g, mod, h in tasks], cfg.get('timeout', 600) if tier == 'quick' else 3600, deadline - 60, enough)
    stopped = enough(rs)
    tot = dict(obl=0, dis=0, calls=0, stime=0.0, memchk=0, paths=0); byname = {}; funcs = set(); ext = set(); stubs = set(); cuts = {}
    bounded_h = []; proved_h = []; rck = {}; todo = []
    def try_native(g, h, f, what=''):
        exe = native(g) if f.get('inputs') else None
        if not exe: return False
        p = os.path.join(rdir, '%s-tmp.txt' % pid); open(p, 'w').write(f['inputs'])
        rc, out = replay_native(exe, h, p); os.remove(p)
        if BADRC(rc):
            violate(h, f['name'], '%sat %s\nstack %s\nnative replay exit %s\n%s' % (what, f['loc'], f['stack'], rc, out), '# group %s\n' % g['name'] + f['inputs'], True); return True
        f['native'] = (rc, out[-300:]); return False
    for (g, mod, h), r in zip(tasks, rs):
        if r is None:
            if stopped: continue
            r = dict(harness=h, failures=[], limits=['worker killed (time or memory)'], unknown=[], obl=0, discharged=0, byname={}, covers={}, functions=[], externals=[], cuts={}, stubs=[], bounded=[], calls=0, stime=0, paths=0, wall=0, memchk=0, recheck={})
        results.append(r)
        tot['obl'] += r['obl']; tot['dis'] += r['discharged']; tot['calls'] += r['calls']; tot['stime'] += r['stime']; tot['memchk'] += r['memchk']; tot['paths'] += r['paths']
        for k, v in r['byname'].items():
            b = byname.setdefault(k, [0, 0]); b[0] += v[0]; b[1] += v[1]
        for k, v in r['recheck'].items(): rck[k] = rck.get(k, 0) + v
        dm = mod.demangle()
        funcs |= {dm.get(f, f) for f in r['functions']}; ext |= set(r['externals']); stubs |= set(r['stubs']); cuts.update(r['cuts'])
        # -------- decide
        want = set(expect.get(pid + ':' + h, ()))
        missing = sorted(want - set(r['covers']))
        known = [f for f in r['failures'] if (h, f['name']) in findings]
        for f in known: seen_findings.add((h, f['name']))
        r['failures'] = [f for f in r['failures'] if (h, f['name']) not in findings]
        pending = list(r['failures'])
        if any(try_native(g, h, f) for f in r['failures']): continue
        if not pending and not r['limits'] and not r['unknown'] and r['obl'] - len(known) > r['discharged']: pending.append(dict(name='undischarged', loc='', stack=[], kind=''))
        if pending or r['limits'] or r['unknown'] or r['bounded'] or missing: todo.append((g, mod, h, r, pending, missing))
        else: proved_h.append(h)
    todo.sort(key=lambda t: not t[4])
    for g, mod, h, r, pending, missing in todo:
        nf = sum(1 for v in violations if v['input_found'])
        if nf and pending: notes.append('%s: %s also refuted' % (h, pending[0]['name'])); continue
        # bounded exploration + native search for a concrete failing input
        bres = []; confirmed = False
        bq = bounded_quick(g, h, tier)
        if not late() and len(violations) < 4 and not (bq and not pending):
            exe = native(g)
            bres = pool([(bounded_worker, (mod, h, g, b)) for b in ((4, 12) if tier == 'quick' else (4, 12, 24))], 150, deadline)
            for b in bres:
                if b and not confirmed: confirmed = any(try_native(g, h, f, 'bounded exploration\n') for f in b['failures'])
            if not confirmed and exe and not g.get('norandom'):
                x = random_native(exe, h, 15 if tier == 'quick' else 120, seed * 1000003)
                if x:
                    violate(h, pending[0]['name'] if pending else 'native execution', 'native random search: %s %s --random %d\nexit %s\n%s' % (exe, h, x[0], x[1], x[2]), None, True); confirmed = True
        if confirmed: continue
        if pending:
            f = pending[0]
            violate(h, f['name'], 'at %s\nstack %s\nverifier: obligation refuted, model:\n%s\nnative replay of the model: %s' % (f.get('loc'), f.get('stack'), f.get('inputs'), f.get('native')))
        elif missing and not (r['limits'] or r['unknown']):
            violate(h, 'cover:' + missing[0], 'expected situations are no longer reachable: %s' % missing)
        else:
            bounded_h.append(dict(harness=h, limits=r['limits'][:5], unknown=r['unknown'][:5], unrolled=r['bounded'][:5],
                                  bounded=[dict(bound=b['bound'], complete=b['done'], paths=b['paths'], obligations=b['obl']) for b in bres if b]))
            print('note: %s %s not fully proved (%s); %s' % (pid, h, (r['limits'] + r['unknown'] + r['bounded'])[:2], 'bounded exploration found no failure' if bres or bq else 'no time left for bounded exploration'))
    for e in kf:
        if e.get('property') == pid and e.get('status') == 'finding' and (e['harness'], e['obligation']) in seen_findings:
            print('KNOWN-FINDING: property=%s %s' % (pid, e['what']))
    ev = dict(property=pid, tier=tier, seed=seed, level=cfg.get('level', 'proof'), wall_s=round(time.time() - t0, 2), violations=len(violations),
        coverage=dict(obligations=tot['obl'], discharged=tot['dis'], known_findings=sorted('%s: %s' % f for f in seen_findings),
            checker_cmd='python3-vt /verif/irv/main.py %s --tier %s' % (pid, tier),
            trusted_base=cfg.get('trusted', []) + BASE_TRUST,
            back_end='z3 %s (python API, one query per obligation)%s' % (z3v(), '; every non-trivial obligation re-discharged by cvc5: %s' % rck if rck else ''),
            memory_accesses_checked_constant=tot['memchk'], paths=tot['paths'], solver_calls=tot['calls'], solver_seconds=round(tot['stime'], 1),
            harnesses_proved=proved_h, harness_seconds={r['harness']: round(r.get('wall', 0), 1) for r in results}, harnesses_bounded_only=bounded_h, obligations_by_name={k: dict(generated=v[0], discharged=v[1]) for k, v in sorted(byname.items())},
            functions_under_contract=sorted(f for f in funcs if 'mfast' in f), other_functions_executed=len([f for f in funcs if 'mfast' not in f]),
            contracts_used_instead_of_bodies=sorted(stubs), loop_invariants={k: sorted(set(v)) for k, v in cuts.items()}, external_functions=sorted(ext),
            notes=notes, violations=violations),
        assumptions=cfg.get('assumptions', []) + BASE_ASSUME)
    json.dump(ev, open(os.path.join(evdir, pid + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d harnesses proved, %d bounded only, %d violations, %.1fs' % (pid, tot['obl'], tot['dis'], len(proved_h), len(bounded_h), len(violations), time.time() - t0))
    if os.environ.get('IRV_BLESS'):
        for r in results: expect[pid + ':' + r['harness']] = sorted(r['covers'])
        json.dump(expect, open(ep, 'w'), indent=0, sort_keys=True)
        for r in results:
            if r.get('wall', 0) > 5: weight[pid + ':' + r['harness']] = int(r['wall'] / 5) * 5
        json.dump(weight, open(wp, 'w'), indent=0, sort_keys=True)
    return 1 if violations else 0

def z3v():
    import z3; return z3.get_version_string()

BASE_TRUST = ['clang 18 front end and the sroa pass (C++ to LLVM IR)', 'the IR interpreter/VC generator in /verif/irv', 'z3',
              'models of libc/libstdc++ primitives: malloc, free, realloc, operator new/delete, memcpy, memmove, memset, memcmp, strlen, exception throw/catch']
BASE_ASSUME = ['allocation never fails; sizes below 2^46', 'signed arithmetic wraps (no optimisation on nsw)', 'termination is not proved',
               'the code is verified as compiled by clang -O0 for x86-64 with the repository\'s defines']
