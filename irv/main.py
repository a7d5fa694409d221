import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from irv import runner, registry, build
def main(a):
    if a and a[0] == '--replay':
        g = None; h = None
        for l in open(a[1]):
            if l.startswith('# group '): g = l.split()[2]
            if l.startswith('# property '): pid = l.split()[2]; h = l.split()[4]
        grp = [x for x in registry.PROPS[pid]['groups'] if x['name'] == g][0]
        exe = build.native(grp['name'], grp['driver'], grp.get('native_tus', grp.get('tus', ())), tuple(grp.get('extra', ())), fast=True)
        rc, out = runner.replay_native(exe, h, a[1]); print(out); print('exit', rc); return 1 if runner.BADRC(rc) else 0
    if a and a[0] == '--setup':
        return 0
    pid = a[0]; tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    return runner.run_property(pid, registry.PROPS[pid], tier, seed)
if __name__ == '__main__': sys.exit(main(sys.argv[1:]))
