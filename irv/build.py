"""Mechanical extraction of the verified text: /repo's current sources -> LLVM IR (sroa only)."""
import os, subprocess, hashlib, sys, shutil
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('IRV_REPO', '/repo')
LL = '/usr/lib/llvm-18/bin/'
CACHE = os.environ.get('IRV_CACHE', os.path.join(VERIF, '.cache'))
DEFS = ['-DSIZEOF_VOID_P=8', '-DMFAST_STATIC_DEFINE', '-DMFAST_CODER_STATIC_DEFINE']
INC = ['-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(VERIF, 'irv'), '-I' + os.path.join(VERIF, 'drivers')]
CXX = ['clang++-18', '-std=gnu++17', '-fno-access-control', '-g0', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-w']

class BuildError(Exception): pass

_h = None
def tree_hash():
    """hash of everything a translation unit can include from /repo/src and of the harness sources"""
    global _h
    if _h is None:
        h = hashlib.sha256()
        for root in (os.path.join(REPO, 'src'), os.path.join(VERIF, 'drivers'), os.path.join(VERIF, 'irv')):
            for d, ds, fs in sorted(os.walk(root)):
                ds.sort()
                if '__pycache__' in d: continue
                for f in sorted(fs):
                    if f.endswith(('.h', '.cpp', '.hpp')):
                        h.update(f.encode()); h.update(open(os.path.join(d, f), 'rb').read())
        _h = h.hexdigest()[:20]
    return _h

def run(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode: raise BuildError(' '.join(cmd) + '\n' + r.stderr[-4000:])
    return r.stdout

def compile_tu(src, out, extra=()):
    run(CXX + DEFS + list(extra) + INC + ['-S', '-emit-llvm', src, '-o', out])

def module(name, driver, tus=(), extra=()):
    """returns path of the linked, sroa'd .ll"""
    d = os.path.join(CACHE, tree_hash()); os.makedirs(d, exist_ok=True)
    key = hashlib.sha256(repr((name, driver, sorted(tus), extra)).encode()).hexdigest()[:10]
    out = os.path.join(d, '%s_%s.ll' % (name, key))
    if os.path.exists(out): return out
    srcs = [os.path.join(VERIF, 'drivers', driver)] + [os.path.join(REPO, 'src', t) for t in tus]
    outs = []
    with ThreadPoolExecutor(8) as ex:
        fs = []
        for s in srcs:
            o = os.path.join(d, '%s_%s.tu.ll' % (os.path.basename(s), hashlib.sha256((s + repr(extra)).encode()).hexdigest()[:8]))
            outs.append(o)
            if not os.path.exists(o):
                fs.append(ex.submit(_ctu, s, o, extra))
        for f in fs: f.result()
    tmp = out + '.%d.tmp' % os.getpid()
    if len(outs) > 1:
        run([LL + 'llvm-link', '-S'] + outs + ['-o', tmp])
        run([LL + 'opt', '-S', '-passes=sroa', tmp, '-o', tmp + '2'])
    else:
        run([LL + 'opt', '-S', '-passes=sroa', outs[0], '-o', tmp + '2'])
    os.replace(tmp + '2', out)
    if os.path.exists(tmp): os.remove(tmp)
    return out

def _ctu(s, o, extra):
    t = o + '.%d.tmp' % os.getpid()
    compile_tu(s, t, extra); os.replace(t, o)

def native(name, driver, tus=(), extra=(), asan=True, fast=False):
    d = os.path.join(CACHE, tree_hash()); os.makedirs(d, exist_ok=True)
    key = hashlib.sha256(repr((name, driver, sorted(tus), extra, asan)).encode()).hexdigest()[:10]
    out = os.path.join(d, '%s_%s.native' % (name, key))
    if os.path.exists(out): return out
    srcs = [os.path.join(VERIF, 'drivers', driver), os.path.join(VERIF, 'irv', 'native.cpp')] + [os.path.join(REPO, 'src', t) for t in tus]
    base = ['g++', '-std=gnu++17', '-fno-access-control', '-DIRV_NATIVE', '-g', '-O0', '-w', '-fno-omit-frame-pointer'] + DEFS + list(extra) + INC
    if asan: base += ['-fsanitize=address']
    outs = []
    with ThreadPoolExecutor(8) as ex:
        fs = []
        for s in srcs:
            o = os.path.join(d, '%s_%s.%s.o' % (os.path.basename(s), hashlib.sha256((s + repr(extra)).encode()).hexdigest()[:8], 'a' if asan else 'n'))
            outs.append(o)
            if not os.path.exists(o): fs.append(ex.submit(_cc, base, s, o))
        for f in fs: f.result()
    run(['g++', '-rdynamic'] + (['-fsanitize=address'] if asan else []) + outs + ['-o', out + '.tmp', '-ldl'])
    os.replace(out + '.tmp', out)
    return out
def _cc(base, s, o):
    t = o + '.%d.o' % os.getpid()
    run(base + ['-c', s, '-o', t]); os.replace(t, o)

def gc_cache(keep=1):
    """drop caches of other tree states"""
    try:
        for x in os.listdir(CACHE):
            if x != tree_hash(): shutil.rmtree(os.path.join(CACHE, x), ignore_errors=True)
    except OSError: pass
