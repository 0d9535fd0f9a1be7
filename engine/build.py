"""Compiles /repo sources and a harness to one linked, LCSSA-normalised LLVM module, as JSON."""
import os, subprocess, glob, tempfile, shutil, sys, json
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
NR = REPO + '/src/nrlib'
LLVM = '/usr/lib/llvm-18/bin'
CXX = 'clang++-18'
IRDUMP = VERIF + '/build/irdump'
BASE = ['-std=c++20', '-O1', '-g1', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off', '-fno-pie', '-w',
        '-include', VERIF + '/harness/pre.h', '-DHAS_BOOST_FILESYSTEM', '-DUSE_BOOST', '-DFLENS_FIRST_INDEX=0',
        '-I' + REPO + '/src', '-I' + NR, '-I' + VERIF + '/harness', '-emit-llvm', '-c']

class BuildError(Exception): pass

def ensure_irdump():
    if os.path.exists(IRDUMP): return
    os.makedirs(os.path.dirname(IRDUMP), exist_ok=True)
    cfg = lambda x: subprocess.check_output([LLVM + '/llvm-config', x], text=True).split()
    tmp = IRDUMP + '.%d' % os.getpid()
    subprocess.check_call(['clang++-18', '-O1', '-w'] + cfg('--cxxflags') + [VERIF + '/engine/irdump.cpp', '-o', tmp] + cfg('--ldflags') + ['-lLLVM-18'])
    os.rename(tmp, IRDUMP)

def repo_dir(*dirs):
    """All library sources of the given nrlib subdirectories (no unit tests, no dead copies)."""
    out = []
    for d in dirs:
        out += sorted(glob.glob(NR + '/' + d + '/*.cpp'))
    return out

NOT_LIB = ('unittests', 'flens', 'tinyxml')
def all_sources():
    return sorted(f for f in glob.glob(NR + '/*/*.cpp') if f[len(NR)+1:].split('/')[0] not in NOT_LIB)

def _nm(bc, flag):
    out = subprocess.run([LLVM + '/llvm-nm', flag, '-j', bc], capture_output=True, text=True).stdout
    return {l.strip() for l in out.splitlines() if '5NRLib' in l or '10GaussFFT' in l}
def undefined(bc): return _nm(bc, '--undefined-only')
def defined(bc): return _nm(bc, '--defined-only')

def build(sources, workdir, ndebug=True, extra=(), opt=None, passes='function(loop-simplify,lcssa)'):
    ensure_irdump()
    flags = list(BASE) + (['-DNDEBUG'] if ndebug else []) + list(extra)
    if opt: flags = [f for f in flags if f != '-O1'] + list(opt)
    os.makedirs(workdir, exist_ok=True)
    def one(src):
        o = os.path.join(workdir, src.strip('/').replace('/', '_') + '.bc')
        r = subprocess.run([CXX] + flags + [src, '-o', o], capture_output=True, text=True)
        if r.returncode: raise BuildError('%s does not compile:\n%s' % (src, r.stderr[-3000:]))
        return o
    allbc = workdir + '/all.bc'; n2 = workdir + '/all2.bc'; js = workdir + '/all.json'
    sources = list(sources) + [VERIF + '/harness/rt.cpp']
    with ThreadPoolExecutor(8) as ex: bcs = list(ex.map(one, sources))
    r = subprocess.run([LLVM + '/llvm-link', '-o', allbc] + bcs, capture_output=True, text=True)
    if r.returncode: raise BuildError('llvm-link: ' + r.stderr[-3000:])
    done = set(sources); rest = None
    while undefined(allbc):          # library code the given sources call: add the files that define it
        und = undefined(allbc)
        if rest is None:
            rest = {}
            def tryone(src):
                try: return src, one(src)
                except BuildError: return src, None
            with ThreadPoolExecutor(8) as ex:
                for src, o in ex.map(tryone, [f for f in all_sources() if f not in done]):
                    if o: rest[src] = (o, defined(o))
        add = [src for src, (o, d) in rest.items() if d & und and src not in done]
        if not add: break
        done.update(add)
        t = allbc + '.t'
        r = subprocess.run([LLVM + '/llvm-link', '-o', t, allbc] + [rest[x][0] for x in add], capture_output=True, text=True)
        if r.returncode: raise BuildError('llvm-link: ' + r.stderr[-3000:])
        os.rename(t, allbc)
    r = subprocess.run([LLVM + '/opt', '-passes=' + passes, allbc, '-o', n2], capture_output=True, text=True)
    if r.returncode: raise BuildError('opt: ' + r.stderr[-2000:])
    with open(js, 'w') as f:
        r = subprocess.run([IRDUMP, n2], stdout=f, stderr=subprocess.PIPE, text=True)
    if r.returncode: raise BuildError('irdump: ' + r.stderr[-2000:])
    return js
