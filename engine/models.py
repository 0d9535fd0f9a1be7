"""Abstract models of the libraries the code base calls: FFTW, the Mersenne twister core, time()."""
import numpy as np
from terms import *
from vflow import *
from vflow import _ret
import evalterms

# ---------------------------------------------------------------- FFTW
def planner(A, st):
    """Every function of FFTW but the execution of a plan uses the planner, which is shared by all threads."""
    h = getattr(A, 'uses_planner', None)
    if h: h(st)
def m_planner(A, a, st, f, name):
    planner(A, st); return _ret(None)
def m_planner_safe(A, a, st, f, name):
    A.planner_safe = True; return _ret(None)

def _plan(A, st, rec):
    o = A.new_obj(64, 'plan', 'fftw_plan', st)
    A.plans = getattr(A, 'plans', {})
    A.plans[o] = rec
    planner(A, st)
    return _ret(Ptr(o, 0))

def plan_nd(kind, nd, fl):
    def h(A, a, st, f, name):
        dims = tuple(a[:nd])
        if not all(isinstance(d, int) for d in dims): raise AnalysisError('FFT plan with symbolic size at ' + A.site())
        return _plan(A, st, (kind, tuple(sgn(d, 32) for d in dims), a[nd], a[nd+1], fl))
    return h

def plan_rank(kind, fl):
    def h(A, a, st, f, name):
        dims = tuple(sgn(A.load(st, padd(a[1], 4*i), 4, 'i32'), 32) for i in range(a[0]))
        return _plan(A, st, (kind, dims, a[2], a[3], fl))
    return h

def prod(x):
    r = 1
    for v in x: r *= v
    return r

def run_plan(A, st, rec):
    kind, dims, pin, pout, fl = rec
    ty = 'f32' if fl == 'f' else 'f64'; sz = 4 if fl == 'f' else 8
    n = prod(dims); half = prod(dims[:-1]) * (dims[-1] // 2 + 1)
    A.fft_calls = getattr(A, 'fft_calls', 0) + 1
    if kind == 'r2c':
        ins = tuple(A.load(st, padd(pin, sz*i), sz, ty) for i in range(n))
        D = mkt('dft', 'arr', kind, dims, ins)
        for i in range(half):
            A.store(st, padd(pout, 2*sz*i), sz, mkt('dftout', ty, D, i, 0), ty)
            A.store(st, padd(pout, 2*sz*i+sz), sz, mkt('dftout', ty, D, i, 1), ty)
    elif kind == 'c2r':
        ins = tuple(A.load(st, padd(pin, sz*i), sz, ty) for i in range(2*half))
        D = mkt('dft', 'arr', kind, dims, ins)
        # c2r destroys its input
        for i in range(2*half): A.store(st, padd(pin, sz*i), sz, mkt('undef', ty, 'destroyed by c2r#%d.%d' % (D.id, i)), ty)
        for i in range(n): A.store(st, padd(pout, sz*i), sz, mkt('dftout', ty, D, i, 0), ty)
    else: # complex
        ins = tuple(A.load(st, padd(pin, sz*i), sz, ty) for i in range(2*n))
        D = mkt('dft', 'arr', kind, dims, ins)
        for i in range(n):
            A.store(st, padd(pout, 2*sz*i), sz, mkt('dftout', ty, D, i, 0), ty)
            A.store(st, padd(pout, 2*sz*i+sz), sz, mkt('dftout', ty, D, i, 1), ty)

def m_execute(A, a, st, f, name):
    p = a[0]
    if not isinstance(p, Ptr) or p.obj not in getattr(A, 'plans', {}): raise AnalysisError('fftw_execute of unknown plan')
    om = A.getmem(st, p.obj)
    if band(om.freed, st.cond) is not FALSE: A.finding('use-after-free', st, 'execute of destroyed plan')
    run_plan(A, st, A.plans[p.obj])
    return _ret(None)

def m_destroy(A, a, st, f, name):
    p = a[0]
    if isinstance(p, Ptr) and p.obj in getattr(A, 'plans', {}):
        om = A.wmem(st, p.obj)
        if band(om.freed, st.cond) is not FALSE: A.finding('double-free', st, 'second destroy of plan')
        om.freed = bor(om.freed, st.cond)
    planner(A, st)
    return _ret(None)

for fl in ('', 'f'):
    for k in ('r2c', 'c2r'):
        for nd in (1, 2, 3):
            MODELS['fftw%s_plan_dft_%s_%dd' % (fl, k, nd)] = plan_nd(k, nd, fl)
        MODELS['fftw%s_plan_dft_%s' % (fl, k)] = plan_rank(k, fl)
    MODELS['fftw%s_execute' % fl] = m_execute
    MODELS['fftw%s_destroy_plan' % fl] = m_destroy
    MODELS['fftw%s_malloc' % fl] = m_new
    MODELS['fftw%s_free' % fl] = m_free
    MODELS['fftw%s_cleanup' % fl] = m_planner; MODELS['fftw%s_make_planner_thread_safe' % fl] = m_planner_safe

def ev_dft(E, t):
    kind, dims, ins = t.args
    X = np.stack([E.val(x) if not isinstance(x, (float, int)) else np.full(E.n, float(x)) for x in ins], axis=1)
    if kind == 'r2c':
        Y = np.fft.rfftn(X.reshape((E.n,) + dims), axes=tuple(range(1, len(dims)+1)))
    elif kind == 'c2r':
        Z = X[:, 0::2] + 1j*X[:, 1::2]
        hd = dims[:-1] + (dims[-1]//2 + 1,)
        Y = np.fft.irfftn(Z.reshape((E.n,) + hd), s=dims, axes=tuple(range(1, len(dims)+1))) * prod(dims)
    else: raise NotImplementedError
    return Y.reshape(E.n, -1)
def ev_dftout(E, t):
    Y = E.val(t.args[0])
    y = Y[:, t.args[1]]
    r = np.real(y) if t.args[2] == 0 else np.imag(y)
    return np.ascontiguousarray(r, dtype=np.float64)
evalterms.HOOKS['dft'] = ev_dft
evalterms.HOOKS['dftout'] = ev_dftout

# ---------------------------------------------------------------- random generator core
# State of a generator is a term kept in a shadow object keyed by the address of the twister state.
def rng_obj(A, st, p):
    if isinstance(p, PtrIte): raise AnalysisError('generator behind a conditional pointer at ' + A.site())
    k = (p.obj, p.off)
    A.rngs = getattr(A, 'rngs', {})
    o = A.rngs.get(k)
    if o is None or o not in st.mem:
        nm = A.objs[p.obj].name
        o2 = o
        if o is None:
            oi = ObjInfo(); oi.id = A.next_obj; A.next_obj += 1; oi.size = 8; oi.kind = 'shadow'; oi.name = 'rng:' + nm; oi.cond = TRUE; oi.site = ''
            A.objs[oi.id] = oi; A.rngs[k] = o2 = oi.id
            om = ObjMem(None); om.cells[0] = (8, mkt('rng0', 'rng', 'unseeded:' + nm + (str(p.obj) if A.objs[p.obj].kind != 'global' else '')), 'i64')
            A.gmem[o2] = om
        return o2
    return o

def rng_get(A, st, p):
    return A.getmem(st, rng_obj(A, st, p)).cells[0][1]
def rng_set(A, st, p, t):
    A.wmem(st, rng_obj(A, st, p)).cells[0] = (8, t, 'i64')
def rng_draw(kind, ty):
    def g(A, st, p):
        s = rng_get(A, st, p)
        v = mkt('draw', ty, kind, s)
        rng_set(A, st, p, mkt('adv', 'rng', s, kind))
        A.draws = getattr(A, 'draws', [])
        A.draws.append((v, st.cond, A.site()))
        return v
    return g

GLOBAL_RNG = 'dsfmt_global_data'
def gl(A): return A.gptr(GLOBAL_RNG)
def m_seed(A, a, st, f, name):
    rng_set(A, st, a[0], mkt('seeded', 'rng', a[1]))
    return _ret(None)
def m_seed_arr(A, a, st, f, name):
    raise AnalysisError('array seeding')
def m_drawfn(kind, ty, glob):
    d = rng_draw(kind, ty)
    def h(A, a, st, f, name):
        return _ret(d(A, st, gl(A) if glob else a[0]))
    return h
def m_time(A, a, st, f, name):
    A.time_reads = getattr(A, 'time_reads', [])
    A.time_reads.append((st.cond, A.site()))
    return _ret(mkt('clock', 'i64', 'now#%d' % len(A.time_reads)))

def ev_clock(E, t):
    r = np.random.default_rng(evalterms._seed('clock' + E.salt + t.args[0]))
    return r.integers(1 << 40, size=E.n, dtype=np.uint64)
evalterms.HOOKS['clock'] = ev_clock

def _rngkey(E, s):
    """A per-point fingerprint of a generator state term."""
    h = None
    k = 0
    while isinstance(s, T) and s.op == 'adv':
        k = (k * 1000003 + evalterms._seed(str(s.args[1])) + 1) & 0xffffffff; s = s.args[0]
    return s, k

def ev_state(E, t):
    if t.op == 'rng0': return np.full(E.n, evalterms._seed(E.salt + t.args[0]), dtype=np.uint64)
    if t.op == 'seeded':
        v = E.val(t.args[0])
        return (v.astype(np.uint64) & np.uint64(0xffffffff)) * np.uint64(0x9E3779B97F4A7C15) + np.uint64(12345)
    if t.op == 'adv':
        return E.val(t.args[0]) * np.uint64(6364136223846793005) + np.uint64((evalterms._seed(str(t.args[1])) << 1 | 1) & (2**64-1))
    raise NotImplementedError
for o in ('rng0', 'seeded', 'adv'): evalterms.HOOKS[o] = ev_state

def ev_draw(E, t):
    fixed = getattr(E, 'draw_values', None)
    if fixed is not None and t.id in fixed: return fixed[t.id]
    s = E.val(t.args[1]) ^ np.uint64(evalterms._seed('k' + str(t.args[0])))
    # splitmix
    z = s + np.uint64(0x9E3779B97F4A7C15)
    z = (z ^ (z >> np.uint64(30))) * np.uint64(0xBF58476D1CE4E5B9)
    z = (z ^ (z >> np.uint64(27))) * np.uint64(0x94D049BB133111EB)
    z = z ^ (z >> np.uint64(31))
    if t.ty == 'f64':
        u = (z >> np.uint64(11)).astype(np.float64) / float(1 << 53)
        return u if t.args[0].startswith('unif') else (u - 0.5) * 4
    return z & np.uint64(0xffffffff)
evalterms.HOOKS['draw'] = ev_draw

RNG_INTERCEPT = {
    'dsfmt_chk_init_gen_rand': m_seed,
    'NRLib::Random::Norm01()': m_drawfn('norm', 'f64', True),
    'NRLib::RandomGenerator::Norm01()': m_drawfn('norm', 'f64', False),
    'NRLib::Random::Unif01()': m_drawfn('unif', 'f64', True),
    'NRLib::RandomGenerator::Unif01()': m_drawfn('unif', 'f64', False),
    'NRLib::Random::Unif01Open()': m_drawfn('unifopen', 'f64', True),
    'NRLib::RandomGenerator::Unif01Open()': m_drawfn('unifopen', 'f64', False),
    'NRLib::Random::DrawUint32()': m_drawfn('u32', 'i64', True),
    'NRLib::RandomGenerator::DrawUint32()': m_drawfn('u32', 'i64', False),
    'time': m_time,
}
# lower-level intercepts used when the Norm01/Unif01 bodies themselves are analysed
RNG_CORE = {
    'dsfmt_chk_init_gen_rand': m_seed,
    'dsfmt_genrand_close_open': m_drawfn('unif', 'f64', False),
    'dsfmt_genrand_open_open': m_drawfn('unifopen', 'f64', False),
    'dsfmt_genrand_uint32': m_drawfn('u32', 'i32', False),
    'dsfmt_gv_genrand_close_open': m_drawfn('unif', 'f64', True),
    'dsfmt_gv_genrand_open_open': m_drawfn('unifopen', 'f64', True),
    'dsfmt_gv_genrand_uint32': m_drawfn('u32', 'i32', True),
    'time': m_time,
}

# ---------------------------------------------------------------- complex arithmetic helpers
def m_csqrt(A, a, st, f, name):
    re_, im = a
    ty = 'f64'
    if isinstance(im, float) and im == 0.0:
        neg = fcmp('olt', re_, 0.0, ty)
        r = ite(neg, 0.0, mfun('sqrt', (re_,), ty), ty)
        i = ite(neg, mfun('sqrt', (fneg(re_, ty),), ty), 0.0, ty)
        return _ret((r, i))
    h = mfun('hypot', (re_, im), ty)
    r = mfun('sqrt', (fbin('fmul', 0.5, fbin('fadd', h, re_, ty), ty),), ty)
    i = mfun('sqrt', (fbin('fmul', 0.5, fbin('fsub', h, re_, ty), ty),), ty)
    return _ret((r, ite(fcmp('olt', im, 0.0, ty), fneg(i, ty), i, ty)))
def m_muldc3(A, a, st, f, name):
    x, y, z, w = a; ty = 'f64' if name == '__muldc3' else 'f32'
    return _ret((fbin('fsub', fbin('fmul', x, z, ty), fbin('fmul', y, w, ty), ty), fbin('fadd', fbin('fmul', x, w, ty), fbin('fmul', y, z, ty), ty)))
def m_divdc3(A, a, st, f, name):
    x, y, z, w = a; ty = 'f64'
    d = fbin('fadd', fbin('fmul', z, z, ty), fbin('fmul', w, w, ty), ty)
    return _ret((fbin('fdiv', fbin('fadd', fbin('fmul', x, z, ty), fbin('fmul', y, w, ty), ty), d, ty),
                 fbin('fdiv', fbin('fsub', fbin('fmul', y, z, ty), fbin('fmul', x, w, ty), ty), d, ty)))
def m_cabs(A, a, st, f, name): return _ret(mfun('hypot', (a[0], a[1]), 'f64'))
MODELS.update({'csqrt': m_csqrt, '__muldc3': m_muldc3, '__mulsc3': m_muldc3, '__divdc3': m_divdc3, 'cabs': m_cabs,
               'carg': lambda A, a, st, f, n: _ret(mfun('atan2', (a[1], a[0]), 'f64'))})
