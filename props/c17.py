from histspec import *
def run(c):
    m = c.module([VERIF + '/harness/h_rand.cpp'] + BLD.repo_dir('random', 'exception'), key='h_rand', extra=['-fno-inline'])
    clock = {'time': models.m_time}
    for e in entries(m, 'stream', 'kinds', 'several', 'clock', 'unseeded', 'fill_') + (entries(m, 'fillbig') if c.thorough else []):
        A = c.analyse(m, e, intercept=clock, ctors=True); c.decide(A, n=400 if c.thorough else 60); c.memory(A); c.leaks(A)
    for e in entries(m, 'norm'):
        normal(c, m, e)
    return c.finish('The uniform, open-interval and integer draws of the global and the object generator, as bit-level terms over a symbolic seed, are the reference dSFMT-19937 stream (also across the state refills and after any mixture of draw kinds); '
                    'the normal draws are Marsaglia and Bray\'s method on that stream (rejection loops cut after three rounds: each round runs the same code; the first draw is stratified over the branches).')

def normal(c, m, e):
    ic = {k: v for k, v in models.RNG_INTERCEPT.items() if 'Norm01' not in k}
    A = Analyzer(m, intercept=ic); A.loop_cut = 3
    n, v, u = A.analyse('entry_' + e, ctors=True); A.normal, A.unwind, A.entry = n, u, e
    c.entries.append(e); c.steps += A.steps
    for f in A.visited_funcs: c.funcs.add(f.split('(')[0])
    if n is None or not A.obs: raise CheckError('nothing observed in ' + e)
    P = Points(A.vars, 40000, c.seed)
    first = [t for t, cnd, s in A.draws if t.args[1].op == 'seeded']
    if not first: c.violation('normal-draw', 'no uniform draw is used by %s' % e, {}); return
    k = P.n // 4; r = np.random.default_rng(c.seed)
    u0 = np.concatenate([r.uniform(0, 0.8638, P.n - 3*k), r.uniform(0.8638, 0.9745, k), r.uniform(0.9745, 0.9973002039, k), r.uniform(0.9973002039, 1, k)])
    A.draw_values = {t.id: u0 for t in first}
    # second and third draw: half of the points of the rejection branch lie just inside or just outside its curve
    nxt = lambda ts: [t for t, cnd, s in A.draws if t.args[1].op == 'adv' and any(t.args[1].args[0] is x.args[1] for x in ts)]
    second = nxt(first); third = nxt(second)
    if second and third:
        u1 = Ev(P).val(second[0]).copy(); u2 = Ev(P).val(third[0]).copy(); x = 6*u1 - 3; a = np.abs(x)
        g = 17.49731196*np.exp(-x*x/2) - np.where(a < 1, 4.73570326*(3 - x*x) + 2.15787544*(1.5 - a), np.where(a < 1.5, 2.36785163*(3 - a)**2 + 2.15787544*(1.5 - a), 2.36785163*(3 - a)**2))
        w = (g + np.where(r.random(P.n) < 0.5, 1, -1)*10.0**r.uniform(-9, -5, P.n))/0.358
        use = (np.arange(P.n) % 2 == 0) & (u0 >= 0.9745) & (u0 < 0.9973002039) & (w > 0) & (w < 1)
        u2 = np.where(use, w, u2)
        for t in third: A.draw_values[t.id] = u2
    c.decide(A, pts=P)
    c.memory(A)
