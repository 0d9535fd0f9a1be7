from histspec import *
from vflow import _ret
def uf(name, n):
    return lambda A, a, st, f, nm: _ret(mkt('uf', 'f64', name, *a[-n:]))
def run(c):
    m = c.module([VERIF + '/harness/h_dist.cpp'] + BLD.repo_dir('random', 'exception', 'math'), key='h_dist', extra=['-fno-inline'])
    base = dict(models.RNG_INTERCEPT)
    gam = {'NRLib::gammp(double, double)': uf('@gammainc', 2)}
    def go(es, ic, cut=None, tol=1e-8, n=None):
        for e in es:
            A = Analyzer(m, intercept=ic); A.loop_cut = cut
            nn, v, u = A.analyse('entry_' + e, ctors=True); A.normal, A.unwind, A.entry = nn, u, e
            c.entries.append(e); c.steps += A.steps
            for f in A.visited_funcs: c.funcs.add(f.split('(')[0])
            if nn is None or not A.obs: raise CheckError('nothing observed in ' + e)
            c.obligation('documented-call-returns', 'nf')
            if u is not None and sat_possible(c, A, u.cond): c.violation('documented-call-returns', 'an exception leaves %s' % e, {})
            c.decide(A, tol=tol, n=n)
            c.memory(A)
            if not cut: c.leaks(A)
    go([e for e in entries(m, 'dist') if e not in ('dist_poisson_q', 'dist_chisquared_q')], {**base, **gam})
    go(['dist_poisson_q'], {**base, **gam}, cut=24)
    go(['dist_chisquared_q'], {**base, 'NRLib::invgammp(double, double)': lambda A, a, st, f, nm: _ret(mkt('uf', 'f64', '@gammaincinv', a[1], a[0]))})
    go(entries(m, 'trunc'), {**base, 'NRLib::Normal::PhiInverse(double) const': uf('@ndtri', 1)}, cut=2)
    go(entries(m, 'cut_'), base, cut=12, n=4000)
    go(entries(m, 'fun'), base, tol=1e-11)
    go(entries(m, 'gam'), base, cut=90, tol=1e-10)
    go(entries(m, 'inv'), {**base, **gam}, tol=1e-7)
    return c.finish('Densities, cumulative functions, quantiles and draws of every distribution as closed forms over symbolic parameters and arguments, compared with the defining formulas; special functions compared with their definitions '
                    '(convergence loops unrolled until convergence for the sampled arguments); composed functions use the specification of the parts.')
