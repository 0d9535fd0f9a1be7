from varspec import *
def run(c):
    m = c.module([VERIF + '/harness/h_cov.cpp'] + BLD.repo_dir(*SIM_DIRS) + BLD.repo_dir('iotools'), key='h_cov', extra=['-fno-inline'])
    for e in entries(m, 'cg', 'ctab_'): c.decide(run_entry(c, m, e))
    m = sim_module(c)
    for e in entries(m, 'sm'):
        dim, fam, ns, nf = parse(e)
        A = run_entry(c, m, e)
        decide_cov(c, A, fam, (ns[:dim] + [1, 1])[:3], ns[dim:2*dim], nf, halves=(math.pi/2,))
    return c.finish('Covariance grids: every cell as a closed form in symbolic variogram parameters, spacings and smoothing values, against the wrapped lag of that cell; smoothing also through the advanced simulate call.')
