from simspec import *
def run(c):
    m = sim_module(c)
    for e in entries(m, 'cov', 'multi'):
        dim, fam, v, nf = parse(e)
        A = c.analyse(m, e, intercept=models.RNG_INTERCEPT, ctors=True)
        n = v[:dim] + [1]*(3-dim); pad = v[dim:2*dim]
        c.decide(A)
        decide_cov(c, A, fam, n, pad, nf, npts=12 if c.thorough else 4)
    for e in entries(m, 'auto', 'single'):
        dim, fam, v, nf = parse(e)
        A = c.analyse(m, e, intercept=models.RNG_INTERCEPT, ctors=True)
        n = v[:dim] + [1]*(3-dim); r = v[dim:]
        const = {1: lambda: {'rx': r[0], 'ry': -1, 'rz': -1, 'dx': r[1]*0.5}, 2: lambda: {'rx': r[0], 'ry': r[1], 'rz': -1, 'az': r[2]},
                 3: lambda: {'rx': r[0], 'ry': r[1], 'rz': r[2]}}[dim]()
        sz = [t for w, i, t, cnd, s in sorted(A.outs, key=lambda o: o[1]) if w == 'simsize']
        c.decide(A)
        decide_cov(c, A, fam, n, [a - b for a, b in zip(sz, n)], nf, npts=1, const=const)
    return c.finish('Simulated field: the linear map from the standard normal draws to the cells is extracted from the code reached through the binding table (and the library functions), for symbolic variogram parameters and spacings; its mean, linearity and second moment are compared with the specification.')
