from histspec import *
def run(c):
    m = hist_module(c)
    for e in entries(m, 'seed_'):
        A = run_entry(c, m, e, must_return=True)
        c.decide(A)
        if e.startswith('seed_not_clock_'):
            X = outs(A, 'field') + outs(A, 'field2')
            c.obligation('seeded-results-ignore-the-clock', 'nf', len(X))
            if not X: raise CheckError('no result in ' + e)
            if depends(X, lambda t: t.op in ('clock', 'rng0')): c.violation('seeded-results-ignore-the-clock', 'simulate after seed, %s-D' % e[-1], {})
        if e.startswith('seed_distinct_'):
            X = outs(A, 'a'); c.obligation('seed-reaches-the-draws', 'nf', len(X))
            if not depends(X, lambda t: t.op == 'var' and t.args[0] == 'seed'): c.violation('seed-reaches-the-draws', 'simulate after seed, %s-D' % e[-1], {})
    return c.finish('Seed bookkeeping: reading an unset seed raises; a set seed is returned unchanged (symbolic 63-bit seed), also after simulations; after an unseeded simulation the reported seed '
                    'reproduces it; reading the seed is neutral; seeded results depend on the seed and never on the clock.')
