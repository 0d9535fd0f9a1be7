from histspec import *
def run(c):
    m = hist_module(c)
    for e in entries(m, 'pure_'):
        A = run_entry(c, m, e); c.decide(A)
    R = run_entry(c, m, 'pastq_fresh')
    for e in entries(m, 'pastq_'):
        if 'fresh' in e: continue
        A = run_entry(c, m, e)
        for w in ('corr', 'size'): equal_lists(c, 'answers-are-functions-of-the-arguments', '%s after a query that differs in one argument (%s)' % (w, e), outs(A, w), outs(R, w), {**R.vars, **A.vars}, tol=1e-9 if w == 'corr' else 1e-12)
    return c.finish('Queries (corr, simulation_size, seed, quote, creating and dropping variograms) leave later simulations unchanged; simulations leave the variogram unchanged; a variogram behaves as a value of its parameters. '
                    'Decided by comparing the extracted closed form of every cell with and without the interleaved calls.')
