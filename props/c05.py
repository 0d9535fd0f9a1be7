from histspec import *
def run(c):
    m = hist_module(c)
    for e in entries(m, 'dim_', 'kw_', 'adv_', 'auto_', 'vario_'):
        A = run_entry(c, m, e); c.decide(A)
    return c.finish('Dimension dispatch and argument routing of the two simulate functions: the closed forms of all cells agree between equivalent calls (reduced dimensions, keywords, defaults, announced padding).')
