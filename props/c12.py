from varspec import *
def run(c):
    m = var_module(c)
    for e in entries(m, 'fac_', 'fdef_', 'fzero_', 'fkw_'):
        c.decide(run_entry(c, m, e))
    return c.finish('The variogram factory as bound to Python: name/case dispatch, defaults, degree conversion and keyword routing, decided by value equality with the object the documentation describes.')
