from varspec import *
def run(c):
    m = var_module(c)
    for e in entries(m, 'mut_', 'clone_', 'rej_'):
        A = run_entry(c, m, e); c.decide(A)
    return c.finish('Object histories of a variogram: after any setter (and a chain of setters) the object is value-equal to one created with the final parameters; clones are equal, new and independent; invalid ranges are rejected and leave the object unchanged.')
