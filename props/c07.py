from varspec import *
def run(c):
    m = var_module(c)
    for e in entries(m, 'pad1_', 'pad2_', 'pad2z_', 'pad3_', 'pad3z_', 'padred_', 'padkw', 'paddoc'):
        c.decide(run_entry(c, m, e))
    return c.finish('Announced simulation size as a closed form in symbolic ranges, spacings, sizes and angles, per variogram family and dimension.')
