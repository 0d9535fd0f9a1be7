from varspec import *
def run(c):
    m = var_module(c)
    for e in entries(m, 'geo_'):
        c.decide(run_entry(c, m, e))
    return c.finish('Geometry of the spatial correlation: for every family the value at a symbolic lag equals the family function of the rotated, range-scaled distance; one at zero lag, even, bounded, consistent across dimensions; covariance and variogram derived from it.')
