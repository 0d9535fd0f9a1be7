from driver import *
def run(c):
    m = c.module([VERIF + '/harness/h_corr.cpp'] + BLD.repo_dir('variogram', 'exception'))
    for t in range(8):
        A = c.analyse(m, 'corr_%d' % t)
        c.decide(A); c.memory(A); c.leaks(A)
    return c.finish('Closed form of the correlation of each family at a symbolic lag, compared with the documented family function; also memory safety and release of the object.')
