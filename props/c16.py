from varspec import *
def run(c):
    m = c.module([VERIF + '/harness/h_grid.cpp'], key='h_grid', extra=['-fno-inline'])
    for e in entries(m, 'grid', 'stat'):
        A = run_entry(c, m, e); c.decide(A); c.memory(A); c.leaks(A)
    return c.finish('Grid containers: index maps, storage order, resizing, swapping, statistics with missing values; every container operation analysed with symbolic cell values and, for the index maps, symbolic indices.')
