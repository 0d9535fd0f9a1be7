from varspec import *
def run(c):
    m = c.module([VERIF + '/harness/h_segy.cpp'] + [REPO + '/src/nrlib/' + f for f in ('segy/segygeometry.cpp', 'segy/segytrace.cpp', 'math/constants.cpp', 'iotools/stringtools.cpp')] + BLD.repo_dir('exception'), key='h_segy', extra=['-fno-inline'])
    for e in entries(m, ''):
        A = run_entry(c, m, e); c.decide(A); c.memory(A); c.leaks(A)
        if A.normal is None: c.violation('returns', e, {})
    return c.finish('SEG-Y geometries built from traces, surfaces, parameters and parts of others: positions, line numbers and cells for symbolic origin, spacing, direction and query point; trace lists in twelve directions, both hands, several orders and steps.')
