from varspec import *
def run(c):
    m = c.module([VERIF + '/harness/h_surf.cpp', REPO + '/src/nrlib/volume/volume.cpp'] + BLD.repo_dir('exception'), key='h_surf', extra=['-fno-inline'])
    for e in entries(m, ''):
        A = run_entry(c, m, e); c.decide(A); c.memory(A); c.leaks(A)
        if A.normal is None: c.violation('returns', e, {})
    return c.finish('Regular, rotated and constant surfaces and volumes with symbolic geometry, node values and points: interpolation against hat-function weights, node positions, index searches, arithmetic and statistics with missing nodes, coordinate frames, containment, copies and changes.')
