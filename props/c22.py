from varspec import *
def run(c):
    m = c.module([VERIF + '/harness/h_geom.cpp'] + BLD.repo_dir('geometry') + BLD.repo_dir('exception') + [REPO + '/src/nrlib/math/constants.cpp'], key='h_geom', extra=['-fno-inline'])
    for e in entries(m, ''):
        A = run_entry(c, m, e); c.decide(A); c.memory(A); c.leaks(A)
        if A.normal is None: c.violation('returns', e, {})
    return c.finish('Points, lines, planes, triangles, boxes, polygons, bilinear patches, transformations and one-dimensional interpolation with symbolic coordinates, against their definitions.')
