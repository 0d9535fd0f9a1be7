from histspec import *
import subprocess, glob, vflow
UNIT = {'NRLib::Normal::Draw(NRLib::RandomGenerator&) const': 'unit_draw', 'NRLib::Normal::Draw() const': 'unit_draw'}
def tol(e): return 2e-5 if e.startswith(('grid', 'block', 'reach', 'surface', 'snap')) else 1e-8  # grid covariances are stored in single precision
def run_entry(c, m, e):
    unit = lambda A, a, st, f, n: ('ret', A.run('unit_draw', [], st)[1], None)
    return c.analyse(m, e, ctors=True, intercept={k: unit for k in UNIT} if e.startswith('multi') else None)
def run(c):
    inc = subprocess.run(['pkg-config', '--cflags', 'openblas'], capture_output=True, text=True).stdout.split()
    src = [VERIF + '/harness/h_krig.cpp', VERIF + '/harness/h_blas.cpp', BLD.NR + '/flens/nrlib_flens.cpp', REPO + '/src/flens/blas.cc', REPO + '/src/flens/lapack.cc', REPO + '/src/flens/aux_malloc.cc', REPO + '/src/flens/underscore.cc', REPO + '/src/flens/range.cc'] + BLD.repo_dir('statistics', 'exception')
    m = c.module(src, key='h_krig', extra=['-fno-inline'] + inc)
    for e in entries(m, ''):
        A = run_entry(c, m, e)
        c.decide(A, tol=tol(e)); c.memory(A); c.leaks(A)
        if A.normal is None: c.violation('returns', e, {})
    return c.finish('Kriging of lines, grids and surfaces, conditional and multivariate normal distributions, solving and factorising of symmetric matrices, and sample statistics, over symbolic data, trends, positions and covariances, against their definitions; the linear-algebra library is represented by reference routines.')
