from varspec import *
def fft_module(c): return c.module([VERIF + '/harness/h_fft.cpp'] + BLD.repo_dir('fft', 'exception', 'math') + BLD.repo_dir('iotools'), key='h_fft', extra=['-fno-inline'])
def run(c):
    m = fft_module(c)
    for e in entries(m, 'trip', 'conv', 'init', 'cyc', 'fft1_'):
        A = run_entry(c, m, e); c.decide(A); c.memory(A); c.leaks(A)
    return c.finish('Transforms: coefficients compared with the defining sums, round trips, cyclic convolution, padding; plus memory safety and release of transform buffers and plans on every path.')
