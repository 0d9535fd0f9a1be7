from histspec import *
def run(c):
    m = sim_module(c, 'h_res.cpp')
    for e in entries(m, 'res'):
        A = run_entry(c, m, e); c.decide(A); c.memory(A); c.leaks(A)
    m = sim_module(c, 'h_sim.cpp')
    skip = () if c.thorough else ('cov1_matern32_30', 'cov2_gaussian_7', 'cov3_matern52_4')
    for e in entries(m, 'cov', 'sm', 'auto', 'multi', 'single'):
        if e.startswith(skip or '~'): continue
        A = run_entry(c, m, e); c.memory(A); c.leaks(A)
    return c.finish('Ownership analysis of every documented call: for each heap block, transform buffer and transform plan allocated on any path, including exceptional ones, the condition under which it is still held and not reachable from static storage when the call '
                    'and its results are gone must be unsatisfiable; plus bounds, use-after-free, double-release findings of the memory model on the same paths.')
