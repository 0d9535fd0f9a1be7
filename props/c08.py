from varspec import *
def run(c):
    m = c.module([VERIF + '/harness/h_cov.cpp'] + BLD.repo_dir(*SIM_DIRS) + BLD.repo_dir('iotools'), key='h_cov', extra=['-fno-inline'])
    # products beyond the range of size_t, in the search for large sizes, convert to 0 (gcc) or to 2^63 (clang) on x86-64: both are followed
    for v in (0, 1 << 63):
        TM.FP_OOR = v
        for e in entries(m, 'size'): c.decide(run_entry(c, m, e))
    TM.FP_OOR = None
    return c.finish('Favourable transform sizes, by constant propagation through the size search for each size context.')
