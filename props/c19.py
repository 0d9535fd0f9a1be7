from histspec import *
def run(c):
    m = c.module([VERIF + '/harness/h_codec.cpp'] + BLD.repo_dir('exception'), key='h_codec', extra=['-fno-inline'])
    for e in entries(m, ''):
        A = c.analyse(m, e, ctors=True); c.decide(A); c.memory(A); c.leaks(A)
        if A.normal is None: c.violation('returns', e, {})
    return c.finish('Binary encodings: bytes written and values read, as bit-level terms over symbolic values, for scalars, arrays and memory buffers in both byte orders, IEEE and IBM; error discipline on failing streams.')
