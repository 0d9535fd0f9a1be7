from histspec import *
from c14 import fft_module
def run(c):
    m = hist_module(c)
    for e in entries(m, 'len_', 'lay'):
        A = run_entry(c, m, e); c.decide(A)
    m = fft_module(c)
    for e in entries(m, 'trip'):
        A = run_entry(c, m, e); c.decide(A, only=lambda k, i: i.startswith('unpadded'))
    return c.finish('Shape and layout of the result: a flat vector with one value per requested cell, first axis fastest; decided by constant propagation of the container sizes, by comparing each cell with the grid cell of the library-level field, '
                    'and by comparing the cells handed out by the padded grids with the cells put in.')
