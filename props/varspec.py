"""Shared by the variogram, padding and covariance-grid properties."""
from histspec import *
def var_module(c): return sim_module(c, 'h_vario.cpp')
