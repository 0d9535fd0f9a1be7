"""Specification of the simulated field: a zero-mean linear image of independent standard normal draws whose covariance
is the variogram's, wrapped on the padded grid, with negative spectrum set to zero."""
import numpy as np, itertools, math
from driver import *

def corr(fam, h, power):
    if fam == 'constant': return np.ones_like(h)
    if fam == 'exponential': return np.exp(-3*h)
    if fam == 'spherical': return np.where(h < 1, 1 - 1.5*h + 0.5*h**3, 0.0)
    if fam == 'gaussian': return np.exp(-3*h*h)
    if fam == 'general_exponential': return np.exp(-3*h**power)
    if fam == 'matern32': s = 4.744*h; return (1+s)*np.exp(-s)
    if fam == 'matern52': s = 5.918*h; return (1+s+s*s/3)*np.exp(-s)
    if fam == 'matern72': s = 6.877*h; return (1+s+0.4*s*s+s**3/15)*np.exp(-s)
    raise CheckError('family ' + fam)

def dist(dx, dy, dz, q):
    ca, sa, cd, sd = math.cos(q['az']), math.sin(q['az']), math.cos(q['dip']), math.sin(q['dip'])
    u = ca*cd*dx + sa*cd*dy + sd*dz; v = -sa*dx + ca*dy; w = -ca*sd*dx - sa*sd*dy + cd*dz
    return np.sqrt((u/q['rx'])**2 + (v/q['ry'])**2 + (w/q['rz'])**2)

def axis_ranges(q, half):
    a, d = q['az'], q['dip']
    V = [[q['rx']*math.cos(d)*math.cos(a), q['rx']*math.cos(d)*math.sin(a), q['rx']*math.sin(d)],
         [q['ry']*math.cos(a+half), q['ry']*math.sin(a+half), 0.0],
         [q['rz']*math.cos(d+half)*math.cos(a), q['rz']*math.cos(d+half)*math.sin(a), q['rz']*math.sin(d+half)]]
    return [max(abs(v[k]) for v in V) for k in range(3)]

def cov_grid(fam, N, step, q, s, half):
    """Covariance on the wrapped grid N (x,y,z), indexed [ix,iy,iz]."""
    ax = []
    for k in range(3):
        n = N[k]; i = np.arange(n); ax.append(np.where(i <= n//2, i, i - n) * step[k])
    X, Y, Z = np.meshgrid(*ax, indexing='ij')
    c = q['sd']**2 * corr(fam, dist(X, Y, Z, q), q['power'])
    rr = axis_ranges(q, half)
    for k, D in enumerate((X, Y, Z)):
        if s[k] < 0.99999: c = c * s[k] ** (D*D / rr[k]**2)
    return c

def field_cov(fam, n, N, step, q, s, half):
    c = cov_grid(fam, N, step, q, s, half)
    S = np.maximum(np.real(np.fft.fftn(c)), 0)     # even part of the wrapped covariance, spectrum clamped
    g = np.real(np.fft.ifftn(S))
    idx = [(i, j, k) for k in range(n[2]) for j in range(n[1]) for i in range(n[0])]   # Fortran order
    I = np.array(idx)
    D = I[:, None, :] - I[None, :, :]
    return g[D[..., 0] % N[0], D[..., 1] % N[1], D[..., 2] % N[2]]

def draws_in(roots):
    seen = set(); out = []; st = list(roots)
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x.id in seen: continue
            seen.add(x.id)
            if x.op == 'draw' and x.args[0] == 'norm': out.append(x); continue
            st.extend(x.args)
        elif isinstance(x, B):
            if ('b', x.id) in seen: continue
            seen.add(('b', x.id)); st.extend(TM._atoms[l] for l in bdd_atoms(x))
        elif isinstance(x, tuple): st.extend(x)
    return sorted(out, key=lambda t: t.id)

def dft_dims(roots):
    seen = set(); out = set(); st = list(roots)
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x.id in seen: continue
            seen.add(x.id)
            if x.op == 'dft': out.add((x.args[0], x.args[1]))
            if x.op == 'draw': continue
            st.extend(x.args)
        elif isinstance(x, tuple): st.extend(x)
    return out

def decide_cov(c, A, fam, n, pad, nf=1, npts=6, const=None, rule="field-covariance", tol=2e-7, halves=(3.14/2, math.pi/2)):
    """A.outs 'field' holds nf fields of prod(n) cells."""
    outs = [t for w, i, t, cnd, s in sorted(A.outs, key=lambda o: o[1]) if w == 'field']
    sites = [s for w, i, t, cnd, s in A.outs if w == 'field']
    ncell = n[0]*n[1]*n[2]
    if len(outs) != ncell*nf:
        c.obligation('result-length', 'nf')
        c.violation('result-length', 'simulate [%s]' % A.entry, {'cells returned': len(outs), 'cells required': ncell*nf}); return
    dr = draws_in(outs)
    dims = sorted({d for k, d in dft_dims(outs) if k == 'c2r'})
    if not dims: raise CheckError('no inverse transform in the result of ' + A.entry)
    D = len(dr)
    vars_ = dict(A.vars)
    base = directed_points(c, vars_, outs, npts)
    npts = base.n
    rows = D + 2
    vals = {v: np.repeat(x, rows) for v, x in base.vals.items()}
    P = evalterms.subpoints(base, vals) if vals else base
    P.n = npts*rows
    E = Ev(P)
    rng = np.random.default_rng(c.seed)
    rnd = rng.normal(size=D)
    E.draw_values = {}
    for k, t in enumerate(dr):
        col = np.zeros(rows); col[k] = 1; col[D+1] = rnd[k]
        E.draw_values[t.id] = np.tile(col, npts)
    Y = np.stack([E.val(t) if isinstance(t, T) else np.full(P.n, float(t)) for t in outs], 1).reshape(npts, rows, -1)
    c.n_pts += npts
    who = 'simulation result in %s' % A.entry
    deg = math.pi/180
    for p in range(npts):
        L = Y[p, :D, :].T
        if not np.isfinite(Y[p]).all():
            c.obligation(rule, 'id'); c.violation('finite-result', who, {'point': {v: float(base.vals[v][p]) for v in base.vals}}); continue
        g = lambda nm, d: float(base.vals[nm][p]) if nm in base.vals else (const or {}).get(nm, d)
        q = {'rx': g('rx', 1.0), 'ry': g('ry', 1.0), 'rz': g('rz', 1.0), 'az': g('az', 0.0)*deg, 'dip': g('dip', 0.0)*deg, 'power': g('power', 1.5), 'sd': g('sd', 1.0)}
        if q['ry'] < 0: q['ry'] = q['rx']
        if q['rz'] < 0: q['rz'] = q['rx']
        step = [g('dx', 1.0), g('dy', 1.0), g('dz', 1.0)]; s = [g('sx', 1.0), g('sy', 1.0), g('sz', 1.0)]
        pt = {v: (float(base.vals[v][p])) for v in base.vals}
        c.obligation('zero-mean', 'id'); c.obligation('linear-in-draws', 'id')
        if np.abs(Y[p, D]).max() > 1e-9: c.violation('zero-mean', who, {'mean': Y[p, D].tolist()[:8], 'point': pt})
        if np.abs(L @ rnd - Y[p, D+1]).max() > 1e-8 * (1 + np.abs(Y[p, D+1]).max()): c.violation('linear-in-draws', who, {'point': pt})
        C = L @ L.T
        best = None
        nd = len(dims[0])
        for dd in dims:
            for perm in set(itertools.permutations(dd)):
                N = list(perm) + [1]*(3 - len(perm))
                if any(N[k] < n[k] + (pad[k] if k < len(pad) else 0) for k in range(3)): continue
                for half in halves:
                    one = field_cov(fam, n, N, step, q, s, half)
                    X = np.kron(np.eye(nf), one)
                    e = np.abs(C - X).max()
                    if best is None or e < best[0]: best = (e, N, X)
        c.obligation(rule, 'id', C.size)
        if best is None:
            c.violation('padded-size', who, {'transform sizes': dims, 'required at least': [n[k] + pad[k] for k in range(len(pad))]}); continue
        if best[0] > tol * (1 + q['sd']**2):
            w = np.unravel_index(np.argmax(np.abs(C - best[2])), C.shape)
            c.violation(rule, who, {'cells': [int(w[0]), int(w[1])], 'covariance': float(C[w]), 'required': float(best[2][w]), 'transform sizes': best[1], 'point': pt, 'functions analysed': c.anchor(A)[:60]})
        if len(c.samples) < 10: c.samples.append({'entry': A.entry, 'draws': D, 'cells': len(outs), 'transform': dims, 'max covariance difference': float(best[0]), 'point': pt})

def directed_points(c, vars_, roots, npts, more=16):
    """A few generic points, and points that reach both sides of the branch conditions in the terms."""
    P = Points(vars_, 400, c.seed)
    k = min(npts, max(2, npts//2))
    for v, x in vars_.items():
        lo, hi = getattr(x, 'pref', (x[1], x[2]))
        if x[0][0] == 'f': P.vals[v][:k] = np.random.default_rng(c.seed + zlib_(v)).uniform(lo, hi, k)
    P.scale[:k] = 1
    if not vars_: P.n = npts; return P
    sel = list(range(npts))
    ats = [a for a in evalterms.atoms_of(roots) if a.op in evalterms.CMP and evalterms.support(a)]
    if ats:
        P, na, cov = evalterms.augment(P, vars_, roots, max_atoms=60, seed=c.seed); c.n_atoms += na; c.n_atoms_cov += cov
        E = Ev(P); V = []
        for a in ats:
            v = E.val(a); V.append(v if v.dtype == bool else v != 0)
        V = np.stack(V); seen = np.stack([V[:, sel].any(1), (~V[:, sel]).any(1)])
        while len(sel) < npts + more:
            gain = (V & ~seen[0][:, None]).sum(0) + (~V & ~seen[1][:, None]).sum(0)
            w = int(np.argmax(gain))
            if gain[w] == 0: break
            sel.append(w); seen[0] |= V[:, w]; seen[1] |= ~V[:, w]
    Q = evalterms.subpoints(P, {v: x[sel] for v, x in P.vals.items()})
    return Q

def zlib_(s):
    import zlib
    return zlib.crc32(s.encode()) & 0xffff

SIM_DIRS = ('variogram', 'fft', 'random', 'exception', 'math')
def sim_module(c, harness='h_sim.cpp'):
    src = [VERIF + '/harness/' + harness] + PY_SOURCES() + BLD.repo_dir(*SIM_DIRS) + BLD.repo_dir('iotools')
    return c.module(src, key=harness, extra=['-fno-inline', '-I' + VERIF + '/stubs'])

def entries(m, *pre):
    es = sorted(f[6:] for f in m.funcs if f.startswith('entry_') and f[6:].startswith(pre))
    if not es: raise CheckError('no entries ' + str(pre))
    return es
FAMS = ('constant', 'exponential', 'spherical', 'gaussian', 'general_exponential', 'matern32', 'matern52', 'matern72')
def parse(e):
    """cov2_gaussian_3_2_1_1 -> (dim, family, [numbers])"""
    k = e.split('_', 1); dim = int(k[0][-1])
    for f in FAMS:
        if k[1].startswith(f + '_'):
            rest = k[1][len(f)+1:].split('_')
            nf = 1
            if rest[-1].startswith('x'): nf = int(rest[-1][1:]); rest = rest[:-1]
            return dim, f, [int(x) for x in rest], nf
    raise CheckError(e)
