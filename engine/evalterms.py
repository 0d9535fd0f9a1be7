"""Identity testing of extracted terms: evaluates closed-form terms (never program code) at sample
points of their free variables, vectorised with numpy.  Used only when two normal forms differ
syntactically, to tell an algebraic rewriting (no separating point) from a real difference."""
import numpy as np, math, zlib
from terms import *
import terms as _t
from scipy import special as _sp

np.seterr(all='ignore')

def _seed(s): return zlib.crc32(s.encode())

class Points:
    def __init__(self, vars, n, seed, extra=()):
        self.n = n
        rng = np.random.default_rng(seed)
        self.rng = rng
        self.vals = {}
        names = sorted(vars)
        # inputs of any magnitude are scaled together (their ratios stay moderate, so that rounding does not dominate)
        self.scale = np.where(rng.random(n) < 0.12, 10.0**rng.uniform(-3, 3, n), 1.0) if any(hasattr(v, 'pref') for v in vars.values()) else np.ones(n)
        pool = np.array([0.0, 1.0, -1.0, 0.5, 2.0, -0.5, 3.0, 0.25, -2.0, 4.0])
        for nm in names:
            ty, lo, hi = vars[nm]
            if ty in ('f64', 'f32'):
                pref = getattr(vars[nm], 'pref', None)
                if pref: lo, hi = pref
                u = rng.random(n) * (hi - lo) + lo
                if lo > 0 and hi / lo > 1e3:
                    g = np.exp(rng.random(n) * (math.log(hi) - math.log(lo)) + math.log(lo))
                    u = np.where(rng.random(n) < 0.5, g, u)
                sp = pool[(pool >= lo) & (pool <= hi)]
                sp = np.concatenate([sp, [lo, hi], [x for x in extra if lo <= x <= hi]])
                pick = rng.random(n) < 0.35
                u = np.where(pick, sp[rng.integers(0, len(sp), n)], u)
                near0 = rng.random(n) < 0.08
                if lo <= 0 <= hi: u = np.where(near0, 0.0, u)
                if pref: u = u * self.scale
                if ty == 'f32': u = u.astype(np.float32).astype(np.float64)
                self.vals[nm] = u
            else:
                w = int(ty[1:])
                lo2, hi2 = lo, hi
                span = hi2 - lo2 + 1
                xs = []
                for i in range(n):
                    r = rng.random()
                    if r < 0.3: x = [lo2, hi2, max(lo2, min(hi2, 0)), max(lo2, min(hi2, 1)), max(lo2, min(hi2, -1)), lo2 + (span >> 1), min(hi2, lo2 + (span >> 1) + 1), max(lo2, lo2 + (span >> 1) - 1)][int(rng.integers(0, 8))]
                    elif r < 0.5 and span > 64:
                        x = lo2 + int(rng.integers(0, 64)) if lo2 >= 0 else max(lo2, min(hi2, int(rng.integers(-64, 64))))
                    else: x = lo2 + int.from_bytes(rng.bytes(9), 'little') % span
                    xs.append(x & ((1 << w) - 1))
                self.vals[nm] = np.array(xs, dtype=np.uint64)
        # make coincidences between variables of the same type
        for ty in ('f64',):
            vs = [v for v in names if vars[v][0] == ty]
            for i in range(n // 6):
                if len(vs) < 2: break
                a, b = rng.choice(len(vs), 2, replace=False)
                x = self.vals[vs[a]][i]
                _, lo, hi = vars[vs[b]]
                if lo <= x <= hi: self.vals[vs[b]][i] = x

M64 = np.uint64(2**64-1)
def mask(x, w):
    if w >= 64: return x
    return x & np.uint64((1 << w) - 1)
def sx(x, w):
    x = x.astype(np.uint64)
    if w < 64:
        s = np.uint64(64 - w)
        return (x << s).view(np.int64) >> np.int64(64 - w)
    return x.view(np.int64)

EXACT = ('fneg', 'fabs', 'floor', 'ceil', 'trunc', 'rint', 'nearbyint', 'round', 'fmin', 'fmax', 'copysign', 'fmod', 'frem')
class Ev:
    salt = ''           # other salt: other values of the clock, of uninitialised storage, of unseeded generators
    noise = None        # (relative size, seed): rounding noise on every floating-point operation
    def __init__(self, pts):
        self.p = pts; self.n = pts.n; self.memo = {}; self.bm = {}; self.arr = {}
        self.hooks = {}

    def const(self, a, ty=None):
        if isinstance(a, float): return np.full(self.n, a)
        return np.full(self.n, a & (2**64-1), dtype=np.uint64)

    def val(self, a):
        if isinstance(a, T):
            r = self.memo.get(a.id)
            if r is None:
                self.evalt(a); r = self.memo[a.id]
            return r
        if isinstance(a, B): return self.bdd(a)
        if isinstance(a, (Ptr,)):
            h = _seed(str((a.obj,)))
            off = self.val(a.off) if isinstance(a.off, T) else np.full(self.n, a.off & (2**64-1), dtype=np.uint64)
            return (off + np.uint64(h << 20 if a.obj else 0)).astype(np.uint64)
        if isinstance(a, PtrIte):
            r = self.val(a.cases[-1][1])
            for c, p in a.cases[:-1]: r = np.where(self.bdd(c), self.val(p), r)
            return r
        if isinstance(a, bool): return np.full(self.n, a)
        return self.const(a)

    def evalt(self, t):
        # iterative post-order
        st = [t]
        while st:
            x = st[-1]
            if isinstance(x, T):
                if x.id in self.memo: st.pop(); continue
                deps = []
                for a in x.args: self._deps(a, deps)
                deps = [d for d in deps if d.id not in self.memo]
                if deps: st.extend(deps); continue
                self.memo[x.id] = self.op(x); st.pop()
            else: st.pop()

    def _deps(self, a, out):
        if isinstance(a, T): out.append(a)
        elif isinstance(a, B):
            for l in bdd_atoms(a): out.append(_t._atoms[l])
        elif isinstance(a, tuple):
            for y in a: self._deps(y, out)
        elif isinstance(a, Ptr): self._deps(a.off, out)
        elif isinstance(a, PtrIte):
            for c, p in a.cases: self._deps(c, out); self._deps(p, out)

    def bdd(self, b):
        if b is TRUE: return np.ones(self.n, bool)
        if b is FALSE: return np.zeros(self.n, bool)
        r = self.bm.get(b.id)
        if r is not None: return r
        st = [b]
        while st:
            x = st[-1]
            if x.id < 2 or x.id in self.bm: st.pop(); continue
            need = [y for y in (x.hi, x.lo) if y.id >= 2 and y.id not in self.bm]
            if need: st.extend(need); continue
            at = _t._atoms[x.var]
            v = self.val(at)
            if v.dtype != bool: v = (v & np.uint64(1)) != 0 if v.dtype == np.uint64 else v != 0
            self.bm[x.id] = np.where(v, self.bdd(x.hi), self.bdd(x.lo)); st.pop()
        return self.bm[b.id]

    def op(self, t):
        o = t.op; a = t.args; ty = t.ty; V = self.val
        if o == 'var':
            v = self.p.vals[a[0]]
            return v
        if o == 'undef':
            # an uninitialised value: an arbitrary value that matches nothing else
            r = np.random.default_rng(_seed('undef' + self.salt + str(a[0])) )
            if ty in ('f64', 'f32'): return r.random(self.n) * 1e6 + 1e5
            if ty == 'i1': return r.random(self.n) < 0.5
            return mask(r.integers(0, 2**63, self.n, dtype=np.uint64), int(ty[1:]) if ty[0] == 'i' else 64)
        if o == 'ite':
            return np.where(self.bdd(a[0]), V(a[1]), V(a[2]))
        if o == 'fadd': r = V(a[0]) + V(a[1])
        elif o == 'fsub': r = V(a[0]) - V(a[1])
        elif o == 'fmul': r = V(a[0]) * V(a[1])
        elif o == 'fdiv': r = V(a[0]) / V(a[1])
        elif o == 'frem' or o == 'fmod': r = np.fmod(V(a[0]), V(a[1]))
        elif o == 'fneg': r = -V(a[0])
        elif o in UN and len(a) == 1: r = UN[o](V(a[0]))
        elif o in BI and len(a) == 2 and ty in ('f64', 'f32'): r = BI[o](V(a[0]), V(a[1]))
        elif o == 'uf' and a[0] in SPECIAL: r = SPECIAL[a[0]](*[V(x) for x in a[1:]])
        elif o == 'uf':
            h = np.random.default_rng(_seed(a[0]))
            acc = np.full(self.n, h.random()*6)
            for x in a[1:]:
                y = V(x)
                if y.dtype == np.uint64: y = y.astype(np.float64)
                acc = acc + (h.random()*2 + 0.5) * y
            return np.sin(acc) + 0.1*acc
        else:
            r = None
        if r is not None:
            if self.noise and o not in EXACT:
                e = 5e-7 if ty == 'f32' else self.noise[0]
                h = np.random.default_rng(self.noise[1] * 1000003 + t.id); r = r * (1 + e * (2*h.random(self.n) - 1))
            return r.astype(np.float32).astype(np.float64) if ty == 'f32' else r
        if o in ('olt', 'ole', 'oeq'):
            x, y = V(a[0]), V(a[1])
            return x < y if o == 'olt' else x <= y if o == 'ole' else x == y
        if o == 'uno': return np.isnan(V(a[0]))
        if o in ('slt', 'ult', 'eq'):
            x, y = V(a[0]), V(a[1])
            if o == 'eq': return x == y
            if o == 'ult': return x < y
            w = 64
            for q in a:
                if isinstance(q, T): w = int(q.ty[1:]) if q.ty[0] == 'i' else 64
            return sx(x, w) < sx(y, w)
        if o in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            w = int(ty[1:]); x, y = V(a[0]), V(a[1])
            x = x.astype(np.uint64); y = y.astype(np.uint64)
            if o == 'add': r = x + y
            elif o == 'sub': r = x - y
            elif o == 'mul': r = x * y
            elif o == 'and': r = x & y
            elif o == 'or': r = x | y
            elif o == 'xor': r = x ^ y
            elif o == 'shl': r = np.where(y < w, x << np.minimum(y, np.uint64(63)), np.uint64(0))
            elif o == 'lshr': r = np.where(y < w, x >> np.minimum(y, np.uint64(63)), np.uint64(0))
            elif o == 'ashr': r = (sx(x, w) >> np.minimum(y, np.uint64(w-1)).astype(np.int64)).view(np.uint64)
            elif o == 'udiv': r = x // np.where(y == 0, np.uint64(1), y)
            elif o == 'urem': r = x % np.where(y == 0, np.uint64(1), y)
            else:
                xs, ys = sx(x, w), sx(y, w); ys = np.where(ys == 0, 1, ys)
                q = np.abs(xs) // np.abs(ys); q = np.where((xs < 0) != (ys < 0), -q, q)
                r = (q if o == 'sdiv' else xs - q*ys).astype(np.int64).view(np.uint64)
            return mask(r, w)
        if o in ('zext', 'trunc'):
            v = V(a[0])
            if v.dtype == bool: v = v.astype(np.uint64)
            if ty == 'i1': return (v & np.uint64(1)) != 0
            return mask(v.astype(np.uint64), int(ty[1:]))
        if o == 'sext': return mask(sx(V(a[0]), int(a[1][1:])).view(np.uint64), int(ty[1:]))
        if o in ('fpext', 'fptrunc'):
            v = V(a[0]); return v.astype(np.float32).astype(np.float64) if ty == 'f32' else v
        if o == 'sitofp':
            r = sx(V(a[0]), int(a[1][1:])).astype(np.float64)
            return r.astype(np.float32).astype(np.float64) if ty == 'f32' else r
        if o == 'uitofp':
            r = V(a[0]).astype(np.float64); return r.astype(np.float32).astype(np.float64) if ty == 'f32' else r
        if o in ('fptosi', 'fptoui'):
            v = V(a[0]); w = int(ty[1:])
            bad = ~np.isfinite(v)
            v = np.where(bad, 0.0, v)
            v = np.clip(np.trunc(v), -2.0**62, 2.0**62)
            r = v.astype(np.int64).view(np.uint64)
            return np.where(bad, np.uint64(1 << (w-1)), mask(r, w))
        if o == 'bitcast':
            v = V(a[0]); s = a[1]
            if s == 'f64': return v.view(np.uint64)
            if s == 'f32': return v.astype(np.float32).view(np.uint32).astype(np.uint64)
            if ty == 'f64': return v.astype(np.uint64).view(np.float64)
            if ty == 'f32': return v.astype(np.uint32).view(np.float32).astype(np.float64)
            return v
        if o == 'concat':
            r = np.zeros(self.n, np.uint64)
            for i, x in enumerate(a): r = r | (V(x).astype(np.uint64) << np.uint64(8*i))
            return r
        if o == 'ovf':
            k, x, y = a
            X, Y = V(x), V(y)
            ty0 = x.ty if isinstance(x, T) else y.ty
            w = int(ty0[1:])
            out = np.zeros(self.n, bool)
            for i in range(self.n):
                p, q = int(X[i]), int(Y[i])
                if k[0] == 's': p, q = sgn(p, w), sgn(q, w)
                e = {'add': p+q, 'sub': p-q, 'mul': p*q}[k[1:]]
                lo, hi = (0, 2**w-1) if k[0] == 'u' else (-2**(w-1), 2**(w-1)-1)
                out[i] = not lo <= e <= hi
            return out
        if o == 'ctpop': return np.array([bin(int(x)).count('1') for x in V(a[0])], dtype=np.uint64)
        if o in ('ctlz', 'cttz'):
            w = int(ty[1:])
            return np.array([(w - int(x).bit_length()) if o == 'ctlz' else ((int(x) & -int(x)).bit_length()-1 if x else w) for x in V(a[0])], dtype=np.uint64)
        h = HOOKS.get(o)
        if h: return h(self, t)
        if o in ('ptrbyte', 'ptrop', 'ptrcast', 'pcmp'):
            r = np.random.default_rng(_seed(str(akey(t.args))))
            return r.integers(0, 2 if ty == 'i1' else 200, self.n, dtype=np.uint64)
        raise NotImplementedError('eval of %s' % o)

UN = {'sqrt': np.sqrt, 'exp': np.exp, 'log': np.log, 'sin': np.sin, 'cos': np.cos, 'tan': np.tan, 'fabs': np.abs,
      'floor': np.floor, 'ceil': np.ceil, 'trunc': np.trunc, 'rint': np.rint, 'nearbyint': np.rint,
      'round': lambda x: np.floor(np.abs(x) + 0.5) * np.sign(x), 'atan': np.arctan, 'asin': np.arcsin, 'acos': np.arccos,
      'tanh': np.tanh, 'sinh': np.sinh, 'cosh': np.cosh, 'log10': np.log10, 'log2': np.log2, 'exp2': np.exp2,
      'erf': _sp.erf, 'erfc': _sp.erfc, 'lgamma': _sp.gammaln, 'tgamma': _sp.gamma, 'expm1': np.expm1, 'log1p': np.log1p, 'cbrt': np.cbrt}
BI = {'pow': np.power, 'atan2': np.arctan2, 'hypot': np.hypot, 'fmin': np.fmin, 'fmax': np.fmax, 'copysign': np.copysign}
HOOKS = {}
# special functions a specification may name (vp_fn1/2/3 with a leading @)
SPECIAL = {'@gammainc': _sp.gammainc, '@gammaincc': _sp.gammaincc, '@gammaincinv': _sp.gammaincinv, '@ndtri': _sp.ndtri, '@ndtr': _sp.ndtr, '@bdtr': lambda k, n, p: _sp.betainc(n - k, k + 1, 1 - p), '@comb': _sp.binom}


# ---------------------------------------------------------------- boundary-directed sample points
def support(t, memo=None):
    """Names of the free variables of a term."""
    seen = set(); out = set(); st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x.id in seen: continue
            seen.add(x.id)
            if x.op == 'var': out.add(x.args[0])
            else: st.extend(x.args)
        elif isinstance(x, B):
            if ('b', x.id) in seen: continue
            seen.add(('b', x.id))
            for l in bdd_atoms(x): st.append(_t._atoms[l])
        elif isinstance(x, tuple): st.extend(x)
        elif isinstance(x, Ptr): st.append(x.off)
        elif isinstance(x, PtrIte):
            for c, p in x.cases: st.append(c); st.append(p)
    return out

def atoms_of(roots, lim=4000):
    seen = set(); out = []; st = list(roots)
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x.id in seen: continue
            seen.add(x.id); st.extend(x.args)
        elif isinstance(x, B):
            if ('b', x.id) in seen: continue
            seen.add(('b', x.id))
            for l in bdd_atoms(x):
                a = _t._atoms[l]
                if a.id not in seen:
                    out.append(a); st.append(a)
        elif isinstance(x, tuple): st.extend(x)
        elif isinstance(x, Ptr): st.append(x.off)
        elif isinstance(x, PtrIte):
            for c, p in x.cases: st.append(c); st.append(p)
    return out[:lim]

CMP = ('olt', 'ole', 'oeq', 'slt', 'ult', 'eq')
def _diff(E, at):
    a, b = at.args
    x, y = E.val(a), E.val(b)
    if at.op in ('olt', 'ole', 'oeq'): return x - y
    w = 64
    for q in at.args:
        if isinstance(q, T) and q.ty[0] == 'i': w = int(q.ty[1:])
    if at.op == 'slt' or at.op == 'eq': return sx(x.astype(np.uint64), w).astype(np.float64) - sx(y.astype(np.uint64), w).astype(np.float64)
    return x.astype(np.float64) - y.astype(np.float64)

def subpoints(P, vals):
    Q = Points.__new__(Points); Q.n = len(next(iter(vals.values()))) if vals else P.n; Q.rng = P.rng; Q.vals = vals
    return Q

def augment(P, vars, roots, max_atoms=80, seed=1, hook=None):
    """Adds points on and next to the boundary of every branch condition occurring in the terms.
    Returns (P', atoms, covered): covered = atoms seen both true and false."""
    atoms = [a for a in atoms_of(roots) if a.op in CMP and support(a)]
    rng = np.random.default_rng(seed + 17)
    newv = {v: [] for v in P.vals}
    def add(vals):
        for v in P.vals: newv[v].append(vals[v])
    # round robin over the shapes of the conditions, so that a rare one is not crowded out by one repeated for every cell
    shapes = {}
    for a in atoms: shapes.setdefault((a.op,) + tuple(x.op if isinstance(x, T) else x if isinstance(x, (int, float)) else '?' for x in a.args), []).append(a)
    todo = []
    while len(todo) < max_atoms and any(shapes.values()):
        for l in shapes.values():
            if l and len(todo) < max_atoms: todo.append(l.pop(0))
    unit = np.where(P.scale == 1)[0] if hasattr(P, 'scale') else np.arange(P.n)
    E0 = Ev(P)
    if hook: hook(E0)
    for at in todo:
        sup = sorted(v for v in support(at) if v in vars)
        if not sup or any(isinstance(x, (Ptr, PtrIte)) for x in at.args): continue
        rng.shuffle(sup)
        wd = [v for v in sup if hasattr(vars[v], 'pref')]
        for v in (['*'] if wd else []) + sup[:3]:
            nb = 6
            base = unit[rng.integers(0, len(unit), nb)]
            if v == '*':        # all inputs of free magnitude together
                f = 10.0**np.linspace(-3, 3, 97); allw = [u for u in P.vals if u in vars and hasattr(vars[u], 'pref')]
                vals = {u: np.repeat(P.vals[u][base], 97) for u in P.vals}
                sc = P.scale[base] if hasattr(P, 'scale') else np.ones(nb)
                for u in allw: vals[u] = vals[u] / np.repeat(sc, 97) * np.tile(f, nb)
                E = Ev(subpoints(P, vals))
                if hook: hook(E)
                d = _diff(E, at).reshape(nb, 97)
                for r in range(nb):
                    k = np.where(np.isfinite(d[r][:-1]) & np.isfinite(d[r][1:]) & (np.sign(d[r][:-1]) != np.sign(d[r][1:])))[0]
                    for j in k[:2]:
                        for jj in (j, j+1): add({u: vals[u][r*97+jj] for u in P.vals})
                continue
            ty, lo, hi = vars[v]
            pref = getattr(vars[v], 'pref', None)
            if pref: lo, hi = pref
            if ty[0] == 'f':
                if ty == 'f32': continue
                g = np.linspace(lo, hi, 33)
                if lo > 0: g = np.concatenate([g, np.exp(np.linspace(math.log(lo), math.log(hi), 32))])
                elif hi > 1: g = np.concatenate([g, np.exp(np.linspace(math.log(1e-4), math.log(hi), 16))])
                g = np.sort(g)
            else:
                w = int(ty[1:])
                g = np.unique(np.array([lo + (hi - lo) * i // 64 for i in range(65)] + [x for x in range(max(lo, -3), min(hi, 12) + 1)], dtype=object))
            m = len(g)
            vals = {u: np.repeat(P.vals[u][base], m) for u in P.vals}
            if ty[0] == 'f': vals[v] = np.tile(g, nb)
            else: vals[v] = np.tile(np.array([int(x) & ((1 << w) - 1) for x in g], dtype=np.uint64), nb)
            E = Ev(subpoints(P, vals))
            if hook: hook(E)
            d = _diff(E, at).reshape(nb, m)
            for r in range(nb):
                dr = d[r]
                sgnc = np.where(np.isfinite(dr[:-1]) & np.isfinite(dr[1:]) & (np.sign(dr[:-1]) != np.sign(dr[1:])))[0]
                if len(sgnc) == 0: continue
                j = int(sgnc[rng.integers(0, len(sgnc))])
                a_, b_ = g[j], g[j+1]; fa = dr[j]
                bv = {u: P.vals[u][base[r]:base[r]+1] for u in P.vals}
                if ty[0] == 'f':
                    for _ in range(6):      # 16-section
                        xs = np.linspace(a_, b_, 17)
                        q = {u: np.repeat(bv[u], 17) for u in bv}; q[v] = xs
                        E = Ev(subpoints(P, q))
                        if hook: hook(E)
                        dd = _diff(E, at)
                        k = np.where(np.sign(dd[:-1]) != np.sign(dd[1:]))[0]
                        if len(k) == 0: break
                        a_, b_ = xs[k[0]], xs[k[0]+1]
                    cand = [a_, b_, a_ - abs(a_) * 1e-3, b_ + abs(b_) * 1e-3, a_ * 0.9, b_ * 1.1]
                    for cv in cand:
                        if lo <= cv <= hi:
                            q = {u: bv[u][0] for u in bv}; q[v] = cv; add(q)
                else:
                    a_, b_ = int(a_), int(b_)
                    while b_ - a_ > 1:
                        mid = (a_ + b_) // 2
                        q = dict(bv); q[v] = np.array([mid & ((1 << w) - 1)], dtype=np.uint64)
                        E = Ev(subpoints(P, q))
                        if hook: hook(E)
                        if np.sign(_diff(E, at)[0]) == np.sign(fa): a_ = mid
                        else: b_ = mid
                    for cv in (a_-1, a_, b_, b_+1):
                        if lo <= cv <= hi:
                            q = {u: bv[u][0] for u in bv}; q[v] = np.uint64(cv & ((1 << w) - 1)); add(q)
                break
    k = len(next(iter(newv.values()))) if newv else 0
    if k:
        vals = {}
        for v in P.vals: vals[v] = np.concatenate([P.vals[v], np.array(newv[v], dtype=P.vals[v].dtype)])
        P = subpoints(P, vals)
    E = Ev(P)
    if hook: hook(E)
    cov = 0
    for at in atoms:
        try: v = E.val(at)
        except NotImplementedError: continue
        if v.dtype != bool: v = v != 0
        if v.any() and not v.all(): cov += 1
    return P, len(atoms), cov
