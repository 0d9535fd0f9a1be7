"""Shared by the call-history properties."""
from simspec import *

def hist_module(c): return sim_module(c, 'h_hist.cpp')

def run_entry(c, m, e, must_return=True, **k):
    A = c.analyse(m, e, intercept=models.RNG_INTERCEPT, ctors=True, **k)
    miss = [f for f in A.findings if f[0] == 'missing-binding']
    for f in miss: c.violation('binding-exists', f[2], {'entry': e})
    c.obligation('binding-exists', 'nf')
    if must_return and not miss:
        c.obligation('documented-call-returns', 'nf')
        if A.normal is None or (A.unwind is not None and sat_possible(c, A, A.unwind.cond)):
            ty = [t for cnd, t in (A.unwind.exc or [])] if A.unwind is not None else []
            c.violation('documented-call-returns', 'an exception leaves a documented call in %s' % e, {'exception types': [str(t) for t in ty]})
    return A

def sat_possible(c, A, b):
    """Is the condition met by some sample point?  (FALSE in normal form is impossible.)"""
    if b is FALSE: return False
    if b is TRUE: return True
    P = Points(A.vars, 800, c.seed)
    P, _, _ = evalterms.augment(P, A.vars, [b], max_atoms=60, seed=c.seed)
    return bool(Ev(P).bdd(b).any())

def outs(A, what): return [t for w, i, t, cnd, s in sorted(A.outs, key=lambda o: o[1]) if w == what]

def equal_lists(c, rule, who, X, Y, vars_, tol=1e-9):
    c.obligation(rule, 'nf' if all(same(a, b) for a, b in zip(X, Y)) else 'id', max(len(X), 1))
    if len(X) != len(Y): c.violation(rule, who, {'lengths': [len(X), len(Y)]}); return
    bad = [(i, a, b) for i, (a, b) in enumerate(zip(X, Y)) if not same(a, b)]
    if not bad: return
    roots = [t for _, x, y in bad for t in (x, y) if isinstance(t, (T, B))]
    P = Points(vars_, 300, c.seed)
    if vars_: P, _, _ = evalterms.augment(P, vars_, roots, max_atoms=30, seed=c.seed)
    E = Ev(P)
    class V: vars = vars_
    for i, a, b in bad:
        x = E.val(a) if isinstance(a, T) else np.full(P.n, float(a)); y = E.val(b) if isinstance(b, T) else np.full(P.n, float(b))
        m = c.differ('f64', x, y, tol)
        if m.any() and c.stable(V, P, 'f64', a, b, TRUE, tol, m):
            w = int(np.argmax(m))
            c.violation(rule, who, {'cell': i, 'values': [float(x[w]), float(y[w])], 'terms': [tstr(a, 4)[:300], tstr(b, 4)[:300]]}); return

def scalar_cells(ty, off=0):
    """(offset, scalar type) of a global's layout."""
    if isinstance(ty, str): return [(off, ty)]
    if ty[0] == 's': return [x for o, et in ty[2] for x in scalar_cells(et, off + o)]
    if ty[0] in ('a', 'vec'): return [x for i in range(min(ty[1], 4096)) for x in scalar_cells(ty[3], off + i*ty[2])]
    return []

def repo_mutable(m):
    """Mutable globals and function-local statics that belong to the analysed code base."""
    import re
    out = []
    for n, g in m.globals.items():
        if g['const'] or g['init'] is None or n.startswith(('llvm.', '_ZTV', '_ZTI', '_ZTS', '.str', '_ZNSt', '_ZSt', '_ZN8pybind11')): continue
        if n.startswith('_ZGV') and 'St' in n[:9]: continue
        out.append(n)
    return out

def direct_stores(m, names):
    """How many store instructions write each of the named globals (directly or at a constant offset)."""
    cnt = dict.fromkeys(names, 0)
    def refs(x, out):
        if isinstance(x, str):
            if x in cnt: out.add(x)
        elif isinstance(x, list):
            for y in x: refs(y, out)
    for f in m.funcs.values():
        for b in f.get('blocks') or ():
            for ins in b:
                if ins[0] != 'store': continue
                out = set(); refs(ins[5][1], out)
                for n in out: cnt[n] += 1
    return cnt

def lazily_initialised(m):
    """Function-local statics written only by their guarded initialisation, and their guards.  They start out
    uninitialised (as in a fresh process); what an earlier call leaves in them is covered by the explicit histories."""
    gs = {g: '_Z' + g[4:] for g in m.globals if g.startswith('_ZGV')}
    n = direct_stores(m, [v for v in gs.values() if v in m.globals])
    out = set()
    for g, v in gs.items():
        if v not in n or n[v] <= 1 or any(t in ('ptr', 'p') for _, t in scalar_cells(m.globals[v]['type'])): out |= {g, v}
    return out

def havoc_all(m, only=None):
    """Arbitrary history: every scalar in mutable static storage of the code base holds an unknown value."""
    def h(A, st):
        A.havocked = []
        lazy = lazily_initialised(m)
        for n in repo_mutable(m):
            if n in lazy: continue
            if only and not only(n): continue
            p = A.gptr(n); om = A.wmem(st, p.obj)
            cells = scalar_cells(m.globals[n]['type'])
            if n.startswith('_ZGV'): om.cells[0] = (1, 1, 'i8'); continue     # a later call: already initialised
            if any(t in ('ptr', 'p') for _, t in cells): continue       # containers keep their initial value; covered by the explicit histories
            for off, ty in cells:
                nm = 'old:%s+%d' % (n, off)
                w = ty
                if ty == 'f64' or ty == 'f32': t = mkt('var', ty, nm, -1e3, 1e3); A.vars[nm] = (ty, -1e3, 1e3)
                else:
                    bits = int(ty[1:]); hi = 1 if bits == 8 and m.globals[n]['size'] == 1 else (1 << min(bits, 31)) - 1
                    t = mkt('var', ty, nm, 0, hi); A.vars[nm] = (ty, 0, hi)
                om.cells[off] = (sizeof(ty), t, ty)
            om.fills = ()
            A.havocked.append(n)
            # the generator core of this object, if any, is in an unknown state as well
    return h

def depends(roots, pred):
    seen = set(); st = list(roots); hit = set()
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x.id in seen: continue
            seen.add(x.id)
            if pred(x): hit.add(x)
            st.extend(x.args)
        elif isinstance(x, B):
            if ('b', x.id) in seen: continue
            seen.add(('b', x.id)); st.extend(TM._atoms[l] for l in bdd_atoms(x))
        elif isinstance(x, tuple): st.extend(x)
    return hit

def depends_under(roots, pred, cond):
    """depends(), following only the alternatives that are possible on the paths `cond`."""
    seen = set(); st = [(x, cond) for x in roots]; hit = set()
    while st:
        x, c = st.pop()
        if isinstance(x, T):
            if (x.id, c.id) in seen: continue
            seen.add((x.id, c.id))
            if len(seen) > 400000: return depends(roots, pred)
            if pred(x): hit.add(x)
            if x.op == 'ite' and isinstance(x.args[0], B):
                g, a, b = x.args[:3]
                ca, cb = band(c, g), band(c, bnot(g))
                if ca is not FALSE and cb is not FALSE: st.append((g, c))
                if ca is not FALSE: st.append((a, ca))
                if cb is not FALSE: st.append((b, cb))
            else: st.extend((y, c) for y in x.args)
        elif isinstance(x, B):
            if ('b', x.id, c.id) in seen: continue
            seen.add(('b', x.id, c.id)); st.extend((TM._atoms[l], c) for l in bdd_atoms(restrict(x, c)))
        elif isinstance(x, tuple): st.extend((y, c) for y in x)
    return hit
