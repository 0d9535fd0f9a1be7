from histspec import *
def run(c):
    m = hist_module(c)
    fresh = {}
    for e in entries(m, 'rep_'):
        A = run_entry(c, m, e)
        c.decide(A)
        if e.startswith('rep_fresh_'): fresh[e[-1]] = (outs(A, 'field'), dict(A.vars))
        if e.startswith('rep_history_'):
            X, v = fresh[e[-1]]; equal_lists(c, 'history-does-not-matter', 'simulation after seeding, %s-D' % e[-1], outs(A, 'field'), X, {**v, **A.vars})
            if not X: raise CheckError('no result in ' + e)
        if e.startswith('rep_indep_'):
            a, b = outs(A, 'first'), outs(A, 'second')
            da, db = draws_in(a), draws_in(b)
            c.obligation('successive-fields-use-fresh-draws', 'nf', len(da) + len(db))
            if not da or not db: c.violation('successive-fields-use-fresh-draws', 'simulate, %s-D' % e[-1], {'draws': [len(da), len(db)]})
            elif {t.id for t in da} & {t.id for t in db}: c.violation('successive-fields-use-fresh-draws', 'simulate, %s-D' % e[-1], {'shared draws': len({t.id for t in da} & {t.id for t in db})})
    ref = {D: run_entry(c, m, 'past_fresh_%d' % D) for D in (1, 2, 3)}
    names = ['family', 'main range', 'perpendicular range', 'depth range', 'azimuth', 'dip', 'power', 'nx', 'ny', 'nz', 'dx', 'dy', 'dz', 'padx', 'pady', 'padz', 'sx', 'sy', 'sz', 'dimension']
    for e in entries(m, 'past_'):
        if 'fresh' in e: continue
        k, D = (int(x) for x in e.split('_')[1:]); R = ref[D]; A = run_entry(c, m, e)
        equal_lists(c, 'history-does-not-matter', '%d-D simulation after one that differs in %s' % (D, names[k]), outs(A, 'field'), outs(R, 'field'), {**R.vars, **A.vars})
    # arbitrary history: unknown values in all mutable static storage before seeding
    for e in entries(m, 'havoc_'):
        An = Analyzer(m, intercept=models.RNG_INTERCEPT); An.havoc = havoc_all(m)
        n, v, u = An.analyse('entry_' + e, ctors=True); An.normal, An.unwind, An.entry = n, u, e
        c.entries.append(e); c.steps += An.steps
        X = outs(An, 'field')
        if not X: raise CheckError('no result in ' + e)
        dep = depends(X, lambda t: (t.op == 'var' and str(t.args[0]).startswith('old:')) or t.op == 'rng0' or t.op == 'clock')
        c.obligation('no-state-survives-seeding', 'nf', len(X))
        if dep and semantically_depends(c, An, X, dep):
            c.violation('no-state-survives-seeding', 'simulate after seed, %s-D, depends on %s' % (e[-1], sorted(tstr(t, 2) for t in dep)[:4]), {'mutable static storage': An.havocked})
        c.extra['mutable_static_storage'] = An.havocked
    # what the draws read must be re-established by seeding (the draws themselves are abstract above)
    reset_rule(c, m)
    return c.finish('Seeded reproducibility. For 1-, 2- and 3-D simulations reached through the binding table, the value-flow analysis extracts the closed form of every returned cell '
                    'for a symbolic seed, variogram and spacing, and decides that it is the same after seeding again, after other simulations, in a sequence, and after an arbitrary history '
                    '(all mutable static storage unknown); successive fields use disjoint draws; every mutable location a draw reads is re-established by seeding.')

def semantically_depends(c, A, X, dep, cond=TRUE):
    """Does the value change with the old contents of storage?  (The term mentions them; it need not depend on them.)  Points are directed at the
    conditions in the term, so that a dependence under a condition such as `the seed is the one set before` is met."""
    X = [t for t in X if isinstance(t, T)]
    P = Points(A.vars, 200, c.seed); P, _, _ = evalterms.augment(P, A.vars, X, max_atoms=40, seed=c.seed)
    E = Ev(P); px = [E.val(t) for t in X]; ok = Ev(P).bdd(cond) if cond is not TRUE else np.ones(P.n, bool)
    for k in range(3):
        Q = Points(A.vars, P.n, c.seed + 1 + k)
        for v in A.vars:
            if not v.startswith('old:'): Q.vals[v] = P.vals[v]
        F = Ev(Q); F.salt = 'again%d' % k
        for t, x in zip(X, px):
            y = F.val(t); d = (c.differ('f64', x, y, 1e-9) if t.ty in ('f64', 'f32') else x != y) & ok
            if cond is not TRUE: d = d & F.bdd(cond)
            if d.any(): return t
    return False

def reset_rule(c, m):
    """Draws after seeding are functions of the seed alone: analysed through the bodies of the draw functions, with unknown
    static storage and an unknown generator object before seeding (rejection loops cut after two rounds: each round runs the
    same code)."""
    for e in entries(m, 'drawn_'):
        ic = {k: v for k, v in models.RNG_INTERCEPT.items() if 'Norm01' not in k} if 'norm' in e else {'time': models.m_time}
        A = Analyzer(m, intercept=ic); A.havoc = havoc_all(m); A.loop_cut = 3
        n, v, u = A.analyse('entry_' + e, ctors=False)
        c.entries.append(e); c.steps += A.steps
        if n is None: raise CheckError('no result in ' + e)
        X = [(w, t) for w, i, t, cnd, s in A.outs]
        if not X: raise CheckError('nothing observed in ' + e)
        for w, t in X:
            c.obligation('draws-depend-on-the-seed-alone', 'nf')
            dep = depends_under([t], lambda x: x.op in ('undef', 'clock', 'rng0') or (x.op == 'var' and str(x.args[0]).startswith('old:')), n.cond)
            if dep and semantically_depends(c, A, [t], dep): c.violation('draws-depend-on-the-seed-alone', '%s after seeding (%s) depends on %s' % (w, e, sorted(tstr(d, 2) for d in dep)[:4]), {'term': tstr(t, 5)[:400]})
    # the twister state itself: every word is rewritten by seeding
    A = Analyzer(m, intercept={'time': models.m_time}); A.havoc = havoc_all(m)
    n, v, u = A.analyse('entry_reset_global', ctors=False)
    c.entries.append('reset_global'); c.steps += A.steps
    big = [g for g in A.havocked if m.globals[g]['size'] >= 1024]
    if not big: raise CheckError('no generator state in static storage')
    for g in big:
        todo = []
        for off, ty in scalar_cells(m.globals[g]['type']):
            c.obligation('twister-state-rewritten-by-seeding', 'nf')
            t = A.load(n, padd(A.gptr(g), off), sizeof(ty), ty)
            dep = depends([t], lambda x: x.op in ('undef', 'clock') or (x.op == 'var' and str(x.args[0]).startswith('old:')))
            if dep: todo.append((off, t, dep))
        hit = semantically_depends(c, A, [t for _, t, _ in todo], set().union(*[set(d) for _, _, d in todo]), n.cond) if todo else False
        if hit:
            off, t = todo[0][:2] if hit is True else next((o, t) for o, t, _ in todo if t is hit)
            c.violation('twister-state-rewritten-by-seeding', '%s+%d keeps its old value through seeding' % (g, off), {'value': tstr(t, 4)[:300]})
    c.extra['generator_state'] = big
