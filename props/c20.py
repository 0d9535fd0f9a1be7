from histspec import *
import pyflow as P
from pyflow import Sym, Op, Call, Member, Cls, Interp, PyExc, Unsupported, paths
SIMP = ['variogram', 'nx', 'dx', 'ny', 'dy', 'nz', 'dz']
API = {('gaussianfft', 'variogram'): ['type', 'main_range', 'perp_range', 'depth_range', 'azimuth', 'dip', 'power'],
       ('gaussianfft', 'simulate'): SIMP, ('gaussianfft', 'simulation_size'): SIMP,
       ('gaussianfft.advanced', 'simulate'): SIMP + ['padx', 'pady', 'padz', 'sx', 'sy', 'sz'],
       ('gaussianfft', 'seed'): ['seed'], ('gaussianfft', 'quote'): []}
NEED = {'variogram': 2, 'simulate': 3, 'simulation_size': 3, 'quote': 0, 'seed': 0}
INTS = ('nx', 'ny', 'nz', 'padx', 'pady', 'padz', 'seed')
FAMILIES = ['gaussian', 'exponential', 'general_exponential', 'spherical', 'matern32', 'matern52', 'matern72', 'constant']
PURE = ('variogram', 'simulation_size', 'quote', 'corr')

def table(c):
    m = c.module([VERIF + '/harness/h_pytab.cpp', REPO + '/src/gaussfftinterface.cpp', REPO + '/src/gaussfft.cpp'] + BLD.repo_dir('variogram', 'random', 'fft', 'exception'), key='h_pytab', extra=['-I' + VERIF + '/stubs'])
    A = c.analyse(m, 'table', ctors=True)
    out = {}; sc = []
    for what, idx, v, cond, site in A.outs:
        b, r = divmod(idx, 100); e = out.setdefault(b, ['', '', [], False])
        if r == 0: e[0] = what; e[3] = bool(v)
        elif r == 1: e[1] = what
        elif r % 2 == 0: e[2].append([what, bool(v), None])
        else: e[2][-1][2] = v
    if not out: raise CheckError('no bindings found')
    return [tuple(e) for _, e in sorted(out.items())]

def arg(n): return Sym(n, 'variogram' if n == 'variogram' else 'int' if n in INTS else 'float')

def resolve(tab, call):
    """The compiled function's parameters as the binding resolves the call, or None."""
    for sc, nm, ps, meth in tab:
        if (sc, nm) != (call.b.scope, call.b.name) or len(call.args) > len(ps): continue
        d = {}; kw = dict(call.kw); ok = True
        for i, (n, has, df) in enumerate(ps):
            key = n or i
            if i < len(call.args):
                if n and n in kw: ok = False
                d[key] = call.args[i]
            elif n and n in kw: d[key] = kw.pop(n)
            elif has: d[key] = df
            else: ok = False
        if ok and not kw: return d
    return None

def same(k, a, b):
    if a is b: return True
    if isinstance(a, Member): a = None
    if isinstance(a, Op) and a.op in ('float', 'int') and isinstance(a.args[0], Sym) and a.args[0] is b and b.kind in ('float', 'int') and (a.op == b.kind or a.op == 'float'): return True
    if isinstance(a, str) and isinstance(b, str): return a.lower() == b.lower() if k == 'type' else a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or (k in ('perp_range', 'depth_range') and a <= 0 and b <= 0)
    return False

class S:
    def __init__(self, c): self.c = c; self.tab = table(c); self.root = REPO; self.lines = set(); self.funcs = set(); self.n = 0

    def run(self, rule, what, body, missing=(), fail=None, failcls=RuntimeError):
        """body(interp) -> error text or None, over every resolution of undecided conditions"""
        def once(dec):
            it = Interp(self.root, 'gaussianfft', self.tab, missing=missing, decisions=dec); it.failcls = failcls
            try: r = body(it)
            except PyExc as e: r = 'raises %s%s' % (e.cls.__name__, e.eargs if P.conc(tuple(e.eargs)) else '')
            self.lines |= it.lines; self.funcs |= it.funcs
            return it.dec, r
        try:
            for dec, r in paths(once):
                self.c.obligation(rule, 'nf'); self.n += 1
                if r: self.c.violation(rule, what, {'what': r, 'conditions': str(dec)}); return
        except Unsupported as e: self.unsup = getattr(self, 'unsup', None) or '%s: the Python sources use a construct the analysis does not cover: %s' % (what, e)

    def get(self, it, mod, name, how):
        m = it.import_('gaussianfft')[0]
        if mod == 'gaussianfft':
            if how == 'star':
                env = P.Env(); it.stmt(P.ast.parse('from gaussianfft import *').body[0], env, m); return env[name] if name in env else it.attr(m, name)
            return it.attr(m, name)
        if how == 'attr': return it.attr(it.attr(m, 'advanced'), name)
        if how == 'star':
            env = P.Env(); it.stmt(P.ast.parse('from gaussianfft.advanced import *').body[0], env, m); return it.ev(P.ast.parse(name, mode='eval').body, env, m)
        return it.attr(it.import_('gaussianfft.advanced')[1], name)

    def passthrough(self, mod, name, pos, kw, how='plain', times=2, typ=None):
        full = API[mod, name]; label = '%s.%s(%s)%s' % (mod, name, ', '.join([repr(p) for p in pos] + ['%s=%r' % x for x in kw.items()]), '' if how == 'plain' else ' [%s]' % how)
        given = dict(zip(full, pos)); given.update(kw)
        def val(it, v): return it.attr(it.attr(it.import_('gaussianfft')[0], 'VariogramType'), v[1]) if isinstance(v, tuple) and v and v[0] == 'member' else v
        def expected():
            d = dict(given)
            if isinstance(d.get('type'), tuple): d['type'] = d['type'][2]
            return d
        def doit(it): return it.call(self.get(it, mod, name, how), [val(it, v) for v in pos], {k: val(it, v) for k, v in kw.items()})
        def judge(it, res, log):
            want = [x for x in log if x.b.name == name and x.b.scope == ('_gaussianfft' if mod == 'gaussianfft' else 'advanced')]
            extra = [x for x in log if x not in want and not (x.b.name in PURE or (x.b.name == 'seed' and not x.args and not x.kw))]
            if extra: return 'also calls %r' % extra[0]
            if not want: return 'does not call the compiled function'
            if len(want) > 1 and (name not in PURE or not any(res is w for w in want)): return 'calls the compiled function %d times' % len(want)
            w = [x for x in want if x is res] or want
            if res is not w[-1] : return 'returns %r instead of the result' % (res,)
            got = resolve(self.tab, w[-1])
            if got is None: return 'calls %r, which the compiled function does not accept' % (w[-1],)
            exp = expected()
            for i, k in enumerate(full):
                g = got.get(k, got.get(i))
                if k in exp:
                    if not same(k, g, exp[k]): return 'passes %s=%r where %r was given' % (k, g, exp[k])
                elif k in got or i in got:
                    df = [p[2] for b in self.tab if (b[0], b[1]) == (w[-1].b.scope, name) for p in b[2] if p[0] == k]
                    if not df or not same(k, g, df[0]): return 'passes %s=%r where nothing was given' % (k, g)
        def body(it):
            self.get(it, mod, name, how); it.log.clear()
            seen = []
            for _ in range(times):
                n = len(it.log); r = doit(it); e = judge(it, r, it.log[n:])
                if e: return e
                if any(r is s for s in seen): return 'returns the result of an earlier call again'
                seen.append(r)
        self.run('arguments-unchanged', label, body)
        for cls in (TypeError, ValueError, RuntimeError):
            for first in (False, True):
                def fbody(it):
                    self.get(it, mod, name, how); it.log.clear(); cnt = [0]
                    def fail(i, cl):
                        cnt[0] += 1
                        return cl.b.name == name and (not first or cnt[0] == 1)
                    it.fail = fail
                    try: r = doit(it)
                    except PyExc as e: return None
                    if not cnt[0]: return None
                    if first and name in PURE and cnt[0] == 2 and judge(it, r, it.log[-1:]) is None: return None      # an identical second attempt
                    return 'a failure of the compiled function is hidden: returns %r' % (r,)
                self.run('errors-pass-through', label, fbody, failcls=cls)

def run(c):
    s = S(c)
    V = lambda n: arg(n)
    # --- variogram: every name and member, every combination of optional arguments
    opts = API['gaussianfft', 'variogram'][2:]
    for f in FAMILIES:
        for t in (f, f.upper(), ('member', f.upper().replace('MATERN', 'MATERN_'), f)):
            s.passthrough('gaussianfft', 'variogram', [t, V('main_range')], {})
            s.passthrough('gaussianfft', 'variogram', [t] + [V(x) for x in API['gaussianfft', 'variogram'][1:]], {})
            s.passthrough('gaussianfft', 'variogram', [], {'type': t, **{x: V(x) for x in API['gaussianfft', 'variogram'][1:]}})
            for k in range(3, 7): s.passthrough('gaussianfft', 'variogram', [t] + [V(x) for x in API['gaussianfft', 'variogram'][1:k]], {})
            for x in opts: s.passthrough('gaussianfft', 'variogram', [t, V('main_range')], {x: V(x)})
            s.passthrough('gaussianfft', 'variogram', [t, V('main_range'), V('perp_range')], {x: V(x) for x in opts[1:]})
    s.passthrough('gaussianfft', 'variogram', ['gaussian', V('main_range')], {'dip': V('dip')}, how='star')
    # --- the other functions
    for (mod, name), full in API.items():
        if name == 'variogram': continue
        for how in ('plain', 'star') + (('attr',) if mod.endswith('advanced') else ()):
            need = NEED[name]
            for k in range(need, len(full) + 1):
                s.passthrough(mod, name, [V(x) for x in full[:k]], {}, how)
            if name in ('seed', 'quote'): continue
            s.passthrough(mod, name, [], {x: V(x) for x in full}, how)
            for x in full[need:]: s.passthrough(mod, name, [V(y) for y in full[:need]], {x: V(x)}, how)
            s.passthrough(mod, name, [V(x) for x in full[:need]], {x: V(x) for x in reversed(full[need:])}, how)
    # --- mixed histories: calls do not influence each other
    def mixed(it):
        m = it.import_('gaussianfft')[0]; f = it.attr(m, 'variogram'); g = it.attr(m, 'simulate')
        T = it.attr(m, 'VariogramType'); a1, a2 = V('main_range'), V('main_range'); names = API['gaussianfft', 'variogram']
        hist = [(it.attr(T, 'GAUSSIAN'), 'gaussian', [a1], {'azimuth': V('azimuth')}), ('spherical', 'spherical', [a1], {}), ('spherical', 'spherical', [a1], {'dip': V('dip')}), ('spherical', 'spherical', [a1, V('perp_range')], {'power': V('power')}),
                ('spherical', 'spherical', [a1], {'dip': V('dip')}), ('spherical', 'spherical', [a2], {}), (it.attr(T, 'SPHERICAL'), 'spherical', [a1], {}), (it.attr(T, 'MATERN_52'), 'matern52', [a1, 2.0, 3.0], {'dip': 4.0}),
                (it.attr(T, 'MATERN_52'), 'matern52', [a1, 2.0, 5.0], {'dip': 4.0}), ('gaussian', 'gaussian', [a2], {}), ('gaussian', 'gaussian', [1.0], {}), ('gaussian', 'gaussian', [True], {}), ('gaussian', 'gaussian', [2.0], {})]
        seen = []
        for t, want, ps, kw in hist:
            v = it.call(f, [t] + ps, dict(kw)); d = resolve(s.tab, v) if isinstance(v, Call) else None
            exp = {'type': want, **{k: x[0] for b in s.tab if b[1] == 'variogram' for k, x in ((p[0], (p[2],)) for p in b[2] if p[1])}, **dict(zip(names[1:], ps)), **kw}
            if d is None or v in seen or any(not same(k, d.get(k), exp.get(k)) for k in names): return 'variogram(%r, %r, %r) after other calls gives %r' % (t, ps, kw, v)
            seen.append(v)
            n, dx = V('nx'), V('dx')
            z = it.call(g, [v, n, dx], {}); d = resolve(s.tab, z) if isinstance(z, Call) else None
            if d is None or d['variogram'] is not v or d['nx'] is not n or d['dx'] is not dx: return 'simulate after other calls gives %r' % (z,)
    s.run('calls-independent', 'gaussianfft: a history of calls', mixed)
    # --- enumeration
    def members(it):
        T = it.attr(it.import_('gaussianfft')[0], 'VariogramType')
        if not isinstance(T, Cls) or not T.is_enum: return 'VariogramType is not an enumeration'
        got = {n: m.value for n, m in getattr(T, 'names', {}).items()}
        for n, v in got.items():
            if n.lower().replace('_', '') != str(v).lower().replace('_', '') or str(v).lower() not in FAMILIES: return '%s stands for %r' % (n, v)
        miss = [f for f in FAMILIES if f not in [str(v).lower() for v in got.values()]]
        if miss: return 'no member for %s' % miss[0]
        for m in T.members:
            if it.call(T, [m.value], {}) is not m: return '%r does not lead back to %r' % (m.value, m)
    s.run('enumeration', 'gaussianfft.VariogramType', members)
    # --- exported names
    for pk in ('gaussianfft', 'gaussianfft.advanced', 'gaussianfft.util'):
        def names(it):
            m = it.import_(pk)[1]; al = m.env.get('__all__')
            if al is None: al = [x for x in m.env if not x.startswith('_')]
            for n in al: it.from_(m, n)
            doc = {'gaussianfft': ['variogram', 'simulate', 'seed', 'advanced', 'simulation_size', 'quote', 'Variogram', 'VariogramType', 'util', '__version__'], 'gaussianfft.advanced': ['simulate'],
                   'gaussianfft.util': ['EmpiricalVariogram', 'PaddingAnalyzer', 'PaddingAnalyzerDefaults']}[pk]
            for n in doc:
                if n not in al: return '%s is not exported' % n
            V_ = it.attr(it.import_('gaussianfft')[0], 'Variogram')
            if not isinstance(V_, P.BindClass) or V_.name != 'Variogram': return 'Variogram is %r' % (V_,)
        s.run('exported-names', pk, names)
    # --- NumPy is required, SciPy only for the utilities
    def nonumpy(it):
        try: it.import_('gaussianfft')
        except PyExc as e: return None if issubclass(e.cls, ImportError) else 'raises %s' % e.cls.__name__
        return 'imports without NumPy'
    s.run('imports', 'gaussianfft without NumPy', nonumpy, missing=('numpy',))
    def noscipy(it):
        it.import_('gaussianfft'); it.import_('gaussianfft.advanced')
        try: it.import_('gaussianfft.util')
        except PyExc as e: return None if issubclass(e.cls, ImportError) else 'raises %s' % e.cls.__name__
        return 'the utilities import without SciPy'
    s.run('imports', 'gaussianfft without SciPy', noscipy, missing=('scipy',))
    c.extra['python'] = {'functions': sorted(s.funcs), 'source_lines_interpreted': len(s.lines), 'scenarios': s.n, 'bindings': ['%s.%s(%s)' % (b[0], b[1], ', '.join(p[0] or '_' for p in b[2])) for b in s.tab]}
    if getattr(s, 'unsup', None) and not c.viol: raise CheckError(s.unsup)
    c.checked_files |= {f for f, _ in s.lines}
    return c.finish('Abstract interpretation of the package\'s Python sources over opaque arguments against the binding table extracted from the compiled module\'s initialiser: each documented call, positional and by keyword, with strings and enumeration members, repeated and with failing compiled functions.')
