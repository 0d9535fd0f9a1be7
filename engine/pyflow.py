"""Abstract interpretation of the package's Python sources (from their syntax trees).

Values are concrete Python data, opaque inputs (Sym), terms over them (Op), references to compiled functions (Bind) and the
calls made to them (Call).  A branch on an unknown condition is followed both ways.  Nothing of the package is imported or run:
modules of the package are interpreted from their source, the compiled module is its binding table, other modules are opaque."""
import ast, os, warnings, builtins as _bi
warnings.simplefilter('ignore', SyntaxWarning)
_parsed = {}
def parse(p):
    if p not in _parsed: _parsed[p] = ast.parse(open(p, encoding='utf-8').read(), p)
    return _parsed[p]

class Unsupported(Exception): pass
class PyExc(Exception):
    def __init__(self, cls, val=None, args=()): self.cls, self.val, self.eargs = cls, val, args
class _Ret(Exception):
    def __init__(self, v): self.v = v
class _Brk(Exception): pass
class _Cnt(Exception): pass

class Sym:
    def __init__(self, name, kind): self.name, self.kind = name, kind
    def __repr__(self): return self.name
class Op:
    def __init__(self, op, *args): self.op, self.args = op, args
    def __repr__(self): return '%s(%s)' % (self.op, ', '.join(map(repr, self.args)))
class Bind:
    def __init__(self, scope, name): self.scope, self.name = scope, name
    def __repr__(self): return '<compiled %s.%s>' % (self.scope, self.name)
class BindClass:
    def __init__(self, name): self.name = name
    def __repr__(self): return '<compiled class %s>' % self.name
class Call:
    def __init__(self, b, args, kw, site): self.b, self.args, self.kw, self.site = b, args, kw, site
    def __repr__(self): return '%s(%s)' % (self.b.name, ', '.join([repr(a) for a in self.args] + ['%s=%r' % i for i in self.kw.items()]))
class Ext:
    """something of a module outside the package"""
    def __init__(self, name): self.name = name
    def __repr__(self): return '<%s>' % self.name
class Mod:
    def __init__(self, name, env, path=None): self.name, self.env, self.path = name, env, path
    def __repr__(self): return '<module %s>' % self.name
class Fn:
    def __init__(self, node, env, defaults, kwdefaults, mod, name): self.node, self.env, self.defaults, self.kwdefaults, self.mod, self.name = node, env, defaults, kwdefaults, mod, name; self.attrs = {}
class Py:
    """a callable of the model"""
    def __init__(self, f, name='?'): self.f, self.name = f, name; self.attrs = {}
class Cls:
    def __init__(self, name, bases, env): self.name, self.bases, self.env = name, bases, env; self.members = []
    @property
    def is_enum(self): return any((isinstance(b, Ext) and b.name in ('enum.Enum', 'enum.StrEnum', 'enum.IntEnum')) or (isinstance(b, Cls) and b.is_enum) for b in self.bases)
    def mro(self):
        out = [self]
        for b in self.bases: out += b.mro() if isinstance(b, Cls) else [b]
        return out
class Inst:
    def __init__(self, cls): self.cls = cls; self.env = {}
class Member:
    def __init__(self, cls, name, value): self.cls, self.name, self.value = cls, name, value
    def __repr__(self): return '%s.%s' % (self.cls.name, self.name)

CONC = (str, bytes, int, float, bool, type(None), tuple, list, dict, set, frozenset, range, slice, type(Ellipsis), complex)
def conc(v):
    """fully concrete (no opaque parts)"""
    if isinstance(v, (tuple, list, set, frozenset)): return all(conc(x) for x in v)
    if isinstance(v, dict): return all(conc(k) and conc(x) for k, x in v.items())
    return isinstance(v, CONC)

BUILTIN = {n: getattr(_bi, n) for n in ('len', 'str', 'tuple', 'list', 'dict', 'set', 'frozenset', 'zip', 'enumerate', 'sorted', 'range', 'min', 'max', 'abs', 'float', 'int', 'bool', 'repr',
           'any', 'all', 'reversed', 'sum', 'round', 'ord', 'chr', 'slice', 'iter', 'next', 'object', 'bytes', 'complex', 'divmod', 'pow', 'hash', 'id', 'format', 'super', 'type', 'property', 'staticmethod', 'classmethod')}
EXCS = {n: v for n, v in vars(_bi).items() if isinstance(v, type) and issubclass(v, BaseException)}

class Env(dict):
    def __init__(self, parent=None): super().__init__(); self.parent = parent; self.globals_ = set(); self.nonlocals = set()
    def find(self, n):
        e = self
        while e is not None:
            if n in e: return e
            e = e.parent
        return None

class Interp:
    def __init__(self, root, package, table, missing=(), decisions=(), fail=None):
        """table: list of (scope, name, params [(name, has_default, default)], is_method); missing: modules that are not installed"""
        self.root, self.package, self.table, self.missing = root, package, table, set(missing)
        self.mods = {}; self.log = []; self.dec = list(decisions); self.used = 0; self.fail = fail; self.steps = 0; self.lines = set(); self.funcs = set(); self.file = '?'
        self.printed = 0

    # ---- unknown conditions
    def truth(self, v):
        if isinstance(v, Op) and v.op == 'not': return not self.truth(v.args[0])
        if isinstance(v, (Sym, Op)):
            if self.used >= len(self.dec): self.dec.append(False)
            self.used += 1
            if self.used > 24: raise Unsupported('too many undecided conditions')
            return self.dec[self.used - 1]
        if isinstance(v, Inst):
            f = self.lookup(v.cls, '__bool__')
            return self.truth(self.call(f, [v], {})) if f is not None else True
        if isinstance(v, CONC): return bool(v)
        return True

    # ---- modules
    def import_(self, name):
        top = None
        parts = name.split('.')
        for i in range(1, len(parts) + 1):
            m = self.load('.'.join(parts[:i]))
            if i == 1: top = m
        return top, m

    def load(self, name):
        if name in self.mods: return self.mods[name]
        if name.split('.')[0] in self.missing: raise PyExc(ModuleNotFoundError, args=('No module named %r' % name,))
        if name == '_gaussianfft' or name.startswith('_gaussianfft.'):
            sc = '_gaussianfft' if name == '_gaussianfft' else name.split('.', 1)[1]
            env = Env()
            names = {b[1] for b in self.table if b[0] == sc and not b[3]}
            if not names: raise PyExc(ModuleNotFoundError, args=('no compiled module ' + name,))
            for n in names: env[n] = Bind(sc, n)
            m = self.mods[name] = Mod(name, env)
            if sc == '_gaussianfft':
                for b in self.table:
                    if b[3]: env.setdefault(b[0], BindClass(b[0]))
                for s in {b[0] for b in self.table if not b[3] and b[0] != '_gaussianfft'}: env[s] = self.load('_gaussianfft.' + s)
            return m
        if name == self.package or name.startswith(self.package + '.'):
            rel = name.replace('.', '/')
            for p, pkg in ((os.path.join(self.root, rel, '__init__.py'), True), (os.path.join(self.root, rel + '.py'), False)):
                if os.path.exists(p): break
            else:
                if name == self.package + '._version':
                    env = Env(); env.update(__version__='0', version='0', __version_tuple__=(0,), version_tuple=(0,)); m = self.mods[name] = Mod(name, env); return m
                raise PyExc(ModuleNotFoundError, args=('No module named %r' % name,))
            env = Env(); m = Mod(name, env, p); m.pkg = pkg; env['__name__'] = name; env['__file__'] = p
            self.mods[name] = m
            save = self.file; self.file = os.path.relpath(p, self.root)
            try: self.block(parse(p).body, env, m)
            except PyExc: self.mods.pop(name, None); raise
            finally: self.file = save
            if '.' in name:
                par = self.mods.get(name.rsplit('.', 1)[0])
                if par is not None: par.env[name.rsplit('.', 1)[1]] = m
            return m
        m = self.mods[name] = Ext(name)
        return m

    def attr(self, o, n, default=KeyError):
        if isinstance(o, Mod):
            if n in o.env: return o.env[n]
            if n == '__name__': return o.name
            if n == '__dict__': return o.env
            if '__getattr__' in o.env: return self.call(o.env['__getattr__'], [n], {})
        elif isinstance(o, Ext): return self.ext(o.name + '.' + n)
        elif isinstance(o, Member):
            if n in ('value', '_value_'): return o.value
            if n in ('name', '_name_'): return o.name
            if n == '__class__': return o.cls
            v = self.lookup(o.cls, n)
            if v is not None: return self.bind(v, o)
            if any(isinstance(b, type) or (isinstance(b, Ext) and b.name == 'enum.StrEnum') for b in o.cls.mro()): return self.attr(o.value, n)
        elif isinstance(o, Cls):
            if n == '__name__': return o.name
            if n == '__members__': return {m.name: m for m in o.members}
            v = self.lookup(o, n)
            if v is not None: return v.fget if False else v
        elif isinstance(o, Inst):
            if n in o.env: return o.env[n]
            if n == '__class__': return o.cls
            v = self.lookup(o.cls, n)
            if v is not None: return self.bind(v, o)
        elif isinstance(o, (Fn, Py)):
            if n in o.attrs: return o.attrs[n]
            if n in ('__name__', '__qualname__'): return o.name
            if n == '__doc__': return None
            if n in ('__module__', '__wrapped__', '__dict__', '__kwdefaults__', '__defaults__'): return None
        elif isinstance(o, (Bind, BindClass)):
            if n in ('__name__', '__qualname__'): return o.name
            if n in ('__doc__', '__module__', '__text_signature__', '__signature__'): return Op('attr', o, n)
            if isinstance(o, BindClass) and any(b[0] == o.name and b[1] == n for b in self.table): return Bind(o.name, n)
        elif isinstance(o, (Sym, Op)):
            if isinstance(o, Sym) and o.kind in ('int', 'float', 'str') and not hasattr({'int': 0, 'float': 0., 'str': ''}[o.kind], n): pass
            else: return Op('attr', o, n)
        elif isinstance(o, Call):
            if o.b.name == 'variogram' and any(b[0] == 'Variogram' and b[1] == n for b in self.table): return Py(lambda it, a, k: it.call(Bind('Variogram', n), [o] + a, k), n)
            return Op('attr', o, n)
        elif isinstance(o, type) and issubclass(o, BaseException):
            if n == '__name__': return o.__name__
        elif isinstance(o, PyExc):
            if n == 'args': return tuple(o.eargs)
            if n in ('with_traceback', 'add_note'): return Py(lambda it, a, k: o, n)
        elif isinstance(o, CONC) or o in (str, dict, list, tuple, set):
            if hasattr(o, n):
                f = getattr(o, n)
                return Py(lambda it, a, k: it.native(f, a, k), n) if callable(f) else f
        if default is not KeyError: return default
        raise PyExc(AttributeError, args=('%r has no attribute %r' % (o, n),))

    def ext(self, n):
        t = {'typing.TYPE_CHECKING': False, 'sys.version_info': (3, 12, 0, 'final', 0), 'enum.auto': Ext('enum.auto')}
        if n in t: return t[n]
        if n in ('builtins.' + k for k in EXCS): return EXCS[n.split('.')[1]]
        return Ext(n)

    def lookup(self, cls, n):
        for c in cls.mro():
            if isinstance(c, Cls) and n in c.env: return c.env[n]
        return None

    def bind(self, f, self_):
        if isinstance(f, tuple) and len(f) == 2 and f[0] == 'property': return self.call(f[1], [self_], {})
        if isinstance(f, tuple) and len(f) == 2 and f[0] == 'static': return f[1]
        if isinstance(f, tuple) and len(f) == 2 and f[0] == 'class': return Py(lambda it, a, k: it.call(f[1], [self_.cls] + a, k), 'classmethod')
        if isinstance(f, (Fn, Py)): return Py(lambda it, a, k: it.call(f, [self_] + a, k), getattr(f, 'name', '?'))
        return f

    def native(self, f, a, k):
        try: return f(*a, **k)
        except (PyExc, Unsupported, _Ret): raise
        except Exception as e:
            if conc(a) and conc(k): raise PyExc(type(e), args=e.args)
            if any(isinstance(x, (Sym, Op, Call)) for x in list(a) + list(k.values())): return Op(getattr(f, '__name__', 'op'), *a)
            raise PyExc(type(e), args=e.args)

    # ---- calls
    def call(self, f, a, k):
        self.steps += 1
        if self.steps > 400000: raise Unsupported('too long')
        if isinstance(f, Bind):
            c = Call(f, list(a), dict(k), self.file)
            self.log.append(c)
            if self.fail and self.fail(self, c): raise PyExc(self.failcls, args=('compiled function failed',))
            return c
        if isinstance(f, Py): return f.f(self, a, k)
        if isinstance(f, Fn): return self.call_fn(f, a, k)
        if isinstance(f, BindClass): raise PyExc(TypeError, args=('No constructor defined',))
        if isinstance(f, Cls):
            if f.is_enum:
                for m in f.members:
                    if a and (m.value is a[0] or (conc(a[0]) and m.value == a[0]) or m is a[0]): return m
                raise PyExc(ValueError, args=('%r is not a valid %s' % (a, f.name),))
            o = Inst(f); i = self.lookup(f, '__init__')
            if i is not None: self.call(i, [o] + list(a), k)
            return o
        if isinstance(f, type) and issubclass(f, BaseException): return PyExc(f, args=tuple(a))
        if isinstance(f, Inst):
            g = self.lookup(f.cls, '__call__')
            if g is not None: return self.call(g, [f] + list(a), k)
        if isinstance(f, Ext): return self.call_ext(f.name, a, k)
        if f is _bi.type and len(a) == 1: return self.type_of(a[0])
        if f in (_bi.float, _bi.int, _bi.str, _bi.abs, _bi.bool, _bi.round, _bi.repr, _bi.hash) and a and not conc(a[0]):
            x = a[0]
            if isinstance(x, Member):
                if f is _bi.str: return x.value if any(isinstance(b, Ext) and b.name == 'enum.StrEnum' for b in x.cls.mro()) else repr(x)
                if f is _bi.repr: return repr(x)
            if f is _bi.bool: return self.truth(x)
            if isinstance(x, Sym) and (f, x.kind) in ((_bi.float, 'float'), (_bi.int, 'int'), (_bi.float, 'int')): return x
            return Op(f.__name__, x)
        if f is _bi.sorted and not k: 
            xs = list(self.iter(a[0]))
            try: return sorted(xs)
            except TypeError: raise Unsupported('sorting %r' % (xs,))
        if f in (_bi.min, _bi.max, _bi.sum, _bi.sorted) and (not conc(list(a)) or k): return Op(f.__name__, *a)
        if f in (_bi.tuple, _bi.list, _bi.set, _bi.dict, _bi.enumerate, _bi.zip, _bi.reversed, _bi.iter, _bi.len, _bi.frozenset, _bi.any, _bi.all):
            a = [list(self.iter(x)) if isinstance(x, (Cls, Mod)) or (f is not _bi.dict and f is not _bi.len and not isinstance(x, CONC) and not hasattr(x, '__next__')) else x for x in a]
            if f in (_bi.any, _bi.all): return f(self.truth(x) for x in a[0])
        if f in (_bi.staticmethod,): return ('static', a[0])
        if f in (_bi.classmethod,): return ('class', a[0])
        if f in (_bi.property,): return ('property', a[0])
        if callable(f) and (f in BUILTIN.values()): return self.native(f, a, k)
        if isinstance(f, (Sym, Op)): return Op('call', f, *a, *sorted(k.items()))
        raise PyExc(TypeError, args=('%r is not callable' % (f,),))

    def type_of(self, x):
        if isinstance(x, (Member, Inst)): return x.cls
        if isinstance(x, CONC): return type(x)
        if isinstance(x, Sym): return {'int': int, 'float': float, 'str': str}.get(x.kind, Op('type', x))
        if isinstance(x, PyExc): return x.cls
        if isinstance(x, Call) and x.b.name == 'variogram': return BindClass('Variogram')
        return Op('type', x)

    def call_ext(self, n, a, k):
        if n == 'importlib.util.find_spec':
            return None if str(a[0]).split('.')[0] in self.missing else Ext('spec')
        if n in ('importlib.import_module', 'builtins.__import__'): return self.import_(a[0])[1]
        if n in ('functools.wraps', 'functools.update_wrapper', 'enum.verify', 'typing.cast', 'warnings.deprecated'):
            if n == 'typing.cast': return a[1]
            if n == 'functools.update_wrapper': return a[0]
            return Py(lambda it, b, kk: b[0], n)
        if n in ('enum.unique', 'functools.cached_property', 'typing.overload', 'typing.no_type_check', 'typing.final'): return a[0]
        if n in ('functools.lru_cache', 'functools.cache'):
            def memo(it, b, kk):
                fn = b[0]; store = {}
                def g(it2, x, y):
                    key = (tuple(x), tuple(sorted(y.items(), key=lambda i: i[0])))
                    if key not in store: store[key] = it2.call(fn, x, y)
                    return store[key]
                return Py(g, 'memo')
            if a and isinstance(a[0], (Fn, Py, Bind)): return memo(self, a, {})
            return Py(memo, n)
        if n == 'functools.partial': return Py(lambda it, b, kk: it.call(a[0], list(a[1:]) + list(b), {**k, **kk}), 'partial')
        if n in ('numpy.array', 'numpy.asarray', 'numpy.asanyarray', 'numpy.ascontiguousarray', 'copy.copy', 'copy.deepcopy', 'operator.index') and a and isinstance(a[0], (Call, Sym)) and (isinstance(a[0], Sym) or a[0].b.name != 'variogram'): return a[0]
        if n == 'types.MappingProxyType': return a[0]
        if n in ('operator.attrgetter',): return Py(lambda it, b, kk: it.attr(b[0], a[0]), n)
        if n == 'operator.methodcaller': return Py(lambda it, b, kk: it.call(it.attr(b[0], a[0]), list(a[1:]), k), n)
        return Op('ext', n, *a, *sorted(k.items()))

    def call_fn(self, f, a, k):
        ar = f.node.args; env = Env(f.env); pos = [x.arg for x in ar.posonlyargs + ar.args]
        a = list(a); k = dict(k)
        name = f.name
        if len(a) > len(pos) and not ar.vararg: raise PyExc(TypeError, args=('%s() takes %d positional arguments' % (name, len(pos)),))
        for n, v in zip(pos, a): env[n] = v
        if ar.vararg: env[ar.vararg.arg] = tuple(a[len(pos):])
        kwonly = [x.arg for x in ar.kwonlyargs]
        for n in list(k):
            if n in pos[len(ar.posonlyargs):] or n in kwonly:
                if n in env: raise PyExc(TypeError, args=('%s() got multiple values for argument %r' % (name, n),))
                env[n] = k.pop(n)
        if ar.kwarg: env[ar.kwarg.arg] = k
        elif k: raise PyExc(TypeError, args=('%s() got an unexpected keyword argument %r' % (name, list(k)[0]),))
        for n, d in zip(pos[len(pos)-len(f.defaults):], f.defaults):
            if n not in env: env[n] = d
        for n, d in zip(kwonly, f.kwdefaults):
            if n not in env and d is not Ellipsis: env[n] = d
        for n in pos + kwonly:
            if n not in env: raise PyExc(TypeError, args=('%s() missing argument %r' % (name, n),))
        self.funcs.add((f.mod.name if isinstance(f.mod, Mod) else '?') + '.' + name)
        if isinstance(f.node, ast.Lambda): return self.ev(f.node.body, env, f.mod)
        if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(f.node)): raise Unsupported('generator ' + name)
        try: self.block(f.node.body, env, f.mod)
        except _Ret as r: return r.v
        return None

    def iter(self, v):
        if isinstance(v, Cls) and v.is_enum: return iter(list(v.members))
        if isinstance(v, (str, tuple, list, dict, set, frozenset, range)) or hasattr(v, '__next__') or isinstance(v, (type({}.keys()), type({}.values()), type({}.items()))): return iter(v)
        raise Unsupported('iteration over %r' % (v,))

    # ---- statements
    def block(self, body, env, mod):
        for s in body: self.stmt(s, env, mod)

    def stmt(self, s, env, mod):
        self.steps += 1; self.lines.add((self.file, s.lineno))
        t = type(s)
        if t is ast.Expr: self.ev(s.value, env, mod)
        elif t is ast.Return: raise _Ret(self.ev(s.value, env, mod) if s.value else None)
        elif t is ast.Assign:
            v = self.ev(s.value, env, mod)
            for x in s.targets: self.assign(x, v, env, mod)
        elif t is ast.AnnAssign:
            if s.value is not None: self.assign(s.target, self.ev(s.value, env, mod), env, mod)
        elif t is ast.AugAssign:
            cur = self.ev(ast.copy_location(ast.parse(ast.unparse(s.target), mode='eval').body, s), env, mod)
            v = self.ev(s.value, env, mod)
            if isinstance(cur, list) and isinstance(s.op, ast.Add): cur.extend(self.iter(v)); r = cur
            elif isinstance(cur, dict) and isinstance(s.op, ast.BitOr): cur.update(v); r = cur
            else: r = self.binop(s.op, cur, v)
            self.assign(s.target, r, env, mod)
        elif t is ast.If: self.block(s.body if self.truth(self.ev(s.test, env, mod)) else s.orelse, env, mod)
        elif t is ast.For:
            brk = False
            for v in self.iter(self.ev(s.iter, env, mod)):
                self.assign(s.target, v, env, mod)
                try: self.block(s.body, env, mod)
                except _Brk: brk = True; break
                except _Cnt: continue
            if not brk: self.block(s.orelse, env, mod)
        elif t is ast.While:
            n = 0
            while self.truth(self.ev(s.test, env, mod)):
                n += 1
                if n > 2000: raise Unsupported('loop')
                try: self.block(s.body, env, mod)
                except _Brk: break
                except _Cnt: continue
            else: self.block(s.orelse, env, mod)
        elif t is ast.Break: raise _Brk()
        elif t is ast.Continue: raise _Cnt()
        elif t in (ast.Pass,): pass
        elif t is ast.Global:
            env.globals_.update(s.names)
        elif t is ast.Nonlocal: env.nonlocals.update(s.names)
        elif t is ast.Import:
            for al in s.names:
                top, m = self.import_(al.name)
                env[al.asname or al.name.split('.')[0]] = m if al.asname else top
        elif t is ast.ImportFrom:
            base = s.module or ''
            if s.level:
                parts = mod.name.split('.')
                if not getattr(mod, 'pkg', False): parts = parts[:-1]
                parts = parts[:len(parts) - (s.level - 1)]
                base = '.'.join(parts + ([s.module] if s.module else []))
            if base == '__future__': return
            m = self.import_(base)[1]
            for al in s.names:
                if al.name == '*':
                    if isinstance(m, Mod):
                        names = m.env.get('__all__')
                        if names is None: names = [x for x in m.env if not x.startswith('_')]
                        for x in names: env[x] = self.from_(m, x)
                    continue
                env[al.asname or al.name] = self.from_(m, al.name)
        elif t in (ast.FunctionDef,):
            f = Fn(s, env, [self.ev(d, env, mod) for d in s.args.defaults], [self.ev(d, env, mod) if d is not None else Ellipsis for d in s.args.kw_defaults], mod, s.name)
            for d in reversed(s.decorator_list): f = self.call(self.ev(d, env, mod), [f], {})
            self.setname(s.name, f, env)
        elif t is ast.ClassDef:
            e = Env(env); bases = [self.ev(b, env, mod) for b in s.bases]
            self.block(s.body, e, mod)
            c = Cls(s.name, bases, e)
            if c.is_enum:
                auto = 0
                for st in s.body:
                    if isinstance(st, (ast.Assign, ast.AnnAssign)):
                        for x in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                            for nm in ([x.id] if isinstance(x, ast.Name) else [y.id for y in x.elts] if isinstance(x, (ast.Tuple, ast.List)) else []):
                                v = e.get(nm)
                                if nm.startswith('_') or isinstance(v, (Fn, Py)): continue
                                if isinstance(v, Op) and v.op == 'ext' and v.args[0] == 'enum.auto':
                                    auto += 1; gen = e.get('_generate_next_value_')
                                    if gen is not None: v = self.call(gen[1] if isinstance(gen, tuple) else gen, [nm, 1, auto - 1, [m.value for m in c.members]], {})
                                    else: v = nm.lower() if any(isinstance(b, Ext) and b.name == 'enum.StrEnum' for b in bases) else auto
                                old = [m for m in c.members if type(m.value) is type(v) and m.value == v]
                                m = old[0] if old else Member(c, nm, v)
                                if not old: c.members.append(m)
                                e[nm] = m
                                c.names = getattr(c, 'names', {}); c.names[nm] = m
            for d in reversed(s.decorator_list): c = self.call(self.ev(d, env, mod), [c], {})
            self.setname(s.name, c, env)
        elif t is ast.Raise:
            if s.exc is None:
                e = getattr(self, 'cur_exc', None)
                raise e if e is not None else PyExc(RuntimeError)
            e = self.ev(s.exc, env, mod)
            if isinstance(e, type): e = PyExc(e)
            if isinstance(e, Inst): e = PyExc(Exception, e)
            if isinstance(e, Cls): e = PyExc(Exception, e)
            if not isinstance(e, PyExc): raise Unsupported('raise %r' % (e,))
            raise e
        elif t is ast.Try:
            try:
                try: self.block(s.body, env, mod)
                except PyExc as e:
                    for h in s.handlers:
                        cl = self.ev(h.type, env, mod) if h.type is not None else BaseException
                        cls = cl if isinstance(cl, tuple) else (cl,)
                        if any(isinstance(x, type) and issubclass(e.cls, x) for x in cls):
                            if h.name: env[h.name] = e
                            save = getattr(self, 'cur_exc', None); self.cur_exc = e
                            try: self.block(h.body, env, mod)
                            finally: self.cur_exc = save
                            break
                    else: raise
                else: self.block(s.orelse, env, mod)
            finally:
                self.block(s.finalbody, env, mod)
        elif t is ast.Assert:
            if not self.truth(self.ev(s.test, env, mod)): raise PyExc(AssertionError)
        elif t is ast.Delete:
            for x in s.targets:
                if isinstance(x, ast.Name): (env.find(x.id) or {}).pop(x.id, None)
                elif isinstance(x, ast.Subscript): self.native(lambda c, i: c.__delitem__(i), [self.ev(x.value, env, mod), self.ev(x.slice, env, mod)], {})
        elif t is ast.With:
            for it in s.items:
                v = self.ev(it.context_expr, env, mod)
                if isinstance(v, Inst): v = self.call(self.attr(v, '__enter__'), [], {})
                elif not isinstance(v, (Op, Ext)): raise Unsupported('with %r' % (v,))
                if it.optional_vars is not None: self.assign(it.optional_vars, v, env, mod)
            self.block(s.body, env, mod)
        elif t is ast.Match:
            v = self.ev(s.subject, env, mod)
            for c in s.cases:
                b = {}
                if self.match(c.pattern, v, b, env, mod):
                    for n, x in b.items(): self.setname(n, x, env)
                    if c.guard is None or self.truth(self.ev(c.guard, env, mod)):
                        self.block(c.body, env, mod); break
        else: raise Unsupported('%s at line %d' % (t.__name__, s.lineno))

    def match(self, p, v, b, env, mod):
        t = type(p)
        if t is ast.MatchAs:
            if p.pattern is not None and not self.match(p.pattern, v, b, env, mod): return False
            if p.name: b[p.name] = v
            return True
        if t is ast.MatchOr: return any(self.match(x, v, b, env, mod) for x in p.patterns)
        if t is ast.MatchValue: return self.truth(self.compare(ast.Eq(), v, self.ev(p.value, env, mod)))
        if t is ast.MatchSingleton: return v is p.value
        if t is ast.MatchClass:
            c = self.ev(p.cls, env, mod)
            if not self.isinstance(v, c): return False
            if p.patterns:
                if len(p.patterns) == 1 and c in (str, int, float): return self.match(p.patterns[0], v, b, env, mod)
                raise Unsupported('match')
            return all(self.match(q, self.attr(v, n), b, env, mod) for n, q in zip(p.kwd_attrs, p.kwd_patterns))
        raise Unsupported('match pattern ' + t.__name__)

    def from_(self, m, n):
        if isinstance(m, Mod):
            if n in m.env: return m.env[n]
            if m.path and getattr(m, 'pkg', False):
                try: return self.load(m.name + '.' + n)
                except PyExc as e:
                    if e.cls is not ModuleNotFoundError or n not in str(e.eargs): raise
            raise PyExc(ImportError, args=('cannot import name %r from %r' % (n, m.name),))
        return self.attr(m, n)

    def setname(self, n, v, env):
        if n in env.globals_:
            e = env
            while e.parent is not None: e = e.parent
            e[n] = v
        elif n in env.nonlocals:
            e = env.parent.find(n); e[n] = v
        else: env[n] = v

    def assign(self, x, v, env, mod):
        if isinstance(x, ast.Name): self.setname(x.id, v, env)
        elif isinstance(x, (ast.Tuple, ast.List)):
            vs = list(self.iter(v)); st = [i for i, y in enumerate(x.elts) if isinstance(y, ast.Starred)]
            if st:
                i = st[0]; tail = len(x.elts) - i - 1
                vs = vs[:i] + [vs[i:len(vs)-tail]] + vs[len(vs)-tail:]
            if len(vs) != len(x.elts): raise PyExc(ValueError, args=('unpack',))
            for y, w in zip(x.elts, vs): self.assign(y.value if isinstance(y, ast.Starred) else y, w, env, mod)
        elif isinstance(x, ast.Attribute):
            o = self.ev(x.value, env, mod)
            if isinstance(o, (Inst, Cls, Mod)): o.env[x.attr] = v
            elif isinstance(o, (Fn, Py)): o.attrs[x.attr] = v
            elif isinstance(o, (Ext, Op, Call)): pass
            else: raise PyExc(AttributeError)
        elif isinstance(x, ast.Subscript):
            o = self.ev(x.value, env, mod); i = self.ev(x.slice, env, mod)
            if isinstance(o, (dict, list)): self.native(lambda: o.__setitem__(i, v), [], {})
            elif isinstance(o, (Ext, Op)): pass
            else: raise Unsupported('item assignment to %r' % (o,))
        else: raise Unsupported('assignment')

    # ---- expressions
    def binop(self, op, a, b):
        import operator as o
        f = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.Div: o.truediv, ast.FloorDiv: o.floordiv, ast.Mod: o.mod, ast.Pow: o.pow, ast.BitOr: o.or_, ast.BitAnd: o.and_, ast.BitXor: o.xor, ast.LShift: o.lshift, ast.RShift: o.rshift}.get(type(op))
        if f is None: raise Unsupported('operator')
        if isinstance(op, ast.BitOr) and not (isinstance(a, (int, dict, set)) and isinstance(b, (int, dict, set))): return Op('union', a, b)      # annotations
        if isinstance(op, ast.Mod) and isinstance(a, str) and not conc(b): return '?'
        if isinstance(a, (Sym, Op, Call, Ext)) or isinstance(b, (Sym, Op, Call, Ext)):
            # identities that leave an opaque number as it is
            if isinstance(op, ast.Mult) and b in (1, 1.0) and type(b) in (int, float): return a
            if isinstance(op, ast.Mult) and type(a) in (int, float) and a == 1: return b
            if isinstance(op, (ast.Add, ast.Sub)) and type(b) in (int, float) and b == 0: return a
            return Op(type(op).__name__, a, b)
        return self.native(f, [a, b], {})

    def compare(self, op, a, b):
        import operator as o
        t = type(op)
        if t in (ast.Is, ast.IsNot):
            r = a is b or (isinstance(a, (bool, type(None))) and isinstance(b, (bool, type(None))) and a is b) or (isinstance(a, type) and a is b) or (isinstance(a, Bind) and isinstance(b, Bind) and (a.scope, a.name) == (b.scope, b.name))
            return r if t is ast.Is else not r
        if t in (ast.In, ast.NotIn):
            if isinstance(b, Cls): r = a in b.members or a in [m.value for m in b.members]
            elif isinstance(b, (Sym, Op, Call, Ext)) or (isinstance(b, str) and not isinstance(a, str)): return Op('in', a, b) if t is ast.In else Op('not', Op('in', a, b))
            else:
                if isinstance(a, (Sym, Op)) and not (isinstance(b, dict) and all(isinstance(x, str) for x in b)) and not any(x is a for x in b): r = Op('in', a); return r if t is ast.In else Op('not', r)
                r = self.native(lambda: a in b, [], {})
            return r if t is ast.In else not r
        if a is b and t in (ast.Eq, ast.NotEq): return t is ast.Eq
        if isinstance(a, (Sym, Op, Call)) or isinstance(b, (Sym, Op, Call)):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Sym) and x.kind in ('int', 'float') and (y is None or isinstance(y, (str, Member, tuple, list, dict))) and t in (ast.Eq, ast.NotEq): return t is ast.NotEq
            return Op(t.__name__, a, b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Member) and any(isinstance(c, Ext) and c.name in ('enum.StrEnum', 'enum.IntEnum') or c in (str, int) for c in x.cls.mro()) and not isinstance(y, Member):
                if x is a: a = x.value
                else: b = x.value
        f = {ast.Eq: o.eq, ast.NotEq: o.ne, ast.Lt: o.lt, ast.LtE: o.le, ast.Gt: o.gt, ast.GtE: o.ge}[t]
        return self.native(f, [a, b], {})

    def isinstance(self, v, c):
        if isinstance(c, tuple): return any(self.isinstance(v, x) for x in c)
        if isinstance(c, Op) and c.op == 'union': return any(self.isinstance(v, x) for x in c.args)
        if c is None: return v is None
        if isinstance(v, Member):
            return c in v.cls.mro() or (isinstance(c, Ext) and (c.name == 'enum.Enum' or any(isinstance(b, Ext) and b.name == c.name for b in v.cls.mro()))) or (c is str and any(b is str or isinstance(b, Ext) and b.name == 'enum.StrEnum' for b in v.cls.mro())) or c is object
        if isinstance(v, Inst): return c in v.cls.mro() or c is object
        if isinstance(v, Sym):
            if v.kind in ('int', 'float', 'str'):
                py = {'int': int, 'float': float, 'str': str}[v.kind]
                if isinstance(c, type): return issubclass(py, c)
                if isinstance(c, Ext): return (c.name.split('.')[-1] in ('Number', 'Real') and v.kind != 'str') or (c.name.split('.')[-1] == 'Integral' and v.kind == 'int')
                return False
            if v.kind == 'variogram': return (isinstance(c, BindClass) and c.name == 'Variogram') or c is object
        if isinstance(v, Call) and v.b.name == 'variogram': return (isinstance(c, BindClass) and c.name == 'Variogram') or c is object
        if isinstance(v, PyExc): return isinstance(c, type) and issubclass(v.cls, c)
        if isinstance(v, CONC):
            if isinstance(c, type): return isinstance(v, c)
            if isinstance(c, Ext): return {'Mapping': dict, 'Sequence': (list, tuple, str), 'Iterable': (list, tuple, str, dict, set), 'Number': (int, float), 'Real': (int, float), 'Integral': int}.get(c.name.split('.')[-1], ()) and isinstance(v, {'Mapping': dict, 'Sequence': (list, tuple, str), 'Iterable': (list, tuple, str, dict, set), 'Number': (int, float), 'Real': (int, float), 'Integral': int}[c.name.split('.')[-1]])
            return False
        if isinstance(v, (Fn, Py, Bind, Cls, BindClass, Mod, Ext)): return c is object
        return Op('isinstance', v, c)

    def ev(self, e, env, mod):
        self.steps += 1
        if self.steps > 400000: raise Unsupported('too long')
        t = type(e); E = lambda x: self.ev(x, env, mod)
        if t is ast.Constant: return e.value
        if t is ast.Name:
            if e.id in env.globals_:
                sc = env
                while sc.parent is not None: sc = sc.parent
                if e.id in sc: return sc[e.id]
            else:
                sc = env.find(e.id)
                if sc is not None: return sc[e.id]
            return self.builtin(e.id, mod)
        if t is ast.Attribute: return self.attr(E(e.value), e.attr)
        if t is ast.Call:
            f = E(e.func); a = []; k = {}
            for x in e.args:
                if isinstance(x, ast.Starred):
                    v = E(x.value); a += list(self.iter(v))
                else: a.append(E(x))
            for x in e.keywords:
                if x.arg is None:
                    v = E(x.value)
                    if not isinstance(v, dict): raise Unsupported('** of %r' % (v,))
                    for kk, vv in v.items():
                        if kk in k: raise PyExc(TypeError, args=('multiple values',))
                        k[kk] = vv
                else:
                    if x.arg in k: raise PyExc(TypeError, args=('multiple values',))
                    k[x.arg] = E(x.value)
            return self.call(f, a, k)
        if t is ast.BinOp: return self.binop(e.op, E(e.left), E(e.right))
        if t is ast.UnaryOp:
            v = E(e.operand)
            if isinstance(e.op, ast.Not):
                return Op('not', v) if isinstance(v, (Sym, Op)) else not self.truth(v)
            if not conc(v): return Op(type(e.op).__name__, v)
            return self.native({ast.USub: lambda x: -x, ast.UAdd: lambda x: +x, ast.Invert: lambda x: ~x}[type(e.op)], [v], {})
        if t is ast.BoolOp:
            v = None
            for x in e.values:
                v = E(x); tr = self.truth(v)
                if isinstance(e.op, ast.And) and not tr: return v if not isinstance(v, Op) else False
                if isinstance(e.op, ast.Or) and tr: return v if not (isinstance(v, Op) and v.op in ('Eq', 'Lt', 'Gt', 'LtE', 'GtE', 'NotEq', 'in', 'isinstance')) else True
            if isinstance(v, Op) and v.op in ('Eq', 'Lt', 'Gt', 'LtE', 'GtE', 'NotEq', 'in', 'isinstance', 'not'): return isinstance(e.op, ast.And)
            return v
        if t is ast.Compare:
            l = E(e.left)
            for op, r in zip(e.ops, e.comparators):
                r = E(r); v = self.compare(op, l, r)
                if len(e.ops) == 1: return v
                if not self.truth(v): return False
                l = r
            return True
        if t is ast.IfExp: return E(e.body) if self.truth(E(e.test)) else E(e.orelse)
        if t in (ast.Tuple, ast.List, ast.Set):
            out = []
            for x in e.elts:
                if isinstance(x, ast.Starred): out += list(self.iter(E(x.value)))
                else: out.append(E(x))
            return tuple(out) if t is ast.Tuple else out if t is ast.List else set(out)
        if t is ast.Dict:
            d = {}
            for k, v in zip(e.keys, e.values):
                if k is None: d.update(E(v))
                else: d[E(k)] = E(v)
            return d
        if t is ast.Subscript:
            o = E(e.value); i = E(e.slice)
            if isinstance(o, Cls) and o.is_enum:
                if i in getattr(o, 'names', {}): return o.names[i]
                raise PyExc(KeyError, args=(i,))
            if isinstance(o, (Sym, Op, Call, Ext)) or isinstance(o, type) or isinstance(i, (Sym, Op)): return Op('item', o, i)
            return self.native(lambda: o[i], [], {})
        if t is ast.Slice: return slice(*(E(x) if x is not None else None for x in (e.lower, e.upper, e.step)))
        if t is ast.Lambda: return Fn(e, env, [E(d) for d in e.args.defaults], [E(d) if d is not None else Ellipsis for d in e.args.kw_defaults], mod, '<lambda>')
        if t is ast.JoinedStr:
            out = ''
            for x in e.values:
                if isinstance(x, ast.Constant): out += x.value
                else:
                    v = E(x.value); out += (format(v, '') if not x.format_spec else '?') if conc(v) else '?'
            return out
        if t is ast.NamedExpr: v = E(e.value); self.assign(e.target, v, env, mod); return v
        if t in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
            out = []; ce = Env(env)
            def rec(i):
                if i == len(e.generators):
                    out.append((self.ev(e.key, ce, mod), self.ev(e.value, ce, mod)) if t is ast.DictComp else self.ev(e.elt, ce, mod)); return
                g = e.generators[i]
                for v in self.iter(self.ev(g.iter, ce, mod)):
                    self.assign(g.target, v, ce, mod)
                    if all(self.truth(self.ev(c, ce, mod)) for c in g.ifs): rec(i + 1)
            rec(0)
            return dict(out) if t is ast.DictComp else set(out) if t is ast.SetComp else out if t is ast.ListComp else iter(out)
        if t is ast.Starred: raise Unsupported('starred')
        raise Unsupported('%s' % t.__name__)

    def builtin(self, n, mod):
        if n in ('isinstance',): return Py(lambda it, a, k: it.isinstance(a[0], a[1]), n)
        if n == 'issubclass': return Py(lambda it, a, k: (isinstance(a[0], Cls) and (a[1] in a[0].mro() or (isinstance(a[1], Ext) and a[1].name == 'enum.Enum' and a[0].is_enum))) or (isinstance(a[0], type) and isinstance(a[1], type) and issubclass(a[0], a[1])), n)
        if n == 'getattr':
            def ga(it, a, k):
                if len(a) > 2: return it.attr(a[0], a[1], a[2])
                return it.attr(a[0], a[1])
            return Py(ga, n)
        if n == 'hasattr':
            def ha(it, a, k):
                miss = object()
                return it.attr(a[0], a[1], miss) is not miss
            return Py(ha, n)
        if n == 'setattr':
            def sa(it, a, k):
                if isinstance(a[0], (Inst, Cls, Mod)): a[0].env[a[1]] = a[2]
                elif isinstance(a[0], (Fn, Py)): a[0].attrs[a[1]] = a[2]
            return Py(sa, n)
        if n == 'callable': return Py(lambda it, a, k: isinstance(a[0], (Fn, Py, Bind, Cls, BindClass)), n)
        if n == 'print': return Py(lambda it, a, k: None, n)
        if n == 'globals': return Py(lambda it, a, k: mod.env, n)
        if n == 'vars': return Py(lambda it, a, k: a[0].env if a and hasattr(a[0], 'env') else {}, n)
        if n == 'dir': return Py(lambda it, a, k: sorted(a[0].env) if a and hasattr(a[0], 'env') else sorted(mod.env), n)
        if n == 'map': return Py(lambda it, a, k: iter([it.call(a[0], list(x), {}) for x in zip(*[it.iter(y) for y in a[1:]])]), n)
        if n == 'filter': return Py(lambda it, a, k: iter([x for x in it.iter(a[1]) if it.truth(it.call(a[0], [x], {}) if a[0] is not None else x)]), n)
        if n == '__import__': return Ext('builtins.__import__')
        if n in BUILTIN: return BUILTIN[n]
        if n in EXCS: return EXCS[n]
        if n in ('__name__',): return mod.name
        if n in ('NotImplemented',): return NotImplemented
        raise PyExc(NameError, args=('name %r is not defined' % n,))

def paths(run, limit=64):
    """Runs the scenario over all resolutions of its undecided conditions."""
    dec = []
    for _ in range(limit):
        d, r = run(dec)
        yield d, r
        d = list(d)
        while d and d[-1]: d.pop()
        if not d: return
        d[-1] = True; dec = d
    raise Unsupported('too many paths')
