"""Hash-consed value-number terms and a small ROBDD for gating conditions.

A term is the value number of an IR value: two IR values with the same term are equal
on every input.  Terms are built by the transfer functions in vflow.py; nothing here
executes program code.
"""
import math, struct

# ---------------------------------------------------------------- numeric helpers
def f32(x):
    try:
        return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)

def f64_bits(x): return struct.unpack('<Q', struct.pack('<d', x))[0]
def bits_f64(b): return struct.unpack('<d', struct.pack('<Q', b & (2**64-1)))[0]
def f32_bits(x): return struct.unpack('<I', struct.pack('<f', x))[0]
def bits_f32(b): return struct.unpack('<f', struct.pack('<I', b & (2**32-1)))[0]

def sgn(v, w):
    return v - (1 << w) if v >> (w-1) & 1 else v

def width(ty):
    return int(ty[1:])

# ---------------------------------------------------------------- BDD
class B:
    __slots__ = ('var', 'hi', 'lo', 'id')
    def __repr__(self): return bdd_str(self)

_bdd_tab = {}
_bdd_n = [2]
TRUE = B(); TRUE.var = 1 << 60; TRUE.hi = TRUE.lo = None; TRUE.id = 1
FALSE = B(); FALSE.var = 1 << 60; FALSE.hi = FALSE.lo = None; FALSE.id = 0
_atoms = []            # level -> atom term
_atom_level = {}       # term id -> level

def mk(var, hi, lo):
    if hi is lo: return hi
    k = (var, hi.id, lo.id)
    n = _bdd_tab.get(k)
    if n is None:
        n = B(); n.var = var; n.hi = hi; n.lo = lo; n.id = _bdd_n[0]; _bdd_n[0] += 1
        _bdd_tab[k] = n
    return n

_ite_memo = {}
def bite(f, g, h):
    if f is TRUE: return g
    if f is FALSE: return h
    if g is h: return g
    if g is TRUE and h is FALSE: return f
    k = (f.id, g.id, h.id)
    r = _ite_memo.get(k)
    if r is not None: return r
    v = min(f.var, g.var, h.var)
    f1, f0 = (f.hi, f.lo) if f.var == v else (f, f)
    g1, g0 = (g.hi, g.lo) if g.var == v else (g, g)
    h1, h0 = (h.hi, h.lo) if h.var == v else (h, h)
    r = mk(v, bite(f1, g1, h1), bite(f0, g0, h0))
    _ite_memo[k] = r
    return r

def band(a, b): return bite(a, b, FALSE)
def bor(a, b): return bite(a, TRUE, b)
def bnot(a): return bite(a, FALSE, TRUE)
def bxor(a, b): return bite(a, bnot(b), b)

_rs_memo = {}
def restrict(f, c):
    """Coudert/Madre restrict: some g with g&c == f&c, usually smaller."""
    if c is TRUE or f is TRUE or f is FALSE: return f
    if c is FALSE: return f
    if f is c: return TRUE
    k = (f.id, c.id)
    r = _rs_memo.get(k)
    if r is not None: return r
    if c.var < f.var:
        r = restrict(f, bor(c.hi, c.lo))
    else:
        c1, c0 = (c.hi, c.lo) if c.var == f.var else (c, c)
        if c1 is FALSE: r = restrict(f.lo, c0)
        elif c0 is FALSE: r = restrict(f.hi, c1)
        else: r = mk(f.var, restrict(f.hi, c1), restrict(f.lo, c0))
    _rs_memo[k] = r
    return r

def atom(t):
    """BDD variable for an i1 term."""
    l = _atom_level.get(t.id)
    if l is None:
        l = len(_atoms); _atoms.append(t); _atom_level[t.id] = l
    return mk(l, TRUE, FALSE)

def bdd_atoms(b, acc=None):
    if acc is None: acc = set()
    st = [b]; seen = set()
    while st:
        n = st.pop()
        if n.id < 2 or n.id in seen: continue
        seen.add(n.id); acc.add(n.var); st.append(n.hi); st.append(n.lo)
    return acc

def bdd_str(b, depth=4):
    if b is TRUE: return 'true'
    if b is FALSE: return 'false'
    if depth == 0: return '...'
    a = tstr(_atoms[b.var], 3)
    if b.hi is TRUE and b.lo is FALSE: return a
    if b.hi is FALSE and b.lo is TRUE: return '!(%s)' % a
    if b.lo is FALSE: return '(%s && %s)' % (a, bdd_str(b.hi, depth-1))
    if b.hi is FALSE: return '(!(%s) && %s)' % (a, bdd_str(b.lo, depth-1))
    return '(%s ? %s : %s)' % (a, bdd_str(b.hi, depth-1), bdd_str(b.lo, depth-1))

# ---------------------------------------------------------------- terms
class T:
    __slots__ = ('op', 'args', 'ty', 'id')
    def __repr__(self): return tstr(self)

_tab = {}
_all = []

class Ptr:
    """Pointer into one abstract object."""
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off): self.obj = obj; self.off = off
    def __repr__(self): return '&%s+%s' % (self.obj, self.off)

class PtrIte:
    """Guarded choice of pointers: list of (cond, Ptr); conds are exhaustive under the care set."""
    __slots__ = ('cases',)
    def __init__(self, cases): self.cases = cases
    def __repr__(self): return 'PtrIte(%s)' % (self.cases,)

NULL = Ptr(0, 0)

def akey(a):
    if isinstance(a, T): return ('t', a.id)
    if isinstance(a, bool): return ('b', a)
    if isinstance(a, int): return a
    if isinstance(a, float): return ('f', f64_bits(a))
    if isinstance(a, B): return ('B', a.id)
    if isinstance(a, Ptr): return ('p', a.obj, akey(a.off))
    if isinstance(a, PtrIte): return ('pi',) + tuple((c.id, akey(p)) for c, p in a.cases)
    if isinstance(a, tuple): return ('T',) + tuple(akey(x) for x in a)
    return ('s', a)

def mkt(op, ty, *args):
    k = (op, ty if isinstance(ty, str) else str(ty), tuple([akey(a) for a in args]))
    t = _tab.get(k)
    if t is None:
        t = T(); t.op = op; t.args = args; t.ty = ty; t.id = len(_all)
        _all.append(t); _tab[k] = t
    return t

def is_const(v): return isinstance(v, (int, float)) and not isinstance(v, bool)

def same(a, b):
    if a is b: return True
    if type(a) is not type(b): return False
    if isinstance(a, (int,)): return a == b
    if isinstance(a, float): return f64_bits(a) == f64_bits(b)
    if isinstance(a, Ptr): return a.obj == b.obj and same(a.off, b.off)
    if isinstance(a, PtrIte): return akey(a) == akey(b)
    if isinstance(a, tuple): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return False

def tstr(t, depth=6):
    if isinstance(t, T):
        if t.op == 'var': return str(t.args[0])
        if t.op == 'undef': return 'UNINIT(%s)' % (t.args[0],)
        if depth == 0: return '#%d' % t.id
        if t.op == 'ite':
            return '(%s ? %s : %s)' % (bdd_str(t.args[0], 2), tstr(t.args[1], depth-1), tstr(t.args[2], depth-1))
        inf = {'fadd': '+', 'fsub': '-', 'fmul': '*', 'fdiv': '/', 'add': '+', 'sub': '-', 'mul': '*',
               'olt': '<', 'ole': '<=', 'oeq': '==', 'slt': '<s', 'ult': '<u', 'eq': '=='}
        if t.op in inf: return '(%s %s %s)' % (tstr(t.args[0], depth-1), inf[t.op], tstr(t.args[1], depth-1))
        a = list(t.args)
        if len(a) > 6: a = a[:6] + ['..']
        return '%s(%s)' % (t.op, ', '.join(tstr(x, depth-1) for x in a))
    if isinstance(t, B): return bdd_str(t, 3)
    if isinstance(t, tuple):
        return '[' + ', '.join(tstr(x, max(depth-1, 0)) for x in t[:4]) + (', ..' if len(t) > 4 else '') + ']'
    return str(t)

def leaves(t, lim=32):
    """Constant leaves of an ite tree, as [(cond, const)], or None."""
    if is_const(t): return [(TRUE, t)]
    if not (isinstance(t, T) and t.op == 'ite'): return None
    out = []; n = 0
    st = [(TRUE, t)]
    while st:
        c, x = st.pop()
        if is_const(x):
            out.append((c, x)); n += 1
            if n > 4*lim: return None
        elif isinstance(x, T) and x.op == 'ite':
            c1 = band(c, x.args[0]); c0 = band(c, bnot(x.args[0]))
            if c1 is not FALSE: st.append((c1, x.args[1]))
            if c0 is not FALSE: st.append((c0, x.args[2]))
        else:
            return None
    # merge equal leaves
    m = {}
    for c, x in out:
        k = akey(x)
        m[k] = (bor(m[k][0], c), x) if k in m else (c, x)
    return list(m.values()) if len(m) <= lim else None

def from_leaves(ls, ty):
    r = ls[-1][1]
    for c, x in reversed(ls[:-1]):
        r = ite(c, x, r, ty)
    return r

def ptr_cases(p):
    if isinstance(p, Ptr): return [(TRUE, p)]
    return p.cases

def ite(c, a, b, ty):
    if c is TRUE: return a
    if c is FALSE: return b
    if same(a, b): return a
    if isinstance(a, tuple) and isinstance(b, tuple):
        if isinstance(ty, list) and ty[0] == 's':
            return tuple(ite(c, x, y, ty[2][i][1]) for i, (x, y) in enumerate(zip(a, b)))
        if isinstance(ty, list) and ty[0] in ('a', 'vec'):
            return tuple(ite(c, x, y, ty[3]) for x, y in zip(a, b))
        return tuple(ite(c, x, y, None) for x, y in zip(a, b))
    if isinstance(a, B) or isinstance(b, B):
        return bite(c, tob(a), tob(b))
    if isinstance(a, (Ptr, PtrIte)) or isinstance(b, (Ptr, PtrIte)):
        if isinstance(a, (Ptr, PtrIte)) and isinstance(b, (Ptr, PtrIte)):
            m = []
            for g, p in [(band(c, g), p) for g, p in ptr_cases(a)] + [(band(bnot(c), g), p) for g, p in ptr_cases(b)]:
                if g is FALSE: continue
                for i, (g2, p2) in enumerate(m):
                    if same(p, p2): m[i] = (bor(g, g2), p2); break
                else: m.append((g, p))
            if len(m) == 1: return m[0][1]
            return PtrIte(m)
        # undef on one side: keep the defined pointer
        x, y = (a, b) if isinstance(a, (Ptr, PtrIte)) else (b, a)
        if isinstance(y, T) and y.op == 'undef': return x
        if is_const(y) and y == 0: return ite(c, a if x is a else NULL, b if x is b else NULL, ty)
        if isinstance(y, T):
            return mkt('ite', 'p', c, a, b)
    if ty is None:
        ty = a.ty if isinstance(a, T) else b.ty if isinstance(b, T) else ('f64' if isinstance(a, float) else 'i64')
    # canonical polarity: positive literal first
    if isinstance(a, T) and a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if isinstance(b, T) and b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if same(a, b): return a
    return mkt('ite', ty, c, a, b)

def tob(v):
    if isinstance(v, B): return v
    if isinstance(v, (int, bool)): return TRUE if v & 1 else FALSE
    if isinstance(v, T): return atom(v)
    raise TypeError(v)

def fromb(b, ty):
    if b is TRUE: return 1
    if b is FALSE: return 0
    return ite(b, 1, 0, ty)

# ---------------------------------------------------------------- arithmetic
def _fdiv(a, b):
    if b == 0:
        if a == 0 or a != a: return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)
    try: return a / b
    except OverflowError: return math.inf

def cfold_f(op, a, b, ty):
    try:
        if op == 'fadd': r = a + b
        elif op == 'fsub': r = a - b
        elif op == 'fmul': r = a * b
        elif op == 'fdiv': r = _fdiv(a, b)
        elif op == 'frem': r = math.fmod(a, b) if b != 0 and not math.isinf(a) else math.nan
        else: return None
    except (OverflowError, ValueError):
        return None
    return f32(r) if ty == 'f32' else r

def fbin(op, a, b, ty):
    ca, cb = isinstance(a, float), isinstance(b, float)
    if ca and cb:
        r = cfold_f(op, a, b, ty)
        if r is not None: return r
    if op == 'fadd':
        if ca and a == 0: return b
        if cb and b == 0: return a
    elif op == 'fsub':
        if cb and b == 0: return a
    elif op == 'fmul':
        if ca and a == 1.0: return b
        if cb and b == 1.0: return a
    elif op == 'fdiv':
        if cb and b == 1.0: return a
    if op in ('fadd', 'fmul'):
        ka, kb = akey(a), akey(b)
        if not ca and not cb:
            if isinstance(a, T) and isinstance(b, T) and a.id > b.id: a, b = b, a
        elif ca: a, b = b, a     # constant second
    la = leaves(a, 8) if isinstance(a, T) and a.op == 'ite' else None
    lb = leaves(b, 8) if isinstance(b, T) and b.op == 'ite' else None
    if la and cb: return from_leaves([(c, fbin(op, x, b, ty)) for c, x in la], ty)
    if lb and ca: return from_leaves([(c, fbin(op, a, x, ty)) for c, x in lb], ty)
    return mkt(op, ty, a, b)

def cfold_i(op, a, b, w):
    m = (1 << w) - 1
    if op == 'add': return (a + b) & m
    if op == 'sub': return (a - b) & m
    if op == 'mul': return (a * b) & m
    if op == 'and': return a & b
    if op == 'or': return a | b
    if op == 'xor': return a ^ b
    if op == 'shl': return (a << b) & m if b < w else 0
    if op == 'lshr': return a >> b if b < w else 0
    if op == 'ashr': return (sgn(a, w) >> min(b, w-1)) & m
    if op == 'udiv': return a // b if b else None
    if op == 'urem': return a % b if b else None
    if op in ('sdiv', 'srem'):
        if b == 0: return None
        x, y = sgn(a, w), sgn(b, w)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0): q = -q
        return (q if op == 'sdiv' else x - q*y) & m
    return None

COMM = {'add', 'mul', 'and', 'or', 'xor'}

def ibin(op, a, b, ty):
    w = width(ty)
    ca, cb = isinstance(a, int), isinstance(b, int)
    if ca and cb:
        r = cfold_i(op, a, b, w)
        if r is not None: return r
        return mkt('undef', ty, 'div0')
    if op in COMM:
        if ca: a, b, ca, cb = b, a, cb, ca
        elif isinstance(a, T) and isinstance(b, T) and a.id > b.id: a, b = b, a
    m = (1 << w) - 1
    if cb:
        if b == 0:
            if op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'): return a
            if op in ('mul', 'and'): return 0
        if b == 1 and op in ('mul', 'udiv', 'sdiv'): return a
        if b == m and op == 'and': return a
        if b == m and op == 'or': return m
        # reassociate constant adds
        if op == 'sub': return ibin('add', a, (-b) & m, ty)
        if op == 'add' and isinstance(a, T) and a.op == 'add' and isinstance(a.args[1], int):
            return ibin('add', a.args[0], (a.args[1] + b) & m, ty)
        # masks: (x & c) & b, (x | c) | b, (x | c) & b with the bits of b kept apart
        if op in ('and', 'or') and isinstance(a, T) and a.op in ('and', 'or') and isinstance(a.args[1], int) and isinstance(a.args[0], T):
            x, k = a.args
            if a.op == op: return ibin(op, x, k & b if op == 'and' else k | b, ty)
            if op == 'and' and k & b != k: return ibin('or', ibin('and', x, b & ~k & m, ty), k & b, ty)
            if op == 'and' and k & ~b == 0 and b & ~k == 0: return b
    if op == 'sub' and same(a, b): return 0
    if op == 'xor' and same(a, b): return 0
    la = leaves(a, 16) if isinstance(a, T) and a.op == 'ite' else None
    lb = leaves(b, 16) if isinstance(b, T) and b.op == 'ite' else None
    if la and cb: return from_leaves([(c, ibin(op, x, b, ty)) for c, x in la], ty)
    if lb and ca: return from_leaves([(c, ibin(op, a, x, ty)) for c, x in lb], ty)
    if la and lb and len(la)*len(lb) <= 128:
        out = {}
        for c, x in la:
            for d, y in lb:
                e = band(c, d)
                if e is not FALSE:
                    r = ibin(op, x, y, ty)
                    if not is_const(r): out = None; break
                    out[r] = bor(out.get(r, FALSE), e)
            if out is None: break
        if out is not None and len(out) <= 24: return from_leaves([(e, r) for r, e in out.items()], ty)
    return mkt(op, ty, a, b)


# ---- interval domain over float and integer terms (declared input ranges propagate; used to fold branches)
FP_OOR = None      # result of converting an out-of-range number; None: unknown
_iv = {}
INF = math.inf
def interval(t):
    if isinstance(t, float): return (t, t) if t == t else None
    if not isinstance(t, T) or t.ty not in ('f64', 'f32'): return None
    r = _iv.get(t.id, 0)
    if r == 0:
        r = _interval(t)
        if r is not None and not (r[0] <= r[1]): r = None
        _iv[t.id] = r
    return r
def _mul(a, b):
    if a == 0 or b == 0: return 0.0
    return a*b
def _interval(t):
    o = t.op; a = t.args
    if o == 'var': return (a[1], a[2]) if len(a) > 2 else None
    if o in ('fadd', 'fsub', 'fmul', 'fdiv'):
        x = interval(a[0])
        if x is None: return None
        y = interval(a[1])
        if y is None: return None
        if o == 'fmul':
            if same(a[0], a[1]):
                m = max(abs(x[0]), abs(x[1])); n = 0.0 if x[0] <= 0 <= x[1] else min(abs(x[0]), abs(x[1]))
                return (n*n, m*m)
            if INF in (abs(x[0]), abs(x[1]), abs(y[0]), abs(y[1])): return None
            c = [x[i]*y[j] for i in (0, 1) for j in (0, 1)]
        elif o == 'fdiv':
            if y[0] <= 0 <= y[1] or INF in (abs(x[0]), abs(x[1]), abs(y[0]), abs(y[1])): return None
            c = [x[i]/y[j] for i in (0, 1) for j in (0, 1)]
        elif o == 'fadd':
            if INF in (abs(x[0]), abs(x[1]), abs(y[0]), abs(y[1])): return None
            c = [x[0]+y[0], x[1]+y[1]]
        else:
            if INF in (abs(x[0]), abs(x[1]), abs(y[0]), abs(y[1])): return None
            c = [x[0]-y[1], x[1]-y[0]]
        if t.ty == 'f32': c = [f32(v) for v in c]
        return (min(c), max(c))
    if o == 'fpext': return interval(a[0])
    if o == 'fptrunc':
        x = interval(a[0]); return x and (f32(x[0]), f32(x[1]))
    if o == 'fneg':
        x = interval(a[0]); return x and (-x[1], -x[0])
    if o == 'fabs':
        x = interval(a[0])
        if x is None: return None
        m = max(abs(x[0]), abs(x[1])); return (0.0 if x[0] <= 0 <= x[1] else min(abs(x[0]), abs(x[1])), m)
    if o == 'sqrt':
        x = interval(a[0])
        return (math.sqrt(x[0]), math.sqrt(x[1])) if x and x[0] >= 0 else None
    if o == 'exp':
        x = interval(a[0])
        return (math.exp(max(x[0], -745)) * 0.999999 if x[0] > -745 else 0.0, math.exp(x[1]) * 1.000001) if x and x[1] < 700 else None
    if o == 'ite':
        x = interval(a[1])
        if x is None: return None
        y = interval(a[2])
        return y and (min(x[0], y[0]), max(x[1], y[1]))
    if o in ('sin', 'cos'):
        x = interval(a[0]); return x and (-1.0, 1.0)
    if o in ('uitofp', 'sitofp'):
        x = a[0]
        if isinstance(x, T) and x.op == 'var' and len(x.args) > 2: return (float(x.args[1]), float(x.args[2])) if x.args[1] >= 0 or o == 'sitofp' else None
        return None
    if o in ('floor', 'ceil'):
        x = interval(a[0]); return x and (math.floor(x[0]) * 1.0, math.ceil(x[1]) * 1.0)
    return None
def iinterval(t):
    """Signed/unsigned-agnostic interval of non-negative bounded integers (no wrap-around), else None."""
    if isinstance(t, int): return (t, t) if t < 2**63 else None
    if not isinstance(t, T): return None
    k = ('i', t.id); r = _iv.get(k, 0)
    if r == 0:
        r = None; o = t.op; a = t.args
        if o == 'var' and len(a) > 2 and t.ty[0] == 'i' and a[1] >= 0: r = (a[1], a[2])
        elif o in ('zext', 'sext'):
            r = iinterval(a[0])
            if r and o == 'sext' and isinstance(a[0], T) and r[1] >= 2**(width(a[0].ty)-1): r = None
        elif o == 'trunc':
            r = iinterval(a[0])
            if r and r[1] >= 2**(width(t.ty)): r = None
        elif o in ('add', 'mul', 'udiv', 'ite', 'lshr'):
            x, y = (iinterval(a[0]), iinterval(a[1])) if o != 'ite' else (iinterval(a[1]), iinterval(a[2]))
            if x and y:
                if o == 'add': r = (x[0]+y[0], x[1]+y[1])
                elif o == 'mul': r = (x[0]*y[0], x[1]*y[1])
                elif o == 'ite': r = (min(x[0], y[0]), max(x[1], y[1]))
                elif o == 'udiv' and y[0] > 0: r = (x[0]//y[1], x[1]//y[0])
                elif o == 'lshr' and y[0] == y[1]: r = (x[0] >> y[0], x[1] >> y[0])
                if r and r[1] >= 2**(width(t.ty)-1): r = None
        _iv[k] = r
    return r

def cfold_fcmp(op, a, b):
    if op == 'olt': return a < b
    if op == 'ole': return a <= b
    if op == 'oeq': return a == b
    if op == 'uno': return a != a or b != b

def fcmp0(op, a, b, ty):
    ca, cb = isinstance(a, float), isinstance(b, float)
    if ca and a == 0: a = 0.0
    if cb and b == 0: b = 0.0
    if ca and cb: return TRUE if cfold_fcmp(op, a, b) else FALSE
    if op == 'uno':
        if same(a, b) or cb and b == b:
            if interval(a): return FALSE
            return atom(mkt('uno', 'i1', a))
        if ca and a == a: return FALSE if interval(b) else atom(mkt('uno', 'i1', b))
        return bor(fcmp0('uno', a, a, ty), fcmp0('uno', b, b, ty))
    if op == 'olt' and same(a, b): return FALSE
    la = leaves(a) if isinstance(a, T) and a.op == 'ite' else None
    lb = leaves(b) if isinstance(b, T) and b.op == 'ite' else None
    if la and cb:
        r = FALSE
        for c, x in la:
            if cfold_fcmp(op, x, b): r = bor(r, c)
        return r
    if lb and ca:
        r = FALSE
        for c, x in lb:
            if cfold_fcmp(op, a, x): r = bor(r, c)
        return r
    if op in ('olt', 'ole', 'oeq'):
        x = interval(a)
        if x is not None:
            y = interval(b)
            if y is not None:
                if op == 'olt':
                    if x[1] < y[0]: return TRUE
                    if x[0] >= y[1]: return FALSE
                elif op == 'ole':
                    if x[1] <= y[0]: return TRUE
                    if x[0] > y[1]: return FALSE
                elif x[1] < y[0] or x[0] > y[1]: return FALSE
    # less, equal and greater of one pair of operands exclude each other: two atoms L (less) and E (equal), and U (not a
    # number) where that is possible; operands in canonical order
    if cb and isinstance(a, T) and a.op == 'fneg': return fcmp0(op, -b, a.args[0], ty)
    if ca and isinstance(b, T) and b.op == 'fneg': return fcmp0(op, b.args[0], -a, ty)
    if isinstance(a, T) and isinstance(b, T) and a.op == 'fneg' and b.op == 'fneg': return fcmp0(op, b.args[0], a.args[0], ty)
    if ca or (isinstance(a, T) and isinstance(b, T) and a.id > b.id):
        L = atom(mkt('olt', 'i1', b, a)); E = band(atom(mkt('oeq', 'i1', b, a)), bnot(L))
        if op == 'oeq': return E
        ok = bnot(fcmp0('uno', a, b, ty))
        if op == 'ole': return band(bnot(L), ok)
        return band(band(bnot(L), bnot(E)), ok)
    L = atom(mkt('olt', 'i1', a, b))
    if op == 'olt': return L
    E = band(atom(mkt('oeq', 'i1', a, b)), bnot(L))
    return E if op == 'oeq' else bor(L, E)

def fcmp(pred, a, b, ty):
    if pred == 'true': return TRUE
    if pred == 'false': return FALSE
    if pred == 'olt': return fcmp0('olt', a, b, ty)
    if pred == 'ole': return fcmp0('ole', a, b, ty)
    if pred == 'ogt': return fcmp0('olt', b, a, ty)
    if pred == 'oge': return fcmp0('ole', b, a, ty)
    if pred == 'oeq': return fcmp0('oeq', a, b, ty)
    if pred == 'uno': return fcmp0('uno', a, b, ty)
    if pred == 'ord': return bnot(fcmp0('uno', a, b, ty))
    if pred == 'ult': return bnot(fcmp0('ole', b, a, ty))
    if pred == 'ule': return bnot(fcmp0('olt', b, a, ty))
    if pred == 'ugt': return bnot(fcmp0('ole', a, b, ty))
    if pred == 'uge': return bnot(fcmp0('olt', a, b, ty))
    if pred == 'une': return bnot(fcmp0('oeq', a, b, ty))
    if pred == 'one': return band(bnot(fcmp0('oeq', a, b, ty)), bnot(fcmp0('uno', a, b, ty)))
    if pred == 'ueq': return bor(fcmp0('oeq', a, b, ty), fcmp0('uno', a, b, ty))
    raise NotImplementedError(pred)

def cfold_icmp(op, a, b, w):
    if op == 'eq': return a == b
    if op == 'ult': return a < b
    if op == 'slt': return sgn(a, w) < sgn(b, w)

def icmp0(op, a, b, ty):
    w = width(ty)
    ca, cb = isinstance(a, int), isinstance(b, int)
    if ca and cb: return TRUE if cfold_icmp(op, a, b, w) else FALSE
    if same(a, b): return TRUE if op == 'eq' else FALSE
    if op == 'eq':
        if ca or (isinstance(a, T) and isinstance(b, T) and a.id > b.id): a, b, ca, cb = b, a, cb, ca
    if op == 'ult' and cb and b == 0: return FALSE
    la = leaves(a, 64) if isinstance(a, T) and a.op == 'ite' else None
    lb = leaves(b, 64) if isinstance(b, T) and b.op == 'ite' else None
    if la is None and ca: la = [(TRUE, a)]
    if lb is None and cb: lb = [(TRUE, b)]
    if la and lb:
        r = FALSE
        for c, x in la:
            for d, y in lb:
                if cfold_icmp(op, x, y, w): r = bor(r, band(c, d))
        return r
    x = iinterval(a)
    if x is not None:
        y = iinterval(b)
        if y is not None:
            if op in ('ult', 'slt'):
                if x[1] < y[0]: return TRUE
                if x[0] >= y[1]: return FALSE
            elif x[1] < y[0] or x[0] > y[1]: return FALSE
        elif op == 'slt' and isinstance(b, int) and b >= 2**(w-1): return FALSE
    return atom(mkt(op, 'i1', a, b))

def icmp(pred, a, b, ty):
    if pred == 'eq': return icmp0('eq', a, b, ty)
    if pred == 'ne': return bnot(icmp0('eq', a, b, ty))
    if pred == 'ult': return icmp0('ult', a, b, ty)
    if pred == 'ugt': return icmp0('ult', b, a, ty)
    if pred == 'ule': return bnot(icmp0('ult', b, a, ty))
    if pred == 'uge': return bnot(icmp0('ult', a, b, ty))
    if pred == 'slt': return icmp0('slt', a, b, ty)
    if pred == 'sgt': return icmp0('slt', b, a, ty)
    if pred == 'sle': return bnot(icmp0('slt', b, a, ty))
    if pred == 'sge': return bnot(icmp0('slt', a, b, ty))
    raise NotImplementedError(pred)

def cast(op, v, sty, dty):
    """Scalar casts (non-pointer)."""
    if isinstance(v, T) and v.op == 'ite' and op not in ('bitcast',):
        ls = leaves(v, 8)
        if ls: return from_leaves([(c, cast(op, x, sty, dty)) for c, x in ls], dty)
    if op in ('zext', 'sext', 'trunc'):
        ws, wd = width(sty), width(dty)
        if isinstance(v, B):
            if op == 'trunc': return v
            return fromb(v, dty) if op == 'zext' else ite(v, (1 << wd) - 1, 0, dty)
        if isinstance(v, int):
            if op == 'sext': r = sgn(v, ws) & ((1 << wd) - 1)
            else: r = v & ((1 << wd) - 1)
            if wd == 1: return TRUE if r else FALSE
            return r
        if op == 'trunc':
            if isinstance(v, T) and v.op in ('zext', 'sext'):
                w0 = width(v.args[1])
                if w0 == wd: return v.args[0]
                if w0 > wd: return cast('trunc', v.args[0], v.args[1], dty)
                return cast(v.op, v.args[0], v.args[1], dty)
            if wd == 1: return atom(mkt('trunc', 'i1', v, sty))
        if op == 'zext' and isinstance(v, T) and v.op == 'zext': return mkt('zext', dty, v.args[0], v.args[1])
        return mkt(op, dty, v, sty)
    if op in ('fpext', 'fptrunc'):
        if isinstance(v, float): return f32(v) if dty == 'f32' else v
        if op == 'fptrunc' and isinstance(v, T) and v.op == 'fpext': return v.args[0]
        return mkt(op, dty, v, sty)
    if op in ('sitofp', 'uitofp'):
        if isinstance(v, B): return cast(op, fromb(v, 'i8'), 'i8', dty)
        if isinstance(v, int):
            x = float(sgn(v, width(sty)) if op == 'sitofp' else v)
            return f32(x) if dty == 'f32' else x
        return mkt(op, dty, v, sty)
    if op in ('fptosi', 'fptoui'):
        if isinstance(v, float):
            if v != v or math.isinf(v): return mkt('undef', dty, 'fptoint')
            x = int(v); w = width(dty)
            lo, hi = (-(1 << (w-1)), (1 << (w-1)) - 1) if op == 'fptosi' else (0, (1 << w) - 1)
            if not lo <= x <= hi: return mkt('undef', dty, 'fptoint') if FP_OOR is None else FP_OOR & ((1 << w) - 1)
            return x & ((1 << w) - 1)
        if isinstance(v, T) and v.op in ('sitofp',) and v.args[1] == dty and dty == 'i32' and v.ty == 'f64' and op == 'fptosi':
            return v.args[0]
        return mkt(op, dty, v, sty)
    if op == 'bitcast':
        if sty == dty: return v
        if isinstance(v, float) and dty in ('i64', 'i32'):
            return f64_bits(v) if sty == 'f64' else f32_bits(v)
        if isinstance(v, int) and dty == 'f64': return bits_f64(v)
        if isinstance(v, int) and dty == 'f32': return bits_f32(v)
        if isinstance(v, T) and v.op == 'bitcast' and v.args[1] == dty: return v.args[0]
        if isinstance(v, T) and v.op == 'ite':
            return ite(v.args[0], cast(op, v.args[1], sty, dty), cast(op, v.args[2], sty, dty), dty)
        return mkt('bitcast', dty, v, sty)
    raise NotImplementedError(op)

def _wrap1(f):
    def g(x):
        try: return f(x)
        except ValueError: return math.nan
        except OverflowError: return math.inf
    return g

def _pow(a, b):
    try:
        r = math.pow(a, b)
        return r
    except OverflowError: return math.inf
    except ValueError:
        if a == 0: return math.inf
        return math.nan

def _log(x):
    if x == 0: return -math.inf
    return math.log(x)

def _rint(x):
    return float(round(x)) if math.isfinite(x) else x

FUN1 = {'sqrt': _wrap1(math.sqrt), 'exp': _wrap1(math.exp), 'log': _wrap1(_log), 'sin': _wrap1(math.sin),
        'cos': _wrap1(math.cos), 'tan': _wrap1(math.tan), 'fabs': abs,
        'floor': lambda x: float(math.floor(x)) if math.isfinite(x) else x,
        'ceil': lambda x: float(math.ceil(x)) if math.isfinite(x) else x,
        'trunc': lambda x: float(math.trunc(x)) if math.isfinite(x) else x,
        'rint': _rint, 'nearbyint': _rint,
        'round': lambda x: (math.floor(abs(x) + 0.5)) * math.copysign(1.0, x) if math.isfinite(x) else x,
        'atan': math.atan, 'asin': _wrap1(math.asin), 'acos': _wrap1(math.acos), 'tanh': math.tanh, 'sinh': _wrap1(math.sinh), 'cosh': _wrap1(math.cosh),
        'log10': _wrap1(lambda x: math.log10(x) if x else -math.inf), 'log2': _wrap1(lambda x: math.log2(x) if x else -math.inf), 'exp2': _wrap1(lambda x: math.pow(2.0, x)),
        'erf': math.erf, 'erfc': math.erfc, 'lgamma': _wrap1(math.lgamma), 'tgamma': _wrap1(math.gamma),
        'expm1': _wrap1(math.expm1), 'log1p': _wrap1(math.log1p), 'cbrt': lambda x: math.copysign(abs(x) ** (1/3), x)}
FUN2 = {'pow': _pow, 'atan2': math.atan2, 'hypot': math.hypot,
        'fmod': lambda a, b: math.fmod(a, b) if b else math.nan,
        'fmin': min, 'fmax': max, 'copysign': math.copysign}

def mfun(name, args, ty='f64'):
    if all(isinstance(a, float) for a in args):
        f = FUN1.get(name) if len(args) == 1 else FUN2.get(name)
        r = f(*args)
        return f32(r) if ty == 'f32' else r
    if name == 'pow' and isinstance(args[1], float):
        if args[1] == 2.0: return fbin('fmul', args[0], args[0], ty)
        if args[1] == 1.0: return args[0]
        if args[1] == 0.0: return 1.0
    if name == 'fabs':
        a = args[0]
        if isinstance(a, T) and a.op in ('fabs', 'fneg'): return mfun('fabs', (a.args[0],), ty)
    return mkt(name, ty, *args)

def fneg(a, ty):
    if isinstance(a, float): return -a
    if isinstance(a, T) and a.op == 'fneg': return a.args[0]
    return mkt('fneg', ty, a)
