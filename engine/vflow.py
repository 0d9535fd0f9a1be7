"""Flow- and context-sensitive value-flow analysis over LLVM IR.

One forward pass per analysed entry function.  The abstract domain maps every SSA value and
every memory cell to a value-number term (terms.py); control-flow joins are gated phi nodes
(ite over a BDD of branch conditions); loops are traversed in Bourdoncle weak topological
order and are unrolled only as long as constant propagation keeps the back edge feasible.
Paths are never enumerated and no solver is called.  Anything outside the domain raises
AnalysisError (the check then ends with an error exit, never with a verdict).
"""
import os, json, sys, re, math
from terms import *

sys.setrecursionlimit(200000)

class AnalysisError(Exception):
    pass

class ObjInfo:
    __slots__ = ('id', 'size', 'kind', 'name', 'cond', 'site')

class ObjMem:
    __slots__ = ('cells', 'fills', 'owner', 'freed')
    def __init__(self, owner):
        self.cells = {}; self.fills = (); self.owner = owner; self.freed = FALSE
    def clone(self, owner):
        o = ObjMem(owner); o.cells = dict(self.cells); o.fills = self.fills; o.freed = self.freed
        return o

class State:
    __slots__ = ('cond', 'mem', 'exc', 'caught', 'tok')
    def __init__(self, cond, mem, exc=None):
        self.cond = cond; self.mem = mem; self.exc = exc; self.caught = None; self.tok = object()
    def fork(self, cond):
        s = State(cond, dict(self.mem), self.exc); s.caught = self.caught
        self.tok = object()       # both sides now copy on write
        return s

def sizeof(ty):
    if isinstance(ty, str):
        if ty[0] == 'i': return max(1, (int(ty[1:]) + 7) // 8)
        return {'f32': 4, 'f64': 8, 'f80': 16, 'p': 8}[ty]
    if ty[0] == 's': return ty[1]
    return ty[1] * ty[2]

class Func:
    pass

class Module:
    def __init__(self, path):
        with open(path) as f: d = json.load(f)
        self.globals = d['globals']; self.files = d['files']; self.aliases = d['aliases']
        self.funcs = d['functions']
        self._prep = {}
        self.by_dem = {}
        for n, f in self.funcs.items(): self.by_dem.setdefault(f['dem'], n)

    def prep(self, name):
        F = self._prep.get(name)
        if F is None:
            F = self._prep[name] = prepare(name, self.funcs[name])
        return F

def prepare(name, f):
    F = Func(); F.name = name; F.f = f; F.dem = f['dem']
    blocks = f['blocks']; F.blocks = blocks
    n = len(blocks)
    succ = []; nsucc = []
    for b in blocks:
        t = b[-1]; op = t[0]
        if op == 'br':
            s = [x for x in t[5][1:]]
        elif op == 'switch':
            s = [t[5][1]] + [c[1] for c in t[5][2]]
        elif op == 'invoke':
            s = list(t[5][2])
        else: s = []
        succ.append(s)
        nsucc.append(s[:1] if op == 'invoke' else s)
    F.succ = succ
    # doomed blocks: no ret/resume reachable along normal edges
    alive = set(i for i, b in enumerate(blocks) if b[-1][0] in ('ret', 'resume'))
    pred = [[] for _ in range(n)]
    for i in range(n):
        for s in nsucc[i]: pred[s].append(i)
    st = list(alive)
    while st:
        x = st.pop()
        for p in pred[x]:
            if p not in alive: alive.add(p); st.append(p)
    # blocks in an infinite loop without unreachable are not doomed either
    reach_unr = set(i for i, b in enumerate(blocks) if b[-1][0] == 'unreachable')
    st = list(reach_unr)
    while st:
        x = st.pop()
        for p in pred[x]:
            if p not in reach_unr: reach_unr.add(p); st.append(p)
    F.doomed = set(i for i in range(n) if i not in alive and i in reach_unr)
    F.nsucc = nsucc
    # where different exceptions can end the block, the branches between them are followed
    if F.doomed:
        own = {}
        for i in F.doomed:
            tys = set()
            for ins in blocks[i]:
                if ins[0] in ('call', 'invoke'):
                    a = ins[5]; nm = a[0][1] if type(a[0]) is list and a[0][0] == 'fn' else None
                    if nm == '__cxa_throw': ti = a[1][1][0]; tys.add(ti[1] if ti[0] == 'g' else '?')
                    elif nm in ('abort', '__assert_fail', '_ZSt9terminatev', 'exit'): tys.add('abort')
            own[i] = tys
        def kinds(i):
            seen = set(); q = [i]; out = set()
            while q:
                x = q.pop()
                if x in seen: continue
                seen.add(x); out |= own.get(x, set()); q.extend(nsucc[x])
            return out
        if len(set().union(*own.values())) > 1: F.doomed = set(i for i in F.doomed if len(kinds(i)) <= 1)
    # WTO (Bourdoncle)
    F.wto = wto(succ, 0)
    F.phis = []
    for b in blocks:
        k = 0
        while k < len(b) and b[k][0] == 'phi': k += 1
        F.phis.append(k)
    return F

def wto(succ, root):
    dfn = {}; num = [0]; stack = []
    def component(v):
        part = []
        for w in succ[v]:
            if dfn.get(w, 0) == 0: visit(w, part)
        part.reverse()
        return ('loop', v, part)
    def visit(v, part):
        stack.append(v); num[0] += 1
        dfn[v] = num[0]; head = num[0]; loop = False
        for w in succ[v]:
            m = visit(w, part) if dfn.get(w, 0) == 0 else dfn[w]
            if m <= head: head = m; loop = True
        if head == dfn[v]:
            dfn[v] = 1 << 60
            e = stack.pop()
            if loop:
                while e != v:
                    dfn[e] = 0; e = stack.pop()
                part.append(component(v))
            else:
                part.append(v)
        return head
    part = []
    visit(root, part)
    part.reverse()
    return part

STD_BASES = {'_ZTISt13runtime_error': '_ZTISt9exception', '_ZTISt11logic_error': '_ZTISt9exception',
             '_ZTISt12out_of_range': '_ZTISt11logic_error', '_ZTISt12length_error': '_ZTISt11logic_error',
             '_ZTISt16invalid_argument': '_ZTISt11logic_error', '_ZTISt9bad_alloc': '_ZTISt9exception',
             '_ZTISt8bad_cast': '_ZTISt9exception', '_ZTISt20bad_array_new_length': '_ZTISt9bad_alloc'}

COV = {} if os.environ.get('VP_COV') else None    # development aid: which sides of which branches the contexts reach
def cov_rec(m, F, ins, i, b, bits):
    f, l = ins[3], ins[4]
    if f < 0 or '/src/' not in m.files[f] or '/verif/' in m.files[f]: return
    k = (m.files[f], l, F.dem.split('(')[0], b, i)
    COV[k] = COV.get(k, 0) | bits
if COV is not None:
    import atexit
    @atexit.register
    def _dump():
        import json
        json.dump([[list(k), v] for k, v in COV.items()], open(os.environ['VP_COV'], 'w'))

class Analyzer:
    def __init__(self, mod, intercept=None, max_iter=200000, budget=30_000_000, undef_ok=False, defer_atoms=True):
        self.m = mod
        self.intercept = intercept or {}
        self.objs = {}
        self.next_obj = 1
        self.gobj = {}
        self.obs = []; self.outs = []           # observations: (kind, id, cond, values, site)
        self.findings = []      # memory findings
        self._fseen = set()
        self.stack = []
        self.steps = 0; self.budget = budget
        self.max_iter = max_iter
        self.visited_funcs = {}
        self.visited_sites = set()
        self.undef_n = 0
        self.typeids = {}
        self.vars = {}          # name -> (ty, lo, hi, extra)
        self.assumes = []
        self.fn_objs = {}
        self.models = dict(MODELS)
        self.const_cache = {}
        self.call_count = {}
        self.loop_unrolled = 0
        self.events = []

    # ---- objects
    def new_obj(self, size, kind, name, st, site=None):
        o = ObjInfo(); o.id = self.next_obj; self.next_obj += 1
        o.size = size; o.kind = kind; o.name = name; o.cond = st.cond; o.site = site or self.site()
        self.objs[o.id] = o
        st.mem[o.id] = ObjMem(st.tok)
        return o.id

    def site(self):
        for fr in reversed(self.stack):
            f, l = fr[1]
            if f >= 0 and l and '/repo/' in self.m.files[f]:
                return '%s:%d (%s)' % (self.m.files[f].replace('/repo/', ''), l, fr[0].dem.split('(')[0])
        if self.stack:
            f, l = self.stack[-1][1]
            return '%s:%s (%s)' % (self.m.files[f] if f >= 0 else '?', l, self.stack[-1][0].dem.split('(')[0])
        return '?'

    def fresh_undef(self, ty, why=''):
        self.undef_n += 1
        t = mkt('undef', ty, '%s#%d' % (why, self.undef_n))
        return atom(t) if ty == 'i1' else t

    def finding(self, kind, st, msg):
        if st.cond is FALSE: return
        k = (kind, msg, self.site())
        if k in self._fseen: return
        self._fseen.add(k)
        self.findings.append((kind, st.cond, msg, self.site()))

    def gptr(self, name):
        o = self.gobj.get(name)
        if o is None:
            g = self.m.globals[name]
            o = self.next_obj; self.next_obj += 1
            oi = ObjInfo(); oi.id = o; oi.size = g['size'] if g['init'] is not None else None; oi.kind = 'global'; oi.name = name
            oi.cond = TRUE; oi.site = 'global'
            self.objs[o] = oi
            self.gobj[name] = o
            om = ObjMem(None)
            self.gmem[o] = om
            if g['init'] is not None:
                self.init_cells(om, 0, g['init'], g['type'])
            elif '5NRLib' in name or '8GaussFFT' in name:
                raise AnalysisError('no definition of global ' + name)
        return Ptr(o, 0)

    def init_cells(self, om, off, c, ty):
        k = c[0]
        if k == 'zero':
            om.fills = om.fills + ((off, off + sizeof(c[1]), 0),)
        elif k == 'str':
            for i, ch in enumerate(c[1]): om.cells[off+i] = (1, ord(ch), 'i8')
        elif k == 'agg':
            t = c[1]
            if t[0] == 's':
                for (o, et), x in zip(t[2], c[2]): self.init_cells(om, off + o, x, et)
            else:
                for i, x in enumerate(c[2]): self.init_cells(om, off + i*t[2], x, t[3])
        elif k == 'undef':
            om.fills = om.fills + ((off, off + sizeof(c[1]), 0),)
        else:
            v = self.const(c)
            om.cells[off] = (sizeof(ty), v, ty)

    gmem = None

    def getmem(self, st, o):
        om = st.mem.get(o)
        if om is None:
            om = self.gmem.get(o)
            if om is None: raise AnalysisError('object %s not in state' % o)
        return om

    def wmem(self, st, o):
        om = st.mem.get(o)
        if om is None:
            om = self.gmem.get(o)
            if om is None: raise AnalysisError('object %s not in state' % o)
        if om.owner is not st.tok:
            om = om.clone(st.tok); st.mem[o] = om
        return om

    # ---- memory access
    def byte_of(self, val, ty, k):
        if isinstance(val, B): val = fromb(val, 'i8'); ty = 'i8'
        if isinstance(val, (Ptr, PtrIte)):
            return mkt('ptrbyte', 'i8', val, k)
        if ty in ('f64', 'f32'):
            ity = 'i64' if ty == 'f64' else 'i32'
            val = cast('bitcast', val, ty, ity); ty = ity
        if ty == 'p': ty = 'i64'
        if isinstance(val, int): return (val >> (8*k)) & 255
        if ty == 'i8': return val
        if isinstance(val, T) and val.op == 'concat': return val.args[k]
        return cast('trunc', ibin('lshr', val, 8*k, ty), ty, 'i8')

    def from_bytes(self, bs, ty):
        n = len(bs)
        if all(isinstance(b, int) for b in bs):
            v = 0
            for i, b in enumerate(bs): v |= b << (8*i)
        else:
            b0 = bs[0]
            v = None
            if isinstance(b0, T) and b0.op == 'ptrbyte' and b0.args[1] == 0 and n == 8 and all(isinstance(b, T) and b.op == 'ptrbyte' and same(b.args[0], b0.args[0]) and b.args[1] == i for i, b in enumerate(bs)):
                return b0.args[0]
            # consecutive slices of one value
            src = None
            def slice_of(b):
                if isinstance(b, T) and b.op == 'trunc':
                    x = b.args[0]; xt = b.args[1]
                    if isinstance(x, T) and x.op == 'lshr' and isinstance(x.args[1], int) and x.args[1] % 8 == 0: return (x.args[0], x.args[1]//8, xt)
                    return (x, 0, xt)
                return None
            s0 = slice_of(b0)
            if s0 and s0[1] == 0 and sizeof(s0[2]) == n:
                ok = True
                for i, b in enumerate(bs):
                    s = slice_of(b)
                    if not s or not same(s[0], s0[0]) or s[1] != i: ok = False; break
                if ok: v = s0[0]
            if v is None:
                if n == 1: v = b0
                else:
                    v = mkt('concat', 'i%d' % (8*n), *bs)
        if ty in ('f64', 'f32'): return cast('bitcast', v, 'i64' if ty == 'f64' else 'i32', ty)
        if ty == 'p':
            if isinstance(v, int):
                if v == 0: return NULL
                return Ptr(0, v)
            return v if isinstance(v, (Ptr, PtrIte)) else v
        if ty == 'i1': return tob(v & 1) if isinstance(v, int) else tob(cast('trunc', v, 'i8', 'i1'))
        return v

    def conv(self, v, cty, ty):
        if cty == ty: return v
        if isinstance(v, (Ptr, PtrIte)): return v
        if isinstance(v, B):
            if ty == 'i1': return v
            return fromb(v, ty)
        if ty == 'i1':
            if isinstance(v, int): return TRUE if v & 1 else FALSE
            return tob(cast('trunc', v, cty, 'i1')) if isinstance(v, T) and v.op != 'undef' else self.fresh_undef('i1')
        if ty == 'p':
            if isinstance(v, int): return NULL if v == 0 else Ptr(0, v)
            return v
        if cty == 'p': return v
        if ty == 'f80' or cty == 'f80': return v
        return cast('bitcast', v, cty, ty)

    def load_om(self, om, off, size, ty, oname):
        c = om.cells.get(off)
        if c is not None and c[0] == size:
            return self.conv(c[1], c[2], ty)
        if c is None and size <= 16:
            # fully in a fill and no overlapping cells?
            over = False
            for o in range(off-15, off+size):
                cc = om.cells.get(o)
                if cc is not None and o + cc[0] > off: over = True; break
            if not over:
                for lo, hi, bv in reversed(om.fills):
                    if lo <= off and off + size <= hi:
                        return self.from_bytes([bv]*size, ty)
                    if lo < off + size and off < hi: break
                else:
                    t = mkt('undef', ty, '%s+%d' % (oname, off))
                    return atom(t) if ty == 'i1' else t
        bs = []
        for k in range(off, off+size):
            b = None
            for o in range(k, k-16, -1):
                cc = om.cells.get(o)
                if cc is not None:
                    if o + cc[0] > k: b = self.byte_of(cc[1], cc[2], k-o)
                    break
            if b is None:
                for lo, hi, bv in reversed(om.fills):
                    if lo <= k < hi: b = bv; break
                else: b = mkt('undef', 'i8', '%s+%d' % (oname, k))
            bs.append(b)
        return self.from_bytes(bs, ty)

    def load1(self, st, p, size, ty):
        if p.obj == 0:
            self.finding('null-deref', st, 'load through null or wild pointer'); return self.fresh_undef(ty, 'null')
        if not isinstance(p.obj, int): raise AnalysisError('load from function pointer')
        oi = self.objs[p.obj]
        om = self.getmem(st, p.obj)
        if om.freed is not FALSE and band(om.freed, st.cond) is not FALSE:
            self.finding('use-after-free', st, 'read of freed %s' % oi.name)
        off = p.off
        if isinstance(off, int):
            off = sgn(off, 64) if off >= 0 else off
            if oi.size is not None and isinstance(oi.size, int) and (off < 0 or off + size > oi.size):
                self.finding('out-of-bounds', st, 'read at byte %d of %s (size %s)' % (off, oi.name, oi.size))
            return self.load_om(om, off, size, ty, oi.name + '@%d' % p.obj)
        # symbolic offset
        ls = leaves(off)
        if ls:
            r = None
            for c, k in ls:
                if band(c, st.cond) is FALSE: continue
                v = self.load1(st.fork(band(st.cond, c)), Ptr(p.obj, k), size, ty)
                r = v if r is None else ite(c, v, r, ty)
            return r
        if om.fills and oi.size and isinstance(oi.size, int) and oi.size <= 4096:
            cand = list(range(0, oi.size - size + 1, size))
        else:
            cand = sorted(k for k, c in om.cells.items() if c[0] == size)
        if not cand or len(cand) > 600: raise AnalysisError('symbolic offset load from %s at %s' % (oi.name, self.site()))
        self.events.append(('symload', st.cond, p.obj, off, size, cand[0], cand[-1], self.site()))
        r = self.load_om(om, cand[-1], size, ty, oi.name)
        for k in reversed(cand[:-1]):
            r = ite(icmp('eq', off, k, 'i64'), self.load_om(om, k, size, ty, oi.name), r, ty)
        return r

    def load(self, st, p, size, ty):
        if isinstance(ty, list):
            if ty[0] == 's':
                return tuple(self.load(st, padd(p, o), sizeof(t), t) for o, t in ty[2])
            return tuple(self.load(st, padd(p, i*ty[2]), sizeof(ty[3]), ty[3]) for i in range(ty[1]))
        if isinstance(p, Ptr): return self.load1(st, p, size, ty)
        if isinstance(p, PtrIte):
            r = None
            for c, q in p.cases:
                cc = band(c, st.cond)
                if cc is FALSE: continue
                s2 = State(cc, st.mem)
                v = self.load1(s2, q, size, ty)
                r = v if r is None else ite(c, v, r, ty)
            if r is None: return self.fresh_undef(ty)
            return r
        if isinstance(p, T) and p.op == 'undef':
            self.finding('wild-pointer', st, 'load through uninitialised pointer')
            return self.fresh_undef(ty, 'wild')
        raise AnalysisError('load through %s at %s' % (tstr(p), self.site()))

    def store_om(self, om, off, size, v, ty):
        cells = om.cells
        c = cells.get(off)
        if c is not None and c[0] == size:
            cells[off] = (size, v, ty); return
        # split overlapped cells
        for o in range(off-15, off+size):
            cc = cells.get(o)
            if cc is not None and o + cc[0] > off:
                if o < off or o + cc[0] > off + size:
                    for k in range(cc[0]):
                        if not off <= o+k < off+size:
                            cells[o+k] = (1, self.byte_of(cc[1], cc[2], k), 'i8')
                    if off <= o: del cells[o]
                    elif cells.get(o) is cc: del cells[o]
                else: del cells[o]
        cells[off] = (size, v, ty)

    def store1(self, st, p, size, v, ty, when=None):
        if p.obj == 0:
            self.finding('null-deref', st, 'store through null or wild pointer'); return
        oi = self.objs[p.obj]
        if oi.kind == 'global' and self.m.globals[oi.name]['const']:
            self.finding('const-write', st, 'write to constant %s' % oi.name)
        om = self.wmem(st, p.obj)
        if when is None: when = st.cond
        if om.freed is not FALSE and band(om.freed, when) is not FALSE:
            self.finding('use-after-free', State(band(om.freed, when), st.mem), 'write to freed %s' % oi.name)
        off = p.off
        if isinstance(off, int):
            off = sgn(off, 64) if off >= 0 else off
            if oi.size is not None and isinstance(oi.size, int) and (off < 0 or off + size > oi.size):
                self.finding('out-of-bounds', st, 'write at byte %d of %s (size %s)' % (off, oi.name, oi.size))
                return
            self.store_om(om, off, size, v, ty); return
        ls = leaves(off)
        if ls:
            for c, k in ls:
                if band(c, st.cond) is FALSE: continue
                old = self.load_om(om, k, size, ty, oi.name)
                if oi.size is not None and isinstance(oi.size, int) and not 0 <= sgn(k, 64) <= oi.size - size:
                    self.finding('out-of-bounds', st.fork(band(c, st.cond)), 'write at byte %d of %s (size %s)' % (sgn(k, 64), oi.name, oi.size)); continue
                self.store_om(om, k, size, ite(c, v, old, ty), ty)
            return
        if not isinstance(oi.size, int) or oi.size > 8192: raise AnalysisError('symbolic offset store to %s at %s' % (oi.name, self.site()))
        self.events.append(('symstore', st.cond, p.obj, off, size, 0, oi.size - size, self.site()))
        for k in range(0, oi.size - size + 1, size):
            old = self.load_om(om, k, size, ty, oi.name)
            self.store_om(om, k, size, ite(icmp('eq', off, k, 'i64'), v, old, ty), ty)

    def store(self, st, p, size, v, ty):
        if isinstance(ty, list):
            if ty[0] == 's':
                for (o, t), x in zip(ty[2], v): self.store(st, padd(p, o), sizeof(t), x, t)
            else:
                for i, x in enumerate(v): self.store(st, padd(p, i*ty[2]), sizeof(ty[3]), x, ty[3])
            return
        if isinstance(p, Ptr): self.store1(st, p, size, v, ty); return
        if isinstance(p, PtrIte):
            for c, q in p.cases:
                cc = band(c, st.cond)
                if cc is FALSE: continue
                if q.obj == 0:
                    self.finding('null-deref', State(cc, st.mem), 'store through null pointer'); continue
                old = self.load1(State(cc, st.mem), q, size, ty)
                sel = restrict(c, st.cond)
                self.store1(st, q, size, ite(sel, v, old, ty), ty, cc)
            return
        if isinstance(p, T) and p.op == 'undef':
            self.finding('wild-pointer', st, 'store through uninitialised pointer'); return
        raise AnalysisError('store through %s at %s' % (tstr(p), self.site()))

    def memcpy(self, st, dst, src, n):
        if not isinstance(n, int):
            ls = leaves(n)
            if not ls: raise AnalysisError('memcpy with symbolic size %s at %s' % (tstr(n), self.site()))
            # conditional copies: per byte-size case
            outs = []
            for c, k in ls:
                cc = band(c, st.cond)
                if cc is FALSE: continue
                s2 = st.fork(cc); self.memcpy(s2, dst, src, k); outs.append(s2)
            m = self.merge_states(outs)
            st.mem = m.mem; st.tok = m.tok
            return
        if n == 0: return
        if isinstance(dst, PtrIte) or isinstance(src, PtrIte):
            outs = []
            for c, d in ptr_cases(dst):
                for e, s in ptr_cases(src):
                    cc = band(band(c, e), st.cond)
                    if cc is FALSE: continue
                    s2 = st.fork(cc); self.memcpy(s2, d, s, n); outs.append(s2)
            m = self.merge_states(outs)
            st.mem = m.mem; st.tok = m.tok
            return
        if not isinstance(dst, Ptr) or not isinstance(src, Ptr):
            self.finding('wild-pointer', st, 'memcpy with uninitialised pointer'); return
        if not isinstance(dst.off, int) or not isinstance(src.off, int):
            if n > 64: raise AnalysisError('memcpy with symbolic offsets at %s' % self.site())
            step = 8 if n % 8 == 0 else 4 if n % 4 == 0 else 1
            ty = {8: 'i64', 4: 'i32', 1: 'i8'}[step]
            vals = [self.load1(st, padd(src, k), step, ty) for k in range(0, n, step)]
            for k, v in zip(range(0, n, step), vals): self.store1(st, padd(dst, k), step, v, ty)
            return
        if dst.obj == 0 or src.obj == 0:
            self.finding('null-deref', st, 'memcpy through null pointer'); return
        so, do = self.objs[src.obj], self.objs[dst.obj]
        a, b = sgn(src.off & (2**64-1), 64), sgn(dst.off & (2**64-1), 64)
        som = self.getmem(st, src.obj)
        for om_, oi_, rw in ((som, so, 'read of freed '), (self.getmem(st, dst.obj), do, 'write to freed ')):
            if om_.freed is not FALSE and band(om_.freed, st.cond) is not FALSE:
                self.finding('use-after-free', st, rw + oi_.name)
        if so.size is not None and isinstance(so.size, int) and (a < 0 or a + n > so.size):
            self.finding('out-of-bounds', st, 'block read of %d bytes at %d of %s (size %s)' % (n, a, so.name, so.size)); n = max(0, min(n, so.size - a))
        if do.size is not None and isinstance(do.size, int) and (b < 0 or b + n > do.size):
            self.finding('out-of-bounds', st, 'block write of %d bytes at %d of %s (size %s)' % (n, b, do.name, do.size)); n = max(0, min(n, do.size - b))
        if n <= 0: return
        items = []
        for o, c in list(som.cells.items()):
            if o >= a and o + c[0] <= a + n: items.append((o - a, c))
            elif o < a + n and o + c[0] > a:
                for k in range(c[0]):
                    if a <= o+k < a+n: items.append((o+k-a, (1, self.byte_of(c[1], c[2], k), 'i8')))
        fills = [(max(lo, a) - a + b, min(hi, a+n) - a + b, bv) for lo, hi, bv in som.fills if lo < a+n and hi > a]
        dom = self.wmem(st, dst.obj)
        self.clear_range(dom, b, b+n, do)
        # bytes not initialised in src must become uninitialised in dst
        dom.fills = self.cut_fills(dom.fills, b, b+n) + tuple(fills)
        for o, c in items: dom.cells[b+o] = c

    def cut_fills(self, fills, lo, hi):
        out = []
        for a, b, v in fills:
            if b <= lo or a >= hi: out.append((a, b, v))
            else:
                if a < lo: out.append((a, lo, v))
                if b > hi: out.append((hi, b, v))
        return tuple(out)

    def clear_range(self, om, lo, hi, oi):
        cells = om.cells
        keys = range(lo-15, hi) if hi - lo < len(cells) + 16 else list(cells)
        for o in keys:
            c = cells.get(o)
            if c is None or o >= hi or o + c[0] <= lo: continue
            if o < lo or o + c[0] > hi:
                for k in range(c[0]):
                    if not lo <= o+k < hi: cells[o+k] = (1, self.byte_of(c[1], c[2], k), 'i8')
                if cells.get(o) is c: del cells[o]
            else: del cells[o]

    def memset(self, st, p, val, n):
        if not isinstance(n, int):
            ls = leaves(n)
            if not ls: raise AnalysisError('memset with symbolic size at %s' % self.site())
            outs = []
            for c, k in ls:
                cc = band(c, st.cond)
                if cc is FALSE: continue
                s2 = st.fork(cc); self.memset(s2, p, val, k); outs.append(s2)
            m = self.merge_states(outs); st.mem = m.mem; st.tok = m.tok
            return
        if n == 0: return
        if isinstance(p, PtrIte):
            outs = []
            for c, q in p.cases:
                cc = band(c, st.cond)
                if cc is FALSE: continue
                s2 = st.fork(cc); self.memset(s2, q, val, n); outs.append(s2)
            m = self.merge_states(outs); st.mem = m.mem; st.tok = m.tok
            return
        if not isinstance(p, Ptr): return
        oi = self.objs[p.obj]
        om = self.wmem(st, p.obj)
        a = sgn(p.off & (2**64-1), 64)
        if oi.size is not None and isinstance(oi.size, int) and (a < 0 or a + n > oi.size):
            self.finding('out-of-bounds', st, 'memset of %d bytes at %d of %s (size %s)' % (n, a, oi.name, oi.size)); n = max(0, min(n, oi.size - a))
        self.clear_range(om, a, a+n, oi)
        if isinstance(val, int):
            om.fills = self.cut_fills(om.fills, a, a+n) + ((a, a+n, val & 255),)
        else:
            for k in range(n): om.cells[a+k] = (1, val, 'i8')

    # ---- joins
    def merge_states(self, sts):
        sts = [s for s in sts if s is not None and s.cond is not FALSE]
        if not sts: return None
        r = sts[0]
        for s in sts[1:]: r = self.merge2(r, s)
        return r

    def merge2(self, s1, s2):
        cond = bor(s1.cond, s2.cond)
        sel = restrict(s1.cond, cond)
        exc = None
        if s1.exc or s2.exc: exc = join_exc((s1.exc or []) + (s2.exc or []))
        r = State(cond, {}, exc)
        r.caught = s1.caught or s2.caught if not (s1.caught and s2.caught) else join_exc(s1.caught + s2.caught)
        mem = r.mem
        m1, m2 = s1.mem, s2.mem
        for o, a in m1.items():
            b = m2.get(o)
            if b is None:
                b = self.gmem.get(o)
                if b is None: mem[o] = a; continue
            if a is b: mem[o] = a; continue
            mem[o] = self.merge_om(a, b, sel, r.tok, o)
        for o, b in m2.items():
            if o not in m1:
                a = self.gmem.get(o)
                if a is None or a is b: mem[o] = b
                else: mem[o] = self.merge_om(a, b, sel, r.tok, o)
        return r

    def merge_om(self, a, b, sel, tok, o):
        r = ObjMem(tok)
        r.freed = a.freed if a.freed is b.freed else bite(sel, a.freed, b.freed)
        ac, bc = a.cells, b.cells
        samefill = a.fills == b.fills
        rc = r.cells
        name = self.objs[o].name + '@%d' % o
        if samefill: r.fills = a.fills
        for off, c in ac.items():
            d = bc.get(off)
            if d is c: rc[off] = c; continue
            if d is not None and d[0] == c[0]:
                if d[2] == c[2]: rc[off] = (c[0], ite(sel, c[1], d[1], c[2]), c[2])
                elif isinstance(c[1], (Ptr, PtrIte)) or isinstance(d[1], (Ptr, PtrIte)):
                    rc[off] = (c[0], ite(sel, c[1], d[1], 'p'), 'p')
                else: rc[off] = (c[0], ite(sel, c[1], self.conv(d[1], d[2], c[2]), c[2]), c[2])
            else:
                rc[off] = (c[0], ite(sel, c[1], self.load_om(b, off, c[0], c[2], name), c[2]), c[2])
        for off, d in bc.items():
            if off in rc: continue
            over = False
            for k in range(off-15, off+d[0]):
                cc = rc.get(k)
                if cc is not None and k + cc[0] > off: over = True; break
            if not over:
                rc[off] = (d[0], ite(sel, self.load_om(a, off, d[0], d[2], name), d[1], d[2]), d[2])
            else:
                for k in range(d[0]):
                    cov = False
                    for q in range(off+k, off+k-16, -1):
                        cc = rc.get(q)
                        if cc is not None:
                            cov = q + cc[0] > off+k; break
                    if not cov:
                        rc[off+k] = (1, ite(sel, self.load_om(a, off+k, 1, 'i8', name), self.byte_of(d[1], d[2], k), 'i8'), 'i8')
        if not samefill:
            # materialise differing fills
            af, bf = a.fills, b.fills
            common = tuple(f for f in af if f in bf)
            rest = [f for f in af + bf if f not in common]
            r.fills = common
            for lo, hi, bv in rest:
                if hi - lo > 1 << 16: raise AnalysisError('merge of large fills')
                k = lo
                while k < hi:
                    step = 8 if k % 8 == 0 and k + 8 <= hi else 1
                    covered = any((q in rc and q + rc[q][0] > k) for q in range(k-15, k+step))
                    if not covered:
                        ty = 'i64' if step == 8 else 'i8'
                        va, vb = self.load_om(a, k, step, ty, name), self.load_om(b, k, step, ty, name)
                        rc[k] = (step, ite(sel, va, vb, ty), ty)
                        k += step
                    elif step == 8:
                        for q in range(k, k+8):
                            if not any((z in rc and z + rc[z][0] > q) for z in range(q-15, q+1)):
                                va, vb = self.load_om(a, q, 1, 'i8', name), self.load_om(b, q, 1, 'i8', name)
                                rc[q] = (1, ite(sel, va, vb, 'i8'), 'i8')
                        k += 8
                    else: k += 1
        return r

    # ---- constants
    def const(self, c):
        k = c[0]
        if k == 'i':
            v = c[2]
            if c[1] == 1: return TRUE if v else FALSE
            return v
        if k == 'f':
            if c[1] == 'f32': return bits_f32(c[2])
            return bits_f64(c[2])
        if k == 'null': return NULL
        if k == 'undef' or k == 'zero':
            return self.zero(c[1], k == 'undef')
        if k == 'g': return self.gptr(c[1])
        if k == 'fn': return Ptr('fn:' + c[1], 0)
        if k == 'gep':
            p = self.const(c[1])
            return padd(p, c[2])
        if k == 'agg':
            return tuple(self.const(x) for x in c[2])
        if k == 'str':
            return tuple(ord(x) for x in c[1])
        if k == 'ce':
            op, ty, args = c[1], c[2], c[3]
            if op in ('inttoptr', 'ptrtoint', 'bitcast', 'addrspacecast'): return self.const(args[0][0])
            vs = [self.const(a[0]) for a in args]
            if op in ('sub', 'add'): return self.binop(op, vs[0], vs[1], ty)
            if op == 'trunc':
                if isinstance(vs[0], int): return cast('trunc', vs[0], args[0][1], ty)
            raise AnalysisError('const expr %s %s' % (op, c))
        raise AnalysisError('constant %s' % (c,))

    def zero(self, ty, undef=False):
        if isinstance(ty, list):
            if ty[0] == 's': return tuple(self.zero(t, undef) for _, t in ty[2])
            return tuple(self.zero(ty[3], undef) for _ in range(ty[1]))
        if undef: return self.fresh_undef(ty, 'undef')
        if ty == 'i1': return FALSE
        if ty == 'p': return NULL
        if ty[0] == 'f': return 0.0
        return 0

    def val(self, env, x):
        if type(x) is int:
            v = env.get(x)
            if v is None:
                v = mkt('undef', 'i64', 'skipped')
            return v
        k = id(x)
        v = self.const_cache.get(k)
        if v is None:
            v = self.const(x)
            if x[0] != 'undef': self.const_cache[k] = v
        return v

    # ---- scalar ops
    def binop(self, op, a, b, ty):
        if isinstance(ty, list) and ty[0] == 'vec':
            return tuple(self.binop(op, x, y, ty[3]) for x, y in zip(a, b))
        if ty == 'i1':
            a, b = tob(a), tob(b)
            if op in ('and', 'mul'): return band(a, b)
            if op == 'or': return bor(a, b)
            if op in ('xor', 'add', 'sub'): return bxor(a, b)
            raise AnalysisError('i1 op ' + op)
        if op[0] == 'f':
            return fbin(op, a, b, ty)
        pa, pb = isinstance(a, (Ptr, PtrIte)), isinstance(b, (Ptr, PtrIte))
        if pa or pb:
            return self.ptr_arith(op, a, b, ty)
        return ibin(op, a, b, ty)

    def ptr_arith(self, op, a, b, ty):
        if isinstance(a, PtrIte) or isinstance(b, PtrIte):
            ca = a.cases if isinstance(a, PtrIte) else [(TRUE, a)]
            cb = b.cases if isinstance(b, PtrIte) else [(TRUE, b)]
            r = None
            for c, x in ca:
                for d, y in cb:
                    e = band(c, d)
                    if e is FALSE: continue
                    v = self.ptr_arith(op, x, y, ty) if isinstance(x, Ptr) or isinstance(y, Ptr) else ibin(op, x, y, ty)
                    if isinstance(v, T) and v.op == 'undef' and r is not None: continue
                    if isinstance(r, T) and r.op == 'undef': r = v; continue
                    r = v if r is None else ite(e, v, r, ty)
            return r
        if isinstance(a, Ptr) and a.obj == 0: a = a.off
        if isinstance(b, Ptr) and b.obj == 0: b = b.off
        pa, pb = isinstance(a, Ptr), isinstance(b, Ptr)
        if not pa and not pb: return ibin(op, a, b, ty)
        if op == 'sub' and pa and pb:
            if a.obj == b.obj: return ibin('sub', a.off, b.off, 'i64')
            return self.fresh_undef(ty, 'ptrdiff')
        if op == 'add' and pa != pb:
            p, k = (a, b) if pa else (b, a)
            return Ptr(p.obj, ibin('add', p.off, k, 'i64'))
        if op == 'sub' and pa: return Ptr(a.obj, ibin('sub', a.off, b, 'i64'))
        if op == 'and' and pa != pb:
            p, k = (a, b) if pa else (b, a)
            if isinstance(k, int) and isinstance(p.off, int):
                if k < 4096: return p.off & k          # objects are maximally aligned
                if k >= 2**64 - 4096: return Ptr(p.obj, p.off & k)
        if op in ('urem',) and pa and isinstance(b, int) and isinstance(a.off, int) and b & (b-1) == 0: return a.off % b
        if op in ('xor',) and pa and pb and a.obj == b.obj and same(a.off, b.off): return 0
        return mkt('ptrop', ty, op, a, b)

    def pcmp(self, pred, a, b):
        if isinstance(a, T) or isinstance(b, T):
            if isinstance(a, T) and a.op == 'undef' or isinstance(b, T) and b.op == 'undef':
                return self.fresh_undef('i1', 'pcmp')
            return atom(mkt('pcmp', 'i1', pred, a, b))
        if isinstance(a, int): a = Ptr(0, a)
        if isinstance(b, int): b = Ptr(0, b)
        r = FALSE
        for c, x in ptr_cases(a):
            for d, y in ptr_cases(b):
                e = band(c, d)
                if e is FALSE: continue
                if x.obj == y.obj:
                    if isinstance(x.off, int) and isinstance(y.off, int) and x.obj != 0 and isinstance(x.obj, int):
                        q = icmp(pred, x.off & (2**64-1), y.off & (2**64-1), 'i64') if pred in ('eq', 'ne') else icmp('s' + pred[1:], x.off & (2**64-1), y.off & (2**64-1), 'i64')
                    else: q = icmp(pred, x.off, y.off, 'i64')
                elif pred == 'eq': q = FALSE
                elif pred == 'ne': q = TRUE
                else: # unrelated objects: order by id (arbitrary but consistent)
                    kx, ky = (x.obj if isinstance(x.obj, int) else 0), (y.obj if isinstance(y.obj, int) else 0)
                    q = TRUE if {'u': kx < ky, 's': kx < ky}[pred[0]] == (pred[1:] in ('lt', 'le')) else FALSE
                r = bor(r, band(e, q))
        return r

    # ---- function evaluation
    def call(self, name, args, st):
        """Returns (normal State or None, ret value, unwind State or None)."""
        f = self.m.funcs.get(name)
        if f is None:
            a = self.m.aliases.get(name)
            if a and a[0] == 'fn': return self.call(a[1], args, st)
            raise AnalysisError('unknown function ' + name)
        self.call_count[name] = self.call_count.get(name, 0) + 1
        h = self.intercept.get(name) or self.intercept.get(f['dem'])
        if h: return self.wrap(h, args, st, f, name)
        h = self.models.get(name)
        if h is None and name.startswith('llvm.'): h = intrinsic_model(name)
        if h: return self.wrap(h, args, st, f, name)
        if f['decl']:
            h = regex_model(f['dem'])
            if h: return self.wrap(h, args, st, f, name)
            raise AnalysisError('external function without a model: %s at %s' % (f['dem'], self.site()))
        h = regex_model_defined(f['dem'])
        if h: return self.wrap(h, args, st, f, name)
        if len(self.stack) > 400: raise AnalysisError('call depth at ' + f['dem'])
        return self.run(name, args, st)

    def wrap(self, h, args, st, f, name):
        r = h(self, args, st, f, name)
        if isinstance(r, tuple) and len(r) == 3 and r[0] in ('ret', 'throw', 'both'):
            if r[0] == 'ret': return st, r[1], None
            if r[0] == 'throw':
                st.exc = [(st.cond, r[1])]
                return None, None, st
            # both: r = ('both', value, (cond, type))
            c, ty = r[2]
            tc = band(st.cond, c); nc = band(st.cond, bnot(c))
            u = None
            if tc is not FALSE:
                u = st.fork(tc); u.exc = [(tc, ty)]
            n = None
            if nc is not FALSE: n = st.fork(nc)
            return n, r[1], u
        return st, r, None

    def run(self, name, args, st0):
        F = self.m.prep(name)
        self.visited_funcs[F.dem] = self.visited_funcs.get(F.dem, 0) + 1
        env = {}
        for i, a in enumerate(args):
            if i < len(F.f['args']):
                at = F.f['args'][i]
                if len(at) > 1 and at[1][0] == 'byval':
                    o = self.new_obj(at[1][1], 'stack', 'byval', st0)
                    self.memcpy(st0, Ptr(o, 0), a, at[1][1]); a = Ptr(o, 0)
                env[i] = a
        frame = [F, (-1, 0)]
        self.stack.append(frame)
        pending = {0: [(st0, {})]}
        rets = []; unws = []; allocas = []
        ctx = (F, env, pending, rets, unws, frame, allocas)
        self.region(F.wto, ctx)
        self.stack.pop()
        rv = None; rs = None
        if rets:
            rs, rv = rets[0]
            rty = F.f['ret']
            for s, v in rets[1:]:
                sel = restrict(rs.cond, bor(rs.cond, s.cond))
                if rv is not None: rv = ite(sel, rv, v, rty)
                rs = self.merge2(rs, s)
        us = self.merge_states(unws)
        for s in (rs, us):
            if s is not None:
                for o in allocas: s.mem.pop(o, None)
        return rs, rv, us

    def region(self, part, ctx):
        F, env, pending, rets, unws, frame, allocas = ctx
        for e in part:
            if isinstance(e, int):
                if e in pending: self.block(e, ctx)
            else:
                _, head, body = e
                it = 0
                while head in pending:
                    it += 1; self.loop_unrolled += 1
                    if self.loop_cut and it > self.loop_cut:
                        c = FALSE
                        for s, _ in pending[head]: c = bor(c, s.cond)
                        if bdd_atoms(c): pending.pop(head); self.loops_cut += 1; break
                    if it > self.max_iter:
                        raise AnalysisError('loop at %s does not unroll (header block %d of %s)' % (self.site(), head, F.dem))
                    if it > 300:
                        c = FALSE
                        for s, _ in pending[head]: c = bor(c, s.cond)
                        if c is not TRUE and it > 2000 and len(bdd_atoms(c)) > it // 2:
                            raise AnalysisError('data-dependent loop at %s (%s)' % (self.site(), F.dem))
                    self.block(head, ctx)
                    self.region(body, ctx)

    def push(self, ctx, frm, to, st):
        F, env, pending, rets, unws, frame, allocas = ctx
        k = F.phis[to]
        ph = {}
        if k:
            for ins in F.blocks[to][:k]:
                for b, v in ins[5]:
                    if b == frm: ph[ins[1]] = self.val(env, v); break
        pending.setdefault(to, []).append((st, ph))

    def block(self, b, ctx):
        F, env, pending, rets, unws, frame, allocas = ctx
        lst = pending.pop(b)
        st, ph = lst[0]
        if len(lst) > 1:
            tys = {ins[1]: ins[2] for ins in F.blocks[b][:F.phis[b]]}
            ph = dict(ph)
            for s, q in lst[1:]:
                sel = restrict(st.cond, bor(st.cond, s.cond))
                for k, v in q.items(): ph[k] = ite(sel, ph[k], v, tys[k])
                st = self.merge2(st, s)
        if st.cond is FALSE: return
        env.update(ph)
        if b in F.doomed:
            self.doom(b, st, ctx); return
        self.exec_from(b, F.phis[b], st, ctx)

    def exec_from(self, b, i, st, ctx):
        F, env, pending, rets, unws, frame, allocas = ctx
        ins_list = F.blocks[b]
        n = len(ins_list)
        vs = self.visited_sites
        while i < n:
            ins = ins_list[i]
            op = ins[0]
            self.steps += 1
            if self.steps > self.budget: raise AnalysisError('budget exceeded at ' + self.site())
            frame[1] = (ins[3], ins[4])
            a = ins[5]
            if op == 'load':
                if a[2]: self.atomic = True
                env[ins[1]] = self.load(st, self.val(env, a[0]), a[1], ins[2])
                if a[2]: self.atomic = False
            elif op == 'store':
                if a[4]: self.atomic = True
                self.store(st, self.val(env, a[1]), a[3], self.val(env, a[0]), a[2])
                if a[4]: self.atomic = False
            elif op == 'getelementptr':
                env[ins[1]] = self.gep(env, a)
            elif op in BIN:
                env[ins[1]] = self.binop(op, self.val(env, a[0]), self.val(env, a[1]), ins[2])
            elif op == 'icmp' or op == 'fcmp':
                x, y = self.val(env, a[1]), self.val(env, a[2])
                env[ins[1]] = self.cmp(op, a[0], x, y, a[3])
            elif op == 'br':
                if a[0] is None: self.push(ctx, b, a[1], st)
                else:
                    c = tob(self.val(env, a[0]))
                    c1 = band(st.cond, c)
                    if COV is not None: cov_rec(self.m, F, ins, i, b, 1 if c1 is st.cond else 2 if c1 is FALSE else 3)
                    if c1 is st.cond: self.push(ctx, b, a[1], st)
                    elif c1 is FALSE: self.push(ctx, b, a[2], st)
                    else:
                        if a[1] == a[2]: self.push(ctx, b, a[1], st)
                        else:
                            s1 = st.fork(c1)
                            st.cond = band(st.cond, bnot(c))
                            self.push(ctx, b, a[1], s1); self.push(ctx, b, a[2], st)
                return
            elif op == 'call' or op == 'invoke':
                normal, rv, unw = self.docall(env, a, st)
                if unw is not None and unw.cond is not FALSE:
                    if op == 'invoke': self.push(ctx, b, a[2][1], unw)
                    else: unws.append(unw)
                if normal is None or normal.cond is FALSE: return
                st = normal
                if ins[1] >= 0:
                    env[ins[1]] = rv if rv is not None else self.zero(ins[2], True)
                if op == 'invoke':
                    self.push(ctx, b, a[2][0], st); return
            elif op == 'select':
                c = self.val(env, a[0])
                if COV is not None and not isinstance(c, tuple):
                    c1 = band(st.cond, tob(c)); cov_rec(self.m, F, ins, i, b, 1 if c1 is st.cond else 2 if c1 is FALSE else 3)
                if isinstance(c, tuple):
                    x, y = self.val(env, a[1]), self.val(env, a[2])
                    env[ins[1]] = tuple(ite(tob(ci), xi, yi, ins[2][3]) for ci, xi, yi in zip(c, x, y))
                else:
                    env[ins[1]] = ite(restrict(tob(c), st.cond) if not isinstance(c, B) else c, self.val(env, a[1]), self.val(env, a[2]), ins[2])
            elif op in CASTS:
                env[ins[1]] = self.cast(op, self.val(env, a[0]), a[1], ins[2])
            elif op == 'ret':
                rets.append((st, self.val(env, a[0]) if a else None)); return
            elif op == 'alloca':
                k = self.val(env, a[0])
                o = self.new_obj(k*a[1] if isinstance(k, int) else None, 'stack', 'local of ' + F.dem.split('(')[0], st)
                allocas.append(o)
                env[ins[1]] = Ptr(o, 0)
            elif op == 'fneg':
                v = self.val(env, a[0])
                env[ins[1]] = tuple(fneg(x, ins[2][3]) for x in v) if isinstance(v, tuple) else fneg(v, ins[2])
            elif op == 'extractvalue':
                v = self.val(env, a[0])
                for k in a[1]: v = v[k] if isinstance(v, tuple) else self.fresh_undef(ins[2])
                env[ins[1]] = v
            elif op == 'insertvalue':
                env[ins[1]] = insv(self.val(env, a[0]), self.val(env, a[1]), a[2])
            elif op == 'extractelement':
                v = self.val(env, a[0]); k = self.val(env, a[1])
                env[ins[1]] = v[k]
            elif op == 'insertelement':
                v = list(self.val(env, a[0])); v[self.val(env, a[2])] = self.val(env, a[1])
                env[ins[1]] = tuple(v)
            elif op == 'shufflevector':
                x, y = self.val(env, a[0]), self.val(env, a[1])
                z = x + y
                env[ins[1]] = tuple(z[k] if k >= 0 else self.fresh_undef('i64') for k in a[2])
            elif op == 'switch':
                v = self.val(env, a[0]); ty = a[3]
                rest = st.cond
                tgt = {}
                for cv, t in a[2]:
                    q = icmp('eq', v, cv[2], ty) if ty != 'i1' else (tob(v) if cv[2] else bnot(tob(v)))
                    c = band(rest, q)
                    if c is not FALSE:
                        tgt[t] = bor(tgt.get(t, FALSE), c)
                        rest = band(rest, bnot(q))
                if rest is not FALSE: tgt[a[1]] = bor(tgt.get(a[1], FALSE), rest)
                for t, c in tgt.items(): self.push(ctx, b, t, st.fork(c))
                return
            elif op == 'unreachable':
                return
            elif op == 'landingpad':
                r = self.landing(st, a)
                if r[1] is not None: unws.append(r[1])
                if r[0] is None: return
                st = r[0]; env[ins[1]] = r[2]
            elif op == 'resume':
                unws.append(st); return
            elif op == 'freeze':
                env[ins[1]] = self.val(env, a[0])
            elif op == 'atomicrmw':
                p = self.val(env, a[1]); v = self.val(env, a[2])
                self.atomic = True
                old = self.load(st, p, sizeof(ins[2]), ins[2])
                nv = {'add': lambda: self.binop('add', old, v, ins[2]), 'sub': lambda: self.binop('sub', old, v, ins[2]), 'xchg': lambda: v}[a[0]]()
                self.store(st, p, sizeof(ins[2]), nv, ins[2])
                self.atomic = False
                env[ins[1]] = old
            elif op == 'fence': pass
            elif op == 'phi':
                pass
            else:
                raise AnalysisError('instruction %s at %s' % (op, self.site()))
            i += 1

    def gep(self, env, a):
        p = self.val(env, a[1])
        off = a[2] & (2**64-1)
        for v, sc, ty in a[3]:
            x = self.val(env, v)
            if isinstance(x, B): x = fromb(x, 'i64')
            elif ty != 'i64': x = cast('sext', x, ty, 'i64')
            if isinstance(x, (Ptr, PtrIte)):
                x = self.ptr_arith('sub', x, Ptr(0, 0), 'i64') if not isinstance(x, Ptr) or x.obj == 0 else x
            off = self.binop('add', off, self.binop('mul', x, sc & (2**64-1), 'i64'), 'i64')
        return padd(p, off)

    def cmp(self, op, pred, x, y, ty):
        if isinstance(ty, list): return tuple(self.cmp(op, pred, p, q, ty[3]) for p, q in zip(x, y))
        if op == 'fcmp': return fcmp(pred, x, y, ty)
        if ty == 'p' or isinstance(x, (Ptr, PtrIte)) or isinstance(y, (Ptr, PtrIte)): return self.pcmp(pred, x, y)
        if ty == 'i1':
            x, y = tob(x), tob(y)
            if pred == 'eq': return bnot(bxor(x, y))
            if pred == 'ne': return bxor(x, y)
            if pred == 'ult': return band(bnot(x), y)
            if pred == 'ugt': return band(x, bnot(y))
            raise AnalysisError('i1 cmp')
        return icmp(pred, x, y, ty)

    def cast(self, op, v, sty, dty):
        if isinstance(dty, list) and dty[0] == 'vec' and isinstance(sty, list):
            if op == 'bitcast':
                om = ObjMem(None)
                for i, x in enumerate(v): om.cells[i*sty[2]] = (sty[2], x, sty[3])
                return tuple(self.load_om(om, i*dty[2], dty[2], dty[3], 'bitcast') for i in range(dty[1]))
            return tuple(self.cast(op, x, sty[3], dty[3]) for x in v)
        if op == 'bitcast' and (isinstance(dty, list) or isinstance(sty, list)):
            # scalar<->vector through bytes
            om = ObjMem(None)
            if isinstance(sty, list):
                for i, x in enumerate(v): om.cells[i*sty[2]] = (sty[2], x, sty[3])
                return self.load_om(om, 0, sizeof(dty), dty, 'bitcast')
            om.cells[0] = (sizeof(sty), v, sty)
            return tuple(self.load_om(om, i*dty[2], dty[2], dty[3], 'bitcast') for i in range(dty[1]))
        if op in ('ptrtoint', 'inttoptr', 'addrspacecast') or op == 'bitcast' and dty == 'p':
            if op == 'inttoptr' and isinstance(v, int): return NULL if v == 0 else Ptr(0, v)
            return v
        if isinstance(v, (Ptr, PtrIte)):
            if isinstance(v, Ptr) and v.obj == 0: return cast(op, v.off, sty, dty)
            return mkt('ptrcast', dty, op, v) if dty != 'i1' else self.fresh_undef('i1')
        return cast(op, v, sty, dty)

    def docall(self, env, a, st):
        callee = a[0]
        args = [self.val(env, x[0]) for x in a[1]]
        if type(callee) is list and callee[0] == 'fn':
            return self.call(callee[1], args, st)
        if type(callee) is list and callee[0] == 'asm': return st, None, None
        p = self.val(env, callee)
        if isinstance(p, Ptr):
            if isinstance(p.obj, str) and p.obj.startswith('fn:'): return self.call(p.obj[3:], args, st)
            raise AnalysisError('indirect call through %s at %s' % (p, self.site()))
        if isinstance(p, PtrIte):
            ns = []; us = []; rv = None; rc = None
            for c, q in p.cases:
                cc = band(c, st.cond)
                if cc is FALSE: continue
                if not (isinstance(q.obj, str) and q.obj.startswith('fn:')):
                    self.finding('bad-call', State(cc, st.mem), 'indirect call through non-function'); continue
                n, v, u = self.call(q.obj[3:], args, st.fork(cc))
                if u is not None: us.append(u)
                if n is not None:
                    if ns and v is not None: rv = ite(restrict(rc, bor(rc, n.cond)), rv, v, None)
                    elif not ns: rv = v
                    rc = n.cond if rc is None else bor(rc, n.cond)
                    ns.append(n)
            return self.merge_states(ns), rv, self.merge_states(us)
        raise AnalysisError('indirect call at ' + self.site())

    # ---- exceptions
    def doom(self, b, st, ctx):
        """All normal continuations of block b end in a throw/abort: skip message building,
        find the throw and unwind."""
        F, env, pending, rets, unws, frame, allocas = ctx
        seen = set(); q = [b]
        cands = []
        while q:
            x = q.pop(0)
            if x in seen: continue
            seen.add(x)
            for ins in F.blocks[x]:
                if ins[0] in ('call', 'invoke'):
                    a = ins[5]
                    nm = a[0][1] if type(a[0]) is list and a[0][0] == 'fn' else None
                    if nm == '__cxa_throw':
                        ti = a[1][1][0]
                        cands.append((x, ins, ti[1] if ti[0] == 'g' else '?'))
                    elif nm == '__cxa_rethrow': cands.append((x, ins, 'rethrow'))
                    elif nm and nm.startswith('_ZSt') and 'throw' in nm: cands.append((x, ins, std_throw_type(nm)))
                    elif nm in ('abort', '__assert_fail', '_ZSt9terminatev', '__clang_call_terminate', 'exit', '_ZSt21__glibcxx_assert_failPKciS0_S0_'): cands.append((x, ins, 'abort'))
                    elif nm and not nm.startswith('llvm.') and a[3] and not nm.startswith('__cxa'):
                        cands.append((x, ins, 'call:' + nm))
            q.extend(F.nsucc[x])
        if not cands:
            self.events.append(('unreachable', st.cond, self.site()))
            return
        x, ins, ty = cands[0]
        frame[1] = (ins[3], ins[4])
        if ty == 'abort':
            self.obs.append(('abort', -1, st.cond, (), self.site())); return
        if ty.startswith('call:'):
            n, v, u = self.call(ty[5:], [mkt('undef', 'i64', 'skipped')]*len(ins[5][1]), st)
            if u is None: return
            st = u
        elif ty == 'rethrow':
            if not st.exc: st.exc = [(st.cond, '?')]
        else:
            st.exc = [(st.cond, ty)]
        self.events.append(('throw', st.cond, ty, self.site()))
        if ins[0] == 'invoke': self.push(ctx, x, ins[5][2][1], st)
        else: unws.append(st)

    def base_of(self, ti):
        if ti in STD_BASES: return STD_BASES[ti]
        g = self.m.globals.get(ti)
        if g and g['init'] and g['init'][0] == 'agg' and len(g['init'][2]) >= 3:
            x = g['init'][2][2]
            if x[0] == 'g': return x[1]
        return None

    def isa(self, ti, base):
        while ti:
            if ti == base: return True
            ti = self.base_of(ti)
        return False

    def typeid(self, name):
        return self.typeids.setdefault(name, len(self.typeids) + 1)

    def landing(self, st, a):
        cleanup, clauses = a
        inn = FALSE; sel = 0; out = FALSE
        exc_in = []
        for c, ti in (st.exc or [(st.cond, '?')]):
            k = None
            for is_catch, cl in clauses:
                if is_catch:
                    if cl[0] == 'null' or (cl[0] == 'g' and (ti == '?' or self.isa(ti, cl[1]))):
                        k = self.typeid('null' if cl[0] == 'null' else cl[1]); break
                else:
                    k = -1 & 0xffffffff; break   # filter: treat as terminate path
            c = band(c, st.cond)
            if c is FALSE: continue
            if k is None and cleanup: k = 0
            if k is None: out = bor(out, c); continue
            sel = k if inn is FALSE else ite(restrict(c, bor(c, inn)), k, sel, 'i32')
            inn = bor(inn, c); exc_in.append((c, ti))
        us = None
        if out is not FALSE:
            us = st.fork(out); us.exc = [(c, t) for c, t in st.exc if band(c, out) is not FALSE]
        if inn is FALSE: return None, us, None
        s = st.fork(inn) if out is not FALSE else st
        s.cond = inn; s.exc = exc_in
        return s, us, (Ptr(self.exc_obj(s), 0), sel)

    def exc_obj(self, st):
        return self.new_obj(None, 'exc', 'exception object', st)

    # ---- entry
    def analyse(self, entry, ctors=False):
        if self.gmem is None: self.gmem = {}
        st = State(TRUE, {})
        if ctors:
            for g, d in self.m.globals.items():
                if g == 'llvm.global_ctors' and d['init'] and d['init'][0] == 'agg':
                    for x in d['init'][2]:
                        fn = x[2][1][1]
                        snap = st.fork(TRUE)
                        try:
                            n, _, u = self.run(fn, [], st)
                            st = n if n is not None else snap
                        except AnalysisError as e:
                            self.events.append(('ctor-skipped', TRUE, fn, str(e)))
                            self.stack.clear(); st = snap
        if self.havoc: self.havoc(self, st)
        self.first_obj = self.next_obj         # objects of static initialisers live as long as the program
        return self.run(entry, [], st)

    havoc = None; loop_cut = None; loops_cut = 0; atomic = False

def join_exc(l):
    d = {}
    for c, t in l: d[t] = bor(d[t], c) if t in d else c
    return [(c, t) for t, c in d.items()]

def insv(agg, v, idx):
    l = list(agg)
    if len(idx) == 1: l[idx[0]] = v
    else: l[idx[0]] = insv(l[idx[0]], v, idx[1:])
    return tuple(l)

def padd(p, off):
    if isinstance(off, int) and off == 0: return p
    if isinstance(p, Ptr):
        if isinstance(p.off, int) and isinstance(off, int):
            return Ptr(p.obj, (p.off + off) & (2**64-1))
        return Ptr(p.obj, ibin('add', p.off, off & (2**64-1) if isinstance(off, int) else off, 'i64'))
    if isinstance(p, PtrIte):
        return PtrIte([(c, padd(q, off)) for c, q in p.cases])
    if isinstance(p, int): return ibin('add', p, off, 'i64')
    return p

BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'zext', 'sext', 'trunc', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'bitcast',
         'ptrtoint', 'inttoptr', 'addrspacecast'}

def std_throw_type(nm):
    for k, t in (('out_of_range', '_ZTISt12out_of_range'), ('length_error', '_ZTISt12length_error'), ('logic_error', '_ZTISt11logic_error'),
                 ('bad_alloc', '_ZTISt9bad_alloc'), ('bad_cast', '_ZTISt8bad_cast'), ('invalid_argument', '_ZTISt16invalid_argument'),
                 ('bad_array_new', '_ZTISt20bad_array_new_length')):
        if k in nm: return t
    return '_ZTISt9exception'

# ------------------------------------------------------------------ models of external functions
def _ret(v): return ('ret', v, None)

def m_new(A, args, st, f, name):
    n = args[0]
    if not isinstance(n, int):
        ls = leaves(n)
        if ls:
            n2 = max(k for _, k in ls if band(_, st.cond) is not FALSE)   # size in the largest case; bounds below use it
            if len([1 for c, k in ls if band(c, st.cond) is not FALSE]) > 1: A.events.append(('symalloc', st.cond, tstr(n), A.site()))
            n = n2
        else: raise AnalysisError('allocation of symbolic size %s at %s' % (tstr(n), A.site()))
    if n > (1 << 31): return ('throw', '_ZTISt9bad_alloc', None)
    kind = {'malloc': 'malloc', 'fftw_malloc': 'fftw', 'fftwf_malloc': 'fftw', '_Znam': 'new[]', '_Znwm': 'new', 'calloc': 'malloc'}.get(name, 'new')
    o = A.new_obj(n, kind, '%s(%d)' % (kind, n), st)
    return _ret(Ptr(o, 0))

def m_calloc(A, args, st, f, name):
    o = A.new_obj(args[0]*args[1], 'malloc', 'calloc', st)
    A.memset(st, Ptr(o, 0), 0, args[0]*args[1])
    return _ret(Ptr(o, 0))

FREE_OF = {'free': 'malloc', 'fftw_free': 'fftw', 'fftwf_free': 'fftw', '_ZdlPv': 'new', '_ZdlPvm': 'new', '_ZdaPv': 'new[]', '_ZdaPvm': 'new[]'}
def m_free(A, args, st, f, name):
    p = args[0]
    if isinstance(p, T):
        return _ret(None)
    for c, q in ptr_cases(p):
        c = band(c, st.cond)
        if q.obj == 0 or c is FALSE: continue
        oi = A.objs.get(q.obj)
        s2 = State(c, st.mem)
        if oi is None: continue
        want = FREE_OF.get(name, 'new')
        if oi.kind not in ('malloc', 'fftw', 'new', 'new[]'):
            A.finding('bad-free', s2, '%s of non-heap %s' % (name, oi.name)); continue
        if oi.kind != want: A.finding('mismatched-free', s2, '%s object released with %s' % (oi.kind, name))
        if not (isinstance(q.off, int) and q.off == 0): A.finding('bad-free', s2, 'free of interior pointer')
        om = A.wmem(st, q.obj)
        if band(om.freed, c) is not FALSE: A.finding('double-free', s2, 'second release of %s allocated at %s' % (oi.name, oi.site))
        om.freed = bor(om.freed, c)
    return _ret(None)

def m_nop(A, args, st, f, name): return _ret(None)
def m_zero(A, args, st, f, name): return _ret(0)
def m_memcpy(A, args, st, f, name):
    A.memcpy(st, args[0], args[1], args[2]); return _ret(args[0])
def m_memset(A, args, st, f, name):
    A.memset(st, args[0], args[1], args[2]); return _ret(args[0])

def bytes_at(A, st, p, n):
    return [A.load(st, padd(p, k), 1, 'i8') for k in range(n)]

def m_strlen(A, args, st, f, name):
    p = args[0]; n = 0
    if isinstance(p, PtrIte):
        r = None
        for c, q in p.cases:
            v = m_strlen(A, [q], st, f, name)[1]
            r = v if r is None else ite(c, v, r, 'i64')
        return _ret(r)
    while True:
        b = A.load(st, padd(p, n), 1, 'i8')
        if not isinstance(b, int): raise AnalysisError('strlen of symbolic string at ' + A.site())
        if b == 0: return _ret(n)
        n += 1
        if n > 100000: raise AnalysisError('strlen')

def m_memcmp(A, args, st, f, name):
    n = args[2]
    if not isinstance(n, int):
        ls = leaves(n)
        if not ls: raise AnalysisError('memcmp size at ' + A.site())
        r = None
        for c, k in ls:
            if band(c, st.cond) is FALSE: continue
            v = m_memcmp(A, [args[0], args[1], k], State(band(st.cond, c), st.mem), f, name)[1]
            r = v if r is None else ite(c, v, r, 'i32')
        return _ret(r)
    r = 0
    xs = bytes_at(A, st, args[0], n); ys = bytes_at(A, st, args[1], n)
    for x, y in reversed(list(zip(xs, ys))):
        r = ite(icmp('eq', x, y, 'i8'), r, ite(icmp('ult', x, y, 'i8'), 0xffffffff, 1, 'i32'), 'i32')
    return _ret(r)

def m_strcmp(A, args, st, f, name):
    p, q = args[0], args[1]; lim = args[2] if name == 'strncmp' else 100000
    xs = []
    for n in range(lim):
        x = A.load(st, padd(p, n), 1, 'i8'); y = A.load(st, padd(q, n), 1, 'i8')
        xs.append((x, y))
        if x == 0 or y == 0 or (isinstance(x, int) and isinstance(y, int) and x != y): break
        if isinstance(x, int) or isinstance(y, int): continue
        if n > 4096: raise AnalysisError('strcmp of symbolic strings at ' + A.site())
    r = 0
    for x, y in reversed(xs):
        r = ite(icmp('eq', x, y, 'i8'), r, ite(icmp('ult', x, y, 'i8'), 0xffffffff, 1, 'i32'), 'i32')
    return _ret(r)

def m_memchr(A, args, st, f, name):
    p, ch, n = args
    if not isinstance(n, int): raise AnalysisError('memchr size')
    ch8 = cast('trunc', ch, 'i32', 'i8') if not isinstance(ch, int) else ch & 255
    r = NULL
    for k in reversed(range(n)):
        b = A.load(st, padd(p, k), 1, 'i8')
        r = ite(icmp('eq', b, ch8, 'i8'), padd(p, k), r, 'p')
    return _ret(r)

def m_throw(A, args, st, f, name):
    return ('throw', '?', None)

def m_math(fn, ty):
    def h(A, args, st, f, name):
        return _ret(mfun(fn, tuple(args), ty))
    return h

def m_dynamic_cast(A, args, st, f, name):     # along single inheritance: the object itself, or null
    p, want = args[0], args[2]
    if not isinstance(want, Ptr): raise AnalysisError('dynamic_cast to an unknown type at %s' % A.site())
    want = A.objs[want.obj].name; res = []
    for c, q in ptr_cases(p):
        c = band(c, st.cond)
        if c is FALSE: continue
        if q.obj == 0: res.append((c, q)); continue
        vp = A.load(State(c, st.mem), q, 8, 'ptr')
        for d, v in ptr_cases(vp):
            d = band(c, d)
            if d is FALSE: continue
            nm = A.objs[v.obj].name if v.obj else ''
            if not nm.startswith('_ZTV'): raise AnalysisError('dynamic_cast of an object without a known class at %s' % A.site())
            res.append((d, q if A.isa('_ZTI' + nm[4:], want) else NULL))
    if not res: return _ret(NULL)
    r = res[0][1]
    for c, q in res[1:]: r = ite(c, q, r, 'ptr')
    return _ret(r)
def m_bad_cast(A, args, st, f, name): return ('throw', '_ZTISt8bad_cast', None)

def m_begin_catch(A, args, st, f, name):
    st.caught = st.exc; st.exc = None
    return _ret(args[0])
def m_rethrow(A, args, st, f, name):
    e = st.caught or st.exc or [(st.cond, '?')]
    return ('throw', e[0][1], None)

def m_guard(A, args, st, f, name):
    b = A.load(st, args[0], 1, 'i8')
    if isinstance(b, int): return _ret(0 if b else 1)
    return _ret(ite(icmp('eq', b, 0, 'i8'), 1, 0, 'i32'))
def m_guard_rel(A, args, st, f, name):
    A.store(st, args[0], 1, 1, 'i8'); return _ret(None)

def m_toupper(lo, hi, d):
    def h(A, args, st, f, name):
        v = args[0]
        if isinstance(v, int): return _ret((v + d) & 0xffffffff if lo <= v <= hi else v)
        c = band(bnot(icmp('slt', v, lo, 'i32')), bnot(icmp('slt', hi, v, 'i32')))
        return _ret(ite(c, ibin('add', v, d & 0xffffffff, 'i32'), v, 'i32'))
    return h

def m_abs(w):
    def h(A, args, st, f, name):
        v = args[0]; ty = 'i%d' % w
        return _ret(ite(icmp('slt', v, 0, ty), ibin('sub', 0, v, ty), v, ty))
    return h

# harness interface ---------------------------------------------------------------
def cstr(A, st, p):
    s = ''
    n = 0
    while True:
        b = A.load(st, padd(p, n), 1, 'i8')
        if b == 0: return s
        s += chr(b); n += 1

def m_vp_real(A, args, st, f, name):
    n = cstr(A, st, args[0]); A.vars[n] = ('f64', args[1], args[2]); return _ret(mkt('var', 'f64', n, args[1], args[2]))
class Wide(tuple):
    pref = None
def m_vp_wide(A, args, st, f, name):
    """a real input of any magnitude (sampled mostly in [lo, hi]); the sign range of [lo, hi] is kept"""
    n = cstr(A, st, args[0]); lo, hi = args[1], args[2]
    v = Wide(('f64', lo / 1000 if lo > 0 else lo * 1000, hi * 1000 if hi > 0 else hi / 1000)); v.pref = (lo, hi)
    A.vars[n] = v; return _ret(mkt('var', 'f64', n, v[1], v[2]))
def m_vp_float(A, args, st, f, name):
    n = cstr(A, st, args[0]); A.vars[n] = ('f32', args[1], args[2]); return _ret(mkt('var', 'f32', n, args[1], args[2]))
def m_vp_int(w):
    def h(A, args, st, f, name):
        n = cstr(A, st, args[0]); A.vars[n] = ('i%d' % w, sgn(args[1], 64), sgn(args[2], 64)); return _ret(mkt('var', 'i%d' % w, n, sgn(args[1], 64), sgn(args[2], 64)))
    return h
def m_vp_eq(kind):
    def h(A, args, st, f, name):
        A.obs.append((kind, cstr(A, st, args[0]) + (':%d' % sgn(args[1], 64) if isinstance(args[1], int) else ''), st.cond, (args[2], args[3]), A.site()))
        return _ret(None)
    return h
def m_vp_true(A, args, st, f, name):
    v = args[2]
    A.obs.append(('true', cstr(A, st, args[0]) + (':%d' % sgn(args[1], 64) if isinstance(args[1], int) else ''), st.cond, (v if isinstance(v, B) else (TRUE if v else FALSE) if isinstance(v, int) else bnot(icmp('eq', v, 0, 'i32')),), A.site()))
    return _ret(None)
def m_vp_assume(A, args, st, f, name):
    v = args[0]
    b = v if isinstance(v, B) else bnot(icmp('eq', v, 0, 'i32'))
    st.cond = band(st.cond, b)
    A.assumes.append(b)
    if st.cond is FALSE: return ('throw', 'assume-false', None)
    return _ret(None)
def m_vp_out(A, args, st, f, name):
    A.outs.append((cstr(A, st, args[0]), sgn(args[1], 64), args[2], st.cond, A.site())); return _ret(None)
def m_vp_fn(A, args, st, f, name):
    n = cstr(A, st, args[0])
    return _ret(mkt('uf', 'f64', n, *args[1:]))
def m_vp_note(A, args, st, f, name):
    A.obs.append(('note', cstr(A, st, args[0]), st.cond, tuple(args[1:]), A.site())); return _ret(None)

def m_havoc(A, args, st, f, name):
    p, n = args
    om = A.wmem(st, p.obj)
    A.clear_range(om, p.off, p.off + n, A.objs[p.obj])
    for off in range(0, n, 8):
        nm = 'old:%s+%d' % (A.objs[p.obj].name, off)
        om.cells[p.off + off] = (8, mkt('var', 'i64', nm, 0, 2**62), 'i64'); A.vars[nm] = ('i64', 0, 2**62)
    return _ret(None)
def m_no_binding(A, args, st, f, name):
    A.finding('missing-binding', st, 'no binding %s.%s accepts the documented arguments' % (cstr(A, st, args[0]), cstr(A, st, args[1])))
    return ('throw', '_ZTISt11logic_error', None)

MODELS = {
    '__dynamic_cast': m_dynamic_cast, '__cxa_bad_cast': m_bad_cast,
    '_Znwm': m_new, '_Znam': m_new, 'malloc': m_new, 'fftw_malloc': m_new, 'calloc': m_calloc,
    '_ZdlPv': m_free, '_ZdlPvm': m_free, '_ZdaPv': m_free, '_ZdaPvm': m_free, 'free': m_free, 'fftw_free': m_free,
    '__cxa_allocate_exception': lambda A, a, st, f, n: _ret(Ptr(A.new_obj(None, 'exc', 'exception', st), 0)),
    '__cxa_free_exception': m_nop, '__cxa_begin_catch': m_begin_catch, '__cxa_end_catch': m_nop, '__cxa_get_exception_ptr': lambda A, a, st, f, n: _ret(a[0]),
    '__cxa_rethrow': m_rethrow, '__cxa_atexit': m_zero, '__cxa_thread_atexit': m_zero, '__cxa_guard_acquire': m_guard, '__cxa_guard_release': m_guard_rel, '__cxa_guard_abort': m_nop,
    'memcmp': m_memcmp, 'bcmp': m_memcmp, 'strlen': m_strlen, 'memchr': m_memchr, 'strcmp': m_strcmp, 'strncmp': m_strcmp, 'memcpy': m_memcpy, 'memmove': m_memcpy, 'memset': m_memset,
    'toupper': m_toupper(97, 122, -32), 'tolower': m_toupper(65, 90, 32),
    'abs': m_abs(32), 'labs': m_abs(64), 'llabs': m_abs(64),
    'vp_real': m_vp_real, 'vp_wide': m_vp_wide, 'vp_float': m_vp_float, 'vp_i32': m_vp_int(32), 'vp_i64': m_vp_int(64), 'vp_i16': m_vp_int(16), 'vp_i8': m_vp_int(8),
    'vp_eq_f64': m_vp_eq('f64'), 'vp_eq_f32': m_vp_eq('f32'), 'vp_eq_i64': m_vp_eq('i64'), 'vp_eq_ptr': m_vp_eq('ptr'), 'vp_true': m_vp_true, 'vp_assume': m_vp_assume,
    'vp_out_f64': m_vp_out, 'vp_out_i64': m_vp_out, 'vp_fn1': m_vp_fn, 'vp_fn2': m_vp_fn, 'vp_fn3': m_vp_fn, 'vp_note': m_vp_note,
    'vp_gil_release': m_nop, 'vp_gil_acquire': m_nop, 'vp_py_api': m_nop, 'vp_phase': m_nop, 'vp_no_binding': m_no_binding, 'vp_havoc': m_havoc,
    '_ZNSt9exceptionD2Ev': m_nop, '_ZNSt9exceptionD1Ev': m_nop, '_ZNSt8ios_base4InitC1Ev': m_nop, '_ZNSt8ios_base4InitD1Ev': m_nop,
}
for _n in list(FUN1) + list(FUN2):
    MODELS[_n] = m_math(_n, 'f64'); MODELS[_n + 'f'] = m_math(_n, 'f32')

def m_ldexp(ty):
    def h(A, args, st, f, name):
        x, n = args
        if isinstance(n, int):
            n = sgn(n, 32)
            if isinstance(x, float): return _ret(math.ldexp(x, n))
            return _ret(fbin('fmul', x, math.ldexp(1.0, n), ty))
        return _ret(fbin('fmul', x, mfun('pow', (2.0, cast('sitofp', n, 'i32', ty)), ty), ty))
    return h
MODELS['ldexp'] = m_ldexp('f64'); MODELS['ldexpf'] = m_ldexp('f32')

# ---- odds and ends of libc / libstdc++ that ordinary code may use
def m_lround(A, args, st, f, name):
    k = 'rint' if 'rint' in name else 'round'
    x = args[0]; ty = 'f32' if name.endswith('f') else 'f64'
    return _ret(cast('fptosi', mfun(k, (x,), ty), ty, 'i64'))
for _n in ('lround', 'llround', 'lrint', 'llrint', 'lroundf', 'llroundf', 'lrintf', 'llrintf'): MODELS[_n] = m_lround
MODELS['fma'] = lambda A, a, st, f, n: _ret(fbin('fadd', fbin('fmul', a[0], a[1], 'f64'), a[2], 'f64'))
MODELS['fmaf'] = lambda A, a, st, f, n: _ret(fbin('fadd', fbin('fmul', a[0], a[1], 'f32'), a[2], 'f32'))
MODELS['fdim'] = lambda A, a, st, f, n: _ret(ite(fcmp('ogt', a[0], a[1], 'f64'), fbin('fsub', a[0], a[1], 'f64'), 0.0, 'f64'))
MODELS['remainder'] = lambda A, a, st, f, n: _ret(fbin('fsub', a[0], fbin('fmul', mfun('rint', (fbin('fdiv', a[0], a[1], 'f64'),), 'f64'), a[1], 'f64'), 'f64'))
def m_modf(ty):
    def h(A, args, st, f, name):
        t = mfun('trunc', (args[0],), ty); A.store(st, args[1], 8 if ty == 'f64' else 4, t, ty)
        return _ret(fbin('fsub', args[0], t, ty))
    return h
MODELS['modf'] = m_modf('f64'); MODELS['modff'] = m_modf('f32')
for _n in ('pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_trylock', 'pthread_mutex_init', 'pthread_mutex_destroy', 'pthread_rwlock_rdlock', 'pthread_rwlock_wrlock', 'pthread_rwlock_unlock', 'sched_yield'):
    MODELS[_n] = m_zero
MODELS['_ZnwmRKSt9nothrow_t'] = MODELS['_ZnamRKSt9nothrow_t'] = MODELS['_ZnwmSt11align_val_t'] = MODELS['_ZnamSt11align_val_t'] = lambda A, a, st, f, n: m_new(A, a[:1], st, f, n)
for _n in ('_ZdlPvRKSt9nothrow_t', '_ZdaPvRKSt9nothrow_t', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t', '_ZdaPvSt11align_val_t'): MODELS[_n] = lambda A, a, st, f, n: m_free(A, a[:1], st, f, n)
MODELS['getenv'] = MODELS['secure_getenv'] = lambda A, a, st, f, n: _ret(NULL)
def m_now(A, args, st, f, name):
    A.clock_n = getattr(A, 'clock_n', 0) + 1
    return _ret(mkt('clock', 'i64', 'now%d' % A.clock_n))
MODELS['_ZNSt6chrono3_V212steady_clock3nowEv'] = MODELS['_ZNSt6chrono3_V212system_clock3nowEv'] = m_now
def m_snprintf(A, args, st, f, name):     # formatted text is not modelled: an empty string
    if isinstance(args[0], Ptr) and args[0].obj: A.store(st, args[0], 1, 0, 'i8')
    return _ret(0)
MODELS['snprintf'] = MODELS['sprintf'] = MODELS['vsnprintf'] = m_snprintf
for _n in ('printf', 'fprintf', 'puts', 'putchar', 'fputs', 'fflush', 'fwrite', 'perror'): MODELS[_n] = m_zero

_intr_cache = {}
def intrinsic_model(name):
    h = _intr_cache.get(name)
    if h is None:
        h = _mk_intrinsic(name); _intr_cache[name] = h
    return h

def _mk_intrinsic(name):
    p = name.split('.')
    k = p[1]
    ty = p[-1] if p[-1] in ('f64', 'f32', 'i8', 'i16', 'i32', 'i64', 'i1') else None
    if k in ('lifetime', 'dbg', 'assume', 'invariant', 'experimental', 'prefetch', 'donothing', 'stacksave', 'stackrestore', 'var', 'sideeffect'):
        return m_nop
    if k == 'memcpy' or k == 'memmove': return m_memcpy
    if k == 'memset': return m_memset
    if k in FUN1 or k in FUN2:
        if ty in ('f64', 'f32'): return m_math(k, ty)
    if k == 'minnum' or k == 'minimum':
        return lambda A, a, st, f, n: _ret(ite(fcmp('olt', a[0], a[1], ty), a[0], a[1], ty))
    if k == 'maxnum' or k == 'maximum':
        return lambda A, a, st, f, n: _ret(ite(fcmp('ogt', a[0], a[1], ty), a[0], a[1], ty))
    if k == 'fmuladd' or k == 'fma': return lambda A, a, st, f, n: _ret(fbin('fadd', fbin('fmul', a[0], a[1], ty), a[2], ty))
    if k in ('umax', 'umin', 'smax', 'smin'):
        pr = {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[k]
        return lambda A, a, st, f, n: _ret(ite(A.cmp('icmp', pr, a[0], a[1], ty), a[0], a[1], ty))
    if k == 'abs': return lambda A, a, st, f, n: _ret(ite(icmp('slt', a[0], 0, ty), ibin('sub', 0, a[0], ty), a[0], ty))
    if k == 'bswap':
        w = int(ty[1:]) // 8
        def bs(A, a, st, f, n):
            b = [A.byte_of(a[0], ty, i) for i in range(w)]
            return _ret(A.from_bytes(b[::-1], ty))
        return bs
    if k == 'powi': return lambda A, a, st, f, n: _ret(mfun('pow', (a[0], cast('sitofp', a[1], 'i32', 'f64')), p[2]))
    if k in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul') and len(p) > 3 and p[2] == 'with':
        op = k[1:]
        def ov(A, a, st, f, n):
            x, y = a
            r = A.binop(op, x, y, ty)
            w = int(ty[1:])
            if isinstance(x, int) and isinstance(y, int):
                X, Y = (x, y) if k[0] == 'u' else (sgn(x, w), sgn(y, w))
                e = {'add': X+Y, 'sub': X-Y, 'mul': X*Y}[op]
                lo, hi = (0, 2**w-1) if k[0] == 'u' else (-2**(w-1), 2**(w-1)-1)
                return _ret((r, FALSE if lo <= e <= hi else TRUE))
            if k == 'usub': return _ret((r, A.cmp('icmp', 'ult', x, y, ty)))
            return _ret((r, atom(mkt('ovf', 'i1', k, x, y))))
        return ov
    if k in ('usub', 'uadd') and p[2] == 'sat':
        if k == 'usub': return lambda A, a, st, f, n: _ret(ite(icmp('ult', a[0], a[1], ty), 0, ibin('sub', a[0], a[1], ty), ty))
    if k in ('ctpop', 'ctlz', 'cttz'):
        def cnt(A, a, st, f, n):
            v = a[0]; w = int(ty[1:])
            if isinstance(v, int):
                if k == 'ctpop': return _ret(bin(v).count('1'))
                if k == 'ctlz': return _ret(w - v.bit_length())
                return _ret((v & -v).bit_length() - 1 if v else w)
            return _ret(mkt(k, ty, v))
        return cnt
    if k in ('fshl', 'fshr'):
        def fsh(A, a, st, f, n):
            w = int(ty[1:]); s = a[2]
            if not isinstance(s, int): raise AnalysisError('fsh')
            s %= w
            if k == 'fshr': s = (w - s) % w
            if s == 0: return _ret(a[0] if k == 'fshl' else a[1])
            return _ret(ibin('or', ibin('shl', a[0], s, ty), ibin('lshr', a[1], w-s, ty), ty))
        return fsh
    if k == 'eh': return lambda A, a, st, f, n: _ret(A.typeid(A.objs[a[0].obj].name if isinstance(a[0], Ptr) and a[0].obj else 'null'))
    if k == 'expect': return lambda A, a, st, f, n: _ret(a[0])
    if k == 'is' and p[2] == 'constant': return lambda A, a, st, f, n: _ret(FALSE)
    if k == 'is' and p[2] == 'fpclass':
        def isfp(A, a, st, f, n):
            v, mask = a
            if mask in (3, 1, 2): return _ret(fcmp('uno', v, v, ty))
            if mask == 0x204: # inf
                return _ret(fcmp('oeq', mfun('fabs', (v,), ty), math.inf, ty))
            if mask == 0x1f8 : return _ret(fcmp('one', mfun('fabs', (v,), ty), math.inf, ty))
            raise AnalysisError('is.fpclass %s' % mask)
        return isfp
    if k == 'trap': return m_throw
    if k == 'objectsize': return lambda A, a, st, f, n: _ret(2**64-1)
    if k == 'threadlocal': return lambda A, a, st, f, n: _ret(a[0])
    if k == 'load' and p[2] == 'relative': return None
    return None

REGEX = []          # (compiled regex on demangled name, handler)
REGEX_DEF = []      # also applied to defined functions
_rx_cache = {}
def regex_model(dem):
    for rx, h in REGEX:
        if rx.search(dem): return h
    return None
def regex_model_defined(dem):
    h = _rx_cache.get(dem, 0)
    if h == 0:
        h = None
        for rx, hh in REGEX_DEF:
            if rx.search(dem): h = hh; break
        _rx_cache[dem] = h
    return h
REGEX.append((re.compile(r'^std::__throw_'), lambda A, a, st, f, n: ('throw', std_throw_type(n), None)))
REGEX.append((re.compile(r'^std::basic_ostream|^std::ostream|^std::operator<<|^std::endl|std::__ostream_insert'), lambda A, a, st, f, n: _ret(a[0] if a else None)))
# Text streams used for messages: insertions have no effect, the text is empty.  (Checks on input and output replace this.)
_OS = r'std::(?:basic_ostream<char, std::char_traits<char> ?>|ostream)'
REGEX_DEF.append((re.compile(r'^' + _OS + r'& std::(operator<<|endl|flush|ends|__ostream_insert)|^' + _OS + r'::(operator<<|flush|put|write|_M_insert)|^' + _OS + r'& ' + _OS + r'::_M_insert'), lambda A, a, st, f, n: _ret(a[0] if a else None)))
def m_ios_state(A, args, st, f, name):     # init and clear set the stream state, which lies after vptr, precision, width, flags and exceptions
    p = args[0]
    if isinstance(p, Ptr) and p.obj: A.store(st, Ptr(p.obj, ibin('add', p.off, 32, 'i64')), 4, 0 if '::init(' in f['dem'] else args[1], 'i32')
    return _ret(None)
_IOS = re.compile(r'^std::basic_ios<char, std::char_traits<char> ?>::(init|clear)\(')
REGEX.append((_IOS, m_ios_state)); REGEX_DEF.append((_IOS, m_ios_state))
REGEX.append((re.compile(r'^std::ios_base::(~?ios_base|Init)|^std::locale::|^std::basic_ios<char.*::~?basic_ios|^std::ctype<'), lambda A, a, st, f, n: _ret(None)))
