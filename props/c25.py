"""Lock sets of every access to state shared between calls (after Eraser), lock order, and critical sections of the Python interface."""
from simspec import *

HEAP = ('new', 'new[]', 'malloc', 'fftw', 'plan')
PLANNER = 'the planner of FFTW'
INIT_BY = ('pthread_once', 'exchange_and_add', '__atomic_add', '_Sp_counted', '__gthread_once')

class Conc(Analyzer):
    def __init__(self, mod, fail=None):
        self.m = mod; Analyzer.__init__(self, mod, intercept=self.rng())
        self.inside = 0; self.ncall = 0; self.acc = []; self.mutex = {}; self.sec = 0
        self.detached = 0; self.api = []; self.order = []; self.left = []; self.selfdead = []; self.allocs = 0; self.fail = fail; self.planner_safe = False
        self.guards = []; self.locksites = set(); self.rngobj = set()
        self.lcg = 12345; self.born = {}; self.once = set(); self.mine = set(); self.seeds = 0; self.single = set()
        M = self.models
        M['vp_phase'] = lambda A, a, st, f, n: A.m_phase(a, st)
        M['vp_py_api'] = lambda A, a, st, f, n: A.m_api(st)
        M['vp_gil_release'] = lambda A, a, st, f, n: A.m_gil(1, st)
        M['vp_gil_acquire'] = lambda A, a, st, f, n: A.m_gil(-1, st)
        for k, mode in (('pthread_mutex_lock', 'w'), ('pthread_rwlock_wrlock', 'w'), ('pthread_rwlock_rdlock', 'r'), ('pthread_spin_lock', 'w'), ('pthread_mutex_clocklock', 'w'), ('pthread_mutex_timedlock', 'w')):
            M[k] = (lambda mode: lambda A, a, st, f, n: A.m_lock(a[0], st, mode))(mode)
        for k, mode in (('pthread_mutex_trylock', 'w'), ('pthread_rwlock_trywrlock', 'w'), ('pthread_rwlock_tryrdlock', 'r'), ('pthread_spin_trylock', 'w')):
            M[k] = (lambda mode: lambda A, a, st, f, n: A.m_try(a[0], st, mode))(mode)
        for k in ('pthread_mutex_unlock', 'pthread_rwlock_unlock', 'pthread_spin_unlock'): M[k] = lambda A, a, st, f, n: A.m_unlock(a[0], st)
        for k in ('_Znwm', '_Znam'): M[k] = (lambda old: lambda A, a, st, f, n: A.m_alloc(old, a, st, f, n))(M[k])
        for k, old in list(M.items()):
            if old is VF.m_free: M[k] = lambda A, a, st, f, n: A.m_release(a, st, f, n)
        M['__cxa_guard_acquire'] = lambda A, a, st, f, n: A.m_guard(a, st, f, n)
        M['__cxa_guard_release'] = lambda A, a, st, f, n: A.m_guard_end(a, st, f, n)
        M['__cxa_guard_abort'] = lambda A, a, st, f, n: (A.guards.pop() if A.guards else None, VF._ret(None))[1]

    # ---- the twister: seeding and the generation of its next words give concrete values; every other access to its state is a draw
    def rng(self):
        def fill(A, st, p, idx):
            if not isinstance(p, Ptr) or not isinstance(p.off, int): raise AnalysisError('generator behind a conditional pointer at ' + A.site())
            om = A.wmem(st, p.obj)
            for k in range(384):
                A.lcg = (A.lcg*6364136223846793005 + 1442695040888963407) & (2**64-1)
                A.store_om(om, p.off + 8*k, 8, 1 + ((A.lcg >> 12) + 0.5)/2.0**52, 'f64')
            if idx is not None: A.store_om(om, p.off + 3072, 4, idx, 'i32')
        def seed(A, a, st, f, name):
            A.seeds += 1; A.mark(st, a[0], True, 'seed'); fill(A, st, a[0], 382); return VF._ret(None)
        def more(A, a, st, f, name):
            A.mark(st, a[0], False); A.mark(st, a[0], True); fill(A, st, a[0], None); return VF._ret(None)
        return {'dsfmt_chk_init_gen_rand': seed, 'dsfmt_chk_init_by_array': seed, 'dsfmt_gen_rand_all': more, 'time': lambda A, a, st, f, n: VF._ret(1700000000)}

    # ---- calls
    def m_phase(self, a, st):
        if a[0]:
            self.inside = 1; self.ncall += 1; self.seeds = 0
        else:
            for k, nm in self.mutex.items():
                if not self.private(k[0]) and self.count(st, k) != 0: self.left.append((nm, self.site(), self.ncall))
            if self.detached: self.left.append(('the detached thread state (GIL not taken back)', self.site(), self.ncall))
            self.inside = 0; self.mine |= self.thread_owned(st)
        return VF._ret(None)

    def m_alloc(self, old, a, st, f, n):
        if self.inside:
            self.allocs += 1
            if self.fail is not None and self.allocs == self.fail: return ('throw', '_ZTISt9bad_alloc', None)
        return old(self, a, st, f, n)
    def new_obj(self, *a, **k):
        o = Analyzer.new_obj(self, *a, **k)
        if self.inside: self.born[o] = self.ncall
        if self.guards or not hasattr(self, 'first_obj'): self.single.add(o)     # made by a static initialiser: one for the process
        return o
    def m_release(self, a, st, f, n):
        for c, q in ptr_cases(a[0]) if isinstance(a[0], (Ptr, PtrIte)) else ():
            if q.obj and q.obj in self.objs: self.mark(st, q, True, 'release')
        return VF.m_free(self, a, st, f, n)
    def m_guard(self, a, st, f, n):
        r = VF.m_guard(self, a, st, f, n)
        if r[1] == 1: self.guards.append(a[0])
        return r
    def m_guard_end(self, a, st, f, n):
        if self.guards: self.guards.pop()
        return VF.m_guard_rel(self, a, st, f, n)

    # ---- locks
    def private(self, o):
        oi = self.objs[o]
        if oi.kind == 'global': return bool(self.m.globals[oi.name]['tls'])
        return oi.kind not in HEAP or (self.born.get(oi.id, 0) == self.ncall and o not in self.single)
    def one(self, o): return self.objs[o].kind == 'global' or o in self.single
    def key(self, p, st):
        if not isinstance(p, Ptr) or not isinstance(p.off, int): raise AnalysisError('lock behind a conditional pointer at ' + self.site())
        k = (p.obj, p.off); oi = self.objs[p.obj]
        if k not in self.mutex: self.mutex[k] = '%s%s' % (oi.name if oi.kind == 'global' else 'lock in the object from %s' % oi.site, '+%d' % p.off if p.off else '')
        return k
    def cell(self, st, k, off):
        if k[0] not in st.mem and k[0] not in self.gmem: return 0      # gone
        return Analyzer.load1(self, st, Ptr(k[0], k[1] + off), 4, 'i32')
    def count(self, st, k): return self.cell(st, k, 0)
    def m_lock(self, p, st, mode):
        k = self.key(p, st); n = self.count(st, k); self.locksites.add(self.site())
        if not isinstance(n, int): n = 0
        kind = self.cell(st, k, 16)
        if n & 0xff and not (kind == 1 and not n & 0x100) and not self.private(k[0]): self.selfdead.append((self.mutex[k], self.site()))
        if not self.detached and self.inside and not self.private(k[0]): self.order.append(('attached', self.mutex[k], self.site()))
        for j in self.mutex:
            if j != k and not self.private(j[0]) and not self.private(k[0]) and self.count(st, j) not in (0, None): self.order.append((self.mutex[j], self.mutex[k], self.site()))
        if not n & 0xff: self.sec += 1; Analyzer.store1(self, st, Ptr(k[0], k[1] + 4), 4, self.sec, 'i32')
        Analyzer.store1(self, st, Ptr(k[0], k[1]), 4, ((n & 0xff) + 1) | (0x100 if mode == 'r' else 0), 'i32')
        return VF._ret(0)
    def m_try(self, p, st, mode):
        self.key(p, st)
        self.tries = getattr(self, 'tries', 0) + 1
        if self.tries % 2 == 0: return VF._ret(16)      # busy, every other time
        return self.m_lock(p, st, mode)
    def m_unlock(self, p, st):
        k = self.key(p, st); n = self.count(st, k)
        if isinstance(n, int) and n & 0xff: n = 0 if n & 0xff == 1 else n - 1
        else: n = 0
        Analyzer.store1(self, st, Ptr(k[0], k[1]), 4, n, 'i32')
        return VF._ret(0)
    def held(self, st, write, o):
        r = set()
        for k, nm in self.mutex.items():
            if self.private(k[0]) or (not self.one(k[0]) and self.objs[o].kind not in HEAP): continue
            n = self.count(st, k)
            if isinstance(n, int) and n & 0xff and not (write and n & 0x100): r.add((nm, self.cell(st, k, 4)))
        if self.gil_serialises and not self.detached: r.add(('GIL', self.gilsec))
        return frozenset(r)

    # ---- Python API and the GIL
    gil_serialises = False; gilsec = 0
    def m_gil(self, d, st):
        self.detached = max(0, self.detached + d)
        if d < 0:
            self.gilsec += 1
            if not self.detached: self.back(st)
        return VF._ret(None)
    def back(self, st):
        for k, nm in self.mutex.items():
            if not self.private(k[0]) and self.count(st, k) not in (0, None): self.order.append((nm, 'attached', self.site()))
    def m_api(self, st):
        if self.inside:
            self.api.append(self.site())
            if self.detached: self.left.append(('use of the Python API without the GIL', self.site(), self.ncall))
            else: self.back(st)
        return VF._ret(None)

    # ---- accesses
    def mark(self, st, p, write, what=''):
        if not self.inside or not isinstance(p, Ptr) or not isinstance(p.obj, int) or not p.obj or self.atomic: return
        oi = self.objs[p.obj]
        if oi.kind == 'global':
            g = self.m.globals[oi.name]
            if g['const'] or g['tls'] or oi.name.startswith(('_ZGV', '_ZNSt', '_ZSt', '_ZTV', '_ZTI', '_ZN8pybind11', '.str', '__libc', '__dso')): return
            who = oi.name
        elif oi.kind in HEAP:
            if self.born.get(oi.id, 0) == self.ncall or p.obj in self.mine or p.obj in self.thread_owned(st): return
            who = 'object allocated at %s' % oi.site
        else: return
        for k in self.mutex:
            if k[0] == p.obj and isinstance(p.off, int) and k[1] <= p.off < k[1] + 40: return
        if self.guards: return
        if any(x in fr[0].dem or x in fr[0].name for fr in self.stack[-6:] for x in INIT_BY): return
        big = not isinstance(oi.size, int) or oi.size > 64
        if not what and oi.name == models.GLOBAL_RNG: what = 'draw'
        self.record((who, p.obj if oi.kind in HEAP else 0, self.ncall, write, self.held(st, write, p.obj), self.site(), what, self.seeds if what == 'draw' else 0 if big else p.off if isinstance(p.off, int) else None))
    def thread_owned(self, st):
        """Objects that thread-local storage leads to."""
        todo = [o for n, o in self.gobj.items() if self.m.globals[n]['tls']]; seen = set(todo)
        while todo:
            o = todo.pop(); om = st.mem.get(o) or self.gmem.get(o)
            if om is None: continue
            for c in om.cells.values():
                for _, q in ptr_cases(c[1]) if isinstance(c[1], (Ptr, PtrIte)) else ():
                    if isinstance(q.obj, int) and q.obj and q.obj not in seen and self.objs[q.obj].kind in HEAP: seen.add(q.obj); todo.append(q.obj)
        return seen
    def record(self, t):
        if t in self.once: return
        self.once.add(t); self.acc.append(t)
    def uses_planner(self, st):
        if not self.inside or self.planner_safe: return
        self.record((PLANNER, 0, self.ncall, True, self.heldp(st), self.site(), 'planner', 0))
    def heldp(self, st):
        r = set()
        for k, nm in self.mutex.items():
            if self.private(k[0]) or not self.one(k[0]): continue
            n = self.count(st, k)
            if isinstance(n, int) and n & 0xff and not n & 0x100: r.add((nm, self.cell(st, k, 4)))
        if self.gil_serialises and not self.detached: r.add(('GIL', self.gilsec))
        return frozenset(r)
    def load1(self, st, p, size, ty):
        if self.inside: self.mark(st, p, False)
        return Analyzer.load1(self, st, p, size, ty)
    def store1(self, st, p, size, v, ty, when=None):
        if self.inside: self.mark(st, p, True)
        return Analyzer.store1(self, st, p, size, v, ty, when)
    def memcpy(self, st, dst, src, n):
        if self.inside and n != 0: self.mark(st, src, False); self.mark(st, dst, True)
        return Analyzer.memcpy(self, st, dst, src, n)
    def memset(self, st, p, val, n):
        if self.inside and n != 0: self.mark(st, p, True)
        return Analyzer.memset(self, st, p, val, n)

def run_one(c, m, e, fail=None):
    A = Conc(m, fail); A.entry = e
    A.gil_serialises = c.gil_serialises
    n, v, u = A.analyse('entry_' + e, ctors=True); A.normal, A.unwind = n, u
    c.entries.append(e if fail is None else '%s, allocation %d fails' % (e, fail)); c.steps += A.steps
    for f in A.visited_funcs: c.funcs.add(f.split('(')[0])
    if n is None and fail is None: raise CheckError('no result in ' + e)
    return A

def module_opts(c, m):
    """Does the interpreter's lock serialise calls?  It does not in a module that declares that it does without it, or that interpreters have their own."""
    A = Analyzer(m); n, v, u = A.analyse('entry_opts', ctors=True)
    g = [x for x in m.globals if 'vp_opts' in x][0]; p = A.gptr(g)
    return A.load(n, p, 1, 'i8'), A.load(n, padd(p, 4), 4, 'i32')

def run(c):
    m = sim_module(c, 'h_conc.cpp')
    gnu, multi = module_opts(c, m)
    c.gil_serialises = not gnu and multi != 2
    c.extra['module_declares'] = {'usable without the GIL': bool(gnu), 'interpreters': {0: 'one', 1: 'shared GIL', 2: 'own GIL each'}.get(multi, str(multi))}
    ents = sorted(f[6:] for f in m.funcs if f.startswith('entry_') and f != 'entry_opts')
    runs = []
    for e in ents:
        if e.startswith('fails_'): continue
        runs.append(run_one(c, m, e))
    for e in ents:
        if not e.startswith('fails_'): continue
        A = run_one(c, m, e); runs.append(A); N = A.allocs
        ks = range(1, N + 1) if c.thorough else sorted({1 + (N - 1)*i//23 for i in range(24)})
        for k in ks: runs.append(run_one(c, m, e, k))
    objects = {}; seen = set()
    for A in runs:
        for who, o, call, w, locks, site, what, off in A.acc:
            key = (who, (A.entry, o) if o else 0)
            objects.setdefault(key, {}).setdefault((w, frozenset(l for l, _ in locks)), []).append(site)
    report = {}
    for (who, _), d in sorted(objects.items(), key=lambda x: str(x[0])):
        writes = [k for k in d if k[0]]
        c.obligation('shared-state-guarded-by-one-lock', 'nf', len(d)*max(1, len(writes)))
        r = report.setdefault(who, {'accesses': 0, 'writes': 0, 'locks': set()})
        for k, s in d.items(): r['accesses'] += len(s); r['writes'] += len(s) if k[0] else 0; r['locks'] |= k[1]
        done = False
        for kw in writes:
            for k in d:
                if not (kw[1] & k[1]) and not done:
                    done = True
                    c.violation('shared-state-guarded-by-one-lock', '%s: %s at %s and %s at %s have no lock in common' % (who, 'write', d[kw][0], 'write' if k[0] else 'read', d[k][0]),
                                {'locks held by the write': sorted(kw[1]), 'locks held by the other access': sorted(k[1])})
    for A in runs:
        # check-then-act: a value read in one critical section and overwritten, unread, in a later one of the same call
        last = {}
        for who, o, call, w, locks, site, what, off in A.acc:
            k = (who, o, call, off)
            if what in ('draw', 'seed', 'planner', 'release'): continue
            c.obligation('read-and-update-in-one-critical-section', 'nf')
            if not w: last[k] = (locks, site)
            elif k in last and locks and last[k][0] and not (locks & last[k][0]):
                c.violation('read-and-update-in-one-critical-section', '%s is read at %s and written at %s, with the lock released in between' % (who, last[k][1], site), {'entry': A.entry})
                last.pop(k)
            elif k in last: pass
        # all draws of a call (after it has seeded the generator, if it does) come from one critical section
        sec = {}; ep = {}
        for who, o, call, w, locks, site, what, off in A.acc:
            if what == 'draw': ep[(who, o, call)] = max(ep.get((who, o, call), 0), off)
        for who, o, call, w, locks, site, what, off in A.acc:
            k = (who, o, call)
            if what == 'draw' and off == ep[k]: sec[k] = (sec[k][0] & locks if k in sec else locks, site)
        for k, (l, site) in sec.items():
            c.obligation('draws-of-a-call-in-one-critical-section', 'nf')
            if not l: c.violation('draws-of-a-call-in-one-critical-section', '%s: the draws of one simulation, at %s, are not made under one hold of a lock' % (k[0], site), {'entry': A.entry})
        c.obligation('locks-released-at-the-end-of-a-call', 'nf', max(A.ncall, 1))
        for nm, site, call in A.left: c.violation('locks-released-at-the-end-of-a-call', '%s, in call %d of %s' % (nm, call, A.entry), {'at': site, 'failed allocation': A.fail})
        for nm, site in A.selfdead:
            if not A.left: c.violation('no-lock-is-waited-for-by-its-holder', '%s is taken again at %s' % (nm, site), {'entry': A.entry, 'failed allocation': A.fail})
    edges = {}
    for A in runs:
        for a, b, site in A.order: edges.setdefault((a, b), site)
    c.obligation('locks-are-taken-in-one-order', 'nf', len(edges) + 1)
    for (a, b), s in sorted(edges.items()):
        if (b, a) in edges and a < b:
            nm = lambda x: 'the interpreter (attached thread)' if x == 'attached' else x
            c.violation('locks-are-taken-in-one-order', '%s is taken while holding %s at %s, and the other way round at %s' % (nm(b), nm(a), s, edges[(b, a)]), {})
    if not any(k[0] == PLANNER for k in objects) and not any(A.planner_safe for A in runs): raise CheckError('no use of the FFTW planner found')
    if not any('dsfmt' in k[0] for k in objects): raise CheckError('no use of the generator found')
    # the same violation in several entries is one
    u = {}
    for v in c.viol: u.setdefault((v['rule'], v['construct'].split(' in call ')[0]), v)
    c.viol[:] = list(u.values())
    c.extra['shared_state'] = {k: {'accesses': v['accesses'], 'writes': v['writes'], 'locks': sorted(v['locks'])} for k, v in report.items()}
    c.extra['lock_order'] = [list(k) for k in sorted(edges)]
    return c.finish('Concurrent use of the Python interface. Every function of the binding table is followed through the code in histories of calls, and every access to storage that outlives a call '
                    '(statics, objects of earlier calls, the planner of FFTW) is recorded with the locks held: two accesses of which one writes have a lock in common, the draws of a call and '
                    'its test-and-set of the seed lie in one critical section, locks are released at the end of every call, also when an allocation fails, and are taken in one order with the interpreter\'s.')
