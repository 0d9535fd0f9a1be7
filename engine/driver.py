"""Common machinery of the checks: builds the analysed module from /repo, runs the value-flow analysis on the
specification entries, decides the observations, writes evidence and reports violations."""
import os, sys, time, json, shutil, atexit, re, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import build as BLD
from terms import *
import terms as TM
from vflow import *
import vflow as VF
import evalterms
from evalterms import Points, Ev
import numpy as np
import models

VERIF = BLD.VERIF; REPO = BLD.REPO
PY_SOURCES = lambda: sorted(__import__('glob').glob(REPO + '/src/*.cpp'))
LEAKY = ('new', 'malloc', 'new[]', 'fftw', 'plan')

class CheckError(Exception): pass

class Undecided:
    """Stands for an entry whose analysis could not be completed: the other entries are still analysed, for violations."""
    def __init__(self, entry): self.entry = entry; self.obs = []; self.findings = []; self.events = []; self.vars = {}; self.visited_funcs = {}; self.assumes = []; self.objs = {}; self.steps = 0
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        return None if n in ('unwind',) else self
    def __bool__(self): return True

class Check:
    def __init__(self, pid, title=''):
        self.pid = pid
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'): self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.work = os.path.join(VERIF, 'build', 'work-%s-%d' % (pid, os.getpid()))
        atexit.register(lambda: shutil.rmtree(self.work, ignore_errors=True))
        self.viol = []; self.errors = []
        self.known = []
        self.n_obl = 0; self.n_nf = 0; self.n_id = 0; self.n_pts = 0
        self.rules = {}
        self.funcs = set(); self.entries = []; self.steps = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.mods = {}
        self.thorough = self.tier == 'thorough'
        self.checked_files = set()
        self.directed = True; self.n_atoms = 0; self.n_atoms_cov = 0

    # ---- building
    def module(self, sources, key='m', extra=(), opt=None, ndebug=True):
        if key in self.mods: return self.mods[key]
        js = BLD.build(sources, os.path.join(self.work, key), extra=list(extra), opt=opt, ndebug=ndebug)
        m = Module(js)
        os.unlink(js)
        self.mods[key] = m
        for f in sources:
            if f.startswith(REPO): self.checked_files.add(os.path.relpath(f, REPO))
        return m

    def analyse(self, mod, entry, intercept=None, ctors=False, budget=30_000_000, undef_ok=False):
        A = Analyzer(mod, intercept=intercept, budget=budget)
        A.entry = entry
        try: n, v, u = A.analyse('entry_' + entry if not entry.startswith('entry_') else entry, ctors=ctors)
        except Exception as e: return self.undecided(A, e)
        A.normal, A.unwind, A.entry = n, u, entry
        self.entries.append(entry); self.steps += A.steps
        for f in A.visited_funcs:
            self.funcs.add(f.split('(')[0])
        return A

    def undecided(self, A, e):
        """The analysis of this entry stopped. What it established before that point is still decided; without a
        violation anywhere the check as a whole ends without an answer."""
        A.normal = A.unwind = None
        self.errors.append('%s: %s: %s' % (A.entry, type(e).__name__, e))
        for f in (lambda: self.decide(A, tol=1e-4), lambda: self.memory(A)):
            try: f()
            except Exception: pass
        if time.time() - self.t0 > 500 and not self.viol: raise e
        return Undecided(A.entry)

    # ---- deciding
    def obligation(self, rule, how, n=1):
        self.n_obl += n
        r = self.rules.setdefault(rule, {'obligations': 0, 'normal_form': 0, 'identity': 0})
        r['obligations'] += n
        if how == 'nf': self.n_nf += n; r['normal_form'] += n
        else: self.n_id += n; r['identity'] += n

    def violation(self, rule, construct, detail):
        self.viol.append({'rule': rule, 'construct': construct, 'detail': detail})

    def anchor(self, A):
        """Files/lines of /repo code the analysis went through, to name the construct in a report."""
        fs = [f for f in A.visited_funcs if not f.startswith(('std::', '__gnu', 'entry_', 'vp_', 'void std::', 'bool std::', 'pybind11::', 'py_call', 'unsigned long std::', 'double std::', 'double const& std::', 'double* std::'))]
        return sorted(set(f.split('(')[0] for f in fs))

    def points(self, A, n=None, seed=None):
        n = n or (6000 if self.thorough else 800)
        roots = [o[3] for o in A.obs] + [o[2] for o in A.obs]
        ats = evalterms.atoms_of(roots)
        cs = set()
        for a in ats:
            for x in a.args:
                if isinstance(x, float) and x == x and abs(x) < 1e9: cs.update((x, x*(1+1e-9)+1e-12, x*(1-1e-9)-1e-12, x*1.05, x*0.95))
        P = Points(A.vars, n, (self.seed if seed is None else seed), extra=sorted(cs)[:200])
        if A.vars and ats and self.directed:
            P, na, cov = evalterms.augment(P, A.vars, roots, max_atoms=300 if self.thorough else 60, seed=self.seed)
            self.n_atoms += na; self.n_atoms_cov += cov
        return P

    def decide(self, A, tol=1e-8, n=None, rule_of=None, only=None, pts=None, skip=()):
        """Decides every observation of the entry; returns the number decided."""
        P = None; ev = None; cnt = 0
        for k, i, c, args, s in A.obs:
            if only and not only(k, i): continue
            rule = rule_of(i) if rule_of else i.split(':')[0]
            if rule in skip: continue
            cnt += 1
            if k == 'true':
                bad = band(c, bnot(args[0]))
                if bad is FALSE: self.obligation(rule, 'nf'); continue
            else:
                a, b = args
                if same(a, b): self.obligation(rule, 'nf'); continue
                if isinstance(a, (int, float)) and isinstance(b, (int, float)) and (a == b or (a != a and b != b) or (k in ('f64', 'f32') and abs(a - b) <= tol * (1 + abs(b)))):
                    self.obligation(rule, 'nf'); continue
                bad = None
            if ev is None:
                P = pts or self.points(A, n); ev = Ev(P); self.n_pts += P.n
                if hasattr(A, "draw_values"): ev.draw_values = A.draw_values
                ok = np.ones(P.n, bool)
                for b_ in A.assumes: ok &= ev.bdd(b_)
                if not ok.any(): self.errors.append('%s: no sample point satisfies the assumptions' % A.entry); return cnt
            self.obligation(rule, 'id')
            if k == 'true':
                m = ok & ev.bdd(bad)
                if m.any():
                    w = int(np.argmax(m)); self.report(A, rule, i, s, P, w, 'does not hold', args, ev)
                continue
            x, y = ev.val(a), ev.val(b)
            reach = ok & ev.bdd(c)
            m = reach & self.differ(k, x, y, tol)
            if m.any() and not self.stable(A, P, k, a, b, c, tol, m): m = np.zeros(P.n, bool)
            if m.any():
                w = int(np.argmax(m))
                self.report(A, rule, i, s, P, w, 'value %s, required %s' % (self.show(k, x[w]), self.show(k, y[w])), (a, b), ev)
        return cnt

    def differ(self, k, x, y, tol):
        if k in ('f64', 'f32'):
            t = tol if k == 'f64' else max(tol, 3e-6)
            nx, ny = np.isnan(x), np.isnan(y)
            with np.errstate(all='ignore'):
                d = np.abs(x - y) > t * (1 + np.minimum(np.abs(x), np.abs(y)))
            d = np.where(nx & ny, False, np.where(nx | ny, True, d))
            d = np.where(np.isinf(x) & np.isinf(y) & (x == y), False, d)
            return d
        if x.dtype == bool or y.dtype == bool: return x.astype(np.uint64) != y.astype(np.uint64)
        return x != y

    def stable(self, A, P, k, a, b, c, tol, m):
        """A separating point counts if it is exact (inputs are short dyadic numbers) or if the two sides still differ
        under relative perturbations of 1e-11 of the real inputs: this keeps last-bit rounding at a discontinuity from
        being taken for a difference."""
        rv = [v for v, (ty, lo, hi) in A.vars.items() if ty in ('f64', 'f32')]
        if not rv: return True
        ex = np.ones(P.n, bool)
        for v in rv:
            q = P.vals[v] * 1024.0
            ex &= (q == np.trunc(q)) & (np.abs(q) < 2**20)
        if (m & ex).any():
            m &= ex; return True
        for sg in (1e-11, -1e-11):
            Q = Points.__new__(Points); Q.n = P.n; Q.rng = P.rng; Q.vals = dict(P.vals)
            for j, v in enumerate(rv): Q.vals[v] = P.vals[v] * (1 + sg * (1 + 0.37*j))
            e2 = Ev(Q)
            if hasattr(A, 'draw_values'): e2.draw_values = A.draw_values
            m &= e2.bdd(c) & self.differ(k, e2.val(a), e2.val(b), tol)
            if not m.any(): return False
        if k in ('f64', 'f32'):
            # rounding: the difference must exceed what noise of 1e-14 in every operation does to either side
            e0 = Ev(P)
            if hasattr(A, 'draw_values'): e0.draw_values = A.draw_values
            x, y = e0.val(a), e0.val(b); v = np.zeros(P.n)
            with np.errstate(all='ignore'):
                for sd in (1, 2, 3):
                    e2 = Ev(P); e2.noise = (1e-14, sd)
                    if hasattr(A, 'draw_values'): e2.draw_values = A.draw_values
                    v = np.fmax(v, np.fmax(np.abs(e2.val(a) - x), np.abs(e2.val(b) - y)))
                d = np.abs(x - y)
                m &= ~(d <= 3*v)
            if not m.any(): return False
        return True

    def show(self, k, v):
        if k in ('f64', 'f32'): return '%.10g' % v
        if isinstance(v, (bool, np.bool_)): return str(bool(v))
        return str(sgn(int(v), 64))

    def report(self, A, rule, oid, site, P, w, msg, args, ev):
        wit = {v: (float(P.vals[v][w]) if A.vars[v][0][0] == 'f' else sgn(int(P.vals[v][w]), int(A.vars[v][0][1:]))) for v in sorted(A.vars) if v in P.vals}
        self.violation(rule, '%s [%s]' % (oid, site), {'entry': A.entry, 'what': msg, 'separating point': wit,
            'extracted term': tstr(args[0], 5)[:600] if not isinstance(args[0], B) else bdd_str(args[0])[:600],
            'required term': tstr(args[1], 5)[:600] if len(args) > 1 else '', 'functions analysed': self.anchor(A)[:60]})

    # ---- findings of the memory model
    def feasible(self, A, b, n=3000):
        """A point in the declared ranges that meets the assumptions and the condition, or None."""
        if b is FALSE: return None
        ok = TRUE
        for x in A.assumes: ok = band(ok, x)
        b = band(b, ok)
        if b is FALSE: return None
        if b is TRUE: return {}
        P = Points(A.vars, n, self.seed)
        if A.vars: P, _, _ = evalterms.augment(P, A.vars, [b], max_atoms=60, seed=self.seed)
        ev = Ev(P)
        if hasattr(A, 'draw_values'): ev.draw_values = A.draw_values
        m = ev.bdd(b)
        if not m.any(): return None
        w = int(np.argmax(m))
        return {v: (float(P.vals[v][w]) if A.vars[v][0][0] == 'f' else sgn(int(P.vals[v][w]), int(A.vars[v][0][1:]))) for v in sorted(A.vars) if v in P.vals}

    def memory(self, A, rule='memory-safety', ignore=None):
        if isinstance(A, Undecided): return 0
        self.obligation(rule, 'nf', max(1, A.steps // 1000))
        seen = set()
        for f in A.findings:
            txt = ' | '.join(str(x) for x in f if not isinstance(x, (B, State)))
            if txt in seen or (ignore and ignore(f)): continue
            w = self.feasible(A, f[1]) if isinstance(f[1], B) else {}
            if w is None: continue
            seen.add(txt)
            self.violation(rule, txt, {'entry': A.entry, 'separating point': w})
        ok = TRUE
        for x in A.assumes: ok = band(ok, x)
        bads = {}
        for e in A.events:
            if e[0] != 'symload': continue
            _, cond, obj, off, size, lo, hi, site = e
            bad = band(ok, band(cond, bor(icmp('slt', off, lo, 'i64'), icmp('sgt', off, hi, 'i64'))))
            self.obligation(rule, 'nf' if bad is FALSE else 'id')
            if bad is not FALSE: bads.setdefault((A.objs[obj].name, site), []).append(bad)
        if bads:
            roots = [x for l in bads.values() for x in l]
            P = Points(A.vars, 1500, self.seed)
            if A.vars: P, _, _ = evalterms.augment(P, A.vars, roots, max_atoms=40, seed=self.seed)
            ev = Ev(P)
            if hasattr(A, 'draw_values'): ev.draw_values = A.draw_values
            for (name, site), l in bads.items():
                for x in l:
                    m = ev.bdd(x)
                    if not m.any(): continue
                    w = int(np.argmax(m))
                    self.violation(rule, 'read outside %s (computed index) | %s' % (name, site), {'entry': A.entry, 'separating point': {v: float(P.vals[v][w]) for v in sorted(A.vars) if v in P.vals}}); break

    def leaks(self, A, rule='resource-release', allow=(), states=None):
        if isinstance(A, Undecided): return 0
        """Every block allocated and not owned by a global/returned object must be released on every path."""
        n = 0
        def owned(st):
            seen = set(); work = [o for o, i in A.objs.items() if i.kind == 'global' or (i.id < getattr(A, 'first_obj', 0) and i.kind in LEAKY)]
            while work:
                o = work.pop()
                if o in seen: continue
                seen.add(o)
                om = st.mem.get(o) or A.gmem.get(o)
                if om is None: continue
                for sz, v, ty in om.cells.values():
                    if isinstance(v, Ptr): work.append(v.obj)
                    elif isinstance(v, PtrIte): work.extend(p.obj for _, p in v.cases)
            return seen
        for st in (states or [x for x in (A.normal, A.unwind) if x is not None]):
            glob = owned(st)
            for o in A.objs.values():
                if o.id in glob: continue
                if o.kind not in LEAKY or o.id < getattr(A, 'first_obj', 0): continue
                if o.id not in st.mem: continue
                n += 1
                bad = band(band(o.cond, st.cond), bnot(st.mem[o.id].freed))
                if bad is FALSE: continue
                if any(re.search(p, o.site) for p in allow): continue
                if self.feasible(A, bad) is None: continue
                self.violation(rule, '%s allocated at %s is not released on every path' % (o.name, o.site), {'entry': A.entry, 'when': bdd_str(bad)[:300]})
        self.obligation(rule, 'nf', n)
        return n

    # ---- the end
    def finish(self, explanation, level='other'):
        kf = known_findings(self.pid)
        rest = []
        for v in self.viol:
            key = v['rule'] + ' ' + v['construct']
            hit = [k for k in kf if k['match'] in key]
            if hit: self.known.append(hit[0])
            else: rest.append(v)
        for k in {k['match']: k for k in self.known}.values():
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        if self.n_obl == 0 and not rest and not self.errors: raise CheckError('nothing was analysed')
        out = os.path.join(VERIF, 'out'); os.makedirs(out, exist_ok=True)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level,
              'coverage': {'explanation': explanation, 'obligations': self.n_obl, 'decided_by_normal_form': self.n_nf, 'decided_by_identity_test': self.n_id,
                           'identity_test_points': self.n_pts, 'branch_conditions_in_terms': self.n_atoms, 'branch_conditions_seen_both_ways': self.n_atoms_cov, 'per_rule': self.rules, 'entries_analysed': len(self.entries), 'ir_instructions_interpreted': self.steps,
                           'functions_analysed': len(self.funcs), 'functions': sorted(f for f in self.funcs if re.search('NRLib|GaussFFT', f))[:200], 'repo_files_compiled': sorted(self.checked_files)},
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(rest)}
        ev['coverage'].update(self.extra)
        if self.samples: ev['coverage']['samples'] = self.samples[:10]
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
        print('%s: %d obligations in %d entries (%d by normal form, %d by identity test), %d IR instructions interpreted, %d functions, %.1f s' % (
            self.pid, self.n_obl, len(self.entries), self.n_nf, self.n_id, self.steps, len(self.funcs), time.time() - self.t0))
        for r, d in sorted(self.rules.items()): print('  rule %-34s %5d obligations (%d/%d)' % (r, d['obligations'], d['normal_form'], d['identity']))
        if rest:
            p = os.path.join(out, self.pid + '.json')
            with open(p, 'w') as f: json.dump(rest, f, indent=1, default=str)
            for v in rest[:12]:
                print('  violated rule %s at %s: %s' % (v['rule'], v['construct'], json.dumps(v['detail'], default=str)[:500]))
            print('VIOLATION property=%s replay=%s' % (self.pid, p))
            return 1
        for e in self.errors: print('ERROR property=%s: %s' % (self.pid, e))
        return 2 if self.errors else 0

def known_findings(pid):
    p = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get('findings', []) if k['property'] == pid]
