"""Path exploration, store, obligations and the solver portfolio."""
import itertools
import time
import z3
from . import terms as T
from .terms import S, Unsupported, Int, Real, Bool, AND, OR, NOT, IMP, zb, zi


class Infeasible(Exception):
    pass


class PyExc(Exception):
    """an exception raised by the interpreted code"""

    def __init__(self, val):
        self.val = val


class ExcVal:
    def __init__(self, cls, args=(), note=None):
        self.cls, self.args, self.note = cls, args, note

    def __repr__(self):
        return 'Exc(%s)' % getattr(self.cls, '__name__', self.cls)


class Ref:
    """reference to a mutable cell of the store"""
    __slots__ = ('a',)

    def __init__(self, a):
        self.a = a

    def __repr__(self):
        return '<ref %s>' % (self.a,)


class Budget(Exception):
    """path / time budget of a verification run exhausted"""


class Stats:
    def __init__(self):
        self.solver_s = 0.0
        self.queries = 0
        self.by = {}


class Outcome:
    __slots__ = ('pc', 'facts', 'store', 'kind', 'value', 'flags', 'tags')


def _keepctr(f):
    """names made up during a proof attempt do not influence the names of the program's symbols"""
    def g(*a, **k):
        c = T.CTR[0]
        try:
            return f(*a, **k)
        finally:
            T.CTR[0] = c
    return g


FCONST = [z3.Int('?f%d' % i) for i in range(4)]
_FACTS = {}


class Fact:
    """a universally quantified fact, by its body; interned, so that equal facts of different paths are one object"""
    __slots__ = ('body', 'consts', 'cache')

    def __new__(cls, ar, fn):
        consts = FCONST[:ar]
        body = z3.simplify(zb(fn(*consts)))
        k = (ar, body.get_id())
        f = _FACTS.get(k)
        if f is None:
            f = object.__new__(cls)
            f.body, f.consts, f.cache = body, consts, {}
            _FACTS[k] = f
        return f

    def __call__(self, *args):
        args = [zi(a) for a in args]
        k = tuple(a.get_id() for a in args)
        r = self.cache.get(k)
        if r is None:
            i = z3.simplify(z3.substitute(self.body, *zip(self.consts, args)))
            r = self.cache[k] = (i, args, z3.is_true(i))
        return r[0]


    def at(self, k, items):
        """the instance at these terms (identity, term); None if it says nothing"""
        r = self.cache.get(k)
        if r is None:
            self(*[t for _, t in items])
            r = self.cache[k]
        return None if r[2] else r[0]


class Ctx:
    def __init__(self, deadline=None, max_paths=4000):
        self.deadline = deadline
        self.max_paths = max_paths
        self.stats = Stats()
        self.store = {}
        self.pc = []
        self.facts = []        # (arity, fn(*idx)->Bool, [index hint])
        self.trace, self.pos, self.work = [], 0, []
        self.next_addr = 0
        self.memo = {}
        self.key = ()
        self.subcount = 0
        self.imprecise = []    # reasons why the current path over-approximates
        self.depth = 0
        self.npaths = 0
        self._feas = {}
        self._proved = {}
        self._simple = {}
        self._sinst = {}
        self.keep = []
        self.obls = []         # proof obligations: (name, goal, pc, facts, imprecise)
        self._obl_seen = set()
        self.mute = 0
        self.given = {}
        self.frames = False    # obligations: only that objects of the caller are not modified
        self.loopvars = []

    # ------------------------------------------------------------ store
    def alloc(self, cell):
        self.next_addr += 1
        a = self.next_addr
        self.store[a] = cell
        if self.frames and self.depth == 1 and getattr(cell, 'owner', None):
            self.given[a] = cell
        return Ref(a)

    def get(self, r):
        return self.store[r.a]

    def set(self, r, cell):
        if self.frames and getattr(self.store.get(r.a), 'owner', None):
            self.frame_check(self.store[r.a], cell)
        self.store[r.a] = cell

    def frame_check(self, old, new):
        """a write to an object of the caller must leave its contents as they are"""
        goal = z3.BoolVal(False)
        if hasattr(old, 'elem') and hasattr(new, 'elem') and old.elem is not None and new.elem is not None and len(old.shape) == len(new.shape) and old.dtype == new.dtype:
            ix = tuple(T.fresh('frame_i', Int) for _ in old.shape)
            x, y = old.elem(ix), new.elem(ix)
            if isinstance(x, S) and isinstance(y, S) and x.e.sort() == y.e.sort():
                fl = lambda v: [zb(f) if f is not None else z3.BoolVal(False) for f in (v.nan, v.inf)]
                same = AND(*[zi(a) == zi(b) for a, b in zip(old.shape, new.shape)])
                rng = AND(*[AND(i >= 0, i < zi(n)) for i, n in zip(ix, old.shape)])
                goal = AND(same, IMP(rng, AND(*[a == b for a, b in zip(fl(x), fl(y))], OR(*fl(x), x.e == y.e))))
        self.oblige('frame: %s is not modified' % old.owner, goal)

    def log(self, *ev):
        self.store['log'] = self.store.get('log', ()) + (ev,)

    # ------------------------------------------------------------ paths
    def check_time(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget('time budget of the verification run exhausted')

    def assume(self, c):
        c = z3.simplify(zb(c))
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise Infeasible()
        self.pc.append(c)

    def assume_all(self, arity, fn):
        f = Fact(arity, fn)
        if not z3.is_true(f.body):
            self.facts.append((arity, f))

    def fsig(self):
        return tuple(id(f) for _, f in self.facts)

    def decide(self, c, what=''):
        c = z3.simplify(zb(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.trace):
            v = self.trace[self.pos]
            self.pos += 1
            self.assume(c if v else NOT(c))
            return v
        self.check_time()
        t = self.feasible(c)
        f = self.feasible(NOT(c)) if t else True
        if t and f:
            self.work.append(self.trace[:self.pos] + [False])
            v = True
        else:
            v = bool(t)
        self.trace = self.trace[:self.pos] + [v]
        self.pos += 1
        self.assume(c if v else NOT(c))
        return v

    def choose(self, n):
        """non-deterministic choice 0..n-1"""
        if self.pos < len(self.trace):
            v = self.trace[self.pos]
            self.pos += 1
            return v
        for k in range(n - 1, 0, -1):
            self.work.append(self.trace[:self.pos] + [k])
        self.trace = self.trace[:self.pos] + [0]
        self.pos += 1
        return 0

    def explore(self, thunk, memo=True):
        """run thunk on all paths from the current state; returns the outcomes.
        thunk() returns (kind, value).  State is restored afterwards."""
        key = (self.key, tuple(self.trace[:self.pos]), self.subcount)
        self.subcount += 1
        if memo and key in self.memo:
            outs, T.CTR[0], self.next_addr, old = self.memo[key]
            return [self.rebase(o, old) for o in outs]
        ctr0, addr0 = T.CTR[0], self.next_addr
        ctr1, addr1 = ctr0, addr0
        saved = (self.trace, self.pos, self.work, self.key, self.subcount, self.depth)
        store0, pc0, facts0, imp0 = dict(self.store), list(self.pc), list(self.facts), list(self.imprecise)
        outs = []
        self.work = [[]]
        self.depth += 1
        if self.depth > 12:
            raise Unsupported('nesting of explorations too deep')
        n = 0
        try:
            while self.work:
                self.trace = self.work.pop()
                self.pos = 0
                T.CTR[0], self.next_addr = ctr0, addr0
                self.key = key
                self.subcount = 0
                self.store = dict(store0)
                self.pc = list(pc0)
                self.facts = list(facts0)
                self.imprecise = list(imp0)
                n += 1
                self.npaths += 1
                if n > self.max_paths:
                    raise Budget('too many paths')
                try:
                    kind, value = thunk()
                except Infeasible:
                    continue
                finally:
                    ctr1, addr1 = max(ctr1, T.CTR[0]), max(addr1, self.next_addr)
                o = Outcome()
                o.pc, o.facts, o.store = self.pc[len(pc0):], self.facts[len(facts0):], self.store
                o.kind, o.value, o.flags = kind, value, self.imprecise[len(imp0):]
                outs.append(o)
        finally:
            self.trace, self.pos, self.work, self.key, self.subcount, self.depth = saved
            self.store, self.pc, self.facts, self.imprecise = dict(store0), pc0, facts0, imp0
            T.CTR[0], self.next_addr = ctr1, addr1
        outs.reverse()
        if memo:
            self.memo[key] = (outs, ctr1, addr1, store0)
        return outs

    def rebase(self, o, old):
        """an outcome found on another path with the same prefix: cells it left alone are those of this path"""
        r = Outcome()
        r.pc, r.facts, r.kind, r.value, r.flags = o.pc, o.facts, o.kind, o.value, o.flags
        r.store = dict(o.store)
        for a, c in self.store.items():
            b = old.get(a)
            if b is None:
                continue
            n = o.store.get(a)
            if n is b:
                r.store[a] = c
            else:
                for f in ('fields', 'vars'):
                    if hasattr(n, f) and hasattr(b, f) and hasattr(c, f):
                        nf, bf, cf = getattr(n, f), getattr(b, f), getattr(c, f)
                        d = {k: cf[k] if k in bf and k in cf and bf[k] is v else v for k, v in nf.items()}
                        r.store[a] = type(n)(n.cls, d) if f == 'fields' else type(n)(d)
        return r

    def oblige(self, name, goal, info=None):
        """record a proof obligation at this point of the path; it is assumed afterwards"""
        if self.frames and not name.startswith('frame'):
            return
        goal = z3.simplify(zb(goal))
        if not self.mute:
            key = (name, goal.get_id(), tuple(sorted(set(p.get_id() for p in self.pc))))
            if key not in self._obl_seen:
                self._obl_seen.add(key)
                self.keep.append(goal)
                self.obls.append((name, goal, list(self.pc), list(self.facts), list(self.imprecise), info))
        if not z3.is_true(goal):
            if z3.is_false(goal):
                raise Infeasible()
            self.pc.append(goal)

    def check_invariant(self, *es):
        for e in es:
            if T.isz(e):
                for k in self.loopvars:
                    if T.contains(e, k):
                        raise Unsupported('index set depending on a loop variable')

    # ------------------------------------------------------------ solving
    def instances(self, forms, rounds=2, lemmas=True, extra_terms=(), pairs=8):
        """schema instances for the symbols in forms, universal facts at their index terms"""
        out, seen_app, done_f = [], set(), set()
        forms = list(forms)
        frontier = list(reversed(forms)) + list(extra_terms)      # the terms of the goal first
        seen_nodes = set()
        terms_ix = {}
        sums = {}
        for rnd in range(rounds + 1):
            new = []
            for f in frontier:
                for a, aid, nm, na, ints in T.all_apps(f):
                    if aid in seen_app:
                        continue
                    seen_app.add(aid)
                    if na:
                        sc = T.SCHEMAS.get(nm)
                        if sc:
                            ci = self._sinst.get(aid)
                            if ci is None:
                                ci = self._sinst[aid] = list(sc(a))
                                self.keep.append(a)
                            new += ci
                        if nm in T.SUMS:
                            sums[aid] = a
                    for ci_, ch in ints:
                        terms_ix[ci_] = ch
            ixs = list(terms_ix.items())[:24]
            cut = {1: ixs, 2: ixs[:pairs], 3: ixs[:8]}
            for n, (ar, fn) in enumerate(self.facts):
                for t in itertools.product(cut[ar], repeat=ar):
                    k = (n,) + tuple(x[0] for x in t)
                    if k not in done_f:
                        done_f.add(k)
                        i = fn.at(k[1:], t)
                        if i is not None:
                            new.append(i)
            if not new:
                break
            out += new
            frontier = new
        if lemmas and sums:
            out += self.sum_lemmas(list(sums.values())[:14])
        return out

    def sum_lemmas(self, sums):
        out = []
        for n, a in enumerate(sums):
            kind, hi, fn = T.sum_parts(a)
            w = T.fresh('w', Int)
            rng = z3.And(w >= 0, w < hi)
            if kind == 'Sum':
                out.append(z3.Or(a >= 0, z3.And(rng, fn(w) < 0)))
                out.append(z3.Or(a <= z3.ToReal(z3.If(hi > 0, hi, z3.IntVal(0))), z3.And(rng, fn(w) > 1)))
                out.append(z3.Implies(hi <= 0, a == 0))
            for b in sums[n + 1:]:
                k2, hi2, fn2 = T.sum_parts(b)
                if k2 != kind or a.eq(b):
                    continue
                w = T.fresh('w', Int)
                out.append(z3.Implies(hi == hi2, z3.Or(a == b, z3.And(w >= 0, w < hi, fn(w) != fn2(w)))))
        return out

    def _check(self, forms, timeout_ms, simple=False):
        s = z3.SimpleSolver() if simple else z3.Solver()
        s.set('timeout', timeout_ms)
        for f in forms:
            s.add(linearized(f) if simple and nonlinear(f) else f)
        t = time.time()
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        return r, s

    @_keepctr
    def feasible(self, c):
        forms = self.pc + [c]
        key = tuple(f.get_id() for f in forms) + self.fsig()
        if key in self._feas:
            return self._feas[key]
        self.keep.append(forms)
        inst = self.instances(forms, rounds=1, lemmas=False)
        r, _ = self._check(forms + inst, 1500, True)
        res = r != z3.unsat
        self._feas[key] = res
        return res

    @_keepctr
    def simple_prove(self, c):
        """used for side conditions"""
        c = z3.simplify(zb(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c) and not self.pc:
            return False
        key = (c.get_id(), tuple(p.get_id() for p in self.pc), self.fsig())
        if key in self._simple:
            return self._simple[key]
        self.keep.append((c, list(self.pc)))
        forms = self.pc + [NOT(c)]
        inst = self.instances(forms, rounds=1, lemmas=False)
        r, _ = self._check(forms + inst, 1000, True)
        self._simple[key] = r == z3.unsat
        return r == z3.unsat

    def normal(self, f, N):
        """normalise the real arithmetic atoms of a formula"""
        return self._norm_form(f, N, {})

    def _norm_form(self, f, N, cache):
        k = f.get_id()
        if k in cache:
            return cache[k]
        r = f
        if z3.is_app(f):
            d = f.decl().kind()
            if d in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_ITE) and f.sort() == Bool \
                    or (d == z3.Z3_OP_EQ and f.arg(0).sort() == Bool):
                r = f.decl()(*[self._norm_form(x, N, cache) for x in f.children()]) if f.num_args() != 0 else f
            elif d in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_DISTINCT) \
                    and f.arg(0).sort() == Real and f.num_args() == 2:
                c = N.canon(f.arg(0) - f.arg(1))
                z = z3.RealVal(0)
                r = {z3.Z3_OP_EQ: lambda: c == z, z3.Z3_OP_LE: lambda: c <= z, z3.Z3_OP_LT: lambda: c < z,
                     z3.Z3_OP_GE: lambda: c >= z, z3.Z3_OP_GT: lambda: c > z,
                     z3.Z3_OP_DISTINCT: lambda: c != z}[d]()
        cache[k] = r
        self.keep.append((f, r))
        return r

    @_keepctr
    def prove(self, goal, timeout_ms=8000, portfolio=True, depth=0):
        """-> ('unsat'|'sat'|'unknown', backend, model)"""
        goal = z3.simplify(zb(goal))
        if z3.is_true(goal):
            return 'unsat', 'simplify', None
        self.check_time()
        key = (goal.get_id(), tuple(p.get_id() for p in self.pc), self.fsig())
        if key in self._proved:
            return 'unsat', self._proved[key], None
        r = self._prove(goal, timeout_ms, portfolio, depth)
        if r[0] == 'unsat':
            self._proved[key] = r[1]
            self.keep.append((goal, list(self.pc)))
        return r

    def under(self, c, fn):
        n = len(self.pc)
        self.pc.append(c)
        try:
            return fn()
        finally:
            del self.pc[n:]

    def _prove(self, goal, timeout_ms, portfolio, depth):
        if z3.is_and(goal):
            by = []
            for g in goal.children():
                r = self.prove(g, timeout_ms, portfolio, depth)
                if r[0] != 'unsat':
                    return r
                by.append(r[1])
            return 'unsat', '+'.join(sorted(set(by))), None
        if z3.is_implies(goal):
            return self.under(goal.arg(0), lambda: self.prove(goal.arg(1), timeout_ms, portfolio, depth))
        if z3.is_or(goal):
            # goal: A or B or (x == y): assume the others false
            eqs = [g for g in goal.children() if z3.is_eq(g) and g.arg(0).sort() == Real]
            if len(eqs) == 1:
                rest = [g for g in goal.children() if not g.eq(eqs[0])]
                return self.under(AND(*[NOT(g) for g in rest]), lambda: self.prove(eqs[0], timeout_ms, portfolio, depth))
        if z3.is_eq(goal) and goal.arg(0).sort() == Real and depth < 5:
            try:
                if self.prove_eq(goal.arg(0), goal.arg(1), depth):
                    self.stats.by['algebra'] = self.stats.by.get('algebra', 0) + 1
                    return 'unsat', 'algebra+z3', None
            except Unsupported:
                pass
        return self.solve_goal(goal, timeout_ms, portfolio)

    def quick(self, goal, depth):
        return self.prove(goal, timeout_ms=1500, portfolio=False, depth=depth)[0] == 'unsat'

    def struct_eq(self, l, r, budget):
        """equality by congruence on the terms as they are"""
        if l.eq(r):
            return True
        if budget[0] <= 0:
            return False
        if T.is_sum(l) and T.is_sum(r):
            ka, ha, fa = T.sum_parts(l)
            kb, hb, fb = T.sum_parts(r)
            if ka == kb and (ha.eq(hb) or self.cheap(ha == hb, budget)):
                k = T.fresh('k', Int)
                return self.under(AND(k >= 0, k < ha), lambda: self.struct_eq(z3.simplify(fa(k)), z3.simplify(fb(k)), budget))
            return False
        if not T.has_sum(l) and not T.has_sum(r):
            if self.cheap(l == r, budget):
                return True
            if l.sort() == Real and not has_ite(l) and not has_ite(r):
                try:
                    d = T.Norm(self.simple_prove).canon(l - r)
                    if z3.is_rational_value(d):
                        return d.as_fraction() == 0
                except Unsupported:
                    pass
        if l.decl().eq(r.decl()) and l.num_args() == r.num_args() and l.num_args():
            if l.decl().kind() == z3.Z3_OP_ITE:
                c = l.arg(0)
                if not c.eq(r.arg(0)) and not self.cheap(c == r.arg(0), budget):
                    return False
                return self.under(c, lambda: self.struct_eq(l.arg(1), r.arg(1), budget)) and \
                    self.under(NOT(c), lambda: self.struct_eq(l.arg(2), r.arg(2), budget))
            if all(self.struct_eq(x, y, budget) for x, y in zip(l.children(), r.children())):
                return True
            if l.num_args() == 2 and l.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL):
                return self.struct_eq(l.arg(0), r.arg(1), budget) and self.struct_eq(l.arg(1), r.arg(0), budget)
        return False

    def cheap(self, c, budget):
        budget[0] -= 1
        return self.simple_prove(c)

    def prove_eq(self, l, r, depth):
        """equality of reals by normalisation and congruence of the uninterpreted parts"""
        if self.struct_eq(l, r, [12]):
            return True
        N = T.Norm(self.simple_prove)
        d = N.canon(l - r)
        if z3.is_rational_value(d):
            return d.as_fraction() == 0
        tried = 0
        for rnd in range(8):
            apps = T.top_apps(d)
            done = False
            for i, a in enumerate(apps):
                for b in apps[i + 1:]:
                    if tried > 14:
                        return False
                    if not T.compatible(a, b):
                        continue
                    tried += 1
                    if self.congruent(a, b, depth + 1):
                        d = N.canon(T.replace_app(d, b, a))
                        done = True
                        break
                if done:
                    break
            if z3.is_rational_value(d):
                return d.as_fraction() == 0
            if not done:
                return False
        return False

    def congruent(self, a, b, depth):
        if a.eq(b):
            return True
        if T.is_sum(a) and T.is_sum(b):
            ka, ha, fa = T.sum_parts(a)
            kb, hb, fb = T.sum_parts(b)
            if ka != kb or not self.quick(ha == hb, depth):
                return False
            k = T.fresh('k', Int)
            return self.under(AND(k >= 0, k < ha), lambda: self.quick(fa(k) == fb(k), depth))
        if a.decl().eq(b.decl()):
            return all(self.quick(x == y, depth) for x, y in zip(a.children(), b.children()))
        return False

    def solve_goal(self, goal, timeout_ms, portfolio):
        N = T.Norm(self.simple_prove)
        neg = NOT(goal)
        forms = self.pc + [neg]
        raw = forms + self.instances(forms, rounds=2)
        nl = any(nonlinear(f) for f in raw)
        if nl and self._check(raw, 1500, True)[0] == z3.unsat:
            self.stats.by['z3'] = self.stats.by.get('z3', 0) + 1
            return 'unsat', 'z3', None
        r, s = self._check(raw, min(timeout_ms, 600) if nl else timeout_ms)
        if r == z3.unsat:
            self.stats.by['z3'] = self.stats.by.get('z3', 0) + 1
            return 'unsat', 'z3', None
        if r != z3.unsat and not nl and self.facts:
            raw = forms + self.instances(forms, rounds=2, pairs=16)
            r, s = self._check(raw, timeout_ms)
            if r == z3.unsat:
                self.stats.by['z3'] = self.stats.by.get('z3', 0) + 1
                return 'unsat', 'z3', None
        if r == z3.sat and not nl:
            self.stats.by['z3-sat'] = self.stats.by.get('z3-sat', 0) + 1
            return 'sat', 'z3', s.model()
        try:
            ng = self.normal(neg, N)
            pcs = [self.normal(p, N) for p in self.pc]
        except Unsupported:
            ng, pcs = neg, list(self.pc)
        r0 = None
        for n, (forms, tmo) in enumerate(((pcs + [ng], timeout_ms), (self.pc + pcs + [neg, ng], timeout_ms * 2))):
            inst = self.instances(forms, rounds=2, pairs=(8, 16)[n])
            if n == 0:
                try:
                    inst = [self.normal(i, N) for i in inst]
                except Unsupported:
                    pass
            r, s = self._check(forms + inst, tmo)
            if r == z3.unsat:
                self.stats.by['z3'] = self.stats.by.get('z3', 0) + 1
                return 'unsat', 'z3', None
            if r == z3.sat and n == 1:
                m = s.model()
                self.stats.by['z3-sat'] = self.stats.by.get('z3-sat', 0) + 1
                return 'sat', 'z3', m
            r0 = s
        if portfolio:
            r = run_cvc5(r0.to_smt2(), timeout_ms, self.stats)
            if r == 'unsat':
                self.stats.by['cvc5'] = self.stats.by.get('cvc5', 0) + 1
                return 'unsat', 'cvc5', None
        return 'unknown', 'z3+cvc5', None


def has_ite(f):
    return z3.is_app(f) and (f.decl().kind() == z3.Z3_OP_ITE or any(has_ite(c) for c in f.children()))


_LIN = {}
_UMUL = {}


def linearized(f):
    """products and quotients of unknowns as uninterpreted terms (weaker, hence sound for unsatisfiability)"""
    k = f.get_id()
    r = _LIN.get(k)
    if r is None:
        r = f
        if z3.is_app(f) and f.num_args():
            ch = [linearized(c) for c in f.children()]
            d = f.decl().kind()
            if d == z3.Z3_OP_MUL and sum(not (z3.is_rational_value(c) or z3.is_int_value(c)) for c in ch) > 1 \
                    or d in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not (z3.is_rational_value(ch[1]) or z3.is_int_value(ch[1])) or d == z3.Z3_OP_POWER:
                key = (d, len(ch), str(f.sort()))
                g = _UMUL.get(key)
                if g is None:
                    g = _UMUL[key] = z3.Function('u%d!%d!%s' % key, *[c.sort() for c in ch], f.sort())
                if d == z3.Z3_OP_MUL:
                    ch.sort(key=lambda c: c.get_id())
                r = g(*ch)
            elif any(not a.eq(b) for a, b in zip(ch, f.children())):
                r = f.decl()(*ch) if d not in (z3.Z3_OP_AND, z3.Z3_OP_OR) else (z3.And if d == z3.Z3_OP_AND else z3.Or)(*ch)
        _LIN[k] = r, f
        return r
    return r[0]


_NL = {}


def nonlinear(f):
    """the formula has products, quotients or sums for the normaliser to work on"""
    k = f.get_id()
    r = _NL.get(k)
    if r is None:
        r = False
        if z3.is_app(f):
            d = f.decl().kind()
            ch = f.children()
            if d == z3.Z3_OP_MUL:
                r = sum(not (z3.is_rational_value(c) or z3.is_int_value(c)) for c in ch) > 1
            elif d in (z3.Z3_OP_DIV, z3.Z3_OP_POWER):
                r = True
            elif d == z3.Z3_OP_UNINTERPRETED and ch and f.decl().name() in T.SUMS:
                r = True
            r = r or any(nonlinear(c) for c in ch)
        _NL[k] = r, f
        return r
    return r[0]


def run_cvc5(smt, timeout_ms, stats):
    import subprocess
    t = time.time()
    try:
        p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % timeout_ms, '--strings-exp', '-'],
                           input='(set-logic ALL)\n' + smt, capture_output=True, text=True, timeout=timeout_ms / 1000 + 5)
        out = p.stdout.strip().split('\n')[0] if p.stdout else ''
    except Exception:
        out = ''
    stats.solver_s += time.time() - t
    return out
