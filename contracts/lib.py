"""Proof units: a unit states the contract of one function (or one caller checked against contracts)
and generates obligations by symbolic execution of the function's source as it is in /repo now."""
import hashlib
import os
import sys
import time
import traceback
import z3
from pyvc import terms as T, npmodel as NP
from pyvc.core import Ctx, PyExc, Ref, Infeasible, Budget, ExcVal
from pyvc.interp import Interp, subclass, SRC
from pyvc.terms import S, Int, Real, Bool, AND, OR, NOT, IMP, ITE, zi, zr, zb, Unsupported
from pyvc.values import *

sys.setrecursionlimit(20000)
UNITS = []
ARITH = 'machine floating-point arithmetic is treated as exact real arithmetic (rounding, overflow and underflow are outside the contracts)'


class Unit:
    def __init__(self, props, name, fn, funcs, kw):
        self.props, self.name, self.fn, self.funcs, self.kw = props, name, fn, funcs, kw


def unit(props, *funcs, **kw):
    if isinstance(props, str):
        props = props.split()

    def d(fn):
        UNITS.append(Unit(props, fn.__name__, fn, list(funcs), kw))
        return fn
    return d


def each(props, variants, *funcs, **kw):
    """one unit per variant (a dict of keyword arguments)"""
    if isinstance(props, str):
        props = props.split()

    def d(fn):
        for v in variants:
            nm = fn.__name__ + '[' + ','.join(str(getattr(x, '__name__', x)) for x in v.values()) + ']'
            fs = [f.format(**v) for f in funcs]
            UNITS.append(Unit(props, nm, (lambda u, v=v: fn(u, **v)), fs, kw))
        return fn
    return d


class U:
    """one run of a unit"""

    def __init__(self, deadline, sizes=None):
        self.ctx = Ctx(deadline=deadline)
        self.I = Interp(self.ctx)
        self.sizes = sizes            # None: symbolic sizes; else the concrete size used for all of them
        self.assumptions = set()
        self.outcomes = 0
        self.covered = set()
        self.notes = []
        self.records = []             # obligations discharged in child processes
        self.children = 4
        self.timeout_ms = 6000

    def parallel(self, one, todo, take):
        """take(one(x)) for x in todo (which take may extend), in child processes that also discharge their obligations"""
        import pickle
        run, err = {}, None
        while (todo or run) and not (err and not run):
            while todo and len(run) < self.children and not err:
                x = todo.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    n0 = len(self.ctx.obls)
                    self.ctx.npaths, self.ctx.stats.solver_s = 0, 0.0
                    try:
                        try:
                            found = one(x)
                            res = (None, found, self.discharge_new(n0))
                        except (Unsupported, Budget, PyExc) as e:
                            res = ((type(e).__name__, str(e), where(e)), None, self.discharge_new(n0))
                        except Exception:
                            res = (('engine', traceback.format_exc()[-600:], None), None, self.discharge_new(n0))
                        with os.fdopen(w, 'wb') as f:
                            pickle.dump(res, f)
                    finally:
                        os._exit(0)
                os.close(w)
                run[r] = pid
            if not run:
                break
            import select
            for r in select.select(list(run), [], [])[0]:
                with os.fdopen(r, 'rb') as f:
                    data = f.read()
                os.waitpid(run.pop(r), 0)
                if not data:
                    err = ('engine', 'a child process ended without result', None)
                    continue
                e, found, (recs, st) = pickle.loads(data)
                self.records += recs
                self.ctx.npaths += st['paths']
                self.ctx.stats.solver_s += st['solver']
                self.assumptions |= st['assumptions']
                self.I.source_used |= st['source']
                if e:
                    err = e
                else:
                    take(found)
        if err:
            if err[0] == 'Budget':
                raise Budget(err[1])
            ex = Unsupported('%s%s' % (err[1], ' at %s' % err[2] if err[2] else ''))
            raise ex

    def discharge_new(self, n0):
        """the obligations recorded since n0, discharged"""
        recs = [discharge_rec(self, o, self.timeout_ms) for o in self.ctx.obls[n0:]]
        return recs, dict(paths=self.ctx.npaths, solver=self.ctx.stats.solver_s, assumptions=self.assumptions, source=self.I.source_used)

    # -------------------------------------------------------------- symbolic inputs
    def size(self, name, lo=0, small=None):
        if self.sizes is not None:
            s = self.sizes if isinstance(self.sizes, int) else self.sizes.get(name, self.sizes.get('*', 2))
            return max(lo, s) if small is None else small
        n = z3.Int(name)
        self.ctx.assume(n >= lo)
        return n

    def real(self, name, pre=None):
        r = z3.Real(name)
        if pre is not None:
            self.ctx.assume(pre(r))
        return S(r)

    def int(self, name, pre=None):
        r = z3.Int(name)
        if pre is not None:
            self.ctx.assume(pre(r))
        return S(r)

    def bool(self, name):
        return S(z3.Bool(name))

    def arr(self, name, *shape, dtype='f8', fixed=None, owner=None, nan=False):
        dt = NP.np.dtype(dtype)
        owner = owner or 'array ' + name
        if dt.kind in 'UO':
            f = z3.Function(name, *([Int] * len(shape) + [T.StrS if dt.kind == 'U' else T.ObjS]))
            wr = SStr if dt.kind == 'U' else Opq
            return NP.mk(self.I, shape, dt, lambda ix: wr(f(*[zi(i) for i in ix])), owner=owner), (lambda *ix: f(*[zi(i) for i in ix]))
        rng = {'f': Real, 'i': Int, 'u': Int, 'b': Bool}[dt.kind]
        f = z3.Function(name, *([Int] * len(shape) + [rng]))
        if dt.kind == 'u':
            self.ctx.assume_all(len(shape), lambda *ix: f(*ix) >= 0)
        fixed = dt.kind in 'iu' if fixed is None else fixed
        nf = z3.Function(name + '_nan', *([Int] * len(shape) + [Bool])) if nan else None
        jf = z3.Function(name + '_inf', *([Int] * len(shape) + [Bool])) if nan else None

        if dt.kind == 'f' and dt.itemsize < 8:
            g, f = f, lambda *ix: NP.rnd32(g(*ix))

        def elem(ix):
            ix = [zi(i) for i in ix]
            return S(f(*ix), nf(*ix) if nan else None, jf(*ix) if nan else None, True)
        a = NP.mk(self.I, shape, dt, elem, owner=owner, meta=dict(fixed=True) if fixed else None)
        return a, (lambda *ix: zr(f(*[zi(i) for i in ix])) if dt.kind != 'b' else f(*[zi(i) for i in ix]))

    # -------------------------------------------------------------- the code
    def mod(self, name):
        return self.I.module('kernelmethods.' + name)

    def get(self, q):
        """object 'module.Name.attr' of the source"""
        p = q.split('.')
        m = self.mod(p[0])
        if p[1] not in m.glob:
            raise Unsupported('%s is not there' % q)
        o = m.glob[p[1]]
        for a in p[2:]:
            if isinstance(o, UserClass):
                o, _ = o.lookup(a)
                if o is None:
                    raise Unsupported('%s is not there' % q)
            else:
                o = self.I.getattr(o, a)
        return o

    def call(self, f, *args, **kw):
        """-> ('ret', value) or ('raise', ExcVal)"""
        if isinstance(f, str):
            f = self.get(f)
        try:
            return 'ret', self.I.call(f, list(args), kw)
        except PyExc as e:
            return 'raise', e.val

    def attempt(self, fn):
        try:
            return 'ret', fn()
        except PyExc as e:
            return 'raise', e.val

    def meth(self, o, name, *args, **kw):
        return self.attempt(lambda: self.I.call_method(o, name, list(args), kw))

    def attr(self, o, name):
        return self.attempt(lambda: self.I.getattr(o, name))

    # -------------------------------------------------------------- obligations
    def ensure(self, name, goal):
        self.ctx.oblige(name, goal)

    def never(self, name, why=''):
        """this point must be unreachable"""
        self.ctx.oblige(name + (': ' + why if why else ''), z3.BoolVal(False))

    def idx(self, n, name='i'):
        """an arbitrary index below n"""
        i = T.fresh('any_' + name, Int)
        self.ctx.assume(AND(i >= 0, i < zi(n)))
        return i

    def returns(self, name, res):
        if res[0] != 'ret':
            self.never(name + ': returns', 'raises %s' % cname(res[1].cls))
        return res[1]

    def raises(self, name, res, *classes):
        cls = [self.cls(c) for c in classes]
        if res[0] != 'raise':
            self.never(name + ': raises ' + '/'.join(cname(c) for c in cls))
        if not any(subclass(res[1].cls, c) for c in cls):
            self.never(name + ': raises ' + '/'.join(cname(c) for c in cls), 'raises %s' % cname(res[1].cls))
        self.ensure(name + ': raises', z3.BoolVal(True))

    def cls(self, c):
        return self.get(c) if isinstance(c, str) else c

    def eq(self, name, v, e, nan=None):
        """the scalar v is the real number e (never NaN or infinite unless nan says so)"""
        if not (isinstance(v, S) or NP.is_num(v)):
            if NP.is_arr(self.I, v) and NP.cell(self.I, v).ndim == 0:
                v = NP.rd(self.I, v)(())
            else:
                return self.never(name + ': is a number', repr(v))
        g = zr(v) == e
        if isinstance(v, S):
            for fl in (v.nan, v.inf):
                if fl is not None:
                    g = AND(g, NOT(fl))
        if isinstance(v, float) and (v != v or v in (float('inf'), -float('inf'))):
            g = z3.BoolVal(False)
        self.ensure(name, g)

    def same_int(self, name, v, e):
        if isinstance(v, bool) or not (isinstance(v, int) or (isinstance(v, S) and v.e.sort() == Int)):
            if not isinstance(v, NP.np.integer):
                return self.never(name + ': is an integer', repr(v))
        self.ensure(name, zi(v) == zi(e))

    def array(self, name, v, shape):
        """v is a dense array of this shape -> its element function (to reals)"""
        if not NP.is_arr(self.I, v):
            self.never(name + ': is an array', repr(v))
        c = NP.cell(self.I, v)
        if len(c.shape) != len(shape):
            self.never(name + ': has %d dimensions' % len(shape))
        for k, (a, b) in enumerate(zip(c.shape, shape)):
            self.ensure(name + ': extent %d' % k, zi(a) == zi(b))
        e = NP.rd(self.I, c)
        return lambda *ix: e(tuple(ix))

    def array_is(self, name, v, shape, spec, dense=True):
        """v is an array of the given shape and entries"""
        e = self.array(name, v, shape)
        c = NP.cell(self.I, v)
        if dense and c.sparse:
            self.never(name + ': is dense')
        ix = [self.idx(n, 'ijk'[k]) for k, n in enumerate(shape)]
        self.eq(name + ': entries', e(*ix), spec(*ix))

    def local(self):
        """with u.local(): what is assumed inside is forgotten afterwards (obligations within the execution of the code)"""
        import contextlib

        @contextlib.contextmanager
        def cm():
            c = self.ctx
            pc, facts = list(c.pc), list(c.facts)
            try:
                yield
            finally:
                c.pc[:], c.facts[:] = pc, facts
        return cm()

    def assume_note(self, s):
        self.assumptions.add(s)


def cname(c):
    return getattr(c, '__name__', str(c))


# ---------------------------------------------------------------- running
def explore(u, un):
    """symbolic execution of the unit; obligations collected in u.ctx.obls"""
    for m in ('config', 'utils', 'base', 'operations', 'numeric_kernels', 'categorical', 'sampling', 'ranking', 'algorithms'):
        try:
            u.mod(m)          # module level objects exist before the paths fork
        except Unsupported:
            pass

    def thunk():
        u.I.exc_stack = []
        u.I.call_depth = 0
        u.ctx.given = {}
        u.ctx.frames = un.kw.get('frames', False)
        un.fn(u)
        if u.ctx.frames:
            # path by path: what the caller gave is as it was (writes are checked where they happen)
            for a, c in list(u.ctx.given.items()):
                if u.ctx.store.get(a) is c:
                    u.ctx.oblige('frame: %s is as it was given' % c.owner, z3.BoolVal(True))
                else:
                    u.ctx.frame_check(c, u.ctx.store.get(a))
        u.outcomes += 1
        return 'done', None
    u.ctx.explore(thunk, memo=False)


def discharge(u, o, timeout_ms):
    name, goal, pc, facts, imp, info = o
    c = u.ctx
    sv = (c.pc, c.facts, c.imprecise)
    c.pc, c.facts, c.imprecise = list(pc), list(facts), list(imp)
    try:
        return c.prove(goal, timeout_ms=timeout_ms)
    finally:
        c.pc, c.facts, c.imprecise = sv


def discharge_rec(u, o, timeout_ms):
    try:
        st, by, model = discharge(u, o, timeout_ms)
    except (Unsupported, Budget) as e:
        st, by, model = 'unknown', str(e)[:200], None
    rec = dict(name=o[0], back_end=by, status={'unsat': 'proved', 'sat': 'refuted', 'unknown': 'unknown'}[st])
    if st == 'sat':
        rec['ints'], rec['floats'] = constants(model)
        rec['imprecise'] = [str(x) for x in o[4][:2]]
    if st != 'unsat':
        rec['detail'] = str(o[1])[:500]
    return rec


def constants(model):
    ints, floats = set(), set()
    if model is None:
        return [], []
    for d in model.decls():
        if d.arity() == 0:
            v = model[d]
            if z3.is_int_value(v):
                n = v.as_long()
                if abs(n) < 10 ** 6:
                    ints.add(n)
            elif z3.is_rational_value(v):
                f = v.as_fraction()
                floats.add(float(f))
    return sorted(ints)[:40], sorted(floats)[:40]


SIZES = (2, 3, 1)


def run_unit(un, budget, thorough=False):
    t0 = time.time()
    T.CTR[0] = 0
    u = U(t0 + budget)
    u.timeout_ms = 20000 if thorough else 6000
    out = dict(unit=un.name, functions=un.funcs, obligations=[], unsupported=[], assumptions=[], bounded=[])
    try:
        explore(u, un)
    except Unsupported as e:
        out['unsupported'].append(dict(function=','.join(un.funcs), unit=un.name, reason=str(e)[:300], where=where(e)))
    except Budget as e:
        out['unsupported'].append(dict(function=','.join(un.funcs), unit=un.name, reason='budget: ' + str(e)))
    except Exception as e:
        out['unsupported'].append(dict(function=','.join(un.funcs), unit=un.name, reason='engine: ' + traceback.format_exc()[-600:]))
    out['complete'] = not out['unsupported']
    if out['complete'] and not u.ctx.obls and not u.records and not un.kw.get('frames'):
        out['unsupported'].append(dict(function=','.join(un.funcs), unit=un.name, reason='no obligation was generated'))
    recs = [discharge_rec(u, o, u.timeout_ms) for o in u.ctx.obls] + u.records
    confirmed = {}
    if any(r['status'] != 'proved' for r in recs) or out['unsupported'] and not fresh_only(out):
        # a refutation counts only where sizes are concrete and nothing is approximated
        confirmed = confirm(un, min(110, budget * 0.4))
    for rec in recs:
        if rec['status'] != 'proved':
            imp = rec.pop('imprecise', None)
            if rec['name'] in confirmed:
                rec['status'] = 'refuted'
                for k in ('ints', 'floats'):
                    rec[k] = sorted(set(rec.get(k, [])) | set(confirmed[rec['name']][k]))
            elif rec['status'] == 'refuted':
                rec['status'] = 'unknown'
                rec['detail'] += ' (over-approximated: %s)' % (imp,) if imp else ' (not confirmed for inputs of sizes %s)' % (SIZES,)
    have = {r['name'] for r in recs if r['status'] == 'refuted'}
    recs += [dict(name=nm, **r) for nm, r in sorted(confirmed.items()) if nm not in have]
    for rec in recs:
        rec['name'] = un.name + ': ' + rec['name']
        rec['function'] = ','.join(un.funcs)
        out['obligations'].append(rec)
    out['assumptions'] = sorted(u.assumptions)
    out['source_used'] = sorted(u.I.source_used)
    out['solver_s'] = round(u.ctx.stats.solver_s, 3)
    out['paths'] = u.ctx.npaths
    out['wall'] = round(time.time() - t0, 2)
    return out


def fresh_only(out):
    """nothing but the absence of obligations is wrong"""
    return all(x['reason'] == 'no obligation was generated' for x in out['unsupported'])


def confirm(un, budget):
    """the unit at small concrete sizes, where sums and loops are unrolled exactly: the refuted obligations"""
    bad = {}
    end = time.time() + budget
    for n in SIZES:
        left = end - time.time()
        if left < 2:
            break
        u = U(time.time() + left * 0.5, sizes=n)
        try:
            explore(u, un)
        except (Unsupported, Budget):
            pass
        except Exception:
            continue
        u.ctx.deadline = time.time() + max(5, left * 0.25)
        for o in u.ctx.obls:
            if o[4] or o[0] in bad:
                continue
            try:
                st, by, model = discharge(u, o, 4000)
            except (Unsupported, Budget):
                continue
            if st == 'sat':
                ints, floats = constants(model)
                bad[o[0]] = dict(status='refuted', back_end=by, detail=str(o[1])[:500], ints=ints, floats=floats)
        if bad:
            break
    return bad


def where(e):
    tb = e.__traceback__
    s = []
    while tb is not None:
        f = tb.tb_frame
        if f.f_code.co_name in ('exec', 'ev') and 'st' in f.f_locals:
            s.append(getattr(f.f_locals['st'], 'lineno', 0))
        tb = tb.tb_next
    return s[-4:]


def source_hash():
    h = {}
    for f in sorted(os.listdir(SRC)):
        if f.endswith('.py'):
            h[f] = hashlib.sha256(open(os.path.join(SRC, f), 'rb').read()).hexdigest()[:16]
    return h
