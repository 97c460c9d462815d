"""Object invariant of KernelMatrix, found as the set of abstract states reachable by reads.

A state abstracts every attribute of the object: unchanged since attach_to, a constant, one of the arrays
a KernelMatrix stands for (kernel matrix, upper triangle, normalized, centered), its norm, a counter, or a
dictionary under invariant (keys: pairs within range, values: kernel values).  Attribute names are taken from
the object as the source makes it; none is fixed here.  Each read is executed from each state; its
postcondition is an obligation, and so is that the state it leaves is one of the set.

With concrete sizes (used to confirm a refuted obligation) there is no abstraction: sequences of reads are
executed from the freshly attached object.
"""
from .lib import *
from . import c_ops
from pyvc import loops
from pyvc.core import nonlinear, Infeasible


class Kern(ExtObj):
    """a kernel function: a pure symmetric function of two rows, as seen from the attached samples"""

    def __init__(self, km):
        self.km = km
        self.kms = [km]
        self.failing = False

    def isinstance_(self, I, cls):
        return cls is self.km.base

    def getattr_(self, I, name):
        if name == 'name':
            return 'K'
        if name in ('__str__', '__repr__', '__format__'):
            return Builtin(name, lambda I, a, k: 'K')
        raise PyExc(ExcVal(AttributeError))

    def row(self, I, v):
        if not NP.is_arr(I, v):
            raise Unsupported('kernel called with something else than rows of the samples')
        c = NP.cell(I, v)
        if c.ndim != 1:
            raise Unsupported('kernel called with something else than rows of the samples')
        b = z3.Int('?col')
        e = NP.rd(I, c)((b,))
        e = z3.simplify(zr(e))
        for km in self.kms:
            for nm, f in km.samples.items():
                if z3.is_app(e) and e.decl().eq(f) and e.arg(1).eq(b):
                    if not I.ctx.simple_prove(zi(c.shape[0]) == zi(km.d)):
                        raise Unsupported('part of a row given to the kernel')
                    return km, nm, e.arg(0)
        raise Unsupported('kernel called with something else than rows of the samples')

    def call_(self, I, args, kw):
        if kw or len(args) != 2:
            raise Unsupported('call of the kernel')
        (k1, a, i), (k2, b, j) = self.row(I, args[0]), self.row(I, args[1])
        if self.failing and k1 is k2 and (a != b) == k1.two:
            p = (i, j) if a <= b else (j, i)
            if not k1.two:
                p = (ITE(i <= j, i, j), ITE(i <= j, j, i))
            if I.ctx.decide(z3.Function('fails', Int, Int, Bool)(*p)):
                raise PyExc(ExcVal(Exception))
        if k1 is not k2:
            # rows of different data
            if not I.ctx.simple_prove(zi(k1.d) == zi(k2.d)):
                raise PyExc(ExcVal(ValueError))
            if self.kms.index(k1) > self.kms.index(k2):
                k1, a, i, k2, b, j = k2, b, j, k1, a, i
            return S(z3.Function('k%s%s%s%s' % (a, k1.tag, b, k2.tag), Int, Int, Real)(i, j), None, None, True)
        return k1.evaluate(I, a, i, b, j)


def symmetric(f):
    T.SCHEMAS[f.name()] = lambda a: [a == f(a.arg(1), a.arg(0))]


class KM:
    """one attached KernelMatrix; two: on two samples"""

    def __init__(self, u, two=False, normalized=False, tag='', props=(), zero=None, nonneg=True, kernel=None):
        self.counting, self.partial, self.wild = True, False, False
        self.u, self.two, self.normalized, self.tag = u, two, normalized, tag
        I, ctx = u.I, u.ctx
        self.base = u.get('base.BaseKernelFunction')
        self.n = u.size('n' + tag, 1)
        self.m = u.size('m' + tag, 1) if two else self.n
        self.d = u.size('d' + tag, 1)
        self.props = props
        n, m, d = self.n, self.m, self.d
        self.X, _ = u.arr('X' + tag, n, d)
        self.samples = {'X': z3.Function('X' + tag, Int, Int, Real)}
        if two:
            self.Y, _ = u.arr('Y' + tag, m, d)
            self.samples['Y'] = z3.Function('Y' + tag, Int, Int, Real)
        F2 = lambda nm: z3.Function(nm + tag, Int, Int, Real)
        self.kXX, self.kYY, self.kXY = F2('kXX'), F2('kYY'), F2('kXY')
        symmetric(self.kXX)
        symmetric(self.kYY)
        self.K = self.kXY if two else self.kXX
        kf = self.K
        self.nrm = F2('normXY' if two else 'normXX')
        dx, dy = self.kXX, self.kYY if two else self.kXX

        def norm_ax(a):
            i, j = a.arg(0), a.arg(1)
            p = T.sqrt_f(dx(i, i)) * T.sqrt_f(dy(j, j))
            return [IMP(AND(dx(i, i) > 0, dy(j, j) > 0), AND(a * p == kf(i, j), a == kf(i, j) / p))]
        T.SCHEMAS[self.nrm.name()] = norm_ax
        self.cen = F2('centXX')
        spec = c_ops.centered(lambda i, j: kf(zi(i), zi(j)), n)
        T.SCHEMAS[self.cen.name()] = lambda a: [a == spec(a.arg(0), a.arg(1))]
        self.frb = z3.Function('frobK' + tag, Int, Real)
        fs = T.sqrt_f(c_ops.frob(lambda i, j: kf(zi(i), zi(j)), lambda i, j: kf(zi(i), zi(j)), n, m))
        T.SCHEMAS[self.frb.name()] = lambda a: [a == fs]
        self.FN = self.frb(z3.IntVal(0))
        # self-similarities: some is zero, or all are clearly positive
        self.zero = zero
        self.zero = self.zero if self.zero != 'any' else None
        if self.zero is not None:
            z, self.zero = self.zero, None
            self.assume_zero(z)
        self.guard = None
        self.mode = 'ok'
        self.kernel = kernel or Kern(self)
        if kernel is not None:
            kernel.kms.append(self)
        self.install()

    def assume_zero(self, z):
        """z: some self-similarity is zero (True), all are clearly positive (False), not said (None)"""
        u, ctx, n, m, two = self.u, self.u.ctx, self.n, self.m, self.two
        self.zero = z
        if z is True:
            w = T.fresh('zero', Int)
            ctx.assume(OR(AND(w >= 0, w < zi(n), self.kXX(w, w) == 0), AND(w >= 0, w < zi(m), self.kYY(w, w) == 0) if two else z3.BoolVal(False)))
        elif z is False:
            ctx.assume_all(1, lambda i: AND(IMP(AND(i >= 0, i < zi(n)), self.kXX(i, i) > c_ops.EPS0),
                                            IMP(AND(i >= 0, i < zi(m)), self.kYY(i, i) > c_ops.EPS0) if two else z3.BoolVal(True)))

    # ------------------------------------------------------------ the kernel
    def evaluate(self, I, a, i, b, j):
        u = self.u
        if a == b:
            r = (self.kXX if a == 'X' else self.kYY)(i, j)
            i, j = z3.simplify(i), z3.simplify(j)
            if I.ctx.simple_prove(i <= j):
                pair = (i, j)
            elif I.ctx.simple_prove(j <= i):
                pair = (j, i)
            else:
                pair = (z3.simplify(ITE(i <= j, i, j)), z3.simplify(ITE(i <= j, j, i)))
        else:
            if a == 'Y':
                i, j = j, i
            r = self.kXY(i, j)
            pair = (i, j)
        if (a != b) == self.two:
            self.evaluated(I, pair)
        return self.value(r, a + b, i, j)

    def value(self, r, ab, i, j):
        """kernel value; wild: possibly NaN or infinite"""
        if not self.wild:
            return S(r, None, None, True)
        return S(r, *self.wildness(ab if ab != 'YX' else 'XY', i, j), True)

    def wildness(self, ab, i, j, ordered=False):
        i, j = zi(i), zi(j)
        if ab in ('XX', 'YY') and not ordered:
            i, j = ITE(i <= j, i, j), ITE(i <= j, j, i)
        nan, inf = (z3.Function('%s_%s%s' % (f, ab, self.tag), Int, Int, Bool)(i, j) for f in ('nan', 'inf'))
        return nan, z3.simplify(AND(inf, NOT(nan)))

    def evaluated(self, I, pair):
        u, ctx = self.u, self.u.ctx
        if not self.counting:
            return
        if self.guard is not None:
            ctx.oblige('kernel evaluated only for requested pairs', self.guard(*pair))
        for ad in [ad for ad, c in ctx.store.items() if isinstance(c, DCell) and c.sym is not None and c.sym.ghost is not None]:
            s = ctx.store[ad].sym
            ctx.oblige('kernel evaluated at most once per pair', NOT(s.ghost(pair)))
            old = s.ghost
            ctx.store[ad] = DCell(None, SymMap(s.sorts, s.dom, s.val, s.inv, lambda p, old=old: OR(old(p), AND(*[x == y for x, y in zip(pair, p)]))))
            return
        for ev in ctx.store.get('log', ()):
            if ev[0] == 'keval':
                ctx.oblige('kernel evaluated at most once per pair', NOT(AND(*[x == y for x, y in zip(pair, ev[1])])))
        ctx.log('keval', pair)

    def decide_zero(self):
        if self.zero is None:
            raise Unsupported('normalization where the contract does not expect it')

    # ------------------------------------------------------------ contracts of the callees
    def install(self):
        I = self.u.I
        prev = dict(I.stubs)

        def is_k(v):
            """the array is the kernel matrix of this object"""
            if not NP.is_arr(I, v):
                return False
            c = NP.cell(I, v)
            return not c.sparse and c.ndim == 2 and self.arr_is(c, self.K, (self.n, self.m))

        def chain(q):
            return prev.get(q)

        def stub(q, fn):
            def g(I, f, a, k):
                r = fn(a, k)
                if r is None:
                    p = chain(q)
                    return p(I, f, a, k) if p else I.call_user(f, a, k)
                return r[0]
            I.stubs[q] = g

        def st_center(a, k):
            if len(a) == 1 and not k and not self.two and is_k(a[0]):
                return NP.mk(I, (self.n, self.n), 'f8', lambda ix: S(self.cen(*map(zi, ix)), None, None, True)),
        stub('operations.center_km', st_center)

        def normed(m):
            return m is None or isinstance(m, str) and m.lower() == 'cosine'

        def st_norm(a, k):
            if self.two or not a or not normed(k.get('method', a[1] if len(a) > 1 else None)) or not is_k(a[0]):
                return None
            self.decide_zero()
            if self.zero:
                raise PyExc(ExcVal(self.u.get('config.KMNormError')))
            return NP.mk(I, (self.n, self.n), 'f8', lambda ix: S(self.nrm(*map(zi, ix)), None, None, True)),

        def any_norm(fn):
            def g(a, k):
                if not self.wild:
                    return fn(a, k)
                nan, inf = (z3.Function(f + '_norm', Int, Int, Bool) for f in ('nan', 'inf'))
                return NP.mk(I, (self.n, self.m), 'f8', lambda ix: S(self.nrm(*map(zi, ix)), nan(*map(zi, ix)), AND(inf(*map(zi, ix)), NOT(nan(*map(zi, ix)))), True)),
            return g
        stub('operations.normalize_km', any_norm(st_norm))

        def st_norm2(a, k):
            names = ('cross_K_XY', 'diag_K_XX', 'diag_K_YY', 'method')
            b = dict(zip(names, a))
            b.update(k)
            if not self.two or not all(x in b for x in names[:3]) or not normed(b.get('method')) or not is_k(b[names[0]]):
                return None
            for x, n, f in ((b[names[1]], self.n, self.kXX), (b[names[2]], self.m, self.kYY)):
                if not NP.is_arr(I, x) or NP.cell(I, x).ndim != 1 or not self.arr_is(NP.cell(I, x), lambda i, f=f: f(i, i), (n,)):
                    return None
            self.decide_zero()
            if self.zero:
                raise PyExc(ExcVal(self.u.get('config.KMNormError')))
            return NP.mk(I, (self.n, self.m), 'f8', lambda ix: S(self.nrm(*map(zi, ix)), None, None, True)),
        stub('operations.normalize_km_2sample', any_norm(st_norm2))

        def st_2d(a, k):
            if len(a) == 1 and set(k) == {'ensure_dtype'} and NP.is_arr(I, a[0]) and k['ensure_dtype'] == NP.cell(I, a[0]).dtype and \
                    NP.cell(I, a[0]).ndim == 2 and not NP.cell(I, a[0]).sparse:
                return a[0],
        stub('utils.ensure_ndarray_2D', st_2d)

        def st_frob(a, k):
            if len(a) == 1 and not k and is_k(a[0]):
                return S(self.FN, None, None, True),
        stub('operations.frobenius_norm', st_frob)

    def arr_is(self, c, spec, shape, upper=False):
        """provably (cheaply) the array with these entries"""
        ctx = self.u.ctx
        if len(c.shape) != len(shape) or c.dtype.kind != 'f':
            return False
        for a, b in zip(c.shape, shape):
            if not ctx.simple_prove(zi(a) == zi(b)):
                return False
        ix = [z3.Const(T.gname('q'), Int) for _ in shape]
        v = NP.rd(self.u.I, c)(tuple(ix))
        if not isinstance(v, S) and not NP.is_num(v):
            return False
        g = zr(v) == spec(*ix)
        if isinstance(v, S):
            for fl in (v.nan, v.inf):
                if fl is not None:
                    g = AND(g, NOT(fl))
        if upper:
            g = IMP(ix[0] <= ix[1], g)
        return ctx.prove(IMP(NP.rng(ix, shape), g), timeout_ms=3000, portfolio=False)[0] == 'unsat'

    # ------------------------------------------------------------ the object
    def construct(self):
        u = self.u
        self.guard = lambda i, j: z3.BoolVal(False)
        self.ref = u.returns('construction', u.call('base.KernelMatrix', self.kernel, normalized=self.normalized))
        self.attach(self.ref)
        self.guard = None

    def attach(self, ref):
        u = self.u
        if self.two:
            r = u.meth(ref, 'attach_to', self.X, sample_two=self.Y)
        else:
            r = u.meth(ref, 'attach_to', self.X)
        u.returns('attach_to', r)

    def bound(self, p):
        i, j = p
        if self.two:
            return AND(i >= 0, i < zi(self.n), j >= 0, j < zi(self.m))
        return AND(i >= 0, i <= j, j < zi(self.n))

    def generalize(self):
        """the freshly attached object with its empty dictionaries replaced by any dictionary under the invariant"""
        u, ctx, I = self.u, self.u.ctx, self.u.I
        c = ctx.get(self.ref)
        attrs = u.returns('attributes()', u.meth(self.ref, 'attributes'))
        self.attr_addr = attrs.a if isinstance(attrs, Ref) else None
        self.fresh = dict(c.fields)
        ghosted = False
        for nm, v in c.fields.items():
            if isinstance(v, Ref) and isinstance(ctx.get(v), DCell) and v.a != self.attr_addr:
                dc = ctx.get(v)
                if dc.sym is not None or dc.items:
                    continue
                D = z3.Function('D_%s%s' % (nm, self.tag), Int, Int, Bool)
                G = z3.Function('G_%s%s' % (nm, self.tag), Int, Int, Bool)
                inv = DictInv(self.bound, lambda p: self.value(self.K(*p), 'XY' if self.two else 'XX', *p))

                def dom(p, D=D):
                    if len(p) != 2 or any(x.sort() != Int for x in p):
                        raise Unsupported('key of another kind in a dictionary under invariant')
                    return AND(self.bound(p), D(*p))
                ghost = None if ghosted else (lambda p, D=D, G=G: AND(self.bound(p), D(*p), G(*p)))
                ghosted = True
                ctx.set(v, DCell(None, SymMap(None, dom, inv.val, inv, ghost)))
        self.ghosted = ghosted
        self.store0 = dict(ctx.store)
        self.cells0 = {v.a: ctx.store[v.a] for v in self.fresh.values() if isinstance(v, Ref)}

    # ------------------------------------------------------------ abstraction
    def same(self, v, b):
        if isinstance(v, Ref):
            return isinstance(b, Ref) and v.a == b.a and self.u.ctx.store.get(v.a) is self.cells0.get(v.a)
        if isinstance(v, S) and isinstance(b, S):
            return v.e.eq(b.e)
        if isinstance(v, tuple) and isinstance(b, tuple):
            return len(v) == len(b) and all(self.same(x, y) for x, y in zip(v, b))
        if v is b:
            return True
        return type(v) is type(b) and isinstance(v, (str, int, float, bool)) and v == b

    def candidates(self):
        K = self.K
        yield 'full', K
        yield 'upper', lambda i, j: ITE(j >= i, K(i, j), z3.RealVal(0))
        yield 'norm', self.nrm
        if not self.two:
            yield 'cent', self.cen

    def label(self, nm, v):
        u, ctx, I = self.u, self.u.ctx, self.u.I
        if nm in self.fresh and self.same(v, self.fresh[nm]):
            return ('same',)
        if v is None or isinstance(v, (bool, str)):
            return ('const', v)
        if isinstance(v, Ref):
            c = ctx.get(v)
            if isinstance(c, DCell):
                if nm in self.fresh and isinstance(self.fresh[nm], Ref) and self.fresh[nm].a == v.a:
                    c0 = self.cells0[v.a]
                    if c.sym is not None and c.sym.inv is not None and c.sym.inv is c0.sym.inv and (c.sym.ghost is None) == (c0.sym.ghost is None):
                        ps = tuple(z3.Const(T.gname('p'), Int) for _ in range(2))
                        for g in loops.dict_inv_goals(c0, c, ps) or [z3.BoolVal(False)]:
                            ctx.oblige('object invariant: stored kernel values', g)
                        return ('same',)
                raise Unsupported('attribute %s: a dictionary of another kind' % nm)
            if isinstance(c, ACell):
                if c.ndim == 2 and c.dtype.kind == 'f' and c.owner is None:
                    e = zr(NP.rd(I, c)((z3.Int('?r'), z3.Int('?c'))))
                    used = {x.decl().name() for x in T.apps_in(e, lambda x: x.num_args() > 0)}
                    cands = list(self.candidates())
                    # the arrays whose symbol occurs come first; a product or quotient may be the normalized one
                    own = {'full': self.K, 'upper': self.K, 'norm': self.nrm, 'cent': self.cen}
                    first = [x for x in cands if own[x[0]].name() in used]
                    rest = [x for x in cands if x not in first] if nonlinear(e) or not first else []
                    for cn, spec in first + rest:
                        if self.arr_is(c, spec, (self.n, self.m)):
                            return ('arr', cn, str(c.dtype), c.sparse)
                    if self.partial and not c.sparse and self.arr_is(c, self.K, (self.n, self.m), upper=True):
                        # the upper triangle, the rest being unfinished
                        return ('arr', 'unfinished', str(c.dtype), c.sparse)
                raise Unsupported('attribute %s: an array of unknown content' % nm)
            raise Unsupported('attribute %s: an object of another kind' % nm)
        if isinstance(v, (S, int, float)) or NP.is_num(v):
            if isinstance(v, S) and v.e.sort() == Real:
                if ctx.prove(AND(v.e == self.FN, *[NOT(f) for f in (v.nan, v.inf) if f is not None]), timeout_ms=3000, portfolio=False)[0] == 'unsat':
                    return ('frob',)
                raise Unsupported('attribute %s: a number of unknown value' % nm)
            if isinstance(v, S) and v.e.sort() == Bool:
                return ('const', ctx.decide(v.e))
            if isinstance(v, S):
                return ('int',)
            if isinstance(v, int):
                return ('int',)
        raise Unsupported('attribute %s: %r' % (nm, v))

    def abstract(self):
        ctx = self.u.ctx
        f = ctx.get(self.ref).fields
        out, seen = {}, {}
        for nm in sorted(f):
            v = f[nm]
            if isinstance(v, Ref) and isinstance(ctx.get(v), ACell) and not (nm in self.fresh and self.same(v, self.fresh[nm])):
                if v.a in seen:
                    out[nm] = ('alias', seen[v.a])
                    continue
                seen[v.a] = nm
            lb = self.label(nm, v)
            out[nm] = lb
        for nm in self.fresh:
            if nm not in f:
                out[nm] = ('absent',)
        return tuple(sorted((k, v) for k, v in out.items() if v != ('same',)))

    def concretize(self, key):
        u, ctx, I = self.u, self.u.ctx, self.u.I
        ctx.store.update(self.store0)
        f = dict(self.fresh)
        for nm, lb in key:
            if lb[0] == 'absent':
                f.pop(nm, None)
            elif lb[0] == 'const':
                f[nm] = lb[1]
            elif lb[0] == 'arr' and lb[1] == 'unfinished':
                rest, restn = z3.Function('unfinished', Int, Int, Real), z3.Function('unfinished_nan', Int, Int, Bool)

                def el(ix):
                    i, j = map(zi, ix)
                    return S(ITE(i <= j, self.K(i, j), rest(i, j)), z3.simplify(AND(i > j, restn(i, j))), None, True)
                f[nm] = I.ctx.alloc(ACell((self.n, self.m), lb[2], el, sparse=lb[3]))
            elif lb[0] == 'arr':
                spec = dict(self.candidates())[lb[1]]
                f[nm] = I.ctx.alloc(ACell((self.n, self.m), lb[2], lambda ix, spec=spec: S(spec(*map(zi, ix)), None, None, True), sparse=lb[3]))
            elif lb[0] == 'frob':
                f[nm] = S(self.FN, None, None, True)
            elif lb[0] == 'int':
                x = T.fresh('cnt', Int)
                ctx.assume(x >= 0)
                f[nm] = S(x)
        for nm, lb in key:
            if lb[0] == 'alias':
                f[nm] = f[lb[1]]
        ctx.set(self.ref, OCell(ctx.get(self.ref).cls, f))

    # ------------------------------------------------------------ closure
    def closure(self, ops, only=None, limit=64):
        """explore all reads from all abstract states; returns the states.  ops: name -> fn(km) ; only: ops whose
        postconditions are wanted (others are executed to find the states)"""
        u, ctx = self.u, self.u.ctx
        if u.sizes is not None:
            return self.histories(ops)
        self.generalize()
        states, todo = {(): 0}, [((), nm) for nm in ops]

        def one(x):
            """a read from one state -> the states it leaves"""
            found = []
            for key, nm in [x]:
                op = ops[nm]
                if getattr(op, 'zero', False) and any(lb[:2] == ('arr', 'norm') for _, lb in key):
                    continue          # a normalized matrix and a zero self-similarity exclude each other
                def thunk(key=key, op=op, nm=nm):
                    self.concretize(key)
                    u.I.exc_stack = []
                    u.I.call_depth = 0
                    ctx.imprecise.append('abstract state')
                    self.guard = None
                    self.assume_zero(getattr(op, 'zero', None))
                    op(self)
                    self.guard = None
                    return 'next', self.abstract()
                for o in ctx.explore(thunk, memo=False):
                    if o.value not in found:
                        found.append(o.value)
            return found

        def take(found):
            for v in found:
                if v not in states:
                    states[v] = len(states)
                    todo.extend((v, nm) for nm in ops)
                    if len(states) > limit:
                        raise Unsupported('too many object states')
        u.parallel(one, todo, take)
        self.states = states
        ctx.oblige('object invariant: closed under reads', z3.BoolVal(True))
        return states

    def histories(self, ops, depth=2):
        """exact sequences of reads (concrete sizes) -> what they leave"""
        u, ctx = self.u, self.u.ctx
        stores = [dict(ctx.store)]
        base = ctx.get(self.ref).fields
        pcs = [(list(ctx.pc), list(ctx.facts))]
        front = [(dict(ctx.store), [], [], [])]
        left = list(front)
        seen = set()
        for dpt in range(depth + 1):
            nxt = []
            for st, pc, facts, imp in front:
                for nm, op in ops.items():
                    def thunk(st=st, op=op, pc=pc, facts=facts, imp=imp):
                        ctx.store = dict(st)
                        self.assume_zero(getattr(op, 'zero', None))
                        ctx.pc += pc
                        ctx.facts += facts
                        ctx.imprecise += imp
                        u.I.exc_stack = []
                        u.I.call_depth = 0
                        self.guard = None
                        try:
                            op(self)
                        except Unsupported:
                            raise Infeasible()        # this history confirms nothing
                        self.guard = None
                        return 'next', None
                    for o in ctx.explore(thunk, memo=False):
                        f = o.store[self.ref.a].fields
                        key = tuple(sorted((k, 'u' if self.quick_same(v, base.get(k), st) else repr(v) if isinstance(v, (bool, int, type(None))) else type(v).__name__) for k, v in f.items())) + \
                            (len([1 for c in o.store.values() if isinstance(c, ACell)]) - len([1 for c in st.values() if isinstance(c, ACell)]) > 99,)
                        key = (key, nm if dpt == 0 else None)
                        if key in seen:
                            continue
                        seen.add(key)
                        nxt.append((o.store, o.pc, o.facts, o.flags))
            front = nxt
            left += nxt
        return left

    def quick_same(self, v, b, st):
        if isinstance(v, Ref):
            return isinstance(b, Ref) and v.a == b.a
        if isinstance(v, S) and isinstance(b, S):
            return v.e.eq(b.e)
        return v is b or (type(v) is type(b) and isinstance(v, (str, int, float, bool)) and v == b)
