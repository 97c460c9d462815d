"""C16, C17: kernel machines.

Callees by their contracts: KernelMatrix (C01, C02, C04: the matrix of its kernel on the samples attached last, normalized
if asked for), find_optimal_kernel (C15), make_kernel_bucket (C14); scikit-learn's validation and learners are assumed.

Histories: the states an object can be in are: made, fitted to some data, and predicted with some points after that.
Fitting and predicting from each of these leave an object in one of them again (compared attribute by attribute), so
that the postconditions proved for each of them hold after every sequence of fits and predictions."""
from fractions import Fraction
from .lib import *


class Data:
    """training data (x, y, weights) or test points (x)"""

    def __init__(self, w, tag, d, labels=None):
        u = w.u
        self.tag = tag
        self.n, self.d = u.size('n' + tag, 1), d
        self.X, self.x = u.arr('X' + tag, self.n, d)
        if labels:
            self.dt = labels
            self.y, self.Y = u.arr('y' + tag, self.n, dtype=labels, fixed=False)
            self.w, self.W = u.arr('w' + tag, self.n)
        w.data[tag] = self


class Kernel(Opq):
    def __init__(self, e, cls):
        self.e, self.cls, self.classes = e, cls, ()

    def isinstance_(self, I, cls):
        return cls is self.cls or cls is object


class Matrix(ExtObj):
    """a kernel matrix under contract: kernel, normalization, and the samples attached last (kept in the store)"""

    def __init__(self, w, kernel, norm, state=None):
        self.w, self.kernel, self.norm = w, kernel, norm
        self.state = w.u.ctx.alloc(DCell({'on': None})) if state is None else state

    def isinstance_(self, I, cls):
        return cls is self.w.u.get('base.KernelMatrix') or cls is object

    def on(self):
        return self.w.u.ctx.get(self.state).items['on']

    def set_on(self, v):
        self.w.u.ctx.set(self.state, DCell({'on': v}))

    def getattr_(self, I, name):
        w = self.w
        if name == 'attach_to':
            return Builtin('KernelMatrix.attach_to', lambda I, a, k: self.attach(I, a, k))
        if name == 'kernel':
            return self.kernel
        if name == 'num_samples':
            if self.on() is None:
                return None
            a, b = self.on()
            return S(zi(w.data[a].n)) if b is None else (S(zi(w.data[a].n)), S(zi(w.data[b].n)))
        if name == 'full':
            if self.on() is None:
                raise PyExc(ExcVal(w.u.get('config.KMAccessError')))
            a, b = self.on()
            g = w.gram(self.kernel, self.norm, a, b)
            n, m = w.data[a].n, w.data[b or a].n
            return NP.mk(I, (n, m), 'f8', lambda ix: S(g(*map(zi, ix)), None, None, True), owner='matrix of a member')
        if name in ('__str__', '__repr__', '__format__'):
            return Builtin(name, lambda I, a, k: 'matrix')
        raise Unsupported('attribute %s of a kernel matrix' % name)

    def attach(self, I, a, k):
        names = ('sample_one', 'name_one', 'sample_two', 'name_two')
        b = dict(zip(names, a))
        b.update(k)
        if not set(b) <= set(names):
            raise PyExc(ExcVal(TypeError))
        one = self.w.which(b['sample_one'])
        two = None if b.get('sample_two') is None else self.w.which(b['sample_two'])
        self.set_on((one, two))

    def copy_(self, I):
        r = Matrix(self.w, self.kernel, self.norm)
        r.set_on(self.on())
        return r

    def same(self, o):
        return isinstance(o, Matrix) and o.kernel.e.eq(self.kernel.e) and o.norm == self.norm and o.on() == self.on()


class Trained:
    """what a learner was trained on"""

    def __init__(self, kind, matrix, data, weighted, params):
        self.kind, self.matrix, self.data, self.weighted, self.params = kind, matrix, data, weighted, params

    def key(self):
        return (self.kind, self.matrix, self.data, self.weighted, self.params)


class Learner(ExtObj):
    def __init__(self, w, kind, params):
        self.w, self.kind, self.params = w, kind, params
        self.state = w.u.ctx.alloc(DCell({'fit': None}))

    def trained(self):
        return self.w.u.ctx.get(self.state).items['fit']

    def getattr_(self, I, name):
        if name == 'fit':
            def fit(I, a, k):
                b = dict(zip(('X', 'y', 'sample_weight'), a))
                b.update(k)
                self.w.u.ctx.set(self.state, DCell({'fit': self.w.train(self.kind, b, self.params)}))
                return self
            return Builtin('fit', fit)
        if name == 'predict':
            return Builtin('predict', lambda I, a, k: self.w.predict(self.trained(), (list(a) + [k.get('X')])[0]))
        if name == 'classes_' and self.kind == 'SVC' and self.trained():
            return Opq(z3.Const('classes_' + self.trained().data, T.ObjS))
        if name in self.params:
            return self.params[name]
        raise Unsupported('attribute %s of a learner' % name)

    def same(self, o):
        return isinstance(o, Learner) and o.kind == self.kind and (o.trained() and o.trained().key()) == (self.trained() and self.trained().key())


class World:
    def __init__(self, u, labels='i8'):
        self.u, self.labels = u, labels
        self.data = {}
        self.expect = None            # (kernel, normalized, training data, weighted) and test points of the call
        self.test = None
        self.d = u.size('d', 1)
        self.base = u.get('base.BaseKernelFunction')
        u.assume_note('scikit-learn: check_X_y and check_array return the data given (valid data), SVC and SVR are functions of the matrix, targets, weights and parameters they are given')
        I = u.I
        h = I.sk_hooks
        h['check_X_y'] = lambda I, a, k: self.check_xy(a, k)
        h['check_array'] = lambda I, a, k: self.copy(a[0])
        for kind in ('SVC', 'SVR'):
            h[kind] = lambda I, a, k, kind=kind: Learner(self, kind, dict(k)) if not a else self.no('positional parameters of a learner')
        I.class_override['base.KernelMatrix'] = self.make_matrix

    def no(self, why):
        raise Unsupported(why)

    def train_data(self, tag):
        return Data(self, tag, self.d, self.labels)

    def points(self, tag):
        return Data(self, tag, self.d)

    def kernel(self, nm):
        return Kernel(z3.Const('kernel_' + nm, T.ObjS), self.base)

    def object(self, r):
        """a kernel made by the code"""
        return Kernel(z3.Const('kernel_at%d' % r.a, T.ObjS), self.base)

    def copy(self, v):
        c = NP.cell(self.u.I, NP.to_array(self.u.I, v))
        return NP.mk(self.u.I, c.shape, c.dtype, NP.rd(self.u.I, c))

    def check_xy(self, a, k):
        b = dict(zip(('X', 'y'), a))
        b.update(k)
        if not set(b) <= {'X', 'y', 'y_numeric', 'accept_sparse', 'dtype', 'ensure_2d', 'estimator'}:
            raise Unsupported('check_X_y parameters')
        return (self.copy(b['X']), self.copy(b['y']))

    def make_matrix(self, I, cls, a, k):
        names = ('k_func', 'normalized', 'name')
        init = self.u.get('base.KernelMatrix').ns['__init__']
        names = [x.arg for x in init.node.args.args[1:]]
        b = dict(zip(names, a))
        b.update(k)
        ker, norm = b.get(names[0]), b.get('normalized', True)
        if isinstance(ker, Ref):
            ker = self.object(ker)
        if not isinstance(ker, Kernel):
            self.u.never('the matrix is that of the kernel', repr(ker))
        if not isinstance(norm, bool):
            raise Unsupported('symbolic normalization')
        return Matrix(self, ker, norm)

    def gram(self, kernel, norm, a, b):
        return lambda i, j: z3.Function('%s_%s_%s' % ('norm' if norm else 'gram', a, b or a), T.ObjS, Int, Int, Real)(kernel.e, i, j)

    def which(self, v):
        """the data set an array is"""
        u, I = self.u, self.u.I
        v = NP.to_array(I, v)
        c = NP.cell(I, v)
        i, j = z3.Int('?r'), z3.Int('?c')
        if c.ndim == 2:
            e = z3.simplify(zr(NP.rd(I, c)((i, j))))
            for t, d in self.data.items():
                if e.eq(z3.simplify(d.x(i, j))) and NP.same_dim(I, c.shape[0], d.n):
                    return t
        raise Unsupported('a matrix on something else than the data given')

    def matrix_of(self, v):
        """(kernel, normalized, one, two) of a kernel matrix handed to a learner"""
        u, I = self.u, self.u.I
        if not NP.is_arr(I, v):
            u.never('the learner is given a kernel matrix', repr(v))
        c = NP.cell(I, v)
        if c.ndim == 2:
            i, j = z3.Int('?r'), z3.Int('?c')
            e = z3.simplify(zr(NP.rd(I, c)((i, j))))
            if z3.is_app(e) and e.num_args() == 3 and e.arg(1).eq(i) and e.arg(2).eq(j):
                nm, one, two = e.decl().name().split('_')
                return e.arg(0), nm == 'norm', one, two, c
        return None, None, None, None, c

    def train(self, kind, b, params):
        """the learner is given the kernel matrix of the training data, the targets and the weights of this call"""
        u, I = self.u, self.u.I
        if not set(b) <= {'X', 'y', 'sample_weight'}:
            raise Unsupported('fit parameters')
        x = self.expect
        D = self.data[x['train']]
        u.ensure('learner asked for', z3.BoolVal(kind == x['kind']))
        u.ensure('its kernel is precomputed', z3.BoolVal(params.get('kernel') == 'precomputed'))
        with u.local():
            g = self.gram(x['kernel'], x['norm'], x['train'], None)
            u.array_is('trained on the kernel matrix of the training data', b['X'], (D.n, D.n), g)
            u.array_is('trained with the targets', NP.to_array(I, b['y']), (D.n,), D.Y)
            sw = b.get('sample_weight')
            if x['weighted']:
                if sw is None:
                    u.never('trained with the sample weights')
                u.array_is('trained with the sample weights', NP.to_array(I, sw), (D.n,), D.W)
            else:
                u.ensure('trained without sample weights', z3.BoolVal(sw is None))
        return Trained(kind, (x['kernel'].e.sexpr(), x['norm']), x['train'], x['weighted'], tuple(sorted((k, str(v)) for k, v in params.items())))

    def predict(self, tr, M):
        u, I = self.u, self.u.I
        if tr is None:
            raise PyExc(ExcVal(I.models['sklearn.exceptions'].table['NotFittedError']))
        x = self.expect
        D, P = self.data[x['train']], self.data[self.test]
        u.ensure('the learner trained last predicts', z3.BoolVal(tr.data == x['train'] and tr.matrix == (x['kernel'].e.sexpr(), x['norm'])))
        with u.local():
            u.array_is('predicts from the kernel values between test and training points', M, (P.n, D.n), self.gram(x['kernel'], x['norm'], self.test, x['train']))
        f = self.answer(P)
        dt = NP.np.dtype(self.labels if tr.kind == 'SVC' else 'f8')
        return NP.mk(I, (P.n,), dt, lambda ix: S(f(zi(ix[0])), None, None, True))

    def answer(self, P):
        """the prediction of the learner for a test point, a function of its kernel values and what the learner was trained on"""
        isint = NP.np.dtype(self.labels).kind == 'i' and self.expect['kind'] == 'SVC'
        return z3.Function('answer_%s_%s' % (self.expect['train'], P.tag), Int, Int if isint else Real)

    # ------------------------------------------------------------ calls
    def do_fit(self, o, kernel, norm, D, kind, weighted=False):
        u = self.u
        self.expect = dict(kernel=kernel, norm=norm, train=D.tag, kind=kind, weighted=weighted)
        kw = dict(sample_weight=D.w) if weighted else {}
        r = u.returns('fit', u.meth(o, 'fit', D.X, D.y, **kw))
        u.ensure('fit returns the machine', z3.BoolVal(isinstance(r, Ref) and r.a == o.a))
        u.array_is('data unchanged', D.X, (D.n, D.d), D.x)
        u.array_is('targets unchanged', D.y, (D.n,), D.Y)

    def do_predict(self, o, P):
        u = self.u
        self.test = P.tag
        r = u.returns('predict', u.meth(o, 'predict', P.X))
        f = self.answer(P)
        u.array_is('predictions', r, (P.n,), lambda i: zr(f(i)))
        u.array_is('test points unchanged', P.X, (P.n, P.d), P.x)

    def same_state(self, a, b, name, skip=()):
        """two objects agree in all attributes; where they do not, the histories are not covered"""
        u, ctx = self.u, self.u.ctx
        fa, fb = ctx.get(a).fields, ctx.get(b).fields
        if set(fa) != set(fb):
            raise Unsupported('%s: the attributes differ: %s' % (name, sorted(set(fa) ^ set(fb))))
        for k in fa:
            if k not in skip and not self.same_val(fa[k], fb[k]):
                raise Unsupported('%s: attribute %s differs' % (name, k))
        u.ensure(name, z3.BoolVal(True))

    def same_val(self, x, y):
        u, ctx, I = self.u, self.u.ctx, self.u.I
        if isinstance(x, Opq) and isinstance(y, Opq):
            return x.e.eq(y.e)
        if hasattr(x, 'same'):
            return x.same(y)
        if isinstance(x, S) and isinstance(y, S):
            return x.e.eq(y.e)
        if isinstance(x, SStr) and isinstance(y, SStr):
            return x.e.eq(y.e)
        if isinstance(x, Ref) and isinstance(y, Ref):
            if x.a == y.a:
                return True
            p, q = ctx.get(x), ctx.get(y)
            if type(p) is not type(q):
                return False
            if isinstance(p, ACell):
                if p.ndim != q.ndim or p.dtype != q.dtype:
                    return False
                ix = tuple(z3.Int('?%d' % t) for t in range(p.ndim))
                v, w = NP.rd(I, p)(ix), NP.rd(I, q)(ix)
                return all(NP.same_dim(I, s, t) for s, t in zip(p.shape, q.shape)) and self.same_val(v, w)
            if isinstance(p, DCell):
                return p.sym is None and q.sym is None and set(p.items) == set(q.items) and all(self.same_val(p.items[k], q.items[k]) for k in p.items)
            if isinstance(p, LCell):
                return isinstance(p.seq, tuple) and isinstance(q.seq, tuple) and len(p.seq) == len(q.seq) and all(map(self.same_val, p.seq, q.seq))
            if isinstance(p, OCell):
                return p.cls is q.cls and set(p.fields) == set(q.fields) and all(self.same_val(p.fields[k], q.fields[k]) for k in p.fields)
            return False
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) == len(y) and all(map(self.same_val, x, y))
        return type(x) is type(y) and x == y


KMF = ['algorithms.BaseKernelMachine.' + f for f in ('__init__', 'fit', 'predict', 'get_params', 'set_params')] + ['ranking.get_estimator']
CLS = {'KernelMachine': 'SVC', 'KernelMachineRegressor': 'SVR'}
MACH = [dict(cls=c, norm=n) for c in CLS for n in (False, True)]


@each('C16', [dict(m, weighted=w, labels=l) for m in MACH for w in (False, True) for l in (('i8', 'f8') if m['cls'] == 'KernelMachine' else ('f8', 'i8'))], *KMF)
def machine(u, cls, norm, weighted, labels):
    """made, not fitted; fitted; predicted with; again; fitted to other data"""
    w = World(u, labels)
    kind = CLS[cls]
    k = w.kernel('k')
    make = lambda: u.returns('construct', u.call('algorithms.' + cls, k, normalized=norm))
    D, E, P, Q = w.train_data('D'), w.train_data('E'), w.points('P'), w.points('Q')
    NF = u.I.models['sklearn.exceptions'].table['NotFittedError']
    o = make()
    u.raises('predict before fit', u.meth(o, 'predict', P.X), NF)
    new = make()
    w.same_state(o, new, 'refused prediction leaves no trace')
    w.do_fit(o, k, norm, D, kind, weighted)
    f1 = make()
    w.do_fit(f1, k, norm, D, kind, weighted)
    w.do_predict(o, P)
    p1 = make()
    w.do_fit(p1, k, norm, D, kind, weighted)
    w.do_predict(p1, Q)
    w.do_predict(o, Q)
    w.same_state(o, p1, 'earlier predictions leave no trace')
    # fitting again, after a fit, and after a prediction
    ref = make()
    w.do_fit(ref, k, norm, E, kind, weighted)
    w.do_fit(o, k, norm, E, kind, weighted)
    w.same_state(o, ref, 'earlier fits and predictions leave no trace')
    w.do_fit(f1, k, norm, E, kind, weighted)
    w.same_state(f1, ref, 'earlier fits leave no trace')
    w.do_predict(f1, P)


@each('C16', MACH, *KMF)
def machine_params(u, cls, norm):
    """parameters by name; a refit follows the current ones"""
    w = World(u)
    k, k2 = w.kernel('k'), w.kernel('k2')
    id1, id2, kind = ('SVC', 'svm', 'SVC') if cls == 'KernelMachine' else ('SVR', 'svr', 'SVR')
    o = u.returns('construct', u.call('algorithms.' + cls, k_func=k, learner_id=id1, normalized=norm))
    D, P = w.train_data('D'), w.points('P')

    def params(want):
        d = u.returns('get_params', u.meth(o, 'get_params'))
        c = u.ctx.get(d)
        u.ensure('parameters: names', z3.BoolVal(isinstance(c, DCell) and set(want) <= set(c.items)))
        for n, v in want.items():
            if n in c.items:
                u.ensure('parameters: ' + n, z3.BoolVal(w.same_val(c.items[n], v)))
    params(dict(k_func=k, learner_id=id1, normalized=norm))
    if u.ctx.choose(2):
        w.do_fit(o, k, norm, D, kind)
        w.do_predict(o, P)
    r = u.returns('set_params', u.meth(o, 'set_params', k_func=k2))
    u.ensure('set_params returns the machine', z3.BoolVal(isinstance(r, Ref) and r.a == o.a))
    params(dict(k_func=k2, learner_id=id1, normalized=norm))
    u.returns('set_params', u.meth(o, 'set_params', normalized=not norm, learner_id=id2))
    params(dict(k_func=k2, learner_id=id2, normalized=not norm))
    w.do_fit(o, k2, not norm, D, kind)
    w.do_predict(o, P)
    ref = u.returns('construct', u.call('algorithms.' + cls, k_func=k2, learner_id=id2, normalized=not norm))
    w.do_fit(ref, k2, not norm, D, kind)
    w.do_predict(ref, P)
    w.same_state(o, ref, 'earlier parameters leave no trace')


@each('C16', [dict(cls=c) for c in CLS], *KMF)
def machine_learner(u, cls):
    """the learner chosen by name, in any case; unknown ones are refused when fitting"""
    w = World(u)
    k = w.kernel('k')
    D = w.train_data('D')
    own = [('svm', 'SVC'), ('SVM', 'SVC'), ('svc', 'SVC'), ('SVC', 'SVC')] if cls == 'KernelMachine' else [('svr', 'SVR'), ('SVR', 'SVR')]
    nm, kind = (own + [('other', None)])[u.ctx.choose(len(own) + 1)]
    if kind is None:
        m = z3.Const('learner', T.StrS)
        low = z3.Function('str.lower', T.StrS, T.StrS)
        u.ctx.assume(AND(*[AND(low(m) != z3.StringVal(x), m != z3.StringVal(x)) for x in ('svm', 'svc', 'svr')]))
        if u.ctx.choose(2):
            o = u.returns('construct', u.call('algorithms.' + cls, k))
            w.do_fit(o, k, False, D, CLS[cls])
            u.returns('set_params', u.meth(o, 'set_params', learner_id=SStr(m)))
        else:
            o = u.returns('construct', u.call('algorithms.' + cls, k, learner_id=SStr(m)))
        w.expect = dict(kernel=k, norm=False, train='D', kind=None, weighted=False)
        return u.raises('unknown learner', u.meth(o, 'fit', D.X, D.y), NotImplementedError)
    o = u.returns('construct', u.call('algorithms.' + cls, k, learner_id=nm))
    w.do_fit(o, k, False, D, kind)


@unit('C16', *KMF)
def machine_other_learner(u):
    """a regressor that is told to use the other learner, after a fit and a prediction"""
    w = World(u, 'f8')
    k = w.kernel('k')
    D, E, P = w.train_data('D'), w.train_data('E'), w.points('P')
    first, then = (('SVR', 'SVC'), ('SVC', 'SVR'))[u.ctx.choose(2)]
    o = u.returns('construct', u.call('algorithms.KernelMachineRegressor', k, learner_id=first))
    w.do_fit(o, k, False, D, first)
    w.do_predict(o, P)
    u.returns('set_params', u.meth(o, 'set_params', learner_id=then))
    w.do_fit(o, k, False, E, then)
    w.do_predict(o, P)


@each('C16', [dict(cls=c) for c in CLS], *KMF)
def machine_default(u, cls):
    """without arguments: the Gaussian kernel, not normalized, SVC or SVR"""
    w = World(u)
    D, P = w.train_data('D'), w.points('P')
    o = u.returns('construct', u.call('algorithms.' + cls))
    d = u.ctx.get(u.returns('get_params', u.meth(o, 'get_params')))
    k = d.items['k_func']
    u.ensure('default kernel', z3.BoolVal(isinstance(k, Ref) and u.ctx.get(k).cls is u.get('numeric_kernels.GaussianKernel')))
    w.do_fit(o, w.object(k), False, D, CLS[cls])
    w.do_predict(o, P)


# ------------------------------------------------------------------ C17
OPT = {'OptimalKernelSVC': 'SVC', 'OptimalKernelSVR': 'SVR'}
OKF = ['algorithms.BaseOptimalKernelMachine.' + f for f in ('fit', 'predict')] + ['algorithms.%s.%s' % (c, f) for c in OPT for f in ('__init__', '_find_optimal_kernel', 'predict', 'get_params', 'set_params')]
KNOWN = ('exhaustive', 'light', 'linear_only')


class Search(World):
    """a world with SVC and SVR as base classes, and the search for the optimal kernel under its contract"""

    def __init__(self, u, cls, method, labels):
        World.__init__(self, u, labels)
        self.cls, self.kind, self.method = cls, OPT[cls], method
        self.bucket_cls = u.get('sampling.KernelBucket')
        self.norm = method == 'cv_risk'
        h = u.I.sk_hooks
        self.params = {}
        for kind in OPT.values():
            h[kind + '.__init__'] = lambda I, a, k, kind=kind: self.sk_init(a, k)
            h[kind + '.fit'] = lambda I, a, k, kind=kind: self.sk_fit(kind, a, k)
            h[kind + '.predict'] = lambda I, a, k, kind=kind: self.sk_predict(a, k)
        u.I.stubs['ranking.find_optimal_kernel'] = self.find
        u.I.stubs['sampling.make_kernel_bucket'] = self.make_bucket
        self.searched = 0

    # scikit-learn as base class
    def sk_init(self, a, k):
        # scikit-learn stores each parameter under its name; defaults of those not given
        d = dict(C=Fraction(1), kernel='rbf', shrinking=True, tol=Fraction(1, 1000))
        if self.kind == 'SVR':
            d['epsilon'] = Fraction(1, 10)
        d.update(k)
        for n, v in d.items():
            self.u.I.setattr(a[0], n, v)

    def sk_fit(self, kind, a, k):
        o = a[0]
        b = dict(zip(('X', 'y', 'sample_weight'), a[1:]))
        b.update(k)
        f = self.u.ctx.get(o).fields
        pars = {n: f.get(n) for n in self.names}
        pars['kernel'] = f.get('kernel')
        for n in self.want:
            self.u.ensure('trained with parameter ' + n, z3.BoolVal(self.same_val(f.get(n), self.want[n])))
        tr = self.train(kind, b, pars)
        self.u.I.setattr(o, 'support_', Token(tr))
        return o

    def sk_predict(self, a, k):
        o = a[0]
        b = dict(zip(('X',), a[1:]))
        b.update(k)
        t = self.u.ctx.get(o).fields.get('support_')
        return self.predict(t.tr if t is not None else None, b['X'])

    # the bucket and the search
    def make_bucket(self, I, fn, a, k):
        names = [x.arg for x in fn.node.args.args]
        b = dict(zip(names, a))
        b.update(k)
        s = b.get(names[0])
        if not isinstance(s, str) and not isinstance(s, SStr):
            raise Unsupported('make_kernel_bucket of something else')
        if isinstance(s, SStr) or s.lower() not in KNOWN:
            raise PyExc(ExcVal(ValueError))
        self.expect_bucket = ('strategy', s.lower())
        return Strategy(self.bucket_cls, s.lower())

    def members(self, v):
        """what can be modified by attaching the members of a bucket"""
        ctx, I = self.u.ctx, self.u.I
        out, todo = set(), [v]
        while todo:
            x = todo.pop()
            if isinstance(x, Matrix):
                out.add(('matrix', x.state.a))
            elif isinstance(x, Ref) and ('cell', x.a) not in out:
                c = ctx.get(x)
                if isinstance(c, OCell) and subclass(c.cls, self.base):
                    continue
                out.add(('cell', x.a))
                todo += list(c.fields.values()) if isinstance(c, OCell) else list(c.seq) if isinstance(c, LCell) and isinstance(c.seq, tuple) else \
                    list(c.items.values()) if isinstance(c, DCell) and c.sym is None else []
            elif isinstance(x, tuple):
                todo += list(x)
        return out

    def find(self, I, fn, a, k):
        """contract of find_optimal_kernel: attaches the members to the sample, returns the best of them"""
        u = self.u
        names = [x.arg for x in fn.node.args.args]
        b = dict(zip(names, a))
        b.update(k)
        buck = b[names[0]]
        D = self.data[self.expect['train']]
        u.ensure('the search uses the training data', z3.BoolVal(self.which(b[names[1]]) == D.tag))
        with u.local():
            u.array_is('the search uses the targets', NP.to_array(I, b[names[2]]), (D.n,), D.Y)
        u.ensure('the search uses the requested method', z3.BoolVal(self.same_val(b.get(names[3], 'cv_risk'), self.method)))
        e = b.get('estimator_name')
        if not isinstance(e, str):
            e = 'SVM' if e is None else raise_(Unsupported('estimator_name'))
        u.ensure('the search uses the learner', z3.BoolVal(e.lower() in (('svm', 'svc') if self.kind == 'SVC' else ('svr',))))
        if isinstance(self.source, str):
            u.ensure('the search is in the bucket of the strategy', z3.BoolVal(isinstance(buck, Strategy) and buck.name == self.source))
        else:
            if not isinstance(buck, Ref):
                u.never('the search is in the given bucket', repr(buck))
            u.ensure('the search is in a copy of the bucket', z3.BoolVal(not (self.members(buck) & self.members(self.source))))
            u.ensure('the search is in the kernels of the bucket', z3.BoolVal(self.same_val(self.bare(buck), self.bare(self.source))))
        self.searched += 1
        r = Matrix(self, self.best(), self.norm)
        r.set_on((D.tag, None))
        return r

    def bare(self, buck):
        return tuple((m.kernel, m.norm) if isinstance(m, Matrix) else raise_(Unsupported('member of another kind')) for m in self.u.I.to_seq(buck))

    def best(self):
        return Kernel(z3.Const('best_for_%s_by_%s' % (self.expect['train'], self.kind), T.ObjS), self.base)

    def bucket(self):
        """a bucket made by the code, of three kernels"""
        u = self.u
        for c in ('LinearKernel', 'PolyKernel', 'GaussianKernel'):
            u.I.class_override['numeric_kernels.' + c] = lambda I, cls, a, k: Kernel(z3.Const('k_%s_%s' % (cls.name, '_'.join(str(v) for v in list(a) + list(k.values()))), T.ObjS), self.base)
        return u.returns('bucket', u.call('sampling.KernelBucket', u.I.new_list((2,)), u.I.new_list((3,)), None, None, None))

    def fit1(self, o, D, weighted=False):
        self.expect = dict(train=D.tag, kind=self.kind, weighted=weighted, norm=self.norm)
        self.expect['kernel'] = self.best()
        n = self.searched
        self.do_fit(o, self.best(), self.norm, D, self.kind, weighted)
        self.u.ensure('fitting searches once', z3.BoolVal(self.searched > n))


class Strategy(ExtObj):
    """the bucket of a named strategy"""

    def __init__(self, cls, name):
        self.cls, self.name = cls, name

    def isinstance_(self, I, cls):
        return subclass(self.cls, cls)

    def same(self, o):
        return isinstance(o, Strategy) and o.name == self.name

    def copy_(self, I):
        return self


class Token(ExtObj):
    """what scikit-learn keeps of a fit"""

    def __init__(self, tr):
        self.tr = tr

    def same(self, o):
        return isinstance(o, Token) and o.tr.key() == self.tr.key()


def raise_(e):
    raise e


def opt_params(u, cls):
    p = dict(C=u.real('C'), shrinking=[True, False][u.ctx.choose(2)], tol=u.real('tol'))
    if cls == 'OptimalKernelSVR':
        p['epsilon'] = u.real('epsilon')
    return p


@each('C17', [dict(cls=c, source=s, method=m, weighted=w) for c in OPT for s in ('bucket', 'light', 'Exhaustive') for m in ('cv_risk', 'align/corr') for w in (False, True)], *OKF)
def optimal_machine(u, cls, source, method, weighted):
    labels = 'i8' if cls == 'OptimalKernelSVC' else 'f8'
    w = Search(u, cls, method, labels)
    src = w.bucket() if source == 'bucket' else source
    w.source = src if source == 'bucket' else source.lower()
    par = opt_params(u, cls)
    w.names, w.want = list(par), par
    before = {a: u.ctx.store[a[1]] for a in w.members(src)} if source == 'bucket' else {}
    ker = w.bare(src) if source == 'bucket' else None
    make = lambda: u.returns('construct', u.call('algorithms.' + cls, src, method=method, **par))
    D, E, P, Q = w.train_data('D'), w.train_data('E'), w.points('P'), w.points('Q')
    NF = u.I.models['sklearn.exceptions'].table['NotFittedError']
    o = make()
    u.raises('predict before fit', u.meth(o, 'predict', P.X), NF)
    w.same_state(o, make(), 'refused prediction leaves no trace')
    w.fit1(o, D, weighted)
    f1 = make()
    w.fit1(f1, D, weighted)
    w.do_predict(o, P)
    w.do_predict(o, Q)
    w.do_predict(o, P)
    p1 = make()
    w.fit1(p1, D, weighted)
    w.do_predict(p1, P)
    w.same_state(o, p1, 'earlier predictions leave no trace')
    ref = make()
    w.fit1(ref, E, weighted)
    w.fit1(o, E, weighted)
    w.same_state(o, ref, 'earlier fits and predictions leave no trace')
    w.fit1(f1, E, weighted)
    w.same_state(f1, ref, 'earlier fits leave no trace')
    w.do_predict(f1, Q)
    if source == 'bucket':
        u.ensure('the bucket given is not modified', z3.BoolVal(all(u.ctx.store[a[1]] is c for a, c in before.items()) and w.same_val(w.bare(src), ker)))


@each('C17', [dict(cls=c, bad=b) for c in OPT for b in ('none', 'number', 'list', 'matrix', 'set', 'array', 'text')], *OKF)
def optimal_refuses(u, cls, bad):
    w = Search(u, cls, 'cv_risk', 'i8' if cls == 'OptimalKernelSVC' else 'f8')
    D = w.train_data('D')
    w.names, w.want, w.source = [], {}, None
    m = z3.Const('strategy', T.StrS)
    low = z3.Function('str.lower', T.StrS, T.StrS)
    u.ctx.assume(AND(*[AND(low(m) != z3.StringVal(x), m != z3.StringVal(x)) for x in KNOWN]))
    v = dict(none=lambda: None, number=lambda: u.int('v'), list=lambda: u.I.new_list((Matrix(w, w.kernel('k'), True),)), matrix=lambda: Matrix(w, w.kernel('k'), True),
             set=lambda: u.returns('set', u.call('base.KernelSet')), array=lambda: D.X, text=lambda: SStr(m))[bad]()
    o = u.returns('construct', u.call('algorithms.' + cls, v))
    w.expect = dict(train='D', kind=w.kind, weighted=False, norm=True)
    w.expect['kernel'] = w.best()
    u.raises('neither bucket nor strategy', u.meth(o, 'fit', D.X, D.y), ValueError)


@each('C17', [dict(cls=c) for c in OPT], *OKF)
def optimal_params(u, cls):
    """parameters by name; a refit follows the current ones"""
    w = Search(u, cls, 'cv_risk', 'i8' if cls == 'OptimalKernelSVC' else 'f8')
    D, P = w.train_data('D'), w.points('P')
    par = opt_params(u, cls)
    w.names = list(par)
    w.source, w.want = 'light', par
    o = u.returns('construct', u.call('algorithms.' + cls, 'light', method='cv_risk', **par))

    def params(want):
        c = u.ctx.get(u.returns('get_params', u.meth(o, 'get_params')))
        u.ensure('parameters: names', z3.BoolVal(isinstance(c, DCell) and set(want) <= set(c.items)))
        for n, v in want.items():
            if n in c.items:
                u.ensure('parameters: ' + n, z3.BoolVal(w.same_val(c.items[n], v)))
    params(dict(par, k_bucket='light', method='cv_risk'))
    if u.ctx.choose(2):
        w.fit1(o, D)
        w.do_predict(o, P)
    new = {n: (not v if isinstance(v, bool) else u.real('new_' + n)) for n, v in par.items()}
    r = u.returns('set_params', u.meth(o, 'set_params', k_bucket='exhaustive', method='align/corr', **new))
    u.ensure('set_params returns the machine', z3.BoolVal(isinstance(r, Ref) and r.a == o.a))
    params(dict(new, k_bucket='exhaustive', method='align/corr'))
    w.source, w.want, w.method = 'exhaustive', new, 'align/corr'
    w.fit1(o, D)
    w.do_predict(o, P)
    ref = u.returns('construct', u.call('algorithms.' + cls, 'exhaustive', method='align/corr', **new))
    w.fit1(ref, D)
    w.do_predict(ref, P)
    w.same_state(o, ref, 'earlier parameters leave no trace')
