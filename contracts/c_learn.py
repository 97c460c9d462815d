"""C15, C16, C17: ranking of kernels, kernel machines"""
from .lib import *
from .setlib import *
from . import c_sets
from .c_sets import which

RANK = ['ranking.rank_kernels', 'ranking.alignment_ranking', 'ranking.CV_ranking', 'ranking.find_optimal_kernel', 'utils.min_max_scale']
ISCLOSE = z3.Q(1, 10 ** 8)


def bucket_of(u, f, **kw):
    """a KernelBucket made by the code (the linear kernel alone), its members replaced by those of the family"""
    b = u.returns('construction of the bucket', u.call('sampling.KernelBucket', None, None, None, None, None, **kw))
    lin = u.I.to_seq(b)
    if not isinstance(lin, tuple) or len(lin) != 1:
        return u.never('a bucket without parameter values holds the linear kernel')
    hit = []
    for nm, v in u.ctx.get(b).fields.items():
        c = u.ctx.get(v) if isinstance(v, Ref) else None
        if isinstance(c, LCell) and c.seq == lin:
            u.ctx.set(v, LCell(f.seq(), c.kind))
            hit.append(nm)
    if len(hit) != 1:
        raise Unsupported('members of the bucket')
    return b


def targets(u, n, form):
    y, Y = u.arr('y', n, dtype='i8' if form == 'integers' else 'f8', fixed=False)
    if form == 'list':
        y = u.I.new_list(Seq(n, lambda k: S(Y(zi(k)))) if not isinstance(n, int) else tuple(S(Y(k)) for k in range(n)))
    return y, Y


def alignment(u, f, n, Y, sc):
    """contract of alignment_centered: a function of the member, given the target kernel; 0 where a norm is zero"""
    def g(I, fn, a, k):
        names = [x.arg for x in fn.node.args.args]
        b = dict(zip(names, a))
        b.update(k)
        one, two = b[names[0]], b[names[1]]
        x = which(u, f, one, n)
        if x is None:
            one, two = two, one
            x = which(u, f, one, n)
        if x is None:
            raise Unsupported('alignment of other matrices')
        with u.local():
            u.array_is('aligned with the target kernel', two, (n, n), lambda i, j: Y(i) * Y(j))
        v = b.get('value_if_zero_division', 'raise')
        u.ensure('0 where a norm is zero', z3.BoolVal(not isinstance(v, str) and NP.is_num(v) and v == 0))
        if b.get('centered', False) is not False:
            u.never('alignment of the centered matrices')
        return S(sc(x), f.scnan(x) if f.nan else None, None, True)
    u.I.stubs['operations.alignment_centered'] = g
    f.scnan = z3.Function('scorenan_of', T.ObjS, Bool)


@each('C15', [dict(form=x, how=h) for x in ('array', 'integers', 'list') for h in ('default', 'rank', 'CASE', 'direct', 'cv parameters')], *RANK[:2])
def rank_alignment(u, form, how):
    f = Family(u, lo=1)
    b = bucket_of(u, f)
    y, Y = targets(u, f.n, form)
    sc = z3.Function('alignment_of', T.ObjS, Real)
    alignment(u, f, f.n, Y, sc)
    if how == 'direct':
        r = u.call('ranking.alignment_ranking', b, y)
    elif how == 'default':
        r = u.call('ranking.rank_kernels', b, y)
    elif how == 'rank':
        r = u.call('ranking.rank_kernels', b, y, method='align/corr')
    elif how == 'CASE':
        r = u.call('ranking.rank_kernels', b, y, method='Align/CORR')
    else:
        r = u.call('ranking.rank_kernels', b, y, method='align/corr', estimator_name='SVC', num_folds=3)
    u.array_is('scores', u.returns('scores', r), (f.M,), lambda k: sc(f.mem(k)))
    if form != 'list':
        u.array_is('targets unchanged', y, (f.n,), Y)


class Learner(ExtObj):
    """a support vector learner as constructed: kind and parameters"""

    def __init__(self, kind, params):
        self.kind, self.params = kind, params

    def getattr_(self, I, name):
        if name in self.params:
            return self.params[name]
        raise Unsupported('attribute %s of a learner' % name)


def learners(u):
    """sk_hooks for the construction of SVC and SVR"""
    def mk(kind):
        def h(I, a, k):
            if a:
                raise Unsupported('positional parameters of a learner')
            return Learner(kind, dict(k))
        return h
    u.I.sk_hooks.update(SVC=mk('SVC'), SVR=mk('SVR'))


class Search(ExtObj):
    """GridSearchCV (assumed): best_score_ is a function of learner, folds, matrix and targets of the last fit"""

    def __init__(self, u, f, n, Y, sc):
        self.u, self.f, self.n, self.Y, self.sc, self.x = u, f, n, Y, sc, None
        self.depth = u.I.loop_depth

    def getattr_(self, I, name):
        if name == 'best_score_':
            if self.x is None:
                raise PyExc(ExcVal(AttributeError))
            return S(self.sc(self.x), None, None, True)
        if name == 'fit':
            return Builtin('GridSearchCV.fit', self.fit)
        raise Unsupported('GridSearchCV.%s' % name)

    def fit(self, I, a, k):
        u, f = self.u, self.f
        b = dict(zip(('X', 'y'), a))
        b.update(k)
        if set(b) != {'X', 'y'}:
            raise Unsupported('GridSearchCV.fit')
        if I.loop_depth != self.depth:
            raise Unsupported('GridSearchCV used across iterations')
        x = which(u, f, b['X'], self.n)
        if x is None:
            u.never('cross-validated on the matrix of the kernel')
        u.ensure('cross-validated on finite matrices only', NOT(f.bad(x)))
        same_targets(u, b['y'], self.n, self.Y)
        self.x = x
        return self


def same_targets(u, y, n, Y):
    y = NP.to_array(u.I, y)
    with u.local():
        u.array_is('with the given targets', y, (n,), Y)


def cross_validation(u, f, n, Y, kind, folds, sc):
    learners(u)

    def gs(I, a, k):
        b = dict(zip(('estimator', 'param_grid'), a))
        b.update(k)
        if not set(b) <= {'estimator', 'param_grid', 'cv', 'n_jobs', 'refit', 'verbose', 'return_train_score', 'error_score'}:
            raise Unsupported('GridSearchCV parameters')
        e = b['estimator']
        if not isinstance(e, Learner):
            raise Unsupported('GridSearchCV of something else')
        u.ensure('learner asked for', z3.BoolVal(e.kind == kind))
        u.ensure('with the kernel precomputed', z3.BoolVal(e.params.get('kernel') == 'precomputed'))
        u.same_int('folds asked for', b.get('cv'), folds)
        return Search(u, f, n, Y, sc)
    u.I.sk_hooks['GridSearchCV'] = gs
    f.bad = z3.Function('nonfinite_of', T.ObjS, Bool)

    def st(I, fn, a, k):
        x = which(u, f, a[0], n) if len(a) == 1 and not k else None
        if x is None:
            return I.call_user(fn, a, k)
        return S(f.bad(x))
    u.I.stubs['utils.contains_nan_inf'] = st


def scaled(u, v, f, sc, name='scores', top=100):
    """v: scores rescaled to 0..top over the members with finite matrices"""
    ok = lambda k: NOT(f.bad(f.mem(k)))
    s = lambda k: sc(f.mem(k))
    e = u.array(name, v, (f.M,))
    lo, hi = u.idx(f.M, 'lo'), u.idx(f.M, 'hi')
    k = u.idx(f.M, 'k')
    ctx = u.ctx
    some = ctx.decide(NP.exists(u.I, (f.M,), lambda ix: ok(zi(ix[0])), 'spec'))
    if not some:
        x = e(k)
        return u.ensure(name + ': none can be computed', z3.BoolVal(False) if not isinstance(x, S) or x.nan is None else x.nan)
    # lo, hi: where the lowest and highest are
    ctx.assume(AND(ok(lo), ok(hi)))
    ctx.assume_all(1, lambda t: IMP(AND(t >= 0, t < zi(f.M), ok(t)), AND(s(lo) <= s(t), s(t) <= s(hi))))
    if isinstance(f.M, int):
        for t in range(f.M):
            ctx.assume(IMP(ok(z3.IntVal(t)), AND(s(lo) <= s(z3.IntVal(t)), s(z3.IntVal(t)) <= s(hi))))
    x = e(k)
    xn = x.nan if isinstance(x, S) and x.nan is not None else z3.BoolVal(isinstance(x, float) and x != x)
    u.ensure(name + ': missing where it cannot be computed', xn == NOT(ok(k)))
    spread = s(hi) - s(lo)
    eq = ctx.decide(spread == 0)
    if eq:
        u.ensure(name + ': 0 where all are equal', IMP(ok(k), zr(x) == 0))
    else:
        ctx.assume(spread > ISCLOSE)
        u.ensure(name + ': rescaled', IMP(ok(k), zr(x) * spread == top * (s(k) - s(lo))))


@each('C15', [dict(est=e, how=h) for e in ('SVM', 'svc', 'SVR') for h in ('default', 'folds', 'CASE')], *RANK[:1], *RANK[2:3], *RANK[4:], 'ranking.get_estimator')
def rank_cv(u, est, how):
    f = Family(u, lo=1)
    b = bucket_of(u, f)
    y, Y = targets(u, f.n, 'array')
    sc = z3.Function('best_cv_score_of', T.ObjS, Real)
    folds = 3 if how == 'default' else u.int('folds', lambda x: x >= 2)
    cross_validation(u, f, f.n, Y, 'SVR' if est == 'SVR' else 'SVC', folds, sc)
    kw = {} if how == 'default' else dict(num_folds=folds)
    if est != 'SVM':
        kw['estimator_name'] = est
    r = u.call('ranking.rank_kernels', b, y, method='cv_risk' if how != 'CASE' else 'CV_Risk', **kw)
    scaled(u, u.returns('scores', r), f, sc)
    u.array_is('targets unchanged', y, (f.n,), Y)


def unattached(u):
    """a bucket of members not attached yet, and a sample"""
    f = Family(u, lo=1, ghost=True, n=None)
    q, d = u.size('q', 1), u.size('d', 1)
    X, x = u.arr('X', q, d)
    f.sample, f.sample_shape = x, (q, d)
    return f, bucket_of(u, f), q, d, X, x


def best(u, f, v, score, ok, name='optimal kernel'):
    """v is a member that has a score, the highest of all"""
    if not isinstance(v, Member):
        return u.never(name + ': is a member', repr(v))
    k = u.idx(f.M, 'k')
    e = v.e
    if not (z3.is_app(e) and e.decl().eq(f.mem)):
        return u.never(name + ': is a member', str(e))
    w = e.arg(0)
    u.ensure(name + ': is a member', AND(w >= 0, w < zi(f.M)))
    u.ensure(name + ': has a score', ok(e))
    u.ensure(name + ': has the highest score', IMP(ok(f.mem(k)), score(f.mem(k)) <= score(e)))
    u.ensure(name + ': every kernel is attached to the sample', f.ghost_at(f.g_att, k) == 1)


@each('C15', [dict(form=x, case=c) for x in ('array', 'list') for c in ('align/corr', 'ALIGN/corr')], 'ranking.find_optimal_kernel', *RANK[:2])
def optimal_alignment(u, form, case):
    f, b, q, d, X, x = unattached(u)
    f.nan = True
    y, Y = targets(u, q, form)
    sc = z3.Function('alignment_of', T.ObjS, Real)
    alignment(u, f, q, Y, sc)
    some = u.ctx.decide(NP.exists(u.I, (f.M,), lambda ix: NOT(f.scnan(f.mem(zi(ix[0])))), 'spec'))
    r = u.call('ranking.find_optimal_kernel', b, X, y, method=case)
    if not some:
        return u.raises('no kernel has a score', r, ValueError)
    best(u, f, u.returns('optimal kernel', r), sc, lambda e: NOT(f.scnan(e)))
    u.array_is('sample unchanged', X, (q, d), x)


@each('C15', [dict(how=h) for h in ('default', 'SVR', 'folds')], *RANK, 'ranking.get_estimator')
def optimal_cv(u, how):
    f, b, q, d, X, x = unattached(u)
    y, Y = targets(u, q, 'array')
    sc = z3.Function('best_cv_score_of', T.ObjS, Real)
    folds = 3 if how != 'folds' else u.int('folds', lambda x: x >= 2)
    cross_validation(u, f, q, Y, 'SVR' if how == 'SVR' else 'SVC', folds, sc)
    ok = lambda e: NOT(f.bad(e))
    some = u.ctx.decide(NP.exists(u.I, (f.M,), lambda ix: ok(f.mem(zi(ix[0]))), 'spec'))
    # scores differ by more than the tolerance of the rescaling, or not at all
    u.ctx.assume_all(2, lambda i, j: OR(sc(f.mem(i)) == sc(f.mem(j)), sc(f.mem(i)) - sc(f.mem(j)) > ISCLOSE, sc(f.mem(j)) - sc(f.mem(i)) > ISCLOSE))
    kw = dict(estimator_name='SVR', method='cv_risk') if how == 'SVR' else dict(num_folds=folds) if how == 'folds' else {}
    r = u.call('ranking.find_optimal_kernel', b, X, y, **kw)
    if not some:
        return u.raises('no kernel has a score', r, ValueError)
    best(u, f, u.returns('optimal kernel', r), sc, ok)
    u.array_is('sample unchanged', X, (q, d), x)
    u.array_is('targets unchanged', y, (q,), Y)


def other_method(u):
    """any text that is not the name of a method (in any case)"""
    m = z3.Const('method', T.StrS)
    low = z3.Function('str.lower', T.StrS, T.StrS)
    known = [z3.StringVal(x) for x in ('align/corr', 'cv_risk')]
    u.ctx.assume(AND(*[AND(m != x, low(m) != x) for x in known]))
    return SStr(m)


@each('C15', [dict(what=w) for w in ('rank', 'optimal')], 'ranking.rank_kernels', 'ranking.find_optimal_kernel')
def unknown_method(u, what):
    f, b, q, d, X, x = unattached(u)
    y, Y = targets(u, q, 'array')
    m = other_method(u)
    if what == 'rank':
        r = u.call('ranking.rank_kernels', b, y, method=m)
    else:
        r = u.call('ranking.find_optimal_kernel', b, X, y, method=m)
    u.raises('unknown method', r, NotImplementedError)
    k = u.idx(f.M, 'k')
    u.ensure('no member is touched', f.ghost_at(f.g_att, k) == 0)


@each('C15', [dict(what=w, method=m) for w in ('none', 'text', 'list', 'set', 'matrix', 'array') for m in ('cv_risk', 'align/corr')], 'ranking.find_optimal_kernel')
def not_a_bucket(u, what, method):
    f, b, q, d, X, x = unattached(u)
    y, Y = targets(u, q, 'array')
    v = dict(none=lambda: None, text=lambda: 'light', list=f.list, set=lambda: new_set(u, f), matrix=lambda: f.member(0), array=lambda: u.arr('A', q, q)[0])[what]()
    u.raises('not a bucket', u.call('ranking.find_optimal_kernel', v, X, y, method=method), TypeError)


@each('C15', [dict(form=x) for x in ('array', 'list', 'integers')], 'utils.min_max_scale')
def min_max(u, form):
    """missing values stay missing and do not affect the others"""
    n = u.size('n', 1)
    nan = form != 'integers'
    a, A = u.arr('a', n, dtype='i8' if form == 'integers' else 'f8', fixed=False)
    N = z3.Function('missing', Int, Bool)
    if nan:
        seq = lambda k: S(A(zi(k)), N(zi(k)), None, True)
        a = NP.mk(u.I, (n,), 'f8', lambda ix: seq(ix[0]))
        if form == 'list':
            a = u.I.new_list(Seq(n, seq) if not isinstance(n, int) else tuple(seq(k) for k in range(n)))
    ok = (lambda k: NOT(N(k))) if nan else (lambda k: z3.BoolVal(True))

    class F:
        M = n
        mem = staticmethod(lambda k: k)
        bad = staticmethod(lambda k: NOT(ok(k)))
    r = u.returns('min_max_scale', u.call('utils.min_max_scale', a))
    scaled(u, r, F, A, 'rescaled values', top=1)
    if not nan:
        u.array_is('argument unchanged', a, (n,), A)
