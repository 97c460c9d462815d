"""Scenarios for kernel sets, composites, buckets, ranking, estimators, PSD and frames
(C11-C19, C21)."""
import copy
import math
import warnings
import numpy as np
from .rt import scenario, Fail, Skip, close, check, raises, R, brief
from .scen_km import (kernel, gram, usable, center, cos_norm, align, f_sym1, f_pd, f_const, dims, two, Oracle, norm_tol)

from kernelmethods import base, numeric_kernels as nk, operations as ops, config as cfg, sampling, ranking, algorithms
from kernelmethods.base import (KernelMatrix, KernelFromCallable, KernelMatrixPrecomputed, ConstantKernelMatrix, KernelSet,
                                SumKernel, ProductKernel, AverageKernel, WeightedAverageKernel)
from kernelmethods.config import KMAccessError, KMNormError, KernelMethodsWarning, KMSetAdditionError, KernelMethodsException
from kernelmethods.sampling import KernelBucket, make_kernel_bucket
from kernelmethods.algorithms import KernelMachine, KernelMachineRegressor, OptimalKernelSVC, OptimalKernelSVR
from sklearn.exceptions import NotFittedError


def symm(r, n):
    return r.arr(lambda: (lambda A: A + A.T)(r.g.normal(size=(n, n))))


def member(r, n, X=None):
    """a compatible member with n samples; (object to add, full matrix)"""
    t = r.choice(['km', 'km', 'pre', 'arr'])
    if t == 'km' and X is not None:
        k = kernel(r, pd=True)
        nrm = r.bool(0.3)
        km = KernelMatrix(k, normalized=nrm)
        km.attach_to(X)
        K = usable(gram(k, X))
        if nrm:
            K = cos_norm(K, K.diagonal(), K.diagonal())
        return km, K
    A = symm(r, n)
    if t == 'pre':
        return KernelMatrixPrecomputed(A), A
    return A, A


def same_members(ks, want, what):
    check(ks.size == len(want) and len(ks) == len(want), '%s: %d members, expected %d' % (what, ks.size, len(want)))
    got = list(ks)
    check(len(got) == len(want), '%s: iterating gives %d members' % (what, len(got)))
    for i, (obj, K) in enumerate(want):
        for g in (got[i], ks[i]):
            if isinstance(obj, np.ndarray):
                check(np.array_equal(g.full, obj), '%s: member %d does not represent the array' % (what, i))
            else:
                check(g is obj, '%s: member %d is %r, expected %r' % (what, i, g, obj))


# ---------------------------------------------------------------- C11
@scenario('C11', 3)
def set_history(r):
    n, d = r.int(1, 5), r.int(1, 3)
    X = r.data(n, d)
    decl = r.bool(0.4)
    ks = KernelSet(num_samples=n) if decl else KernelSet()
    want = []
    ns = n if decl else None
    hist = []
    for _ in range(r.int(1, 8)):
        op = r.choice(['add', 'add', 'add', 'bad', 'extend', 'badextend', 'take', 'index', 'badtype'])
        hist.append(op)
        w = 'after %s' % hist
        if op == 'add':
            m = member(r, n, X)
            ks.append(m[0])
            want.append(m)
            ns = n
        elif op == 'bad':
            k = n + r.choice([-1, 1, 2, 5])
            if k < 1:
                continue
            t = r.choice(['arr', 'pre', 'km', 'km2'])
            if t in ('km', 'km2'):
                b = KernelMatrix(nk.LinearKernel(), normalized=False)
                if t == 'km':
                    b.attach_to(np.ones((k, d)))
                else:
                    b.attach_to(np.ones((n, d)), sample_two=np.ones((k, d)))
            else:
                b = np.eye(k)
                b = KernelMatrixPrecomputed(b) if t == 'pre' else b
            if ns is None:
                continue
            raises(KMSetAdditionError, ks.append, b, what='adding %r to a set of %r samples' % (b, ns))
        elif op == 'badtype':
            raises(Exception, ks.append, r.choice([np.ones((n, n + 1)), 'x', np.array([[0.0, 1.0], [5.0, 0.0]])]), what='adding something that is not a kernel matrix')
        elif op == 'extend':
            other = [member(r, n, X) for _ in range(r.int(1, 3))]
            o = KernelSet([m[0] for m in other], num_samples=None)
            if ns is None:
                raises(KMSetAdditionError, ks.extend, o, what='extending a set without samples') if False else None
                continue
            ks.extend(o)
            want += [(o[i] if not isinstance(m[0], np.ndarray) else m[0], m[1]) for i, m in enumerate(other)]
        elif op == 'badextend':
            if ns is None:
                continue
            k = n + r.int(1, 3)
            o = KernelSet([np.eye(k), np.ones((k, k))])
            raises(KMSetAdditionError, ks.extend, o, what='extending a set of %d by a set of %d samples' % (n, k))
            raises(KMSetAdditionError, ks.extend, [np.eye(n)], what='extending by a list')
        elif op == 'take' and want:
            ix = r.sample(len(want), r.int(1, len(want)), replace=r.bool(0.3))
            form = r.choice([list, tuple, np.array])
            t = ks.take(form(ix))
            same_members(t, [want[i] if not isinstance(want[i][0], np.ndarray) else (ks[i], None) for i in ix], 'take(%s)' % ix)
            check(t.num_samples == n, 'take: num_samples %r' % (t.num_samples,))
            for bad in ([len(want)], [-1], [0, len(want) + 2], [0, -1]):
                raises(IndexError, ks.take, bad, what='take(%r) of %d' % (bad, len(want)))
            kms = [i for i in ix if isinstance(want[i][0], KernelMatrix)]
            if kms:
                got = list(ks.get_kernel_funcs(kms))
                check(len(got) == len(kms) and all(g is want[i][0].kernel for g, i in zip(got, kms)), 'get_kernel_funcs(%s)' % kms)
                raises(IndexError, lambda: list(ks.get_kernel_funcs([len(want)])), what='get_kernel_funcs out of range')
        elif op == 'index' and want:
            raises(IndexError, lambda: ks[len(want)], what='index %d of %d' % (len(want), len(want)))
            raises(IndexError, lambda: ks[-1], what='index -1')
            raises(IndexError, lambda: ks[len(want) + r.int(1, 5)], what='index out of range')
            raises(Exception, lambda: ks[r.choice(['a', 0.5, None])], what='malformed index')
        same_members(ks, want, w)
        check(ks.num_samples == ns, '%s: num_samples is %r, expected %r' % (w, ks.num_samples, ns))
        for m in ks:
            check(m.num_samples == ks.num_samples, '%s: a member of %r samples in a set of %r' % (w, m.num_samples, ks.num_samples))


@scenario('C11')
def set_init(r):
    n = r.int(1, 5)
    X = r.data(n, 2)
    ms = [member(r, n, X) for _ in range(r.int(1, 5))]
    same_members(KernelSet([m[0] for m in ms]), ms, 'KernelSet(list)')
    same_members(KernelSet(tuple(m[0] for m in ms), num_samples=n), ms, 'KernelSet(tuple)')
    same_members(KernelSet(ms[0][0]), ms[:1], 'KernelSet(single)') if not isinstance(ms[0][0], KernelMatrix) or True else None
    k = n + r.int(1, 3)
    bad = np.eye(k)
    pos = r.int(0, len(ms))
    l = [m[0] for m in ms]
    l.insert(pos, bad)
    raises(KMSetAdditionError, KernelSet, l, what='list with an incompatible member at %d' % pos)
    raises(KMSetAdditionError, KernelSet, [m[0] for m in ms], num_samples=k, what='declared number of samples differs')
    raises(TypeError, KernelSet, r.choice([5, 1.5]), what='KernelSet of a number')


# ---------------------------------------------------------------- C12
@scenario('C12', 2)
def set_attach(r):
    d = r.int(1, 3)
    n = r.int(1, 6)
    nk_ = r.int(1, 5)
    kms = [KernelMatrix(kernel(r, pd=True), normalized=r.bool(0.3)) for _ in range(nk_)]
    ks = KernelSet(kms, num_samples=None)
    hist = []
    for rnd in range(r.int(1, 3)):
        X = r.data(n, d if r.bool() else r.int(1, 3))
        mode = r.choice(['plain', 'attr', 'attrname'])
        if mode == 'plain':
            ks.attach_to(X)
        else:
            val = r.choice([5, 'train', None, [1, 2]])
            ks.attach_to(X, attr_name='site', attr_value=val) if mode == 'attr' else ks.attach_to(X, name='smp', attr_name='site', attr_value=val)
        check(ks.num_samples == n, 'num_samples %r' % (ks.num_samples,))
        for i, km in enumerate(kms):
            w = 'member %d of %d after attach #%d' % (i, nk_, rnd)
            check(km.num_samples == n, w + ': num_samples %r' % (km.num_samples,))
            K = usable(gram(km.kernel, X))
            close(km[:, :], K, what=w)
            if mode != 'plain':
                check(km.get_attr('site', 'missing') == val, w + ': attribute %r' % (km.get_attr('site', 'missing'),))
            else:
                check(not km.attributes(), w + ': attributes %r' % km.attributes())
        if r.bool(0.6):
            bad = r.data(n + r.choice([1, 2, -1] if n > 1 else [1, 2]), X.shape[1])
            tag = [km.get_attr('site', 'missing') for km in kms]
            raises(ValueError, ks.attach_to, bad, attr_name='site', attr_value='other', what='sample of another size')
            for i, km in enumerate(kms):
                w = 'member %d after a refused attach' % i
                check(km.num_samples == n, w + ': num_samples %r' % (km.num_samples,))
                check(km.get_attr('site', 'missing') == tag[i], w + ': attribute changed')
                close(km[:, :], gram(km.kernel, X), what=w)
            check(ks.num_samples == n, 'num_samples of the set after a refused attach')


@scenario('C12', 2)
def set_attrs(r):
    n = r.int(1, 6)
    X = r.data(r.int(1, 4), 2)
    ks = KernelSet()
    for _ in range(n):
        km = KernelMatrix(kernel(r, pd=True))
        km.attach_to(X)
        ks.append(km)
    for i in range(n):
        ks[i].set_attr('idx', i)
    cur = {}
    for rnd in range(r.int(1, 4)):
        nm = r.choice(['a', 'b', 3])
        t = r.choice(['single', 'str', 'list', 'tuple', 'one', 'bad', 'none', 'arr', 'emptybad', 'some'])
        if t == 'single':
            v = r.choice([7, 1.5, True])
            ks.set_attr(nm, v)
            cur[nm] = [v] * n
        elif t == 'str':
            v = r.choice(['x', 'hello', 'ab' * n, 'z' * n])
            ks.set_attr(nm, v)
            cur[nm] = [v] * n
        elif t == 'none':
            ks.set_attr(nm, None)
            cur[nm] = [None] * n
        elif t in ('list', 'tuple'):
            v = r.perm(n)
            ks.set_attr(nm, v if t == 'list' else tuple(v))
            cur[nm] = list(v)
        elif t == 'arr':
            v = np.arange(n) * 2.0
            ks.set_attr(nm, v)
            cur[nm] = list(v)
        elif t == 'one':
            v = r.choice([['q'], [3], (4,)])
            ks.set_attr(nm, v)
            cur[nm] = [v[0]] * n
        elif t == 'some':
            i = r.int(0, n - 1)
            ks[i].set_attr(nm, 'own')
            cur.setdefault(nm, ['dflt!'] * n)
            cur[nm] = [x if j != i else 'own' for j, x in enumerate(cur[nm])]
        else:
            v = list(range(n + r.choice([1, 2, -1, n, 3]))) if t == 'bad' else []
            if len(v) in (1, n):
                continue
            raises(ValueError, ks.set_attr, nm, v, what='%d values for %d members' % (len(v), n))
        for x in ('a', 'b', 3):
            got = ks.get_attr(x, 'dflt!')
            want = cur.get(x, ['dflt!'] * n)
            check(list(got) == list(want), 'attribute %r is %r, expected %r' % (x, got, want))
        check(ks.get_attr('idx') == list(range(n)), 'order of the members')
        check(ks.get_attr('nope') == [None] * n, 'fallback None')


# ---------------------------------------------------------------- C13
@scenario('C13', 3)
def composites(r):
    n, d = r.int(1, 6), r.int(1, 3)
    X = r.data(n, d)
    q = r.size(2, 5)
    q = min(q, 12)
    ms = [member(r, n, X) for _ in range(q)]
    ks = KernelSet([m[0] for m in ms])
    Ks = [np.asarray(m[1], float) for m in ms]
    w = r.arr(lambda: r.g.normal(size=q) * r.g.choice([1, 1, 0], size=q))
    wl = w if r.bool() else w.tolist()
    S1 = sum(np.abs(K) for K in Ks)
    kinds = r.choice(['sum', 'sumw', 'prod', 'avg', 'wavg', 'lin', 'linn'])
    if kinds in ('sum', 'sumw', 'prod', 'avg', 'wavg'):
        if kinds in ('sum', 'sumw'):
            c = SumKernel(ks)
            fit = (lambda: c.fit()) if kinds == 'sum' else (lambda: c.fit(wl))
            want = sum(Ks) if kinds == 'sum' else sum(a * K for a, K in zip(w, Ks))
        elif kinds == 'prod':
            c = ProductKernel(ks)
            fit = c.fit
            want = np.prod(np.array(Ks), axis=0)
        elif kinds == 'avg':
            c = AverageKernel(ks)
            fit = c.fit
            want = sum(Ks) / q
        else:
            c = WeightedAverageKernel(ks, wl)
            fit = c.fit
            want = sum(a * K for a, K in zip(w, Ks))
        raises(ValueError, lambda: c.composite_KM, what=kinds + ' before fitting')
        raises(ValueError, lambda: c.full, what=kinds + ' before fitting')
        fit()
        sc = np.abs(want).max() if kinds == 'prod' else (np.abs(w).max() + 1) * S1.max()
        close(c.composite_KM, want, rtol=1e-9, scale=sc, what=kinds)
        close(c.full, want, rtol=1e-9, scale=sc, what=kinds)
        if r.bool(0.3):
            fit()
            close(c.full, want, rtol=1e-9, scale=sc, what=kinds + ' fitted again')
        if r.bool(0.2) and kinds in ('sum', 'prod', 'avg'):
            km, K = member(r, n, X)
            ks.append(km)
            Ks.append(np.asarray(K, float))
            fit()
            want = np.prod(np.array(Ks), axis=0) if kinds == 'prod' else sum(Ks) / (q + 1 if kinds == 'avg' else 1)
            sc = np.abs(want).max() if kinds == 'prod' else sum(np.abs(K) for K in Ks).max()
            close(c.full, want, rtol=1e-9, scale=sc, what=kinds + ' after the set has grown')
    else:
        nw = kinds == 'linn'
        if nw and abs(w.sum()) < 1e-3:
            raise Skip()
        want = sum(a * K for a, K in zip(w / w.sum() if nw else w, Ks))
        v = ops.linear_combination(ks, wl, norm_weights=nw) if nw or r.bool() else ops.linear_combination(ks, wl)
        close(v, want, rtol=1e-9, scale=(np.abs(w).max() / (abs(w.sum()) if nw else 1) + 1) * S1.max(), what=kinds)


@scenario('C13')
def lincomb_two(r):
    X, Y = two(r, 5)
    q = r.int(1, 4)
    ks, Ks = KernelSet(), []
    for _ in range(q):
        k = kernel(r, pd=True)
        km = KernelMatrix(k, normalized=False)
        km.attach_to(X, sample_two=Y)
        ks.append(km)
        Ks.append(usable(gram(k, X, Y)))
    w = r.arr(lambda: r.g.normal(size=q))
    sc = (np.abs(w).max() + 1) * sum(np.abs(K) for K in Ks).max()
    close(ops.linear_combination(ks, w), sum(a * K for a, K in zip(w, Ks)), rtol=1e-9, scale=sc, what='linear combination on two samples')
    s = float(w.sum())
    if abs(s) > 1e-3:
        close(ops.linear_combination(ks, w, norm_weights=True), sum(a / s * K for a, K in zip(w, Ks)), rtol=1e-9, scale=sc / abs(s), what='linear combination on two samples, normalized weights')


@scenario('C13')
def composites_refused(r):
    n = r.int(1, 4)
    q = r.int(2, 4)
    ks = KernelSet([symm(r, n) for _ in range(q)])
    bad = np.ones(q + r.choice([1, -1, 2]))
    c = SumKernel(ks)
    raises(ValueError, c.fit, bad, what='%d weights for %d kernels' % (bad.size, q))
    raises(ValueError, lambda: c.full, what='not fitted')
    raises(ValueError, WeightedAverageKernel, ks, bad, what='%d weights for %d kernels' % (bad.size, q))
    raises(ValueError, ops.linear_combination, ks, bad, what='%d weights for %d kernels' % (bad.size, q))
    z = np.zeros(q)
    if r.bool():
        z[0], z[-1] = 1.0, -1.0
    raises(RuntimeError, ops.linear_combination, ks, z, norm_weights=True, what='weights of sum zero')
    for cls in (SumKernel, ProductKernel, AverageKernel):
        raises(TypeError, cls, [np.eye(n), np.eye(n)], what='not a KernelSet')
        raises(ValueError, cls, KernelSet([np.eye(n)]), what='single kernel')


# ---------------------------------------------------------------- C14
PARAMS = [('polynomial', 'degree'), ('gaussian', 'sigma'), ('laplacian', 'gamma'), ('sigmoid', 'gamma'), ('sigmoid', 'offset')]
DEFAULTS = [(2, 3, 4), tuple(2.0 ** e for e in range(-5, 6, 2)), tuple(2.0 ** e for e in range(-5, 7, 2)), tuple(2.0 ** e for e in range(-5, 7, 2)), (-2.0, 1.0, 2.0)]
LIGHT = [(2, 3), tuple(2.0 ** e for e in range(-3, 3, 2)), tuple(2.0 ** e for e in range(-3, 3, 2)), tuple(2.0 ** e for e in range(-3, 7, 2)), (1.0,)]
CLS = [nk.PolyKernel, nk.GaussianKernel, nk.LaplacianKernel, nk.SigmoidKernel, nk.SigmoidKernel]


def expect_bucket(b, lists, nrm, what, skip=None):
    want = [('linear', None, None, nk.LinearKernel)]
    for (nm, p), vals, cls in zip(PARAMS, lists, CLS):
        for v in (vals if vals is not None else ()):
            want.append((nm, p, v, cls))
    compare_bucket(b, want, nrm, what, skip)


def compare_bucket(b, want, nrm, what, skip=None):
    check(b.size == len(want) and len(b) == len(want), '%s: %d kernels, expected %d' % (what, b.size, len(want)))
    X = np.array([[0.3, -0.2], [0.1, 0.5], [-0.4, 0.2]])
    for i, (nm, p, v, cls) in enumerate(want):
        km = b[i]
        check(isinstance(km, KernelMatrix) and type(km.kernel) is cls, '%s: kernel %d is %r, expected %s' % (what, i, getattr(km, 'kernel', km), cls.__name__))
        if p is not None:
            check(getattr(km.kernel, p) == v, '%s: kernel %d has %s=%r, expected %r' % (what, i, p, getattr(km.kernel, p), v))
            ref = cls(**{p: v})
            close(km.kernel(X[0], X[1]), ref(X[0], X[1]), what='%s: value of kernel %d' % (what, i))
            if skip is not None:
                check(km.kernel.skip_input_checks == skip, '%s: skip_input_checks of kernel %d' % (what, i))
        k2 = copy.deepcopy(km)
        k2.attach_to(X)
        K = usable(gram(k2.kernel, X))
        d = K.diagonal()
        if nrm and (d > 1e-6).all():
            close(k2.full, cos_norm(K, d, d), rtol=1e-7, what='%s: kernel %d normalized' % (what, i))
        elif not nrm:
            close(k2.full, K, what='%s: kernel %d not normalized' % (what, i))


@scenario('C14', 2)
def bucket(r):
    lists, kw = [], {}
    for nm, dflt in zip(['poly_degree_values', 'rbf_sigma_values', 'laplace_gamma_values', 'sigmoid_gamma_values', 'sigmoid_offset_values'], DEFAULTS):
        t = r.choice(['none', 'vals', 'vals', 'dflt', 'arr', 'dup'])
        if t == 'dflt':
            lists.append(dflt)
            continue
        if t == 'none':
            v = None
        elif nm == 'poly_degree_values':
            v = [r.int(1, 6) for _ in range(r.int(1, 4))]
        else:
            v = [r.real(0.05, 8) for _ in range(r.int(1, 4))]
        if t == 'dup' and v:
            v = v + v[:1]
        kw[nm] = v if t != 'arr' else np.array(v)
        if v is not None:
            r.track(kw[nm])
        lists.append(v)
    nrm = r.choice([None, True, False])
    skip = r.choice([None, True, False])
    if nrm is not None:
        kw['normalize_kernels'] = nrm
    if skip is not None:
        kw['skip_input_checks'] = skip
    b = KernelBucket(**kw)
    expect_bucket(b, lists, nrm is not False, 'KernelBucket(%s)' % brief(kw), bool(skip))
    raises(TypeError, KernelBucket, normalize_kernels=r.choice([1, None, 'x']), what='normalize_kernels')


@scenario('C14', 2)
def bucket_add(r):
    nrm = r.bool()
    b = KernelBucket(poly_degree_values=None, rbf_sigma_values=None, laplace_gamma_values=None, sigmoid_gamma_values=None,
                     sigmoid_offset_values=None, normalize_kernels=nrm)
    want = [('linear', None, None, nk.LinearKernel)]
    for _ in range(r.int(1, 3)):
        cls, p, vals = r.choice([(nk.PolyKernel, 'degree', [2, 3, 5]), (nk.GaussianKernel, 'sigma', [0.5, 1.5]), (nk.HadamardKernel, 'alpha', [1, 2, 3]),
                                 (nk.Chi2Kernel, 'gamma', [0.5, 1.0, 2.0]), (nk.PolyKernel, 'gamma', [0.25, 3.0]), (nk.PolyKernel, 'b', [0.5, 2.0]),
                                 (nk.LaplacianKernel, 'gamma', [0.1, 0.2, 0.7, 5.0])])
        vals = [vals[i] for i in r.sample(len(vals), r.int(1, len(vals)))]
        bad = []
        if cls is nk.HadamardKernel and r.bool():
            vals.insert(r.int(0, len(vals)), 0)
            bad = [0]
        if cls is nk.GaussianKernel and r.bool(0.4):
            vals.insert(r.int(0, len(vals)), 'abc')
            bad = ['abc']
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            b.add_parametrized_kernels(cls, p, vals)
        n = sum(issubclass(x.category, KernelMethodsWarning) for x in w)
        check(n == len(bad), '%d KernelMethodsWarnings when adding %s %s=%r' % (n, cls.__name__, p, vals))
        want += [(None, p, v, cls) for v in vals if v not in bad]
    got = [(type(km.kernel), None if p is None else getattr(km.kernel, p)) for km, (_, p, v, c) in zip(b, want)]
    check(b.size == len(want), 'the bucket has %d kernels, expected %d' % (b.size, len(want)))
    check(got == [(c, v) for _, p, v, c in want], 'the bucket has %r, expected %r' % (got, want))
    X = np.abs(r.data(3, 2, nonneg=True)) + 0.3
    for km, (_, p, v, c) in zip(b, want):
        km = copy.deepcopy(km)
        km.attach_to(X)
        K = usable(gram(km.kernel, X))
        d = K.diagonal()
        if nrm:
            if (d < 1e-6).any():
                continue
            K = cos_norm(K, d, d)
        close(km.full, K, rtol=1e-7, what='normalization of %r' % km.kernel)
    b.add_parametrized_kernels(nk.PolyKernel, 'degree', None)
    check(b.size == len(want), 'values None adds nothing')
    raises(KernelMethodsException, b.add_parametrized_kernels, r.choice([f_sym1, nk.PolyKernel(), 'poly', KernelSet]), 'degree', [2], what='not a kernel class')
    raises(ValueError, b.add_parametrized_kernels, nk.PolyKernel, 'degree', r.choice(['234', 3, []]), what='values')
    check(b.size == len(want), 'a refused addition changed the bucket')


@scenario('C14')
def strategies(r):
    nrm = r.bool()
    skip = r.bool()
    s = r.choice(['exhaustive', 'light', 'linear_only', 'Light', 'EXHAUSTIVE', 'default', None])
    if s == 'default':
        b = make_kernel_bucket()
        expect_bucket(b, DEFAULTS, True, 'make_kernel_bucket()')
    elif s is None:
        raises(ValueError, make_kernel_bucket, r.choice(['foo', '', 'lights', 'exhaustiv', 'linear', 'lin']), what='unknown strategy')
    else:
        b = make_kernel_bucket(s, normalize_kernels=nrm, skip_input_checks=skip)
        expect_bucket(b, {'e': DEFAULTS, 'l': LIGHT}[s[0].lower()] if s != 'linear_only' else [None] * 5, nrm, 'make_kernel_bucket(%r)' % s, skip)


# ---------------------------------------------------------------- C15
def f_negdot(x, y):
    return -float(np.dot(x, y)) - 0.5 * float(np.sum(np.abs(x))) * float(np.sum(np.abs(y)))


def small_bucket(r, lo=1, hi=3, nrm=None):
    nrm = r.bool() if nrm is None else nrm
    b = KernelBucket(poly_degree_values=[r.int(1, 3) for _ in range(r.int(lo, hi))] if r.bool(0.7) else None,
                     rbf_sigma_values=[r.real(0.3, 4) for _ in range(r.int(lo, hi))],
                     laplace_gamma_values=[r.real(0.05, 2) for _ in range(r.int(lo, hi))] if r.bool(0.5) else None,
                     sigmoid_gamma_values=None, sigmoid_offset_values=None, normalize_kernels=nrm)
    if r.bool(0.2):
        b.append(KernelMatrix(KernelFromCallable(f_const), normalized=nrm))
    return b


def bucket_K(b, X):
    out = []
    for km in b:
        K = usable(gram(km.kernel, X))
        if km._keep_normed:
            d = K.diagonal()
            if (np.abs(d) < 1e-6).any():
                raise Skip()
            K = cos_norm(K, d, d)
        out.append(K)
    return out


def align0(K, T):
    a, b = center(K), center(T)
    na, nb = np.linalg.norm(a), np.linalg.norm(b)
    if 1e-10 < na < 1e-6 or 1e-10 < nb < 1e-6:
        raise Skip()
    if na < 1e-6 or nb < 1e-6:
        return 0.0
    return float(np.sum(a * b) / na / nb)


@scenario('C15', 3)
def rank_align(r):
    n = r.int(2, 9)
    X = r.data(n, r.int(1, 3), kinds=('normal', 'F', 'dup'))
    y = r.arr(lambda: r.g.choice([-1, 1], size=n)) if r.bool() else r.arr(lambda: r.g.normal(size=n))
    if r.bool(0.1):
        y = np.ones(n)
    b = small_bucket(r)
    if r.bool(0.25):
        b.append(KernelMatrix(KernelFromCallable(f_negdot), normalized=False))   # of negative alignment
    Ks = bucket_K(b, X)
    T = np.outer(np.asarray(y, float), np.asarray(y, float))
    want = np.array([align0(K, T) for K in Ks])
    yy = y if r.bool() else list(y)
    members = list(b)
    if r.bool(0.5):
        b.attach_to(X)
        s = ranking.rank_kernels(b, yy, method=r.choice(['align/corr', 'ALIGN/corr'])) if r.bool() else ranking.rank_kernels(b, yy)
        check(isinstance(s, np.ndarray) or len(s) == len(want), 'scores')
        close(np.asarray(s), want, rtol=1e-8, scale=1.0, what='alignment scores')
    else:
        if r.bool(0.3):
            b.attach_to(r.data(n, X.shape[1], kinds=('normal',)))
            [km[:, :] for km in b]
        opt = ranking.find_optimal_kernel(b, X, yy, method='align/corr')
        optimal(b, members, X, opt, want)
    check(all(x is z for x, z in zip(members, b)) and b.size == len(members), 'ranking changed the bucket')


def optimal(b, members, X, opt, want, tol=1e-7):
    ix = [i for i, m in enumerate(members) if m is opt]
    check(len(ix) == 1, 'the optimal kernel is not a member of the bucket')
    check(opt.num_samples == X.shape[0], 'the optimal kernel is not attached to the sample')
    close(opt[:, :], gram(opt.kernel, X), what='the optimal kernel on the sample')
    best = np.nanmax(want)
    check(want[ix[0]] >= best - tol, 'kernel %d of score %r chosen, the best has %r' % (ix[0], want[ix[0]], best))


def cv_scores(b, Ks, y, folds, name):
    from sklearn.model_selection import GridSearchCV
    sc = []
    for K in Ks:
        est, grid = ranking.get_estimator(name)
        if hasattr(est, 'probability'):
            est.set_params(probability=False, decision_function_shape='ovo') if 'SVC' in type(est).__name__ else None
        gs = GridSearchCV(estimator=est, param_grid=grid, cv=folds)
        gs.fit(K, y)
        sc.append(gs.best_score_)
    return np.array(sc)


def cv_jitter(b, Ks, y, folds, name):
    """the scores, and how far rounding errors in the matrices move them"""
    sc = cv_scores(b, Ks, y, folds, name)
    g = np.random.default_rng(3)
    spread = 0.0
    for t in range(2):
        E = [1e-10 * g.normal(size=K.shape) for K in Ks]
        spread = max(spread, np.abs(cv_scores(b, [K * (1 + (e + e.T) / 2) for K, e in zip(Ks, E)], y, folds, name) - sc).max())
    tol = 30 * spread + (3e-3 if name == 'SVR' else 1e-9)
    if spread > 1e-3:
        raise Skip()
    return sc, tol


def scale01(a):
    lo, hi = np.nanmin(a), np.nanmax(a)
    if np.isclose(hi - lo, 0.0):
        return np.where(np.isnan(a), np.nan, 0.0)
    return (a - lo) / (hi - lo)


@scenario('C15')
def slow_rank_cv(r):
    n = r.int(8, 14)
    reg = r.bool(0.4)
    X = r.data(n, 2, kinds=('normal',))
    y = r.arr(lambda: r.g.normal(size=n)) if reg else np.array([0, 1] * ((n + 1) // 2))[:n]
    if not reg and r.bool(0.3):
        y = np.where(y == 0, -1, 1)
    b = KernelBucket(poly_degree_values=[2] if r.bool() else None, rbf_sigma_values=[r.real(0.3, 3)] if r.bool(0.8) else None,
                     laplace_gamma_values=None, sigmoid_gamma_values=None, sigmoid_offset_values=None, normalize_kernels=r.bool())
    if r.bool(0.2):
        b = KernelBucket(None, [1.0], None, None, None)
        b.append(KernelMatrix(nk.GaussianKernel(1.0)))
    Ks = bucket_K(b, X)
    folds = r.choice([3, 2])
    name = 'SVR' if reg else r.choice(['SVM', 'svc', 'SVC'])
    raw, tol = cv_jitter(b, Ks, y, folds, name)
    want = 100 * scale01(raw)
    members = list(b)
    if r.bool():
        b.attach_to(X)
        s = ranking.rank_kernels(b, y, method='cv_risk', num_folds=folds, estimator_name=name)
        rg = np.ptp(raw)
        if 0 < rg < 20 * tol:
            raise Skip()
        close(np.asarray(s), want, rtol=1e-6 + (3 * tol / rg if rg else 0), scale=100, what='cross-validated scores (raw %s)' % raw)
    else:
        opt = ranking.find_optimal_kernel(b, X, y, method='cv_risk', num_folds=folds, estimator_name=name)
        optimal(b, members, X, opt, raw, tol=tol)


@scenario('C15', 2)
def rank_fakecv(r):
    """the rescaling of the scores, with given raw scores"""
    from kernelmethods.utils import min_max_scale
    n = r.size(1, 7)
    a = r.arr(lambda: r.g.normal(size=n) * 10.0 ** r.g.integers(-2, 4))
    if r.bool(0.2):
        a = np.full(n, a[0])
    v = a if r.bool() else a.tolist()
    if 0 < abs(a.max() - a.min()) < 1e-6:
        raise Skip()
    if n > 1 and r.bool(0.3):
        k, a0 = r.int(0, n - 1), a
        a = r.arr(lambda: np.where(np.arange(n) == k, np.nan, a0))
        v = a if r.bool() else a.tolist()
    close(min_max_scale(v), scale01(a), rtol=1e-9, scale=1.0, what='min_max_scale(%s)' % brief(v))


@scenario('C15')
def rank_refused(r):
    n = r.int(3, 6)
    X, y = r.data(n, 2, kinds=('normal',)), np.array([1, -1] * n)[:n]
    b = small_bucket(r)
    meth = r.choice(['foo', '', 'align', 'cv', 'corr', 'cv_risks'])
    raises(NotImplementedError, ranking.find_optimal_kernel, b, X, y, method=meth, what='method %r' % meth)
    b.attach_to(X)
    raises(NotImplementedError, ranking.rank_kernels, b, y, method=meth, what='method %r' % meth)
    bad = r.choice([None, 'light', [KernelMatrix(nk.LinearKernel())], KernelSet([np.eye(n)]), KernelMatrix(nk.LinearKernel())])
    raises(TypeError, ranking.find_optimal_kernel, bad, X, y, method='align/corr', what='not a bucket')


class NanKernel(base.BaseKernelFunction):
    def __init__(self, tag=0, skip_input_checks=False):
        super().__init__('nan')
        self.tag = tag

    def __call__(self, x, y):
        return float('nan')

    def __str__(self):
        return 'nan'


@scenario('C15')
def slow_rank_overflow(r):
    """the first kernel overflows, all others score the same"""
    n = r.int(6, 9)
    X = r.arr(lambda: np.random.default_rng(r.int(0, 9)).permutation(n)[:, None] * 1e180 + np.ones((n, 2)) * 1e200)
    y = np.array([0, 1] * n)[:n]
    b = KernelBucket(None, [1.0, 2.0][:r.int(1, 2)], None, None, None, normalize_kernels=False)
    opt = ranking.find_optimal_kernel(b, X, y, method='cv_risk')
    check(np.isfinite(opt.full).all(), 'a kernel without a score was chosen')
    check(any(m is opt for m in b), 'the optimal kernel is not a member of the bucket')


@scenario('C15')
def rank_nan(r):
    n = r.int(4, 7)
    X, y = r.data(n, 2, kinds=('normal',)), r.arr(lambda: r.g.choice([-1, 1], size=n))
    if abs(y.sum()) == n:
        raise Skip()
    b = small_bucket(r, nrm=False)
    pos = [type(k.kernel) for k in b]
    b.add_parametrized_kernels(NanKernel, 'tag', [1])
    b.add_parametrized_kernels(nk.GaussianKernel, 'sigma', [r.real(0.5, 3)])
    members = list(b)
    T = np.outer(y, y).astype(float)
    want = np.array([np.nan if isinstance(k.kernel, NanKernel) else align0(gram(k.kernel, X), T) for k in members])
    opt = ranking.find_optimal_kernel(b, X, y, method='align/corr')
    check(not isinstance(opt.kernel, NanKernel), 'a kernel without a score was chosen')
    optimal(b, members, X, opt, want)


# ---------------------------------------------------------------- C16
def mkernel(r):
    return r.choice([lambda: nk.GaussianKernel(sigma=r.real(0.5, 3)), lambda: nk.LaplacianKernel(gamma=r.real(0.1, 1)),
                     lambda: nk.LinearKernel(), lambda: nk.PolyKernel(degree=2, gamma=0.5), lambda: KernelFromCallable(f_sym1, name='f')])()


def tr_te(r, reg):
    n, d = r.int(6, 16), r.int(1, 3)
    m = r.choice([1, 2, 3, 5, n, n])
    X = r.data(n, d, kinds=('normal', 'normal', 'F'))
    if r.bool(0.5):
        X = X + 0.7
    T = r.data(m, d, kinds=('normal',)) if r.bool(0.8) else X.copy()
    if reg:
        y = r.arr(lambda: r.g.normal(size=n) * 3)
    else:
        labels = r.choice([[0, 1], [-1, 1], [3, 7, 9], [1.0, 2.0], ['a', 'b']])
        y = r.arr(lambda: np.array([labels[i] for i in (list(range(len(labels))) * n)[:n]])[r.g.permutation(n)])
    return X, y, T


def fitted(make, K, C, y, w, reg):
    """predictions of the learner on Gram matrices, and how much rounding in K or the order of samples moves them"""
    g = np.random.default_rng(7)
    outs, n = [], len(y)
    for t in range(5):
        est = make()
        p = np.arange(n) if t == 0 else g.permutation(n)
        Kp, Cp = K[np.ix_(p, p)], C[:, p]
        if t:
            Kp = Kp * (1 + 1e-11 * g.normal(size=Kp.shape))
            Kp = (Kp + Kp.T) / 2
        est.fit(Kp, y[p], sample_weight=None if w is None else w[p])
        if reg:
            outs.append((est.predict(Cp), None))
        else:
            dec = est.decision_function(Cp)
            mg = np.abs(dec) if dec.ndim == 1 else np.abs(dec).min(axis=1)
            outs.append((est.predict(Cp), mg))
    p0, m0 = outs[0]
    if reg:
        spread = np.max([np.abs(p - p0) for p, m in outs], axis=0)
        if spread.max() > 0.02 * (np.abs(y).max() + 1):
            raise Skip()
        return p0, 2e-3 * (1 + np.abs(p0)) + 20 * spread
    spread = np.max([np.abs(m - m0) for p, m in outs], axis=0)
    stable = np.all([p == p0 for p, m in outs], axis=0) & (m0 > 5e-3 + 20 * spread)
    return p0, stable


def ref_predict(k, nrm, X, y, T, w, reg, learner):
    K, C = gram(k, X), gram(k, T, X)
    if nrm:
        dx, dt = K.diagonal().copy(), np.array([float(k(t, t)) for t in T])
        if (dx < 1e-4).any() or (dt < 1e-4).any():
            raise Skip()
        K, C = cos_norm(K, dx, dx), cos_norm(C, dt, dx)
    usable(K), usable(C)

    def make():
        est, _ = ranking.get_estimator(learner)
        if 'SVC' in type(est).__name__:
            est.set_params(probability=False, decision_function_shape='ovo')
        return est
    return fitted(make, K, C, y, w, reg)


def same_pred(got, want, tol, reg, what):
    got = np.asarray(got)
    check(got.shape == want.shape, '%s: shape %s, expected %s' % (what, got.shape, want.shape))
    ok = np.abs(got - want) <= tol if reg else (got == want) | ~tol
    check(ok.all(), '%s: %s, expected %s' % (what, brief(got), brief(want)))


@scenario('C16', 3)
def machine(r):
    reg = r.bool()
    k, nrm = mkernel(r), r.bool(0.4)
    cls = KernelMachineRegressor if reg else KernelMachine
    m = cls(k_func=k, normalized=nrm) if r.bool() else cls(k, normalized=nrm, learner_id='SVR' if reg else 'SVC')
    raises(NotFittedError, m.predict, np.ones((2, 2)), what='predict before fit')
    for rnd in range(r.int(1, 2)):
        X, y, T = tr_te(r, reg)
        w = r.arr(lambda: r.g.random(len(y)) + 0.1) if r.bool(0.4) else None
        want, mg = ref_predict(k, nrm, X, y, T, w, reg, 'SVR' if reg else 'SVC')
        m.fit(X, y, sample_weight=w) if w is not None else m.fit(X, y)
        ws = 'fit #%d %s normalized=%s weights=%s' % (rnd, k, nrm, w is not None)
        same_pred(m.predict(T), want, mg, reg, ws)
        i = r.int(0, len(T) - 1)
        same_pred(m.predict(T[i:i + 1]), want[i:i + 1], None if mg is None else mg[i:i + 1], reg, ws + ': test point %d alone' % i)
        same_pred(m.predict(T[::-1]), want[::-1], None if mg is None else mg[::-1], reg, ws + ': test points reversed')
        if r.bool(0.3):
            m.predict(r.data(3, X.shape[1], kinds=('normal',)))
        same_pred(m.predict(T), want, mg, reg, ws + ': again')
        q = np.array([0] + list(range(1, len(T)))[::-1])
        same_pred(m.predict(T[q]), want[q], None if mg is None else mg[q], reg, ws + ': test points in another order')
        if r.bool(0.3):
            B = T.copy()
            m.predict(B)
            B[:] = T[::-1]
            same_pred(m.predict(B), want[::-1], None if mg is None else mg[::-1], reg, ws + ': same array with other contents')
        if r.bool(0.4):
            k, nrm = mkernel(r), r.bool()
            m.set_params(k_func=k, normalized=nrm)
            p = m.get_params()
            check(p['k_func'] is k and p['normalized'] is nrm, 'get_params after set_params: %r' % (p,))
            want, mg = ref_predict(k, nrm, X, y, T, None, reg, 'SVR' if reg else 'SVC')
            m.fit(X, y)
            same_pred(m.predict(T), want, mg, reg, 'refit with other parameters')
    p = m.get_params()
    check(p['k_func'] is k and p['normalized'] is nrm and p['learner_id'].lower() == ('svr' if reg else 'svc'), 'get_params: %r' % (p,))
    if r.bool(0.3):
        m.set_params(learner_id='no such learner')
        raises(NotImplementedError, m.fit, X, y, what='refit with an unknown learner')
        m.set_params(learner_id='svr' if reg else 'SVM')
        want, mg = ref_predict(k, nrm, X, y, T, None, reg, 'SVR' if reg else 'SVC')
        m.fit(X, y)
        same_pred(m.predict(T), want, mg, reg, 'refit with another name of the learner')


# ---------------------------------------------------------------- C17
def okm_ref(b, X, y, T, w, reg, chosen):
    """predictions with the chosen kernel"""
    from sklearn.svm import SVC, SVR
    K, C = gram(chosen.kernel, X), gram(chosen.kernel, T, X)
    if chosen._keep_normed:
        dx, dt = K.diagonal().copy(), np.array([float(chosen.kernel(t, t)) for t in T])
        if (dx < 1e-4).any() or (dt < 1e-4).any():
            raise Skip()
        K, C = cos_norm(K, dx, dx), cos_norm(C, dt, dx)
    return usable(K), usable(C)


@scenario('C17', 2)
def optimal_machine(r):
    from sklearn.svm import SVC, SVR
    reg = r.bool()
    n, d = r.int(8, 14), 2
    X, T = r.data(n, d, kinds=('normal', 'F')), r.data(r.choice([1, 3, n]), d, kinds=('normal',))
    y = r.arr(lambda: r.g.normal(size=n)) if reg else np.array([0, 1] * n)[:n]
    if not reg and r.bool():
        y = y * 4 - 2
    Cp, eps = r.choice([1.0, 0.5, 10.0]), 0.1
    meth = 'align/corr' if r.bool(0.85) else 'cv_risk'
    if r.bool(0.8):
        b = small_bucket(r, 1, 2) if meth == 'align/corr' else KernelBucket([2], [1.0], None, None, None)
        src = b
    else:
        src = r.choice(['linear_only', 'light']) if meth == 'align/corr' else 'linear_only'
        b = make_kernel_bucket(src)
    w = r.arr(lambda: r.g.random(n) + 0.2) if r.bool(0.3) else None
    kw = dict(C=Cp)
    est = (OptimalKernelSVR if reg else OptimalKernelSVC)(k_bucket=src, method=meth, **kw)
    raises(NotFittedError, est.predict, T, what='predict before fit')
    before = [(km, km.num_samples, km.kernel, dict(km.attributes())) for km in b]
    if r.bool(0.3) and src is b:
        X0 = r.data(5, 3, kinds=('normal',))
        b.attach_to(X0)
        for km in b:
            km.set_attr('mine', 1)
        before = [(km, km.num_samples, km.kernel, dict(km.attributes())) for km in b]
    else:
        X0 = None
    ref = copy.deepcopy(b) if src is b else make_kernel_bucket(src)
    if X0 is not None:
        ref = KernelBucket(None, None, None, None, None)
        ref._km_set = [KernelMatrix(km.kernel, normalized=km._keep_normed) for km in b]
        ref._num_samples = None
        # a bucket attached to a sample of another size refuses the training data
        raises(ValueError, est.fit, X, y, what='bucket attached to another number of samples') if X0.shape[0] != n else None
        for (km, ns, kf, at), km2 in zip(before, b):
            check(km is km2 and km2.num_samples == ns and km2.attributes() == at, 'a refused fit modified the bucket')
        return
    Ks = bucket_K(ref, X)
    if meth == 'align/corr':
        T0 = np.outer(y, y).astype(float)
        sc = np.array([align0(K, T0) for K in Ks])
    else:
        sc, ctol = cv_jitter(ref, Ks, y, 3, 'SVR' if reg else 'SVC')
    est.fit(X, y, sample_weight=w) if w is not None else est.fit(X, y)
    ok = est.opt_kernel_
    kinds = [i for i, km in enumerate(ref) if str(km.kernel) == str(ok.kernel)]
    check(kinds, 'the optimal kernel %s is not of the bucket' % ok.kernel)
    check(max(sc[i] for i in kinds) >= sc.max() - (1e-7 if meth == 'align/corr' else ctol), 'kernel %s of score %r chosen, the best has %r' % (ok.kernel, [sc[i] for i in kinds], sc.max()))
    K, C = okm_ref(b, X, y, T, w, reg, ref[kinds[0]])
    want, mg = fitted(lambda: SVR(kernel='precomputed', C=Cp, epsilon=eps) if reg else SVC(kernel='precomputed', C=Cp), K, C, y, w, reg)
    ws = 'optimal kernel %s, method %s' % (ok.kernel, meth)
    same_pred(est.predict(T), want, mg, reg, ws)
    same_pred(est.predict(T), want, mg, reg, ws + ', again')
    est.predict(r.data(2, d, kinds=('normal',)))
    same_pred(est.predict(T), want, mg, reg, ws + ', after other predictions')
    i = r.int(0, len(T) - 1)
    same_pred(est.predict(T[i:i + 1]), want[i:i + 1], None if mg is None else mg[i:i + 1], reg, ws + ': one test point')
    q = np.array([0] + list(range(1, len(T)))[::-1])
    B = T.copy()
    same_pred(est.predict(B), want, mg, reg, ws + ', copied')
    B[:] = T[q]
    same_pred(est.predict(B), want[q], None if mg is None else mg[q], reg, ws + ', same array with other contents')
    if src is b:
        check(b.size == len(before), 'fitting changed the size of the bucket')
        check(b.num_samples is None, 'fitting changed the samples of the bucket: %r' % (b.num_samples,))
        for (km, ns, kf, at), km2 in zip(before, b):
            check(km is km2 and km2.num_samples == ns and km2.kernel is kf and km2.attributes() == at, 'fitting or predicting modified the bucket')
    if r.bool(0.3):
        X2, y2 = r.data(n, d, kinds=('normal',)), y
        est.fit(X2, y2)
        est.predict(T)
        est.fit(X, y, sample_weight=w)
        same_pred(est.predict(T), want, mg, reg, ws + ', after another fit')


@scenario('C17')
def optimal_refused(r):
    X = r.data(6, 2, kinds=('normal',))
    y = np.array([0, 1] * 3)
    cls = r.choice([OptimalKernelSVC, OptimalKernelSVR])
    bad = r.choice(['foo', '', 3, None, KernelSet([np.eye(6)]), ['light'], nk.LinearKernel(), 'lights'])
    e = cls(k_bucket=bad, method='align/corr')
    raises(ValueError, e.fit, X, y, what='k_bucket=%r' % (bad,))
    raises(NotFittedError, cls().predict, X, what='predict before fit')


# ---------------------------------------------------------------- C18 (see also rt.search: every scenario is checked for changed arguments)
@scenario('C18', 2)
def frame_ops(r):
    n = r.size(1, 6)
    A = symm(r, n)
    B = symm(r, n)
    P = r.arr(lambda: (lambda M: M @ M.T + np.eye(n))(r.g.normal(size=(n, n))))
    dx, dy = r.arr(lambda: r.g.random(n) + 0.5), r.arr(lambda: r.g.random(n) + 0.5)
    y = r.arr(lambda: r.g.normal(size=n))
    for f in (lambda: ops.center_km(A), lambda: ops.normalize_km(P), lambda: ops.normalize_km_2sample(A, dx, dy), lambda: ops.frobenius_product(A, B),
              lambda: ops.frobenius_norm(A), lambda: ops.alignment_centered(A, B, value_if_zero_division=0.0), lambda: ops.alignment_centered(A, B, value_if_zero_division=0.0, centered_already=True),
              lambda: ops.is_PSD(A), lambda: ops.is_PSD(P), lambda: sampling.ideal_kernel(y), lambda: sampling.correlation_km(A, B) if n > 1 else None,
              lambda: KernelMatrixPrecomputed(A).full, lambda: KernelSet([A, B]), lambda: SumKernel(KernelSet([A, B])).fit(), lambda: ProductKernel(KernelSet([A, B])).fit()):
        f()


def snapshot(kms):
    return [(km.full.copy(), km.diagonal().copy() if isinstance(km, KernelMatrix) else None, dict(km.attributes()) if isinstance(km, KernelMatrix) else None, km.num_samples) for km in kms]


@scenario('C18', 3)
def frame_sets(r):
    n, d = r.int(2, 6), r.int(1, 3)
    X = r.data(n, d, kinds=('normal', 'F', 'int'))
    y = r.arr(lambda: r.g.normal(size=n))
    b = small_bucket(r, nrm=False)
    b.attach_to(X)
    b.set_attr('t', r.track(list(range(b.size))))
    ms = list(b)
    q = len(ms)
    w = r.arr(lambda: r.g.random(q) + 0.1)
    if not all(np.isfinite(gram(m.kernel, X)).all() for m in ms):
        raise Skip()
    s0 = snapshot(ms)
    op = r.choice(['sum', 'sumw', 'prod', 'avg', 'wavg', 'lin', 'linn', 'rank', 'pair', 'paira', 'take'])
    f = {'sum': lambda: SumKernel(b).fit(), 'sumw': lambda: SumKernel(b).fit(w), 'prod': lambda: ProductKernel(b).fit(), 'avg': lambda: AverageKernel(b).fit(),
         'wavg': lambda: WeightedAverageKernel(b, w).fit(), 'lin': lambda: ops.linear_combination(b, w), 'linn': lambda: ops.linear_combination(b, w, norm_weights=True),
         'rank': lambda: ranking.rank_kernels(b, y), 'pair': lambda: sampling.pairwise_similarity(b), 'paira': lambda: sampling.pairwise_similarity(b, metric='align'),
         'take': lambda: b.take([0])}[op]
    if q < 2:
        raise Skip()
    f()
    check(all(x is z for x, z in zip(ms, b)) and b.size == q, op + ' changed the members')
    for i, (s, t) in enumerate(zip(s0, snapshot(ms))):
        check(np.array_equal(s[0], t[0]) and np.array_equal(s[1], t[1]) and s[2] == t[2] and s[3] == t[3], '%s modified kernel matrix %d of the set' % (op, i))


@scenario('C18', 2)
def frame_pre(r):
    n, q = r.int(1, 5), r.int(2, 4)
    As = [symm(r, n) for _ in range(q)]
    ks = KernelSet(As)
    w = r.arr(lambda: r.g.random(q) + 0.1)
    wi = r.arr(lambda: r.g.integers(1, 5, size=q))
    wl = r.track([float(x) for x in w])
    f = r.choice([lambda: SumKernel(ks).fit(), lambda: SumKernel(ks).fit(w), lambda: ProductKernel(ks).fit(), lambda: AverageKernel(ks).fit(),
                  lambda: WeightedAverageKernel(ks, w).fit(), lambda: ops.linear_combination(ks, w, norm_weights=True), lambda: ops.linear_combination(ks, wi, norm_weights=True),
                  lambda: ops.linear_combination(ks, wl, norm_weights=True), lambda: sampling.pairwise_similarity(ks, metric='align')])
    f()


@scenario('C18')
def frame_est(r):
    reg = r.bool()
    X, y, T = tr_te(r, reg)
    w = r.arr(lambda: r.g.random(len(y)) + 0.1)
    m = (KernelMachineRegressor if reg else KernelMachine)(k_func=mkernel(r), normalized=False)
    m.fit(X, y, sample_weight=w)
    m.predict(T)
    if not reg and y.dtype.kind in 'Uf':
        return
    e = (OptimalKernelSVR if reg else OptimalKernelSVC)(k_bucket=small_bucket(r, 1, 1, nrm=False), method='align/corr')
    e.fit(X, y, sample_weight=w)
    e.predict(T)


# ---------------------------------------------------------------- C19
@scenario('C19', 2)
def pairwise(r):
    n, d = r.int(3, 7), r.int(1, 3)
    X = r.data(n, d, kinds=('normal', 'F'))
    b = small_bucket(r)
    Ks = bucket_K(b, X)
    b.attach_to(X)
    met = r.choice(['corr', 'align', None])
    if met != 'align' and any(K.std() < 1e-9 for K in Ks):
        raise Skip()
    v = sampling.pairwise_similarity(b) if met is None else sampling.pairwise_similarity(b, metric=met)
    f = (lambda a, c: align0(a, c)) if met == 'align' else (lambda a, c: np.corrcoef(a.ravel(), c.ravel())[0, 1])
    want = np.array([[f(a, c) for c in Ks] for a in Ks])
    close(v, want, rtol=1e-7, scale=1.0, what='pairwise_similarity(metric=%r)' % met)


@scenario('C19', 2)
def ideal(r):
    n = r.size(1, 8)
    t = r.choice(['f', 'i', 'list', 'col', 'b'])
    y = r.arr(lambda: r.g.normal(size=n) if t in ('f', 'col') else r.g.integers(-3, 4, size=n))
    a = y.tolist() if t == 'list' else y.reshape(-1, 1) if t == 'col' else y.astype(np.int8) if t == 'b' else y
    close(sampling.ideal_kernel(a), np.outer(y, y), rtol=1e-12, what='ideal kernel of %s' % brief(a))


@scenario('C19', 2)
def correlation(r):
    n, m = r.int(2, 6), r.int(2, 6)
    A, B = r.arr(lambda: r.g.normal(size=(n, m))), r.arr(lambda: r.g.normal(size=(n, m)) + 1)
    if r.bool(0.3):
        A = np.asfortranarray(A)
    close(sampling.correlation_km(A, B), np.corrcoef(np.ascontiguousarray(A).ravel(), np.ascontiguousarray(B).ravel())[0, 1], rtol=1e-9, scale=1.0, what='correlation')
    close(sampling.correlation_km(A, A * 2 + 1), 1.0, rtol=1e-9, what='correlation')
    close(sampling.correlation_km(A, -A), -1.0, rtol=1e-9, what='correlation')


# ---------------------------------------------------------------- C21
@scenario('C21', 3)
def psd(r):
    n = r.size(1, 6)
    t = r.choice(['psd', 'low', 'indef', 'neg', 'zero', 'onebad', 'tolok', 'toln', 'int', 'spec'])
    Q = r.arr(lambda: np.linalg.qr(r.g.normal(size=(n, n)))[0])
    ev = r.arr(lambda: r.g.random(n) * 3 + 0.1).copy()
    tol = None
    if t == 'low':
        ev[:n // 2] = 0
    elif t == 'indef':
        ev = ev * np.where(np.arange(n) % 2 == 0, -1, 1)
    elif t == 'neg':
        ev = -ev
    elif t == 'zero':
        ev = ev * 0
    elif t in ('onebad', 'spec'):
        ev[r.int(0, n - 1)] = -r.choice([0.01, 1.0, 1e-4, 1e-5])
    elif t == 'tolok':
        tol = r.choice([0.1, 0.5, 1e-3])
        ev[0] = -tol * r.choice([0.9, 0.5])
    elif t == 'toln':
        tol = r.choice([0.1, 0.5, 1e-3, 1e-9])
        ev[0] = -max(tol * r.choice([1.1, 2]), 1e-7)
    A = (Q * ev) @ Q.T
    A = (A + A.T) / 2
    if t == 'int':
        A = r.arr(lambda: (lambda M: M @ M.T)(r.g.integers(-3, 4, size=(n, n))))
        ev = np.array([0.0])
    want = bool((ev >= -(1e-6 if tol is None else tol)).all())
    got = ops.is_PSD(A) if tol is None else ops.is_positive_semidefinite(A, tolerance=tol)
    check(isinstance(got, (bool, np.bool_)) and bool(got) == want, 'is_PSD is %r for eigenvalues %s (tolerance %r)' % (got, ev, tol))


@scenario('C21')
def psd_shape(r):
    n = r.int(1, 5)
    raises(TypeError, ops.is_PSD, r.choice([[[1, 0], [0, 1]], 'x', None, 3, ((1,),)]), what='not an array')
    M = np.ones((n, n + r.int(1, 3)))
    M = M if r.bool() else M.T
    check(not ops.is_PSD(M), 'is_PSD accepts a matrix of shape %s' % (M.shape,))
    A = np.eye(n + 1) * 5
    i, j = r.choice([(i, j) for i in range(n + 1) for j in range(n + 1) if i != j])
    A[i, j] = r.choice([0.5, -1.0, 0.01])
    check(not ops.is_PSD(A), 'is_PSD accepts a matrix that is not symmetric at %s' % ((i, j),))
    B = np.eye(n + 1)
    B[i, i] = r.choice([np.nan, np.inf])
    check(not ops.is_PSD(B), 'is_PSD accepts a matrix with %r' % B[i, i])
    check(not ops.is_PSD(B, verbose=False), 'is_PSD accepts a matrix with %r' % B[i, i])
