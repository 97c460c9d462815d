"""Scenarios for kernel functions and kernel matrices (C01-C10, C20, C22, C23)."""
import math
import warnings
import numpy as np
from .rt import scenario, Fail, Skip, close, check, raises, R, brief

from kernelmethods import base, numeric_kernels as nk, operations as ops, config as cfg
from kernelmethods.base import KernelMatrix, KernelFromCallable, KernelMatrixPrecomputed, ConstantKernelMatrix
from kernelmethods.categorical import MatchCountKernel
from kernelmethods.config import KMAccessError, KMNormError, KernelMethodsWarning


# ---------------------------------------------------------------- kernels
def f_sym1(x, y):
    return float(np.dot(x, y)) + 0.25 * float(np.sum(np.abs(x - y)))


def f_sym2(x, y):
    return int(round(float(np.sum(x + y)) * 3))          # an integer value, often negative


def f_sym3(x, y):
    return np.float32(1.0 / (1.0 + np.sum((np.asarray(x, float) - y) ** 2)))


def f_zero(x, y):
    return 0.0 if float(np.sum(x)) * float(np.sum(y)) < 0 else 2.5     # many zeros


def f_const(x, y):
    return 3


def f_asym(x, y):
    return float(np.sum(x) * 2.0 + np.sum(np.asarray(y, float) ** 2))


def kernel(r, pd=False, asym=False, checks=None):
    """(kernel object, name)"""
    opts = ['gauss', 'lap', 'lin', 'poly', 'sig', 'had', 'c1', 'c2', 'c3', 'c4', 'c5']
    if pd:
        opts = ['gauss', 'lap', 'poly', 'lin1']
    if asym:
        opts = opts + ['asym', 'asym']
    o = r.choice(opts)
    skip = r.bool(0.2) if checks is None else not checks
    if o == 'gauss':
        return nk.GaussianKernel(sigma=r.real(0.5, 5), skip_input_checks=skip)
    if o == 'lap':
        return nk.LaplacianKernel(gamma=r.real(0.01, 2), skip_input_checks=skip)
    if o == 'lin':
        return nk.LinearKernel(skip_input_checks=skip)
    if o == 'lin1':
        return KernelFromCallable(lambda x, y, c=1.0: c + np.dot(np.asarray(x, float), y), name='lin1')
    if o == 'poly':
        return nk.PolyKernel(degree=r.int(1, 4), gamma=r.real(0.1, 2), b=r.real(0.5, 2), skip_input_checks=skip)
    if o == 'sig':
        return nk.SigmoidKernel(gamma=r.real(0.01, 2), offset=r.real(-2, 2), skip_input_checks=skip)
    if o == 'had':
        return nk.HadamardKernel(alpha=r.choice([1, 2, 3, 0.5]), skip_input_checks=skip)
    return KernelFromCallable({'c1': f_sym1, 'c2': f_sym2, 'c3': f_sym3, 'c4': f_zero, 'c5': f_const, 'asym': f_asym}[o])


def gram(k, X, Y=None):
    Y = X if Y is None else Y
    return np.array([[float(k(X[i, :], Y[j, :])) for j in range(Y.shape[0])] for i in range(X.shape[0])]).reshape(X.shape[0], Y.shape[0])


def usable(K):
    """the numbers are finite"""
    if not np.isfinite(K).all():
        raise Skip()
    return K


def dims(r, hi=7):
    n = r.size(1, hi)
    d = r.size(1, 4) if n < 40 else r.int(1, 3)
    return n, min(d, 12)


def two(r, hi=6):
    n, d = dims(r, hi)
    m = n if r.bool(0.25) else r.size(1, hi)
    X = r.data(n, d)
    Y = X if r.bool(0.05) and n == m else r.data(m, d)
    return X, Y


# ---------------------------------------------------------------- oracles of the reads
def cos_norm(K, dx, dy):
    return K / np.sqrt(np.outer(dx, dy))


def center(K):
    return K - K.mean(axis=1, keepdims=True) - K.mean(axis=0, keepdims=True) + K.mean()


class Oracle:
    """what every read of a KernelMatrix must give"""

    def __init__(self, k, X, Y, normalized):
        self.k, self.X, self.Y, self.nrm = k, X, Y, normalized
        self.K = usable(gram(k, X, Y))
        if Y is None:
            self.dx = self.dy = self.K.diagonal().copy()
        else:
            self.dx = np.array([float(k(x, x)) for x in X])
            self.dy = np.array([float(k(y, y)) for y in Y])
        small = np.concatenate([self.dx, self.dy])
        if np.any((np.abs(small) < 1e-6) & (np.abs(small) > 1e-10)):
            raise Skip()
        self.can_norm = not np.any(np.abs(small) < 1e-6)
        if self.can_norm and np.any(small < 0):
            self.N = None          # roots of negative numbers
            raise Skip()
        self.N = cos_norm(self.K, self.dx, self.dy) if self.can_norm else None

    def attach(self, km):
        if self.Y is None:
            km.attach_to(self.X)
        else:
            km.attach_to(self.X, sample_two=self.Y)


def norm_tol(o):
    return 1e-8 * max(1.0, np.abs(o.N).max(initial=0.0)) if o.N is not None else 1e-8


def read(r, km, o, what):
    """one random read, checked against the oracle"""
    n, m = o.K.shape
    two_s = o.Y is not None
    op = r.choice(['full', 'full', 'sparse', 'elem', 'sub', 'lin', 'all', 'diag', 'centered', 'center', 'normed', 'normalize', 'frob', 'meta', 'rowall'])
    w = '%s / %s' % (what, op)
    if op in ('full', 'normed', 'normalize') or (op == 'sparse' and o.nrm):
        if op == 'full' and not o.nrm:
            close(km.full, o.K, what=w)
            return op
        f = {'full': lambda: km.full, 'normed': lambda: km.normed_km, 'normalize': lambda: km.normalize(), 'sparse': lambda: km.full_sparse}[op]
        if not o.can_norm:
            raises(KMNormError, f, what=w)
            return op
        v = f()
        if op != 'normalize':
            v = v.toarray() if hasattr(v, 'toarray') else v
            close(v, o.N, rtol=1e-7, what=w)
    elif op == 'sparse':
        v = km.full_sparse
        check(hasattr(v, 'toarray'), w + ': not a sparse matrix')
        close(v.toarray(), np.triu(o.K), what=w)
    elif op == 'elem':
        i, j = r.int(0, n - 1), r.int(0, m - 1)
        close(km[i, j], o.K[i:i + 1, j:j + 1], what=w + ' [%d, %d]' % (i, j))
    elif op == 'sub':
        a = sorted(r.sample(n, r.int(1, n)))
        b = sorted(r.sample(m, r.int(1, m)))
        close(km[a, b], o.K[np.ix_(a, b)], what=w + ' [%s, %s]' % (a, b))
    elif op == 'lin':
        i, j = r.int(0, n - 1), r.int(0, m - 1)
        close(km[i * m + j], o.K[i:i + 1, j:j + 1], what=w + ' [%d]' % (i * m + j))
    elif op == 'all':
        close(km[:, :], o.K, what=w)
    elif op == 'rowall':
        i = r.int(0, n - 1)
        close(km[i, :], o.K[i:i + 1, :], what=w + ' [%d, :]' % i)
    elif op == 'diag':
        if two_s:
            raises(KMAccessError, km.diagonal, what=w)
        else:
            close(km.diagonal(), o.K.diagonal(), what=w)
    elif op in ('centered', 'center'):
        if two_s:
            raises((KMAccessError, NotImplementedError), (lambda: km.centered) if op == 'centered' else km.center, what=w)
        else:
            if op == 'center':
                km.center()
            close(km.centered, center(o.K), what=w, scale=np.abs(o.K).max())
    elif op == 'frob':
        close(km.frob_norm, np.sqrt(np.sum(o.K * o.K)), what=w)
    elif op == 'meta':
        check(km.shape == (n, m), w + ': shape %r' % (km.shape,))
        check(len(km) == n * m and km.size == n * m, w + ': size %r' % km.size)
        ns = km.num_samples
        check(tuple(ns) == (n, m) if two_s else ns == n, w + ': num_samples %r' % (ns,))
        str(km)
    return op


def all_reads(km, o, what, r=None):
    """every read, in a fixed order that starts with the cheap ones"""
    n, m = o.K.shape
    two_s = o.Y is not None
    check(km.shape == (n, m), what + ': shape %r' % (km.shape,))
    check(len(km) == n * m, what + ': len')
    ns = km.num_samples
    check(tuple(ns) == (n, m) if two_s else ns == n, what + ': num_samples %r' % (ns,))
    close(km[n - 1, 0], o.K[n - 1:, :1], what=what + ' / element')
    close(km[0, m - 1], o.K[:1, m - 1:], what=what + ' / element')
    if not two_s:
        close(km.diagonal(), o.K.diagonal(), what=what + ' / diagonal')
        close(km.centered, center(o.K), scale=np.abs(o.K).max(), what=what + ' / centered')
    close(km.frob_norm, np.sqrt(np.sum(o.K * o.K)), what=what + ' / frob_norm')
    if not o.nrm:
        close(km.full, o.K, what=what + ' / full')
        close(km.full_sparse.toarray(), np.triu(o.K), what=what + ' / full_sparse')
    elif o.can_norm:
        close(km.full, o.N, rtol=1e-7, what=what + ' / full')
    if o.can_norm:
        close(km.normed_km, o.N, rtol=1e-7, what=what + ' / normed')
    close(km[:, :], o.K, what=what + ' / [:, :]')


# ---------------------------------------------------------------- C01
@scenario('C01', 3)
def gram_one(r):
    n, d = dims(r)
    k = kernel(r)
    X = r.data(n, d)
    if r.bool(0.1):
        X = X.reshape(n, d, 1)
        Xo = X[:, :, 0]
    else:
        Xo = X
    K = usable(gram(k, Xo))
    km = KernelMatrix(k, normalized=False)
    km.attach_to(X)
    v = km.full
    check(isinstance(v, np.ndarray), 'full is not a dense array: %r' % type(v))
    close(v, K, what='full (one sample)')


@scenario('C01', 3)
def gram_two(r):
    X, Y = two(r)
    k = kernel(r, asym=True)
    K = usable(gram(k, X, Y))
    km = KernelMatrix(k, normalized=False)
    km.attach_to(X, sample_two=Y)
    v = km.full
    check(isinstance(v, np.ndarray), 'full is not a dense array: %r' % type(v))
    close(v, K, what='full (two samples %d x %d)' % K.shape)


@scenario('C01')
def gram_categorical(r):
    n, d = dims(r, 5)
    m = r.int(1, 5)
    X = r.arr(lambda: r.g.choice(['a', 'b', 'ab'], size=(n, d)))
    Y = r.arr(lambda: r.g.choice(['a', 'b', 'ab'], size=(m, d)))
    k = MatchCountKernel(return_perc=r.bool())
    cnt = (X[:, None, :] == Y[None, :, :]).sum(axis=2)
    cxx = (X[:, None, :] == X[None, :, :]).sum(axis=2)
    f = 1.0 / d if k.return_perc else 1.0
    km = KernelMatrix(k, normalized=False)
    km.attach_to(X)
    close(km.full, cxx * f, what='categorical one sample')
    km.attach_to(X, sample_two=Y)
    close(km.full, cnt * f, what='categorical two samples')


# ---------------------------------------------------------------- C02
@scenario('C02')
def read_history(r):
    k = kernel(r, pd=r.bool(0.6))
    nrm = r.bool()
    if r.bool(0.35):
        X, Y = two(r, 5)
    else:
        n, d = dims(r, 5)
        X, Y = r.data(n, d), None
    o = Oracle(k, X, Y, nrm)
    km = KernelMatrix(k, normalized=nrm)
    o.attach(km)
    hist = []
    for _ in range(r.int(2, 9)):
        hist.append(read(r, km, o, 'after %s' % hist))
    all_reads(km, o, 'at the end of %s' % hist)


# ---------------------------------------------------------------- C03
def index_part(r, n):
    """(index object, expected indices or None if refused)"""
    t = r.choice(['int', 'np', 'slice', 'slice3', 'list', 'list', 'tuple', 'set', 'range', 'arr', 'arr32', 'gen', 'dup', 'full'] +
                 ['neg', 'oob', 'float', 'str', 'strlist', 'none', 'empty', 'negin', 'oobin', 'floatin', 'emptyslice', 'boolin', 'arr2'])
    pick = lambda: r.sample(n, r.int(1, n))
    if t == 'int':
        i = r.int(0, n - 1)
        return i, [i]
    if t == 'np':
        i = r.int(0, n - 1)
        return np.int64(i), [i]
    if t == 'slice':
        a, b = r.choice([None] + list(range(-n - 1, n + 2))), r.choice([None] + list(range(-n - 1, n + 2)))
        s = slice(a, b)
        ix = list(range(*s.indices(n)))
        return s, sorted(ix) or None
    if t == 'slice3':
        a, b = r.choice([None] + list(range(-n - 1, n + 2))), r.choice([None] + list(range(-n - 1, n + 2)))
        s = slice(a, b, r.choice([1, 2, 3, -1, -2]))
        ix = list(range(*s.indices(n)))
        return s, sorted(ix) or None
    if t == 'full':
        return slice(None), list(range(n))
    p = pick()
    e = sorted(set(p))
    if t == 'list':
        return p, e
    if t == 'tuple':
        return tuple(p), e
    if t == 'set':
        return set(p), e
    if t == 'range':
        a = r.int(0, n - 1)
        return range(a, n), list(range(a, n))
    if t == 'arr':
        return np.array(p), e
    if t == 'arr32':
        return np.array(p, dtype='int32'), e
    if t == 'gen':
        return (x for x in p), e
    if t == 'dup':
        return p + p[:1] + p, e
    if t == 'neg':
        return -r.int(1, n + 2), None
    if t == 'oob':
        return n + r.choice([0, 0, 1, 2, n, 7]), None
    if t == 'float':
        return r.choice([0.0, 1.5, float('nan')]), None
    if t == 'str':
        return r.choice(['0', 'a', '']), None
    if t == 'strlist':
        return ['0'], None
    if t == 'none':
        return None, None
    if t == 'empty':
        return r.choice([[], (), np.array([], dtype=int), range(0)]), None
    pos = r.int(0, len(p))
    if t == 'negin':
        return p[:pos] + [-r.int(1, n + 1)] + p[pos:], None
    if t == 'oobin':
        return p[:pos] + [n + r.choice([0, 0, 1, n])] + p[pos:], None
    if t == 'floatin':
        return p[:pos] + [r.choice([0.0, 0.5, float('nan')])] + p[pos:], None
    if t == 'emptyslice':
        return slice(n, n), None
    if t == 'boolin':
        return p[:pos] + [True] + p[pos:], None
    return np.array([p]), None


@scenario('C03', 4)
def index_pairs(r):
    if r.bool(0.4):
        X, Y = two(r, 5)
    else:
        n, d = dims(r, 6)
        X, Y = r.data(n, d), None
    k = kernel(r)
    K = usable(gram(k, X, Y))
    km = KernelMatrix(k, normalized=r.bool(0.3))
    km.attach_to(X, sample_two=Y)
    for _ in range(r.int(1, 4)):
        a, ea = index_part(r, K.shape[0])
        b, eb = index_part(r, K.shape[1])
        idx = [a, b] if r.bool(0.1) else (a, b)
        w = 'KM of shape %s indexed with %s' % (K.shape, brief(idx))
        if ea is None or eb is None:
            raises(KMAccessError, lambda: km[idx], what=w)
        else:
            close(km[idx], K[np.ix_(ea, eb)], what=w)


@scenario('C03', 2)
def index_linear(r):
    if r.bool(0.6):
        X, Y = two(r, 6)
    else:
        n, d = dims(r, 6)
        X, Y = r.data(n, d), None
    k = kernel(r)
    K = usable(gram(k, X, Y))
    n, m = K.shape
    km = KernelMatrix(k, normalized=False)
    km.attach_to(X, sample_two=Y)
    for _ in range(r.int(1, 5)):
        q = r.int(0, n * m - 1)
        close(km[np.int64(q) if r.bool() else q], K[q // m:q // m + 1, q % m:q % m + 1], what='KM of shape %s at %d' % (K.shape, q))
    bad = r.choice([n * m, n * m + 1, -1, -n * m, n * m + m])
    raises(Exception, lambda: km[bad], what='KM of shape %s at %d' % (K.shape, bad))


@scenario('C03')
def index_malformed(r):
    n, d = dims(r, 5)
    X = r.data(n, d)
    km = KernelMatrix(kernel(r), normalized=False)
    km.attach_to(X)
    bad = r.choice([(0,), (0, 0, 0), (), 'ab', '0', None, 1.0, [0], ([0], [0], [0]), slice(None), Ellipsis, ('a', 'b'), (0, 'a'), (0, None), ((), 0), (0.0, 0)])
    if bad == [0] or isinstance(bad, slice):
        pass
    raises(KMAccessError, lambda: km[bad], what='KM[%r]' % (bad,))


# ---------------------------------------------------------------- C04
@scenario('C04')
def reattach(r):
    k = kernel(r, pd=r.bool(0.6))
    nrm = r.bool()
    d = r.int(1, 4)
    km = KernelMatrix(k, normalized=nrm)
    hist = []
    for rnd in range(r.int(2, 3)):
        n = r.size(1, 6)
        n = min(n, 30)
        d2 = d if r.bool(0.7) else r.int(1, 4)
        X = r.data(n, d2)
        Y = r.data(n if r.bool(0.3) else min(30, r.size(1, 6)), d2) if r.bool(0.4) else None
        o = Oracle(k, X, Y, nrm)
        o.attach(km)
        check(km.get_attr('tag', 'none') == 'none' and not km.attributes(), 'attributes survive attach_to: %r' % (km.attributes(),))
        what = 'attach #%d after %s' % (rnd + 1, hist)
        if r.bool(0.5):
            for _ in range(r.int(1, 4)):
                hist.append(read(r, km, o, what))
        if r.bool(0.5):
            all_reads(km, o, what)
            hist.append('all')
        km.set_attr('tag', rnd)
        check(km.get_attr('tag') == rnd, 'set_attr has no effect')
        if r.bool(0.5):
            # refused: nothing changes
            bad1, bad2 = r.data(r.int(1, 5), d2), r.data(r.int(1, 5), d2 + r.int(1, 3))
            if r.bool():
                bad1, bad2 = bad2, bad1
            raises(ValueError, km.attach_to, bad1, sample_two=bad2, what='samples of %d and %d columns' % (bad1.shape[1], bad2.shape[1]))
            check(km.get_attr('tag') == rnd, 'a refused attach_to dropped the attributes')
            if r.bool():
                read(r, km, o, 'after a refused attach')
            all_reads(km, o, 'after a refused attach; ' + what)
            hist.append('refused')
    all_reads(km, o, 'finally; ' + what)


@scenario('C04')
def refused_first(r):
    km = KernelMatrix(kernel(r), normalized=r.bool())
    raises(ValueError, lambda: km.full, what='full before attach')
    raises(ValueError, km.attach_to, r.data(3, 2), sample_two=r.data(r.int(1, 4), 3), what='dims differ')
    raises(ValueError, lambda: km.full, what='full after a refused attach')
    check(km.num_samples is None, 'num_samples after a refused attach: %r' % (km.num_samples,))


# ---------------------------------------------------------------- C05
class Counter:
    """kernel that records the pairs it is asked for; the first column is the identity of a row"""

    def __init__(self, f):
        self.f, self.calls = f, []

    def __call__(self, x, y):
        self.calls.append((float(x[0]), float(y[0])))
        return self.f(x[1:], y[1:])


def f_pd(x, y):
    return float(np.exp(-np.sum((np.asarray(x) - y) ** 2)))


@scenario('C05', 3)
def economy_one(r):
    n, d = dims(r, 6)
    X = np.column_stack([np.arange(n) + 1.0, r.data(n, d)])
    c = Counter(f_pd if r.bool(0.7) else f_sym1)

    def call(x, y):
        return c(x, y)
    k = KernelFromCallable(call)
    nrm = r.bool()
    km = KernelMatrix(k, normalized=nrm)
    km.attach_to(X)
    str(km), len(km), km.shape, km.num_samples, km.size, km.set_attr('a', 1), km.get_attr('a')
    check(not c.calls, 'the kernel was evaluated before any read')
    seen = set()
    hist = []
    for _ in range(r.int(1, 8)):
        op = r.choice(['full', 'sparse', 'elem', 'sub', 'lin', 'diag', 'centered', 'normed', 'frob', 'all', 'rows', 'meta'])
        hist.append(op)
        c.calls = []
        allowed = None
        try:
            if op == 'full':
                km.full
            elif op == 'sparse':
                km.full_sparse
            elif op == 'elem':
                i, j = r.int(0, n - 1), r.int(0, n - 1)
                km[i, j]
                allowed = {(i, j)}
            elif op == 'lin':
                q = r.int(0, n * n - 1)
                km[q]
                allowed = {(q // n, q % n)}
            elif op == 'sub':
                a, b = r.sample(n, r.int(1, n)), r.sample(n, r.int(1, n))
                km[a, b]
                allowed = {(i, j) for i in a for j in b}
            elif op == 'rows':
                i = r.int(0, n - 1)
                km[[i], :]
                allowed = {(i, j) for j in range(n)}
            elif op == 'diag':
                km.diagonal()
                allowed = {(i, i) for i in range(n)}
            elif op == 'centered':
                km.centered
            elif op == 'normed':
                km.normed_km
            elif op == 'frob':
                km.frob_norm
            elif op == 'all':
                km[:, :]
            else:
                len(km), str(km), km.num_samples
                allowed = set()
        except KMNormError:
            pass
        for x, y in c.calls:
            i, j = int(x) - 1, int(y) - 1
            p = (min(i, j), max(i, j))
            if allowed is not None:
                check((i, j) in allowed or (j, i) in allowed, 'reading %s (n=%d) evaluated the kernel on %s' % (op, n, (i, j)))
            check(p not in seen, 'the kernel was evaluated again on %s by %s (n=%d)' % (p, hist, n))
            seen.add(p)
    check(len(seen) <= n * (n + 1) // 2, 'too many evaluations')


@scenario('C05', 2)
def economy_two(r):
    n, d = dims(r, 5)
    m = r.size(1, 5)
    X = np.column_stack([np.arange(n) + 1.0, r.data(n, d)])
    Y = np.column_stack([1000.0 + np.arange(m), r.data(m, d)])
    c = Counter(f_pd)

    def call(x, y):
        return c(x, y)
    nrm = r.bool(0.3)
    km = KernelMatrix(KernelFromCallable(call), normalized=nrm)
    km.attach_to(X, sample_two=Y)
    len(km), str(km), km.shape
    check(not c.calls, 'the kernel was evaluated before any read')
    seen, hist = set(), []
    for _ in range(r.int(1, 7)):
        op = r.choice(['full', 'elem', 'sub', 'lin', 'all', 'rows', 'frob'])
        hist.append(op)
        c.calls = []
        allowed = None
        if op == 'full':
            km.full
        elif op == 'elem':
            i, j = r.int(0, n - 1), r.int(0, m - 1)
            km[i, j]
            allowed = {(i, j)}
        elif op == 'lin':
            q = r.int(0, n * m - 1)
            km[q]
            allowed = {(q // m, q % m)}
        elif op == 'sub':
            a, b = r.sample(n, r.int(1, n)), r.sample(m, r.int(1, m))
            km[a, b]
            allowed = {(i, j) for i in a for j in b}
        elif op == 'rows':
            i = r.int(0, n - 1)
            km[[i], :]
            allowed = {(i, j) for j in range(m)}
        elif op == 'frob':
            km.frob_norm
        else:
            km[:, :]
        for x, y in c.calls:
            if (x >= 1000) == (y >= 1000):
                check(nrm and allowed is None, 'reading %s evaluated a pair within one sample' % op)
                continue          # self similarities, for the normalization
            if x >= 1000:
                x, y = y, x
            i, j = int(x) - 1, int(y) - 1000
            if allowed is not None:
                check((i, j) in allowed, 'reading %s (%d x %d) evaluated the kernel on %s' % (op, n, m, (i, j)))
            check((i, j) not in seen, 'the kernel was evaluated again on %s by %s (%d x %d)' % ((i, j), hist, n, m))
            seen.add((i, j))


# ---------------------------------------------------------------- C06
@scenario('C06', 2)
def normalize_standalone(r):
    n = r.size(1, 7)
    K = r.arr(lambda: (lambda A, s: (A @ A.T + np.eye(n) * 0.1) * s)(r.g.normal(size=(n, n)), 10.0 ** r.g.integers(-4, 4)))
    if r.bool(0.2):
        K = r.arr(lambda: np.abs(r.g.normal(size=(n, n))) + 0.5)
    if r.bool(0.2):
        K = r.arr(lambda: r.g.integers(1, 9, size=(n, n)))
    d = np.asarray(K, float).diagonal()
    meth = r.choice(['cosine', 'COSINE', 'Cosine', None])
    v = ops.normalize_km(K) if meth is None else ops.normalize_km(K, method=meth)
    close(v, cos_norm(np.asarray(K, float), d, d), rtol=1e-9, what='normalize_km')
    close(np.diagonal(v), np.ones(n), rtol=1e-9, what='unit diagonal')


@scenario('C06', 2)
def normalize_two(r):
    n, m = r.size(1, 6), r.size(1, 6)
    K = r.arr(lambda: r.g.normal(size=(n, m)))
    s, t = r.choice([1e-3, 1, 1, 100]), r.choice([1e-3, 1, 1, 1000])
    dx = r.arr(lambda: (r.g.random(n) + 0.2) * s)
    dy = r.arr(lambda: (r.g.random(m) + 0.2) * t)
    v = ops.normalize_km_2sample(K, dx, dy)
    close(v, cos_norm(K, dx, dy), rtol=1e-9, what='normalize_km_2sample')


@scenario('C06', 2)
def normalize_refused(r):
    n, m = r.size(1, 5), r.size(1, 5)
    c = r.choice(['square', 'zero1', 'zero2', 'len1', 'len2', 'meth1', 'meth2'])
    if c == 'square':
        k = n + r.int(1, 3)
        K = r.arr(lambda: r.g.random((n, k)) + 1)
        raises(ValueError, ops.normalize_km, K if r.bool() else K.T, what='non-square')
    elif c == 'zero1':
        K = r.arr(lambda: r.g.random((n, n)) + 1).copy()
        i = r.int(0, n - 1)
        K[i, i] = r.choice([0.0, 1e-9, 1e-12, -1e-10])
        raises(KMNormError, ops.normalize_km, K, what='diagonal %r' % K[i, i])
    elif c == 'zero2':
        dx, dy = r.arr(lambda: r.g.random(n) + 1).copy(), r.arr(lambda: r.g.random(m) + 1).copy()
        (dx if r.bool() else dy)[r.int(0, 0 if r.bool() else min(n, m) - 1)] = r.choice([0.0, 1e-10])
        raises(KMNormError, ops.normalize_km_2sample, np.ones((n, m)), dx, dy, what='zero self-similarity')
    elif c in ('len1', 'len2'):
        e = r.choice([-1, 1, 2])
        a, b = (n + e, m) if c == 'len1' else (n, m + e)
        if a < 1 or b < 1:
            raise Skip()
        raises(ValueError, ops.normalize_km_2sample, np.ones((n, m)), np.ones(a), np.ones(b), what='lengths %d, %d for %d x %d' % (a, b, n, m))
    elif c == 'meth1':
        raises(NotImplementedError, ops.normalize_km, np.eye(n) + 1, method=r.choice(['foo', 'cos', 'l2', '', 'cosines']), what='unknown method')
    else:
        raises(NotImplementedError, ops.normalize_km_2sample, np.ones((n, m)), np.ones(n), np.ones(m), method=r.choice(['foo', 'cos', 'none']), what='unknown method')


@scenario('C06', 3)
def normalize_matrix(r):
    k = kernel(r, pd=r.bool(0.8))
    if r.bool(0.5):
        X, Y = two(r, 5)
    else:
        n, d = dims(r, 5)
        X, Y = r.data(n, d), None
    o = Oracle(k, X, Y, True)
    km = KernelMatrix(k, normalized=True)
    o.attach(km)
    if not o.can_norm:
        raises(KMNormError, lambda: km.full, what='zero self-similarity')
        raises(KMNormError, lambda: km.normed_km, what='zero self-similarity')
        return
    close(km.full, o.N, rtol=1e-7, what='full')
    close(km.normed_km, o.N, rtol=1e-7, what='normed_km')
    km2 = KernelMatrix(k, normalized=False)
    o.attach(km2)
    if r.bool():
        raises(NotImplementedError, km2.normalize, 'unknown', what='unknown method')
    km2.normalize() if r.bool() else km2.normalize(method='cosine')
    close(km2.normed_km, o.N, rtol=1e-7, what='normed_km on request')
    close(km2.full, o.K, what='full stays as it is')
    if Y is None:
        close(np.diagonal(km.full), np.ones(X.shape[0]), rtol=1e-7, what='unit diagonal')


# ---------------------------------------------------------------- C07
@scenario('C07', 3)
def centering(r):
    n = r.size(1, 8)
    t = r.choice(['gen', 'sym', 'int', 'big', 'const', 'psd', 'F'])
    K = r.arr(lambda: {'gen': lambda: r.g.normal(size=(n, n)), 'sym': lambda: (lambda A: A + A.T)(r.g.normal(size=(n, n))),
                       'int': lambda: r.g.integers(-9, 10, size=(n, n)), 'big': lambda: r.g.normal(size=(n, n)) * 1e6 + 1e6,
                       'const': lambda: np.full((n, n), 2.5), 'psd': lambda: (lambda A: A @ A.T)(r.g.normal(size=(n, 2))),
                       'F': lambda: np.asfortranarray(r.g.normal(size=(n, n)))}[t]())
    v = ops.center_km(K)
    s = float(np.abs(K).max())
    close(v, center(np.asarray(K, float)), rtol=1e-10, scale=s * n, what='center_km')
    close(v.sum(axis=0), np.zeros(n), rtol=1e-10, scale=s * n, what='column sums')
    close(v.sum(axis=1), np.zeros(n), rtol=1e-10, scale=s * n, what='row sums')
    close(ops.center_km(v), v, rtol=1e-10, scale=s * n, what='centering again')


@scenario('C07', 2)
def centering_matrix(r):
    k = kernel(r)
    n, d = dims(r, 6)
    X = r.data(n, d)
    K = usable(gram(k, X))
    km = KernelMatrix(k, normalized=r.bool())
    km.attach_to(X)
    if r.bool(0.3):
        try:
            km.full
        except KMNormError:
            pass
    if r.bool(0.3):
        km.center()
    close(km.centered, center(K), rtol=1e-9, scale=np.abs(K).max() * n, what='centered')


@scenario('C07')
def centering_refused(r):
    n, m = r.int(1, 6), r.int(1, 6)
    if n == m:
        m += 1
    raises(ValueError, ops.center_km, r.arr(lambda: r.g.normal(size=(n, m))), what='%d x %d' % (n, m))
    raises(ValueError, ops.center_km, [[1, 2], [2, 1]], what='list')
    X, Y = two(r, 4)
    km = KernelMatrix(kernel(r), normalized=False)
    km.attach_to(X, sample_two=Y)
    raises((KMAccessError, NotImplementedError), lambda: km.centered, what='two samples')
    raises((KMAccessError, NotImplementedError), km.center, what='two samples')


# ---------------------------------------------------------------- C08
@scenario('C08', 2)
def frobenius(r):
    n, m = r.size(1, 7), r.size(1, 7)
    A = r.arr(lambda: r.g.normal(size=(n, m)) * 10.0 ** r.g.integers(-3, 4))
    B = r.arr(lambda: r.g.normal(size=(n, m)))
    if r.bool(0.3):
        A, B = r.arr(lambda: r.g.integers(-9, 10, size=(n, m))), r.arr(lambda: r.g.integers(-9, 10, size=(n, m)))
    s = float(np.sum(np.abs(A * B)))
    close(ops.frobenius_product(A, B), math.fsum((A * B).ravel().tolist()), rtol=1e-11, scale=s, what='frobenius_product')
    close(ops.frobenius_norm(A), math.sqrt(math.fsum((A * A).ravel().tolist())), rtol=1e-11, what='frobenius_norm')
    C = np.ones((n + r.int(0, 1), m + r.int(0, 1)))
    if C.shape != A.shape:
        raises(ValueError, ops.frobenius_product, A, C, what='shapes %s, %s' % (A.shape, C.shape))
        raises(ValueError, ops.alignment_centered, A, C, what='shapes %s, %s' % (A.shape, C.shape))
    if m > 1 and n != m:
        raises(ValueError, ops.frobenius_product, A, A.T.copy(), what='transposed shape')
        raises(ValueError, ops.alignment_centered, A, B, what='alignment of non-square matrices')


def align(A, B, already=False):
    a, b = (A, B) if already else (center(A), center(B))
    return np.sum(a * b) / math.sqrt(np.sum(a * a)) / math.sqrt(np.sum(b * b))


@scenario('C08', 3)
def alignment(r):
    n = r.size(2, 8)
    t = r.choice(['sym', 'gen', 'small'])
    A = r.arr(lambda: r.g.normal(size=(n, n)) * (1e-3 if t == 'small' else 1.0))
    B = r.arr(lambda: r.g.normal(size=(n, n)) * (1e-4 if t == 'small' else 1.0))
    if t == 'sym':
        A, B = A + A.T, B @ B.T
    if np.linalg.norm(center(A)) < 1e-6 or np.linalg.norm(center(B)) < 1e-6:
        raise Skip()
    v = ops.alignment_centered(A, B)
    close(v, align(A, B), rtol=1e-9, scale=1.0, what='alignment')
    close(ops.alignment_centered(B, A), v, rtol=1e-9, scale=1.0, what='alignment swapped')
    close(ops.alignment_centered(A, A), 1.0, rtol=1e-9, what='alignment with itself')
    c = r.choice([1e-2, 0.5, 2, 7.0, 1e3])
    close(ops.alignment_centered(A * c, B), v, rtol=1e-9, scale=1.0, what='alignment scaled by %r' % c)
    close(ops.alignment_centered(A, B, value_if_zero_division=r.choice([0.0, 'raise', None, 5])), v, rtol=1e-9, scale=1.0, what='alignment with a fallback')
    close(ops.alignment_centered(A, B, centered_already=True), align(A, B, True), rtol=1e-9, scale=1.0, what='alignment, centered already')
    close(ops.alignment_centered(center(A), center(B), centered_already=True), v, rtol=1e-8, scale=1.0, what='alignment of centered versions')
    # uncentered matrices with an equal centered version
    close(ops.alignment_centered(A + 3.0, B), v, rtol=1e-8, scale=1.0, what='alignment after adding a constant')


@scenario('C08', 2)
def alignment_zero(r):
    n = r.size(1, 6)
    Z = np.full((n, n), r.choice([0.0, 1.0, -2.0]))
    B = r.arr(lambda: (lambda A: A + A.T)(r.g.normal(size=(n, n))))
    A, B = (Z, B) if r.bool() else (B, Z)
    if r.bool(0.2):
        A = B = Z
    raises(ValueError, ops.alignment_centered, A, B, what='zero norm')
    raises(ValueError, ops.alignment_centered, A, B, value_if_zero_division='raise', what='zero norm')
    raises(ValueError, ops.alignment_centered, A, B, value_if_zero_division=Exception, what='zero norm')
    for x in (0.0, 1.0, -1, r.real(-3, 3)):
        v = ops.alignment_centered(A, B, value_if_zero_division=x)
        check(v == x, 'zero norm: %r instead of %r' % (v, x))
    check(ops.alignment_centered(A, B, value_if_zero_division=None) is None, 'zero norm: None asked for')
    Z0 = np.zeros((n, n))
    C = np.ones((n, n))
    check(ops.alignment_centered(Z0, C, value_if_zero_division=0.25, centered_already=True) == 0.25, 'zero norm, centered already')
    raises(ValueError, ops.alignment_centered, C, Z0, centered_already=True, what='zero norm, centered already')
    close(ops.alignment_centered(C, C, centered_already=True), 1.0, what='declared centered already')


# ---------------------------------------------------------------- C09
def kform(name, p, x, y):
    x, y = [float(v) for v in x], [float(v) for v in y]
    dot = math.fsum(a * b for a, b in zip(x, y))
    try:
        if name == 'linear':
            return dot, math.fsum(abs(a * b) for a, b in zip(x, y))
        if name == 'poly':
            b = p['b'] + p['gamma'] * dot
            mag = abs(p['b']) + abs(p['gamma']) * math.fsum(abs(u * v) for u, v in zip(x, y))
            v = b ** p['degree']
            if isinstance(v, complex):
                raise Skip()
            return v, mag ** max(p['degree'], 0) if p['degree'] >= 0 else abs(v)
        if name == 'gaussian':
            e = math.fsum((a - b) ** 2 for a, b in zip(x, y)) / (2 * p['sigma'] ** 2)
            return math.exp(-e), math.exp(-e) * (1 + e)
        if name == 'laplacian':
            e = p['gamma'] * math.fsum(abs(a - b) for a, b in zip(x, y))
            return math.exp(-e), math.exp(-e) * (1 + abs(e))
        if name == 'sigmoid':
            return math.tanh(p['offset'] + p['gamma'] * dot), 1.0 + abs(p['gamma']) * math.fsum(abs(a * b) for a, b in zip(x, y))
        if name == 'chi2':
            e = p['gamma'] * math.fsum((a - b) ** 2 / (a + b) for a, b in zip(x, y) if a + b > 0)
            return math.exp(-e), math.exp(-e) * (1 + abs(e))
        if name == 'hadamard':
            a_ = p['alpha']
            X, Y = [abs(v) ** a_ for v in x], [abs(v) ** a_ for v in y]
            v = math.fsum(u * w / (2 * (u + w)) for u, w in zip(X, Y) if u + w > 0)
            return v, v
    except OverflowError:
        raise Skip()


def numeric_kernel(r, skip):
    name = r.choice(['linear', 'poly', 'gaussian', 'laplacian', 'sigmoid', 'chi2', 'hadamard'])
    dflt = r.bool(0.1)
    if name == 'linear':
        return name, {}, nk.LinearKernel(skip_input_checks=skip)
    if name == 'poly':
        p = dict(degree=r.choice([0, 1, 2, 3, 4, 5, 0.5, 1.5]), gamma=r.real(-2, 3), b=r.real(-2, 3))
        if dflt:
            return name, dict(degree=3, gamma=1.0, b=1.0), nk.PolyKernel(skip_input_checks=skip)
        return name, p, nk.PolyKernel(skip_input_checks=skip, **p)
    if name == 'gaussian':
        p = dict(sigma=r.choice([0.01, 0.5, 1, 2, 10, 100, 1000.0]) if r.bool() else r.real(0.05, 20))
        if dflt:
            return name, dict(sigma=2.0), nk.GaussianKernel(skip_input_checks=skip)
        return name, p, nk.GaussianKernel(skip_input_checks=skip, **p)
    if name == 'laplacian':
        p = dict(gamma=r.choice([1, 0, 0.001, 2]) if r.bool(0.3) else r.real(-1, 4))
        if dflt:
            return name, dict(gamma=1.0), nk.LaplacianKernel(skip_input_checks=skip)
        return name, p, nk.LaplacianKernel(skip_input_checks=skip, **p)
    if name == 'sigmoid':
        p = dict(gamma=r.real(-2, 3), offset=r.real(-3, 3))
        if dflt:
            return name, dict(gamma=1.0, offset=1.0), nk.SigmoidKernel(skip_input_checks=skip)
        return name, p, nk.SigmoidKernel(skip_input_checks=skip, **p)
    if name == 'chi2':
        p = dict(gamma=r.choice([1, 0.001, 2]) if r.bool(0.3) else r.real(-1, 4))
        if dflt:
            return name, dict(gamma=1.0), nk.Chi2Kernel(skip_input_checks=skip)
        return name, p, nk.Chi2Kernel(skip_input_checks=skip, **p)
    p = dict(alpha=r.choice([1, 2, 3, 4, 0.5, 1.5, 0.1]) if r.bool(0.7) else r.real(0.1, 5))
    if dflt:
        return name, dict(alpha=3), nk.HadamardKernel(skip_input_checks=skip)
    return name, p, nk.HadamardKernel(skip_input_checks=skip, **p)


@scenario('C09', 4)
def formula(r):
    skip = r.bool(0.4)
    name, p, k = numeric_kernel(r, skip)
    n = r.size(1, 8)
    x = r.vec(n, nonneg=name == 'chi2')
    y = x.copy() if r.bool(0.1) else r.vec(n, nonneg=name == 'chi2')
    if r.bool(0.2):
        i = r.int(0, n - 1)
        y = y.copy()
        y[i] = x[i]
    if r.bool(0.15):
        x, y = x.copy(), y.copy()
        i = r.int(0, n - 1)
        x[i] = y[i] = 0
    if name == 'poly' and p['degree'] != int(p['degree']) and p['b'] + p['gamma'] * np.dot(x, y) <= 0:
        raise Skip()
    want, s = kform(name, p, x, y)
    if not math.isfinite(want) or not math.isfinite(s) or s > 1e200:
        raise Skip()
    w = '%s%r on x=%s y=%s' % (name, p, brief(x), brief(y))
    a, b = x, y
    if not skip:
        form = r.choice(['arr', 'arr', 'list', 'tuple', 'col'])
        if form == 'list':
            a, b = x.tolist(), y.tolist()
        elif form == 'tuple':
            a = tuple(x.tolist())
        elif form == 'col':
            a = x.reshape(-1, 1)
    elif r.bool(0.2):
        buf = np.zeros(2 * n)
        buf[::2] = x
        a = buf[::2]
    close(k(a, b), want, rtol=1e-9, scale=s, what=w)
    close(k(b, a), want, rtol=1e-9, scale=s, what=w + ' swapped')


@scenario('C09', 2)
def dtypes(r):
    name, p, k = numeric_kernel(r, False)
    n = r.size(1, 6)
    dt = r.choice(['int8', 'uint8', 'int16', 'uint16', 'int32', 'int64', 'uint32', 'uint64', 'float32', 'float64', 'list'])
    lo = 0 if name == 'chi2' or dt.startswith('u') else -60
    x = r.arr(lambda: r.g.integers(lo, 100, size=n))
    y = r.arr(lambda: r.g.integers(lo, 100, size=n))
    if name == 'poly' and p['degree'] != int(p['degree']) and p['b'] + p['gamma'] * np.dot(x, y) <= 0:
        raise Skip()
    want, s = kform(name, p, x, y)
    if not math.isfinite(want) or s > 1e30:
        raise Skip()
    a, b = (x.tolist(), y.tolist()) if dt == 'list' else (x.astype(dt), y.astype(dt))
    if r.bool(0.2):
        b = y.astype(float)
    tol = 3e-5 if dt == 'float32' else 1e-9
    w = '%s%r on %s x=%s y=%s' % (name, p, dt, brief(x), brief(y))
    sf = s * (1 + abs(p.get('gamma', 1)) * float(np.abs(x).max() + np.abs(y).max()) ** 2) if dt == 'float32' else s
    close(k(a, b), want, rtol=tol, scale=sf, what=w)
    close(k(b, a), want, rtol=tol, scale=sf, what=w + ' swapped')


# ---------------------------------------------------------------- C10
def any_kernel(r, skip=False):
    return r.choice([nk.LinearKernel, nk.PolyKernel, nk.GaussianKernel, nk.LaplacianKernel, nk.SigmoidKernel, nk.Chi2Kernel, nk.HadamardKernel])(skip_input_checks=skip)


@scenario('C10', 3)
def bad_inputs(r):
    k = any_kernel(r)
    n = r.size(1, 6)
    good = np.abs(r.vec(n, 'normal')) + 0.1
    c = r.choice(['str', 'strs', 'none', 'dict', '2d', '2d', '3d', 'len', 'len', 'scalar', 'objs', 'row', 'mixed', 'empty', 'bcast', 'col2'])
    if c == 'str':
        bad = r.choice(['abc', '1', ''])
    elif c == 'strs':
        bad = ['a'] * n
    elif c == 'none':
        bad = None
    elif c == 'dict':
        bad = {1: 2}
    elif c == '2d':
        bad = np.ones((n, r.int(2, 4)))
    elif c == '3d':
        bad = np.ones((n, 2, r.int(1, 2)))
    elif c == 'len':
        bad = np.ones(n + r.int(1, 5)) if r.bool() else np.ones(n - r.int(0, n - 1) if n > 1 else 2)
        if bad.size == n:
            raise Skip()
    elif c == 'bcast':
        if n == 1:
            raise Skip()
        bad = np.ones(1)
    elif c == 'scalar':
        bad = 3.0
    elif c == 'objs':
        bad = np.array([object()] * n)
    elif c == 'row':
        if n == 1:
            raise Skip()
        bad = np.ones((1, n))
    elif c == 'mixed':
        bad = [1.0, 'x', 2.0][:max(n, 2)]
        if len(bad) == n == 1:
            raise Skip()
    elif c == 'empty':
        bad = []
    else:
        bad = np.ones((n, 1, 2))
    a, b = (good, bad) if r.bool() else (bad, good)
    raises(ValueError, k, a, b, what='%s kernel on %s and %s' % (k.name, brief(a), brief(b)))
    if c in ('str', 'strs', 'none', 'dict', '2d', '3d', 'scalar', 'objs'):
        raises(ValueError, k, bad, bad, what='%s kernel on %s twice' % (k.name, brief(bad)))


@scenario('C10', 2)
def chi2_negative(r):
    skip = r.bool()
    k = nk.Chi2Kernel(gamma=r.real(0.1, 2), skip_input_checks=skip)
    n = r.size(1, 7)
    x, y = r.vec(n, nonneg=True).copy(), r.vec(n, nonneg=True).copy()
    i = r.int(0, n - 1)
    v = r.choice([-1.0, -1e-12, -5.0, -0.5, -1e-300])
    t = r.choice(['x', 'y', 'both'])
    if t in ('x', 'both'):
        x[i] = v
    if t in ('y', 'both'):
        y[i] = v
    if r.bool(0.3):
        y[i] = abs(v) * 2 if t == 'x' else y[i]
    a, b = (x, y) if skip or r.bool() else (x.tolist(), y.tolist())
    raises(Exception, k, a, b, what='chi2 kernel on x=%s y=%s' % (brief(x), brief(y)))


@scenario('C10')
def constructors(r):
    raises(Exception, nk.HadamardKernel, alpha=r.choice([0, 0.0, -0.0, 0j if False else 0]), what='alpha=0')
    raises(Exception, nk.HadamardKernel, 0, what='alpha=0')
    for a in (1, 2, 0.5):
        nk.HadamardKernel(alpha=a)
    bad = r.choice([None, 'linear', f_sym1, nk.LinearKernel, 3, np.eye(2), object(), np.dot])
    raises(TypeError, KernelMatrix, bad, what='KernelMatrix(%r)' % (bad,))
    raises(TypeError, KernelMatrix, bad, normalized=False, what='KernelMatrix(%r)' % (bad,))
    badf = r.choice([None, 0, 1, 'True', 'yes', 1.0, [], [True], 2])
    raises(TypeError, KernelMatrix, nk.LinearKernel(), normalized=badf, what='normalized=%r' % (badf,))
    KernelMatrix(nk.LinearKernel(), normalized=r.bool())
    KernelMatrix(KernelFromCallable(f_sym1))


# ---------------------------------------------------------------- C20
@scenario('C20', 3)
def match_count(r):
    n = r.size(1, 8)
    al = r.choice([['a', 'b'], ['a', 'b', 'c', 'ab', 'abc', ''], ['x', 'X', 'xx', 'é', ' '], ['short', 'a much longer category', 'shor']])
    x = [r.choice(al) for _ in range(n)]
    y = list(x) if r.bool(0.15) else [r.choice(al) for _ in range(n)]
    perc, skip = r.bool(), r.bool(0.3)
    k = MatchCountKernel(return_perc=perc, skip_input_checks=skip)
    m = sum(a == b for a, b in zip(x, y))
    want = m / n if perc else m
    if n == 1:
        a, b = np.array(x), np.array(y)
    else:
        a = r.choice([lambda: list(x), lambda: np.array(x), lambda: np.array(x, dtype='<U40'), lambda: tuple(x)])()
        b = np.array(y) if r.bool() else list(y)
    w = 'match count (perc=%s) of %r and %r' % (perc, x, y)
    v = k(a, b)
    close(v, want, rtol=1e-12, what=w)
    close(k(b, a), want, rtol=1e-12, what=w + ' swapped')
    check(0 <= v <= (1 if perc else n), w + ': out of range')
    close(k(a, a), 1 if perc else n, rtol=1e-12, what='match with itself')


@scenario('C20', 2)
def match_refused(r):
    perc = r.bool()
    k = MatchCountKernel(return_perc=perc, skip_input_checks=r.bool(0.3))
    n = r.int(2, 6)
    x = np.array([r.choice(['a', 'b', 'c']) for _ in range(n)])
    c = r.choice(['len', '2d', 'num', 'int', 'obj', 'bool', 'row', 'bytes', 'one'])
    if c == 'len':
        raises(ValueError, k, x, np.array(['a'] * (n + r.int(1, 3))), what='lengths')
        raises(ValueError, k, np.array(['a'] * (n - 1)), x, what='lengths')
    elif c == 'one':
        raises(ValueError, k, np.array(['a']), x, what='length one against %d' % n)
    elif c == '2d':
        raises(ValueError, k, np.array([['a', 'b'], ['b', 'a']]), np.array([['a', 'b'], ['b', 'a']]), what='2-D')
    elif c == 'row':
        raises(ValueError, k, x.reshape(n, 1), x, what='column array')
    elif c == 'num':
        z = r.arr(lambda: r.g.normal(size=n))
        raises(TypeError, k, z, z, what='floats')
        raises(TypeError, k, x, z, what='floats')
        raises(TypeError, k, z, x, what='floats')
    elif c == 'int':
        z = r.arr(lambda: r.g.integers(0, 3, size=n))
        raises(TypeError, k, z, z, what='ints')
        raises(TypeError, k, list(map(int, z)), x, what='ints')
        raises(TypeError, k, x, z, what='ints')
    elif c == 'obj':
        z = np.array(['a', 1] + ['b'] * (n - 2), dtype=object)
        raises(TypeError, k, z, z, what='objects')
    elif c == 'bytes':
        z = np.array([b'a'] * n)
        raises(TypeError, k, z, z, what='bytes')
    else:
        z = np.array([True] * n)
        raises(TypeError, k, z, z, what='booleans')
        raises(TypeError, k, x, z, what='booleans')


# ---------------------------------------------------------------- C22
@scenario('C22', 2)
def precomputed(r):
    n = r.size(1, 6)
    t = r.choice(['sym', 'int', 'psd', 'list'])
    A = r.arr(lambda: (lambda A: A + A.T)(r.g.normal(size=(n, n)) if t != 'int' else r.g.integers(-9, 10, size=(n, n))))
    M = A.tolist() if t == 'list' else A
    p = KernelMatrixPrecomputed(M)
    check(np.array_equal(p.full, A), 'full differs from the given matrix: %s' % brief(p.full))
    check(np.array_equal(p.diag, A.diagonal()), 'diag')
    check(p.num_samples == n and p.size == n and len(p) == n, 'number of samples')
    i, j = r.int(0, n - 1), r.int(0, n - 1)
    check(p[i, j] == A[i, j], 'entry [%d, %d] is %r, expected %r' % (i, j, p[i, j], A[i, j]))
    a = sorted(r.sample(n, r.int(1, n)))
    check(np.array_equal(p[np.ix_(a, a)], A[np.ix_(a, a)]), 'sub-matrix')
    check(np.array_equal(p[:, j], A[:, j]), 'column')
    check(np.array_equal(p[a, :], A[a, :]), 'rows')
    raises(KMAccessError, lambda: p[r.choice([(n, 0), (0, n), ('a', 'b'), (0, 0, 0), 'x', ([0, n], 0), (-n - 1, 0), 1.5])], what='invalid access')
    str(p)


@scenario('C22', 2)
def precomputed_refused(r):
    n = r.int(1, 5)
    c = r.choice(['rect', 'row', 'col', 'asym', 'one', 'corner', '1d', '3d', 'complex', 'rowbc'])
    if c == 'rect':
        M = np.ones((n, n + r.int(1, 3)))
        M = M if r.bool() else M.T
    elif c in ('row', 'rowbc'):
        M = np.full((1, n + 1), 1.0 if c == 'rowbc' else 2.0)
    elif c == 'col':
        M = np.ones((n + 1, 1))
    elif c == 'asym':
        M = r.arr(lambda: r.g.normal(size=(n + 1, n + 1)))
        if np.allclose(M, M.T):
            raise Skip()
    elif c in ('one', 'corner'):
        M = np.ones((n + 1, n + 1))
        i = 0 if c == 'corner' else r.int(0, n - 1)
        j = n if c == 'corner' else r.int(i + 1, n)
        M[i, j] += r.choice([1.0, 0.01, -3.0, 1e-3])
        M = M if r.bool() else M.T.copy()
    elif c == '1d':
        M = np.ones(n)
    elif c == '3d':
        M = np.ones((n, n, n))
    else:
        M = np.eye(n) * (1 + 1j) + 1j
    raises(ValueError, KernelMatrixPrecomputed, M, what='matrix %s' % brief(M))


@scenario('C22', 2)
def constant(r):
    n = r.size(1, 6)
    v = r.choice([0.0, 1.0, -2.5, 7])
    dt = r.choice(['float', 'int', 'float32']) if float(v).is_integer() else 'float'
    c = ConstantKernelMatrix(n, value=v, dtype=dt) if r.bool(0.8) else ConstantKernelMatrix(n, v)
    check(np.array_equal(c.full, np.full((n, n), v)), 'full')
    check(np.array_equal(c.diag, np.full(n, v)), 'diag')
    check(c.shape == (n, n) and c.size == n and len(c) == n and c.num_samples == n, 'size')
    for _ in range(3):
        a, ea = index_part(r, n)
        b, eb = index_part(r, n)
        for x, e in ((a, ea), (b, eb)):
            if e is None and (isinstance(x, (float, str)) or x is None):
                pass
        # floats inside iterables are rounded by int(): not covered
        if any(isinstance(x, (list, np.ndarray)) and (np.asarray(x, dtype=object).ndim > 1 or any(not isinstance(y, (int, np.integer)) or isinstance(y, bool) for y in list(x))) for x in (a, b)):
            continue
        if ea is None or eb is None:
            raises(KMAccessError, lambda: c[a, b], what='constant matrix of size %d at %r' % (n, (a, b)))
        else:
            g = c[a, b]
            check(np.array_equal(g, np.full((len(ea), len(eb)), v)) and g.shape == (len(ea), len(eb)), 'constant matrix of size %d at %r: %s' % (n, (a, b), brief(g)))
    bad = r.choice([(0,), (0, 0, 0), 'ab', None, 5, 0, 'a', ('a', 'b'), ([], [0]), ([0], []), (n, 0), (0, n), (-1, 0)])
    raises(KMAccessError, lambda: c[bad], what='constant matrix at %r' % (bad,))
    check(np.array_equal(c.full, np.full((n, n), v)), 'full, again')
    str(c)


# ---------------------------------------------------------------- C23
class Boom(Exception):
    pass


class Flaky:
    """fails on chosen (unordered) pairs of row identities, while armed"""

    def __init__(self, bad, f, exc, nan=None):
        self.bad, self.f, self.armed, self.exc, self.nan = bad, f, True, exc, nan

    def __call__(self, x, y):
        p = (int(x[0]), int(y[0]))
        if self.armed and (p in self.bad or (p[1], p[0]) in self.bad):
            if self.nan is not None:
                return self.nan
            raise self.exc('no value for %s' % (p,))
        return self.f(x[1:], y[1:])


@scenario('C23', 3)
def failing_kernel(r):
    n, d = dims(r, 5)
    two_s = r.bool(0.4)
    m = r.int(1, 5) if two_s else n
    X = np.column_stack([np.arange(n), r.data(n, d)])
    Y = np.column_stack([np.arange(m) + 1000, r.data(m, d)]) if two_s else None
    i = r.int(0, n - 1)
    j = r.int(0, m - 1)
    bad = {(i, j + 1000)} if two_s else {(i, j)}
    fl = Flaky(bad, f_pd, r.choice([Boom, ValueError, ZeroDivisionError, KeyError, TypeError]))

    def call(x, y):
        return fl(x, y)
    k = KernelFromCallable(call)
    nrm = r.bool()
    km = KernelMatrix(k, normalized=nrm)
    km.attach_to(X, sample_two=Y)
    reads = [('full', lambda: km.full), ('all', lambda: km[:, :]), ('frob', lambda: km.frob_norm), ('normed', lambda: km.normed_km)]
    if not two_s:
        reads += [('centered', lambda: km.centered), ('sparse', lambda: km.full_sparse)]
    elif not nrm and j >= i:
        reads += [('sparse', lambda: km.full_sparse)]
    hist = []
    for _ in range(r.int(1, 4)):
        nm, f = r.choice(reads)
        hist.append(nm)
        raises(RuntimeError, f, what='kernel failing on %s (%d x %d, two samples %s), reads %s' % ((i, j), n, m, two_s, hist))
        if r.bool(0.4):
            a, b = r.int(0, n - 1), r.int(0, m - 1)
            if {(a, b)} != {(i, j)} and (two_s or (b, a) != (i, j)):
                v = f_pd(X[a, 1:], (X if Y is None else Y)[b, 1:])
                close(km[a, b], [[v]], what='another element')
    fl.armed = False
    K = gram(k, X, Y)
    if nrm:
        dx = np.ones(n)
        close(km.full, K, rtol=1e-7, what='once the kernel works again (normalized)')
    else:
        close(km.full, K, what='once the kernel works again')
        close(km.full_sparse.toarray(), np.triu(K), what='once the kernel works again (sparse)')
    close(km.frob_norm, np.sqrt(np.sum(K * K)), what='norm, once the kernel works again')


@scenario('C23', 2)
def warns_nonfinite(r):
    n, d = dims(r, 5)
    two_s = r.bool(0.4)
    m = r.int(1, 5) if two_s else n
    X = np.column_stack([np.arange(n), r.data(n, d)])
    Y = np.column_stack([np.arange(m) + 1000, r.data(m, d)]) if two_s else None
    i, j = r.int(0, n - 1), r.int(0, m - 1)
    fl = Flaky({(i, j + 1000)} if two_s else {(i, j)}, f_pd, None, nan=r.choice([float('nan'), float('inf'), -float('inf')]))

    def call(x, y):
        return fl(x, y)
    km = KernelMatrix(KernelFromCallable(call), normalized=False)
    km.attach_to(X, sample_two=Y)
    which = r.choice(['full', 'all', 'frob'] + ([] if two_s else ['centered', 'sparse']))
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        f = {'full': lambda: km.full, 'all': lambda: km[:, :], 'frob': lambda: km.frob_norm, 'centered': lambda: km.centered, 'sparse': lambda: km.full_sparse}[which]
        for _ in range(r.int(0, 2)):
            a, b = r.int(0, n - 1), r.int(0, m - 1)
            km[a, b]
        f()
    check(any(issubclass(x.category, KernelMethodsWarning) for x in w), 'no KernelMethodsWarning for %r at %s of %d x %d (read %s)' % (fl.nan, (i, j), n, m, which))
    fl.nan = 0.5
    km.attach_to(X, sample_two=Y)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        km.full
    check(not any(issubclass(x.category, KernelMethodsWarning) for x in w), 'KernelMethodsWarning for finite values')


@scenario('C23')
def warns_normed(r):
    n = r.int(2, 5)
    X = np.column_stack([np.arange(n), r.data(n, 2)])
    i = r.int(0, n - 1)
    fl = Flaky({(i, i)}, f_pd, None, nan=r.choice([-1.0, float('nan'), -2.5]))

    def call(x, y):
        return fl(x, y)
    km = KernelMatrix(KernelFromCallable(call), normalized=True)
    km.attach_to(X)
    if r.bool(0.5):
        km[:, :]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        v = km.full if r.bool() else km.normed_km
    check(not np.isfinite(v).all(), 'normalized version of a matrix with diagonal %r is finite' % fl.nan)
    check(any(issubclass(x.category, KernelMethodsWarning) for x in w), 'no KernelMethodsWarning for a normalized matrix with non-finite values')
