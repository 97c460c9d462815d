"""C09: numeric kernels"""
from .lib import *

EPS = zr(2.220446049250313e-16)


def absr(x):
    return z3.If(x >= 0, x, -x)


def dotp(x, y, n):
    return T.mk_sum(n, lambda k: x(k) * y(k))


def sq(x):
    return x * x


def p_none(u):
    return {}, {}


def p_poly(u):
    d = u.int('degree', lambda r: r >= 1)
    return dict(degree=d, gamma=u.real('gamma'), b=u.real('b')), {}


def p_poly_n(n):
    def p(u):
        return dict(degree=n, gamma=u.real('gamma'), b=u.real('b')), {}
    p.__name__ = 'degree%d' % n
    return p


def p_gauss(u):
    # sigma within the range in which the library does not clip it to the machine epsilon
    return dict(sigma=u.real('sigma', lambda r: AND(r > EPS, 1 / (2 * r * r) > EPS))), {}


def p_gamma(u):
    return dict(gamma=u.real('gamma')), {}


def p_sig(u):
    return dict(gamma=u.real('gamma'), offset=u.real('offset')), {}


def p_had(u):
    return dict(alpha=u.real('alpha', lambda r: r > zr(1e-6))), {}


def pw(x, a):
    return T.pow_f(x, a)


SPEC = {
    'LinearKernel': lambda p, x, y, n: dotp(x, y, n),
    'PolyKernel': lambda p, x, y, n: pwn(zr(p['b']) + zr(p['gamma']) * dotp(x, y, n), p['degree']),
    'GaussianKernel': lambda p, x, y, n: T.exp_f(-(T.mk_sum(n, lambda k: sq(x(k) - y(k)))) / (2 * sq(zr(p['sigma'])))),
    'LaplacianKernel': lambda p, x, y, n: T.exp_f(-zr(p['gamma']) * T.mk_sum(n, lambda k: absr(x(k) - y(k)))),
    'SigmoidKernel': lambda p, x, y, n: T.tanh_f(zr(p['offset']) + zr(p['gamma']) * dotp(x, y, n)),
    'Chi2Kernel': lambda p, x, y, n: T.exp_f(-zr(p['gamma']) * T.mk_sum(n, lambda k: z3.If(x(k) + y(k) > 0, sq(x(k) - y(k)) / (x(k) + y(k)), 0))),
    'HadamardKernel': lambda p, x, y, n: T.mk_sum(n, lambda k: had(p, x(k), y(k))),
}


def pwn(x, d):
    if isinstance(d, int):
        r = x
        for _ in range(d - 1):
            r = r * x
        return r
    return T.pow_f(x, zr(d))


def had(p, x, y):
    a = zr(p['alpha'])
    X, Y = T.pow_f(absr(x), a), T.pow_f(absr(y), a)
    return z3.If(2 * (X + Y) > 0, X * Y / (2 * (X + Y)), 0)


PAR = {'LinearKernel': [p_none], 'PolyKernel': [p_poly, p_poly_n(1), p_poly_n(2), p_poly_n(3)], 'GaussianKernel': [p_gauss], 'LaplacianKernel': [p_gamma], 'SigmoidKernel': [p_sig],
       'Chi2Kernel': [p_gamma], 'HadamardKernel': [p_had]}
VAR = []
for c in PAR:
    for par in PAR[c]:
        for dt, dt2, skip in (('f8', 'f8', True), ('f8', 'f8', False), ('i8', 'i8', False), ('u1', 'u1', False), ('i4', 'f8', False), ('f4', 'f4', False), ('i2', 'u2', False)):
            if par.__name__.startswith('degree') and dt != 'f8':
                continue
            VAR.append(dict(cls=c, par=par, dt=dt, dt2=dt2, skip=skip))


@each('C09', VAR, 'numeric_kernels.{cls}.__init__', 'numeric_kernels.{cls}.__call__', 'utils.check_input_arrays', 'utils.ensure_ndarray_1D', 'utils.ensure_ndarray_size', 'base.BaseKernelFunction.__init__', 'utils._ensure_min_eps')
def formula(u, cls, par, dt, dt2, skip):
    """requires len(x) == len(y), features finite (and >= 0 for chi-squared); ensures the value is the published formula, and that of k(y, x)"""
    n = u.size('n', 1)
    p, _ = par(u)
    x, X = u.arr('x', n, dtype=dt)
    y, Y = u.arr('y', n, dtype=dt2)
    if cls == 'Chi2Kernel':
        u.ctx.assume_all(1, lambda k: AND(X(k) >= 0, Y(k) >= 0))
    k = u.returns('construct', u.call('numeric_kernels.' + cls, skip_input_checks=skip, **p))
    v = u.returns('value', u.call(k, x, y))
    u.eq('formula', v, SPEC[cls](p, X, Y, n))
    w = u.returns('value', u.call(k, y, x))
    u.eq('symmetry', w, SPEC[cls](p, X, Y, n))
