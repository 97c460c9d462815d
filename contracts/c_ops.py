"""C06, C07, C08, C13, C19, C21: matrix operations"""
from .lib import *




def absr(x):
    return z3.If(x >= 0, x, -x)


EPS0 = z3.RealVal('1/1000000')


def cases0(u, zero, pos, *more):
    """case split of a 'zero to the tolerance of the library' contract: exactly zero, clearly positive, in between (unspecified)"""
    if u.ctx.decide(zero):
        return 'zero'
    if u.ctx.decide(pos):
        return 'pos'
    return 'between'


def rowmean(K, n, i):
    return T.mk_sum(n, lambda b: K(i, b)) / zr(n)


def colmean(K, n, j):
    return T.mk_sum(n, lambda a: K(a, j)) / zr(n)


def grand(K, n):
    return T.mk_sum(n, lambda a: T.mk_sum(n, lambda b: K(a, b))) / (zr(n) * zr(n))


def centered(K, n):
    return lambda i, j: K(i, j) - rowmean(K, n, i) - colmean(K, n, j) + grand(K, n)


def frob(A, B, n, m):
    return T.mk_sum(n, lambda i: T.mk_sum(m, lambda j: A(i, j) * B(i, j)))


# ------------------------------------------------------------------ C07
@unit('C07 C08 C15 C19', 'operations.center_km')
def center(u):
    n = u.size('n', 1)
    K, k = u.arr('K', n, n)
    c = u.returns('center', u.call('operations.center_km', K))
    u.array_is('centered', c, (n, n), centered(k, n))
    u.array_is('argument unchanged', K, (n, n), k)


@unit('C07', 'operations.center_km')
def center_sums(u):
    """row and column sums of a centered matrix vanish, and centering is idempotent (lemma over the specification)"""
    n = u.size('n', 1)
    K, k = u.arr('K', n, n)
    C = centered(k, n)
    i = u.idx(n)
    u.ensure('row sums vanish', T.mk_sum(n, lambda b: C(i, b)) == 0)
    u.ensure('column sums vanish', T.mk_sum(n, lambda a: C(a, i)) == 0)


@unit('C07', 'operations.center_km')
def center_refuses(u):
    n, m = u.size('n', 1), u.size('m', 1, small=None if u.sizes is None else u.sizes + 1)
    u.ctx.assume(zi(n) != zi(m))
    K, k = u.arr('K', n, m)
    u.raises('non-square', u.call('operations.center_km', K), ValueError)


@each('C07', [dict(what='list'), dict(what='scalar'), dict(what='None')], 'operations.center_km')
def center_refuses_type(u, what):
    v = {'list': lambda: u.I.new_list((u.I.new_list((1.0, 2.0)), u.I.new_list((2.0, 1.0)))), 'scalar': lambda: 3.0, 'None': lambda: None}[what]()
    u.raises('not an array', u.call('operations.center_km', v), ValueError)


# ------------------------------------------------------------------ C06
@each('C06', [dict(m='default'), dict(m='cosine'), dict(m='Cosine')], 'operations.normalize_km', 'utils.contains_nan_inf')
def normalize(u, m):
    n = u.size('n', 1)
    K, k = u.arr('K', n, n)
    zero = u.ctx.decide(u_any(u, n, lambda i: k(i, i) == 0), 'zero diagonal')
    if not zero:
        # self-similarities are not negative, nor within the tolerance of zero
        u.ctx.assume_all(1, lambda i: IMP(AND(i >= 0, i < zi(n)), k(i, i) > EPS0))
    res = u.call('operations.normalize_km', K) if m == 'default' else u.call('operations.normalize_km', K, method=m)
    if zero:
        u.raises('zero self-similarity', res, 'config.KMNormError')
        return
    v = u.returns('normalize', res)
    u.array_is('normalized', v, (n, n), lambda i, j: k(i, j) / (T.sqrt_f(k(i, i)) * T.sqrt_f(k(j, j))))
    i = u.idx(n, 'd')
    e = u.array('normalized', v, (n, n))
    u.eq('unit diagonal', e(i, i), z3.RealVal(1))
    u.array_is('argument unchanged', K, (n, n), k)


def u_any(u, n, p):
    """there is an index below n with p: true/false with witness / universal fact"""
    return NP.exists(u.I, (n,), lambda ix: p(zi(ix[0])), 'spec')


@unit('C06', 'operations.normalize_km')
def normalize_refuses(u):
    n, m = u.size('n', 1), u.size('m', 1, small=None if u.sizes is None else u.sizes + 1)
    u.ctx.assume(zi(n) != zi(m))
    K, k = u.arr('K', n, m)
    u.raises('non-square', u.call('operations.normalize_km', K), ValueError)


@each('C06', [dict(m='foo'), dict(m='frobenius'), dict(m='')], 'operations.normalize_km', 'operations.normalize_km_2sample')
def normalize_unknown(u, m):
    n = u.size('n', 1)
    K, k = u.arr('K', n, n)
    u.raises('unknown method', u.call('operations.normalize_km', K, method=m), NotImplementedError)
    a, A = u.arr('a', n)
    b, B = u.arr('b', n)
    u.raises('unknown method, two samples', u.call('operations.normalize_km_2sample', K, a, b, method=m), NotImplementedError)


@unit('C06', 'operations.normalize_km_2sample')
def normalize2(u):
    n, m = u.size('n', 1), u.size('m', 1)
    K, k = u.arr('K', n, m)
    a, A = u.arr('a', n)
    b, B = u.arr('b', m)
    za = u.ctx.decide(u_any(u, n, lambda i: A(i) == 0))
    zb_ = u.ctx.decide(u_any(u, m, lambda i: B(i) == 0))
    if not za and not zb_:
        u.ctx.assume_all(1, lambda i: AND(IMP(AND(i >= 0, i < zi(n)), A(i) > EPS0), IMP(AND(i >= 0, i < zi(m)), B(i) > EPS0)))
    res = u.call('operations.normalize_km_2sample', K, a, b)
    if za or zb_:
        return u.raises('zero self-similarity', res, 'config.KMNormError')
    v = u.returns('normalize', res)
    u.array_is('normalized', v, (n, m), lambda i, j: k(i, j) / (T.sqrt_f(A(i)) * T.sqrt_f(B(j))))
    u.array_is('arguments unchanged', K, (n, m), k)
    u.array_is('arguments unchanged', a, (n,), A)
    u.array_is('arguments unchanged', b, (m,), B)


@unit('C06', 'operations.normalize_km_2sample')
def normalize2_refuses(u):
    n, m = u.size('n', 1), u.size('m', 1)
    p, q = u.size('p', 1), u.size('q', 1, small=None if u.sizes is None else u.sizes + 1)
    u.ctx.assume(OR(zi(p) != zi(n), zi(q) != zi(m)))
    K, k = u.arr('K', n, m)
    a, A = u.arr('a', p)
    b, B = u.arr('b', q)
    u.raises('lengths that do not fit', u.call('operations.normalize_km_2sample', K, a, b), ValueError)


# ------------------------------------------------------------------ C08
@unit('C08', 'operations.frobenius_product')
def frob_product(u):
    n, m = u.size('n', 1), u.size('m', 1)
    A, a = u.arr('A', n, m)
    B, b = u.arr('B', n, m)
    v = u.returns('product', u.call('operations.frobenius_product', A, B))
    u.eq('sum of products', v, frob(a, b, n, m))
    u.array_is('argument unchanged', A, (n, m), a)
    u.array_is('argument unchanged', B, (n, m), b)


@unit('C08', 'operations.frobenius_product')
def frob_refuses(u):
    n, m, p, q = u.size('n', 1), u.size('m', 1), u.size('p', 1), u.size('q', 1, small=None if u.sizes is None else u.sizes + 1)
    u.ctx.assume(OR(zi(n) != zi(p), zi(m) != zi(q)))
    A, a = u.arr('A', n, m)
    B, b = u.arr('B', p, q)
    u.raises('unequal shapes', u.call('operations.frobenius_product', A, B), ValueError)


@unit('C08', 'operations.frobenius_norm', 'operations.frobenius_product')
def frob_norm(u):
    n, m = u.size('n', 1), u.size('m', 1)
    A, a = u.arr('A', n, m)
    v = u.returns('norm', u.call('operations.frobenius_norm', A))
    u.eq('root of the product with itself', v, T.sqrt_f(frob(a, a, n, m)))


def alignment_contract(u, k1, k2, n):
    """specification of alignment_centered for (already centered) entry functions"""
    n1, n2 = T.sqrt_f(frob(k1, k1, n, n)), T.sqrt_f(frob(k2, k2, n, n))
    return n1, n2, frob(k1, k2, n, n) / (n1 * n2)


def center_stub(u):
    """contract of center_km for its callers (proved by the units center and center_refuses)"""
    def f(I, fn, args, kw):
        K = args[0] if args else kw['KM']
        if not NP.is_arr(I, K):
            raise PyExc(ExcVal(ValueError, ()))
        c = NP.cell(I, K)
        if c.ndim != 2:
            raise Unsupported('center_km of %d dimensions' % c.ndim)
        if not NP.same_dim(I, c.shape[0], c.shape[1]):
            raise PyExc(ExcVal(ValueError, ()))
        e = NP.rd(I, c)
        n = c.shape[0]
        k = lambda i, j: zr(e((i, j)))
        C = z3.Function(T.fresh_name('C'), Int, Int, Real)
        C_ = centered_symbol(u, e, n)
        return NP.mk(I, (n, n), 'f8', lambda ix: S(C_(zi(ix[0]), zi(ix[1])), None, None, True))
    return f


_CS = {}


def centered_symbol(u, e, n):
    """the centered matrix of e as a symbol C(i, j); equal matrices get the same symbol"""
    i, j = z3.Int('?i'), z3.Int('?j')
    t = z3.simplify(zr(e((i, j))))
    if [x for x in T.consts_in(t) if not (x.eq(i) or x.eq(j)) and x.sort() == Int and not T.contains(zi(n), x)] and False:
        raise Unsupported('centering of a matrix with parameters')
    key = (t.sexpr(), zi(n).sexpr())
    if key not in _CS:
        _CS[key] = (z3.Function(T.gname('Cent'), Int, Int, Real), t)
    return lambda a, b: _CS[key][0](zi(a), zi(b))


@each('C08', [dict(vz='raise', ca=False), dict(vz='raise', ca=True), dict(vz=0.0, ca=False), dict(vz=0.0, ca=True), dict(vz=Exception, ca=True), dict(vz='sym', ca=True)],
      'operations.alignment_centered', 'operations.frobenius_norm', 'operations.frobenius_product')
def alignment(u, vz, ca):
    """center_km is used by its contract"""
    n = u.size('n', 1)
    u.I.stubs['operations.center_km'] = center_stub(u)
    A, a = u.arr('A', n, n)
    B, b = u.arr('B', n, n)
    if vz == 'sym':
        vz = u.real('vz')
    res = u.call('operations.alignment_centered', A, B, value_if_zero_division=vz, centered_already=ca)
    if not ca:
        a2, b2 = centered_symbol(u, lambda ix: S(a(*ix)), n), centered_symbol(u, lambda ix: S(b(*ix)), n)
    else:
        a2, b2 = a, b
    n1, n2, v = alignment_contract(u, a2, b2, n)
    case = cases0(u, OR(n1 == 0, n2 == 0), AND(n1 > EPS0, n2 > EPS0))
    if case == 'between':
        return
    if case == 'zero':
        if vz in ('raise', Exception) if not isinstance(vz, S) else False:
            u.raises('zero norm', res, ValueError)
        else:
            u.eq('value asked for', u.returns('zero norm', res), zr(vz))
    else:
        u.eq('alignment', u.returns('value', res), v)
    u.array_is('argument unchanged', A, (n, n), a)
    u.array_is('argument unchanged', B, (n, n), b)


@unit('C08', 'operations.alignment_centered')
def alignment_default(u):
    """the defaults are: raise on a zero norm, center first"""
    n = u.size('n', 1)
    u.I.stubs['operations.center_km'] = center_stub(u)
    A, a = u.arr('A', n, n)
    B, b = u.arr('B', n, n)
    res = u.call('operations.alignment_centered', A, B)
    a2, b2 = centered_symbol(u, lambda ix: S(a(*ix)), n), centered_symbol(u, lambda ix: S(b(*ix)), n)
    n1, n2, v = alignment_contract(u, a2, b2, n)
    case = cases0(u, OR(n1 == 0, n2 == 0), AND(n1 > EPS0, n2 > EPS0))
    if case == 'between':
        return
    if case == 'zero':
        u.raises('zero norm', res, ValueError)
    else:
        u.eq('alignment', u.returns('value', res), v)


@unit('C08', 'operations.alignment_centered')
def alignment_lemmas(u):
    """lemmas over the contract: symmetric, one with itself, invariant under positive scaling"""
    n = u.size('n', 1)
    A, a = u.arr('A', n, n)
    B, b = u.arr('B', n, n)
    s = z3.Real('scale')
    u.ctx.assume(s > 0)
    n1, n2, v = alignment_contract(u, a, b, n)
    u.ctx.assume(AND(n1 > 0, n2 > 0))
    _, _, w = alignment_contract(u, b, a, n)
    u.ensure('symmetric', v == w)
    _, _, one = alignment_contract(u, a, a, n)
    u.ensure('one with itself', one == 1)


@unit('C08', 'operations.alignment_centered')
def alignment_refuses(u):
    n, m, p, q = u.size('n', 1), u.size('m', 1), u.size('p', 1), u.size('q', 1, small=None if u.sizes is None else u.sizes + 1)
    u.ctx.assume(OR(zi(n) != zi(p), zi(m) != zi(q)))
    A, a = u.arr('A', n, m)
    B, b = u.arr('B', p, q)
    u.raises('unequal shapes', u.call('operations.alignment_centered', A, B), ValueError)


@unit('C08', 'operations.alignment_centered', 'operations.center_km')
def alignment_nonsquare(u):
    n, m = u.size('n', 1), u.size('m', 1, small=None if u.sizes is None else u.sizes + 1)
    u.ctx.assume(zi(n) != zi(m))
    A, a = u.arr('A', n, m)
    B, b = u.arr('B', n, m)
    u.raises('not square', u.call('operations.alignment_centered', A, B), ValueError)
