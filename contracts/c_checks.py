"""C10, C20, C21, C22: input checks, categorical kernel, positive semi-definiteness, precomputed and constant matrices"""
from .lib import *
from .c_kernels import PAR

CLS = list(PAR)
CHK = ('numeric_kernels.{cls}.__call__', 'utils.check_input_arrays', 'utils.ensure_ndarray_1D', 'utils.ensure_ndarray_size')
BAD = ('lengths', 'two dims', 'three dims', 'no dims', 'strings', 'objects', 'list of strings', 'none', 'dict', 'text', 'nested list', 'list lengths')


def kernel(u, cls, skip=None, **kw):
    if skip is not None:
        kw['skip_input_checks'] = skip
    return u.returns('construct', u.call('numeric_kernels.' + cls, **kw))


@each('C10', [dict(cls=c, bad=b) for c in CLS for b in BAD], *CHK)
def refuses(u, cls, bad):
    """requires an invalid argument, first or second, the other one any vector; ensures ValueError"""
    n = u.size('n', 1)
    good, _ = u.arr('x', n, dtype=['f8', 'i8'][u.ctx.choose(2)])
    two = lambda nm, lo=2: u.size(nm, lo)
    u.I.unconvertible = True          # the strings and objects given here are not numbers
    if bad == 'lengths':
        m = u.size('m', 0, small=None if u.sizes is None else u.sizes + 1)
        u.ctx.assume(zi(m) != zi(n))
        x, _ = u.arr('y', m)
    elif bad == 'two dims':
        x, _ = u.arr('y', two('p'), two('q'))
    elif bad == 'three dims':
        k = u.ctx.choose(3)
        p = [two('p'), two('q'), two('r', 1)]
        x, _ = u.arr('y', *(p[k:] + p[:k]))
    elif bad == 'no dims':
        x = [lambda: u.arr('y')[0], lambda: u.real('y'), lambda: u.int('y')][u.ctx.choose(3)]()
    elif bad == 'strings':
        x, _ = u.arr('y', u.size('p', 1), dtype='U9')
    elif bad == 'objects':
        x, _ = u.arr('y', u.size('p', 1), dtype='O')
    elif bad == 'list of strings':
        L = u.size('p', 1)
        f = z3.Function('y', Int, T.StrS)
        x = u.I.new_list(Seq(L, lambda k: SStr(f(zi(k)))) if not isinstance(L, int) else tuple(SStr(f(k)) for k in range(L)))
    elif bad == 'none':
        x = None
    elif bad == 'dict':
        x = u.I.new_dict() if hasattr(u.I, 'new_dict') else u.ctx.alloc(DCell({}))
    elif bad == 'text':
        x = SStr(z3.Const('y', T.StrS))
    elif bad == 'nested list':
        x = u.I.new_list(tuple(u.I.new_list(tuple(u.real('y%d%d' % (i, j)) for j in range(2))) for i in range(3)))
    else:
        m = u.size('m', 0, small=None if u.sizes is None else u.sizes + 1)
        u.ctx.assume(zi(m) != zi(n))
        f = z3.Function('y', Int, Real)
        x = u.I.new_list(Seq(m, lambda k: S(f(zi(k)))) if not isinstance(m, int) else tuple(S(f(k)) for k in range(m)))
    k = kernel(u, cls)
    r = u.call(k, x, good) if u.ctx.choose(2) else u.call(k, good, x)
    u.raises('refused: ' + bad, r, ValueError)


@each('C10', [dict(skip=s, dt=d) for s in (False, True) for d in ('f8', 'i8', 'f4')], 'numeric_kernels.Chi2Kernel.__call__')
def chi2_negative(u, skip, dt):
    n = u.size('n', 1)
    x, X = u.arr('x', n, dtype=dt)
    y, Y = u.arr('y', n, dtype=['f8', dt][u.ctx.choose(2)])
    k = u.idx(n)
    u.ctx.assume(OR(X(k) < 0, Y(k) < 0))
    u.raises('negative feature', u.call(kernel(u, 'Chi2Kernel', skip), x, y), 'config.Chi2NegativeValuesException', ValueError)


@each('C10', [dict(zero=z) for z in (0, 0.0, False)], 'numeric_kernels.HadamardKernel.__init__')
def hadamard_zero(u, zero):
    u.raises('zero alpha', u.call('numeric_kernels.HadamardKernel', zero), ValueError)
    u.raises('zero alpha', u.call('numeric_kernels.HadamardKernel', alpha=zero, skip_input_checks=True), ValueError)


@unit('C10', 'numeric_kernels.HadamardKernel.__init__')
def hadamard_alpha(u):
    """requires alpha != 0 (beyond the tolerance); ensures the kernel is made, with this alpha"""
    a = u.real('alpha', lambda r: OR(r > zr(1e-6), r < -zr(1e-6)))
    k = u.returns('construct', u.call('numeric_kernels.HadamardKernel', a))
    u.eq('alpha', u.returns('alpha', u.attr(k, 'alpha')), zr(a))


@each('C10', [dict(what=w) for w in ('function', 'class', 'none', 'text', 'array', 'number', 'matrix')], 'base.KernelMatrix.__init__')
def km_kernel(u, what):
    """anything but a kernel function object"""
    v = {'function': lambda: u.get('utils.min_max_scale'), 'class': lambda: u.get('numeric_kernels.LinearKernel'), 'none': lambda: None,
         'text': lambda: 'linear', 'array': lambda: u.arr('a', u.size('n', 1))[0], 'number': lambda: u.real('r'),
         'matrix': lambda: u.returns('matrix', u.call('base.KernelMatrix', kernel(u, 'LinearKernel')))}[what]()
    u.raises('not a kernel function', u.call('base.KernelMatrix', v), TypeError)
    u.raises('not a kernel function', u.call('base.KernelMatrix', v, normalized=False), TypeError)


@each('C10', [dict(what=w) for w in ('int0', 'int1', 'int', 'real', 'none', 'text', 'list')], 'base.KernelMatrix.__init__')
def km_flag(u, what):
    v = {'int0': lambda: 0, 'int1': lambda: 1, 'int': lambda: u.int('k'), 'real': lambda: u.real('r'), 'none': lambda: None, 'text': lambda: 'yes',
         'list': lambda: u.I.new_list(())}[what]()
    u.raises('not a boolean', u.call('base.KernelMatrix', kernel(u, 'LinearKernel'), normalized=v), TypeError)


@unit('C10', 'base.KernelMatrix.__init__')
def km_made(u):
    for c in CLS:
        for f in (False, True):
            u.returns('KernelMatrix of a kernel and a flag', u.call('base.KernelMatrix', kernel(u, c), normalized=f))
    u.ensure('made', z3.BoolVal(True))


# ------------------------------------------------------------------ C20
CAT = ('categorical.MatchCountKernel.__init__', 'categorical.MatchCountKernel.__call__', 'categorical._check_categorical_arrays', 'categorical._ensure_type_size')


@each('C20', [dict(perc=p, form=f) for p in (True, False) for f in ('arrays', 'lists', 'mixed', 'widths')], *CAT)
def match_count(u, perc, form):
    n = u.size('n', 2)          # np.squeeze takes the dimension from lists of length one, which are refused: see match_single

    def vec(nm, aslist, dt='U9'):
        a, f = u.arr(nm, n, dtype=dt)
        if aslist:
            a = u.I.new_list(Seq(n, lambda k: SStr(f(zi(k)))) if not isinstance(n, int) else tuple(SStr(f(k)) for k in range(n)))
        return a, f
    x, X = vec('x', form == 'lists')
    y, Y = vec('y', form in ('lists', 'mixed'), 'U2' if form == 'widths' else 'U9')
    k = u.returns('construct', u.call('categorical.MatchCountKernel', return_perc=perc))
    spec = T.mk_sum(n, lambda i: z3.If(X(i) == Y(i), z3.RealVal(1), z3.RealVal(0)))
    spec = spec / zr(n) if perc else spec
    v = u.returns('value', u.call(k, x, y))
    u.eq('count of matches', v, spec)
    u.eq('symmetry', u.returns('value', u.call(k, y, x)), spec)
    u.ensure('bounds', AND(zr(v) >= 0, zr(v) <= (1 if perc else zr(n))))


@each('C20', [dict(perc=p) for p in (True, False)], *CAT)
def match_single(u, perc):
    """arrays of length one"""
    x, X = u.arr('x', 1, dtype='U9')
    y, Y = u.arr('y', 1, dtype='U9')
    k = u.returns('construct', u.call('categorical.MatchCountKernel', return_perc=perc))
    u.eq('count of matches', u.returns('value', u.call(k, x, y)), z3.If(X(0) == Y(0), z3.RealVal(1), z3.RealVal(0)))


@each('C20', [dict(bad=b, perc=p) for b in ('lengths', 'two dims', 'no dims', 'text', 'numbers', 'integers', 'objects', 'list of numbers', 'booleans') for p in (True, False)], *CAT)
def match_refuses(u, bad, perc):
    n = u.size('n', 2)
    good, _ = u.arr('x', n, dtype='U9')
    exc = ValueError
    if bad == 'lengths':
        m = u.size('m', 1, small=None if u.sizes is None else u.sizes + 1)
        u.ctx.assume(zi(m) != zi(n))
        x, _ = u.arr('y', m, dtype='U9')
    elif bad == 'two dims':
        x, _ = u.arr('y', u.size('p', 2), u.size('q', 2), dtype='U9')
    elif bad == 'no dims':
        x, _ = u.arr('y', dtype='U9')
    elif bad == 'text':
        x = SStr(z3.Const('y', T.StrS))
    else:
        exc = TypeError
        if bad == 'list of numbers':
            f = z3.Function('y', Int, Real)
            x = u.I.new_list(Seq(n, lambda k: S(f(zi(k)))) if not isinstance(n, int) else tuple(S(f(k)) for k in range(n)))
        else:
            x, _ = u.arr('y', n, dtype={'numbers': 'f8', 'integers': 'i8', 'objects': 'O', 'booleans': 'b1'}[bad])
    k = u.returns('construct', u.call('categorical.MatchCountKernel', return_perc=perc))
    r = u.call(k, x, good) if u.ctx.choose(2) else u.call(k, good, x)
    u.raises('refused: ' + bad, r, exc)


# ------------------------------------------------------------------ C21
def close(a, b):
    """numerically equal, as numpy.isclose has it"""
    from .c_ops import absr
    return absr(a - b) <= z3.RealVal('1/100000000') + z3.RealVal('1/100000') * absr(b)


PSD = ('operations.is_positive_semidefinite',)


@each('C21', [dict(name=nm, verbose=v) for nm in ('is_positive_semidefinite', 'is_PSD') for v in (False, True)], *PSD)
def psd(u, name, verbose):
    """ensures True exactly for symmetric arrays all of whose eigenvalues (any reals) are >= -tolerance"""
    n = u.size('n', 1)
    A, a = u.arr('A', n, n)
    ev = z3.Function('eigenvalue', Int, Real)
    tol = u.real('tol', lambda t: t >= 0)
    fails = u.ctx.decide(z3.Bool('eigenvalues fail'))
    from pyvc import extmodel

    def hook(I, x, c, k):
        from pyvc.npmodel import rd
        if c.ndim != 2 or not NP.same_dim(I, c.shape[0], n) or not NP.same_dim(I, c.shape[1], n):
            raise Unsupported('eigenvalues of another matrix')
        i, j = z3.Const(T.gname('q'), Int), z3.Const(T.gname('q'), Int)
        e = rd(I, c)((i, j))
        if I.ctx.prove(IMP(NP.rng((i, j), (n, n)), zr(e) == a(i, j)))[0] != 'unsat':
            raise Unsupported('eigenvalues of another matrix')
        if fails:
            raise PyExc(ExcVal([I.module_attr(I.module('scipy.linalg'), 'LinAlgError'), ValueError][I.ctx.choose(2)]))
        w = NP.mk(I, (n,), 'f8', lambda ix: S(ev(zi(ix[0])), None, None, True))
        I.ctx.assume_all(1, lambda t: IMP(AND(t >= 0, t < zi(n) - 1), ev(t) <= ev(t + 1)))
        if k.get('eigvals_only') is True:
            return w
        raise Unsupported('eigenvectors')
    u.I.eigh_hook = hook
    asym = u.ctx.decide(NP.exists(u.I, (n, n), lambda ix: NOT(close(a(*ix), a(ix[1], ix[0]))), 'spec'))
    neg = u.ctx.decide(NP.exists(u.I, (n,), lambda ix: ev(zi(ix[0])) < -zr(tol), 'spec'))
    r = u.returns('decides', u.call('operations.' + name, A, tolerance=tol, verbose=verbose))
    want = not asym and not fails and not neg
    if isinstance(r, S) and r.e.sort() == Bool:
        r = u.ctx.decide(r.e)
    if not isinstance(r, bool):
        u.never('returns True or False', repr(r))
    u.ensure('True exactly for symmetric matrices without negative eigenvalues', z3.BoolVal(r is want))
    u.array_is('argument unchanged', A, (n, n), a)


@unit('C21', *PSD)
def psd_not_square(u):
    n, m = u.size('n', 1), u.size('m', 1, small=None if u.sizes is None else u.sizes + 1)
    u.ctx.assume(zi(n) != zi(m))
    A, a = u.arr('A', n, m)
    r = u.returns('decides', u.call('operations.is_positive_semidefinite', A))
    u.ensure('not square', z3.BoolVal(r is False))


@each('C21', [dict(what=w) for w in ('list', 'number', 'none', 'text', 'nested')], *PSD)
def psd_type(u, what):
    v = {'list': lambda: u.I.new_list((1.0, 2.0)), 'number': lambda: u.real('r'), 'none': lambda: None, 'text': lambda: 'ab',
         'nested': lambda: u.I.new_list((u.I.new_list((1.0, 0.0)), u.I.new_list((0.0, 1.0))))}[what]()
    u.raises('not an array', u.call('operations.is_positive_semidefinite', v), TypeError)


# ------------------------------------------------------------------ C22
PRE = ['base.KernelMatrixPrecomputed.' + f for f in ('__init__', 'full', 'diag', 'size', '__len__', '__getitem__')] + ['utils.not_symmetric']


def sym(u, n, dt='f8', nm='A'):
    A, a = u.arr(nm, n, n, dtype=dt)
    u.ctx.assume_all(2, lambda i, j: close(a(i, j), a(j, i)))
    return A, a


@each('C22 C11', [dict(dt=d) for d in ('f8', 'i8', 'f4')], *PRE)
def precomputed(u, dt):
    n = u.size('n', 1)
    A, a = sym(u, n, dt)
    P = u.returns('construct', u.call('base.KernelMatrixPrecomputed', A))
    u.array_is('full', u.returns('full', u.attr(P, 'full')), (n, n), a)
    u.array_is('diagonal', u.returns('diag', u.attr(P, 'diag')), (n,), lambda i: a(i, i))
    u.same_int('number of samples', u.returns('num_samples', u.attr(P, 'num_samples')), n)
    u.same_int('size', u.returns('size', u.attr(P, 'size')), n)
    u.same_int('length', u.returns('len', u.attempt(lambda: u.I.length(P))), n)
    i, j = u.idx(n), u.idx(n)
    g = lambda ix: u.attempt(lambda: u.I.getitem(P, ix))
    u.eq('entry', u.returns('entry', g((S(i), S(j)))), a(i, j))
    lo = u.idx(n, 'lo')
    u.array_is('rows', u.returns('rows', g((SliceV(S(lo), None, None), S(j)))), (zi(n) - lo,), lambda t: a(t + lo, j))
    u.array_is('all', u.returns('all', g((SliceV(None, None, None), SliceV(None, None, None)))), (n, n), a)
    E = 'config.KMAccessError'
    out = T.fresh('out', Int)
    u.ctx.assume(OR(out < -zi(n), out >= zi(n)))
    u.raises('out of range', g((S(out), S(j))), E)
    u.raises('out of range', g((S(i), S(out))), E)
    u.raises('malformed', g((S(i), S(j), S(i))), E)
    u.raises('malformed', g('ab'), E)
    u.array_is('full again', u.returns('full', u.attr(P, 'full')), (n, n), a)


@each('C22', [dict(bad=b) for b in ('asymmetric', 'not square', 'one dim', 'three dims', 'asymmetric list', 'complex')], 'base.KernelMatrixPrecomputed.__init__', 'utils.not_symmetric')
def precomputed_refuses(u, bad):
    n, m = u.size('n', 1), u.size('m', 1, small=None if u.sizes is None else u.sizes + 1)
    if bad == 'asymmetric':
        A, a = u.arr('A', n, n, dtype=['f8', 'i8'][u.ctx.choose(2)])
        i, j = u.idx(n), u.idx(n)
        u.ctx.assume(NOT(close(a(i, j), a(j, i))))
    elif bad == 'not square':
        u.ctx.assume(zi(n) != zi(m))
        A, a = u.arr('A', n, m)
    elif bad == 'one dim':
        A, a = u.arr('A', n)
    elif bad == 'three dims':
        A, a = u.arr('A', n, n, n)
    elif bad == 'asymmetric list':
        x, y = u.real('x'), u.real('y')
        u.ctx.assume(OR(NOT(close(x.e, y.e)), NOT(close(y.e, x.e))))
        A = u.I.new_list((u.I.new_list((1.0, x)), u.I.new_list((y, 1.0))))
    else:
        re, im = z3.Function('re', Int, Int, Real), z3.Function('im', Int, Int, Real)
        A = NP.mk(u.I, (n, n), 'c16', lambda ix: CV(S(re(*map(zi, ix))), S(im(*map(zi, ix)))))
        u.ctx.assume(im(u.idx(n), u.idx(n)) != 0)
    u.raises('refused: ' + bad, u.call('base.KernelMatrixPrecomputed', A), ValueError)


CST = ['base.ConstantKernelMatrix.' + f for f in ('__init__', 'full', 'diag', 'size', 'shape', '__len__', '__getitem__', '_get_indices_in_sample')]


def constant(u):
    n = u.size('n', 1)
    c = u.real('c')
    return n, c, u.returns('construct', u.call('base.ConstantKernelMatrix', S(zi(n)) if not isinstance(n, int) else n, value=c))


@unit('C22', *CST)
def constant_whole(u):
    n, c, M = constant(u)
    for _ in range(2):
        u.array_is('full', u.returns('full', u.attr(M, 'full')), (n, n), lambda i, j: zr(c))
        u.array_is('diagonal', u.returns('diag', u.attr(M, 'diag')), (n,), lambda i: zr(c))
    u.same_int('number of samples', u.returns('num_samples', u.attr(M, 'num_samples')), n)
    u.same_int('size', u.returns('size', u.attr(M, 'size')), n)
    u.same_int('length', u.returns('len', u.attempt(lambda: u.I.length(M))), n)
    sh = u.returns('shape', u.attr(M, 'shape'))
    u.same_int('shape', sh[0], n)
    u.same_int('shape', sh[1], n)


@each('C22', [dict(what=w) for w in ('element', 'lists', 'slices', 'list and slice')], *CST)
def constant_select(u, what):
    from .c_km import int_list, distinct
    n, c, M = constant(u)
    g = lambda ix: u.attempt(lambda: u.I.getitem(M, ix))
    if what == 'element':
        i, j = u.idx(n), u.idx(n)
        ix, sh = (S(i), S(j)), (1, 1)
    elif what == 'lists':
        a, sa, _ = int_list(u, 'rows', n)
        b, sb, _ = int_list(u, 'cols', n)
        ix, sh = (a, b), (distinct(u, sa)[0], distinct(u, sb)[0])
    elif what == 'slices':
        lo, hi = u.idx(n, 'lo'), T.fresh('hi', Int)
        u.ctx.assume(AND(hi > lo, hi <= zi(n)))
        ix, sh = (SliceV(S(lo), S(hi), None), SliceV(None, None, None)), (hi - lo, n)
    else:
        a, sa, _ = int_list(u, 'rows', n)
        ix, sh = (a, SliceV(None, None, None)), (distinct(u, sa)[0], n)
    u.array_is('selection', u.returns('selection', g(ix)), sh, lambda i, j: zr(c))


@unit('C22', *CST)
def constant_refuses(u):
    n, c, M = constant(u)
    E = 'config.KMAccessError'
    g = lambda ix: u.attempt(lambda: u.I.getitem(M, ix))
    i, j, out = u.idx(n), u.idx(n), T.fresh('out', Int)
    u.ctx.assume(OR(out < 0, out >= zi(n)))
    k = u.ctx.choose(8)
    swap = u.ctx.choose(2)
    pair = lambda bad: (bad, S(j)) if swap else (S(i), bad)
    if k == 0:
        u.raises('out of range', g(pair(S(out))), E)
    elif k == 1:
        L, p = u.size('len_bad', 1), T.fresh('at', Int)
        f = z3.Function('el_bad', Int, Int)
        u.ctx.assume(AND(p >= 0, p < zi(L), OR(f(p) < 0, f(p) >= zi(n))))
        u.raises('list with an index out of range', g(pair(u.I.new_list(Seq(L, lambda t: S(f(zi(t)))) if not isinstance(L, int) else tuple(S(f(t)) for t in range(L))))), E)
    elif k == 2:
        u.raises('empty list', g(pair(u.I.new_list(()))), E)
    elif k == 3:
        u.raises('empty slice', g(pair(SliceV(S(i), S(i), None))), E)
    elif k == 4:
        u.raises('string', g(pair(['a', 'ab', '0'][u.ctx.choose(3)])), E)
    elif k == 5:
        u.raises('none or float', g(pair([None, 1.0, u.real('r')][u.ctx.choose(3)])), E)
    elif k == 6:
        u.raises('not two parts', g([(), (S(i),), (S(i), S(j), S(i)), 'ab', 'abc', None, 1.0, S(i)][u.ctx.choose(8)]), E)
    else:
        u.raises('string of two', g('01'), E)
