"""C11, C12, C13, C19: sets of kernel matrices and their combinations"""
from .lib import *
from .setlib import *
from . import c_ops

KS = ['base.KernelSet.' + f for f in ('__init__', 'append', 'extend', '__getitem__', 'take', 'get_kernel_funcs', '_check_indices', '__iter__', '__len__', 'size', 'num_samples')]
ADD = 'config.KMSetAdditionError'


def origin(u, how, **kw):
    """a set in any reachable state: (set, family, M, samples)"""
    if how == 'members':
        f = Family(u, lo=1, **kw)
        return new_set(u, f), f, f.M, f.n
    if how == 'declared members':
        f = Family(u, lo=1, **kw)
        return new_set(u, f, num_samples=f.dim(f.n)), f, f.M, f.n
    f = Family(u, count=0, **kw)
    if how == 'empty':
        return u.returns('construction', u.call('base.KernelSet')), f, 0, None
    return u.returns('construction', u.call('base.KernelSet', num_samples=f.dim(f.n))), f, 0, f.n


ORIGIN = ('members', 'declared members', 'empty', 'declared')


@each('C11', [dict(how=h) for h in ORIGIN], *KS)
def set_made(u, how):
    s, f, M, n = origin(u, how)
    holds(u, s, M, f.mem, n)


def outsider(u, n):
    """a kernel matrix on n samples (any number if None)"""
    g = Family(u, 'New', n=n, count=1) if n is not None else Family(u, 'New', varied=True, n=None, count=1)
    return g, g.member(0)


@each('C11', [dict(how=h) for h in ORIGIN], *KS)
def set_append(u, how):
    """compatible: the last of the members; otherwise refused, and the set is as before"""
    s, f, M, n = origin(u, how)
    g, x = outsider(u, None)
    ns = g.ns(x.e)
    u.ctx.assume(ns >= 1)
    fits = n is None or u.ctx.decide(ns == zi(n))
    r = u.meth(s, 'append', x)
    if not fits:
        u.raises('incompatible addition', r, ADD)
        return holds(u, s, M, f.mem, n, 'the set after a refused addition')
    u.returns('append', r)
    holds(u, s, simp_int(zi(M) + 1), lambda k: ITE(k == zi(M), x.e, f.mem(k)), ns if n is None else n, 'the set after an addition')


@unit('C11', *KS)
def set_append_twice(u):
    """the first of two additions to an empty set decides the number of samples"""
    s = u.returns('construction', u.call('base.KernelSet'))
    g = Family(u, 'New', varied=True, n=None, count=2)
    a, b = g.member(0), g.member(1)
    u.ctx.assume(AND(g.ns(a.e) >= 1, g.ns(b.e) >= 1))
    u.returns('append', u.meth(s, 'append', a))
    r = u.meth(s, 'append', b)
    if u.ctx.decide(g.ns(a.e) == g.ns(b.e)):
        u.returns('append', r)
        holds(u, s, 2, lambda k: ITE(k == 0, a.e, b.e), g.ns(a.e))
    else:
        u.raises('incompatible addition', r, ADD)
        holds(u, s, 1, lambda k: a.e, g.ns(a.e))


@unit('C11', *KS)
def set_of_incompatible(u):
    """construction from members that differ in their number of samples"""
    f = Family(u, lo=2, varied=True, n=None)
    p = u.idx(simp_int(zi(f.M) - 1), 'p')
    u.ctx.assume(f.ns(f.mem(p + 1)) != f.ns(f.mem(z3.IntVal(0))))      # not all are equal: one differs from the first
    u.ctx.assume_all(1, lambda k: f.ns(f.mem(k)) >= 1)
    u.raises('incompatible members', u.call('base.KernelSet', f.list()), ADD)


@each('C11', [dict(how=h) for h in ORIGIN], *KS)
def set_index(u, how):
    s, f, M, n = origin(u, how)
    out = T.fresh('out', Int)
    u.ctx.assume(OR(out < 0, out >= zi(M)))
    u.raises('index out of range', u.attempt(lambda: u.I.getitem(s, S(out))), IndexError)
    u.raises('index -1', u.attempt(lambda: u.I.getitem(s, -1)), IndexError)
    holds(u, s, M, f.mem, n, 'the set afterwards')


def index_list(u, f, name='ix', bad=False, lo=1):
    L = u.size('L' + name, lo)
    g = z3.Function('el_' + name, Int, Int)
    if bad:
        p = u.idx(L, 'bad')
        u.ctx.assume(OR(g(p) < 0, g(p) >= zi(f.M)))
    else:
        u.ctx.assume_all(1, lambda t: IMP(AND(t >= 0, t < zi(L)), AND(g(t) >= 0, g(t) < zi(f.M))))
        if isinstance(L, int):
            for t in range(L):
                u.ctx.assume(AND(g(t) >= 0, g(t) < zi(f.M)))
    seq = Seq(L, lambda t: S(g(zi(t)))) if not isinstance(L, int) else tuple(S(g(t)) for t in range(L))
    return L, g, u.I.new_list(seq)


@each('C11', [dict(form=k, how=h) for k in ('list', 'array', 'int') for h in ('members', 'declared members')], *KS)
def set_take(u, form, how):
    """any indices in any order with any repetitions"""
    s, f, M, n = origin(u, how)
    if form == 'int':
        i = u.idx(M)
        L, g, ix = 1, (lambda t: i), S(i)
    else:
        L, g, ix = index_list(u, f)
        if form == 'array':
            ix = NP.to_array(u.I, ix)
    t = u.returns('take', u.meth(s, 'take', ix))
    holds(u, t, L, lambda k: f.mem(g(k)), n, 'the taken set')
    holds(u, s, M, f.mem, n, 'the set itself')
    fs = u.returns('get_kernel_funcs', u.meth(s, 'get_kernel_funcs', ix))
    fs = u.I.to_seq(fs)
    u.same_int('number of kernel functions', len(fs) if isinstance(fs, tuple) else fs.n if isinstance(fs.n, int) else S(zi(fs.n)), L)
    k = u.idx(L, 'k')
    is_member(u, 'kernel functions', u.I.seq_at(fs, S(k)), f.kern(f.mem(g(k))))


@each('C11', [dict(form=k) for k in ('list', 'array', 'int')], *KS)
def set_take_refuses(u, form):
    s, f, M, n = origin(u, 'members')
    if form == 'int':
        out = T.fresh('out', Int)
        u.ctx.assume(OR(out < 0, out >= zi(M)))
        ix = S(out)
    else:
        L, g, ix = index_list(u, f, bad=True)
        if form == 'array':
            ix = NP.to_array(u.I, ix)
    u.raises('take out of range', u.meth(s, 'take', ix), IndexError)
    r = u.meth(s, 'get_kernel_funcs', ix)
    if r[0] == 'ret':
        r = u.attempt(lambda: u.I.to_seq(r[1]))
    u.raises('kernel functions out of range', r, IndexError)
    holds(u, s, M, f.mem, n, 'the set itself')


@each('C11', [dict(how=h, other=o) for h in ORIGIN for o in ('members', 'declared members')], *KS)
def set_extend(u, how, other):
    s, f, M, n = origin(u, how)
    n2 = u.size('n2', 1, small=None if u.sizes is None else u.sizes + u.ctx.choose(2))
    g = Family(u, 'Other', lo=1, n=n2)
    t = new_set(u, g, **({} if other == 'members' else dict(num_samples=g.dim(n2))))
    fits = n is not None and u.ctx.decide(zi(n2) == zi(n))
    r = u.meth(s, 'extend', t)
    if n is not None and not fits:
        u.raises('incompatible sets', r, ADD)
        holds(u, s, M, f.mem, n, 'the set after a refused extension')
    elif r[0] == 'ret':
        holds(u, s, simp_int(zi(M) + zi(g.M)), lambda k: ITE(k >= zi(M), g.mem(k - zi(M)), f.mem(k)), n2, 'the extended set')
    else:
        # an empty set that has no number of samples yet may refuse
        u.raises('extension of an empty set', r, ADD)
        holds(u, s, M, f.mem, n, 'the set after a refused extension')
    holds(u, t, g.M, g.mem, n2, 'the other set')


@each('C11', [dict(what=w) for w in ('list', 'array', 'none', 'matrix')], *KS)
def set_extend_type(u, what):
    s, f, M, n = origin(u, 'members')
    v = {'list': lambda: f.list(), 'array': lambda: u.arr('A', n, n)[0], 'none': lambda: None, 'matrix': lambda: f.member(0)}[what]()
    u.raises('not a set', u.meth(s, 'extend', v), ADD)
    holds(u, s, M, f.mem, n)


@each('C11', [dict(how=h) for h in ('members', 'declared', 'empty')], *KS, 'base.KernelMatrixPrecomputed.__init__', 'base.KernelMatrixPrecomputed.full')
def set_array(u, how):
    """symmetric arrays are accepted and represent themselves; others are refused"""
    from .c_checks import close
    s, f, M, n = origin(u, how)
    q = u.size('q', 1, small=None if u.sizes is None else u.sizes + u.ctx.choose(2))
    A, a = u.arr('A', q, q)
    asym = u.ctx.decide(NP.exists(u.I, (q, q), lambda ix: NOT(close(a(*map(zi, ix)), a(zi(ix[1]), zi(ix[0])))), 'spec'))
    fits = n is None or u.ctx.decide(zi(q) == zi(n))
    r = u.meth(s, 'append', A)
    if asym or not fits:
        u.raises('refused array', r, *([ValueError] if asym else []) + ([ADD] if not fits else []))
        return holds(u, s, M, f.mem, n, 'the set after a refused addition')
    u.returns('append', r)
    u.same_int('length', length(u, s), simp_int(zi(M) + 1))
    x = u.returns('the array by index', u.attempt(lambda: u.I.getitem(s, M if isinstance(M, int) else S(M))))
    u.array_is('the array', u.returns('full', u.attr(x, 'full')), (q, q), a)
    u.same_int('its samples', u.returns('num_samples', u.attr(x, 'num_samples')), q)
    if u.ctx.decide(zi(M) > 0):
        k = u.idx(M, 'k')
        is_member(u, 'the members before', u.returns('member', u.attempt(lambda: u.I.getitem(s, S(k)))), f.mem(k))
    u.array_is('argument unchanged', A, (q, q), a)


# ------------------------------------------------------------------ C12
KS2 = ['base.KernelSet.' + f for f in ('attach_to', 'set_attr', 'get_attr', 'size', 'num_samples')]


def all_attached(u, f, name='every member is attached'):
    k = u.idx(f.M, 'k')
    u.ensure(name, f.ghost_at(f.g_att, k) == 1)


def untouched(u, f):
    k = u.idx(f.M, 'k')
    u.ensure('no member is touched', AND(f.ghost_at(f.g_att, k) == 0, f.ghost_at(f.g_has, k) == 0))


@each('C12', [dict(how=h, attr=a) for h in ('unattached', 'attached', 'declared') for a in (False, True)], *KS2)
def set_attach(u, how, attr):
    d = u.size('d', 1)
    q = u.size('q', 1, small=None if u.sizes is None else u.sizes + u.ctx.choose(2))
    f = Family(u, lo=1, ghost=True, n=None if how == 'unattached' else 'size')
    f.attr_name = 'tag'
    s = new_set(u, f, **(dict(num_samples=f.dim(f.n)) if how == 'declared' else {}))
    if how == 'unattached':
        # a set whose members are not attached yet has no number of samples
        u.ensure('number of samples before', z3.BoolVal(u.returns('num_samples', u.attr(s, 'num_samples')) is None))
    X, x = u.arr('X', q, d)
    f.sample, f.sample_shape = x, (q, d)
    v = u.int('value')
    kw = dict(attr_name='tag', attr_value=v) if attr else {}
    fits = how == 'unattached' or u.ctx.decide(zi(q) == zi(f.n))
    r = u.meth(s, 'attach_to', X, **kw)
    if not fits:
        u.raises('sample of another size', r, ValueError)
        untouched(u, f)
        return u.same_int('number of samples afterwards', u.returns('num_samples', u.attr(s, 'num_samples')), f.n)
    u.returns('attach_to', r)
    all_attached(u, f)
    u.same_int('number of samples', u.returns('num_samples', u.attr(s, 'num_samples')), q)
    k = u.idx(f.M, 'k')
    if attr:
        u.ensure('every member has the attribute', f.ghost_at(f.g_has, k) == 1)
        u.ensure('every member has the value', f.ghost_at(f.g_val, k) == v.e)
    else:
        u.ensure('no attribute is set', f.ghost_at(f.g_has, k) == 0)
    u.array_is('the sample is unchanged', X, (q, d), x)


@each('C12', [dict(form=k) for k in ('single', 'list', 'tuple', 'list of one', 'text', 'wrong length')], *KS2)
def set_tag(u, form):
    f = Family(u, lo=1 if form != 'wrong length' else 1, ghost=True)
    f.attr_name = 'tag'
    s = new_set(u, f)
    vals = z3.Function('values', Int, Int)
    L = f.M
    mk = lambda n: Seq(n, lambda k: S(vals(zi(k)))) if not isinstance(n, int) else tuple(S(vals(k)) for k in range(n))
    at = vals
    if form == 'single':
        v = S(vals(0))
        at = lambda k: vals(0)
    elif form == 'text':
        v = 'label'
        f.text, f.text_code = 'label', S(vals(0))
        at = lambda k: vals(0)
    elif form == 'list of one':
        v = u.I.new_list((S(vals(0)),))
        at = lambda k: vals(0)
    elif form == 'wrong length':
        L = u.size('L', 2, small=None if u.sizes is None else u.sizes + 1)
        u.ctx.assume(zi(L) != zi(f.M))
        v = u.I.new_list(mk(L))
    else:
        v = u.I.new_list(mk(L), form)
        if form == 'tuple' and isinstance(L, int):
            v = mk(L)
    r = u.meth(s, 'set_attr', 'tag', v)
    if form == 'wrong length':
        u.raises('list of a wrong length', r, ValueError)
        return untouched(u, f)
    u.returns('set_attr', r)
    k = u.idx(f.M, 'k')
    u.ensure('every member has the attribute', f.ghost_at(f.g_has, k) == 1)
    u.ensure('the value of each member', f.ghost_at(f.g_val, k) == at(k))
    u.ensure('no member is attached', f.ghost_at(f.g_att, k) == 0)


@unit('C12', *KS2)
def set_read(u):
    f = Family(u, lo=1, ghost=True)
    f.attr_name = 'tag'
    s = new_set(u, f)
    d = u.int('fallback')
    r = u.I.to_seq(u.returns('get_attr', u.meth(s, 'get_attr', 'tag', d)))
    u.same_int('one value per member', len(r) if isinstance(r, tuple) else r.n if isinstance(r.n, int) else S(zi(r.n)), f.M)
    k = u.idx(f.M, 'k')
    u.same_int('values in order', u.I.seq_at(r, S(k)), ITE(f.has0(f.mem(k)), f.val0(f.mem(k)), d.e))
    untouched(u, f)


@unit('C12', 'base.KernelMatrix.set_attr', 'base.KernelMatrix.get_attr')
def matrix_attr(u):
    """the attributes of one kernel matrix: what was set last under that name, else the fallback"""
    m = u.returns('construct', u.call('base.KernelMatrix', u.returns('kernel', u.call('numeric_kernels.LinearKernel'))))
    v, w, d = (Opq(z3.Const(x, T.ObjS)) for x in ('v', 'w', 'd'))
    get = lambda n: u.returns('get_attr', u.meth(m, 'get_attr', n, d))
    is_member(u, 'fallback', get('a'), d.e)
    u.returns('set_attr', u.meth(m, 'set_attr', 'a', v))
    is_member(u, 'value', get('a'), v.e)
    is_member(u, 'fallback for another name', get('b'), d.e)
    u.returns('set_attr', u.meth(m, 'set_attr', 'b', w))
    is_member(u, 'value kept', get('a'), v.e)
    is_member(u, 'second value', get('b'), w.e)
    u.returns('set_attr', u.meth(m, 'set_attr', 'a', w))
    is_member(u, 'value replaced', get('a'), w.e)
    r = u.returns('get_attr', u.meth(m, 'get_attr', 'zz'))
    u.ensure('no fallback given', z3.BoolVal(r is None))


# ------------------------------------------------------------------ C13
COMP = ['base.CompositeKernel.' + f for f in ('__init__', 'composite_KM', 'full')]


def weights(u, f, form, M=None):
    M = f.M if M is None else M
    w, W = u.arr('w', M, dtype='i8' if form == 'integers' else 'f8')
    if form == 'list':
        w = u.I.new_list(Seq(M, lambda k: S(W(zi(k)))) if not isinstance(M, int) else tuple(S(W(k)) for k in range(M)))
    return w, W


def comp_sum(f, W, i, j):
    return T.mk_sum(f.M, lambda k: W(k) * f.ent(f.mem(k), i, j))


def wants(u, f, c, spec, name):
    """composite result, by both ways of reading it"""
    u.array_is(name, u.returns('composite_KM', u.attr(c, 'composite_KM')), (f.n, f.m), spec)
    u.array_is(name + ' (full)', u.returns('full', u.attr(c, 'full')), (f.n, f.m), spec)


def fresh_composite(u, cls, *a):
    f = Family(u, lo=2)
    s = new_set(u, f)
    c = u.returns('construct', u.call('base.' + cls, s, *[x(f) for x in a]))
    u.raises('not available before fitting', u.attr(c, 'composite_KM'), ValueError)
    u.raises('not available before fitting', u.attr(c, 'full'), ValueError)
    return f, s, c


@each('C13', [dict(form=x) for x in ('default', 'array', 'list', 'integers', 'wrong')], 'base.SumKernel.fit', *COMP)
def sum_kernel(u, form):
    f, s, c = fresh_composite(u, 'SumKernel')
    if form == 'default':
        u.returns('fit', u.meth(c, 'fit'))
        return wants(u, f, c, lambda i, j: T.mk_sum(f.M, lambda k: f.ent(f.mem(k), i, j)), 'sum')
    if form == 'wrong':
        L = u.size('L', 1, small=None if u.sizes is None else u.sizes + 2)
        u.ctx.assume(zi(L) != zi(f.M))
        w, W = weights(u, f, ['array', 'list'][u.ctx.choose(2)], L)
        u.raises('wrong number of weights', u.meth(c, 'fit', w), ValueError)
        return u.raises('not available before fitting', u.attr(c, 'full'), ValueError)
    w, W = weights(u, f, form)
    u.returns('fit', u.meth(c, 'fit', w))
    wants(u, f, c, lambda i, j: comp_sum(f, W, i, j), 'weighted sum')
    if form == 'array':
        u.array_is('weights unchanged', w, (f.M,), W)


@unit('C13', 'base.ProductKernel.fit', *COMP)
def product_kernel(u):
    f, s, c = fresh_composite(u, 'ProductKernel')
    u.returns('fit', u.meth(c, 'fit'))
    wants(u, f, c, lambda i, j: T.mk_sum(f.M, lambda k: f.ent(f.mem(k), i, j), kind='Prod'), 'product')


@unit('C13', 'base.AverageKernel.fit', *COMP)
def average_kernel(u):
    f, s, c = fresh_composite(u, 'AverageKernel')
    u.returns('fit', u.meth(c, 'fit'))
    wants(u, f, c, lambda i, j: T.mk_sum(f.M, lambda k: f.ent(f.mem(k), i, j)) / zr(f.M), 'average')


@each('C13', [dict(cls=c) for c in ('SumKernel', 'ProductKernel', 'AverageKernel')], 'base.{cls}.fit', 'base.KernelSet.append', *COMP)
def grown_set(u, cls):
    """fitting combines all members the set then has, also those added (and fitted with) after construction"""
    f, s, c = fresh_composite(u, cls)
    if u.ctx.choose(2):
        u.returns('fit', u.meth(c, 'fit'))
    u.returns('append', u.meth(s, 'append', f.member(f.M)))
    f.M = f.M + 1 if isinstance(f.M, int) else zi(f.M) + 1
    u.returns('fit', u.meth(c, 'fit'))
    e = lambda i, j: T.mk_sum(f.M, lambda k: f.ent(f.mem(k), i, j), kind='Prod' if cls == 'ProductKernel' else 'Sum')
    wants(u, f, c, (lambda i, j: e(i, j) / zr(f.M)) if cls == 'AverageKernel' else e, 'of all members')


@each('C13', [dict(form=x) for x in ('array', 'list', 'integers', 'wrong')], 'base.WeightedAverageKernel.__init__', 'base.WeightedAverageKernel.fit', *COMP)
def weighted_kernel(u, form):
    if form == 'wrong':
        f = Family(u, lo=2)
        L = u.size('L', 1, small=None if u.sizes is None else u.sizes + 2)
        u.ctx.assume(zi(L) != zi(f.M))
        w, W = weights(u, f, ['array', 'list'][u.ctx.choose(2)], L)
        return u.raises('wrong number of weights', u.call('base.WeightedAverageKernel', new_set(u, f), w), ValueError)
    W = []
    def ws(f):
        w, g = weights(u, f, form)
        W.append(g)
        return w
    f, s, c = fresh_composite(u, 'WeightedAverageKernel', ws)
    u.returns('fit', u.meth(c, 'fit'))
    wants(u, f, c, lambda i, j: comp_sum(f, W[0], i, j), 'weighted average')


@each('C13', [dict(cls=c, bad=b) for c in ('SumKernel', 'ProductKernel', 'AverageKernel') for b in ('one', 'none', 'list')], 'base.CompositeKernel.__init__')
def composite_refuses(u, cls, bad):
    """at least two kernel matrices"""
    if bad == 'list':
        return u.raises('not a set', u.call('base.' + cls, Family(u, lo=2).list()), TypeError)
    f = Family(u, count=1 if bad == 'one' else 0)
    u.raises('less than two', u.call('base.' + cls, new_set(u, f)), ValueError)


LC = ('operations.linear_combination',)


@each('C13', [dict(form=x, two=t, norm=z) for x in ('array', 'list') for t in (False, True) for z in (False, True)], *LC)
def linear_comb(u, form, two, norm):
    f = Family(u, lo=2, two=two)
    s = new_set(u, f)
    w, W = weights(u, f, form)
    tot = T.mk_sum(f.M, lambda k: W(k))
    if norm:
        zero = u.ctx.decide(tot == 0)
        if not zero:
            u.ctx.assume(c_ops.absr(tot) > c_ops.EPS0)
        r = u.call('operations.linear_combination', s, w, norm_weights=True)
        if zero:
            return u.raises('weights that sum to zero', r, RuntimeError)
        spec = lambda i, j: comp_sum(f, W, i, j) / tot
    else:
        r = u.call('operations.linear_combination', s, w)
        spec = lambda i, j: comp_sum(f, W, i, j)
    u.array_is('linear combination', u.returns('linear combination', r), (f.n, f.m), spec)
    if form == 'array':
        u.array_is('weights unchanged', w, (f.M,), W)


@unit('C13', *LC)
def linear_comb_refuses(u):
    f = Family(u, lo=2)
    L = u.size('L', 1, small=None if u.sizes is None else u.sizes + 2)
    u.ctx.assume(zi(L) != zi(f.M))
    w, W = weights(u, f, ['array', 'list'][u.ctx.choose(2)], L)
    u.raises('wrong number of weights', u.call('operations.linear_combination', new_set(u, f), w, norm_weights=bool(u.ctx.choose(2))), ValueError)


# ------------------------------------------------------------------ C19
def which(u, f, v, n):
    """the member whose matrix this array is"""
    I = u.I
    if not NP.is_arr(I, v):
        raise Unsupported('a metric of something else than matrices')
    c = NP.cell(I, v)
    if c.ndim != 2 or not NP.same_dim(I, c.shape[0], n) or not NP.same_dim(I, c.shape[1], n):
        raise Unsupported('a metric of other matrices')
    i, j = z3.Int('?r'), z3.Int('?c')
    e = z3.simplify(zr(NP.rd(I, c)((i, j))))
    if z3.is_app(e) and e.decl().eq(f.ent) and e.arg(1).eq(i) and e.arg(2).eq(j):
        return e.arg(0)
    return None


def metric_stub(u, f, name, sym_f, kwcheck):
    def g(I, fn, a, k):
        names = [x.arg for x in fn.node.args.args]
        b = dict(zip(names, a))
        b.update(k)
        x, y = which(u, f, b[names[0]], f.n), which(u, f, b[names[1]], f.n)
        if x is None or y is None:
            raise Unsupported('a metric of other matrices')
        kwcheck(b)
        return S(sym_f(x, y), None, None, True)
    u.I.stubs[name] = g


def metric_fun(nm):
    m = z3.Function(nm, T.ObjS, T.ObjS, Real)
    T.SCHEMAS[nm] = lambda a: [a == m(a.arg(1), a.arg(0))]
    return m


@each('C19', [dict(metric=m) for m in ('corr', 'align')], 'sampling.pairwise_similarity')
def pairwise(u, metric):
    """callees by their contracts: correlation_km and alignment_centered are symmetric functions of the two matrices"""
    f = Family(u, lo=1)
    s = new_set(u, f)
    co, al = metric_fun('corr_of'), metric_fun('align0_of')

    def zero(b):
        v = b.get('value_if_zero_division', 'raise')
        if b.get('centered', False) is not False and 'centered' in b:
            u.never('alignment of the matrices as they are', repr(b))
        u.ensure('0 where a norm is zero', z3.BoolVal(not isinstance(v, str) and NP.is_num(v) and v == 0))
    metric_stub(u, f, 'sampling.correlation_km', co, lambda b: None)
    metric_stub(u, f, 'operations.alignment_centered', al, zero)
    m = co if metric == 'corr' else al
    r = u.returns('similarity', u.call('sampling.pairwise_similarity', s, metric=metric))
    u.array_is('similarity', r, (f.M, f.M), lambda i, j: m(f.mem(i), f.mem(j)))
    holds(u, s, f.M, f.mem, f.n, 'the bucket')


@unit('C19', 'sampling.pairwise_similarity')
def pairwise_default(u):
    f = Family(u, lo=1)
    s = new_set(u, f)
    co = metric_fun('corr_of')
    metric_stub(u, f, 'sampling.correlation_km', co, lambda b: None)
    r = u.returns('similarity', u.call('sampling.pairwise_similarity', s))
    u.array_is('similarity', r, (f.M, f.M), lambda i, j: co(f.mem(i), f.mem(j)))


@each('C19 C15', [dict(form=x) for x in ('array', 'integers', 'list', 'column')], 'sampling.ideal_kernel')
def ideal(u, form):
    n = u.size('n', 1)
    if form == 'column':
        y, Y0 = u.arr('y', n, 1)
        Y = lambda i: Y0(i, 0)
    else:
        y, Y = u.arr('y', n, dtype='i8' if form == 'integers' else 'f8', fixed=False)
    arg = u.I.new_list(Seq(n, lambda k: S(Y(zi(k)))) if not isinstance(n, int) else tuple(S(Y(k)) for k in range(n))) if form == 'list' else y
    r = u.returns('ideal kernel', u.call('sampling.ideal_kernel', arg))
    u.array_is('ideal kernel', r, (n, n), lambda i, j: Y(i) * Y(j))


@unit('C19', 'sampling.correlation_km')
def correlation(u):
    """pearsonr (assumed) is called with the corresponding entries of both, each once, and its coefficient returned"""
    n, m = u.size('n', 1), u.size('m', 1)
    A, a = u.arr('A', n, m)
    B, b = u.arr('B', n, m)
    rho = z3.Real('rho')

    def hook(I, args, k):
        if len(args) != 2 or k:
            raise Unsupported('pearsonr')
        i, j = u.idx(n), u.idx(m)
        for x, f, nm in ((args[0], a, 'first'), (args[1], b, 'second')):
            c = NP.cell(I, x)
            if c.ndim != 1:
                u.never('pearsonr of vectors')
            u.ensure('all entries of the %s' % nm, zi(c.shape[0]) == zi(n) * zi(m))
            from pyvc.extmodel import upair
            t = zi(upair(i, j, zi(m))) if u.sizes is None else i * zi(m) + j
            u.ctx.assume(AND(t >= 0, t < zi(n) * zi(m)))
            u.eq('entries of the %s in order' % nm, NP.rd(I, c)((t,)), f(i, j))
        return (S(rho, None, None, True), S(z3.Real('p_value'), None, None, True))
    u.I.pearson_hook = hook
    u.eq('correlation', u.returns('correlation', u.call('sampling.correlation_km', A, B)), rho)
    u.array_is('argument unchanged', A, (n, m), a)
    u.array_is('argument unchanged', B, (n, m), b)
