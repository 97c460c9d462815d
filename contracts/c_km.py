"""C01-C05, C06, C07, C23: KernelMatrix"""
from .lib import *
from .kmlib import KM
from . import c_ops

FN = ['base.KernelMatrix.' + f for f in (
    '__init__', 'attach_to', 'full', 'full_sparse', 'center', 'normalize', 'centered', 'normed_km', 'frob_norm', 'diagonal',
    '__getitem__', 'size', '__len__', 'num_samples')]


# ------------------------------------------------------------------ reads and their postconditions
def refused(km, nm, r):
    """normalization is impossible: some self-similarity is zero"""
    km.u.raises(nm, r, 'config.KMNormError')


def op_full(km):
    u = km.u
    r = u.attr(km.ref, 'full')
    if km.normalized and km.zero:
        return refused(km, 'full', r)
    u.array_is('full', u.returns('full', r), (km.n, km.m), km.nrm if km.normalized else km.K)


def op_sparse(km):
    u = km.u
    v = u.returns('full_sparse', u.attr(km.ref, 'full_sparse'))
    u.array_is('full_sparse', v, (km.n, km.m), lambda i, j: ITE(j >= i, km.K(i, j), z3.RealVal(0)), dense=False)


def op_normed(km):
    u = km.u
    r = u.attr(km.ref, 'normed_km')
    if km.zero:
        return refused(km, 'normed_km', r)
    u.array_is('normed_km', u.returns('normed_km', r), (km.n, km.m), km.nrm)


def op_normalize(km):
    u = km.u
    r = u.meth(km.ref, 'normalize')
    if r[0] == 'raise':
        if km.zero:
            return refused(km, 'normalize()', r)
        u.returns('normalize()', r)


def op_centered(km):
    u = km.u
    r = u.attr(km.ref, 'centered')
    if km.two:
        return u.raises('centered on two samples', r, 'config.KMAccessError', NotImplementedError)
    u.array_is('centered', u.returns('centered', r), (km.n, km.n), km.cen)


def op_center(km):
    u = km.u
    r = u.meth(km.ref, 'center')
    if km.two:
        return u.raises('center() on two samples', r, 'config.KMAccessError', NotImplementedError)
    u.returns('center()', r)


def op_frob(km):
    u = km.u
    u.eq('frob_norm', u.returns('frob_norm', u.attr(km.ref, 'frob_norm')), km.FN)


def op_diag(km):
    u = km.u
    if not km.two:
        km.guard = lambda i, j: i == j
    r = u.meth(km.ref, 'diagonal')
    if km.two:
        return u.raises('diagonal on two samples', r, 'config.KMAccessError')
    u.array_is('diagonal', u.returns('diagonal', r), (km.n,), lambda i: km.K(i, i))


def op_sizes(km):
    u = km.u
    u.same_int('size', u.returns('size', u.attr(km.ref, 'size')), zi(km.n) * zi(km.m))
    sh = u.returns('shape', u.attr(km.ref, 'shape'))
    if not isinstance(sh, tuple) or len(sh) != 2:
        return u.never('shape', repr(sh))
    u.same_int('shape', sh[0], km.n)
    u.same_int('shape', sh[1], km.m)
    ns = u.returns('num_samples', u.attr(km.ref, 'num_samples'))
    if km.two:
        if not isinstance(ns, tuple) or len(ns) != 2:
            return u.never('num_samples', repr(ns))
        u.same_int('num_samples', ns[0], km.n)
        u.same_int('num_samples', ns[1], km.m)
    else:
        u.same_int('num_samples', ns, km.n)


def getitem(km, ix):
    return km.u.attempt(lambda: km.u.I.getitem(km.ref, ix))


def either(km, inr, inc):
    """guard: pair of a requested row and a requested column (in either order on one sample)"""
    if km.two:
        return lambda i, j: AND(inr(i), inc(j))
    return lambda i, j: OR(AND(inr(i), inc(j)), AND(inr(j), inc(i)))


def op_element(km):
    u = km.u
    i, j = u.idx(km.n, 'row'), u.idx(km.m, 'col')
    km.guard = either(km, lambda a: a == i, lambda a: a == j)
    r = getitem(km, (S(i), S(j)))
    u.array_is('element', u.returns('element', r), (1, 1), lambda a, b: km.K(i, j))


def op_linear(km):
    u = km.u
    i, j = u.idx(km.n, 'row'), u.idx(km.m, 'col')
    km.guard = either(km, lambda a: a == i, lambda a: a == j)
    from pyvc.extmodel import upair
    k = zi(upair(i, j, zi(km.m))) if u.sizes is None else i * zi(km.m) + j
    u.ctx.assume(AND(k >= 0, k < zi(km.n) * zi(km.m)))        # of i*m + j
    r = getitem(km, S(k))
    u.array_is('element by linear index', u.returns('element by linear index', r), (1, 1), lambda a, b: km.K(i, j))


def op_rows(km):
    """a row range and one column"""
    u = km.u
    lo = u.idx(km.n, 'lo')
    hi = T.fresh('any_hi', Int)
    j = u.idx(km.m, 'col')
    u.ctx.assume(AND(lo < hi, hi <= zi(km.n)))
    km.guard = either(km, lambda a: AND(a >= lo, a < hi), lambda a: a == j)
    r = getitem(km, (SliceV(S(lo), S(hi), None), S(j)))
    u.array_is('rows of a column', u.returns('rows of a column', r), (hi - lo, 1), lambda a, b: km.K(a + lo, j))


def op_all(km):
    u = km.u
    r = getitem(km, (SliceV(None, None, None), SliceV(None, None, None)))
    u.array_is('all elements', u.returns('all elements', r), (km.n, km.m), km.K)


def with_zero(op, z):
    f = lambda km: op(km)
    f.zero = z
    return f


READS = dict(full=op_full, full_sparse=op_sparse, normed_km=op_normed, normalize=op_normalize, centered=op_centered, center=op_center,
             frob_norm=op_frob, diagonal=op_diag, sizes=op_sizes, element=op_element, linear=op_linear, rows=op_rows, all=op_all)


def reads(km, only=None):
    """the reads; those that normalize come twice: all self-similarities positive, and some of them zero"""
    d = {}
    for nm, op in READS.items():
        if only and nm not in only or nm == 'full_sparse' and (km.normalized or km.two):
            continue
        if nm in ('normed_km', 'normalize') or nm == 'full' and km.normalized:
            d[nm] = with_zero(op, False)
            d[nm + '/zero'] = with_zero(op, True)
        else:
            d[nm] = op
    return d


# ------------------------------------------------------------------ index access (C03)
def int_list(u, name, n, bad=None):
    """a list of any length of any integers below n -> (list, its sequence, predicate true of its elements)"""
    L = u.size('len_' + name, 1)
    f = z3.Function('el_' + name, Int, Int)
    P = z3.Function('in_' + name, Int, Bool)
    u.ctx.assume_all(1, lambda t: IMP(AND(t >= 0, t < zi(L)), AND(f(t) >= 0, f(t) < zi(n), P(f(t)))))
    if isinstance(L, int):
        for t in range(L):
            u.ctx.assume(AND(f(t) >= 0, f(t) < zi(n), P(f(t))))
        seq = tuple(S(f(t)) for t in range(L))
        return u.I.new_list(seq), seq, P
    seq = Seq(L, lambda k: S(f(zi(k))))
    m, g = distinct(u, seq)
    u.assume_note('lemma: n distinct integers below n, in ascending order, are 0..n-1')
    u.ctx.assume_all(1, lambda a: IMP(AND(zi(m) == zi(n), a >= 0, a < zi(n)), AND(g(a) == a, P(a))))
    return u.I.new_list(seq), seq, P


def distinct(u, seq):
    """the sorted distinct elements: (count, element function)"""
    if isinstance(seq, tuple):
        from pyvc import extmodel
        r = u.I.to_seq(extmodel.b_sorted(u.I, [u.I.new_list(seq, 'set')], {}))
        return len(r), lambda k: zi(u.I.seq_at(r, S(zi(k))))
    s = NP.sorted_set(u.I, seq)
    return s.n, lambda k: zi(s.get(zi(k)))


def op_lists(km):
    """two lists of integers in any order, with any repetitions"""
    u = km.u
    a, sa, P = int_list(u, 'rows', km.n)
    b, sb, Q = int_list(u, 'cols', km.m)
    km.guard = either(km, P, Q)
    r = u.returns('sub-matrix of lists', getitem(km, (a, b)))
    (n1, g1), (n2, g2) = distinct(u, sa), distinct(u, sb)
    u.array_is('sub-matrix of lists', r, (n1, n2), lambda i, j: km.K(g1(i), g2(j)))


def op_list_int(km):
    u = km.u
    b, sb, Q = int_list(u, 'cols', km.m)
    i = u.idx(km.n, 'row')
    km.guard = either(km, lambda a: a == i, Q)
    r = u.returns('row at a list of columns', getitem(km, (S(i), b)))
    n2, g2 = distinct(u, sb)
    u.array_is('row at a list of columns', r, (1, n2), lambda p, q: km.K(i, g2(q)))


def slice_op(step):
    def op(km):
        """rows by a slice with step, any start and stop"""
        u = km.u
        j = u.idx(km.m, 'col')
        lo, hi = T.fresh('start', Int), T.fresh('stop', Int)
        n = zi(km.n)
        sl = SliceV(S(lo), S(hi), step)
        c = lambda x: z3.If(x < 0, x + n, x)
        if step > 0:
            a, b = (z3.If(c(x) < 0, z3.IntVal(0), z3.If(c(x) > n, n, c(x))) for x in (lo, hi))
            cnt = z3.If(b > a, (b - a + step - 1) / step, z3.IntVal(0))
            el = lambda t: a + t * step
        else:
            a, b = (z3.If(c(x) < -1, z3.IntVal(-1), z3.If(c(x) > n - 1, n - 1, c(x))) for x in (lo, hi))
            cnt = z3.If(a > b, (a - b - step - 1) / (-step), z3.IntVal(0))
            el = lambda t: a + (cnt - 1 - t) * step
        r = getitem(km, (sl, S(j)))
        nm = 'slice with step %d' % step
        if u.ctx.decide(cnt <= 0):
            return u.raises('empty ' + nm, r, 'config.KMAccessError')
        u.array_is(nm, u.returns(nm, r), (cnt, 1), lambda t, q: km.K(el(t), j))
    return op


def op_slices_full(km):
    """a column range of all rows"""
    u = km.u
    lo = u.idx(km.m, 'lo')
    r = getitem(km, (SliceV(None, None, None), SliceV(S(lo), None, None)))
    u.array_is('columns from lo on', u.returns('columns from lo on', r), (km.n, zi(km.m) - lo), lambda a, b: km.K(a, b + lo))


def op_refused(km):
    """selections that must be refused"""
    u = km.u
    i, j = u.idx(km.n, 'row'), u.idx(km.m, 'col')
    km.guard = lambda a, b: z3.BoolVal(False)
    E = 'config.KMAccessError'
    k = u.ctx.choose(10)
    out = T.fresh('out', Int)
    if k == 0:
        u.ctx.assume(OR(out < 0, out >= zi(km.n)))
        u.raises('row out of range', getitem(km, (S(out), S(j))), E)
    elif k == 1:
        u.ctx.assume(OR(out < 0, out >= zi(km.m)))
        u.raises('column out of range', getitem(km, (S(i), S(out))), E)
    elif k == 2:
        # one bad element anywhere in a list
        L, p = u.size('len_bad', 1), T.fresh('at', Int)
        f = z3.Function('el_bad', Int, Int)
        u.ctx.assume(AND(p >= 0, p < zi(L), OR(f(p) < 0, f(p) >= zi(km.n))))
        lst = u.I.new_list(Seq(L, lambda t: S(f(zi(t)))) if not isinstance(L, int) else tuple(S(f(t)) for t in range(L)))
        u.raises('list with an index out of range', getitem(km, (lst, S(j))), E)
    elif k == 3:
        bad = [1.0, 'a', None, u.I.new_list(()), (), '01', u.real('r')][u.ctx.choose(7)]
        u.raises('invalid row selection', getitem(km, (bad, S(j))), E)
    elif k == 4:
        bad = [1.0, 'a', None, u.I.new_list(()), (), '01', u.real('r')][u.ctx.choose(7)]
        u.raises('invalid column selection', getitem(km, (S(i), bad)), E)
    elif k == 5:
        bad = [(), (S(i),), (S(i), S(j), S(i)), 'ab', None, 1.0, u.I.new_list((S(i), S(j), S(j)))][u.ctx.choose(7)]
        u.raises('not two parts', getitem(km, bad), E)
    elif k == 6:
        lst = u.I.new_list((S(i), [1.5, 'x', None][u.ctx.choose(3)]))
        u.raises('list with something else than integers', getitem(km, (lst, S(j))), E)
    elif k == 7:
        u.ctx.assume(OR(out < 0, out >= zi(km.n) * zi(km.m)))
        u.raises('linear index out of range', getitem(km, S(out)), E, ValueError, IndexError)
    elif k == 8:
        u.raises('empty slice', getitem(km, (SliceV(S(i), S(i), None), S(j))), E)
    else:
        u.raises('slice of floats', getitem(km, (SliceV(0.5, None, None), S(j))), E, TypeError)


INDEX = dict(element=op_element, linear=op_linear, rows=op_rows, all=op_all, lists=op_lists, list_int=op_list_int, refused=op_refused,
             columns=op_slices_full, step1=slice_op(1), step2=slice_op(2), back1=slice_op(-1))


CONF = [dict(two=t, normalized=z) for t in (False, True) for z in (False, True)]


@each('C01', CONF[0::2], *FN)
def km_full(u, two, normalized):
    km = KM(u, two, normalized)
    km.construct()
    if u.sizes is None:
        km.generalize()
    op_full(km)


@each('C02 C05', CONF, *FN)
def km_reads(u, two, normalized):
    km = KM(u, two, normalized)
    km.construct()
    km.closure(reads(km))


@each('C01', CONF[0::2], *FN)
def km_dense(u, two, normalized):
    """the dense matrix after any reads of elements, the whole and the dense matrix"""
    km = KM(u, two, normalized)
    km.construct()
    km.closure(reads(km, ('full', 'full_sparse', 'element', 'all')))


@each('C06', CONF, *FN)
def km_normed(u, two, normalized):
    """the normalized matrix, after any reads of it and of the matrix"""
    km = KM(u, two, normalized)
    km.counting = False
    km.construct()
    ops = reads(km, ('full', 'normed_km', 'normalize', 'element'))
    if u.sizes is not None:
        km.histories(ops, 1)
    else:
        km.closure(ops)


@each('C07', CONF, *FN)
def km_centered(u, two, normalized):
    """the centered matrix, after any reads of it, of the matrix and of the normalized matrix"""
    km = KM(u, two, normalized)
    km.counting = False
    km.construct()
    ops = reads(km, ('full', 'normalize', 'centered', 'center'))
    if u.sizes is not None:
        km.histories(ops, 1)
    else:
        km.closure(ops)


@each('C03', CONF, *FN)
def km_index(u, two, normalized):
    km = KM(u, two, normalized)
    km.construct()
    d = dict(INDEX)
    d.update(reads(km, ('full', 'full_sparse', 'normalize')))
    km.closure(d)


# ------------------------------------------------------------------ new data (C04)
class Quiet:
    """reads without their postconditions, which are other properties'"""

    def __init__(self, u):
        self.u_ = u

    def __getattr__(self, nm):
        return getattr(self.u_, nm)

    def returns(self, nm, r):
        return r[1] if r[0] == 'ret' else None

    def nothing(self, *a, **k):
        return None
    array_is = eq = same_int = raises = never = ensure = nothing


def quiet(ops):
    def q(op):
        def f(km):
            u = km.u
            km.u = Quiet(u)
            try:
                op(km)
            finally:
                km.u = u
        if hasattr(op, 'zero'):
            f.zero = op.zero
        return f
    return {nm: q(op) for nm, op in ops.items()}


def quiet_reads(km):
    d = reads(km)
    d.pop('sizes')
    return quiet(d)


def same_value(u, v, w):
    """the same value, or indistinguishable"""
    ctx = u.ctx
    if isinstance(v, Ref) and isinstance(w, Ref):
        if v.a == w.a:
            return True
        a, b = ctx.get(v), ctx.get(w)
        return isinstance(a, DCell) and isinstance(b, DCell) and a.sym is None and b.sym is None and not a.items and not b.items
    if isinstance(v, tuple) and isinstance(w, tuple):
        return len(v) == len(w) and all(same_value(u, x, y) for x, y in zip(v, w))
    if isinstance(v, (S, SStr)) and isinstance(w, (S, SStr)):
        return v.e.sort() == w.e.sort() and ctx.simple_prove(v.e == w.e)
    if v is w:
        return True
    return type(v) is type(w) and isinstance(v, (str, int, float, bool)) and v == w


def differences(u, ref, ref2):
    f, g = u.ctx.get(ref).fields, u.ctx.get(ref2).fields
    return sorted(nm for nm in set(f) | set(g) if nm not in f or nm not in g or not same_value(u, f[nm], g[nm]))


def tagged(u, ref):
    u.returns('set_attr', u.meth(ref, 'set_attr', 'note', Opq(z3.Const('note', T.ObjS))))


def untagged(u, ref):
    """no user attributes"""
    d = Opq(z3.Const('fallback', T.ObjS))
    u.ensure('user attributes are gone', z3.BoolVal(u.returns('get_attr', u.meth(ref, 'get_attr', 'note', d)) is d))
    r = u.returns('attributes()', u.meth(ref, 'attributes'))
    c = u.ctx.get(r) if isinstance(r, Ref) else None
    u.ensure('no attributes', z3.BoolVal(isinstance(c, DCell) and c.sym is None and not c.items))


def after_attach(B, A):
    """attach the object of A to the data of B"""
    u = B.u
    tagged(u, A.ref)
    B.attach(A.ref)
    untagged(u, A.ref)
    op_sizes_of(B, A.ref)


def op_sizes_of(km, ref):
    km.ref, keep = ref, getattr(km, 'ref', None)
    op_sizes(km)
    km.ref = keep if keep is not None else ref


def mismatched(u):
    """two samples of different dimensionality"""
    n, m, d, e = u.size('nP', 1), u.size('mQ', 1), u.size('dP', 1), u.size('dQ', 1)
    if isinstance(d, int):
        e = d + 1
    else:
        u.ctx.assume(zi(d) != zi(e))
    return u.arr('P', n, d)[0], u.arr('Q', m, e)[0]


def after_refusal(A, P, Q):
    """an attach that is refused changes nothing"""
    u = A.u
    tagged(u, A.ref)
    u.raises('samples of different dimensionality', u.meth(A.ref, 'attach_to', P, sample_two=Q), ValueError)
    d = Opq(z3.Const('fallback', T.ObjS))
    u.ensure('user attributes are kept', z3.BoolVal(is_note(u.returns('get_attr', u.meth(A.ref, 'get_attr', 'note', d)))))


def is_note(r):
    return isinstance(r, Opq) and r.e.eq(z3.Const('note', T.ObjS))


@each('C04', CONF, *FN)
def km_reattach(u, two, normalized):
    """new data, from every state reads can leave: the object is as a new one, up to attributes no read of the new data can see"""
    ctx = u.ctx
    A = KM(u, two, normalized)
    A.counting = False
    A.construct()
    Bs = []
    for t in (False, True):
        B = KM(u, t, normalized, tag='AB'[t], kernel=A.kernel)
        B.counting = False
        new = u.returns('construction', u.call('base.KernelMatrix', A.kernel, normalized=normalized))
        B.attach(new)
        Bs.append((B, new))
    P, Q = mismatched(u)
    ops = reads(A)
    if u.sizes is not None:
        left = A.histories(quiet_reads(A), 0)
        seen = set()
        for st, pc, facts, imp in left:
            def refusal():
                ctx.store = dict(st)
                ctx.pc += pc
                ctx.facts += facts
                ctx.imprecise += imp
                f = dict(ctx.get(A.ref).fields)
                after_refusal(A, P, Q)
                g = ctx.get(A.ref).fields
                d = tuple(sorted((nm, nm in g) for nm in set(f) | set(g) if nm not in f or nm not in g or not same_value(u, f[nm], g[nm])))
                if d and d not in seen:
                    seen.add(d)
                    A.histories(ops, 0)
                return 'done', None
            ctx.explore(refusal, memo=False)
        for B, new in Bs:
            seen = set()
            for st, pc, facts, imp in left:
                def thunk():
                    ctx.store = dict(st)
                    ctx.pc += pc
                    ctx.facts += facts
                    ctx.imprecise += imp
                    after_attach(B, A)
                    d = tuple((nm, str(ctx.get(A.ref).fields.get(nm))[:60]) for nm in differences(u, A.ref, new))
                    if d and d not in seen:
                        seen.add(d)
                        B.ref = A.ref
                        B.histories(reads(B), 0)
                    return 'done', None
                ctx.explore(thunk, memo=False)
        return
    states = A.closure(quiet_reads(A))

    def refusal(key):
        def thunk():
            A.concretize(key)
            ctx.imprecise.append('abstract state')
            after_refusal(A, P, Q)
            if A.attr_addr is not None:
                ctx.store[A.attr_addr] = A.store0[A.attr_addr]
            try:
                if A.abstract() == key:
                    return 'done', None
            except Unsupported:
                pass
            nm = sorted(ops)[ctx.choose(len(ops))]
            if not (getattr(ops[nm], 'zero', False) and any(lb[:2] == ('arr', 'norm') for _, lb in key)):
                A.assume_zero(getattr(ops[nm], 'zero', None))
                ops[nm](A)
            return 'done', None
        ctx.explore(thunk, memo=False)
    u.parallel(refusal, list(states), lambda found: None)
    for B, new in Bs:
        stale = {}

        def one(key):
            def thunk():
                A.concretize(key)
                ctx.imprecise.append('abstract state')
                after_attach(B, A)
                d = differences(u, A.ref, new)
                return 'next', tuple((nm, dict(key).get(nm, ('same',)), nm in ctx.get(A.ref).fields) for nm in d)
            return [(o.value, key) for o in ctx.explore(thunk, memo=False)]

        def take(found):
            for v, key in found:
                stale.setdefault(v, key)
        u.parallel(one, list(states), take)
        for v, key in sorted(stale.items()):
            if not v:
                continue

            def rest(key=key):
                A.concretize(key)
                ctx.imprecise.append('abstract state')
                B.attach(A.ref)
                B.ref = A.ref
                B.closure(reads(B))
                return 'done', None
            ctx.explore(rest, memo=False)
    u.assume_note('C04: an object with the attributes of a freshly attached one reads as such (C02)')


# ------------------------------------------------------------------ failing kernels, non-finite values (C23)
def failing(op, *exc):
    """the read while the kernel raises for some pairs: an error (RuntimeError for the matrix), or the right values"""
    def f(km):
        u = km.u
        km.kernel.failing = True
        try:
            km.u = Failing(u, exc)
            try:
                op(km)
            except Refused:
                pass
        finally:
            km.u = u
            km.kernel.failing = False
    if hasattr(op, 'zero'):
        f.zero = op.zero
    return f


class Refused(Exception):
    pass


class Failing:
    def __init__(self, u, exc):
        self.u_, self.exc = u, exc

    def __getattr__(self, nm):
        return getattr(self.u_, nm)

    def returns(self, nm, r):
        if r[0] == 'raise':
            if self.exc:
                self.u_.raises(nm + ' with a failing kernel', r, *self.exc)
            raise Refused()
        return self.u_.returns(nm, r)


def op_normalize_any(km):
    km.u.returns('normalize()', km.u.meth(km.ref, 'normalize'))


@each('C23', CONF, *FN, 'base.KernelMatrix._populate_fully')
def km_failing(u, two, normalized):
    """reads with working and failing kernels, in any order"""
    km = KM(u, two, normalized)
    km.counting = False
    km.partial = True
    km.construct()
    only = ('full', 'full_sparse', 'normed_km', 'frob_norm', 'element', 'all', 'diagonal', 'centered')
    d = {nm: op for nm, op in reads(km, only).items() if not nm.endswith('/zero')}
    if two:
        d.pop('centered')
        d.pop('diagonal')
    km.closure({**d, **{nm + '/failing': failing(op, *(RuntimeError,) if nm in ('full', 'full_sparse') else ()) for nm, op in d.items()}})


def has_warned(u):
    W = u.get('config.KernelMethodsWarning')
    return any(e[0] == 'warn' and subclass(e[1], W) for e in u.ctx.store.get('log', ()))


@each('C23', [dict(two=t, normalized=z, read=r) for t in (False, True) for z in (False, True) for r in ('full', 'normed_km', 'full_sparse', 'all', 'normalize') if not (t and r == 'full_sparse')],
      *FN, 'base.KernelMatrix._populate_fully', 'utils.contains_nan_inf')
def km_warns(u, two, normalized, read):
    """a matrix with NaN or infinite entries is not computed without a warning"""
    km = KM(u, two, normalized)
    km.counting, km.wild = False, True
    u.I.nan_arrays = True
    km.construct()
    if u.sizes is None:
        km.generalize()
    def run():
        u.ctx.store['log'] = ()
        sl = SliceV(None, None, None)
        r = {'full': lambda: u.attr(km.ref, 'full'), 'normed_km': lambda: u.attr(km.ref, 'normed_km'), 'full_sparse': lambda: u.attr(km.ref, 'full_sparse'),
             'all': lambda: getitem(km, (sl, sl)), 'normalize': lambda: u.meth(km.ref, 'normalize')}[read]()
        u.returns(read, r)
        if has_warned(u):
            u.ensure('a warning', z3.BoolVal(True))
            return 'done', None
        i, j = u.idx(km.n, 'i'), u.idx(km.m, 'j')
        if not two:
            u.ctx.assume(i <= j)        # symmetric
        u.ensure('no warning only if all kernel values are finite', NOT(OR(*km.wildness('XY' if two else 'XX', i, j, True))))
        if read in ('normed_km', 'normalize') or normalized and read in ('full', 'full_sparse'):
            u.ensure('no warning only if all normalized values are finite', NOT(OR(*[z3.Function(f + '_norm', Int, Int, Bool)(i, j) for f in ('nan', 'inf')])))
        return 'done', None
    u.ctx.explore(run, memo=False)


@each('C23', [dict(form=f) for f in ('dense', 'sparse', 'row', 'cube')], 'utils.contains_nan_inf')
def nan_inf(u, form):
    """true exactly if some entry is NaN or infinite"""
    shape = [u.size(x, 1) for x in 'nmk'[:{'row': 1, 'cube': 3}.get(form, 2)]]
    D = [Int] * len(shape)
    v, nan, inf = z3.Function('v', *D, Real), z3.Function('vnan', *D, Bool), z3.Function('vinf', *D, Bool)
    fl = lambda ix: (nan(*ix), AND(inf(*ix), NOT(nan(*ix))))
    a = u.ctx.alloc(ACell(tuple(shape), 'f8', lambda ix: S(v(*map(zi, ix)), *fl([zi(x) for x in ix]), True), sparse='lil' if form == 'sparse' else None))
    r = u.returns('contains_nan_inf', u.call('utils.contains_nan_inf', a))
    if not u.I.truth(r):
        ix = [u.idx(n, 'i%d' % k) for k, n in enumerate(shape)]
        u.ensure('False only without NaN and infinite entries', NOT(OR(*fl(ix))))
    else:
        u.ctx.assume_all(len(shape), lambda *ix: IMP(NP.rng(ix, shape), NOT(OR(*fl(ix)))))
        u.ensure('True only with a NaN or infinite entry', z3.BoolVal(False))
