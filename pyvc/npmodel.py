"""Assumed contracts of numpy / scipy.sparse operations, over exact reals.

Arrays are (shape, dtype, element function).  Real numpy is used for dtype logic and for calls whose
arguments are all concrete.  Anything not modelled raises Unsupported.
"""
import ast
from fractions import Fraction
import numpy as np
import z3
from . import terms as T
from .terms import S, Unsupported, Int, Real, Bool, StrS, ObjS, AND, OR, NOT, ITE, IMP, zb, zi, zr
from .core import Ref, PyExc, ExcVal, Infeasible
from .values import *

NUMS = (int, float, Fraction)
F8 = np.dtype('f8')
I8 = np.dtype('i8')
B1 = np.dtype(bool)


def _exc(cls, *a):
    return PyExc(ExcVal(cls, a))


def rd(I, c):
    """element function of the array as of now (views read their base)"""
    if isinstance(c, Ref):
        c = I.ctx.get(c)
    if c.view is None:
        return c.elem
    be = rd(I, I.ctx.get(Ref(c.view)))
    vm = c.meta['vmap']
    return lambda idx: be(vm(idx))


def mk(I, shape, dtype, elem, **kw):
    return I.ctx.alloc(ACell(shape, dtype, elem, **kw))


def view(I, base, shape, vmap, dtype=None):
    c = I.ctx.get(base)
    return I.ctx.alloc(ACell(shape, dtype or c.dtype, None, view=base.a,
                             meta=dict(vmap=vmap, **{k: v for k, v in c.meta.items() if k in ('fixed',)})))


def cell(I, v):
    return I.ctx.get(v)


def is_arr(I, v):
    return isinstance(v, Ref) and isinstance(I.ctx.get(v), ACell)


def is_num(v):
    return isinstance(v, (S,) + NUMS)


def dtype_of_scalar(v):
    if isinstance(v, bool):
        return B1
    if isinstance(v, int):
        return I8
    if isinstance(v, (float, Fraction)):
        return F8
    if isinstance(v, S):
        s = v.e.sort()
        return B1 if s == Bool else I8 if s == Int else F8
    if isinstance(v, (str, SStr)):
        return np.dtype('U8')
    return np.dtype(object)


def as_dtype(d):
    if d is None:
        return None
    if isinstance(d, np.dtype):
        return d
    try:
        return np.dtype(d)
    except TypeError as e:
        raise _exc(TypeError, str(e))
    except Unsupported:
        raise
    except Exception:
        raise Unsupported('dtype %r' % (d,))


def to_array(I, v, dtype=None, copy=False):
    """np.asarray"""
    dt = as_dtype(dtype)
    if is_arr(I, v):
        c = cell(I, v)
        if c.sparse:
            raise Unsupported('asarray of sparse')
        if dt is not None and dt != c.dtype:
            return astype(I, v, dt)
        if copy:
            return mk(I, c.shape, c.dtype, rd(I, c), meta=keepmeta(c))
        return v
    if isinstance(v, ExtObj) and hasattr(v, 'array_'):
        return v.array_(I)
    if is_num(v) or isinstance(v, (str, SStr, np.generic)):
        if isinstance(v, np.generic):
            v = v.item()
        return mk(I, (), dt or dtype_of_scalar(v), lambda idx: cast(v, dt))
    if v is None or isinstance(v, (Opq, ExtObj)):
        return mk(I, (), np.dtype(object), lambda idx: v)
    if isinstance(v, Ref) and isinstance(cell(I, v), OCell):
        return mk(I, (), np.dtype(object), lambda idx: v)
    if isinstance(v, Ref) and isinstance(cell(I, v), (DCell,)):
        return mk(I, (), np.dtype(object), lambda idx: v)
    if isinstance(v, SliceV) or isinstance(v, Gen):
        return mk(I, (), np.dtype(object), lambda idx: v)
    if isinstance(v, Ref) and cell(I, v).kind == 'set':
        return mk(I, (), np.dtype(object), lambda idx: v)
    s = I.to_seq(v)
    n = len(s) if isinstance(s, tuple) else s.n
    if isinstance(n, int):
        items = [I.seq_at(s, k) for k in range(n)]
        if all(is_num(x) or isinstance(x, (str, SStr, np.generic)) for x in items):
            items = [x.item() if isinstance(x, np.generic) else x for x in items]
            d = dt or (np.result_type(*[dtype_of_scalar(x) for x in items]) if items else F8)
            if any(isinstance(x, (str, SStr)) for x in items) and not all(isinstance(x, (str, SStr)) for x in items) and dt is None:
                raise Unsupported('array of mixed strings and numbers')
            items = [cast(x, d) for x in items]
            return mk(I, (n,), d, lambda idx: pick(items, idx[0]))
        subs = [to_array(I, x, dt) for x in items]
        cs = [cell(I, x) for x in subs]
        if len(set(c.ndim for c in cs)) == 1 and all(c.ndim > 0 for c in cs):
            for c in cs[1:]:
                for a, b in zip(c.shape, cs[0].shape):
                    if not same_dim(I, a, b):
                        raise _exc(ValueError, 'inhomogeneous shape')
            els = [rd(I, c) for c in cs]
            d = np.result_type(*[c.dtype for c in cs])
            return mk(I, (n,) + cs[0].shape, d, lambda idx: pick_fn([(lambda e=e: e(idx[1:])) for e in els], idx[0]))
        if all(c.dtype == object for c in cs) and all(c.ndim == 0 for c in cs):
            return mk(I, (n,), np.dtype(object), lambda idx: items[idx[0]] if isinstance(idx[0], int) else _unsup('object array'))
        raise Unsupported('array from nested data')
    # symbolic length
    ph = T.fresh('k', Int)
    I.ctx.pc.append(AND(ph >= 0, ph < zi(n)))
    try:
        x = s.get(ph)
    finally:
        I.ctx.pc.pop()
    if is_num(x) or isinstance(x, SStr):
        d = dt or dtype_of_scalar(x)
        c = ACell((n,), d, lambda idx: cast(s.get(idx[0]), d))
        if s.grid is not None:
            c.meta['grid'] = s.grid
        return I.ctx.alloc(c)
    raise Unsupported('array from a symbolic sequence of %r' % (x,))


def _unsup(m):
    raise Unsupported(m)


def keepmeta(c):
    return {k: v for k, v in c.meta.items() if k in ('fixed', 'grid', 'ixset', 'filt')}


def pick(items, k):
    return pick_fn([(lambda x=x: x) for x in items], k)


def pick_fn(items, k):
    from .interp import merge_val
    k = simp_int(k)
    if isinstance(k, int):
        return items[k]()
    if not items:
        return S(T.fresh('empty', Real))
    r = items[-1]()
    for i in range(len(items) - 2, -1, -1):
        r = merge_val(zi(k) == i, items[i](), r)
    return r


rnd32 = z3.Function('rounded_to_float32', Real, Real)


def _rnd32(a):
    x = a.arg(0)
    return [IMP(AND(z3.IsInt(x), x <= 2 ** 24, x >= -2 ** 24), a == x), rnd32(a) == a]


T.SCHEMAS['rounded_to_float32'] = _rnd32


def narrow(v):
    """conversion to single precision (or less): the one rounding that is not neglected"""
    if isinstance(v, S):
        if z3.is_app(v.e) and v.e.decl().eq(rnd32):
            return v
        return S(rnd32(zr(v)), v.nan, v.inf, True)
    if isinstance(v, (float, Fraction)) and Fraction(float(np.float32(float(v)))) != Fraction(v):
        return S(rnd32(zr(v)), None, None, True)
    return v


def cast(v, d):
    """value conversion by dtype (within an array)"""
    if d is not None and d.kind == 'f' and d.itemsize < 8 and is_num(v) and not (isinstance(v, float) and (v != v or abs(v) == float('inf'))):
        return narrow(cast(v, F8))
    if d is None:
        return v
    if isinstance(v, np.generic):
        v = v.item()
    if d.kind == 'f' and is_num(v):
        if isinstance(v, S):
            return S(zr(v), v.nan, v.inf, True) if v.e.sort() != Real or not v.np else v
        return v if isinstance(v, (float, Fraction)) else Fraction(int(v))
    if d.kind in 'iu' and is_num(v):
        if isinstance(v, S):
            s = v.e.sort()
            if s == Int:
                return v
            if s == Bool:
                return S(zi(v))
            return S(trunc(v.e))
        return int(v)
    if d.kind == 'b' and is_num(v):
        if isinstance(v, S):
            return v if v.e.sort() == Bool else wrap(v.e != 0)
        return bool(v)
    return v


def trunc(e):
    return z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))


def same_dim(I, a, b):
    a, b = simp_int(a), simp_int(b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if T.isz(a) and T.isz(b) and a.eq(b):
        return True
    return I.ctx.decide(zi(a) == zi(b))


def astype(I, a, dt, copy=True):
    c = cell(I, a)
    dt = as_dtype(dt)
    e = rd(I, c)
    m = {k: v for k, v in keepmeta(c).items() if k != 'fixed'}
    if c.dtype.kind == 'U' and dt.kind in 'fiu' or (c.dtype.kind == 'O' and dt.kind in 'fiu'):
        if c.dtype.kind == 'O' and c.meta.get('objnum'):
            pass
        ok = T.fresh('convertible', Bool)
        if getattr(I, 'unconvertible', False) or not I.ctx.decide(ok):
            raise _exc(ValueError if c.dtype.kind == 'U' or I.ctx.choose(2) == 0 else TypeError, 'could not convert')
        f = z3.Function(T.fresh_name('conv'), *[Int] * c.ndim, Real)
        return mk(I, c.shape, dt, lambda idx: S(f(*[zi(x) for x in idx]), None, None, True), meta=m)
    if c.dtype.kind in 'fiub' and dt.kind in 'fiub':
        if dt.kind in 'iu' and c.dtype.kind in 'iu':
            m['fixed'] = c.meta.get('fixed', False)
        return mk(I, c.shape, dt, lambda idx: cast(e(idx), dt), meta=m)
    if dt == c.dtype or (dt.kind == c.dtype.kind and dt.kind in 'UO'):
        return mk(I, c.shape, dt, e, meta=m)
    if dt.kind == 'O':
        return mk(I, c.shape, dt, e, meta=m)
    if c.dtype.kind in 'fiub' and dt.kind == 'U':
        f = z3.Function(T.fresh_name('tostr'), *[Int] * c.ndim, StrS)
        return mk(I, c.shape, dt, lambda idx: SStr(f(*[zi(x) for x in idx])), meta=m)
    raise Unsupported('astype %s -> %s' % (c.dtype, dt))


# ---------------------------------------------------------------- elementwise
def bshape(I, shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for d in range(nd):
        dims = []
        for s in shapes:
            k = d - (nd - len(s))
            if k >= 0:
                dims.append(s[k])
        cur = 1
        for x in dims:
            if isinstance(x, int) and x == 1:
                continue
            if isinstance(cur, int) and cur == 1:
                cur = x
                continue
            if isinstance(cur, int) and isinstance(x, int):
                if cur != x:
                    raise _exc(ValueError, 'operands could not be broadcast together')
                continue
            if T.isz(cur) and T.isz(x) and cur.eq(x):
                continue
            if I.ctx.decide(zi(cur) == zi(x)):
                continue
            if T.isz(x) and I.ctx.decide(zi(x) == 1):
                continue
            if T.isz(cur) and I.ctx.decide(zi(cur) == 1):
                cur = x
                continue
            raise _exc(ValueError, 'operands could not be broadcast together')
        out.append(cur)
    return tuple(out)


def bindex(I, shape, out_shape):
    """index map from the broadcast shape to the argument's shape"""
    nd = len(out_shape)
    off = nd - len(shape)
    sel = []
    for k, s in enumerate(shape):
        o = out_shape[off + k]
        if isinstance(s, int) and s == 1 and not (isinstance(o, int) and o == 1):
            sel.append(None)
        elif T.isz(s) and T.isz(o) and s.eq(o) or (isinstance(s, int) and isinstance(o, int) and s == o):
            sel.append(off + k)
        else:
            # symbolic equality was decided on this path
            sel.append((off + k, s))

    def m(idx):
        r = []
        for x in sel:
            if x is None:
                r.append(0)
            elif isinstance(x, tuple):
                i = idx[x[0]]
                r.append(simp_int(z3.If(zi(x[1]) == 1, z3.IntVal(0), zi(i))))
            else:
                r.append(idx[x])
        return tuple(r)
    return m


_wrapf = z3.Function('int_wraparound', Int, Int)


def elementwise(I, f, *args, dtype=None):
    arrs = []
    for a in args:
        if is_arr(I, a):
            arrs.append(a)
        elif is_num(a) or isinstance(a, (str, SStr, Opq, np.generic)) or a is None:
            arrs.append(None)
        elif isinstance(a, (tuple, Seq)) or (isinstance(a, Ref) and isinstance(cell(I, a), LCell)):
            arrs.append(to_array(I, a))
        elif isinstance(a, Ref) and isinstance(cell(I, a), OCell):
            raise Unsupported('array operation with an object')
        else:
            raise Unsupported('array operation with %r' % (a,))
    cs = [cell(I, a) if a is not None else None for a in arrs]
    for c in cs:
        if c is not None and c.sparse:
            raise Unsupported('arithmetic on sparse matrices')
    filt = [c.meta['filt'] for c in cs if c is not None and 'filt' in c.meta]
    if filt:
        if any(c is not None and 'filt' not in c.meta and c.ndim > 0 for c in cs):
            raise Unsupported('filtered array mixed with another')
        if any(x[2] != filt[0][2] for x in filt):
            raise Unsupported('arrays filtered by different masks')
        shape = cs[[i for i, c in enumerate(cs) if c is not None and 'filt' in c.meta][0]].shape
        maps = [None if c is None else (lambda idx: idx) if c.ndim else (lambda idx: ()) for c in cs]
    else:
        shape = bshape(I, [c.shape if c is not None else () for c in cs])
        maps = [bindex(I, c.shape, shape) if c is not None else None for c in cs]
    els = [rd(I, c) if c is not None else None for c in cs]

    def elem(idx):
        vals = [els[i](maps[i](idx)) if els[i] is not None else args[i] for i in range(len(args))]
        return f(*vals)
    if dtype is None:
        ds = [c.dtype if c is not None else dtype_of_scalar(a) for c, a in zip(cs, args)]
        # python scalars are weak
        strong = [c.dtype for c in cs if c is not None]
        d = np.result_type(*strong) if strong else np.result_type(*ds)
        for c, x in zip(cs, ds):
            if c is None and x.kind == 'f' and d.kind in 'iub':
                d = F8
            if c is None and x.kind == 'i' and d.kind == 'b':
                d = I8
        dtype = d
    fixed = any(c is not None and c.meta.get('fixed') for c in cs)
    meta = {}
    if filt:
        meta['filt'] = filt[0]
    if fixed and dtype.kind in 'iu':
        meta['fixed'] = True
        elem2 = elem

        def elem(idx):
            v = elem2(idx)
            return S(_wrapf(zi(v)), None, None, True)
    grid = [c.meta['grid'] for c in cs if c is not None and 'grid' in c.meta]
    if grid and len(shape) == 1:
        meta['grid'] = grid[0]
    if shape == () and not any(c is not None and c.ndim == 0 for c in cs):
        return elem(())
    # result of an operation with division may be float
    return mk(I, shape, dtype, elem, meta=meta)


def map1(I, a, f, dtype=None):
    if not is_arr(I, a):
        if isinstance(a, (tuple, Seq)) or (isinstance(a, Ref) and isinstance(cell(I, a), LCell)):
            a = to_array(I, a)
        elif is_num(a):
            return f(a)
        elif isinstance(a, np.generic):
            return f(a.item())
        else:
            raise Unsupported('array function on %r' % (a,))
    return elementwise(I, f, a, dtype=dtype)


def tonp(v):
    """mark a scalar as numpy scalar (IEEE division semantics)"""
    if isinstance(v, S):
        return S(v.e, v.nan, v.inf, True)
    return v


# ---------------------------------------------------------------- scalar functions
def flags(*vs):
    nan = OR(*[v.nan for v in vs if isinstance(v, S)])
    inf = OR(*[v.inf for v in vs if isinstance(v, S)])
    return (None if z3.is_false(nan) else nan), (None if z3.is_false(inf) else inf)


def s_abs(v):
    if isinstance(v, S):
        e = v.e if v.e.sort() != Bool else zi(v)
        return S(z3.If(e >= 0, e, -e), v.nan, v.inf, True)
    return abs(v)


def s_fun(fn, conc=None):
    def f(v):
        nan, inf = flags(v)
        return S(fn(zr(v)), nan, inf, True)
    return f


def s_sqrt(v):
    if isinstance(v, NUMS):
        from math import isqrt
        fr = Fraction(v)
        if fr >= 0 and isqrt(fr.numerator) ** 2 == fr.numerator and isqrt(fr.denominator) ** 2 == fr.denominator:
            return Fraction(isqrt(fr.numerator), isqrt(fr.denominator))
    nan, inf = flags(v)
    e = zr(v)
    neg = e < 0
    return S(T.sqrt_f(e), OR(nan, neg) if NEG_SQRT_NAN else nan, inf, True)


NEG_SQRT_NAN = False    # square roots of negative numbers are NaN; tracked only where asked for


def s_isclose(a, b, rtol=Fraction(1, 10 ** 5), atol=Fraction(1, 10 ** 8)):
    if isinstance(a, CV) or isinstance(b, CV):
        re, im = (lambda v: zr(v.re if isinstance(v, CV) else v)), (lambda v: zr(v.im) if isinstance(v, CV) else z3.RealVal(0))
        mod = lambda p, q: T.sqrt_f(p * p + q * q)
        r, t = (zr(v) if isinstance(v, S) else z3.RealVal(Fraction(v)) for v in (rtol, atol))
        return wrap(mod(re(a) - re(b), im(a) - im(b)) <= t + r * mod(re(b), im(b)))
    x, y = zr(a), zr(b)
    d = x - y
    r = z3.RealVal(Fraction(rtol)) if not isinstance(rtol, S) else zr(rtol)
    t = z3.RealVal(Fraction(atol)) if not isinstance(atol, S) else zr(atol)
    ay = z3.If(y >= 0, y, -y)
    ok = z3.If(d >= 0, d, -d) <= t + r * ay
    nan, inf = flags(a, b)
    if isinstance(a, float) and a != a or isinstance(b, float) and b != b:
        return False
    ok = AND(ok, NOT(nan) if nan is not None else None)
    if inf is not None:
        ok = ITE(inf, T.fresh('isclose_inf', Bool), ok)
    return wrap(z3.simplify(ok))


def s_minmax(ismax, nanaware=False):
    def f(a, b):
        if isinstance(a, NUMS) and isinstance(b, NUMS):
            return max(a, b) if ismax else min(a, b)
        nan, inf = flags(a, b)
        ii = all(isinstance(v, int) or (isinstance(v, S) and v.e.sort() == Int) for v in (a, b))
        x, y = (zi(a), zi(b)) if ii else (zr(a), zr(b))
        return S(z3.If(x >= y, x, y) if ismax else z3.If(x <= y, x, y), nan, inf, True)
    return f


def s_isnan(v):
    if isinstance(v, S):
        return wrap(zb(v.nan)) if v.nan is not None else False
    if isinstance(v, (float,)):
        return v != v
    if isinstance(v, (int, Fraction)):
        return False
    raise _exc(TypeError, 'isnan')


def s_isinf(v):
    if isinstance(v, S):
        return wrap(zb(v.inf)) if v.inf is not None else False
    return v in (float('inf'), float('-inf'))


def s_isfinite(v):
    if isinstance(v, S):
        b = OR(v.nan, v.inf)
        return wrap(z3.simplify(NOT(b)))
    return v == v and v not in (float('inf'), float('-inf'))


# ---------------------------------------------------------------- quantified reductions
def rng(idx, shape):
    return AND(*[AND(zi(i) >= 0, zi(i) < zi(s)) for i, s in zip(idx, shape)])


def exists(I, shape, fn, what='any'):
    """truth value of: some element of an array satisfies fn"""
    if all(isinstance(s, int) for s in shape):
        import itertools
        out = []
        tot = 1
        for s in shape:
            tot *= s
        if tot > 64:
            raise Unsupported('large concrete reduction')
        for idx in itertools.product(*[range(s) for s in shape]):
            v = zb(fn(idx))
            if z3.is_true(v):
                return True
            out.append(v)
        return wrap(z3.simplify(OR(*out)))
    w = [T.fresh('wit', Int) for _ in shape]
    p = z3.simplify(zb(fn(tuple(w))))
    if z3.is_false(p):
        return False
    b = T.fresh(what, Bool)
    I.ctx.assume(IMP(b, AND(rng(w, shape), p)))
    n = len(shape)
    I.ctx.assume_all(n, lambda *idx: IMP(AND(NOT(b), rng(idx, shape)), NOT(zb(fn(tuple(idx))))))
    return S(b)


def filt_shape(c):
    """(iteration shape, guard) of possibly filtered array"""
    if 'filt' in c.meta:
        n, m, _ = c.meta['filt']
        return (n,), (lambda idx: zb(m(idx)))
    return c.shape, (lambda idx: z3.BoolVal(True))


def np_any(I, a, k):
    a, axis = a[0], k.get('axis', a[1] if len(a) > 1 else None)
    if axis is not None:
        raise Unsupported('any(axis)')
    if not is_arr(I, a):
        if is_num(a):
            return truthv(a)
        a = to_array(I, a)
    c = cell(I, a)
    e = rd(I, c)
    sh, g = filt_shape(c)
    return exists(I, sh, lambda idx: AND(g(idx), zbv(e(idx))))


def np_all(I, a, k):
    a, axis = a[0], k.get('axis', a[1] if len(a) > 1 else None)
    if axis is not None:
        raise Unsupported('all(axis)')
    if not is_arr(I, a):
        if is_num(a):
            return truthv(a)
        a = to_array(I, a)
    c = cell(I, a)
    e = rd(I, c)
    sh, g = filt_shape(c)
    r = exists(I, sh, lambda idx: AND(g(idx), NOT(zbv(e(idx)))), 'notall')
    return wrap(NOT(r.e)) if isinstance(r, S) else not r


def zbv(v):
    if isinstance(v, S) and v.e.sort() != Bool:
        return OR(v.e != 0, v.nan, v.inf)
    if isinstance(v, float) and v != v:
        return z3.BoolVal(True)
    return zb(v)


def truthv(v):
    if isinstance(v, S):
        return wrap(zbv(v))
    return bool(v)


def sum_dims(I, shape, fn):
    """nested sum, row-major"""
    if len(shape) == 0:
        return fn(())
    return T.mk_sum(shape[0], lambda b: sum_dims(I, shape[1:], lambda idx: fn((b,) + idx)))


def sum_flags(I, shape, e, guard=None):
    """nan/inf flags of a sum: some element is not finite"""
    w = tuple(T.fresh('wf', Int) for _ in shape)
    v = e(w)
    nan, inf = flags(v) if isinstance(v, S) else (None, None)
    out = []
    for f, nm in ((nan, 'nan'), (inf, 'inf')):
        if f is None:
            out.append(None)
            continue
        I.ctx.pc.append(rng(w, shape))
        if guard is not None:
            I.ctx.pc.append(guard(w))
        ok = I.ctx.simple_prove(NOT(f))
        if guard is not None:
            I.ctx.pc.pop()
        I.ctx.pc.pop()
        if ok:
            out.append(None)
            continue
        r = exists(I, shape, lambda idx: AND(guard(idx) if guard else None, getattr(e(idx), nm) if isinstance(e(idx), S) and getattr(e(idx), nm) is not None else False), 'sum' + nm)
        out.append(zb(r))
    return out


def np_sum(I, a, k, mean=False, nan=False, prod=False):
    arr = a[0]
    axis = k.get('axis', a[1] if len(a) > 1 else None)
    keep = k.get('keepdims', False)
    for kk in k:
        if kk not in ('axis', 'keepdims', 'dtype'):
            raise Unsupported('sum(%s)' % kk)
    if not is_arr(I, arr):
        if isinstance(arr, Gen):
            arr = I.new_list(I.to_seq(arr))
        arr = to_array(I, arr)
    c = cell(I, arr)
    e = rd(I, c)
    if c.sparse:
        raise Unsupported('sum of sparse')
    if c.dtype.kind not in 'fiub':
        raise Unsupported('sum of dtype %s' % c.dtype)
    if c.meta.get('fixed') and c.dtype.kind in 'iu' and not mean:
        # fixed-width sums may wrap around
        e0 = e
        f = z3.Function(T.fresh_name('int_sum_wrap'), *[Int] * c.ndim, Real)
        e = lambda idx: S(f(*[zi(x) for x in idx]), None, None, True)
    sh, g = filt_shape(c)

    def val(idx):
        v = e(idx)
        x = zr(v)
        if nan:
            if isinstance(v, S) and v.nan is not None:
                x = ITE(v.nan, z3.RealVal(0), x)
        gg = g(idx)
        return x if z3.is_true(gg) else z3.If(gg, x, z3.RealVal(1 if prod else 0))
    isint = c.dtype.kind in 'iub' and not mean

    def strip(idx):
        v = e(idx)
        if isinstance(v, S) and nan:
            return S(v.e, None, v.inf)
        return v
    if axis is None:
        gf = (lambda w: g(w)) if 'filt' in c.meta else None
        fn_, fi = sum_flags(I, sh, strip, gf)
        if prod:
            if len(sh) != 1:
                raise Unsupported('prod')
            r = T.mk_sum(sh[0], lambda b: val((b,)), 'Prod')
        else:
            r = sum_dims(I, sh, val)
        if mean:
            if 'filt' in c.meta:
                raise Unsupported('mean of filtered')
            size = z3.RealVal(1)
            for s in sh:
                size = size * zr(s)
            r = r / size
        if isint and not prod:
            # keep integer sort through a Real sum
            if z3.is_rational_value(z3.simplify(r)):
                return int(z3.simplify(r).as_fraction())
            return S(r, fn_, fi, True)
        if keep:
            return mk(I, (1,) * c.ndim, F8, lambda idx: S(r, fn_, fi, True))
        return S(r, fn_, fi, True)
    if 'filt' in c.meta or prod:
        raise Unsupported('axis reduction')
    if isinstance(axis, tuple):
        if len(axis) == c.ndim:
            k2 = dict(k)
            k2['axis'] = None
            return np_sum(I, [arr], k2, mean, nan, prod)
        raise Unsupported('axis tuple')
    ax = simp_int(axis)
    if not isinstance(ax, int):
        raise Unsupported('axis')
    if ax < 0:
        ax += c.ndim
    if not 0 <= ax < c.ndim:
        raise _exc(ValueError, 'axis')
    n = c.shape[ax]

    def elem(idx):
        if keep:
            idx = idx[:ax] + idx[ax + 1:]
        r = T.mk_sum(n, lambda b: val(idx[:ax] + (b,) + idx[ax:]))
        if mean:
            r = r / zr(n)
        return S(r, None, None, True)
    w = tuple(T.fresh('wf', Int) for _ in c.shape)
    v = strip(w)
    if isinstance(v, S) and (v.nan is not None or v.inf is not None):
        raise Unsupported('axis sum with non-finite values')
    shp = c.shape[:ax] + ((1,) if keep else ()) + c.shape[ax + 1:]
    if not shp:
        return elem(())
    return mk(I, shp, F8, elem)


def np_extreme(I, a, k, ismax, nan=False, arg=False):
    arr = a[0]
    for kk in k:
        if kk not in ('axis',) or k[kk] is not None:
            raise Unsupported('min/max(%s)' % kk)
    if len(a) > 1 and a[1] is not None:
        raise Unsupported('min/max axis')
    arr = to_array(I, arr)
    c = cell(I, arr)
    e = rd(I, c)
    if c.ndim == 0:
        return e(())
    if 'filt' in c.meta or c.dtype.kind not in 'fiub':
        raise Unsupported('min/max')
    sh = c.shape
    empty = OR(*[zi(s) <= 0 for s in sh])
    if I.ctx.decide(empty):
        raise _exc(ValueError, 'zero-size array')

    def isn(idx):
        v = e(idx)
        return zb(v.nan) if isinstance(v, S) and v.nan is not None else z3.BoolVal(isinstance(v, float) and v != v)
    w = tuple(T.fresh('ext', Int) for _ in sh)
    n = len(sh)
    anynan = exists(I, sh, lambda idx: isn(idx), 'anynan')
    allnan = None
    if nan:
        alln = exists(I, sh, lambda idx: NOT(isn(idx)), 'somevalid')
        if not I.ctx.decide(zb(alln)):
            if arg:
                raise _exc(ValueError, 'All-NaN slice encountered')
            return S(T.NAN, z3.BoolVal(True), None, True)
    elif not isinstance(anynan, bool) or anynan:
        if I.ctx.decide(zb(anynan)):
            if arg:
                # index of the first NaN
                if n != 1:
                    raise Unsupported('argmax of NaN')
                I.ctx.assume(AND(rng(w, sh), isn(w)))
                return S(w[0], None, None, True)
            return S(T.NAN, z3.BoolVal(True), None, True)
    I.ctx.assume(AND(rng(w, sh), NOT(isn(w))))
    vw = zr(e(w))

    def fact(*idx):
        v = zr(e(tuple(idx)))
        return IMP(AND(rng(idx, sh), NOT(isn(tuple(idx)))), v <= vw if ismax else v >= vw)
    I.ctx.assume_all(n, fact)
    if arg:
        if n != 1:
            raise Unsupported('argmax of a matrix')
        # first occurrence

        def first(*idx):
            v = zr(e(tuple(idx)))
            return IMP(AND(rng(idx, sh), zi(idx[0]) < w[0], NOT(isn(tuple(idx)))), v < vw if ismax else v > vw)
        I.ctx.assume_all(1, first)
        return S(w[0], None, None, True)
    return S(vw, None, None, True) if c.dtype.kind == 'f' else S(zi(e(w)), None, None, True)


# ---------------------------------------------------------------- linear algebra
def matmul(I, a, b):
    a, b = to_array(I, a), to_array(I, b)
    ca, cb = cell(I, a), cell(I, b)
    if ca.ndim == 0 or cb.ndim == 0:
        raise _exc(ValueError, 'matmul: scalar operand')
    return dot(I, a, b)


def dot(I, a, b):
    if not is_arr(I, a) and is_num(a) or not is_arr(I, b) and is_num(b):
        return I.binop(ast.Mult(), a, b)
    a, b = to_array(I, a), to_array(I, b)
    ca, cb = cell(I, a), cell(I, b)
    if ca.sparse or cb.sparse:
        raise Unsupported('sparse product')
    if ca.ndim == 0 or cb.ndim == 0:
        return I.binop(ast.Mult(), a, b)
    if ca.ndim > 2 or cb.ndim > 2:
        raise Unsupported('product of >2 dims')
    if 'filt' in ca.meta or 'filt' in cb.meta:
        if 'filt' in ca.meta and 'filt' in cb.meta:
            return np_sum(I, [I.binop(ast.Mult(), a, b)], {})
        raise Unsupported('dot of filtered')
    ea, eb = rd(I, ca), rd(I, cb)
    if ca.dtype.kind not in 'fiub' or cb.dtype.kind not in 'fiub':
        raise _exc(TypeError, 'dot of non-numeric')
    na = ca.shape[-1]
    nb = cb.shape[0]
    if not same_dim(I, na, nb):
        raise _exc(ValueError, 'shapes not aligned')
    fixed = (ca.meta.get('fixed') or cb.meta.get('fixed')) and ca.dtype.kind in 'iu' and cb.dtype.kind in 'iu'

    def prod(ia, ib):
        def f(t):
            x, y = ea(ia + (t,)), eb((t,) + ib)
            p = zr(x) * zr(y)
            return p
        r = T.mk_sum(na, f)
        w = (T.fresh('wf', Int),)
        v = I.binop_s(ast.Mult(), ea(ia + w), eb(w + ib))
        fl = sum_flags(I, (na,), lambda t: I.binop_s(ast.Mult(), ea(ia + t), eb(t + ib))) if isinstance(v, S) and (v.nan is not None or v.inf is not None) else (None, None)
        if fixed:
            r = z3.Function('int_dot_wrap', Real, Real)(r)
        return S(r, fl[0], fl[1], True)
    if ca.ndim == 1 and cb.ndim == 1:
        return prod((), ())
    if ca.ndim == 2 and cb.ndim == 1:
        return mk(I, (ca.shape[0],), F8, lambda i: prod((i[0],), ()))
    if ca.ndim == 1 and cb.ndim == 2:
        return mk(I, (cb.shape[1],), F8, lambda i: prod((), (i[0],)))
    return mk(I, (ca.shape[0], cb.shape[1]), F8, lambda i: prod((i[0],), (i[1],)))


def transpose(I, a):
    c = cell(I, a)
    if c.sparse:
        e = rd(I, c)
        return mk(I, c.shape[::-1], c.dtype, lambda idx: e(idx[::-1]), sparse=c.sparse)
    if c.ndim < 2:
        return a
    return view(I, a, c.shape[::-1], lambda idx: idx[::-1])


def diagonal(I, a, k=0):
    c = cell(I, a)
    if k != 0:
        raise Unsupported('offset diagonal')
    if c.ndim == 1:
        raise _exc(ValueError, 'diag requires an array of at least two dimensions')
    if c.ndim != 2:
        raise Unsupported('diagonal')
    n, m = c.shape
    ln = n if same_or_le(I, n, m) else m
    if c.sparse:
        e = rd(I, c)
        return mk(I, (ln,), c.dtype, lambda idx: e((idx[0], idx[0])))
    return view(I, a, (ln,), lambda idx: (idx[0], idx[0]))


def same_or_le(I, n, m):
    if isinstance(n, int) and isinstance(m, int):
        return n <= m
    if T.isz(n) and T.isz(m) and n.eq(m):
        return True
    return I.ctx.decide(zi(n) <= zi(m))


def norm(I, a, k):
    x = a[0]
    o = k.get('ord', a[1] if len(a) > 1 else None)
    if k.get('axis') is not None or k.get('keepdims'):
        raise Unsupported('norm axis')
    x = to_array(I, x)
    c = cell(I, x)
    e = rd(I, c)
    if c.ndim == 1 and (o is None or o == 2) or (c.ndim == 2 and (o is None or o == 'fro')):
        sq = np_sum(I, [I.binop(ast.Mult(), x, x)], {})
        return s_sqrt(sq)
    if c.ndim == 1 and o == 1:
        return np_sum(I, [map1(I, x, s_abs)], {})
    if c.ndim == 1 and o in (float('inf'), np.inf):
        return np_extreme(I, [map1(I, x, s_abs)], {}, True)
    if c.ndim == 1 and o == 0:
        return np_sum(I, [I.compare(ast.NotEq(), x, 0)], {})
    raise Unsupported('norm ord %r' % (o,))


# ---------------------------------------------------------------- index sets
class IxSet:
    """enumeration, in row-major order, of the index pairs (i, j) with pred(i, j) in n x m"""
    cache = {}

    def __init__(self, n, m, pred, name):
        self.n, self.m, self.pred = n, m, pred
        k = T.gname('ix')
        self.r = z3.Function(k + '_r', Int, Int)
        self.c = z3.Function(k + '_c', Int, Int)
        self.pos = z3.Function(k + '_pos', Int, Int, Int)
        self.L = z3.Const(k + '_len', Int)
        INVERSES.append(((self.r.name(), self.c.name()), lambda p: self.pos(*p), lambda p: self.P(*p), self))
        T.SCHEMAS[self.r.name()] = T.SCHEMAS[self.c.name()] = self.ax_t
        T.SCHEMAS[self.pos.name()] = self.ax_pos

    def P(self, i, j):
        return AND(i >= 0, i < zi(self.n), j >= 0, j < zi(self.m), self.pred(i, j))

    def ax_t(self, a):
        t = a.arg(0)
        return [IMP(AND(t >= 0, t < self.L), AND(self.P(self.r(t), self.c(t)), self.pos(self.r(t), self.c(t)) == t))]

    def ax_pos(self, a):
        i, j = a.arg(0), a.arg(1)
        return [IMP(self.P(i, j), AND(a >= 0, a < self.L, self.r(a) == i, self.c(a) == j))]


INVERSES = []


def ixset(I, n, m, pred, key):
    n, m = simp_int(n), simp_int(m)
    I.ctx.check_invariant(n, m)
    kk = (str(n), str(m), key)
    s = IxSet.cache.get(kk)
    if s is None:
        s = IxSet.cache[kk] = IxSet(n, m, pred, key)
    I.ctx.assume(s.L >= 0)
    I.ctx.assume_all(2, lambda i, j: IMP(AND(i >= 0, i < zi(n), j >= 0, j < zi(m), zb(pred(i, j))), s.L > 0))
    rows = mk(I, (s.L,), I8, lambda idx: S(s.r(zi(idx[0]))), meta={'ixset': (s, 0)})
    cols = mk(I, (s.L,), I8, lambda idx: S(s.c(zi(idx[0]))), meta={'ixset': (s, 1)})
    return (rows, cols)


def np_tri_indices(I, a, k, lower):
    n = a[0] if a else k['n']
    off = k.get('k', a[1] if len(a) > 1 else 0)
    m = k.get('m', a[2] if len(a) > 2 else None)
    if m is None:
        m = n
    off = simp_int(off)
    if not isinstance(off, int):
        raise Unsupported('tri offset')
    n, m = simp_int(n), simp_int(m)
    if lower:
        return ixset(I, n, m, lambda i, j: j - i <= off, 'tril%d' % off)
    return ixset(I, n, m, lambda i, j: j - i >= off, 'triu%d' % off)


_sorted_cache = {}


def sorted_set(I, seq):
    """sorted distinct elements of a sequence of integers (symbolic length)"""
    ph = z3.Int('?k')
    v = seq.get(ph)
    if not I.is_intlike(v):
        raise Unsupported('sorted set of non-integers')
    n = zi(seq.n)
    g = T.fresh('inc', Int)
    at = lambda t: T.subst(zi(v), (ph, t))
    if I.ctx.simple_prove(IMP(AND(g >= 0, g + 1 < n), at(g) < at(g + 1))):
        return Seq(seq.n, seq.get, meta={'uniq': None})          # strictly increasing already
    if I.ctx.simple_prove(IMP(AND(g >= 0, g + 1 < n), at(g) > at(g + 1))):
        return Seq(seq.n, lambda k: seq.get(z3.simplify(n - 1 - zi(k))), meta={'uniq': None})
    I.ctx.check_invariant(n, zi(v))
    key = (n.sexpr(), zi(v).sexpr())
    ent = _sorted_cache.get(key)
    if ent is None:
        nm = T.gname('uniq')
        s = z3.Function(nm + '_s', Int, Int)
        u = z3.Function(nm + '_u', Int, Int)
        m = z3.Const(nm + '_n', Int)
        w = z3.Function(nm + '_w', Int, Int)
        ent = _sorted_cache[key] = (s, u, m, w)
        elem = lambda t: zi(T.subst(zi(v), (ph, t)))

        def ax(a):
            t = a.arg(0)
            return [IMP(AND(t >= 0, t < m), AND(u(t) >= 0, u(t) < n, a == elem(u(t))))]
        T.SCHEMAS[s.name()] = ax
    s, u, m, w = ent
    I.ctx.assume_all(1, lambda t: IMP(AND(t >= 0, t < n), AND(w(t) >= 0, w(t) < m, s(w(t)) == at(t))))
    I.ctx.assume(AND(m >= 0, m <= n, (m == 0) == (n <= 0)))
    first, last = u(z3.IntVal(0)), u(m - 1)
    I.ctx.assume(IMP(m > 0, AND(first >= 0, first < n, last >= 0, last < n, s(z3.IntVal(0)) == at(first), s(m - 1) == at(last))))
    I.ctx.assume_all(2, lambda a, b: IMP(AND(a >= 0, a < b, b < m), s(a) < s(b)))
    # lemma (pigeonhole): a strictly increasing integer sequence of length m with
    # 0 <= first and last < m is the identity
    I.ctx.assume_all(1, lambda t: IMP(AND(t >= 0, t < m, s(z3.IntVal(0)) >= 0, s(m - 1) < m), s(t) == t))
    return Seq(m, lambda k: S(s(zi(k))), meta={'uniq': ent})


# ---------------------------------------------------------------- indexing
def norm_ix(I, i, n):
    """integer index on a dimension of size n, python semantics"""
    k = simp_int(i)
    if isinstance(k, int) and isinstance(n, int):
        if not -n <= k < n:
            raise _exc(IndexError, 'index out of bounds')
        return k if k >= 0 else k + n
    z = zi(k)
    if I.ctx.decide(AND(z >= 0, z < zi(n))):
        return k
    if I.ctx.decide(AND(z < 0, z >= -zi(n))):
        return simp_int(z + zi(n))
    raise _exc(IndexError, 'index out of bounds')


def arr_get(I, o, c, ix):
    if c.sparse:
        if isinstance(ix, tuple) and len(ix) == 2 and all(is_intv(I, x) for x in ix):
            i, j = norm_ix(I, ix[0], c.shape[0]), norm_ix(I, ix[1], c.shape[1])
            return rd(I, c)((i, j))
        if isinstance(ix, tuple) and len(ix) == 2 and all(is_arr(I, x) for x in ix):
            r = fancy_pair(I, c, ix)
            if r is not None:
                L, f, s = r
                e = rd(I, c)
                # scipy returns a 1 x L matrix
                return mk(I, (1, L), c.dtype, lambda idx: e(f(idx[1])), sparse=c.sparse, meta={'pairvals': (s, lambda p: e(p))})
        raise Unsupported('sparse indexing')
    if 'filt' in c.meta:
        raise Unsupported('indexing a filtered array')
    if isinstance(ix, Ref) and isinstance(cell(I, ix), LCell):
        ix = to_array(I, ix)
    if isinstance(ix, Ref) and isinstance(cell(I, ix), ACell):
        ci = cell(I, ix)
        if ci.ndim == 0:
            return arr_get(I, o, c, rd(I, ci)(()))
        if ci.dtype.kind == 'b':
            return mask_get(I, o, c, ix, ci)
        if ci.dtype.kind in 'iu' and ci.ndim == 1:
            e = rd(I, c)
            f = rd(I, ci)
            bad = exists(I, ci.shape, lambda idx: NOT(AND(zi(f(idx)) >= -zi(c.shape[0]), zi(f(idx)) < zi(c.shape[0]))), 'oob')
            if I.truth(bad):
                raise _exc(IndexError)

            def nf(t):
                v = zi(f((t,)))
                return z3.If(v < 0, v + zi(c.shape[0]), v)
            return mk(I, ci.shape + c.shape[1:], c.dtype, lambda idx: e((simp_int(nf(idx[0])),) + idx[1:]), meta=keepmeta2(c))
        if ci.dtype.kind == 'f':
            raise _exc(IndexError, 'arrays used as indices must be of integer (or boolean) type')
        raise Unsupported('fancy index')
    if isinstance(ix, tuple) and len(ix) == 2 and any(isinstance(x, Ref) for x in ix):
        r = fancy_pair(I, c, ix)
        if r is not None:
            L, f, s = r
            e = rd(I, c)
            return mk(I, (L,), c.dtype, lambda idx: e(f(idx[0])), meta={'pairvals': (s, lambda p: e(p))})
        r = ix_get(I, o, c, ix)
        if r is not None:
            return r
        raise Unsupported('fancy index pair')
    if not isinstance(ix, tuple):
        ix = (ix,)
    # basic indexing
    dims = []
    nreal = sum(1 for x in ix if x is not None)
    if nreal > c.ndim:
        raise _exc(IndexError, 'too many indices')
    ix = ix + (SliceV(None, None, None),) * (c.ndim - nreal)
    maps = []      # per base dim: ('fix', i) or ('var', out position, start, step)
    out_shape = []
    d = 0
    for x in ix:
        if x is None:
            out_shape.append(1)
            continue
        n = c.shape[d]
        if isinstance(x, SliceV):
            if x.start is None and x.stop is None and x.step is None:
                maps.append(('var', len(out_shape), 0, 1))
                out_shape.append(n)
            else:
                a, b, st = I.slice_indices(x, n if isinstance(n, int) else S(n))
                s = I.range_seq(a, b, st)
                maps.append(('var', len(out_shape), a, st))
                out_shape.append(s.n)
        elif is_intv(I, x):
            maps.append(('fix', norm_ix(I, intv(I, x), n)))
        elif isinstance(x, (str, SStr, float, Fraction)) or (isinstance(x, S) and x.e.sort() == Real):
            raise _exc(IndexError, 'only integers, slices ... are valid indices')
        else:
            raise Unsupported('index %r' % (x,))
        d += 1

    def vmap(idx):
        r = []
        for m in maps:
            if m[0] == 'fix':
                r.append(m[1])
            elif isinstance(m[2], int) and m[2] == 0 and m[3] == 1:
                r.append(idx[m[1]])
            else:
                r.append(simp_int(zi(m[2]) + zi(idx[m[1]]) * m[3]))
        return tuple(r)
    if not out_shape:
        return rd(I, c)(vmap(()))
    return view(I, o, out_shape, vmap)


def keepmeta2(c):
    return {k: v for k, v in c.meta.items() if k in ('fixed',)}


def is_intv(I, x):
    if isinstance(x, bool):
        return False
    if isinstance(x, (int, np.integer)):
        return True
    if isinstance(x, S):
        return x.e.sort() == Int
    if is_arr(I, x):
        c = cell(I, x)
        return c.ndim == 0 and c.dtype.kind in 'iu'
    return False


def intv(I, x):
    if is_arr(I, x):
        return rd(I, cell(I, x))(())
    return x


def fancy_pair(I, c, ix):
    """A[rows, cols] with 1-D integer arrays -> (length, t -> (i, j), ixset or None)"""
    rows, cols = ix
    if not (is_arr(I, rows) and is_arr(I, cols)):
        return None
    cr, cc = cell(I, rows), cell(I, cols)
    if cr.ndim != 1 or cc.ndim != 1 or cr.dtype.kind not in 'iu' or cc.dtype.kind not in 'iu':
        return None
    a, b = cr.meta.get('ixset'), cc.meta.get('ixset')
    er, ec = rd(I, cr), rd(I, cc)
    if not (a and b and a[0] is b[0]):
        return None
    # all index pairs must lie inside the array
    s = a[0]
    p, q = T.fresh('p', Int), T.fresh('q', Int)
    inside = AND(p >= 0, p < zi(c.shape[0]), q >= 0, q < zi(c.shape[1]))
    I.ctx.pc.append(s.P(p, q) if a[1] == 0 else s.P(q, p))
    ok = I.ctx.simple_prove(inside)
    I.ctx.pc.pop()
    if not ok:
        bad = exists(I, (s.L,), lambda idx: NOT(AND(zi(er(idx)) < zi(c.shape[0]), zi(ec(idx)) < zi(c.shape[1]))), 'oob')
        if I.truth(bad):
            raise _exc(IndexError)
    return s.L, (lambda t: (simp_int(er((t,))), simp_int(ec((t,))))), (s, a[1])


def ix_get(I, o, c, ix):
    """A[np.ix_(r, c)]-like, or A[list, int]/A[:, list]"""
    rows, cols = ix
    if isinstance(rows, SliceV) and rows.start is None and rows.stop is None and rows.step is None:
        if isinstance(cols, Ref):
            t = transpose(I, o)
            r = arr_get(I, t, cell(I, t), cols)
            return transpose(I, r)
    if isinstance(cols, SliceV) and cols.start is None and cols.stop is None and cols.step is None:
        return arr_get(I, o, c, rows)
    if is_arr(I, rows) and is_arr(I, cols):
        cr, cc = cell(I, rows), cell(I, cols)
        if cr.ndim == 2 and cc.ndim == 2 and cr.shape[1] == 1 and cc.shape[0] == 1 and cr.dtype.kind in 'iu' and cc.dtype.kind in 'iu':
            er, ec, e = rd(I, cr), rd(I, cc), rd(I, c)
            for q, n, ee in ((cr, c.shape[0], er), (cc, c.shape[1], ec)):
                bad = exists(I, q.shape, lambda idx: NOT(AND(zi(ee(idx)) >= 0, zi(ee(idx)) < zi(n))), 'oob')
                if I.truth(bad):
                    raise Unsupported('possible negative or out of range fancy index')
            return mk(I, (cr.shape[0], cc.shape[1]), c.dtype, lambda idx: e((simp_int(er((idx[0], 0))), simp_int(ec((0, idx[1]))))))
    return None


def mask_get(I, o, c, ix, ci):
    if ci.ndim != 1 or c.ndim != 1:
        if ci.ndim == c.ndim == 2:
            raise Unsupported('2-D boolean mask')
        raise _exc(IndexError, 'too many indices')
    if not same_dim(I, ci.shape[0], c.shape[0]):
        raise _exc(IndexError, 'boolean index did not match')
    e, m = rd(I, c), rd(I, ci)
    ph = z3.Int('?m')
    mt = z3.simplify(zb(m((ph,))))
    key = mt.sexpr()
    cnt = T.fresh('cnt', Int)
    I.ctx.assume(AND(cnt >= 0, cnt <= zi(c.shape[0])))
    return mk(I, (cnt,), c.dtype, e, meta=dict(filt=(c.shape[0], m, key), **keepmeta2(c)))


def arr_set(I, o, c, ix, v):
    from .interp import merge_val
    if c.view is not None:
        # write through a basic view
        base = Ref(c.view)
        raise Unsupported('write through a view')
    e = rd(I, c)
    d = c.dtype

    def put(cond_val):
        """cond_val(p) -> (condition, value thunk)"""
        def elem(p):
            cnd, val = cond_val(p)
            cnd = z3.simplify(zb(cnd))
            if z3.is_false(cnd):
                return e(p)
            nv = cast(val(), d)
            if z3.is_true(cnd):
                return nv
            return merge_val(cnd, nv, e(p))
        I.write_array(o, elem)

    if isinstance(ix, Ref) and isinstance(cell(I, ix), LCell):
        ix = to_array(I, ix)
    if isinstance(ix, Ref) and isinstance(cell(I, ix), ACell):
        ci = cell(I, ix)
        if ci.dtype.kind == 'b' and ci.ndim == c.ndim:
            for a, b in zip(ci.shape, c.shape):
                if not same_dim(I, a, b):
                    raise _exc(IndexError)
            m = rd(I, ci)
            if is_num(v):
                return put(lambda p: (zb(m(p)), lambda: v))
            if is_arr(I, v) and 'filt' in cell(I, v).meta and c.ndim == 1:
                cv = cell(I, v)
                if cv.meta['filt'][2] == z3.simplify(zb(m((z3.Int('?m'),)))).sexpr():
                    ev = rd(I, cv)
                    return put(lambda p: (zb(m(p)), lambda: ev(p)))
        raise Unsupported('fancy store')
    if isinstance(ix, tuple) and len(ix) == 2 and all(is_arr(I, x) and cell(I, x).ndim == 1 for x in ix):
        r = fancy_pair(I, c, ix)
        if r is None:
            raise Unsupported('fancy store')
        L, f, (s, swap) = r

        def pq(p):
            return (zi(p[0]), zi(p[1])) if swap == 0 else (zi(p[1]), zi(p[0]))
        if is_num(v):
            return put(lambda p: (s.P(*pq(p)), lambda: v))
        if is_arr(I, v):
            cv = cell(I, v)
            pv = cv.meta.get('pairvals')
            if pv is not None and pv[0][0] is s:
                # value was gathered with the same index set: positions coincide
                sw2 = pv[0][1]
                g = pv[1]

                def val(p):
                    i, j = p
                    return g((i, j) if sw2 == swap else (j, i))
                return put(lambda p: (s.P(*pq(p)), lambda: val(p)))
            ev = rd(I, cv)
            if cv.ndim == 1 and same_dim(I, cv.shape[0], L):
                def val2(p):
                    i, j = pq(p)
                    r_ = ev((s.pos(i, j),))
                    return resub(r_, s, i, j)
                return put(lambda p: (s.P(*pq(p)), lambda: val2(p)))
        raise Unsupported('fancy store')
    if not isinstance(ix, tuple):
        ix = (ix,)
    if len(ix) > c.ndim:
        raise _exc(IndexError)
    ix = ix + (SliceV(None, None, None),) * (c.ndim - len(ix))
    fixed = []
    outdims = []
    for dd, x in enumerate(ix):
        if isinstance(x, SliceV):
            if x.start is None and x.stop is None and x.step is None:
                outdims.append((dd, 0, c.shape[dd], 1))
            else:
                a, b, st = I.slice_indices(x, c.shape[dd] if isinstance(c.shape[dd], int) else S(c.shape[dd]))
                if st != 1:
                    raise Unsupported('store with step')
                s = I.range_seq(a, b, st)
                outdims.append((dd, a, s.n, 1))
        elif is_intv(I, x):
            fixed.append((dd, norm_ix(I, intv(I, x), c.shape[dd])))
        else:
            raise Unsupported('store index %r' % (x,))

    def cond(p):
        cs = [zi(p[dd]) == zi(i) for dd, i in fixed]
        for dd, a, n, st in outdims:
            if isinstance(a, int) and a == 0 and (n is c.shape[dd] or (T.isz(n) and T.isz(c.shape[dd]) and n.eq(c.shape[dd])) or n == c.shape[dd] if isinstance(n, int) else False):
                continue
            cs += [zi(p[dd]) >= zi(a), zi(p[dd]) < zi(a) + zi(n)]
        return AND(*cs)
    if is_num(v) or isinstance(v, np.generic):
        return put(lambda p: (cond(p), lambda: v))
    if isinstance(v, (str, SStr)) and d.kind in 'UO':
        return put(lambda p: (cond(p), lambda: v))
    if isinstance(v, (tuple, Seq)) or is_arr(I, v) or (isinstance(v, Ref) and isinstance(cell(I, v), LCell)):
        va = to_array(I, v)
        cv = cell(I, va)
        tgt = tuple(n for _, _, n, _ in outdims)
        if cv.ndim > len(tgt):
            if all(isinstance(x, int) and x == 1 for x in cv.shape[:cv.ndim - len(tgt)]):
                pass
            raise _exc(ValueError, 'setting an array element with a sequence')
        sh = bshape(I, [cv.shape, tgt])
        for a, b in zip(sh, tgt):
            if not same_dim(I, a, b):
                raise _exc(ValueError, 'could not broadcast')
        mp = bindex(I, cv.shape, tgt)
        ev = rd(I, cv)
        return put(lambda p: (cond(p), lambda: ev(mp(tuple(simp_int(zi(p[dd]) - zi(a)) for dd, a, n, st in outdims)))))
    if d.kind in 'fiub':
        raise Unsupported('storing %r into an array' % (v,))
    raise Unsupported('array store')


def resub(v, s, i, j):
    if isinstance(v, S):
        def f(e):
            if e is None:
                return None
            t = s.pos(i, j)
            return T.subst(e, (s.r(t), i), (s.c(t), j))
        return S(f(v.e), f(v.nan), f(v.inf), v.np)
    return v


def arr_iter(I, o, c):
    if c.ndim == 0:
        raise _exc(TypeError, 'iteration over a 0-d array')
    if 'filt' in c.meta or c.sparse:
        raise Unsupported('iteration over filtered/sparse array')
    e = rd(I, c)
    n = c.shape[0]
    ix = c.meta.get('ixset')
    if ix and isinstance(ix[0].n, int) and isinstance(ix[0].m, int) and ix[0].n * ix[0].m <= 60:
        return tuple((i, j)[ix[1]] for i in range(ix[0].n) for j in range(ix[0].m) if ix[0].pred(i, j))
    if c.ndim == 1:
        s = Seq(n, lambda k: e((k,)), meta={'arr': c})
    else:
        s = Seq(n, lambda k: arr_get(I, o, I.ctx.get(o), wrap(k) if T.isz(k) else k))
    if isinstance(n, int) and n <= 60:
        return tuple(s.get(k) for k in range(n))
    return s


# ---------------------------------------------------------------- array attributes
def arr_attr(I, o, c, name):
    def B(f):
        return Builtin('ndarray.' + name, f)
    if name == 'shape':
        return tuple(wrap(s) if T.isz(s) else s for s in c.shape)
    if name == 'ndim':
        return c.ndim
    if name == 'size':
        r = 1
        for s in c.shape:
            r = I.binop_s(ast.Mult(), r, wrap(s) if T.isz(s) else s)
        return r
    if name == 'dtype':
        return c.dtype
    if name == 'T':
        return transpose(I, o)
    if name == 'transpose':
        return B(lambda I, a, k: transpose(I, o) if not a else _unsup('transpose axes'))
    if c.sparse:
        if name in ('toarray', 'todense', 'A'):
            if name == 'A':
                raise _exc(AttributeError, name)
            return B(lambda I, a, k: mk(I, c.shape, c.dtype, rd(I, c)))
        if name in ('tolil', 'tocsr', 'tocsc', 'tocoo', 'copy', 'asformat'):
            return B(lambda I, a, k: mk(I, c.shape, c.dtype, rd(I, c), sparse=name[2:] if name.startswith('to') else (a[0] if a else c.sparse)))
        if name == 'diagonal':
            return B(lambda I, a, k: diagonal(I, o))
        if name == 'format':
            return c.sparse
        if name in ('A1', 'flat', 'tolist', 'ravel', 'flatten', 'item'):
            raise _exc(AttributeError, name)
        raise Unsupported('sparse.%s' % name)
    if name == 'dot':
        return B(lambda I, a, k: dot(I, o, a[0]))
    if name == 'sum':
        return B(lambda I, a, k: np_sum(I, [o] + a, k))
    if name == 'mean':
        return B(lambda I, a, k: np_sum(I, [o] + a, k, mean=True))
    if name == 'prod':
        return B(lambda I, a, k: np_sum(I, [o] + a, k, prod=True))
    if name == 'any':
        return B(lambda I, a, k: np_any(I, [o] + a, k))
    if name == 'all':
        return B(lambda I, a, k: np_all(I, [o] + a, k))
    if name in ('min', 'max'):
        return B(lambda I, a, k: np_extreme(I, [o] + a, k, name == 'max'))
    if name in ('argmax', 'argmin'):
        return B(lambda I, a, k: np_extreme(I, [o] + a, k, name == 'argmax', arg=True))
    if name == 'diagonal':
        return B(lambda I, a, k: diagonal(I, o, *a, **k))
    if name == 'trace':
        return B(lambda I, a, k: np_sum(I, [diagonal(I, o)], {}))
    if name in ('copy',):
        return B(lambda I, a, k: mk(I, c.shape, c.dtype, rd(I, I.ctx.get(o)), meta=keepmeta(c)))
    if name == '__array__':
        return B(lambda I, a, k: o)
    if name == 'astype':
        return B(lambda I, a, k: astype(I, o, a[0] if a else k['dtype']))
    if name in ('ravel', 'flatten'):
        return B(lambda I, a, k: ravel(I, o))
    if name == 'reshape':
        return B(lambda I, a, k: reshape(I, o, a[0] if len(a) == 1 else tuple(a)))
    if name == 'squeeze':
        return B(lambda I, a, k: squeeze(I, o, k.get('axis', a[0] if a else None)))
    if name == 'tolist':
        def tl(I, a, k):
            cc = I.ctx.get(o)
            if cc.ndim != 1:
                raise Unsupported('tolist')
            return I.new_list(arr_iter(I, o, cc))
        return B(tl)
    if name == 'item':
        def item(I, a, k):
            if a:
                raise Unsupported('item(args)')
            if all(isinstance(s, int) and s == 1 for s in c.shape):
                return rd(I, c)((0,) * c.ndim)
            raise Unsupported('item')
        return B(item)
    if name == 'fill':
        def fill(I, a, k):
            v = cast(a[0], c.dtype)
            I.write_array(o, lambda idx: v)
        return B(fill)
    if name == 'real':
        return o
    if name == 'nonzero' or name == 'sort' or name == 'flat' or name == 'conj':
        raise Unsupported('ndarray.' + name)
    if name in ('lower', 'kernel', 'full', 'num_samples', 'attach_to'):
        raise _exc(AttributeError, name)
    if hasattr(np.ndarray, name):
        raise Unsupported('ndarray.' + name)
    raise _exc(AttributeError, name)


def ravel(I, o):
    c = cell(I, o)
    if c.ndim == 1:
        return o
    if c.ndim == 2:
        n, m = c.shape
        e = rd(I, c)
        L = simp_int(zi(n) * zi(m))
        qd, qm = udiv, umod
        if isinstance(m, int) and isinstance(n, int):
            return mk(I, (L,), c.dtype, lambda idx: e((idx[0] // m, idx[0] % m)) if isinstance(idx[0], int) else e((simp_int(zi(idx[0]) / m), simp_int(zi(idx[0]) % m))))
        return mk(I, (L,), c.dtype, lambda idx: e((udiv(zi(idx[0]), zi(m)), umod(zi(idx[0]), zi(m)))),
                  meta={'grid2': (n, m, e), **{k: v for k, v in c.meta.items() if k == 'fixed'}})
    raise Unsupported('ravel')


udiv = z3.Function('udiv', Int, Int, Int)
umod = z3.Function('umod', Int, Int, Int)


def _ud(a):
    k, m = a.arg(0), a.arg(1)
    q, r = udiv(k, m), umod(k, m)
    return [IMP(AND(m > 0, k >= 0), AND(k == q * m + r, r >= 0, r < m, q >= 0))]


T.SCHEMAS['udiv'] = _ud
T.SCHEMAS['umod'] = _ud


def reshape(I, o, shape):
    c = cell(I, o)
    if not isinstance(shape, tuple):
        if isinstance(shape, Ref):
            shape = I.to_seq(shape)
        else:
            shape = (shape,)
    shape = tuple(simp_int(s) for s in shape)
    e = rd(I, c)
    if shape == (-1,):
        return ravel(I, o)
    if len(shape) == c.ndim and all(T.isz(a) and T.isz(b) and a.eq(b) or (isinstance(a, int) and isinstance(b, int) and a == b)
                                    for a, b in zip(shape, c.shape)):
        return o
    if c.ndim == 1 and len(shape) == 2:
        a, b = shape
        if b == 1 and (a == -1 or same_dim(I, a, c.shape[0])):
            return view(I, o, (c.shape[0], 1), lambda idx: (idx[0],))
        if a == 1 and (b == -1 or same_dim(I, b, c.shape[0])):
            return view(I, o, (1, c.shape[0]), lambda idx: (idx[1],))
        g = c.meta.get('grid')
        if g is not None:
            n, m = g['dims']
            if (a == -1 or same_dim(I, a, n)) and (b == -1 or same_dim(I, b, m)):
                return mk(I, (n, m), c.dtype, lambda idx: g['at'](e, idx))
        g = c.meta.get('grid2')
        if g is not None and same_dim(I, a, g[0]) and same_dim(I, b, g[1]):
            return mk(I, (a, b), c.dtype, g[2])
        if isinstance(c.shape[0], int) and isinstance(a, int) and isinstance(b, int):
            return mk(I, shape, c.dtype, lambda idx: e((simp_int(zi(idx[0]) * b + zi(idx[1])),)))
    if c.ndim == 2 and len(shape) == 2 and shape == (-1, 1) and c.shape[1] == 1:
        return o
    if c.ndim == 2 and len(shape) == 2 and shape[0] == -1 and shape[1] == 1:
        r = ravel(I, o)
        return reshape(I, r, shape)
    if c.ndim == 0 and all(isinstance(s, int) and abs(s) == 1 for s in shape):
        return mk(I, tuple(1 for s in shape), c.dtype, lambda idx: e(()))
    raise Unsupported('reshape %s -> %s' % (c.shape, shape))


def squeeze(I, o, axis=None):
    o = to_array(I, o)
    c = cell(I, o)
    if axis is None:
        drop = []
        for d, s in enumerate(c.shape):
            if isinstance(s, int):
                if s == 1:
                    drop.append(d)
            elif I.ctx.decide(zi(s) == 1):
                drop.append(d)
    else:
        if is_intv(I, axis):
            axis = (simp_int(axis),)
        axis = I.to_seq(axis)
        drop = []
        for ax in axis:
            ax = simp_int(ax)
            if ax < 0:
                ax += c.ndim
            s = c.shape[ax]
            if not (isinstance(s, int) and s == 1 or (T.isz(s) and I.ctx.decide(zi(s) == 1))):
                raise _exc(ValueError, 'cannot select an axis to squeeze out which has size not equal to one')
            drop.append(ax)
    if not drop:
        return o
    keep = [d for d in range(c.ndim) if d not in drop]

    def vmap(idx):
        r = [0] * c.ndim
        for k, d in enumerate(keep):
            r[d] = idx[k]
        return tuple(r)
    return view(I, o, tuple(c.shape[d] for d in keep), vmap)


def scalar_attr(I, v, name):
    def B(f):
        return Builtin('scalar.' + name, f)
    npflag = isinstance(v, S) and v.np
    if name in ('real',):
        return v
    if name in ('shape',) and npflag:
        return ()
    if name == 'ndim' and npflag:
        return 0
    if name == 'size' and npflag:
        return 1
    if name == 'T' and npflag:
        return v
    if name == 'dtype' and npflag:
        return dtype_of_scalar(v)
    if name == 'item' and npflag:
        return B(lambda I, a, k: S(v.e, v.nan, v.inf, False))
    if name in ('sum', 'mean', 'max', 'min', 'copy', 'squeeze') and npflag:
        return B(lambda I, a, k: v)
    if name in ('all', 'any') and npflag:
        return B(lambda I, a, k: truthv(v))
    if name in ('any', 'all') and (isinstance(v, bool) or (isinstance(v, S) and v.e.sort() == Bool)):
        return B(lambda I, a, k: v)     # result of a numpy comparison of scalars
    if name == 'astype' and npflag:
        return B(lambda I, a, k: cast(v, as_dtype(a[0])))
    if name == 'dot' and npflag:
        return B(lambda I, a, k: I.binop(ast.Mult(), v, a[0]))
    if isinstance(v, S):
        raise Unsupported('attribute %s of a scalar' % name)
    if name in ('is_integer',):
        return B(lambda I, a, k: Fraction(v).denominator == 1)
    if hasattr(1, name) or hasattr(1.0, name) or npflag:
        raise Unsupported('attribute %s of a number' % name)
    raise _exc(AttributeError, name)


def cast_scalar(I, t, a):
    v = a[0] if a else 0
    d = np.dtype(t)
    if is_arr(I, v):
        return astype(I, v, d)
    if is_num(v):
        r = cast(v, d)
        return tonp(r)
    raise Unsupported('%s(...)' % t)


# ---------------------------------------------------------------- module tables
def concrete_arg(v):
    if isinstance(v, (int, float, str, bool, type(None), np.dtype, type, np.generic)):
        return True
    if isinstance(v, tuple):
        return all(concrete_arg(x) for x in v)
    return False


def wrapfn(fn):
    return lambda I, a, k: fn(I, *a, **k)


def full(I, a, k, value=None):
    shape = a[0] if a else k.get('shape')
    dt = k.get('dtype')
    if value is None:
        v = k.get('fill_value', a[1] if len(a) > 1 else None)
        if len(a) > 2:
            dt = a[2]
        d = as_dtype(dt) or dtype_of_scalar(v)
    else:
        v = value
        if len(a) > 1:
            dt = a[1]
        d = as_dtype(dt) or F8
    shape = shape_of(I, shape)
    if is_arr(I, v) and cell(I, v).ndim == 0:
        v = rd(I, cell(I, v))(())
    if not is_num(v) and not isinstance(v, (str, SStr, Opq)):
        raise Unsupported('full of %r' % (v,))
    if isinstance(v, Opq):
        raise Unsupported('full of opaque')
    v = cast(v, d)
    if isinstance(v, float) and v != v:
        v = S(T.NAN, z3.BoolVal(True), None, True)
    return mk(I, shape, d, lambda idx: v)


def shape_of(I, s):
    if isinstance(s, Ref):
        c = cell(I, s)
        if isinstance(c, ACell) and c.ndim == 0:
            s = rd(I, c)(())
        else:
            s = I.to_seq(s)
    if not isinstance(s, (tuple, Seq)):
        s = (s,)
    if isinstance(s, Seq):
        raise Unsupported('shape')
    out = []
    for x in s:
        if is_intv(I, x):
            n = simp_int(intv(I, x))
            if isinstance(n, int):
                if n < 0:
                    raise _exc(ValueError, 'negative dimensions are not allowed')
            elif I.ctx.decide(zi(n) < 0):
                raise _exc(ValueError, 'negative dimensions are not allowed')
            out.append(n)
        elif isinstance(x, (Unknown_t, Poison)):
            raise Unsupported('shape')
        else:
            raise _exc(TypeError, 'shape')
    return tuple(out)


class Unknown_t:
    pass


def modules(I0):
    from .interp import ModelModule, Unknown
    t = {}

    def reg(name):
        def d(f):
            t[name] = Builtin('np.' + name, f)
            return f
        return d

    def op2(name, op):
        t[name] = Builtin('np.' + name, lambda I, a, k: _op2(I, op, a, k))

    def _op2(I, op, a, k):
        if k:
            raise Unsupported('ufunc keywords')
        return tonp_any(I, I.binop(op, a[0], a[1]))
    for nm, op in (('add', ast.Add()), ('subtract', ast.Sub()), ('multiply', ast.Mult()), ('divide', ast.Div()),
                   ('true_divide', ast.Div()), ('matmul', ast.MatMult())):
        op2(nm, op)
    t['dot'] = Builtin('np.dot', lambda I, a, k: dot(I, a[0], a[1]))
    t['vdot'] = Builtin('np.vdot', lambda I, a, k: dot(I, ravel(I, to_array(I, a[0])), ravel(I, to_array(I, a[1]))))

    def inner(I, a, k):
        x, y = to_array(I, a[0]), to_array(I, a[1])
        if cell(I, x).ndim == 1 and cell(I, y).ndim == 1:
            return dot(I, x, y)
        raise Unsupported('inner')
    t['inner'] = Builtin('np.inner', inner)

    def power(I, a, k):
        if k:
            raise Unsupported('power keywords')
        b = a[1]
        if not is_arr(I, a[0]) and not is_num(a[0]) or not is_num(b):
            b = to_array(I, b) if not is_num(b) else b
        if isinstance(b, Ref) and is_num(a[0]):
            return elementwise(I, lambda x, y: I.binop_s(ast.Pow(), x, y), a[0], b, dtype=F8)
        r = I.binop(ast.Pow(), a[0], b)
        if is_arr(I, r) and is_arr(I, a[0]) and cell(I, a[0]).dtype.kind in 'iu' and isinstance(b, S) and b.e.sort() == Real:
            pass
        return tonp_any(I, r)
    t['power'] = Builtin('np.power', power)
    t['float_power'] = Builtin('np.float_power', power)
    for nm, f in (('abs', s_abs), ('absolute', s_abs), ('fabs', s_abs), ('exp', s_fun(T.exp_f)), ('tanh', s_fun(T.tanh_f)),
                  ('sqrt', s_sqrt), ('log', s_fun(T.log_f))):
        def mkf(nm, f):
            dt = None if nm in ('abs', 'absolute') else F8

            def g(I, a, k):
                if k or len(a) != 1:
                    raise Unsupported('np.%s arguments' % nm)
                if is_num(a[0]) and not isinstance(a[0], S) and nm in ('exp', 'tanh', 'log'):
                    if a[0] == 0 and nm in ('exp', 'tanh'):
                        return Fraction(1 if nm == 'exp' else 0)
                return map1(I, a[0], f, dtype=dt)
            return g
        t[nm] = Builtin('np.' + nm, mkf(nm, f))

    def square(I, a, k):
        return tonp_any(I, I.binop(ast.Mult(), a[0], a[0]))
    t['square'] = Builtin('np.square', square)
    t['negative'] = Builtin('np.negative', lambda I, a, k: I.unop(ast.USub(), a[0]))
    t['logical_not'] = Builtin('np.logical_not', lambda I, a, k: map1(I, a[0], lambda x: wrap(NOT(zbv(x))), B1))
    t['logical_and'] = Builtin('np.logical_and', lambda I, a, k: elementwise(I, lambda x, y: wrap(AND(zbv(x), zbv(y))), a[0], a[1], dtype=B1))
    t['logical_or'] = Builtin('np.logical_or', lambda I, a, k: elementwise(I, lambda x, y: wrap(OR(zbv(x), zbv(y))), a[0], a[1], dtype=B1))
    t['invert'] = Builtin('np.invert', lambda I, a, k: I.unop(ast.Invert(), a[0]))
    for nm, o in (('equal', ast.Eq()), ('not_equal', ast.NotEq()), ('greater', ast.Gt()), ('less', ast.Lt()),
                  ('greater_equal', ast.GtE()), ('less_equal', ast.LtE())):
        t[nm] = Builtin('np.' + nm, lambda I, a, k, o=o: I.compare(o, a[0], a[1]))
    for nm, ismax in (('maximum', True), ('minimum', False)):
        t[nm] = Builtin('np.' + nm, lambda I, a, k, ismax=ismax: elementwise(I, s_minmax(ismax), a[0], a[1]) if (is_arr(I, a[0]) or is_arr(I, a[1])) else mm_scalar(I, ismax, a))
    t['fmax'], t['fmin'] = t['maximum'], t['minimum']
    t['isnan'] = Builtin('np.isnan', lambda I, a, k: map1x(I, a[0], s_isnan))
    t['isinf'] = Builtin('np.isinf', lambda I, a, k: map1x(I, a[0], s_isinf))
    t['isfinite'] = Builtin('np.isfinite', lambda I, a, k: map1x(I, a[0], s_isfinite))

    def isreal(I, a, k):
        x = to_array(I, a[0])
        c = cell(I, x)
        if c.dtype.kind == 'c':
            e = rd(I, c)
            return mk(I, c.shape, B1, lambda idx: wrap(z3.simplify(zr(e(idx).im) == 0)))
        return mk(I, c.shape, B1, lambda idx: True)
    t['isreal'] = Builtin('np.isreal', isreal)
    t['iscomplexobj'] = Builtin('np.iscomplexobj', lambda I, a, k: cell(I, to_array(I, a[0])).dtype.kind == 'c')

    def isclose(I, a, k):
        x, y = a[0], a[1]
        kk = dict(zip(('rtol', 'atol'), a[2:4]))
        kk.update({q: k[q] for q in ('rtol', 'atol') if q in k})
        if k.get('equal_nan'):
            raise Unsupported('isclose equal_nan')
        args = dict(rtol=Fraction(1, 10 ** 5), atol=Fraction(1, 10 ** 8))
        for q, v in kk.items():
            args[q] = v if isinstance(v, S) else Fraction(repr(v)) if isinstance(v, float) else Fraction(v)
        for v in (x, y):
            if is_arr(I, v) and cell(I, v).dtype.kind not in 'fiubc':
                raise _exc(TypeError, 'isclose')
            if isinstance(v, (str, SStr)) or v is None:
                raise _exc(TypeError, 'isclose')
        f = lambda p, q: s_isclose(p, q, **args)
        if is_num(x) and is_num(y):
            return f(x, y)
        return elementwise(I, f, x, y, dtype=B1)
    t['isclose'] = Builtin('np.isclose', isclose)
    t['allclose'] = Builtin('np.allclose', lambda I, a, k: np_all(I, [isclose(I, a, k)], {}))

    def array_equal(I, a, k):
        x, y = to_array(I, a[0]), to_array(I, a[1])
        cx, cy = cell(I, x), cell(I, y)
        if cx.ndim != cy.ndim:
            return False
        for p, q in zip(cx.shape, cy.shape):
            if not same_dim(I, p, q):
                return False
        return np_all(I, [I.compare(ast.Eq(), x, y)], {})
    t['array_equal'] = Builtin('np.array_equal', array_equal)
    t['any'] = Builtin('np.any', np_any)
    t['all'] = Builtin('np.all', np_all)
    t['sum'] = Builtin('np.sum', lambda I, a, k: np_sum(I, a, k))
    t['nansum'] = Builtin('np.nansum', lambda I, a, k: np_sum(I, a, k, nan=True))
    t['mean'] = Builtin('np.mean', lambda I, a, k: np_sum(I, a, k, mean=True))
    t['average'] = Builtin('np.average', lambda I, a, k: np_sum(I, a, k, mean=True) if not k else _unsup('average'))

    def prod(I, a, k):
        x = a[0]
        if isinstance(x, tuple):
            r = 1
            for v in x:
                r = I.binop_s(ast.Mult(), r, v)
            return tonp(r) if isinstance(r, S) else r
        if is_num(x):
            return x
        return np_sum(I, a, k, prod=True)
    t['prod'] = Builtin('np.prod', prod)
    for nm, mx, nn, ar in (('min', False, False, False), ('max', True, False, False), ('amin', False, False, False),
                           ('amax', True, False, False), ('nanmin', False, True, False), ('nanmax', True, True, False),
                           ('argmax', True, False, True), ('argmin', False, False, True),
                           ('nanargmax', True, True, True), ('nanargmin', False, True, True)):
        t[nm] = Builtin('np.' + nm, lambda I, a, k, mx=mx, nn=nn, ar=ar: np_extreme(I, a, k, mx, nn, ar))
    t['ptp'] = Builtin('np.ptp', lambda I, a, k: I.binop(ast.Sub(), np_extreme(I, a, k, True), np_extreme(I, a, k, False)))

    def count_nonzero(I, a, k):
        x = to_array(I, a[0])
        return np_sum(I, [map1(I, x, lambda v: wrap(zbv(v)), B1)], {})
    t['count_nonzero'] = Builtin('np.count_nonzero', count_nonzero)
    t['asarray'] = Builtin('np.asarray', lambda I, a, k: to_array(I, a[0], k.get('dtype', a[1] if len(a) > 1 else None)))
    t['asanyarray'] = t['asarray']
    t['ascontiguousarray'] = t['asarray']

    def array(I, a, k):
        for q in k:
            if q not in ('dtype', 'copy'):
                raise Unsupported('np.array(%s)' % q)
        return to_array(I, a[0], k.get('dtype', a[1] if len(a) > 1 else None), copy=k.get('copy', True))
    t['array'] = Builtin('np.array', array)
    t['copy'] = Builtin('np.copy', lambda I, a, k: to_array(I, a[0], copy=True))
    t['atleast_1d'] = Builtin('np.atleast_1d', lambda I, a, k: atleast1(I, a[0]))
    t['zeros'] = Builtin('np.zeros', lambda I, a, k: full(I, a, k, 0))
    t['ones'] = Builtin('np.ones', lambda I, a, k: full(I, a, k, 1))
    t['full'] = Builtin('np.full', lambda I, a, k: full(I, a, k))

    def empty(I, a, k):
        d = as_dtype(k.get('dtype', a[1] if len(a) > 1 else None)) or F8
        shape = shape_of(I, a[0] if a else k['shape'])
        f = z3.Function(T.fresh_name('uninit'), *[Int] * len(shape), Real)
        if d.kind != 'f':
            raise Unsupported('empty dtype')
        return mk(I, shape, d, lambda idx: S(f(*[zi(x) for x in idx]), None, None, True))
    t['empty'] = Builtin('np.empty', empty)

    def like(v):
        def f(I, a, k):
            x = to_array(I, a[0])
            c = cell(I, x)
            d = as_dtype(k.get('dtype', a[1] if len(a) > 1 and v is not None else None)) or c.dtype
            vv = v if v is not None else k.get('fill_value', a[1] if len(a) > 1 else None)
            if 'filt' in c.meta:
                raise Unsupported('like')
            vv = cast(vv, d)
            if isinstance(vv, float) and vv != vv:
                vv = S(T.NAN, z3.BoolVal(True), None, True)
            return mk(I, c.shape, d, lambda idx: vv)
        return f
    t['zeros_like'] = Builtin('np.zeros_like', like(0))
    t['ones_like'] = Builtin('np.ones_like', like(1))
    t['full_like'] = Builtin('np.full_like', like(None))

    def empty_like(I, a, k):
        c = cell(I, to_array(I, a[0]))
        return empty(I, [tuple(wrap(s) if T.isz(s) else s for s in c.shape)], {'dtype': k.get('dtype', c.dtype)})
    t['empty_like'] = Builtin('np.empty_like', empty_like)

    def eye(I, a, k):
        n = shape_of(I, a[0])[0]
        m = n
        if len(a) > 1 and a[1] is not None or k.get('M') is not None:
            m = shape_of(I, a[1] if len(a) > 1 else k['M'])[0]
        if k.get('k', 0) != 0:
            raise Unsupported('eye k')
        return mk(I, (n, m), F8, lambda idx: wrap(z3.If(zi(idx[0]) == zi(idx[1]), z3.RealVal(1), z3.RealVal(0))) if not (isinstance(idx[0], int) and isinstance(idx[1], int)) else Fraction(1 if idx[0] == idx[1] else 0))
    t['eye'] = t['identity'] = Builtin('np.eye', eye)

    def diagflat(I, a, k):
        x = to_array(I, a[0])
        if cell(I, x).ndim == 2:
            x = ravel(I, x)
        c = cell(I, x)
        e = rd(I, c)
        if c.ndim != 1 or k or len(a) > 1:
            raise Unsupported('diagflat')
        n = c.shape[0]

        def elem(idx):
            v = e((idx[0],))
            i, j = idx
            nan, inf = flags(v) if isinstance(v, S) else (None, None)
            cnd = zi(i) == zi(j)
            return S(z3.If(cnd, zr(v), z3.RealVal(0)), AND(cnd, nan) if nan is not None else None,
                     AND(cnd, inf) if inf is not None else None, True)
        return mk(I, (n, n), F8, elem)
    t['diagflat'] = Builtin('np.diagflat', diagflat)

    def diag(I, a, k):
        x = to_array(I, a[0])
        if cell(I, x).ndim == 1:
            return diagflat(I, a, k)
        return diagonal(I, x, *a[1:], **k)
    t['diag'] = Builtin('np.diag', diag)
    t['diagonal'] = Builtin('np.diagonal', lambda I, a, k: diagonal(I, to_array(I, a[0]), *a[1:]))
    t['trace'] = Builtin('np.trace', lambda I, a, k: np_sum(I, [diagonal(I, to_array(I, a[0]))], {}))

    def outer(I, a, k):
        x, y = ravel(I, to_array(I, a[0])), ravel(I, to_array(I, a[1]))
        cx, cy = cell(I, x), cell(I, y)
        return I.binop(ast.Mult(), reshape(I, x, (-1, 1)), reshape(I, y, (1, -1)))
    t['outer'] = Builtin('np.outer', outer)
    t['transpose'] = Builtin('np.transpose', lambda I, a, k: transpose(I, to_array(I, a[0])))
    t['ravel'] = Builtin('np.ravel', lambda I, a, k: ravel(I, to_array(I, a[0])))
    t['reshape'] = Builtin('np.reshape', lambda I, a, k: reshape(I, to_array(I, a[0]), a[1]))
    t['squeeze'] = Builtin('np.squeeze', lambda I, a, k: squeeze(I, a[0], k.get('axis', a[1] if len(a) > 1 else None)))
    t['tril_indices'] = Builtin('np.tril_indices', lambda I, a, k: np_tri_indices(I, a, k, True))
    t['triu_indices'] = Builtin('np.triu_indices', lambda I, a, k: np_tri_indices(I, a, k, False))

    def tri_from(lower):
        def f(I, a, k):
            c = cell(I, a[0])
            return np_tri_indices(I, [c.shape[0] if isinstance(c.shape[0], int) else S(c.shape[0])],
                                  {'k': k.get('k', a[1] if len(a) > 1 else 0), 'm': S(zi(c.shape[1]))}, lower)
        return f
    t['tril_indices_from'] = Builtin('np.tril_indices_from', tri_from(True))
    t['triu_indices_from'] = Builtin('np.triu_indices_from', tri_from(False))

    def tri(lower):
        def f(I, a, k):
            x = to_array(I, a[0])
            c = cell(I, x)
            off = k.get('k', a[1] if len(a) > 1 else 0)
            e = rd(I, c)
            if c.ndim != 2:
                raise Unsupported('tril')
            return mk(I, c.shape, c.dtype, lambda idx: tri_el(e, idx, off, lower))
        return f
    t['tril'] = Builtin('np.tril', tri(True))
    t['triu'] = Builtin('np.triu', tri(False))

    def where(I, a, k):
        from .interp import merge_val
        if len(a) != 3:
            raise Unsupported('where')
        return elementwise(I, lambda c, x, y: merge_val(zbv(c), x, y), a[0], a[1], a[2],
                           dtype=np.result_type(*[cell(I, v).dtype if is_arr(I, v) else dtype_of_scalar(v) for v in a[1:]]))
    t['where'] = Builtin('np.where', where)

    def unique(I, a, k):
        if k:
            raise Unsupported('unique keywords')
        x = to_array(I, a[0])
        c = cell(I, x)
        if c.ndim != 1 or c.dtype.kind not in 'iu':
            raise Unsupported('unique')
        e = rd(I, c)
        if isinstance(c.shape[0], int):
            r = I.builtins['sorted'].fn(I, [I.new_list([e((i,)) for i in range(c.shape[0])], 'set')], {})
            return to_array(I, r)
        s = sorted_set(I, Seq(c.shape[0], lambda k_: e((k_,))))
        return mk(I, (s.n,), I8, lambda idx: s.get(idx[0]))
    t['unique'] = Builtin('np.unique', unique)

    def sort(I, a, k):
        raise Unsupported('np.sort')
    t['sort'] = Builtin('np.sort', sort)

    def arange(I, a, k):
        if k:
            raise Unsupported('arange keywords')
        s = I.range_seq(*a)
        return mk(I, (s.n,), I8, lambda idx: s.get(idx[0]))
    t['arange'] = Builtin('np.arange', arange)

    def unravel_index(I, a, k):
        v, shape = a[0], a[1]
        shape = tuple(simp_int(x) for x in I.to_seq(shape))
        if len(shape) != 2:
            raise Unsupported('unravel_index')
        z = simp_int(v)
        n, m = shape
        if all(isinstance(x, int) for x in (z, n, m)):
            try:
                return tuple(int(x) for x in np.unravel_index(z, shape))
            except ValueError:
                raise _exc(ValueError)
        z = zi(z)
        tot = zi(n) * zi(m)
        if not I.ctx.decide(AND(z >= 0, z < tot)):
            raise _exc(ValueError, 'index is out of bounds')
        q, r = udiv(z, zi(m)), umod(z, zi(m))
        # contract: k = q*m + r, 0<=q<n, 0<=r<m
        I.ctx.assume(AND(q >= 0, q < zi(n), r >= 0, r < zi(m)))
        return (S(q, None, None, True), S(r, None, None, True))
    t['unravel_index'] = Builtin('np.unravel_index', unravel_index)

    def issubdtype(I, a, k):
        x, y = a
        if isinstance(x, (UserClass, ExtClass)) or isinstance(y, (UserClass, ExtClass)):
            x = object if isinstance(x, (UserClass, ExtClass)) else x
            if isinstance(y, (UserClass, ExtClass)):
                raise _exc(TypeError)
        from .interp import Unknown, SPARSE
        if isinstance(x, Unknown) or isinstance(y, Unknown):
            raise Unsupported('issubdtype of unknown')
        if x is SPARSE:
            x = object
        try:
            return bool(np.issubdtype(x, y))
        except TypeError:
            raise _exc(TypeError)
    t['issubdtype'] = Builtin('np.issubdtype', issubdtype)

    def shape(I, a, k):
        return arr_attr(I, to_array(I, a[0]), cell(I, to_array(I, a[0])), 'shape')
    t['shape'] = Builtin('np.shape', shape)
    t['ndim'] = Builtin('np.ndim', lambda I, a, k: cell(I, to_array(I, a[0])).ndim)
    t['size'] = Builtin('np.size', lambda I, a, k: arr_attr(I, to_array(I, a[0]), cell(I, to_array(I, a[0])), 'size'))

    def isscalar(I, a, k):
        return is_num(a[0]) or isinstance(a[0], (str, SStr))
    t['isscalar'] = Builtin('np.isscalar', isscalar)

    class NullCtx(ExtObj):
        nullctx = True
    t['errstate'] = Builtin('np.errstate', lambda I, a, k: NullCtx())

    def fill_diagonal(I, a, k):
        o = a[0]
        c = cell(I, o)
        e = rd(I, c)
        from .interp import merge_val
        v = cast(a[1], c.dtype)
        if not is_num(v):
            raise Unsupported('fill_diagonal')
        I.write_array(o, lambda idx: merge_val(zi(idx[0]) == zi(idx[1]), v, e(idx)))
    t['fill_diagonal'] = Builtin('np.fill_diagonal', fill_diagonal)

    def ix_(I, a, k):
        if len(a) != 2:
            raise Unsupported('ix_')
        x, y = to_array(I, a[0]), to_array(I, a[1])
        return (reshape(I, x, (-1, 1)), reshape(I, y, (1, -1)))
    t['ix_'] = Builtin('np.ix_', ix_)

    def nan_to_num(I, a, k):
        raise Unsupported('nan_to_num')
    t['nan_to_num'] = Builtin('np.nan_to_num', nan_to_num)

    def finfo(I, a, k):
        class FI(ExtObj):
            def getattr_(self, I, name):
                v = getattr(np.finfo(a[0]), name)
                return float(v)
        return FI()
    t['finfo'] = Builtin('np.finfo', finfo)

    def dtypef(I, a, k):
        return as_dtype(a[0])

    def einsum(I, a, k):
        if a and a[0] == 'ij,ij->' and not k:
            return np_sum(I, [I.binop(ast.Mult(), a[1], a[2])], {})
        if a and a[0] == 'ij,ij' and not k:
            return np_sum(I, [I.binop(ast.Mult(), a[1], a[2])], {})
        raise Unsupported('einsum')
    t['einsum'] = Builtin('np.einsum', einsum)

    lin = ModelModule('numpy.linalg', {'norm': Builtin('np.linalg.norm', norm)})
    t['linalg'] = lin
    t['nan'] = float('nan')
    t['inf'] = float('inf')
    t['newaxis'] = None
    t['pi'] = float(np.pi)
    t['ndarray'] = np.ndarray

    def fallback(I, attr):
        v = getattr(np, attr, None)
        if isinstance(v, type) and issubclass(v, np.generic):
            return v
        if attr == 'dtype':
            return Builtin('np.dtype', dtypef)
        if v is None:
            raise _exc(AttributeError, attr)
        return Unknown('numpy.' + attr)
    npm = ModelModule('numpy', t, fallback)

    # ---- scipy.sparse
    sp = {}
    sp['issparse'] = Builtin('issparse', lambda I, a, k: is_arr(I, a[0]) and bool(cell(I, a[0]).sparse))
    sp['isspmatrix'] = sp['issparse']

    def lil(I, a, k, fmt='lil'):
        x = a[0]
        d = as_dtype(k.get('dtype'))
        if isinstance(x, tuple):
            sh = shape_of(I, x)
            return mk(I, sh, d or F8, lambda idx: Fraction(0), sparse=fmt)
        if is_arr(I, x):
            c = cell(I, x)
            return mk(I, c.shape, d or c.dtype, rd(I, c), sparse=fmt)
        raise Unsupported('sparse constructor')
    for f in ('lil', 'csr', 'csc', 'coo', 'dok'):
        for suf in ('_matrix', '_array'):
            sp[f + suf] = Builtin(f + suf, lambda I, a, k, f=f: lil(I, a, k, f))

    def sptri(lower):
        def f(I, a, k):
            x = a[0]
            if not is_arr(I, x):
                x = to_array(I, x)
            c = cell(I, x)
            off = k.get('k', a[1] if len(a) > 1 else 0)
            e = rd(I, c)
            fm = k.get('format', a[2] if len(a) > 2 else None) or 'coo'
            return mk(I, c.shape, c.dtype, lambda idx: tri_el(e, idx, off, lower), sparse=fm)
        return f
    sp['triu'] = Builtin('sparse.triu', sptri(False))
    sp['tril'] = Builtin('sparse.tril', sptri(True))
    spm = ModelModule('scipy.sparse', sp)
    return {'numpy': npm, 'numpy.linalg': lin, 'scipy.sparse': spm}


def tri_el(e, idx, off, lower):
    from .interp import merge_val
    i, j = zi(idx[0]), zi(idx[1])
    c = j - i <= zi(off) if lower else j - i >= zi(off)
    c = z3.simplify(c)
    if z3.is_true(c):
        return e(idx)
    if z3.is_false(c):
        return Fraction(0)
    return merge_val(c, e(idx), Fraction(0))


def atleast1(I, v):
    x = to_array(I, v)
    c = cell(I, x)
    if c.ndim == 0:
        e = rd(I, c)
        return mk(I, (1,), c.dtype, lambda idx: e(()))
    return x


def tonp_any(I, v):
    if isinstance(v, S):
        return tonp(v)
    return v


def mm_scalar(I, ismax, a):
    for v in a[:2]:
        if not is_num(v):
            if isinstance(v, (str, SStr)) or v is None:
                raise _exc(TypeError, 'maximum')
            raise Unsupported('np.maximum')
    return s_minmax(ismax)(a[0], a[1])


def map1x(I, v, f):
    if isinstance(v, (str, SStr)) or v is None or isinstance(v, (Opq,)):
        raise _exc(TypeError, 'ufunc not supported for the input types')
    if is_arr(I, v):
        c = cell(I, v)
        if c.sparse:
            raise _exc(TypeError, 'ufunc not supported for sparse')
        if c.dtype.kind not in 'fiub':
            raise _exc(TypeError, 'ufunc not supported for the input types')
    return map1(I, v, f, B1)
