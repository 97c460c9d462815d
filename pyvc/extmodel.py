"""Assumed contracts of the builtins and of the other libraries used by the code."""
import ast
import abc
import collections.abc
import numbers
import warnings as _warnings
from fractions import Fraction
import numpy as np
import z3
from . import terms as T
from . import npmodel as NP
from .terms import S, Unsupported, Int, Real, Bool, StrS, ObjS, AND, OR, NOT, ITE, IMP, zb, zi, zr
from .core import Ref, PyExc, ExcVal, Infeasible
from .values import *

NUMS = (int, float, Fraction)


def _exc(cls, *a):
    return PyExc(ExcVal(cls, a))


# ---------------------------------------------------------------- grids (itertools.product)
upair = z3.Function('upair', Int, Int, Int, Int)
GRIDS = {}


def _upair_ax(a):
    i, j, m = a.children()
    out = [IMP(AND(i >= 0, j >= 0, j < m), AND(NP.udiv(a, m) == i, NP.umod(a, m) == j, a >= 0))]
    if z3.is_int_value(m):
        out.append(a == i * m + j)
    for na, N in GRIDS.get(m.sexpr(), {}).values():
        out.append(IMP(AND(i >= 0, i < na, j >= 0, j < m), AND(a >= 0, a < N)))
    return out


def _ud2(a):
    k, m = a.arg(0), a.arg(1)
    q, r = NP.udiv(k, m), NP.umod(k, m)
    out = [IMP(AND(m > 0, k >= 0), AND(r >= 0, r < m, q >= 0, upair(q, r, m) == k))]
    if z3.is_int_value(m):
        out.append(IMP(AND(m > 0, k >= 0), k == q * m + r))
    for na, N in GRIDS.get(m.sexpr(), {}).values():
        out.append(IMP(AND(k >= 0, k < N), AND(q >= 0, q < na, r >= 0, r < m)))
    return out


T.SCHEMAS['upair'] = _upair_ax
T.SCHEMAS['udiv'] = T.SCHEMAS['umod'] = _ud2


def grid_seq(I, a, b):
    na = len(a) if isinstance(a, tuple) else a.n
    nb = len(b) if isinstance(b, tuple) else b.n
    if isinstance(na, int) and isinstance(nb, int):
        return tuple((I.seq_at(a, i), I.seq_at(b, j)) for i in range(na) for j in range(nb))
    za, zb_ = zi(na), zi(nb)
    N = z3.simplify(za * zb_)
    GRIDS.setdefault(z3.simplify(zb_).sexpr(), {})[(za.sexpr(), N.sexpr())] = (za, N)
    I.ctx.assume(AND(IMP(AND(za > 0, zb_ > 0), N > 0), IMP(OR(za <= 0, zb_ <= 0), N <= 0)))
    m = z3.simplify(zb_)
    if na == 1:
        return Seq(nb, lambda k: (I.seq_at(a, 0), I.seq_at(b, k)))
    if nb == 1:
        return Seq(na, lambda k: (I.seq_at(a, k), I.seq_at(b, 0)))

    def get(k):
        q, r = NP.udiv(zi(k), m), NP.umod(zi(k), m)
        return (I.seq_at(a, q), I.seq_at(b, r))

    def at(e, idx):
        i, j = zi(idx[0]), zi(idx[1])
        k = T.fresh('gk', Int)
        v = e((k,))

        def f(x):
            if x is None:
                return None
            x = T.subst(x, (NP.udiv(k, m), i), (NP.umod(k, m), j))
            return T.subst(x, (k, upair(i, j, m)))
        if isinstance(v, S):
            return S(f(v.e), f(v.nan), f(v.inf), v.np)
        return v
    # iterating with an empty factor yields nothing
    n = N if not (isinstance(na, int) or isinstance(nb, int)) else simp_int(za * zb_)
    return Seq(n, get, grid={'dims': (na, nb), 'at': at},
               meta={'grid_inv': (m, za), 'assume': lambda k: AND(NP.udiv(k, m) >= 0, NP.udiv(k, m) < za, NP.umod(k, m) >= 0, NP.umod(k, m) < zb_)})


# ---------------------------------------------------------------- builtins
def as_items(I, v):
    return I.to_seq(v)


def b_any(I, a, k):
    s = I.to_seq(a[0])
    if isinstance(s, tuple):
        for x in s:
            if I.truth(x):
                return True
        return False
    def f(idx):
        v = s.get(idx[0])
        if isinstance(v, (S, bool) + NUMS):
            return NP.zbv(v)
        raise Unsupported('any() of objects')
    return NP.exists(I, (s.n,), f)


def b_all(I, a, k):
    s = I.to_seq(a[0])
    if isinstance(s, tuple):
        for x in s:
            if not I.truth(x):
                return False
        return True
    def f(idx):
        v = s.get(idx[0])
        if isinstance(v, (S, bool) + NUMS):
            return NOT(NP.zbv(v))
        raise Unsupported('all() of objects')
    r = NP.exists(I, (s.n,), f, 'notall')
    return wrap(NOT(r.e)) if isinstance(r, S) else not r


def b_minmax(ismax):
    def f(I, a, k):
        if k:
            raise Unsupported('min/max keywords')
        items = a
        if len(a) == 1:
            s = I.to_seq(a[0])
            if not isinstance(s, tuple):
                return NP.np_extreme(I, [I.new_list(s)], {}, ismax)
            items = list(s)
            if not items:
                raise _exc(ValueError, 'empty sequence')
        r = items[0]
        for x in items[1:]:
            c = I.compare(ast.Gt() if ismax else ast.Lt(), x, r)
            if isinstance(c, S):
                from .interp import merge_val
                r = merge_val(c.e, x, r)
            elif I.truth(c):
                r = x
        return r
    return f


def b_sum(I, a, k):
    s = I.to_seq(a[0])
    start = a[1] if len(a) > 1 else k.get('start', 0)
    if isinstance(s, tuple):
        r = start
        for x in s:
            r = I.binop(ast.Add(), r, x)
        return r
    v = s.get(T.fresh('k', Int))
    if isinstance(v, (S,) + NUMS):
        r = NP.np_sum(I, [I.new_list(s)], {})
        return I.binop(ast.Add(), start, r)
    raise Unsupported('sum of objects')


def b_sorted(I, a, k):
    if k.get('key') is not None:
        raise Unsupported('sorted key')
    x = a[0]
    isset = isinstance(x, Ref) and isinstance(I.ctx.get(x), LCell) and I.ctx.get(x).kind == 'set'
    if isset and not isinstance(I.ctx.get(x).seq, tuple):
        r = NP.sorted_set(I, I.ctx.get(x).seq)
    else:
        s = I.to_seq(x)
        if not isinstance(s, tuple):
            if 'sorted' in s.meta or 'uniq' in s.meta:
                r = s
            elif 'sorted_as' in s.meta:
                r = s.meta['sorted_as']
            else:
                raise Unsupported('sorted of a symbolic sequence')
        else:
            items = []
            for y in s:      # insertion sort, stable
                i = len(items)
                while i > 0 and I.truth(I.compare(ast.Lt(), y, items[i - 1])):
                    i -= 1
                items.insert(i, y)
            r = tuple(items)
    if k.get('reverse'):
        from .interp import reverse_seq
        r = reverse_seq(r)
    return I.new_list(r)


def b_zip(I, a, k):
    ss = [I.to_seq(x) for x in a]
    if not ss:
        return Gen(())
    if all(isinstance(s, tuple) for s in ss):
        return Gen(tuple(zip(*ss)))
    ns = [len(s) if isinstance(s, tuple) else s.n for s in ss]
    n = ns[0]
    for m in ns[1:]:
        if not NP.same_dim(I, n, m):
            n = simp_int(z3.If(zi(n) < zi(m), zi(n), zi(m)))
    return Gen(Seq(n, lambda k: tuple(I.seq_at(s, k) for s in ss)))


def b_enumerate(I, a, k):
    s = I.to_seq(a[0])
    st = a[1] if len(a) > 1 else k.get('start', 0)
    if isinstance(s, tuple):
        return Gen(tuple((i + st, x) for i, x in enumerate(s)))
    return Gen(Seq(s.n, lambda k: (wrap(simp_int(zi(k) + st)) if T.isz(k) else k + st, s.get(k))))


def b_map(I, a, k):
    ss = [I.to_seq(x) for x in a[1:]]
    if all(isinstance(s, tuple) for s in ss):
        return Gen(tuple(I.call(a[0], list(t), {}) for t in zip(*ss)))
    out = I.ctx.alloc(LCell((), 'list'))
    z = I.to_seq(b_zip(I, [*a[1:]], {}))
    fr = None

    def body(v):
        I.list_append(out, I.call(a[0], list(v), {}))
    I.loop(z, body, None)
    return Gen(I.ctx.get(out).seq)


def b_list(I, a, k, kind='list'):
    if not a:
        return I.new_list((), kind)
    s = I.to_seq(a[0])
    return I.new_list(s, kind)


def b_tuple(I, a, k):
    if not a:
        return ()
    s = I.to_seq(a[0])
    if isinstance(s, tuple):
        return s
    if s.concrete:
        return tuple(s.get(i) for i in range(s.n))
    return Seq(s.n, s.get, grid=s.grid)


def b_dict(I, a, k):
    d = {}
    if a:
        x = a[0]
        c = I.ctx.get(x) if isinstance(x, Ref) else None
        if isinstance(c, DCell):
            if c.sym is not None:
                if k:
                    raise Unsupported('dict()')
                return I.ctx.alloc(c)
            d.update(c.items)
        else:
            s = I.to_seq(x)
            if not isinstance(s, tuple):
                raise Unsupported('dict of a symbolic sequence')
            for p in s:
                kk, v = I.to_seq(p)
                d[I.hkey(kk)] = v
    d.update(k)
    return I.ctx.alloc(DCell(d))


def b_set(I, a, k):
    return b_list(I, a, k, 'set')


def b_type(I, a, k):
    if len(a) != 1:
        raise Unsupported('type()')
    return I.type_of(a[0])


def b_int(I, a, k):
    if not a:
        return 0
    v = a[0]
    if isinstance(v, (bool, int)):
        return int(v)
    if isinstance(v, (float, Fraction)):
        return int(v)
    if isinstance(v, S):
        if v.e.sort() == Real:
            return S(NP.trunc(v.e))
        return S(zi(v))
    if NP.is_arr(I, v):
        c = I.ctx.get(v)
        if c.ndim == 0:
            return b_int(I, [NP.rd(I, c)(())], {})
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            raise _exc(ValueError)
    if v is None or isinstance(v, tuple):
        raise _exc(TypeError)
    raise Unsupported('int(%r)' % (v,))


def b_float(I, a, k):
    if not a:
        return 0.0
    v = a[0]
    if isinstance(v, (bool, int)):
        return Fraction(int(v))
    if isinstance(v, (float, Fraction)):
        return v
    if isinstance(v, S):
        return S(zr(v), v.nan, v.inf, False)
    if isinstance(v, str):
        try:
            return float(v)
        except ValueError:
            raise _exc(ValueError)
    if NP.is_arr(I, v):
        c = I.ctx.get(v)
        if c.ndim == 0:
            return b_float(I, [NP.rd(I, c)(())], {})
        one = AND(*[zi(s) == 1 for s in c.shape])
        if not I.ctx.decide(one):
            raise _exc(TypeError, 'only length-1 arrays can be converted')
        return b_float(I, [NP.rd(I, c)((0,) * c.ndim)], {})
    if v is None or isinstance(v, tuple):
        raise _exc(TypeError)
    raise Unsupported('float(%r)' % (v,))


def b_bool(I, a, k):
    if not a:
        return False
    v = a[0]
    if isinstance(v, S) and v.e.sort() == Bool:
        return S(v.e)
    return I.truth(v)


def b_str(I, a, k):
    if not a:
        return ''
    v = a[0]
    if isinstance(v, (str, SStr)):
        return v
    if isinstance(v, Ref):
        c = I.ctx.get(v)
        if isinstance(c, OCell):
            for nm in ('__str__', '__repr__'):
                f, _ = c.cls.lookup(nm)
                if f is not None:
                    return I.call(Bound(f, v), [], {})
    if isinstance(v, (bool, int)) or v is None:
        return str(v)
    if isinstance(v, ExtObj) and hasattr(v, 'str_'):
        return v.str_(I)
    return SStr(T.fresh('str', StrS))


def b_abs(I, a, k):
    v = a[0]
    if NP.is_arr(I, v):
        return NP.map1(I, v, NP.s_abs)
    if isinstance(v, S):
        r = NP.s_abs(v)
        return S(r.e, r.nan, r.inf, v.np)
    if isinstance(v, NUMS):
        return abs(v)
    raise _exc(TypeError)


def b_getattr(I, a, k):
    if not isinstance(a[1], str):
        raise Unsupported('getattr with symbolic name')
    if len(a) > 2:
        try:
            return I.getattr(a[0], a[1])
        except PyExc as e:
            from .interp import subclass
            if subclass(e.val.cls, AttributeError):
                return a[2]
            raise
    return I.getattr(a[0], a[1])


def b_name(a):
    if not isinstance(a, str):
        raise Unsupported('attribute with symbolic name')
    return a


def b_range(I, a, k):
    s = I.range_seq(*a)
    return s


def b_reversed(I, a, k):
    from .interp import reverse_seq
    return Gen(reverse_seq(I.to_seq(a[0])))


def b_filter(I, a, k):
    s = I.to_seq(a[1])
    if not isinstance(s, tuple):
        raise Unsupported('filter')
    return Gen(tuple(x for x in s if I.truth(x if a[0] is None else I.call(a[0], [x], {}))))


def b_next(I, a, k):
    g = a[0]
    if not isinstance(g, Gen):
        raise Unsupported('next')
    s = g.seq
    if isinstance(s, tuple):
        if not s:
            if len(a) > 1:
                return a[1]
            raise _exc(StopIteration)
        g.seq = s[1:]
        return s[0]
    if not I.ctx.decide(zi(s.n) > 0):
        if len(a) > 1:
            return a[1]
        raise _exc(StopIteration)
    g.seq = Seq(simp_int(zi(s.n) - 1), lambda k_: s.get(simp_int(zi(k_) + 1)))
    return s.get(0)


def b_round(I, a, k):
    v = a[0]
    if isinstance(v, int):
        return v
    raise Unsupported('round')


def b_slice(I, a, k):
    if len(a) == 1:
        return SliceV(None, a[0], None)
    return SliceV(*(list(a) + [None])[:3])


def b_isinstance(I, a, k):
    cls = a[1]
    if isinstance(cls, Ref):
        raise _exc(TypeError)
    return I.isinstance(a[0], cls)


def b_issubclass(I, a, k):
    from .interp import subclass, Unknown
    if isinstance(a[0], Unknown) or isinstance(a[1], Unknown):
        raise Unsupported('issubclass')
    return subclass(a[0], a[1])


def b_hash(I, a, k):
    raise Unsupported('hash')


def builtins(I0):
    t = {}

    def B(name, f):
        t[name] = Builtin(name, f)
    B('len', lambda I, a, k: I.length(a[0]))
    B('any', b_any)
    B('all', b_all)
    B('min', b_minmax(False))
    B('max', b_minmax(True))
    B('sum', b_sum)
    B('sorted', b_sorted)
    B('zip', b_zip)
    B('enumerate', b_enumerate)
    B('map', b_map)
    B('filter', b_filter)
    B('next', b_next)
    B('iter', lambda I, a, k: a[0] if isinstance(a[0], Gen) else Gen(I.to_seq(a[0])))
    B('reversed', b_reversed)
    B('isinstance', b_isinstance)
    B('issubclass', b_issubclass)
    B('hasattr', lambda I, a, k: I.hasattr(a[0], b_name(a[1])))
    B('getattr', b_getattr)
    B('setattr', lambda I, a, k: I.setattr(a[0], b_name(a[1]), a[2]))
    B('delattr', lambda I, a, k: I.delattr(a[0], b_name(a[1])))
    B('callable', lambda I, a, k: I.callable(a[0]))
    B('abs', b_abs)
    B('print', lambda I, a, k: None)
    B('repr', lambda I, a, k: SStr(T.fresh('str', StrS)))
    B('format', lambda I, a, k: SStr(T.fresh('str', StrS)))
    B('round', b_round)
    B('id', lambda I, a, k: S(T.fresh('id', Int)))
    B('divmod', lambda I, a, k: (I.binop(ast.FloorDiv(), a[0], a[1]), I.binop(ast.Mod(), a[0], a[1])))
    B('pow', lambda I, a, k: I.binop(ast.Pow(), a[0], a[1]))
    for ty, f in ((list, b_list), (tuple, b_tuple), (dict, b_dict), (set, b_set), (frozenset, b_set), (int, b_int),
                  (float, b_float), (bool, b_bool), (str, b_str), (type, b_type), (range, b_range),
                  (slice, b_slice), (object, lambda I, a, k: Opq(T.fresh('obj', ObjS)))):
        t[ty.__name__] = ty
        t[('type', ty)] = Builtin(ty.__name__, f)
    for ty in (property, staticmethod, classmethod):
        t[ty.__name__] = ty
    t[('type', property)] = Builtin('property', lambda I, a, k: Prop(*a))
    t[('type', staticmethod)] = Builtin('staticmethod', lambda I, a, k: StaticM(*a))
    t[('type', classmethod)] = Builtin('classmethod', lambda I, a, k: ClassM(*a))
    import builtins as bi
    for nm in dir(bi):
        v = getattr(bi, nm)
        if isinstance(v, type) and issubclass(v, BaseException):
            t[nm] = v
    t['NotImplemented'] = NotImplemented
    t['__name__'] = '__main__'
    return t


# ---------------------------------------------------------------- libraries
class _Sig(ExtObj):
    def __init__(self, n):
        self.n = n

    def getattr_(self, I, name):
        if name == 'parameters':
            return self
        raise Unsupported('signature.%s' % name)

    def len_(self, I):
        return self.n


def b_signature(I, a, k):
    f = a[0]
    off = 0
    if isinstance(f, Bound):
        f, off = f.func, 1
    if isinstance(f, Ref):
        c = I.ctx.get(f)
        if isinstance(c, OCell):
            f, _ = c.cls.lookup('__call__')
            off = 1
    if isinstance(f, UserFunc):
        ar = f.node.args
        return _Sig(len(ar.posonlyargs) + len(ar.args) + len(ar.kwonlyargs) + (ar.vararg is not None) + (ar.kwarg is not None) - off)
    if isinstance(f, ExtObj) and hasattr(f, 'nparams'):
        return _Sig(f.nparams(I))
    raise Unsupported('signature of %r' % (f,))


def b_warn(I, a, k):
    c = a[1] if len(a) > 1 else k.get('category', UserWarning)
    I.ctx.log('warn', c)
    return None


def shallow_copy(I, a, k):
    v = a[0]
    if isinstance(v, Ref):
        c = I.ctx.get(v)
        if isinstance(c, ACell):
            return NP.mk(I, c.shape, c.dtype, NP.rd(I, c), sparse=c.sparse, meta=NP.keepmeta(c))
        if isinstance(c, OCell):
            return I.ctx.alloc(OCell(c.cls, dict(c.fields)))
        return I.ctx.alloc(c)
    return v


def deep_copy(I, a, k, memo=None):
    memo = {} if memo is None else memo
    v = a[0]

    def go(x):
        if isinstance(x, Ref):
            if x.a in memo:
                return memo[x.a]
            c = I.ctx.get(x)
            if isinstance(c, ACell):
                r = NP.mk(I, c.shape, c.dtype, NP.rd(I, c), sparse=c.sparse, meta=NP.keepmeta(c))
                memo[x.a] = r
                return r
            r = I.ctx.alloc(None)
            memo[x.a] = r
            if isinstance(c, OCell):
                I.ctx.set(r, OCell(c.cls, {n: go(y) for n, y in c.fields.items()}))
            elif isinstance(c, LCell):
                if not isinstance(c.seq, tuple):
                    raise Unsupported('deepcopy of a symbolic list')
                I.ctx.set(r, LCell(tuple(go(y) for y in c.seq), c.kind))
            elif isinstance(c, DCell):
                if c.sym is not None:
                    I.ctx.set(r, c)
                else:
                    I.ctx.set(r, DCell({n: go(y) for n, y in c.items.items()}))
            else:
                raise Unsupported('deepcopy')
            return r
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if isinstance(x, ExtObj) and hasattr(x, 'copy_'):
            return x.copy_(I)
        return x
    return go(v)


def modules(I0):
    from .interp import ModelModule, Unknown
    M = {}

    def mod(name, table, fallback=None):
        M[name] = ModelModule(name, table, fallback)
        return M[name]

    def Bf(name, f):
        return Builtin(name, f)
    mod('abc', {'ABC': abc.ABC, 'abstractmethod': Bf('abstractmethod', lambda I, a, k: a[0]), 'ABCMeta': Bf('ABCMeta', None)})
    mod('collections.abc', {n: getattr(collections.abc, n) for n in
                            ('Iterable', 'Sequence', 'Sized', 'Collection', 'Callable', 'Mapping')})
    mod('collections', {'abc': M['collections.abc']})
    mod('numbers', {n: getattr(numbers, n) for n in ('Number', 'Real', 'Integral')})
    mod('copy', {'copy': Bf('copy', shallow_copy), 'deepcopy': Bf('deepcopy', deep_copy)})

    def product(I, a, k):
        if k:
            if a and isinstance(k.get('repeat'), int) and len(a) == 1:
                a = list(a) * k['repeat']
            else:
                raise Unsupported('product')
        ss = [I.to_seq(x) for x in a]
        if len(ss) == 2:
            return Gen(grid_seq(I, *ss))
        if all(isinstance(s, tuple) for s in ss):
            import itertools
            return Gen(tuple(itertools.product(*ss)))
        raise Unsupported('product of %d' % len(ss))

    def chain(I, a, k):
        s = ()
        for x in a:
            s = I.concat(s, I.to_seq(x))
        return Gen(s)

    def repeat(I, a, k):
        n = a[1] if len(a) > 1 else k.get('times')
        if n is None:
            raise Unsupported('infinite repeat')
        v = a[0]
        n = simp_int(n)
        return Gen((v,) * n if isinstance(n, int) else Seq(n, lambda k_: v))

    def comb(I, a, k):
        s = I.to_seq(a[0])
        import itertools
        if isinstance(s, tuple) and isinstance(a[1], int):
            return Gen(tuple(itertools.combinations(s, a[1])))
        raise Unsupported('combinations')
    mod('itertools', {'product': Bf('product', product), 'chain': Bf('chain', chain), 'repeat': Bf('repeat', repeat),
                      'combinations': Bf('combinations', comb)})

    class CW(ExtObj):
        nullctx = True
    mod('warnings', {'warn': Bf('warn', b_warn), 'catch_warnings': Bf('catch_warnings', lambda I, a, k: CW()),
                     'simplefilter': Bf('simplefilter', lambda I, a, k: None),
                     'filterwarnings': Bf('filterwarnings', lambda I, a, k: None)})

    def opf(op):
        return lambda I, a, k: I.binop(op, a[0], a[1])
    mod('operator', {'add': Bf('operator.add', opf(ast.Add())), 'mul': Bf('operator.mul', opf(ast.Mult())),
                     'sub': Bf('operator.sub', opf(ast.Sub())), 'truediv': Bf('operator.truediv', opf(ast.Div())),
                     'itemgetter': Bf('itemgetter', lambda I, a, k: Builtin('itemgetter', lambda I, b, k2: I.getitem(b[0], a[0])))})

    def reduce(I, a, k):
        s = I.to_seq(a[1])
        if not isinstance(s, tuple):
            raise Unsupported('reduce')
        s = list(s)
        r = a[2] if len(a) > 2 else s.pop(0)
        for x in s:
            r = I.call(a[0], [r, x], {})
        return r
    mod('functools', {'partial': Bf('partial', lambda I, a, k: Partial(a[0], tuple(a[1:]), dict(k))),
                      'reduce': Bf('reduce', reduce),
                      'wraps': Bf('wraps', lambda I, a, k: Builtin('wraps-deco', lambda I, b, k2: b[0]))})
    mod('traceback', {'print_exc': Bf('print_exc', lambda I, a, k: None)})
    mod('inspect', {'signature': Bf('signature', b_signature)})
    mod('math', {'sqrt': Bf('math.sqrt', lambda I, a, k: math1(I, a[0], 'sqrt')), 'exp': Bf('math.exp', lambda I, a, k: math1(I, a[0], 'exp')),
                 'inf': float('inf'), 'nan': float('nan'), 'isnan': Bf('math.isnan', lambda I, a, k: NP.s_isnan(a[0])),
                 'isfinite': Bf('math.isfinite', lambda I, a, k: NP.s_isfinite(a[0]))})
    LinAlgError = np.linalg.LinAlgError
    eigf = z3.Function('eigenvalue', Int, Int, Real)

    def eigh(I, a, k):
        """assumed contract: the eigenvalues of the matrix, ascending; raises LinAlgError or
        ValueError instead where it cannot be computed"""
        x = NP.to_array(I, a[0])
        c = I.ctx.get(x)
        hook = getattr(I, 'eigh_hook', None)
        if hook is not None:
            return hook(I, x, c, k)
        raise Unsupported('eigh')
    mod('scipy.linalg', {'LinAlgError': LinAlgError, 'eigh': Bf('eigh', eigh), 'eigvalsh': Bf('eigvalsh', eigh)})
    M['numpy.linalg'] = None

    def pearsonr(I, a, k):
        hook = getattr(I, 'pearson_hook', None)
        if hook is None:
            raise Unsupported('pearsonr')
        return hook(I, a, k)
    mod('scipy.stats', {'pearsonr': Bf('pearsonr', pearsonr)})
    del M['numpy.linalg']

    # ---- scikit-learn
    def hooked(name):
        def f(I, a, k):
            h = getattr(I, 'sk_hooks', {}).get(name)
            if h is None:
                raise Unsupported('sklearn %s' % name)
            return h(I, a, k)
        return Bf(name, f)
    be = ExtClass('BaseEstimator', {'get_params': hooked('get_params'), 'set_params': hooked('set_params')}, (object,))
    cm = ExtClass('ClassifierMixin', {'_estimator_type': 'classifier'}, (object,))
    rm = ExtClass('RegressorMixin', {'_estimator_type': 'regressor'}, (object,))
    svc = ExtClass('SVC', {'__new__': hooked('SVC'), '__init__': hooked('SVC.__init__'), 'fit': hooked('SVC.fit'),
                           'predict': hooked('SVC.predict')}, (cm, be))
    svr = ExtClass('SVR', {'__new__': hooked('SVR'), '__init__': hooked('SVR.__init__'), 'fit': hooked('SVR.fit'),
                           'predict': hooked('SVR.predict')}, (rm, be))

    def is_cls(nm):
        def f(I, a, k):
            return I.getattr(a[0], '_estimator_type') == nm if I.hasattr(a[0], '_estimator_type') else False
        return f
    mod('sklearn.base', {'BaseEstimator': be, 'ClassifierMixin': cm, 'RegressorMixin': rm,
                         'is_classifier': Bf('is_classifier', is_cls('classifier')),
                         'is_regressor': Bf('is_regressor', is_cls('regressor')),
                         'clone': hooked('clone')})

    class NotFittedError(ValueError, AttributeError):
        pass
    mod('sklearn.exceptions', {'NotFittedError': NotFittedError})
    mod('sklearn.svm', {'SVC': svc, 'SVR': svr})
    mod('sklearn.model_selection', {'GridSearchCV': hooked('GridSearchCV')})
    mod('sklearn.utils.validation', {'check_X_y': hooked('check_X_y'), 'check_array': hooked('check_array')})
    mod('sklearn.utils', {'validation': M['sklearn.utils.validation'], 'check_X_y': hooked('check_X_y'), 'check_array': hooked('check_array')})
    mod('sklearn', {n.split('.')[1]: M[n] for n in list(M) if n.startswith('sklearn.') and n.count('.') == 1})
    mod('scipy', {'linalg': M['scipy.linalg'], 'stats': M['scipy.stats']})
    return M


def math1(I, v, fn):
    if not isinstance(v, (S,) + NUMS):
        raise _exc(TypeError)
    if fn == 'sqrt':
        if isinstance(v, S) and I.ctx.decide(zr(v) < 0):
            raise _exc(ValueError)
        r = NP.s_sqrt(v)
    else:
        r = NP.s_fun(T.exp_f)(v)
    return S(r.e, r.nan, r.inf, False) if isinstance(r, S) else r
