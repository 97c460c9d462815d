"""Term layer of the verifier: symbolic scalars, bounded sums, ring normaliser, lemma schemas.

All quantities are exact reals/integers.  Sums over a symbolic range are uninterpreted
applications  Sum[canonical body](hi, params...)  whose meaning is kept in a side table, so that
they can be substituted into, compared by congruence, normalised (linearity, one-point rule,
constant factors) and unfolded into lemma instances (extensionality, sign).
"""
from fractions import Fraction
import itertools
import z3

Int, Real, Bool = z3.IntSort(), z3.RealSort(), z3.BoolSort()
Vec = z3.DeclareSort('Vec')      # contents of a row / of a 1-D array
ObjS = z3.DeclareSort('Obj')     # opaque python objects
StrS = z3.StringSort()

z3.set_param('memory_max_size', 6000)


class Unsupported(Exception):
    """the code (or a use of a library) is outside the modelled subset"""


class S:
    """symbolic scalar. nan/inf: Bool conditions under which the IEEE value is not a finite number"""
    __slots__ = ('e', 'nan', 'inf', 'np')

    def __init__(self, e, nan=None, inf=None, np=False):
        self.e, self.nan, self.inf, self.np = e, nan, inf, np

    def __repr__(self):
        return 'S(%s%s)' % (self.e, ' nan:%s' % self.nan if self.nan is not None else '')

    def __hash__(self):
        raise Unsupported('hash of a symbolic value')

    def __eq__(self, o):
        raise Unsupported('python == on symbolic value')

    def __bool__(self):
        raise Unsupported('python truth of symbolic value')


CTR = [0]
_gctr = itertools.count()


def fresh_name(p):
    CTR[0] += 1
    return '%s!%d' % (p, CTR[0])


def gname(p):
    """name of a symbol that is cached across paths"""
    return '%s#%d' % (p, next(_gctr))


def fresh(p, sort):
    return z3.Const(fresh_name(p), sort)


NAN = z3.Const('NaN', Real)
INFC = z3.Const('Inf', Real)


def num(v):
    """python number -> z3 numeral (exact)"""
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(v)
    if isinstance(v, float):
        return z3.RealVal(Fraction(v))
    raise Unsupported('num %r' % (v,))


def isz(e):
    return isinstance(e, z3.ExprRef)


def zi(v):
    """to z3 Int"""
    if isinstance(v, S):
        v = v.e
    if isz(v):
        if v.sort() == Int:
            return v
        if v.sort() == Bool:
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        raise Unsupported('Int expected, got %s' % v.sort())
    if isinstance(v, (bool, int)):
        return z3.IntVal(int(v))
    import numpy as _np
    if isinstance(v, _np.integer):
        return z3.IntVal(int(v))
    raise Unsupported('Int expected: %r' % (v,))


def zr(v):
    """to z3 Real"""
    if isinstance(v, S):
        v = v.e
    if isz(v):
        if v.sort() == Real:
            return v
        if v.sort() == Int:
            if z3.is_int_value(v):
                return z3.RealVal(v.as_long())
            return z3.ToReal(v)
        if v.sort() == Bool:
            return z3.If(v, z3.RealVal(1), z3.RealVal(0))
        raise Unsupported('Real expected, got sort %s' % v.sort())
    if isinstance(v, bool):
        return z3.RealVal(int(v))
    if isinstance(v, int):
        return z3.RealVal(v)
    if isinstance(v, (float, Fraction)):
        if v != v:
            return NAN
        if v in (float('inf'), float('-inf')):
            return INFC if v > 0 else -INFC
        return z3.RealVal(Fraction(v))
    import numpy as _np
    if isinstance(v, _np.generic):
        return zr(v.item())
    raise Unsupported('Real expected: %r' % (v,))


def zb(v):
    if isinstance(v, S):
        v = v.e
    if isz(v):
        if v.sort() == Bool:
            return v
        return v != 0
    return z3.BoolVal(bool(v))


def AND(*a):
    out = []
    for x in a:
        if x is None or x is True:
            continue
        if x is False:
            return z3.BoolVal(False)
        x = zb(x)
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return z3.BoolVal(False)
        out.append(x)
    if not out:
        return z3.BoolVal(True)
    return out[0] if len(out) == 1 else z3.And(*out)


def OR(*a):
    out = []
    for x in a:
        if x is None or x is False:
            continue
        if x is True:
            return z3.BoolVal(True)
        x = zb(x)
        if z3.is_false(x):
            continue
        if z3.is_true(x):
            return z3.BoolVal(True)
        out.append(x)
    if not out:
        return z3.BoolVal(False)
    return out[0] if len(out) == 1 else z3.Or(*out)


def NOT(x):
    x = zb(x)
    if z3.is_true(x):
        return z3.BoolVal(False)
    if z3.is_false(x):
        return z3.BoolVal(True)
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def IMP(a, b):
    return OR(NOT(a), b)


def ITE(c, a, b):
    c = zb(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


# ---------------------------------------------------------------- axiom schemas
# decl name -> fn(app) -> list of facts (true by definition of that symbol)
SCHEMAS = {}
# decl name -> (bound const, hi const, [param consts], body)
SUMS = {}
_SUMBYKEY = {}

sqrt_f = z3.Function('sqrt', Real, Real)
exp_f = z3.Function('exp', Real, Real)
log_f = z3.Function('log', Real, Real)
tanh_f = z3.Function('tanh', Real, Real)
pow_f = z3.Function('pow', Real, Real, Real)
abs_tag = None


def _sqrt_ax(a):
    x = a.arg(0)
    return [z3.Implies(x >= 0, z3.And(a >= 0, a * a == x)), z3.Implies(x > 0, a > 0)]


def _exp_ax(a):
    return [a > 0]


def _tanh_ax(a):
    return [a > -1, a < 1]


def _pow_ax(a):
    x, p = a.arg(0), a.arg(1)
    return [z3.Implies(x > 0, a > 0), z3.Implies(z3.And(x == 0, p > 0), a == 0),
            z3.Implies(x >= 0, a >= 0)]


SCHEMAS['sqrt'] = _sqrt_ax
SCHEMAS['exp'] = _exp_ax
SCHEMAS['tanh'] = _tanh_ax
SCHEMAS['pow'] = _pow_ax


def consts_in(e, acc=None, seen=None):
    """all uninterpreted constants (0-ary) in e, in order of appearance"""
    if acc is None:
        acc, seen = [], set()
    stack = [e]
    out = acc
    names = set(c.get_id() for c in out)
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and i not in names:
                    out.append(x)
                    names.add(i)
            else:
                for c in reversed(x.children()):
                    stack.append(c)
    return out


_APPS = {}


def all_apps(e):
    """uninterpreted applications (and constants) in e: tuples (term, id, name, number of arguments, Int arguments)"""
    ent = _APPS.get(e.get_id())
    if ent is not None:
        return ent[1]
    out, seen, stack = [], set(), [e]
    UN = z3.Z3_OP_UNINTERPRETED
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            d = x.decl()
            ch = x.children()
            if d.kind() == UN:
                if ch:
                    ints = [(c.get_id(), c) for c in ch if c.sort_kind() == z3.Z3_INT_SORT]
                else:
                    ints = [(i, x)] if x.sort_kind() == z3.Z3_INT_SORT else []
                out.append((x, i, d.name(), len(ch), ints))
            stack.extend(ch)
    if len(_APPS) > 200000:
        _APPS.clear()
    _APPS[e.get_id()] = (e, out)
    return out


def apps_in(e, pred, seen=None, out=None):
    if seen is None and out is None:
        return [a[0] for a in all_apps(e) if pred(a[0])]
    if out is None:
        out = []
    if seen is None:
        seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and pred(x):
                out.append(x)
            elif x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and pred(x):
                out.append(x)
            stack.extend(x.children())
    return out


def contains(e, c):
    i = c.get_id()
    stack, seen = [e], set()
    while stack:
        x = stack.pop()
        j = x.get_id()
        if j == i:
            return True
        if j in seen:
            continue
        seen.add(j)
        stack.extend(x.children())
    return False


def top_apps(e):
    """outermost applications of uninterpreted functions to arguments, Real valued"""
    out, seen = [], set()

    def go(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args():
            if x.sort() == Real:
                out.append(x)
            return
        for c in x.children():
            go(c)
    go(e)
    return out


_HS = {}


def has_sum(e):
    k = e.get_id()
    r = _HS.get(k)
    if r is None or not r[0].eq(e):
        r = (e, is_sum(e) or any(has_sum(c) for c in e.children()))
        _HS[k] = r
    return r[1]


def compatible(a, b):
    return a.decl().eq(b.decl()) or (is_sum(a) and is_sum(b))


def replace_app(e, b, a):
    return z3.substitute(e, (b, a))


def subst(e, *pairs):
    if not pairs:
        return e
    return z3.substitute(e, *pairs)


def mk_sum(hi, fn, kind='Sum'):
    """sum_{0<=b<hi} fn(b);  fn returns z3 Real expr"""
    if isinstance(hi, S):
        hi = hi.e
    if isz(hi) and z3.is_int_value(hi):
        hi = hi.as_long()
    if isinstance(hi, int):
        if hi > 60:
            raise Unsupported('large concrete sum')
        if kind == 'Sum':
            r = z3.RealVal(0)
            for b in range(hi):
                r = r + fn(z3.IntVal(b))
        else:
            r = z3.RealVal(1)
            for b in range(hi):
                r = r * fn(z3.IntVal(b))
        return r
    b = fresh('b', Int)
    body = z3.simplify(fn(b))
    return mk_sum_body(hi, b, body, kind)


def mk_sum_body(hi, b, body, kind='Sum'):
    if kind == 'Sum' and z3.is_rational_value(body) and body.as_fraction() == 0:
        return z3.RealVal(0)
    ps = [c for c in consts_in(body) if not c.eq(b) and c.decl().name() not in ('NaN', 'Inf')]
    holes = [z3.Const('?%d:%s' % (i, c.sort()), c.sort()) for i, c in enumerate(ps)]
    bb = z3.Const('?b', Int)
    # avoid clash with bound variables of nested sums: they are hidden in side tables
    cb = subst(body, (b, bb), *zip(ps, holes))
    key = (kind, cb.sexpr())
    name = _SUMBYKEY.get(key)
    if name is None:
        name = '%s%d' % (kind, len(_SUMBYKEY))
        _SUMBYKEY[key] = name
        SUMS[name] = (kind, bb, holes, cb)
        SCHEMAS[name] = sum_shift
    f = z3.Function(name, Int, *[c.sort() for c in ps], Real)
    return f(hi, *ps)


def sum_shift(a):
    """a sum of X - 1 terms f(k + 1) is the sum of X terms f(k) without the first"""
    hi = z3.simplify(a.arg(0))
    if not (z3.is_add(hi) and hi.num_args() >= 2 and z3.is_int_value(hi.arg(0)) and hi.arg(0).as_long() == -1):
        return []
    kind, _, fn = sum_parts(a)
    if kind != 'Sum':
        return []
    g = lambda k: fn(z3.simplify(k - 1))
    s = mk_sum(z3.simplify(hi + 1), g)
    return [z3.Implies(hi >= 0, a == s - z3.simplify(g(z3.IntVal(0))))]


def is_sum(a):
    return z3.is_app(a) and a.num_args() > 0 and a.decl().name() in SUMS


def sum_parts(a):
    """-> kind, hi, fn(b)"""
    kind, bb, holes, cb = SUMS[a.decl().name()]
    args = a.children()

    def fn(b):
        return subst(cb, (bb, b), *zip(holes, args[1:]))
    return kind, args[0], fn


# ---------------------------------------------------------------- ring normaliser
class Poly:
    """sum of coeff * monomial; monomial = tuple of (atom id, exponent) sorted"""
    __slots__ = ('t',)

    def __init__(self, t=None):
        self.t = t or {}

    @staticmethod
    def const(c):
        return Poly({(): Fraction(c)}) if c else Poly()

    def __add__(self, o):
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return Poly(r)

    def scale(self, c):
        return Poly({m: v * c for m, v in self.t.items()}) if c else Poly()

    def __mul__(self, o):
        if len(self.t) * len(o.t) > 4000:
            raise TooBig()
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m, k = mono_mul(m1, m2)
                v = r.get(m, 0) + c1 * c2 * k
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return Poly(r)

    def is_const(self):
        return all(m == () for m in self.t)

    def const_val(self):
        return self.t.get((), Fraction(0))


class TooBig(Exception):
    pass


ATOMS = {}     # id -> (z3 expr, kind) kind in '', 'inv', 'ind'


def mono_mul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    for a in list(d):
        if ATOMS[a][1] == 'ind':
            d[a] = 1
        if d.get(a) == 0:
            del d[a]
    return tuple(sorted(d.items())), 1


class Norm:
    """normaliser; `prove` (optional) decides side conditions"""

    def __init__(self, prove=None):
        self.prove_cb = prove
        self.cache = {}
        self.keep = []
        self.pc = {}
        self.side = []
        self.sqnn = {}
        self.bounds = {}       # id of bound variable -> range assumption

    def prove(self, c):
        c = z3.simplify(c)
        hyp = [self.bounds[x.get_id()] for x in consts_in(c) if x.get_id() in self.bounds]
        if hyp:
            more = [self.bounds[x.get_id()] for h in hyp for x in consts_in(h) if x.get_id() in self.bounds]
            c = z3.simplify(z3.Implies(z3.And(*hyp, *more), c))
        if z3.is_true(c):
            return True
        if z3.is_false(c) or self.prove_cb is None:
            return False
        k = c.get_id()
        if k not in self.pc:
            self.keep.append(c)
            self.pc[k] = self.prove_cb(c)
        return self.pc[k]

    def atom(self, e, kind='', exp=1):
        e = z3.simplify(e) if kind == 'ind' else e
        key = (kind, e.get_id())
        ATOMS.setdefault(key, (e, kind))
        self.keep.append(e)
        return Poly({((key, exp),): Fraction(1)})

    def ind(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return Poly.const(1)
        if z3.is_false(c):
            return Poly()
        if z3.is_and(c):
            r = Poly.const(1)
            for x in c.children():
                r = r * self.ind(x)
            return r
        if z3.is_not(c):
            return Poly.const(1) + self.ind(c.arg(0)).scale(-1)
        if z3.is_or(c):
            r = Poly.const(1)
            for x in c.children():
                r = r * (Poly.const(1) + self.ind(x).scale(-1))
            return Poly.const(1) + r.scale(-1)
        if z3.is_eq(c) and c.arg(0).sort() == Bool:
            a, b = self.ind(c.arg(0)), self.ind(c.arg(1))
            return a * b + (Poly.const(1) + a.scale(-1)) * (Poly.const(1) + b.scale(-1))
        if z3.is_eq(c):
            a, b = c.arg(0), c.arg(1)
            if a.sexpr() > b.sexpr():
                c = (b == a)
            if self.prove_cb:
                if self.prove(c):
                    return Poly.const(1)
                if self.prove(z3.Not(c)):
                    return Poly()
        k = c.decl().kind() if z3.is_app(c) else None
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and c.arg(0).sort() == Real:
            l, r = c.arg(0), c.arg(1)
            if k in (z3.Z3_OP_LE, z3.Z3_OP_GE):      # a <= b is not (a > b)
                if k == z3.Z3_OP_GE:
                    l, r = r, l
                return Poly.const(1) + self.ind_gt(l, r).scale(-1)
            if k == z3.Z3_OP_LT:
                l, r = r, l
            return self.ind_gt(l, r)
        return self.atom(c, 'ind')

    def ind_gt(self, l, r):
        try:
            p = self.norm(l - r)
            if p.is_const():
                return Poly.const(1 if p.const_val() > 0 else 0)
            co = [abs(x) for x in p.t.values()]
            p = p.scale(Fraction(1) / min(co))
            d = self.rebuild(p)
        except (Unsupported, TooBig):
            d = z3.simplify(l - r)
        c = d > 0
        if self.prove_cb:
            if self.prove(c):
                return Poly.const(1)
            if self.prove(d <= 0):
                return Poly()
        return self.atom(c, 'ind')

    def norm(self, e):
        k = e.get_id()
        r = self.cache.get(k)
        if r is None:
            self.keep.append(e)
            r = self._norm(e)
            self.cache[k] = r
        return r

    def _norm(self, e):
        if z3.is_rational_value(e):
            return Poly.const(e.as_fraction())
        if z3.is_int_value(e):
            return Poly.const(e.as_long())
        d = e.decl().kind()
        if d == z3.Z3_OP_ADD:
            r = Poly()
            for x in e.children():
                r = r + self.norm(x)
            return r
        if d == z3.Z3_OP_SUB:
            r = self.norm(e.arg(0))
            for x in e.children()[1:]:
                r = r + self.norm(x).scale(-1)
            return r
        if d == z3.Z3_OP_UMINUS:
            return self.norm(e.arg(0)).scale(-1)
        if d == z3.Z3_OP_MUL:
            r = Poly.const(1)
            for x in e.children():
                r = r * self.norm(x)
            return r
        if d == z3.Z3_OP_DIV:
            return self.norm(e.arg(0)) * self.inv(self.norm(e.arg(1)))
        if d == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)) | z3.is_int_value(e.arg(1)):
            p = e.arg(1)
            f = p.as_fraction() if z3.is_rational_value(p) else Fraction(p.as_long())
            if f.denominator == 1 and 0 <= f <= 8:
                r = Poly.const(1)
                b = self.norm(e.arg(0))
                for _ in range(int(f)):
                    r = r * b
                return r
        if d == z3.Z3_OP_TO_REAL:
            return self.norm_int(e.arg(0))
        if d == z3.Z3_OP_ITE:
            c = self.ind(e.arg(0))
            a, b = self.norm(e.arg(1)), self.norm(e.arg(2))
            return c * (a + b.scale(-1)) + b
        if is_sum(e):
            kind, hi, fn = sum_parts(e)
            if kind == 'Sum':
                return self.norm_sum(hi, fn)
            if kind == 'Prod':
                b = fresh('b', Int)
                body = self.rebuild(self.norm(fn(b)))
                return self.atom(mk_sum_body(hi, b, body, 'Prod'))
        if d == z3.Z3_OP_UNINTERPRETED and e.num_args():
            nm = e.decl().name()
            args = []
            for x in e.children():
                if x.sort() == Real:
                    args.append(self.rebuild(self.norm(x)))
                else:
                    args.append(z3.simplify(x))
            e2 = e.decl()(*args)
            if nm == 'sqrt':
                if e2.get_id() not in self.sqnn and self.raw_nonneg(e.arg(0)):
                    self.sqnn[e2.get_id()] = e2
                return self.atom_sqrt(args[0], e2)
            return self.atom(e2)
        return self.atom(e)

    def norm_int(self, e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return Poly.const(e.as_long())
        d = e.decl().kind()
        if d in (z3.Z3_OP_ADD, z3.Z3_OP_MUL):
            ps = [self.norm_int(x) for x in e.children()]
            r = ps[0]
            for p in ps[1:]:
                r = r + p if d == z3.Z3_OP_ADD else r * p
            return r
        if d == z3.Z3_OP_ITE:
            c = self.ind(e.arg(0))
            a, b = self.norm_int(e.arg(1)), self.norm_int(e.arg(2))
            return c * (a + b.scale(-1)) + b
        return self.atom(z3.ToReal(e))

    def atom_sqrt(self, x, e2):
        if z3.is_rational_value(x):
            f = x.as_fraction()
            from math import isqrt
            if f >= 0 and isqrt(f.numerator) ** 2 == f.numerator and isqrt(f.denominator) ** 2 == f.denominator:
                return Poly.const(Fraction(isqrt(f.numerator), isqrt(f.denominator)))
        return self.atom(e2)

    def inv(self, p):
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if all(ATOMS[a][1] == '' for a, _ in m):
                r = Poly.const(1 / c)
                for a, e in m:
                    r = r * self.atom(ATOMS[a][0], 'inv', e)
                return r
        if p.is_const():
            c = p.const_val()
            if c:
                return Poly.const(1 / c)
        x = self.rebuild(p)
        return self.atom(x, 'inv')

    def reduce(self, p):
        """sqrt(x)^2 -> x where x >= 0 is provable;  x * 1/x -> 1 where x != 0 is provable"""
        again = True
        n = 0
        while again and n < 60:
            n += 1
            again = False
            for m, c in list(p.t.items()):
                d = dict(m)
                for a, ex in m:
                    e, kind = ATOMS[a]
                    if kind == '':
                        ia = ('inv', a[1])
                        if ia in d and self.prove(e != 0):
                            k = min(ex, d[ia])
                            rest = dict(m)
                            for z in (a, ia):
                                rest[z] -= k
                                if rest[z] == 0:
                                    del rest[z]
                            t = Poly({tuple(sorted(rest.items())): c})
                            r = dict(p.t)
                            del r[m]
                            p = Poly(r) + t
                            again = True
                            break
                    if kind in ('', 'inv') and z3.is_app(e) and e.num_args() and e.decl().name() == 'sqrt' and ex >= 2:
                        x = e.arg(0)
                        if e.get_id() in self.sqnn or self.nonneg(x):
                            rest = dict(m)
                            rest[a] = ex - 2
                            if rest[a] == 0:
                                del rest[a]
                            q = self.norm(x)
                            if kind == 'inv':
                                q = self.inv(q)
                            t = Poly({tuple(sorted(rest.items())): c}) * q
                            r = dict(p.t)
                            del r[m]
                            p = Poly(r) + t
                            again = True
                            break
                if again:
                    break
        return p

    def raw_nonneg(self, x, depth=0):
        """syntactically non-negative: sums of products of squares etc."""
        if z3.is_rational_value(x):
            return x.as_fraction() >= 0
        if not z3.is_app(x) or depth > 8:
            return False
        d = x.decl().kind()
        ch = x.children()
        if is_sum(x):
            k, hi, fn = sum_parts(x)
            return self.raw_nonneg(z3.simplify(fn(fresh('w', Int))), depth + 1)
        if d == z3.Z3_OP_ADD:
            return all(self.raw_nonneg(c, depth + 1) for c in ch)
        if d == z3.Z3_OP_DIV:
            return z3.is_rational_value(ch[1]) and ch[1].as_fraction() > 0 and self.raw_nonneg(ch[0], depth + 1)
        if d == z3.Z3_OP_MUL:
            rest = []
            neg = 1
            for c in ch:
                if z3.is_rational_value(c) and c.as_fraction() < 0:
                    neg = -neg
                    continue
                for r in rest:
                    if r.eq(c) or z3.is_true(z3.simplify(r == -c)):
                        neg = neg if r.eq(c) else -neg
                        rest.remove(r)
                        break
                else:
                    rest.append(c)
            return neg > 0 and all(self.raw_nonneg(c, depth + 1) for c in rest)
        if d == z3.Z3_OP_ITE:
            return self.raw_nonneg(ch[1], depth + 1) and self.raw_nonneg(ch[2], depth + 1)
        if d == z3.Z3_OP_UNINTERPRETED and x.num_args() and x.decl().name() in ('exp', 'sqrt'):
            return True
        return False

    def nonneg(self, x):
        if self.prove(x >= 0):
            return True
        p = self.norm(x)
        for m, c in p.t.items():
            if c < 0:
                return False
            for a, ex in m:
                e, kind = ATOMS[a]
                if ex % 2 == 0 or kind == 'ind':
                    continue
                if is_sum(e):
                    k, hi, fn = sum_parts(e)
                    w = fresh('w', Int)
                    f = fn(w)
                    if self.nonneg_mono_expr(f) or self.prove(z3.Implies(z3.And(w >= 0, w < hi), f >= 0)):
                        continue
                if self.prove(e >= 0):
                    continue
                return False
        return True

    def nonneg_mono_expr(self, f):
        p = self.norm(f)
        for m, c in p.t.items():
            if c < 0:
                return False
            for a, ex in m:
                e, kind = ATOMS[a]
                if ex % 2 == 0 or kind == 'ind':
                    continue
                if z3.is_app(e) and e.decl().name() in ('exp', 'sqrt'):
                    continue
                if not self.prove(e >= 0):
                    return False
        return True

    def norm_sum(self, hi, fn):
        b = fresh('b', Int)
        hi = z3.simplify(hi)
        self.keep.append(b)
        self.bounds[b.get_id()] = z3.And(b >= 0, b < hi)
        hp = self.norm_int(hi)
        body = self.norm(fn(b))
        out = Poly()
        # expand polynomial; each monomial separately
        rest_by_outer = {}
        for m, c in body.t.items():
            inner, outer = [], []
            delta = None
            for a, ex in m:
                e, kind = ATOMS[a]
                if contains(e, b):
                    if kind == 'ind' and delta is None and z3.is_eq(e):
                        t = solve_for(e, b)
                        if t is not None:
                            delta = (a, t)
                            continue
                    inner.append((a, ex))
                else:
                    outer.append((a, ex))
            op = Poly({tuple(sorted(outer)): c})
            if delta is not None:
                t = delta[1]
                g = z3.And(t >= 0, t < hi)
                gp = Poly.const(1) if self.prove(g) else self.ind(g)
                term = gp
                for a, ex in inner:
                    e, kind = ATOMS[a]
                    e = z3.simplify(subst(e, (b, t)))
                    q = self.ind(e) if kind == 'ind' else (self.inv(self.norm(e)) if kind == 'inv' else self.norm(e))
                    for _ in range(ex):
                        term = term * q
                out = out + op * term
            elif not inner:
                out = out + op * hp
            else:
                ib = self.rebuild(Poly({tuple(sorted(inner)): Fraction(1)}))
                opt = mk_sum_body(hi, b, ib)
                sums = [(a, ex) for a, ex in inner if is_sum(ATOMS[a][0]) and ATOMS[a][1] == ''
                        and ATOMS[a][0].decl().name().startswith('Sum')]
                if len(sums) == 1 and sums[0][1] == 1:
                    sa = ATOMS[sums[0][0]][0]
                    _, hi2, fn2 = sum_parts(sa)
                    if not contains(hi2, b):
                        # exchange of the order of summation: pick the canonical one
                        a2 = fresh('b', Int)
                        self.keep.append(a2)
                        self.bounds[a2.get_id()] = z3.And(a2 >= 0, a2 < hi2)
                        in2 = self.norm(fn2(a2))
                        if len(in2.t) == 1:
                            (m2, c2), = in2.t.items()
                            both = [(x, ex) for x, ex in m2 if contains(ATOMS[x][0], b)]
                            only = [(x, ex) for x, ex in m2 if not contains(ATOMS[x][0], b)]
                            bonly = [(x, ex) for x, ex in inner if (x, ex) not in sums]
                            m3 = tuple(sorted(both + bonly)) if not (set(x for x, _ in both) & set(x for x, _ in bonly)) \
                                else mono_mul(tuple(sorted(both)), tuple(sorted(bonly)))[0]
                            inner2 = mk_sum_body(hi, b, self.rebuild(Poly({m3: Fraction(1)})))
                            body2 = inner2
                            if only:
                                body2 = self.rebuild(Poly({tuple(sorted(only)): Fraction(1)}) * self.atom(inner2))
                            opt2 = mk_sum_body(hi2, a2, body2)
                            if c2 == 1 and int(opt2.decl().name()[3:]) < int(opt.decl().name()[3:]):
                                opt = opt2
                out = out + op * self.atom(opt)
        return out

    def rebuild(self, p):
        p = self.reduce(p)
        terms = []
        items = []
        for m, c in p.t.items():
            ks = sorted(m, key=lambda ae: (ATOMS[ae[0]][1], ATOMS[ae[0]][0].sexpr()))
            items.append((tuple((ATOMS[a][1], ATOMS[a][0].sexpr(), ex) for a, ex in ks), ks, c))
        items.sort(key=lambda t: t[0])
        for _, ks, c in items:
            fs = []
            if c != 1 or not ks:
                fs.append(z3.RealVal(c))
            den = []
            for a, ex in ks:
                e, kind = ATOMS[a]
                if kind == 'ind':
                    e = z3.If(e, z3.RealVal(1), z3.RealVal(0))
                elif kind == 'inv':
                    den += [e] * ex
                    continue
                fs += [e] * ex
            t = None
            for f in fs:
                t = f if t is None else t * f
            if t is None:
                t = z3.RealVal(1)
            for f in den:
                t = t / f
            terms.append(t)
        if not terms:
            return z3.RealVal(0)
        r = terms[0]
        for t in terms[1:]:
            r = r + t
        return r

    def canon(self, e):
        try:
            p = self.norm(e)
            for _ in range(3):
                q = self.reduce(p)
                if q.t == p.t:
                    break
                p = q
            return self.rebuild(p)
        except TooBig:
            return e


def solve_for(eq, b):
    """eq: Int equality with b; returns t with b == t (t free of b), or None.  b must occur linearly +-1"""
    l, r = eq.arg(0), eq.arg(1)
    if l.sort() != Int:
        return None
    d = z3.simplify(l - r, som=True)
    terms = d.children() if z3.is_add(d) else [d]
    coef = 0
    rest = z3.IntVal(0)
    for t in terms:
        if t.eq(b):
            coef += 1
        elif z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)) and t.arg(1).eq(b):
            coef += t.arg(0).as_long()
        elif contains(t, b):
            return None
        else:
            rest = rest + t
    if coef == 1:
        return z3.simplify(-rest)
    if coef == -1:
        return z3.simplify(rest)
    return None
