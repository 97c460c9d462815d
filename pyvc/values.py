"""Values and cells of the interpreted program."""
import numpy as np
import z3
from . import terms as T
from .terms import S, Unsupported, Int, Real, Bool, AND, OR, NOT, ITE, zb, zi, zr
from .core import Ref, ExcVal


class Seq:
    """immutable sequence of (possibly symbolic) length"""

    def __init__(self, n, get, inv=None, grid=None, meta=None):
        self.n, self.get, self.inv, self.grid, self.meta = n, get, inv, grid, meta or {}

    @property
    def concrete(self):
        return isinstance(self.n, int)


def is_conc_int(v):
    return isinstance(v, int) and not isinstance(v, bool)


def simp_int(e):
    """z3 Int -> python int when constant"""
    if isinstance(e, S):
        e = e.e
    if T.isz(e):
        if e.sort() == Int:
            e = z3.simplify(e)
            if z3.is_int_value(e):
                return e.as_long()
        return e
    if isinstance(e, np.integer):
        return int(e)
    return e


def wrap(e, nan=None, inf=None):
    """z3 expr -> python constant or S"""
    if T.isz(e):
        if nan is None and inf is None:
            if z3.is_int_value(e):
                return e.as_long()
            if z3.is_true(e):
                return True
            if z3.is_false(e):
                return False
        if nan is not None and z3.is_false(z3.simplify(nan)):
            nan = None
        if inf is not None and z3.is_false(z3.simplify(inf)):
            inf = None
        return S(e, nan, inf)
    return e


class OCell:
    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields


class FCell:
    """local variables"""

    def __init__(self, vars):
        self.vars = vars


class LCell:
    owner = None                             # what of the caller's this is, or None

    def __init__(self, seq, kind='list'):
        self.seq, self.kind = seq, kind      # seq: tuple or Seq


class DCell:
    def __init__(self, items=None, sym=None):
        self.items = items if items is not None else {}
        self.sym = sym                       # SymMap or None


class SymMap:
    """total functions over key tuples of z3 terms"""

    def __init__(self, sorts, dom, val, inv=None, ghost=None):
        self.sorts, self.dom, self.val = sorts, dom, val
        self.inv = inv        # optional DictInv: the class invariant stated for this dictionary
        self.ghost = ghost    # optional ghost set (of the pairs the kernel was evaluated for)


class DictInv:
    """invariant of a dictionary: keys within bound(p), values val(p), ghost set within the keys"""

    def __init__(self, bound, val):
        self.bound, self.val = bound, val


class ACell:
    """ndarray (or scipy sparse matrix). elem: fn(tuple of z3 Int / int) -> scalar value"""

    def __init__(self, shape, dtype, elem, sparse=None, owner=None, view=None, meta=None):
        self.shape = tuple(simp_int(s) for s in shape)
        self.dtype = np.dtype(dtype)
        self.elem = elem
        self.sparse = sparse          # None or format
        self.owner = owner            # name of the caller's object this is, or None
        self.view = view              # address of the base array or None
        self.meta = meta or {}

    @property
    def ndim(self):
        return len(self.shape)

    def with_(self, **kw):
        c = ACell(self.shape, self.dtype, self.elem, self.sparse, self.owner, self.view, dict(self.meta))
        for k, v in kw.items():
            setattr(c, k, v)
        return c


class Poison:
    """value of a location whose content after some iterations is unknown"""

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return '<unknown %s>' % self.why


class UserClass:
    def __init__(self, name, bases, ns, module):
        self.__name__ = name
        self.name, self.bases, self.ns, self.module = name, bases, ns, module
        self.mro = c3(self)

    def lookup(self, attr, after=None):
        mro = self.mro
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if isinstance(c, UserClass):
                if attr in c.ns:
                    return c.ns[attr], c
            elif isinstance(c, ExtClass):
                v = c.lookup(attr)
                if v is not None:
                    return v, c
        return None, None

    def __repr__(self):
        return '<class %s>' % self.name


class ExtClass:
    """an external class given by assumed contracts"""

    def __init__(self, name, methods=None, bases=(), real=None):
        self.__name__ = name
        self.name, self.methods, self.bases, self.real = name, methods or {}, tuple(bases), real
        self.mro = c3(self)

    def lookup(self, attr):
        return self.methods.get(attr)

    def __repr__(self):
        return '<ext class %s>' % self.name


def c3(cls):
    def mro_of(b):
        if isinstance(b, (UserClass, ExtClass)):
            return list(b.mro)
        return list(b.__mro__)
    seqs = [mro_of(b) for b in cls.bases] + [list(cls.bases)]
    res = [cls]
    seqs = [s for s in seqs if s]
    while seqs:
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            raise Unsupported('inconsistent MRO')
        res.append(h)
        for s in seqs:
            if s[0] is h:
                del s[0]
        seqs = [s for s in seqs if s]
    return res


class UserFunc:
    def __init__(self, node, glob, closure, defaults, kwdefaults, qualname, cls=None, module=None):
        self.node, self.glob, self.closure = node, glob, closure
        self.defaults, self.kwdefaults, self.qualname = defaults, kwdefaults, qualname
        self.cls, self.module = cls, module
        self.__name__ = getattr(node, 'name', '<lambda>')

    def __repr__(self):
        return '<function %s>' % self.qualname


class Bound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.__name__ = name

    def __repr__(self):
        return '<builtin %s>' % self.name


class Prop:
    def __init__(self, fget, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class StaticM:
    def __init__(self, f):
        self.f = f


class ClassM:
    def __init__(self, f):
        self.f = f


class SuperObj:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class Partial:
    def __init__(self, func, args, kw):
        self.func, self.args, self.kw = func, args, kw


class SliceV:
    def __init__(self, a, b, c):
        self.start, self.stop, self.step = a, b, c


class ExtObj:
    """object with modelled behaviour; immutable python object (state, if any, lives in the store)"""
    typ = None

    def getattr_(self, I, name):
        raise Unsupported('attribute %s of %s' % (name, type(self).__name__))

    def call_(self, I, args, kw):
        raise Unsupported('call of %s' % type(self).__name__)

    def isinstance_(self, I, cls):
        return False


class Opq(ExtObj):
    """opaque python object identified by a term of sort Obj"""

    def __init__(self, e, classes=()):
        self.e = e
        self.classes = classes

    def __repr__(self):
        return 'Opq(%s)' % self.e

    def at(self, e):
        """the object of the same kind identified by e"""
        import copy
        o = copy.copy(self)
        o.e = e
        return o

    def isinstance_(self, I, cls):
        return cls in self.classes


class SStr:
    """symbolic string"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return 'SStr(%s)' % self.e


class CV:
    """complex number: real and imaginary part"""
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re, self.im = re, im


class Gen:
    """eagerly evaluated iterator: items not yet consumed"""

    def __init__(self, seq):
        self.seq = seq
