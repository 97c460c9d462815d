"""AST interpreter of the real source, over symbolic values."""
import ast
import builtins as _builtins
import warnings
import os
import itertools
import collections.abc
from fractions import Fraction
import numpy as np
import z3
from . import terms as T
from .terms import S, Unsupported, Int, Real, Bool, StrS, ObjS, AND, OR, NOT, ITE, IMP, zb, zi, zr
from .core import Ctx, Ref, PyExc, ExcVal, Infeasible, Budget
from .values import *

SRC = os.environ.get('KM_SRC', '/repo/kernelmethods')

NUMS = (int, float, Fraction)


class _Ret(Exception):
    pass


class Module:
    def __init__(self, name, glob):
        self.name, self.glob = name, glob


class ModelModule:
    def __init__(self, name, table, fallback=None):
        self.name, self.table, self.fallback = name, table, fallback

    def get(self, I, attr):
        if attr in self.table:
            return self.table[attr]
        if self.fallback is not None:
            return self.fallback(I, attr)
        return Unknown('%s.%s' % (self.name, attr))


class Unknown:
    """an object of a library that is not modelled; any use is Unsupported"""

    def __init__(self, name):
        self.name = name
        self.__name__ = name

    def __repr__(self):
        return '<unmodelled %s>' % self.name


def exc(cls, *args):
    return PyExc(ExcVal(cls, args))


def subclass(a, b):
    if isinstance(b, tuple):
        return any(subclass(a, x) for x in b)
    if isinstance(a, (UserClass, ExtClass)):
        if b in a.mro:
            return True
        if isinstance(b, type) and isinstance(a, ExtClass) and a.real is not None:
            return issubclass(a.real, b)
        return b is object
    if isinstance(a, type) and isinstance(b, type):
        return issubclass(a, b)
    return False


def no_attr(name):
    """special attributes every object has are not modelled; others that are missing raise AttributeError"""
    return Unsupported('attribute %s' % name) if name.startswith('__') and hasattr(object, name) or name in ('__class__', '__dict__', '__module__', '__mro__', '__qualname__', '__bases__', '__name__', '__func__', '__self__', '__wrapped__', '__code__', '__defaults__') else exc(AttributeError, name)


_FMT = {}


def formatted(t, a, k):
    """a formatted text: a function of the values shown, where they are plain"""
    terms = []

    def flat(x):
        if isinstance(x, (str, int, float, bool, type(None))):
            return repr(x)
        if isinstance(x, tuple):
            return tuple(flat(y) for y in x)
        if isinstance(x, S) and x.nan is None and x.inf is None or isinstance(x, SStr):
            terms.append(x.e)
            return str(x.e.sort())
        raise Unsupported('value shown')
    try:
        key = (flat(t), tuple(flat(x) for x in a), tuple((n, flat(x)) for n, x in sorted(k.items())))
    except Unsupported:
        return SStr(T.fresh('str', StrS))
    nm = 'text_%d' % _FMT.setdefault(key, len(_FMT))
    return SStr(z3.Function(nm, *[x.sort() for x in terms], StrS)(*terms) if terms else z3.Const(nm, StrS))


class Interp:
    def __init__(self, ctx=None):
        self.loop_depth = 0
        self.sk_hooks = {}
        self.ctx = ctx or Ctx()
        self.modules = {}
        self.stubs = {}             # qualname -> fn(I, args, kw)
        self.class_override = {}    # qualname of class -> fn(I, args, kw) constructing a model instance
        self.under = None           # qualname of the function under verification (never stubbed at the top)
        self.exc_stack = []
        self.call_depth = 0
        self.source_used = set()    # qualnames interpreted
        self.frozen = None          # set of addresses belonging to the caller (frame conditions)
        self.on_write = None        # callback(addr, what) for writes to caller-owned cells
        self.dict_inv = None        # callback(I, addr) -> val function for loop templates
        self.loop_notes = []
        self.defer_kernel = None
        from . import npmodel, extmodel
        self.models = {}
        self.models.update(npmodel.modules(self))
        self.models.update(extmodel.modules(self))
        self.builtins = extmodel.builtins(self)
        self.cells_base = None

    # ------------------------------------------------------------------ modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        short = name[len('kernelmethods.'):] if name.startswith('kernelmethods.') else None
        if short is not None:
            path = os.path.join(SRC, *short.split('.')) + '.py'
            if os.path.exists(path):
                m = Module(name, {'__name__': name})
                self.modules[name] = m
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    tree = ast.parse(open(path).read())
                m.tree = tree
                self.exec_module(m)
                return m
        if name == 'kernelmethods':
            m = Module(name, {'__name__': name})
            self.modules[name] = m
            return m
        if name in self.models:
            return self.models[name]
        return ModelModule(name, {})

    def exec_module(self, m):
        fr = ModFrame(m.glob)
        m.skipped = []
        for st in m.tree.body:
            try:
                self.exec(st, fr)
            except Unsupported as e:
                m.skipped.append((getattr(st, 'lineno', 0), str(e)))
                for t in ast.walk(st):
                    if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
                        m.glob[t.id] = Unknown('%s.%s' % (m.name, t.id))
            except PyExc as e:
                raise Unsupported('module %s raises at import: %r' % (m.name, e.val))

    # ------------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for st in stmts:
            r = self.exec(st, fr)
            if r is not None:
                return r
        return None

    def exec(self, st, fr):
        m = getattr(self, 'x_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement %s (line %d)' % (type(st).__name__, st.lineno))
        return m(st, fr)

    def x_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, fr)

    def x_Pass(self, st, fr):
        pass

    def x_Assert(self, st, fr):
        if not self.truth(self.ev(st.test, fr)):
            raise exc(AssertionError)

    def x_Assign(self, st, fr):
        v = self.ev(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, fr), fr)

    def x_AugAssign(self, st, fr):
        t = st.target
        if isinstance(t, ast.Name):
            cur = fr.load(self, t.id)
            fr.store(self, t.id, self.inplace(st.op, cur, self.ev(st.value, fr)))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(st.op, cur, self.ev(st.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            ix = self.ev_index(t.slice, fr)
            cur = self.getitem(o, ix)
            self.setitem(o, ix, self.inplace(st.op, cur, self.ev(st.value, fr)))
        else:
            raise Unsupported('augmented assignment')

    def inplace(self, op, cur, v):
        from . import npmodel as NP
        if isinstance(cur, Ref):
            c = self.ctx.get(cur)
            if isinstance(c, ACell):
                r = self.binop(op, cur, v)
                re = NP.rd(self, r)
                self.write_array(cur, lambda idx: NP.cast(re(idx), c.dtype), cast=True)
                return cur
            if isinstance(c, LCell) and isinstance(op, ast.Add):
                self.list_extend(cur, v)
                return cur
        return self.binop(op, cur, v)

    def x_If(self, st, fr):
        return self.block(st.body if self.truth(self.ev(st.test, fr)) else st.orelse, fr)

    def x_Return(self, st, fr):
        return ('return', self.ev(st.value, fr) if st.value is not None else None)

    def x_Break(self, st, fr):
        return ('break', None)

    def x_Continue(self, st, fr):
        return ('continue', None)

    def x_Global(self, st, fr):
        raise Unsupported('global statement')

    def x_Nonlocal(self, st, fr):
        raise Unsupported('nonlocal statement')

    def x_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                fr.delete(self, t.id)
            elif isinstance(t, ast.Attribute):
                self.delattr(self.ev(t.value, fr), t.attr)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                ix = self.ev_index(t.slice, fr)
                self.delitem(o, ix)
            else:
                raise Unsupported('del')

    def x_Import(self, st, fr):
        for a in st.names:
            m = self.module(a.name)
            if a.asname:
                fr.store(self, a.asname, m)
            else:
                fr.store(self, a.name.split('.')[0], self.module(a.name.split('.')[0]))

    def x_ImportFrom(self, st, fr):
        name = st.module or ''
        if st.level:
            name = 'kernelmethods' + ('.' + name if name else '')
        m = self.module(name)
        for a in st.names:
            if a.name == '*':
                raise Unsupported('import *')
            fr.store(self, a.asname or a.name, self.module_attr(m, a.name))

    def module_attr(self, m, attr):
        if isinstance(m, Module):
            if attr in m.glob:
                return m.glob[attr]
            if m.name == 'kernelmethods':
                path = os.path.join(SRC, attr + '.py')
                if os.path.exists(path):
                    return self.module('kernelmethods.' + attr)
                for sub in ('base', 'numeric_kernels', 'sampling', 'operations', 'algorithms', 'categorical'):
                    g = self.module('kernelmethods.' + sub).glob
                    if attr in g:
                        return g[attr]
            raise exc(AttributeError, attr)
        v = m.get(self, attr)
        if isinstance(v, Unknown):
            full = m.name + '.' + attr
            if full in self.models:
                return self.models[full]
        return v

    def x_FunctionDef(self, st, fr):
        f = self.make_func(st, fr)
        for d in reversed(st.decorator_list):
            f = self.decorate(self.ev(d, fr), f, fr)
        fr.store(self, st.name, f)

    def decorate(self, d, f, fr):
        if d is property:
            return Prop(f)
        if d is staticmethod:
            return StaticM(f)
        if d is classmethod:
            return ClassM(f)
        if isinstance(d, Builtin) and d.name in ('abstractmethod',):
            return f
        if isinstance(d, Builtin) and d.name in ('wraps-deco', 'prop.getter'):
            return f
        if isinstance(d, PropSetter):
            return Prop(d.p.fget, f if d.kind == 'setter' else d.p.fset, f if d.kind == 'deleter' else d.p.fdel)
        return self.call(d, [f], {})

    def make_func(self, node, fr, cls=None):
        a = node.args
        defaults = [self.ev(d, fr) for d in a.defaults]
        kwd = [self.ev(d, fr) if d is not None else NODEF for d in a.kw_defaults]
        q = fr.qual + getattr(node, 'name', '<lambda>')
        return UserFunc(node, fr.glob, fr if isinstance(fr, Frame) else None, defaults, kwd, q,
                        cls=getattr(fr, 'cls', None), module=fr.modname)

    def x_ClassDef(self, st, fr):
        bases = [self.ev(b, fr) for b in st.bases]
        for k in st.keywords:
            if k.arg != 'metaclass':
                raise Unsupported('class keyword')
        bases = [b for b in bases if not isinstance(b, Builtin)] or [object]
        for b in bases:
            if isinstance(b, Unknown):
                raise Unsupported('base class %s' % b.name)
        cf = ClassFrame(fr, st.name)
        cf.cls = ClsBox()
        for s in st.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            r = self.exec(s, cf)
        c = UserClass(st.name, tuple(bases), cf.ns, fr.modname)
        cf.cls.cls = c
        c.node = st
        fr.store(self, st.name, c)

    def x_Raise(self, st, fr):
        if st.exc is None:
            if not self.exc_stack:
                raise exc(RuntimeError, 'No active exception to reraise')
            raise PyExc(self.exc_stack[-1])
        v = self.ev(st.exc, fr)
        raise PyExc(self.as_exc(v))

    def as_exc(self, v):
        if isinstance(v, ExcVal):
            return v
        if isinstance(v, type) and issubclass(v, BaseException):
            return ExcVal(v)
        if isinstance(v, (UserClass, ExtClass)):
            return ExcVal(v)
        raise Unsupported('raise of %r' % (v,))

    def x_Try(self, st, fr):
        r = None
        try:
            try:
                r = self.block(st.body, fr)
            except PyExc as e:
                for h in st.handlers:
                    if h.type is None or self.exc_match(e.val, self.ev(h.type, fr)):
                        if h.name:
                            fr.store(self, h.name, e.val)
                        self.exc_stack.append(e.val)
                        try:
                            r = self.block(h.body, fr)
                        finally:
                            self.exc_stack.pop()
                        break
                else:
                    raise
            else:
                if r is None:
                    r = self.block(st.orelse, fr)
        except PyExc:
            rr = self.block(st.finalbody, fr) if st.finalbody else None
            if rr is not None:
                return rr
            raise
        if st.finalbody:
            rr = self.block(st.finalbody, fr)
            if rr is not None:
                return rr
        return r

    def exc_match(self, v, t):
        if isinstance(t, tuple):
            return any(self.exc_match(v, x) for x in t)
        if isinstance(t, Unknown):
            raise Unsupported('except %s' % t.name)
        return subclass(v.cls, t)

    def x_With(self, st, fr):
        for it in st.items:
            v = self.ev(it.context_expr, fr)
            if not (isinstance(v, ExtObj) and getattr(v, 'nullctx', False)):
                raise Unsupported('with statement')
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        return self.block(st.body, fr)

    def x_While(self, st, fr):
        from .loops import exec_while
        return exec_while(self, st, fr)

    def x_For(self, st, fr):
        seq = self.to_seq(self.ev(st.iter, fr))

        def body(v):
            self.assign(st.target, v, fr)
            return self.block(st.body, fr)
        r = self.loop(seq, body, fr, st)
        if r is None:
            return self.block(st.orelse, fr)
        if r[0] == 'break':
            return None
        return r

    def loop(self, seq, body, fr, st=None):
        """-> None (ran to the end), ('break',..) or ('return', v)"""
        if isinstance(seq, tuple) or seq.concrete:
            n = len(seq) if isinstance(seq, tuple) else seq.n
            if n > 400:
                raise Unsupported('long concrete loop')
            for k in range(n):
                r = body(seq[k] if isinstance(seq, tuple) else seq.get(k))
                if r is not None and r[0] != 'continue':
                    return r
            return None
        from .loops import exec_loop
        self.loop_depth += 1
        try:
            return exec_loop(self, seq, body, fr, st)
        finally:
            self.loop_depth -= 1

    # ------------------------------------------------------------------ assignment
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr.store(self, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            seq = self.to_seq(v)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            n = len(seq) if isinstance(seq, tuple) else seq.n
            if star:
                if not isinstance(seq, tuple):
                    raise Unsupported('starred unpack of a symbolic sequence')
                i = star[0]
                after = len(t.elts) - i - 1
                for x, y in zip(t.elts[:i], seq[:i]):
                    self.assign(x, y, fr)
                self.assign(t.elts[i].value, self.new_list(seq[i:len(seq) - after]), fr)
                for x, y in zip(t.elts[i + 1:], seq[len(seq) - after:]):
                    self.assign(x, y, fr)
                return
            if isinstance(n, int):
                if n != len(t.elts):
                    raise exc(ValueError, 'unpack')
            else:
                if not self.ctx.decide(n == len(t.elts)):
                    raise exc(ValueError, 'unpack')
            for i, x in enumerate(t.elts):
                self.assign(x, seq[i] if isinstance(seq, tuple) else seq.get(i), fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            self.setitem(o, self.ev_index(t.slice, fr), v)
        elif isinstance(t, ast.Starred):
            raise Unsupported('starred target')
        else:
            raise Unsupported('assignment target')

    # ------------------------------------------------------------------ expressions
    def ev(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s (line %d)' % (type(e).__name__, getattr(e, 'lineno', 0)))
        return m(e, fr)

    def e_Constant(self, e, fr):
        if e.value is Ellipsis or isinstance(e.value, (bytes, complex)):
            raise Unsupported('constant')
        return e.value

    def e_Name(self, e, fr):
        return fr.load(self, e.id)

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Tuple(self, e, fr):
        return tuple(self.ev_items(e.elts, fr))

    def ev_items(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                s = self.to_seq(self.ev(x.value, fr))
                if not isinstance(s, tuple):
                    if not s.concrete:
                        raise Unsupported('* of symbolic sequence')
                    s = tuple(s.get(i) for i in range(s.n))
                out.extend(s)
            else:
                out.append(self.ev(x, fr))
        return out

    def new_list(self, items, kind='list'):
        c = LCell(tuple(items) if not isinstance(items, Seq) else items, kind)
        if self.ctx.frames and self.call_depth == 0:
            c.owner = 'a %s given by the caller' % kind
        return self.ctx.alloc(c)

    def e_List(self, e, fr):
        return self.new_list(self.ev_items(e.elts, fr))

    def e_Set(self, e, fr):
        return self.new_list(self.ev_items(e.elts, fr), 'set')

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                s = self.ev(v, fr)
                c = self.ctx.get(s)
                if not isinstance(c, DCell) or c.sym:
                    raise Unsupported('** of symbolic dict')
                d.update(c.items)
            else:
                kk = self.ev(k, fr)
                d[self.hkey(kk)] = self.ev(v, fr)
        return self.ctx.alloc(DCell(d))

    def hkey(self, k):
        if isinstance(k, (S, SStr)):
            raise SymKey()
        if isinstance(k, tuple):
            return tuple(self.hkey(x) for x in k)
        if isinstance(k, Ref):
            return ('ref', k.a)
        return k

    def e_JoinedStr(self, e, fr):
        vals = [self.ev(v.value, fr) for v in e.values if isinstance(v, ast.FormattedValue)]
        return formatted('f' + '|'.join(v.value if isinstance(v, ast.Constant) else '{}' for v in e.values), vals, {})

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr)

    def e_IfExp(self, e, fr):
        return self.ev(e.body if self.truth(self.ev(e.test, fr)) else e.orelse, fr)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        for x in e.values[:-1]:
            v = self.ev(x, fr)
            t = self.truth(v)
            if isand and not t:
                return v if not isinstance(v, S) else False
            if not isand and t:
                return v if not isinstance(v, S) else True
        return self.ev(e.values[-1], fr)

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        return self.unop(e.op, v)

    def unop(self, op, v):
        from . import npmodel as NP
        if isinstance(op, ast.Not):
            return not self.truth(v)
        if isinstance(v, Ref):
            c = self.ctx.get(v)
            if isinstance(c, ACell):
                return NP.map1(self, v, lambda x: self.unop_s(op, x))
            if isinstance(c, OCell):
                m = {ast.USub: '__neg__', ast.UAdd: '__pos__', ast.Invert: '__invert__'}[type(op)]
                return self.call_method(v, m, [])
        return self.unop_s(op, v)

    def unop_s(self, op, v):
        if isinstance(op, ast.USub):
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, NUMS):
                return -v
            if isinstance(v, S):
                e = v.e
                if e.sort() == Bool:
                    e = zi(v)
                return S(-e, v.nan, v.inf, v.np)
        if isinstance(op, ast.UAdd):
            return v
        if isinstance(op, ast.Invert):
            if isinstance(v, bool):
                return not v     # numpy bool semantics (elementwise use)
            if isinstance(v, S) and v.e.sort() == Bool:
                return wrap(NOT(v.e))
        raise Unsupported('unary %s on %r' % (type(op).__name__, v))

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return self.binop(e.op, a, b)

    def rd(self, c):
        from . import npmodel as NP
        return NP.rd(self, c)

    def is_arr(self, v):
        return isinstance(v, Ref) and isinstance(self.ctx.get(v), ACell)

    def binop(self, op, a, b):
        from . import npmodel as NP
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported('use of unknown value')
        if isinstance(op, ast.MatMult):
            return NP.matmul(self, a, b)
        if self.is_arr(a) or self.is_arr(b):
            return NP.elementwise(self, lambda x, y: self.binop_s(op, x, y), a, b)
        for x, y, pre in ((a, b, ''), (b, a, 'r')):
            if isinstance(x, Ref) and isinstance(self.ctx.get(x), OCell):
                nm = '__%s%s__' % (pre, {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv',
                                         ast.Pow: 'pow', ast.FloorDiv: 'floordiv', ast.Mod: 'mod'}.get(type(op), '?'))
                c = self.ctx.get(x)
                f, _ = c.cls.lookup(nm)
                if f is not None:
                    return self.call(Bound(f, x), [y], {})
                if pre == 'r':
                    raise exc(TypeError, 'operands')
        if isinstance(op, ast.Add):
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if self.is_str(a) and self.is_str(b):
                if isinstance(a, str) and isinstance(b, str):
                    return a + b
                return SStr(T.fresh('str', StrS))
            if self.is_list(a) and self.is_list(b):
                return self.new_list(self.concat(self.to_seq(a), self.to_seq(b)))
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if (isinstance(x, tuple) or self.is_list(x)) and self.is_intlike(y):
                    s = self.to_seq(x)
                    if isinstance(y, int):
                        if not isinstance(s, tuple):
                            if y == 1:
                                return self.new_list(s)
                            raise Unsupported('repeat of a symbolic list')
                        r = s * y
                        return r if isinstance(x, tuple) else self.new_list(r)
                    if isinstance(s, tuple) and len(s) == 1:
                        v = s[0]
                        n = z3.If(y.e > 0, y.e, z3.IntVal(0))
                        sq = Seq(n, lambda k: v)
                        return sq if isinstance(x, tuple) else self.new_list(sq)
                    if isinstance(s, tuple) and len(s) == 0:
                        return self.new_list(())
                    raise Unsupported('symbolic repeat')
        if isinstance(op, ast.Mod) and self.is_str(a):
            return SStr(T.fresh('str', StrS))
        if isinstance(a, str) and isinstance(op, ast.Mult) and isinstance(b, int):
            return a * b
        if (self.is_list(a) and self.ctx.get(a).kind == 'set') and isinstance(op, (ast.Sub, ast.BitOr, ast.BitAnd)):
            raise Unsupported('set algebra')
        return self.binop_s(op, a, b)

    def concat(self, s, t):
        if isinstance(s, tuple) and isinstance(t, tuple):
            return s + t
        if isinstance(s, tuple) and not s:
            return t
        if isinstance(t, tuple) and not t:
            return s
        ns = len(s) if isinstance(s, tuple) else s.n
        nt = len(t) if isinstance(t, tuple) else t.n

        def get(k):
            kk = simp_int(k)
            if isinstance(ns, int) and isinstance(kk, int):
                return self.seq_at(s, kk) if kk < ns else self.seq_at(t, kk - ns)
            if self.ctx.decide(zi(k) < zi(ns)):
                return self.seq_at(s, k)
            return self.seq_at(t, simp_int(zi(k) - zi(ns)))
        return Seq(simp_int(zi(ns) + zi(nt)), get)

    def seq_at(self, s, k):
        if isinstance(s, tuple):
            k = simp_int(k)
            if isinstance(k, int):
                return s[k]
            return self.tuple_at(s, k)
        return s.get(k)

    def is_str(self, v):
        return isinstance(v, (str, SStr))

    def is_list(self, v):
        return isinstance(v, Ref) and isinstance(self.ctx.get(v), LCell)

    def is_intlike(self, v):
        return is_conc_int(v) or (isinstance(v, S) and v.e.sort() == Int)

    def binop_s(self, op, a, b):
        """scalars"""
        if isinstance(a, np.generic):
            a = a.item()
        if isinstance(b, np.generic):
            b = b.item()
        if isinstance(a, NUMS) and isinstance(b, NUMS):
            return self.num_op(op, a, b)
        if isinstance(a, (S,) + NUMS) and isinstance(b, (S,) + NUMS):
            return self.sym_op(op, a, b)
        if isinstance(a, Unknown) or isinstance(b, Unknown) or isinstance(a, ExtObj) or isinstance(b, ExtObj):
            raise Unsupported('operation on %r, %r' % (a, b))
        raise exc(TypeError, 'unsupported operand type(s)')

    def num_op(self, op, a, b):
        def ex(x):
            if isinstance(x, float) and x == x and x not in (float('inf'), float('-inf')):
                return Fraction(x)
            return x
        fl = not (isinstance(a, int) and isinstance(b, int))
        if fl:
            a, b = ex(a), ex(b)
        try:
            if isinstance(op, ast.Add):
                return a + b
            if isinstance(op, ast.Sub):
                return a - b
            if isinstance(op, ast.Mult):
                return a * b
            if isinstance(op, ast.Div):
                if isinstance(a, float) or isinstance(b, float):
                    return a / b
                r = Fraction(a) / Fraction(b)
                return r
            if isinstance(op, ast.FloorDiv):
                return a // b
            if isinstance(op, ast.Mod):
                return a % b
            if isinstance(op, ast.Pow):
                if isinstance(a, int) and isinstance(b, int) and b < 0:
                    return Fraction(a) ** b
                if isinstance(b, Fraction) and b.denominator == 1:
                    return Fraction(a) ** int(b)
                r = a ** b
                if isinstance(r, complex):
                    raise Unsupported('complex')
                return r
            if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
                if isinstance(a, int) and isinstance(b, int):
                    return {ast.BitAnd: a & b, ast.BitOr: a | b, ast.BitXor: a ^ b}[type(op)]
            if isinstance(op, (ast.LShift, ast.RShift)):
                return a << b if isinstance(op, ast.LShift) else a >> b
        except ZeroDivisionError:
            raise exc(ZeroDivisionError)
        except OverflowError:
            raise Unsupported('overflow')
        raise Unsupported('operator %s' % type(op).__name__)

    def sym_op(self, op, a, b):
        an = a.nan if isinstance(a, S) else (z3.BoolVal(True) if a != a else None)
        bn = b.nan if isinstance(b, S) else (z3.BoolVal(True) if b != b else None)
        ai = a.inf if isinstance(a, S) else None
        bi = b.inf if isinstance(b, S) else None
        nan = OR(an, bn) if (an is not None or bn is not None) else None
        inf = OR(ai, bi) if (ai is not None or bi is not None) else None
        npf = (isinstance(a, S) and a.np) or (isinstance(b, S) and b.np)

        def sort(x):
            if isinstance(x, S):
                return x.e.sort()
            return Int if isinstance(x, int) else Real
        sa, sb = sort(a), sort(b)
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            if (sa == Bool or isinstance(a, bool)) and (sb == Bool or isinstance(b, bool)):
                x, y = zb(a), zb(b)
                return wrap({ast.BitAnd: lambda: AND(x, y), ast.BitOr: lambda: OR(x, y),
                             ast.BitXor: lambda: z3.Xor(x, y)}[type(op)]())
            raise Unsupported('bit operation')
        if sa == Bool:
            sa = Int
            a = S(zi(a))
        if sb == Bool:
            sb = Int
            b = S(zi(b))
        bothint = sa == Int and sb == Int
        if isinstance(op, (ast.Add, ast.Sub, ast.Mult)):
            x, y = (zi(a), zi(b)) if bothint else (zr(a), zr(b))
            e = x + y if isinstance(op, ast.Add) else x - y if isinstance(op, ast.Sub) else x * y
            return wrap2(z3.simplify(e) if bothint else e, nan, inf, npf)
        if isinstance(op, ast.Div):
            x, y = zr(a), zr(b)
            return self.divide(x, y, nan, inf, npf, elementwise=False)
        if isinstance(op, (ast.FloorDiv, ast.Mod)) and bothint:
            y = zi(b)
            if self.ctx.decide(y == 0):
                if npf:
                    raise Unsupported('integer division by zero')
                raise exc(ZeroDivisionError)
            if not self.ctx.decide(y > 0):
                raise Unsupported('floor division by a negative number')
            x = zi(a)
            if not z3.is_int_value(z3.simplify(y)):
                from .npmodel import udiv, umod
                if not self.ctx.decide(x >= 0):
                    raise Unsupported('floor division of a negative number')
                return wrap(udiv(x, y) if isinstance(op, ast.FloorDiv) else umod(x, y))
            return wrap(z3.simplify(x / y if isinstance(op, ast.FloorDiv) else x % y))
        if isinstance(op, ast.Pow):
            return self.power(a, b, nan, inf, npf)
        raise Unsupported('operator %s on symbolic values' % type(op).__name__)

    def divide(self, x, y, nan=None, inf=None, npf=True, elementwise=True):
        e = x / y
        ys = z3.simplify(y)
        if z3.is_rational_value(ys) and ys.as_fraction() != 0:
            return wrap2(e, nan, inf, npf)
        if not elementwise and self.nonzero(y):
            return wrap2(e, nan, inf, npf)
        if not elementwise and not npf:
            if self.ctx.decide(y == 0):
                raise exc(ZeroDivisionError)
            return wrap2(e, nan, inf, npf)
        z = y == 0
        return S(e, OR(nan, AND(z, x == 0)), OR(inf, AND(z, x != 0)), True)

    def nonzero(self, y):
        ys = z3.simplify(y)
        if z3.is_rational_value(ys):
            return ys.as_fraction() != 0
        return self.ctx.simple_prove(y != 0)

    def power(self, a, b, nan, inf, npf):
        if isinstance(b, NUMS) and b == int(b) and 0 <= b <= 6:
            b = int(b)
            isint = isinstance(a, int) or (isinstance(a, S) and a.e.sort() == Int)
            x = zi(a) if isint else zr(a)
            r = z3.IntVal(1) if isint else z3.RealVal(1)
            for _ in range(b):
                r = r * x if not (z3.is_int_value(r) or z3.is_rational_value(r)) else (x if True else r)
            return wrap2(r, nan, inf, npf)
        if isinstance(b, NUMS) and b == -1:
            return self.divide(z3.RealVal(1), zr(a), nan, inf, npf, elementwise=True)
        if isinstance(b, NUMS) and b == Fraction(1, 2):
            return S(T.sqrt_f(zr(a)), OR(nan, zr(a) < 0), inf, True)
        if isinstance(b, NUMS) and b == Fraction(-1, 2):
            q = T.sqrt_f(zr(a))
            return S(1 / q, OR(nan, zr(a) < 0), OR(inf, zr(a) == 0), True)
        return wrap2(T.pow_f(zr(a), zr(b)), nan, inf, npf)

    # ------------------------------------------------------------------ comparison, truth
    def truth(self, v):
        if v is None or isinstance(v, (bool, int, float, str, Fraction)):
            return bool(v)
        if isinstance(v, S):
            if v.e.sort() == Bool:
                return self.ctx.decide(v.e)
            c = v.e != 0
            return self.ctx.decide(OR(c, v.nan, v.inf))
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, SStr):
            return self.ctx.decide(v.e != z3.StringVal(''))
        if isinstance(v, Ref):
            c = self.ctx.get(v)
            if isinstance(c, LCell):
                n = len(c.seq) if isinstance(c.seq, tuple) else c.seq.n
                return n > 0 if isinstance(n, int) else self.ctx.decide(n > 0)
            if isinstance(c, DCell):
                if c.sym:
                    raise Unsupported('truth of symbolic dict')
                return len(c.items) > 0
            if isinstance(c, ACell):
                if all(isinstance(s, int) for s in c.shape):
                    k = 1
                    for s in c.shape:
                        k *= s
                    if k == 1:
                        return self.truth(self.rd(c)(tuple(0 for _ in c.shape)))
                    raise exc(ValueError, 'truth value of an array is ambiguous')
                one = AND(*[zi(s) == 1 for s in c.shape])
                if self.ctx.decide(one):
                    return self.truth(self.rd(c)(tuple(0 for _ in c.shape)))
                raise exc(ValueError, 'truth value of an array is ambiguous')
            if isinstance(c, OCell):
                f, _ = c.cls.lookup('__bool__')
                if f is not None:
                    return self.truth(self.call(Bound(f, v), [], {}))
                f, _ = c.cls.lookup('__len__')
                if f is not None:
                    return self.truth(self.binop_cmp(ast.NotEq(), self.call(Bound(f, v), [], {}), 0))
                return True
        if isinstance(v, Seq):
            return v.n > 0 if isinstance(v.n, int) else self.ctx.decide(v.n > 0)
        if isinstance(v, ExtObj) and hasattr(v, 'truth_'):
            return v.truth_(self)
        if isinstance(v, (Poison, Unknown)):
            raise Unsupported('truth of %r' % (v,))
        return True

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, fr)
            res = self.compare(op, left, right)
            if i < len(e.ops) - 1:
                if not self.truth(res):
                    return False
            left = right
        return res

    def compare(self, op, a, b):
        from . import npmodel as NP
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported('use of unknown value')
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(a, b)
            return r if isinstance(op, ast.Is) else self.not_(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return r if isinstance(op, ast.In) else self.not_(r)
        if self.is_arr(a) or self.is_arr(b):
            return NP.elementwise(self, lambda x, y: self.binop_cmp(op, x, y), a, b, dtype=np.dtype(bool))
        return self.binop_cmp(op, a, b)

    def not_(self, r):
        if isinstance(r, S):
            return wrap(NOT(r.e))
        return not r

    def is_(self, a, b):
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.a == b.a
        if a is None or b is None:
            if isinstance(a, Opq) or isinstance(b, Opq):
                o = a if isinstance(a, Opq) else b
                return getattr(o, 'isnone', False)
            return a is b
        if isinstance(a, (S, SStr)) or isinstance(b, (S, SStr)):
            if isinstance(a, bool) or isinstance(b, bool):
                s, c = (a, b) if isinstance(a, S) else (b, a)
                if isinstance(s, S) and s.e.sort() == Bool:
                    return wrap(s.e if c else NOT(s.e))
                return False
            if isinstance(a, S) and isinstance(b, S):
                return a is b
            return False
        if isinstance(a, Opq) and isinstance(b, Opq):
            return wrap(z3.simplify(a.e == b.e))
        if isinstance(a, (int, str)) and isinstance(b, (int, str)) and type(a) == type(b):
            return a == b
        return a is b

    def contains(self, cont, x):
        if isinstance(cont, str) and isinstance(x, str):
            return x in cont
        if isinstance(cont, Ref):
            c = self.ctx.get(cont)
            if isinstance(c, DCell):
                if c.sym is not None:
                    return wrap(z3.simplify(c.sym.dom(self.symkey(x))))
                try:
                    return self.hkey(x) in c.items
                except SymKey:
                    if not c.items:
                        return False
                    self.to_symmap(cont)
                    return self.contains(cont, x)
            if isinstance(c, OCell):
                f, _ = c.cls.lookup('__contains__')
                if f is not None:
                    return self.call(Bound(f, cont), [x], {})
            if isinstance(c, ACell):
                raise Unsupported('in array')
        s = self.to_seq(cont)
        if isinstance(s, tuple):
            res = False
            for y in s:
                if y is x:
                    return True
                r = self.eq(x, y)
                if self.truth(r):
                    return True
            return res
        raise Unsupported('membership in a symbolic sequence')

    def eq(self, a, b):
        return self.compare(ast.Eq(), a, b)

    def binop_cmp(self, op, a, b):
        if isinstance(a, np.generic):
            a = a.item()
        if isinstance(b, np.generic):
            b = b.item()
        num_a, num_b = isinstance(a, (S,) + NUMS), isinstance(b, (S,) + NUMS)
        if num_a and num_b:
            if not isinstance(a, S) and not isinstance(b, S):
                x, y = a, b
                return {ast.Eq: lambda: x == y, ast.NotEq: lambda: x != y, ast.Lt: lambda: x < y,
                        ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[type(op)]()

            def boolish(x):
                return isinstance(x, bool) or (isinstance(x, S) and x.e.sort() == Bool)
            if boolish(a) and boolish(b) and isinstance(op, (ast.Eq, ast.NotEq)):
                r = zb(a) == zb(b)
                return wrap(z3.simplify(r if isinstance(op, ast.Eq) else z3.Not(r)))

            def isint(x):
                return isinstance(x, int) or (isinstance(x, S) and x.e.sort() in (Int, Bool))
            if isint(a) and isint(b):
                x, y = zi(a), zi(b)
            else:
                for v, w, flip in ((a, b, False), (b, a, True)):
                    if isinstance(v, float) and v != v:
                        return isinstance(op, ast.NotEq)
                x, y = zr(a), zr(b)
            r = {ast.Eq: lambda: x == y, ast.NotEq: lambda: x != y, ast.Lt: lambda: x < y,
                 ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[type(op)]()
            nan = OR(a.nan if isinstance(a, S) else None, b.nan if isinstance(b, S) else None)
            inf = OR(a.inf if isinstance(a, S) else None, b.inf if isinstance(b, S) else None)
            if not z3.is_false(nan):
                r = OR(r, nan) if isinstance(op, ast.NotEq) else AND(r, NOT(nan))
            if not z3.is_false(inf):
                # sign of the infinity is not tracked: unknown outcome
                r = ITE(inf, T.fresh('cmpinf', Bool), r)
            return wrap(z3.simplify(r) if x.sort() == Int or True else r)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.eq_obj(a, b)
            return r if isinstance(op, ast.Eq) else self.not_(r)
        if isinstance(a, str) and isinstance(b, str):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        if isinstance(a, tuple) and isinstance(b, tuple) and all(isinstance(x, NUMS) for x in a + b):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        if isinstance(a, (Unknown, Opq, SStr)) or isinstance(b, (Unknown, Opq, SStr)):
            raise Unsupported('ordering of %r and %r' % (a, b))
        raise exc(TypeError, 'not supported between instances')

    def eq_obj(self, a, b):
        if self.is_str(a) and self.is_str(b):
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            x = z3.StringVal(a) if isinstance(a, str) else a.e
            y = z3.StringVal(b) if isinstance(b, str) else b.e
            return wrap(z3.simplify(x == y))
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            cs = []
            for x, y in zip(a, b):
                r = self.eq(x, y)
                if isinstance(r, S):
                    cs.append(r.e)
                elif not self.truth(r):
                    return False
            return wrap(z3.simplify(AND(*cs)))
        if isinstance(a, Opq) or isinstance(b, Opq):
            if isinstance(a, Opq) and isinstance(b, Opq):
                return wrap(z3.simplify(a.e == b.e))
            if isinstance(a, Opq) and isinstance(b, (type(None),)) or isinstance(b, Opq) and isinstance(a, (type(None),)):
                return False
            for o, v in ((a, b), (b, a)):
                if isinstance(o, Opq) and isinstance(v, (str, SStr)):
                    if str in o.classes:
                        raise Unsupported('opaque string')
                    if o.classes:
                        return False
            return wrap(T.fresh('opaqueeq', Bool))
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.a == b.a:
                return True
            ca, cb = self.ctx.get(a), self.ctx.get(b)
            if isinstance(ca, LCell) and isinstance(cb, LCell):
                if isinstance(ca.seq, tuple) and isinstance(cb.seq, tuple):
                    return self.eq_obj(ca.seq, cb.seq)
                raise Unsupported('list equality')
            if isinstance(ca, OCell):
                f, _ = ca.cls.lookup('__eq__')
                if f is not None:
                    return self.call(Bound(f, a), [b], {})
                return False
            if isinstance(ca, DCell):
                raise Unsupported('dict equality')
            return False
        if isinstance(a, (Unknown, Poison)) or isinstance(b, (Unknown, Poison)):
            raise Unsupported('equality with %r %r' % (a, b))
        if isinstance(a, (S, SStr)) or isinstance(b, (S, SStr)):
            return False
        try:
            return bool(a == b)
        except Unsupported:
            raise
        except Exception:
            raise Unsupported('equality of %r and %r' % (a, b))

    # ------------------------------------------------------------------ attributes
    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def getattr(self, o, name):
        from . import npmodel as NP
        if isinstance(o, Module):
            return self.module_attr(o, name)
        if isinstance(o, ModelModule):
            return self.module_attr(o, name)
        if isinstance(o, Ref):
            c = self.ctx.get(o)
            if isinstance(c, OCell):
                f, owner = c.cls.lookup(name)
                if isinstance(f, Prop):
                    return self.call(f.fget, [o], {})
                if name in c.fields:
                    v = c.fields[name]
                    if isinstance(v, Poison):
                        raise PoisonRead('read of %s: %s' % (name, v.why), v)
                    return v
                if f is not None:
                    return self.bind(f, o, c.cls)
                if name == '__class__':
                    return c.cls
                if name == '__dict__':
                    raise Unsupported('__dict__')
                f, _ = c.cls.lookup('__getattr__')
                if f is not None:
                    return self.call(Bound(f, o), [name], {})
                raise no_attr(name)
            if isinstance(c, ACell):
                return NP.arr_attr(self, o, c, name)
            if isinstance(c, LCell):
                return self.list_attr(o, c, name)
            if isinstance(c, DCell):
                return self.dict_attr(o, c, name)
        if isinstance(o, UserClass):
            f, _ = o.lookup(name)
            if f is None:
                if name == '__name__':
                    return o.name
                raise no_attr(name)
            if isinstance(f, StaticM):
                return f.f
            if isinstance(f, ClassM):
                return Bound(f.f, o)
            return f
        if isinstance(o, SuperObj):
            cls = self.ctx.get(o.self_).cls if isinstance(o.self_, Ref) else o.self_
            f, owner = cls.lookup(name, after=o.cls)
            if f is None:
                if name == '__init__':
                    return Builtin('object.__init__', lambda I, a, k: None)
                raise no_attr(name)
            if isinstance(f, Prop):
                return self.call(f.fget, [o.self_], {})
            return self.bind(f, o.self_, cls)
        if isinstance(o, (str, SStr)):
            return self.str_attr(o, name)
        if isinstance(o, ExtObj):
            return o.getattr_(self, name)
        if isinstance(o, Prop) and name in ('setter', 'deleter'):
            return PropSetter(o, name)
        if isinstance(o, SliceV):
            if name in ('start', 'stop', 'step'):
                return getattr(o, name)
            if name == 'indices':
                return Builtin('slice.indices', lambda I, a, k: I.slice_indices(o, a[0]))
        if isinstance(o, (S,) + NUMS):
            return NP.scalar_attr(self, o, name)
        if isinstance(o, np.dtype) or isinstance(o, type):
            if name in ('__name__', 'name', 'kind', 'itemsize', 'char', 'type', '__mro__'):
                return getattr(o, name)
            if isinstance(o, type) and o is dict and name == 'fromkeys':
                raise Unsupported('dict.fromkeys')
            v = getattr(o, name, None)
            if v is None:
                raise no_attr(name)
            return Unknown('%s.%s' % (o, name))
        if isinstance(o, ExcVal):
            if name == 'args':
                return tuple(o.args)
            if name == '__class__':
                return o.cls
            raise Unsupported('attribute of exception')
        if isinstance(o, (UserFunc, Builtin)):
            if name == '__name__':
                return o.__name__
            if name == '__doc__':
                return None
            raise no_attr(name)
        if isinstance(o, Bound):
            if name == '__name__':
                return o.func.__name__
        if isinstance(o, (Unknown, Poison)):
            raise Unsupported('use of %r' % (o,))
        if isinstance(o, Partial) and name in ('func', 'args', 'keywords'):
            raise Unsupported('partial attributes')
        if o is None or isinstance(o, (tuple, bool)):
            if isinstance(o, tuple) and name in ('index', 'count'):
                raise Unsupported('tuple method')
            raise no_attr(name)
        if isinstance(o, Seq):
            raise no_attr(name)
        raise Unsupported('attribute %s of %r' % (name, o))

    def bind(self, f, o, cls):
        if isinstance(f, StaticM):
            return f.f
        if isinstance(f, ClassM):
            return Bound(f.f, cls)
        if isinstance(f, (UserFunc, Builtin)):
            return Bound(f, o)
        return f

    def hasattr(self, o, name):
        if isinstance(o, Ref) and isinstance(self.ctx.get(o), OCell):
            c = self.ctx.get(o)
            if name in c.fields:
                return True
            f, _ = c.cls.lookup(name)
            if f is None:
                return name in ('__class__', '__dict__', '__module__', '__doc__')
            if isinstance(f, Prop):
                try:
                    self.getattr(o, name)
                except PyExc as e:
                    if subclass(e.val.cls, AttributeError):
                        return False
                    raise
            return True
        if isinstance(o, ExtObj) and hasattr(o, 'hasattr_'):
            return o.hasattr_(self, name)
        try:
            v = self.getattr(o, name)
            if isinstance(v, Unknown):
                raise Unsupported('hasattr %s' % name)
            return True
        except PyExc as e:
            if subclass(e.val.cls, AttributeError):
                return False
            raise

    def touch(self, addr, what):
        if self.on_write is not None:
            self.on_write(self, addr, what)

    def setattr(self, o, name, v):
        if isinstance(o, Ref):
            c = self.ctx.get(o)
            if isinstance(c, OCell):
                f, _ = c.cls.lookup(name)
                if isinstance(f, Prop):
                    if f.fset is None:
                        raise exc(AttributeError, "can't set attribute")
                    self.call(f.fset, [o, v], {})
                    return
                f, _ = c.cls.lookup('__setattr__')
                if f is not None:
                    raise Unsupported('__setattr__')
                d = dict(c.fields)
                d[name] = v
                self.touch(o.a, name)
                self.ctx.set(o, OCell(c.cls, d))
                return
            if isinstance(c, ACell) and name == 'shape':
                raise Unsupported('setting array shape')
        if isinstance(o, ExtObj) and hasattr(o, 'setattr_'):
            return o.setattr_(self, name, v)
        raise Unsupported('setting attribute %s of %r' % (name, o))

    def delattr(self, o, name):
        if isinstance(o, Ref):
            c = self.ctx.get(o)
            if isinstance(c, OCell):
                if name not in c.fields:
                    raise no_attr(name)
                d = dict(c.fields)
                del d[name]
                self.touch(o.a, name)
                self.ctx.set(o, OCell(c.cls, d))
                return
        raise Unsupported('delattr')

    # ------------------------------------------------------------------ list/dict/str methods
    def list_append(self, o, v):
        c = self.ctx.get(o)
        self.touch(o.a, 'list')
        if isinstance(c.seq, tuple):
            self.ctx.set(o, LCell(c.seq + (v,), c.kind))
        else:
            s = c.seq
            self.ctx.set(o, LCell(append_seq(self, s, v), c.kind))

    def list_extend(self, o, v):
        c = self.ctx.get(o)
        self.touch(o.a, 'list')
        self.ctx.set(o, LCell(self.concat(c.seq, self.to_seq(v)), c.kind))

    def list_attr(self, o, c, name):
        def B(f):
            return Builtin('list.' + name, f)
        if name == 'append':
            return B(lambda I, a, k: I.list_append(o, a[0]))
        if name == 'add' and c.kind == 'set':
            return B(lambda I, a, k: I.list_append(o, a[0]))
        if name == 'extend':
            return B(lambda I, a, k: I.list_extend(o, a[0]))
        if name == 'copy':
            return B(lambda I, a, k: I.ctx.alloc(I.ctx.get(o)))
        if name == 'clear':
            def clr(I, a, k):
                I.touch(o.a, 'list')
                I.ctx.set(o, LCell((), c.kind))
            return B(clr)
        if name == 'pop':
            def pop(I, a, k):
                cc = I.ctx.get(o)
                if not isinstance(cc.seq, tuple) or (a and not isinstance(a[0], int)):
                    raise Unsupported('pop')
                if not cc.seq:
                    raise exc(IndexError)
                l = list(cc.seq)
                v = l.pop(*a)
                I.touch(o.a, 'list')
                I.ctx.set(o, LCell(tuple(l), cc.kind))
                return v
            return B(pop)
        if name == 'index':
            raise Unsupported('list.index')
        if name == 'insert':
            def ins(I, a, k):
                cc = I.ctx.get(o)
                if not isinstance(cc.seq, tuple) or not isinstance(a[0], int):
                    raise Unsupported('insert')
                l = list(cc.seq)
                l.insert(a[0], a[1])
                I.touch(o.a, 'list')
                I.ctx.set(o, LCell(tuple(l), cc.kind))
            return B(ins)
        if name == 'sort':
            def srt(I, a, k):
                r = I.builtins['sorted'].fn(I, [o], k)
                I.touch(o.a, 'list')
                I.ctx.set(o, I.ctx.get(r))
            return B(srt)
        if name == 'reverse':
            def rev(I, a, k):
                cc = I.ctx.get(o)
                s = cc.seq
                I.touch(o.a, 'list')
                I.ctx.set(o, LCell(reverse_seq(s), cc.kind))
            return B(rev)
        if name in ('__len__',):
            return B(lambda I, a, k: I.length(o))
        if name in dir(list if c.kind == 'list' else set):
            raise Unsupported('list.%s' % name)
        raise no_attr(name)

    def dict_attr(self, o, c, name):
        def B(f):
            return Builtin('dict.' + name, f)
        if name == 'get':
            def get(I, a, k):
                d = a[1] if len(a) > 1 else k.get('default')
                cc = I.ctx.get(o)
                if cc.sym is None:
                    try:
                        return cc.items.get(I.hkey(a[0]), d)
                    except SymKey:
                        if not cc.items:
                            return d
                        I.to_symmap(o)
                        cc = I.ctx.get(o)
                key = I.symkey(a[0])
                if I.ctx.decide(cc.sym.dom(key)):
                    return cc.sym.val(key)
                return d
            return B(get)
        if name == 'clear':
            def clr(I, a, k):
                I.touch(o.a, 'dict')
                I.ctx.set(o, DCell({}))
            return B(clr)
        if name == 'copy':
            return B(lambda I, a, k: I.ctx.alloc(I.ctx.get(o)))
        if name in ('items', 'keys', 'values'):
            if c.sym is not None:
                raise Unsupported('iteration over a symbolic dict')
            its = [(self.unkey(k), v) for k, v in c.items.items()]
            if name == 'items':
                return B(lambda I, a, k: Gen(tuple(its)))
            if name == 'keys':
                return B(lambda I, a, k: Gen(tuple(x for x, _ in its)))
            return B(lambda I, a, k: Gen(tuple(x for _, x in its)))
        if name == 'pop':
            def pop(I, a, k):
                cc = I.ctx.get(o)
                if cc.sym is not None:
                    raise Unsupported('pop from symbolic dict')
                key = I.hkey(a[0])
                if key in cc.items:
                    d = dict(cc.items)
                    v = d.pop(key)
                    I.touch(o.a, 'dict')
                    I.ctx.set(o, DCell(d))
                    return v
                if len(a) > 1:
                    return a[1]
                raise exc(KeyError)
            return B(pop)
        if name == 'setdefault':
            def sd(I, a, k):
                if I.truth(I.contains(o, a[0])):
                    return I.getitem(o, a[0])
                v = a[1] if len(a) > 1 else None
                I.setitem(o, a[0], v)
                return v
            return B(sd)
        if name == 'update':
            def up(I, a, k):
                for x in a:
                    xc = I.ctx.get(x) if isinstance(x, Ref) else None
                    if not isinstance(xc, DCell) or xc.sym is not None:
                        raise Unsupported('dict.update')
                    for kk, v in xc.items.items():
                        I.setitem(o, I.unkey(kk), v)
                for kk, v in k.items():
                    I.setitem(o, kk, v)
            return B(up)
        if name in dir(dict):
            raise Unsupported('dict.%s' % name)
        raise no_attr(name)

    def unkey(self, k):
        if isinstance(k, tuple) and len(k) == 2 and k[0] == 'ref':
            return Ref(k[1])
        return k

    def str_attr(self, o, name):
        if name == 'format':
            return Builtin('str.format', lambda I, a, k: formatted(o, a, k))
        if name == 'join':
            return Builtin('str.join', lambda I, a, k: SStr(T.fresh('str', StrS)))
        if isinstance(o, str):
            if not hasattr(o, name):
                raise exc(AttributeError, name)

            def f(I, a, k):
                if all(isinstance(x, (str, int)) or x is None or (isinstance(x, tuple) and all(isinstance(y, str) for y in x)) for x in a):
                    r = getattr(o, name)(*a, **k)
                    if isinstance(r, list):
                        return I.new_list(r)
                    return r
                raise Unsupported('str.%s' % name)
            return Builtin('str.' + name, f)
        if name in ('lower', 'casefold', 'upper', 'strip'):
            fn = z3.Function('str.' + ('lower' if name == 'casefold' else name), StrS, StrS)
            return Builtin('str.' + name, lambda I, a, k: SStr(fn(o.e)))
        raise Unsupported('str.%s on a symbolic string' % name)

    # ------------------------------------------------------------------ subscripts
    def ev_index(self, s, fr):
        if isinstance(s, ast.Slice):
            return SliceV(*[self.ev(x, fr) if x is not None else None for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_index(x, fr) for x in s.elts)
        return self.ev(s, fr)

    def e_Slice(self, e, fr):
        return self.ev_index(e, fr)

    def e_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        return self.getitem(o, self.ev_index(e.slice, fr))

    def sel(self, c, a, b):
        """If(c, a, b), decided where the path decides it"""
        if self.ctx.simple_prove(NOT(c)):
            return b
        if self.ctx.simple_prove(c):
            return a
        return z3.If(c, a, b)

    def slice_indices(self, sl, n):
        """contract of slice.indices: concrete, or (start, stop, step) with range() inside [0, n)"""
        n = simp_int(n)
        parts = [simp_int(x) for x in (sl.start, sl.stop, sl.step)]
        if isinstance(n, int) and all(x is None or isinstance(x, int) for x in parts):
            if parts[2] == 0:
                raise exc(ValueError)
            return slice(*parts).indices(n)
        st = parts[2]
        if st is None:
            st = 1
        if isinstance(st, int) and st == 0:
            raise exc(ValueError)
        if not isinstance(st, int):
            raise Unsupported('symbolic slice step')
        N = zi(n)
        lo, hi = (z3.IntVal(0), N) if st > 0 else (z3.IntVal(-1), N - 1)

        def norm(x, default):
            if x is None:
                return default
            if isinstance(x, (float, str, tuple)) or (T.isz(x) and x.sort() != Int):
                raise exc(TypeError, 'slice indices must be integers')
            x = zi(x)
            v = self.sel(x < 0, x + N, x)
            return self.sel(v < lo, lo, self.sel(v > hi, hi, v))
        a = norm(parts[0], lo if st > 0 else hi)
        b = norm(parts[1], hi if st > 0 else lo)
        return (wrap(z3.simplify(a)), wrap(z3.simplify(b)), st)

    def range_seq(self, *a):
        a = [simp_int(x) for x in a]
        for x in a:
            if not (isinstance(x, int) or (T.isz(x) and x.sort() == Int)):
                if isinstance(x, (Poison, Unknown)):
                    raise Unsupported('range of unknown')
                raise exc(TypeError, 'range')
        if len(a) == 1:
            a = [0, a[0], 1]
        elif len(a) == 2:
            a = a + [1]
        lo, hi, st = a
        if all(isinstance(x, int) for x in a):
            if st == 0:
                raise exc(ValueError)
            return Seq(len(range(lo, hi, st)), lambda k: wrap(simp_int(zi(k) * st + lo)) if not isinstance(k, int) else lo + k * st,
                       meta={'range': (lo, hi, st)})
        if not isinstance(st, int):
            raise Unsupported('symbolic range step')
        if st == 0:
            raise exc(ValueError)
        d = zi(hi) - zi(lo) if st > 0 else zi(lo) - zi(hi)
        s = abs(st)
        n = self.sel(d > 0, (d + (s - 1)) / s if s != 1 else d, z3.IntVal(0))
        return Seq(simp_int(n), lambda k: wrap(simp_int(zi(lo) + zi(k) * st)), meta={'range': (lo, hi, st)})

    def tuple_at(self, t, k):
        """symbolic index into a concrete tuple: fork"""
        k = zi(k)
        n = len(t)
        if n == 0:
            raise exc(IndexError)
        nums = all(isinstance(x, (S,) + NUMS) for x in t)
        if nums and not self.ctx.decide(AND(k >= 0, k < n)):
            if self.ctx.decide(AND(k < 0, k >= -n)):
                k = k + n
            else:
                raise exc(IndexError)
        if nums:
            allint = all(self.is_intlike(x) or isinstance(x, int) for x in t)
            r = zi(t[-1]) if allint else zr(t[-1])
            for i in range(n - 2, -1, -1):
                r = z3.If(k == i, zi(t[i]) if allint else zr(t[i]), r)
            return wrap(r)
        for i in range(n):
            if self.ctx.decide(OR(k == i, k == i - n)):
                return t[i]
        raise exc(IndexError)

    def getitem(self, o, ix):
        from . import npmodel as NP
        if isinstance(o, (Poison, Unknown)) or isinstance(ix, (Poison, Unknown)):
            raise Unsupported('subscript of %r' % (o,))
        if isinstance(o, Ref):
            c = self.ctx.get(o)
            if isinstance(c, ACell):
                return NP.arr_get(self, o, c, ix)
            if isinstance(c, LCell):
                if c.kind == 'set':
                    raise exc(TypeError)
                r = self.seq_get(c.seq, ix)
                if isinstance(ix, SliceV):
                    return self.new_list(r)
                return r
            if isinstance(c, DCell):
                return self.dict_get(o, c, ix)
            if isinstance(c, OCell):
                f, _ = c.cls.lookup('__getitem__')
                if f is None:
                    raise exc(TypeError, 'not subscriptable')
                return self.call(Bound(f, o), [ix], {})
        if isinstance(o, (tuple, Seq)):
            return self.seq_get(o, ix)
        if isinstance(o, str) and isinstance(ix, int):
            try:
                return o[ix]
            except IndexError:
                raise exc(IndexError)
        if isinstance(o, str) and isinstance(ix, SliceV):
            return o[slice(ix.start, ix.stop, ix.step)]
        if isinstance(o, ExtObj) and hasattr(o, 'getitem_'):
            return o.getitem_(self, ix)
        if isinstance(o, Gen):
            raise exc(TypeError, 'not subscriptable')
        if isinstance(o, (S, SStr)):
            raise Unsupported('subscript of %r' % (o,))
        raise exc(TypeError, 'not subscriptable')

    def seq_get(self, s, ix):
        if isinstance(ix, SliceV):
            n = len(s) if isinstance(s, tuple) else s.n
            a, b, st = self.slice_indices(ix, n)
            if isinstance(s, tuple) and all(isinstance(x, int) for x in (a, b, st)):
                return s[slice(*[x for x in (ix.start, ix.stop, ix.step)])]
            if st != 1:
                if ix.start is None and ix.stop is None and st == -1:
                    return reverse_seq(s)
                raise Unsupported('slice step')
            ln = z3.If(zi(b) > zi(a), zi(b) - zi(a), z3.IntVal(0))
            return Seq(simp_int(ln), lambda k: self.seq_at(s, simp_int(zi(a) + zi(k))))
        if isinstance(ix, bool):
            ix = int(ix)
        if isinstance(ix, Ref) and self.is_arr(ix):
            c = self.ctx.get(ix)
            if c.ndim == 0:
                ix = self.rd(c)(())
        if isinstance(s, tuple):
            if isinstance(ix, int):
                try:
                    return s[ix]
                except IndexError:
                    raise exc(IndexError)
            if isinstance(ix, S) and ix.e.sort() == Int:
                return self.tuple_at(s, ix)
            raise exc(TypeError, 'indices must be integers')
        if not self.is_intlike(ix):
            raise exc(TypeError, 'indices must be integers')
        k = zi(ix)
        if not self.ctx.decide(AND(k >= 0, k < zi(s.n))):
            if self.ctx.decide(AND(k < 0, k >= -zi(s.n))):
                return s.get(simp_int(k + zi(s.n)))
            raise exc(IndexError)
        return s.get(simp_int(k))

    def symkey(self, k):
        if isinstance(k, tuple):
            out = []
            for x in k:
                if self.is_intlike(x):
                    out.append(zi(x))
                elif self.is_str(x):
                    out.append(z3.StringVal(x) if isinstance(x, str) else x.e)
                else:
                    raise Unsupported('dict key %r' % (x,))
            return tuple(out)
        if self.is_intlike(k):
            return (zi(k),)
        if self.is_str(k):
            return (z3.StringVal(k) if isinstance(k, str) else k.e,)
        if isinstance(k, Opq):
            return (k.e,)
        raise Unsupported('symbolic dict key %r' % (k,))

    def to_symmap(self, o):
        c = self.ctx.get(o)
        items = [(self.symkey(self.unkey(k)), v) for k, v in c.items.items()]

        def dom(p):
            return OR(*[AND(*[a == b for a, b in zip(k, p)]) for k, _ in items if same_sorts(k, p)])

        def val(p):
            r = None
            for k, v in items:
                if not same_sorts(k, p):
                    continue
                r = v if r is None else merge_val(AND(*[a == b for a, b in zip(k, p)]), v, r)
            if r is None:
                raise Unsupported('value of an empty dict')
            return r
        self.ctx.set(o, DCell(None, SymMap(None, dom, val)))

    def dict_get(self, o, c, ix):
        if c.sym is None:
            try:
                k = self.hkey(ix)
                if k in c.items:
                    return c.items[k]
                raise exc(KeyError, ix)
            except SymKey:
                if not c.items:
                    raise exc(KeyError, ix)
                # fork over the concrete keys
                for kk, v in c.items.items():
                    if self.truth(self.eq(ix, self.unkey(kk))):
                        return v
                raise exc(KeyError, ix)
        key = self.symkey(ix)
        if self.ctx.decide(c.sym.dom(key)):
            return c.sym.val(key)
        raise exc(KeyError, ix)

    def setitem(self, o, ix, v):
        from . import npmodel as NP
        if isinstance(o, Ref):
            c = self.ctx.get(o)
            if isinstance(c, ACell):
                return NP.arr_set(self, o, c, ix, v)
            if isinstance(c, DCell):
                self.touch(o.a, 'dict')
                if c.sym is None:
                    try:
                        k = self.hkey(ix)
                        d = dict(c.items)
                        d[k] = v
                        self.ctx.set(o, DCell(d))
                        return
                    except SymKey:
                        self.to_symmap(o)
                        c = self.ctx.get(o)
                key = self.symkey(ix)
                s = c.sym

                def hit(p):
                    return AND(*[a == b for a, b in zip(key, p)]) if same_sorts(key, p) else z3.BoolVal(False)

                def val(p, old=s.val):
                    h = z3.simplify(hit(p))
                    if z3.is_true(h):
                        return v
                    if z3.is_false(h):
                        return old(p)
                    try:
                        ov = old(p)
                    except Unsupported:
                        return v
                    return merge_val(h, v, ov)
                self.ctx.set(o, DCell(None, SymMap(s.sorts, lambda p, old=s.dom: OR(hit(p), old(p)), val, s.inv, s.ghost)))
                return
            if isinstance(c, LCell):
                self.touch(o.a, 'list')
                if isinstance(c.seq, tuple) and isinstance(ix, int):
                    l = list(c.seq)
                    try:
                        l[ix] = v
                    except IndexError:
                        raise exc(IndexError)
                    self.ctx.set(o, LCell(tuple(l), c.kind))
                    return
                if self.is_intlike(ix):
                    s = c.seq
                    n = len(s) if isinstance(s, tuple) else s.n
                    k = zi(ix)
                    if not self.ctx.decide(AND(k >= 0, k < zi(n))):
                        raise Unsupported('list store out of range')

                    def get(j):
                        h = z3.simplify(zi(j) == k)
                        if z3.is_true(h):
                            return v
                        old = self.seq_at(s, j)
                        return old if z3.is_false(h) else merge_val(h, v, old)
                    self.ctx.set(o, LCell(Seq(n, get), c.kind))
                    return
                raise Unsupported('list slice store')
            if isinstance(c, OCell):
                f, _ = c.cls.lookup('__setitem__')
                if f is None:
                    raise exc(TypeError)
                return self.call(Bound(f, o), [ix, v], {})
        if isinstance(o, (tuple, str)):
            raise exc(TypeError)
        raise Unsupported('item store into %r' % (o,))

    def delitem(self, o, ix):
        if isinstance(o, Ref):
            c = self.ctx.get(o)
            if isinstance(c, DCell) and c.sym is None:
                k = self.hkey(ix)
                if k not in c.items:
                    raise exc(KeyError)
                d = dict(c.items)
                del d[k]
                self.touch(o.a, 'dict')
                self.ctx.set(o, DCell(d))
                return
            if isinstance(c, LCell) and isinstance(c.seq, tuple) and isinstance(ix, int):
                l = list(c.seq)
                del l[ix]
                self.ctx.set(o, LCell(tuple(l), c.kind))
                return
        raise Unsupported('del item')

    def write_array(self, ref, elem, cast=False):
        c = self.ctx.get(ref)
        if c.view is not None:
            if self.ctx.frames:
                base = self.ctx.store[c.view]
                while base.view is not None:
                    base = self.ctx.store[base.view]
                if base.owner:
                    from . import npmodel as NP
                    self.ctx.frame_check(ACell(c.shape, c.dtype, NP.rd(self, c), owner=base.owner), ACell(c.shape, c.dtype, elem))
            raise Unsupported('write through an array view')
        self.touch(ref.a, 'array')
        self.ctx.set(ref, c.with_(elem=elem))

    # ------------------------------------------------------------------ iteration
    def length(self, v):
        if isinstance(v, (tuple, str)):
            return len(v)
        if isinstance(v, Seq):
            return wrap(v.n) if T.isz(v.n) else v.n
        if isinstance(v, Ref):
            c = self.ctx.get(v)
            if isinstance(c, LCell):
                if isinstance(c.seq, tuple):
                    if c.kind == 'set':
                        return self.set_len(c.seq)
                    return len(c.seq)
                if c.kind == 'set':
                    from . import npmodel as NP
                    return wrap(NP.sorted_set(self, c.seq).n)
                return wrap(c.seq.n) if T.isz(c.seq.n) else c.seq.n
            if isinstance(c, DCell):
                if c.sym is None:
                    return len(c.items)
                raise Unsupported('len of symbolic dict')
            if isinstance(c, ACell):
                if c.ndim == 0:
                    raise exc(TypeError, 'len() of unsized object')
                n = c.shape[0]
                return wrap(n) if T.isz(n) else n
            if isinstance(c, OCell):
                f, _ = c.cls.lookup('__len__')
                if f is None:
                    raise exc(TypeError, 'object has no len()')
                r = self.call(Bound(f, v), [], {})
                if not self.is_intlike(r):
                    raise exc(TypeError, 'len must be int')
                return r
        if isinstance(v, ExtObj) and hasattr(v, 'len_'):
            return v.len_(self)
        if isinstance(v, (Poison, Unknown, SStr, Opq)):
            raise Unsupported('len of %r' % (v,))
        if isinstance(v, Gen):
            raise exc(TypeError, 'object of type generator has no len()')
        raise exc(TypeError, 'object has no len()')

    def set_len(self, items):
        out = []
        for x in items:
            if not any(self.truth(self.eq(x, y)) for y in out):
                out.append(x)
        return len(out)

    def to_seq(self, v):
        """iterate over v"""
        if isinstance(v, tuple):
            return v
        if isinstance(v, str):
            return tuple(v)
        if isinstance(v, Seq):
            return v
        if isinstance(v, Gen):
            s = v.seq
            v.seq = ()
            return s
        if isinstance(v, Ref):
            c = self.ctx.get(v)
            if isinstance(c, LCell):
                if c.kind == 'set':
                    from . import npmodel as NP
                    if isinstance(c.seq, tuple) or isinstance(c.seq.n, int) and c.seq.n <= 8:
                        out = []
                        for x in c.seq if isinstance(c.seq, tuple) else [c.seq.get(k) for k in range(c.seq.n)]:
                            if not any(self.truth(self.eq(x, y)) for y in out):
                                out.append(x)
                        return tuple(out)
                    s = NP.sorted_set(self, c.seq)
                    if isinstance(s.n, int):
                        raise Unsupported('iteration over a symbolic set')
                    perm = z3.Function(T.fresh_name('order'), Int, Int)
                    return Seq(s.n, lambda k: s.get(perm(zi(k))), meta={'sorted_as': s, 'assume': lambda k: AND(perm(k) >= 0, perm(k) < zi(s.n))})
                return c.seq
            if isinstance(c, DCell):
                if c.sym is not None:
                    raise Unsupported('iteration over a symbolic dict')
                return tuple(self.unkey(k) for k in c.items)
            if isinstance(c, ACell):
                from . import npmodel as NP
                return NP.arr_iter(self, v, c)
            if isinstance(c, OCell):
                f, _ = c.cls.lookup('__iter__')
                if f is not None:
                    return self.to_seq(self.call(Bound(f, v), [], {}))
                f, _ = c.cls.lookup('__getitem__')
                if f is not None:
                    raise Unsupported('iteration through __getitem__')
                raise exc(TypeError, 'object is not iterable')
        if isinstance(v, ExtObj) and hasattr(v, 'iter_'):
            return v.iter_(self)
        if isinstance(v, (Poison, Unknown, SStr, Opq)):
            raise Unsupported('iteration over %r' % (v,))
        raise exc(TypeError, 'object is not iterable')

    def comp(self, e, fr, kind):
        """list/set/generator comprehension -> list cell"""
        out = self.ctx.alloc(LCell((), 'list'))
        cf = Frame(fr.glob, fr, fr.qual, fr.modname, self)

        def gen(i):
            if i == len(e.generators):
                self.list_append(out, self.ev(e.elt, cf))
                return None
            g = e.generators[i]
            seq = self.to_seq(self.ev(g.iter, cf))

            def body(v):
                self.assign(g.target, v, cf)
                for c in g.ifs:
                    if not self.truth(self.ev(c, cf)):
                        return None
                gen(i + 1)
            self.loop(seq, body, cf, e)
            return None
        gen(0)
        return out

    def e_ListComp(self, e, fr):
        return self.comp(e, fr, 'list')

    def e_GeneratorExp(self, e, fr):
        r = self.comp(e, fr, 'list')
        return Gen(self.ctx.get(r).seq)

    def e_SetComp(self, e, fr):
        r = self.comp(e, fr, 'list')
        self.ctx.set(r, LCell(self.ctx.get(r).seq, 'set'))
        return r

    def e_DictComp(self, e, fr):
        out = self.ctx.alloc(DCell({}))
        cf = Frame(fr.glob, fr, fr.qual, fr.modname, self)

        def gen(i):
            if i == len(e.generators):
                self.setitem(out, self.ev(e.key, cf), self.ev(e.value, cf))
                return
            g = e.generators[i]

            def body(v):
                self.assign(g.target, v, cf)
                for c in g.ifs:
                    if not self.truth(self.ev(c, cf)):
                        return None
                gen(i + 1)
            self.loop(self.to_seq(self.ev(g.iter, cf)), body, cf, e)
        gen(0)
        return out

    # ------------------------------------------------------------------ yield (eager generators)
    def e_Yield(self, e, fr):
        f = fr
        while f is not None and getattr(f, 'yields', None) is None:
            f = f.parent
        if f is None:
            raise Unsupported('yield')
        self.list_append(f.yields, self.ev(e.value, fr) if e.value is not None else None)
        return None

    def e_YieldFrom(self, e, fr):
        f = fr
        while f is not None and getattr(f, 'yields', None) is None:
            f = f.parent
        self.list_extend(f.yields, self.ev(e.value, fr))
        return None

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            f = fr
            while f is not None and not hasattr(f, 'self_'):
                f = f.parent
            if f is None:
                raise Unsupported('super()')
            cls = f.func.cls.cls
            return SuperObj(cls, f.self_)
        fn = self.ev(e.func, fr)
        args = self.ev_items(e.args, fr)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, fr)
                c = self.ctx.get(d) if isinstance(d, Ref) else None
                if not isinstance(c, DCell) or c.sym is not None:
                    raise Unsupported('** of a non-concrete dict')
                for kk, v in c.items.items():
                    kw[kk] = v
            else:
                kw[k.arg] = self.ev(k.value, fr)
        return self.call(fn, args, kw)

    def call_method(self, o, name, args, kw=None):
        return self.call(self.getattr(o, name), args, kw or {})

    def qual(self, f):
        return '%s.%s' % ((f.module or '').replace('kernelmethods.', ''), f.qualname)

    def call(self, fn, args, kw):
        self.ctx.check_time()
        if isinstance(fn, Bound):
            return self.call(fn.func, [fn.self_] + list(args), kw)
        if isinstance(fn, Builtin):
            try:
                return fn.fn(self, list(args), dict(kw))
            except (PyExc, Unsupported, Infeasible, Budget):
                raise
            except (TypeError, ValueError, KeyError, IndexError, AttributeError, AssertionError) as e:
                raise Unsupported('model of %s: %s: %s' % (fn.name, type(e).__name__, e))
        if isinstance(fn, UserFunc):
            q = self.qual(fn)
            st = self.stubs.get(q)
            if st is not None and not (self.under == q and self.call_depth == 0):
                return st(self, fn, list(args), dict(kw))
            return self.call_user(fn, args, kw)
        if isinstance(fn, UserClass):
            return self.construct(fn, args, kw)
        if isinstance(fn, ExtClass):
            f = fn.lookup('__new__')
            if f is None:
                raise Unsupported('instantiation of %s' % fn.name)
            return self.call(f, args, kw)
        if isinstance(fn, Partial):
            k = dict(fn.kw)
            k.update(kw)
            return self.call(fn.func, list(fn.args) + list(args), k)
        if isinstance(fn, ExtObj):
            return fn.call_(self, args, kw)
        if isinstance(fn, Ref):
            c = self.ctx.get(fn)
            if isinstance(c, OCell):
                f, _ = c.cls.lookup('__call__')
                if f is not None:
                    return self.call(Bound(f, fn), args, kw)
            raise exc(TypeError, 'not callable')
        if isinstance(fn, type):
            b = self.builtins.get(('type', fn))
            if b is not None:
                return self.call(b, args, kw)
            if issubclass(fn, BaseException):
                return ExcVal(fn, tuple(args))
            if issubclass(fn, np.generic):
                from . import npmodel as NP
                return NP.cast_scalar(self, fn, args)
            raise Unsupported('call of %s' % fn)
        if isinstance(fn, (Unknown, Poison)):
            raise Unsupported('call of %r' % (fn,))
        if fn is None or isinstance(fn, (S, str, tuple) + NUMS):
            raise exc(TypeError, 'not callable')
        raise Unsupported('call of %r' % (fn,))

    def construct(self, cls, args, kw):
        q = '%s.%s' % ((cls.module or '').replace('kernelmethods.', ''), cls.name)
        ov = self.class_override.get(q)
        if ov is not None:
            return ov(self, cls, args, kw)
        if subclass(cls, BaseException):
            return ExcVal(cls, tuple(args))
        f, owner = cls.lookup('__new__')
        if isinstance(owner, UserClass):
            raise Unsupported('__new__')
        for nm in self.abstract_methods(cls):
            raise exc(TypeError, "Can't instantiate abstract class")
        o = self.ctx.alloc(OCell(cls, {}))
        f, owner = cls.lookup('__init__')
        if f is not None:
            r = self.call(Bound(f, o), args, kw)
        elif args or kw:
            raise exc(TypeError, 'takes no arguments')
        return o

    def abstract_methods(self, cls):
        import abc
        if not any(c is abc.ABC for c in cls.mro):
            return []
        names = set()
        for c in cls.mro:
            if isinstance(c, UserClass):
                for k, v in c.ns.items():
                    names.add(k)
        out = []
        for k in names:
            f, _ = cls.lookup(k)
            f = f.fget if isinstance(f, Prop) else f
            if isinstance(f, UserFunc) and any(
                    (isinstance(d, ast.Name) and d.id == 'abstractmethod') or
                    (isinstance(d, ast.Attribute) and d.attr == 'abstractmethod')
                    for d in getattr(f.node, 'decorator_list', [])):
                out.append(k)
        return out

    def call_user(self, fn, args, kw):
        if self.call_depth > 40:
            raise Unsupported('recursion too deep')
        self.source_used.add(self.qual(fn))
        fr = Frame(fn.glob, fn.closure, fn.qualname + '.<locals>.', fn.module, self)
        fr.func = fn
        self.bind_args(fn, args, kw, fr)
        if args:
            fr.self_ = args[0]
        node = fn.node
        self.call_depth += 1
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, fr)
            if is_generator(node):
                fr.yields = self.ctx.alloc(LCell((), 'list'))
                self.block(node.body, fr)
                return Gen(self.ctx.get(fr.yields).seq)
            r = self.block(node.body, fr)
            if r is None:
                return None
            return r[1]
        finally:
            self.call_depth -= 1

    def bind_args(self, fn, args, kw, fr):
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        vals = {}
        if len(args) > len(pos) and a.vararg is None:
            raise exc(TypeError, 'too many positional arguments')
        for n, v in zip(pos, args):
            vals[n] = v
        if a.vararg is not None:
            vals[a.vararg.arg] = tuple(args[len(pos):])
        for n in pos[len(args):]:
            if n in kw:
                vals[n] = kw.pop(n)
        for n in pos[:len(args)]:
            if n in kw and n not in [x.arg for x in a.posonlyargs]:
                raise exc(TypeError, 'multiple values for argument')
        nd = len(fn.defaults)
        for i, n in enumerate(pos):
            if n not in vals:
                j = i - (len(pos) - nd)
                if j < 0:
                    raise exc(TypeError, 'missing argument %s' % n)
                vals[n] = fn.defaults[j]
        for x, d in zip(a.kwonlyargs, fn.kwdefaults):
            if x.arg in kw:
                vals[x.arg] = kw.pop(x.arg)
            elif d is NODEF:
                raise exc(TypeError, 'missing keyword argument')
            else:
                vals[x.arg] = d
        if a.kwarg is not None:
            vals[a.kwarg.arg] = self.ctx.alloc(DCell(kw))
        elif kw:
            raise exc(TypeError, 'unexpected keyword argument %s' % list(kw))
        fr.init(vals)

    # ------------------------------------------------------------------ isinstance
    def type_of(self, v):
        if v is None:
            return type(None)
        if isinstance(v, bool):
            return bool
        if isinstance(v, int):
            return int
        if isinstance(v, (float, Fraction)):
            return float
        if isinstance(v, str):
            return str
        if isinstance(v, SStr):
            return str
        if isinstance(v, S):
            s = v.e.sort()
            if v.np:
                return {Bool: np.bool_, Int: np.int64, Real: np.float64}[s] if s in (Bool, Int, Real) else object
            return bool if s == Bool else int if s == Int else float
        if isinstance(v, tuple):
            return tuple
        if isinstance(v, Seq):
            return range if 'range' in v.meta else tuple
        if isinstance(v, SliceV):
            return slice
        if isinstance(v, Ref):
            c = self.ctx.get(v)
            if isinstance(c, OCell):
                return c.cls
            if isinstance(c, LCell):
                return {'list': list, 'set': set, 'tuple': tuple}[c.kind]
            if isinstance(c, DCell):
                return dict
            if isinstance(c, ACell):
                if c.sparse:
                    return SPARSE
                return np.ndarray
        if isinstance(v, ExtObj):
            if v.typ is not None:
                return v.typ
            return Unknown('type of %r' % (v,))
        if isinstance(v, (UserClass, ExtClass, type)):
            return type
        if isinstance(v, ExcVal):
            return v.cls
        if isinstance(v, Gen):
            import types
            return types.GeneratorType
        if isinstance(v, np.dtype):
            return np.dtype
        if isinstance(v, (UserFunc, Builtin, Bound, Partial)):
            import types
            return types.FunctionType
        raise Unsupported('type of %r' % (v,))

    def isinstance(self, v, cls):
        if isinstance(cls, (list,)):
            raise exc(TypeError)
        if isinstance(cls, tuple):
            return any(self.isinstance(v, c) for c in cls)
        if isinstance(cls, Ref):
            raise exc(TypeError, 'isinstance() arg 2 must be a type')
        if isinstance(v, (Poison, Unknown)):
            raise Unsupported('isinstance of %r' % (v,))
        if isinstance(cls, Unknown):
            raise Unsupported('isinstance with %s' % cls.name)
        if isinstance(v, ExtObj):
            return v.isinstance_(self, cls)
        t = self.type_of(v)
        if cls is collections.abc.Iterable or cls in (collections.abc.Sized, collections.abc.Sequence,
                                                        collections.abc.Collection):
            if isinstance(t, UserClass):
                return t.lookup('__iter__' if cls is not collections.abc.Sized else '__len__')[0] is not None
            if isinstance(t, ExtClass):
                return False
            if t is SPARSE:
                return True
            return issubclass(t, cls)
        if cls is collections.abc.Callable:
            return self.callable(v)
        import numbers
        if cls in (numbers.Number, numbers.Real, numbers.Integral):
            if isinstance(t, (UserClass, ExtClass)) or t is SPARSE:
                return False
            return issubclass(t, cls)
        if t is SPARSE:
            return cls is object or cls is SPARSE
        if isinstance(t, (UserClass, ExtClass)) or isinstance(cls, (UserClass, ExtClass)):
            return subclass(t, cls)
        if isinstance(cls, type):
            return issubclass(t, cls)
        raise exc(TypeError, 'isinstance() arg 2 must be a type')

    def callable(self, v):
        if isinstance(v, (UserFunc, Builtin, Bound, Partial, UserClass, ExtClass, type)):
            return True
        if isinstance(v, Ref):
            c = self.ctx.get(v)
            return isinstance(c, OCell) and c.cls.lookup('__call__')[0] is not None
        if isinstance(v, ExtObj):
            return getattr(v, 'callable', False)
        if isinstance(v, (Unknown, Poison)):
            raise Unsupported('callable(%r)' % (v,))
        return False


class _Sparse:
    __name__ = 'spmatrix'


SPARSE = _Sparse
NODEF = object()


class PoisonRead(Unsupported):
    def __init__(self, msg, p):
        Unsupported.__init__(self, msg)
        self.p = p


class SymKey(Exception):
    pass


class PropSetter:
    def __init__(self, p, kind):
        self.p, self.kind = p, kind


class ClsBox:
    cls = None


def wrap2(e, nan, inf, npf):
    if nan is None and inf is None and not npf:
        return wrap(e)
    return S(e, nan, inf, npf)


def same_sorts(k, p):
    return len(k) == len(p) and all(a.sort() == b.sort() for a, b in zip(k, p))


def merge_val(c, a, b):
    """If(c, a, b) on values"""
    c = z3.simplify(zb(c))
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    if isinstance(a, bool) and isinstance(b, bool) and a == b:
        return a
    if isinstance(a, (S,) + NUMS) and isinstance(b, (S,) + NUMS):
        def srt(x):
            if isinstance(x, S):
                return x.e.sort()
            return Bool if isinstance(x, bool) else Int if isinstance(x, int) else Real
        sa, sb = srt(a), srt(b)
        if not isinstance(a, S) and not isinstance(b, S) and a == b and sa == sb:
            return a
        if sa == sb == Bool:
            e = ITE(c, zb(a), zb(b))
        elif Real in (sa, sb):
            e = ITE(c, zr(a), zr(b))
        else:
            e = ITE(c, zi(a), zi(b))

        def flag(x, f):
            if isinstance(x, S):
                return getattr(x, f)
            if f == 'nan' and x != x:
                return z3.BoolVal(True)
            if f == 'inf' and isinstance(x, float) and x in (float('inf'), -float('inf')):
                return z3.BoolVal(True)
            return None
        fl = []
        for f in ('nan', 'inf'):
            x, y = flag(a, f), flag(b, f)
            if x is None and y is None:
                fl.append(None)
            else:
                fl.append(OR(AND(c, zb(x if x is not None else False)), AND(NOT(c), zb(y if y is not None else False))))
        return S(e, fl[0], fl[1], (isinstance(a, S) and a.np) or (isinstance(b, S) and b.np))
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        x = z3.StringVal(a) if isinstance(a, str) else a.e
        y = z3.StringVal(b) if isinstance(b, str) else b.e
        return SStr(ITE(c, x, y))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge_val(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Opq) and isinstance(b, Opq):
        return a.at(ITE(c, a.e, b.e))
    if a is None and b is None:
        return None
    if isinstance(a, Ref) and isinstance(b, Ref) and a.a == b.a:
        return a
    raise Unsupported('merge of %r and %r' % (a, b))


def append_seq(I, s, v):
    n = s.n

    def get(k):
        h = z3.simplify(zi(k) == zi(n))
        if z3.is_true(h):
            return v
        if z3.is_false(h):
            return s.get(k)
        if I.ctx.decide(h):
            return v
        return s.get(k)
    q = Seq(simp_int(zi(n) + 1), get)
    q.base, q.tail = getattr(s, 'base', s), getattr(s, 'tail', ()) + (v,)
    return q


def reverse_seq(s):
    if isinstance(s, tuple):
        return s[::-1]
    return Seq(s.n, lambda k: s.get(simp_int(zi(s.n) - 1 - zi(k))))


def is_generator(node):
    stack = list(node.body)
    while stack:
        x = stack.pop()
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, ast.GeneratorExp):
            pass
        stack.extend(ast.iter_child_nodes(x))
    return False


class Frame:
    """function frame; variables live in the store"""

    def __init__(self, glob, parent, qual, modname, I):
        self.glob, self.parent, self.qual, self.modname = glob, parent, qual, modname
        self.ref = I.ctx.alloc(FCell({}))
        self.I = I

    def init(self, vals):
        self.I.ctx.set(self.ref, FCell(dict(vals)))

    def load(self, I, name):
        f = self
        while isinstance(f, Frame):
            v = I.ctx.get(f.ref).vars
            if name in v:
                r = v[name]
                if isinstance(r, Poison):
                    raise PoisonRead('read of %s: %s' % (name, r.why), r)
                return r
            f = f.parent
        if name in self.glob:
            return self.glob[name]
        if name in I.builtins:
            return I.builtins[name]
        if hasattr(_builtins, name) or name.startswith('__'):
            raise Unsupported('builtin %s' % name)
        raise exc(NameError, name)

    def store(self, I, name, v):
        d = dict(I.ctx.get(self.ref).vars)
        d[name] = v
        I.ctx.set(self.ref, FCell(d))

    def delete(self, I, name):
        d = dict(I.ctx.get(self.ref).vars)
        if name not in d:
            raise exc(NameError, name)
        del d[name]
        I.ctx.set(self.ref, FCell(d))


class ModFrame:
    qual = ''
    parent = None

    def __init__(self, glob):
        self.glob = glob
        self.modname = glob.get('__name__')

    def load(self, I, name):
        if name in self.glob:
            return self.glob[name]
        if name in I.builtins:
            return I.builtins[name]
        if hasattr(_builtins, name) or name.startswith('__'):
            raise Unsupported('builtin %s' % name)
        raise exc(NameError, name)

    def store(self, I, name, v):
        self.glob[name] = v

    def delete(self, I, name):
        del self.glob[name]


class ClassFrame(ModFrame):
    def __init__(self, outer, name):
        self.glob, self.ns = outer.glob, {}
        self.qual = name + '.'
        self.modname = outer.modname

    def load(self, I, name):
        if name in self.ns:
            return self.ns[name]
        return super().load(I, name)

    def store(self, I, name, v):
        self.ns[name] = v
