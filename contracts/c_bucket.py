"""C14: kernel buckets.  Kernel classes by their constructors' contract (C09): the kernel made from parameter values is a
function of class and values, or the construction is refused, depending on the value; KernelMatrix by its constructor's."""
import ast
from .lib import *
from pyvc.loops import enumeration
from .setlib import holds, is_member, length

SB = ['sampling.KernelBucket.__init__', 'sampling.KernelBucket.add_parametrized_kernels', 'utils.is_iterable_but_not_str', 'base.KernelSet.append']
PARAMS = [('poly_degree_values', 'PolyKernel', 'degree'), ('rbf_sigma_values', 'GaussianKernel', 'sigma'), ('laplace_gamma_values', 'LaplacianKernel', 'gamma'),
          ('sigmoid_gamma_values', 'SigmoidKernel', 'gamma'), ('sigmoid_offset_values', 'SigmoidKernel', 'offset')]
p2 = lambda lo, hi: tuple(z3.Q(2 ** e, 1) if e >= 0 else z3.Q(1, 2 ** -e) for e in range(lo, hi, 2))
num = lambda *v: tuple(z3.Q(int(x), 1) for x in v)
DEFAULT = [num(2, 3, 4), p2(-5, 6), p2(-5, 7), p2(-5, 7), num(-2, 1, 2)]
LIGHT = [num(2, 3), p2(-3, 3), p2(-3, 3), p2(-3, 7), num(1)]


class Made(Opq):
    """a kernel or a kernel matrix made by the code, identified by what it was made from"""

    def __init__(self, e, cls):
        self.e, self.cls, self.classes = e, cls, ()

    def at(self, e):
        return Made(e, self.cls)

    def isinstance_(self, I, cls):
        return cls is object or subclass(self.cls, cls)

    def getattr_(self, I, name):
        if name == 'num_samples':
            return None
        if name in ('__str__', '__repr__', '__format__'):
            return Builtin(name, lambda I, a, k: 'made')
        raise Unsupported('attribute %s of an object made by the code' % name)


def new_kernel(cls, skip, **vals):
    """term of the kernel made from these values"""
    ps = sorted(vals)
    nm = '_'.join(['new', cls] + ps + (['unchecked'] if skip else []))
    if not ps:
        return z3.Const(nm, T.ObjS)
    return z3.Function(nm, *[Real] * len(ps), T.ObjS)(*[vals[p] for p in ps])


def new_matrix(k, norm):
    return z3.Function('matrix_normalized' if norm else 'matrix_plain', T.ObjS, T.ObjS)(k)


def possible(cls, p, v):
    """a kernel can be made with this value"""
    return z3.Function('possible_%s_%s' % (cls, p), Real, Bool)(v)


class Maker:
    def __init__(self, u, refuse=False):
        self.u, self.refuse = u, refuse
        self.base, self.km = u.get('base.BaseKernelFunction'), u.get('base.KernelMatrix')
        for m in ('numeric_kernels', 'categorical', 'base'):
            for nm, c in list(u.mod(m).glob.items()):
                if isinstance(c, UserClass) and subclass(c, self.base) and c.module == 'kernelmethods.' + m:
                    u.I.class_override['%s.%s' % (m, nm)] = self.kernel
        u.I.class_override['base.KernelMatrix'] = self.matrix
        u.assume_note('kernel classes: the kernel made is a function of the class and the parameter values (C09), or refused depending on them')

    def bind(self, cls, a, k):
        init, _ = cls.lookup('__init__')
        ar = init.node.args
        names = [x.arg for x in ar.args[1:]]
        b = dict(zip(names, a))
        b.update(k)
        if not set(b) <= set(names) or len(a) > len(names):
            raise PyExc(ExcVal(TypeError))
        dflt = {}
        for n, d in zip(names[len(names) - len(ar.defaults):], ar.defaults):
            try:
                dflt[n] = ast.literal_eval(d)
            except ValueError:
                pass
        return b, dflt

    def kernel(self, I, cls, a, k):
        u = self.u
        b, dflt = self.bind(cls, a, k)
        skip = b.pop('skip_input_checks', False)
        if not isinstance(skip, bool):
            raise Unsupported('skip_input_checks')
        vals = {}
        for n, v in b.items():
            if not NP.is_num(v) and not isinstance(v, S):
                if isinstance(v, (str, type(None))):
                    raise PyExc(ExcVal(TypeError))
                raise Unsupported('value of a kernel parameter')
            vals[n] = zr(v)
        if len(vals) > 1:
            vals = {n: v for n, v in vals.items() if not (n in dflt and z3.simplify(v == zr(dflt[n])).eq(z3.BoolVal(True)))} or vals
        if self.refuse:
            for n, v in vals.items():
                if not I.ctx.decide(possible(cls.name, n, v)):
                    raise PyExc(ExcVal([ValueError, TypeError][I.ctx.choose(2)]))
        return Made(new_kernel(cls.name, skip, **vals), cls)

    def matrix(self, I, cls, a, k):
        b, dflt = self.bind(cls, a, k)
        init, _ = cls.lookup('__init__')
        ker, norm = b[init.node.args.args[1].arg], b.get('normalized', dflt.get('normalized'))
        if not isinstance(ker, Made):
            raise Unsupported('matrix of something else')
        if not isinstance(norm, bool):
            raise Unsupported('normalized')
        return Made(new_matrix(ker.e, norm), cls)


def value_list(u, name, form='list', lo=1, n=None):
    """any values"""
    L = u.size('L' + name, lo) if n is None else n
    f = z3.Function('values_' + name, Int, Real)
    if form == 'array':
        return L, f, NP.mk(u.I, (L,), 'f8', lambda ix: S(f(zi(ix[0])), None, None, True))
    if isinstance(L, int):
        t = tuple(S(f(z3.IntVal(k))) for k in range(L))
        return L, f, t if form == 'tuple' else u.I.new_list(t)
    return L, f, u.I.new_list(Seq(L, lambda k: S(f(zi(k)))), form if form != 'array' else 'list')


def expected(lists, norm, skip):
    """(count, k -> term of the k-th member) of the linear kernel followed by one per value"""
    segs = [(1, lambda k: new_matrix(new_kernel('LinearKernel', False), norm))]
    for (nm, cls, p), l in zip(PARAMS, lists):
        if l is not None:
            L, f = l
            segs.append((L, lambda k, cls=cls, p=p, f=f: new_matrix(new_kernel(cls, skip, **{p: f(k)}), norm)))
    return join(segs)


def join(segs):
    total = zi(0)
    offs = []
    for L, g in segs:
        offs.append((total, g))
        total = z3.simplify(total + zi(L))

    def at(k):
        r = offs[-1][1](k - offs[-1][0])
        for j in range(len(offs) - 2, -1, -1):
            r = ITE(k < offs[j + 1][0], offs[j][1](k - offs[j][0]), r)
        return r
    return simp_int(total), at


def the_bucket(u, r, lists, norm, skip, name='the bucket'):
    M, at = expected(lists, norm, skip)
    b = u.returns(name, r)
    holds(u, b, M, at, None, name)
    return b


MASKS = [tuple(bool(m >> i & 1) for i in range(5)) for m in range(32)]


@each('C14', [dict(given=''.join('x' if g else '-' for g in m), norm=n, form=f) for k, m in enumerate(MASKS) for n in (True, False) for f in [('list', 'array', 'tuple')[(k + n) % 3]]], *SB)
def bucket(u, given, norm, form):
    Maker(u)
    lists, kw = [], {}
    keep = []
    for (nm, cls, p), g in zip(PARAMS, given):
        if g == 'x':
            L, f, v = value_list(u, nm, form)
            lists.append((L, f))
            kw[nm] = v
            keep.append((v, L, f))
        else:
            lists.append(None)
            kw[nm] = None
    skip = bool(u.ctx.choose(2))
    r = u.call('sampling.KernelBucket', normalize_kernels=norm, skip_input_checks=skip, **kw)
    the_bucket(u, r, lists, norm, skip)
    for v, L, f in keep:
        if form == 'array':
            u.array_is('values unchanged', v, (L,), f)


@each('C14', [dict(how=h) for h in ('exhaustive', 'light', 'linear_only', 'LIGHT', 'Exhaustive', 'Linear_Only', 'default', 'bare', 'positional')], 'sampling.make_kernel_bucket', *SB)
def strategy(u, how):
    Maker(u)
    lists = {'l': LIGHT, 'e': DEFAULT}.get(how[0].lower(), DEFAULT)
    if how.lower() == 'linear_only':
        lists = [None] * 5
    lists = [None if l is None else (len(l), lambda k, l=l: pick(k, l)) for l in lists]
    norm, skip = (bool(u.ctx.choose(2)), bool(u.ctx.choose(2))) if how not in ('default', 'bare') else (True, False)
    if how == 'default':
        r = u.call('sampling.make_kernel_bucket')
    elif how == 'bare':
        r = u.call('sampling.KernelBucket')
    elif how == 'positional':
        r = u.call('sampling.make_kernel_bucket', 'exhaustive', norm, skip)
    else:
        r = u.call('sampling.make_kernel_bucket', how, normalize_kernels=norm, skip_input_checks=skip)
    the_bucket(u, r, lists, norm, skip)


def pick(k, l):
    r = l[-1]
    for j in range(len(l) - 2, -1, -1):
        r = ITE(k == j, l[j], r)
    return r


@unit('C14', 'sampling.make_kernel_bucket')
def strategy_unknown(u):
    Maker(u)
    m = z3.Const('strategy', T.StrS)
    low = z3.Function('str.lower', T.StrS, T.StrS)
    u.ctx.assume(AND(*[AND(low(m) != z3.StringVal(x), m != z3.StringVal(x)) for x in ('exhaustive', 'light', 'linear_only')]))
    u.raises('unknown strategy', u.call('sampling.make_kernel_bucket', SStr(m)), ValueError)


@unit('C14', 'sampling.make_kernel_bucket')
def strategy_given(u):
    """a bucket is returned as it is"""
    Maker(u)
    L, f, v = value_list(u, 'a')
    b = u.returns('bucket', u.call('sampling.KernelBucket', v, None, None, None, None))
    r = u.returns('make_kernel_bucket', u.call('sampling.make_kernel_bucket', b))
    u.ensure('the bucket given', z3.BoolVal(isinstance(r, Ref) and r.a == b.a))
    the_bucket(u, ('ret', b), [(L, f), None, None, None, None], True, False)


@each('C14', [dict(flag=x) for x in ('normalize_kernels', 'skip_input_checks')], SB[0])
def bucket_flags(u, flag):
    Maker(u)
    bad = [None, 'True', 1, u.real('r'), u.I.new_list((True,))][u.ctx.choose(5)]
    u.raises('flag of another type', u.call('sampling.KernelBucket', **{flag: bad}), TypeError)


ADDS = [('PolyKernel', 'degree'), ('PolyKernel', 'gamma'), ('PolyKernel', 'b'), ('GaussianKernel', 'sigma'), ('Chi2Kernel', 'gamma'), ('HadamardKernel', 'alpha'), ('LaplacianKernel', 'gamma')]


@each('C14', [dict(cls=c, p=p, norm=n) for c, p in ADDS for n in (True, False)], *SB)
def bucket_add(u, cls, p, norm):
    """appended in order"""
    Maker(u)
    L0, f0, v0 = value_list(u, 'a')
    b = u.returns('bucket', u.call('sampling.KernelBucket', None, v0, None, None, None, normalize_kernels=norm))
    L, f, v = value_list(u, 'b')
    u.returns('add', u.meth(b, 'add_parametrized_kernels', u.get('numeric_kernels.' + cls), p, v))
    M, at = expected([None, (L0, f0), None, None, None], norm, False)
    M2, at2 = join([(M, at), (L, lambda k: new_matrix(new_kernel(cls, False, **{p: f(k)}), norm))])
    holds(u, b, M2, at2, None, 'the bucket after an addition')
    u.returns('add', u.meth(b, 'add_parametrized_kernels', u.get('numeric_kernels.' + cls), p, None))
    holds(u, b, M2, at2, None, 'the bucket after adding none')


@each('C14', [dict(cls=c, p=p, norm=n) for c, p in ADDS for n in (True, False)], *SB)
def bucket_skips(u, cls, p, norm):
    """values for which no kernel can be made are skipped, each with a warning"""
    mk = Maker(u)
    L0, f0, v0 = value_list(u, 'a')
    b = u.returns('bucket', u.call('sampling.KernelBucket', None, v0, None, None, None, normalize_kernels=norm))
    mk.refuse = True
    L, f, v = value_list(u, 'b')
    ok = lambda k: possible(cls, p, f(k))
    cnt, sel = chosen(u, L, ok)
    u.ctx.store['log'] = ()
    u.returns('add', u.meth(b, 'add_parametrized_kernels', u.get('numeric_kernels.' + cls), p, v))
    log = u.ctx.store.get('log', ())
    M, at = expected([None, (L0, f0), None, None, None], norm, False)
    M2, at2 = join([(M, at), (cnt, lambda k: new_matrix(new_kernel(cls, False, **{p: f(sel(k))}), norm))])
    holds(u, b, M2, at2, None, 'the bucket after an addition')
    warned(u, L, ok, log)


def chosen(u, n, ok):
    """number of the indices below n with ok, and the k-th of them"""
    if isinstance(n, int):
        l = [z3.IntVal(k) for k in range(n) if u.ctx.decide(ok(z3.IntVal(k)))]
        return len(l), lambda k: pick(k, l) if l else z3.IntVal(0)
    en = enumeration(u.I, n, ok)
    return simp_int(en.cnt(zi(n))), en.sel


def warned(u, n, ok, log):
    """a KernelMethodsWarning in exactly the iterations without a kernel"""
    W = u.get('config.KernelMethodsWarning')
    isw = lambda e: e[0] == 'warn' and subclass(e[1], W)
    if isinstance(n, int):
        if any(e[0] == 'loop' for e in log):
            raise Unsupported('warnings in a loop')
        bad = sum(not u.ctx.decide(ok(z3.IntVal(k))) for k in range(n))
        u.ensure('a warning for a value without a kernel, and only then', z3.BoolVal(sum(map(isw, log)) == bad))
        return
    if len(log) != 1 or log[0][0] != 'loop':
        raise Unsupported('warnings outside the loop over the values')
    for pcs, lg, L in log[0][1]:
        c = zb(ok(L.k))
        u.ensure('a warning for a value without a kernel, and only then', IMP(AND(L.k >= 0, L.k < L.n, *pcs), NOT(c) if any(map(isw, lg)) else c))


@each('C14', [dict(bad=b) for b in ('object', 'function', 'other class', 'instance', 'string', 'none')], 'sampling.KernelBucket.add_parametrized_kernels')
def bucket_refuses_class(u, bad):
    Maker(u)
    L0, f0, v0 = value_list(u, 'a')
    b = u.returns('bucket', u.call('sampling.KernelBucket', None, v0, None, None, None))
    cls = {'object': Opq(z3.Const('thing', T.ObjS)), 'function': u.get('utils.not_symmetric'), 'other class': u.get('base.KernelMatrix'),
           'instance': Made(new_kernel('LinearKernel', False), u.get('numeric_kernels.LinearKernel')), 'string': 'PolyKernel', 'none': None}[bad]
    L, f, v = value_list(u, 'b')
    u.raises('not a kernel class', u.meth(b, 'add_parametrized_kernels', cls, 'degree', v), u.get('config.KernelMethodsException'))
    the_bucket(u, ('ret', b), [None, (L0, f0), None, None, None], True, False)


@each('C14', [dict(bad=b, where=w) for b in ('empty list', 'empty tuple', 'string', 'number', 'object') for w in ('add', 'constructor')], *SB)
def bucket_refuses_values(u, bad, where):
    Maker(u)
    x = {'empty list': lambda: u.I.new_list(()), 'empty tuple': lambda: (), 'string': lambda: 'abc', 'number': lambda: u.real('r'), 'object': lambda: Opq(z3.Const('thing', T.ObjS))}[bad]()
    if where == 'constructor':
        nm = PARAMS[u.ctx.choose(5)][0]
        u.raises('values not iterable, or none of them', u.call('sampling.KernelBucket', **{q[0]: None for q in PARAMS if q[0] != nm}, **{nm: x}), ValueError)
        return
    L0, f0, v0 = value_list(u, 'a')
    b = u.returns('bucket', u.call('sampling.KernelBucket', None, v0, None, None, None))
    u.raises('values not iterable, or none of them', u.meth(b, 'add_parametrized_kernels', u.get('numeric_kernels.PolyKernel'), 'degree', x), ValueError)
    the_bucket(u, ('ret', b), [None, (L0, f0), None, None, None], True, False)
