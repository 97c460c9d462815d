"""Kernel sets of any number of members: a member is any object with the contract of a KernelMatrix."""
from .lib import *


class Member(Opq):
    """a kernel matrix, identified by a term; its matrix, kernel and attributes are functions of it"""

    def __init__(self, e, fam):
        self.e, self.fam, self.classes = e, fam, ()

    def isinstance_(self, I, cls):
        return cls is self.fam.km_cls or cls is object

    def getattr_(self, I, name):
        f = self.fam
        if name == 'num_samples':
            return f.num_samples(I, self.e)
        if name == 'full':
            return f.full(I, self.e)
        if name == 'kernel':
            return Opq(f.kern(self.e))
        if name in ('attach_to', 'set_attr', 'get_attr') and f.ghost:
            return Builtin('member.' + name, lambda I, a, k: getattr(f, 'm_' + name)(I, self.e, a, k))
        if name in ('__str__', '__repr__', '__format__'):
            return Builtin(name, lambda I, a, k: 'member')
        if name == 'name':
            return 'member'
        if name == 'shape' and f.n is not None:
            return (f.dim(f.n), f.dim(f.m))
        raise Unsupported('attribute %s of a kernel matrix in a set' % name)


class Family:
    """members 0..M-1; n, m: samples (None: not attached yet)"""

    def __init__(self, u, tag='', lo=0, n='size', two=False, ghost=False, nan=False, varied=False, count=None):
        I = u.I
        self.u, self.tag, self.ghost, self.two, self.nan = u, tag, ghost, two, nan
        self.km_cls = u.get('base.KernelMatrix')
        self.M = count if count is not None else u.size('M' + tag, lo)
        self.mem = z3.Function('member' + tag, Int, T.ObjS)
        self.ix = z3.Function('memberindex', T.ObjS, Int)
        ix = self.ix
        T.SCHEMAS[self.mem.name()] = lambda a: [ix(a) == a.arg(0)]
        self.kern = z3.Function('kernel_of', T.ObjS, T.ObjS)
        self.ent = z3.Function('entry_of', T.ObjS, Int, Int, Real)
        self.entnan = z3.Function('entrynan_of', T.ObjS, Int, Int, Bool)
        self.n = u.size('n', 1) if isinstance(n, str) else n
        self.m = u.size('m', 1) if two else self.n
        self.varied = varied
        self.ns = z3.Function('samples_of', T.ObjS, Int)
        if ghost:
            # ghost state: which members were attached, which attribute values they were given
            g = lambda: NP.mk(I, (self.M,), 'i8', lambda ix: S(z3.IntVal(0), None, None, True))
            self.g_att, self.g_has, self.g_val = g(), g(), g()
            self.attached = None
            self.attr_name = None
            self.has0 = z3.Function('hasattr_of', T.ObjS, Bool)
            self.val0 = z3.Function('attr_of', T.ObjS, Int)

    def dim(self, n):
        return n if isinstance(n, int) else S(n)

    def member(self, k):
        return Member(self.mem(zi(k)), self)

    def seq(self):
        return tuple(self.member(k) for k in range(self.M)) if isinstance(self.M, int) else Seq(self.M, lambda k: self.member(k))

    def list(self, kind='list'):
        return self.u.I.new_list(self.seq(), kind)

    def num_samples(self, I, e):
        if self.varied:
            return S(self.ns(e))
        if self.n is None:
            if self.ghost and self.attached is not None and I.ctx.decide(self.ghost_at(self.g_att, self.key(e)) == 1):
                return self.attached
            return None
        return (self.dim(self.n), self.dim(self.m)) if self.two else self.dim(self.n)

    def full(self, I, e):
        n, m = self.n, self.m
        if n is None:
            # of the sample it was attached to
            if not self.ghost or self.attached is None:
                raise Unsupported('matrix of a member that is not attached')
            self.u.ensure('matrices are read after attaching', self.ghost_at(self.g_att, self.key(e)) == 1)
            n = m = self.sample_shape[0]

        def elem(i):
            i = [zi(x) for x in i]
            return S(self.ent(e, *i), self.entnan(e, *i) if self.nan else None, None, True)
        return NP.mk(I, (n, m), 'f8', elem, owner='matrix of a member')

    def key(self, e):
        """the number of the member"""
        return e.arg(0) if z3.is_app(e) and e.decl().eq(self.mem) else self.ix(e)

    # ------------------------------------------------------------ state changes
    def m_attach_to(self, I, e, a, k):
        u = self.u
        names = ('sample_one', 'name_one', 'sample_two', 'name_two')
        b = dict(zip(names, a))
        b.update(k)
        for x in b:
            if x not in names:
                raise PyExc(ExcVal(TypeError))
        if b.get('sample_two') is not None:
            u.never('members are attached to the given sample', 'two samples')
        x = b['sample_one']
        if not NP.is_arr(I, x):
            u.never('members are attached to the given sample', repr(x))
        with u.local():
            u.array_is('members are attached to the given sample', x, self.sample_shape, self.sample)
        I.setitem(self.g_att, S(self.key(e)), 1)
        self.attached = self.dim(self.sample_shape[0])
        return None

    def m_set_attr(self, I, e, a, k):
        b = dict(zip(('name', 'value'), a))
        b.update(k)
        if b.get('name') != self.attr_name:
            self.u.never('the attribute asked for is set', repr(b.get('name')))
        v = b['value']
        if isinstance(v, str):
            v = self.text_code if v == self.text else self.u.never('members are given the value passed', repr(v))
        if not isinstance(v, S):
            self.u.never('members are given the value passed', repr(v))
        I.setitem(self.g_has, S(self.key(e)), 1)
        I.setitem(self.g_val, S(self.key(e)), v)
        return None

    def ghost_at(self, g, k):
        return zi(NP.rd(self.u.I, NP.cell(self.u.I, g))((k,)))

    def m_get_attr(self, I, e, a, k):
        b = dict(zip(('name', 'value_if_not_found'), a))
        b.update(k)
        if b.get('name') != self.attr_name:
            self.u.never('the attribute asked for is read', repr(b.get('name')))
        d = b.get('value_if_not_found')
        if not isinstance(d, S):
            self.u.never('the fallback value is passed on', repr(d))
        return S(ITE(self.has0(e), self.val0(e), d.e))


def new_set(u, fam, cls='base.KernelSet', **kw):
    """a set constructed by the code from the members of the family"""
    return u.returns('construction of the set', u.call(cls, fam.list(), **kw))


def length(u, s):
    return u.returns('len', u.attempt(lambda: u.I.length(s)))


def is_member(u, name, v, e):
    """v is the member with this term"""
    if not isinstance(v, Opq):
        return u.never(name, repr(v))
    u.ensure(name, v.e == e)


def holds(u, s, M, at, n, name='the set'):
    """the set holds M members, the k-th being at(k), and has n samples; observed by len, [], and iteration"""
    I = u.I
    u.same_int(name + ': length', length(u, s), M)
    u.same_int(name + ': size', u.returns('size', u.attr(s, 'size')), M)
    ns = u.returns('num_samples', u.attr(s, 'num_samples'))
    if n is None:
        u.ensure(name + ': num_samples', z3.BoolVal(ns is None))
    elif isinstance(n, tuple):
        u.same_int(name + ': num_samples', ns[0], n[0])
        u.same_int(name + ': num_samples', ns[1], n[1])
    elif ns is None:
        u.never(name + ': num_samples', 'None')
    else:
        u.same_int(name + ': num_samples', ns, n)
    it = I.to_seq(u.returns('iteration', u.attempt(lambda: I.to_seq(s))))
    u.same_int(name + ': length of the iteration', len(it) if isinstance(it, tuple) else S(zi(it.n)) if not isinstance(it.n, int) else it.n, M)
    if isinstance(M, int) and M == 0:
        return
    if u.ctx.decide(zi(M) > 0):
        k = u.idx(M, 'k')
        is_member(u, name + ': member by index', u.returns('member by index', u.attempt(lambda: I.getitem(s, S(k)))), at(k))
        is_member(u, name + ': member by iteration', I.seq_at(it, S(k)), at(k))
