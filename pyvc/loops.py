"""Loops of symbolic length.

The locations a body modifies are discovered by running it at an arbitrary iteration k; for each a
closed form CF(k) is guessed from that one iteration (last value, accumulated sum / product, map
write at an invertible index, append) and then PROVED to be a loop invariant (base case and
preservation, at an arbitrary index).  A location whose closed form is not proved becomes unknown
(Poison).  Early exits (break, return, raise) are taken at an arbitrary iteration whose predecessors
completed normally.
"""
import z3
from fractions import Fraction
from . import terms as T
from . import npmodel as NP
from .terms import S, Unsupported, Int, Real, Bool, StrS, ObjS, AND, OR, NOT, ITE, IMP, zb, zi, zr
from .core import Ref, PyExc, ExcVal, Infeasible, Budget
from .values import *
from .interp import merge_val, PoisonRead, NUMS


def exec_while(I, st, fr):
    for _ in range(40):
        if not I.truth(I.ev(st.test, fr)):
            return I.block(st.orelse, fr)
        r = I.block(st.body, fr)
        if r is not None:
            if r[0] == 'break':
                return None
            if r[0] != 'continue':
                return r
    raise Unsupported('while loop (line %d) without a recognised bound' % st.lineno)


# ---------------------------------------------------------------- symbols made in the body
def num_of(name):
    i = name.rfind('!')
    if i < 0:
        return None
    d = name[i + 1:].split('@')[0]
    return int(d) if d.isdigit() else None


class Sub:
    """t -> substitution of the iteration: k := t, body-fresh symbols := functions of t, havocs := CF(t)"""

    def __init__(self, k, lo, L):
        self.k, self.lo, self.L = k, lo, L
        self.hav = {}          # name of havoc symbol -> fn(t, args) -> term

    def __call__(self, e, t):
        if e is None:
            return None
        decls = {}
        stack, seen = [e], set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                d = x.decl()
                if d.kind() == z3.Z3_OP_UNINTERPRETED:
                    decls[d.name()] = (d, x)
                stack.extend(x.children())
        cs, fs = [(self.k, t)], []
        for nm, (d, x) in decls.items():
            if nm in self.hav:
                if d.arity() == 0:
                    cs.append((x, self.hav[nm](t, ())))
                else:
                    vs = [z3.Var(i, d.domain(i)) for i in range(d.arity())]
                    fs.append((d, self.hav[nm](t, tuple(vs))))
                continue
            n = num_of(nm)
            if n is None or n <= self.lo or x.eq(self.k):
                continue
            if d.arity() == 0:
                cs.append((x, z3.Function(nm + '@', Int, d.range())(t)))
            else:
                f = z3.Function(nm + '@', Int, *[d.domain(i) for i in range(d.arity())], d.range())
                vs = [z3.Var(i, d.domain(i)) for i in range(d.arity())]
                fs.append((d, f(t, *vs)))
        if fs:
            e = z3.substitute_funs(e, *fs)
        return z3.substitute(e, *cs)

    def fresh_in(self, e):
        for x in T.apps_in(e, lambda x: True):
            n = num_of(x.decl().name())
            if n is not None and n > self.lo and not x.eq(self.k):
                return True
        return False


def sub_val(I, sub, v, t, L):
    """value of iteration t"""
    if isinstance(v, S):
        return S(sub(v.e, t), sub(v.nan, t), sub(v.inf, t), v.np)
    if isinstance(v, SStr):
        return SStr(sub(v.e, t))
    if isinstance(v, tuple):
        return tuple(sub_val(I, sub, x, t, L) for x in v)
    if isinstance(v, Opq):
        return v.at(sub(v.e, t))
    if isinstance(v, Ref):
        if v.a <= L.addr0:
            return v
        return L.instance(v, t)
    if isinstance(v, Seq):
        return Seq(simp_int(sub(zi(v.n), t)), lambda j: sub_val(I, sub, v.get(j), t, L))
    if isinstance(v, Bound):
        return Bound(v.func, sub_val(I, sub, v.self_, t, L))
    if isinstance(v, ExtObj) and hasattr(v, 'sub_'):
        return v.sub_(I, lambda x: sub_val(I, sub, x, t, L) if not T.isz(x) else sub(x, t))
    if isinstance(v, (Poison,)):
        return v
    if v is None or isinstance(v, (bool, str, ExcVal, UserClass, ExtClass, type, np.dtype, UserFunc, Builtin) + NUMS):
        return v
    if isinstance(v, ExtObj):
        return v
    raise Unsupported('loop value %r' % (v,))


class Loop:
    pass


def cell_locs(a, old, new):
    """locations of a cell that differ"""
    if old is new:
        return []
    if isinstance(old, FCell):
        return [(a, 'var', n) for n in new.vars if n not in old.vars or old.vars[n] is not new.vars[n]] + \
               [(a, 'var', n) for n in old.vars if n not in new.vars]
    if isinstance(old, OCell):
        return [(a, 'fld', n) for n in new.fields if n not in old.fields or old.fields[n] is not new.fields[n]] + \
               [(a, 'fld', n) for n in old.fields if n not in new.fields]
    if isinstance(old, LCell):
        return [(a, 'list', None)]
    if isinstance(old, DCell):
        return [(a, 'dict', None)]
    if isinstance(old, ACell):
        return [(a, 'arr', None)]
    if isinstance(old, GCell):
        return [(a, 'ghost', None)]
    raise Unsupported('modified cell %r in a loop' % (old,))


MISSING = object()


def get_loc(store, loc):
    a, kind, n = loc
    c = store[a]
    if kind == 'var':
        return c.vars.get(n, MISSING)
    if kind == 'fld':
        return c.fields.get(n, MISSING)
    return c


def set_loc(store, loc, v):
    a, kind, n = loc
    if kind in ('var', 'fld'):
        c = store[a]
        d = dict(c.vars if kind == 'var' else c.fields)
        if v is MISSING:
            d.pop(n, None)
        else:
            d[n] = v
        store[a] = FCell(d) if kind == 'var' else OCell(c.cls, d)
    else:
        store[a] = v


class Peel(Unsupported):
    """the first iteration is different in kind: to be executed on its own"""


def exec_loop(I, seq, body, fr, st, peels=2):
    ctx = I.ctx
    n = zi(seq.n)
    if not ctx.decide(n > 0):
        return None
    try:
        return exec_loop1(I, seq, body, fr, st, peels)
    except Peel:
        if not peels:
            raise
    if 'assume' in seq.meta:
        ctx.assume(seq.meta['assume'](z3.IntVal(0)))
    r = body(seq.get(z3.IntVal(0)))
    if r is not None and r[0] != 'continue':
        return r
    meta = {}
    if 'assume' in seq.meta:
        meta['assume'] = lambda k, f=seq.meta['assume']: f(k + 1)
    rest = Seq(simp_int(z3.simplify(n - 1)), lambda k: seq.get(simp_int(z3.simplify(zi(k) + 1))), meta=meta)
    if isinstance(rest.n, int):
        for k in range(rest.n):
            r = body(rest.get(k))
            if r is not None and r[0] != 'continue':
                return r
        return None
    return exec_loop(I, rest, body, fr, st, peels - 1)


def reshaped(store0, carried, bad, outs):
    """an array without closed form leaves the first iteration with another number of dimensions"""
    for loc in bad:
        if not isinstance(carried[loc], HArr):
            continue
        v0 = get_loc(store0, loc)
        c0 = store0.get(v0.a) if isinstance(v0, Ref) else v0
        for o in outs:
            v = get_loc(o.store, loc)
            c = o.store.get(v.a) if isinstance(v, Ref) else v
            if isinstance(c, ACell) and isinstance(c0, ACell) and c.ndim != c0.ndim:
                return True
    return False


def exec_loop1(I, seq, body, fr, st, peels):
    ctx = I.ctx
    n = zi(seq.n)
    k = T.fresh('it', Int)
    L = Loop()
    L.addr0 = ctx.next_addr
    L.lo = T.CTR[0]
    L.k, L.n, L.I = k, n, I
    L.seq = seq
    L.id = T.fresh_name('loop')
    sub = Sub(k, L.lo, L)
    L.sub = sub
    store0 = dict(ctx.store)
    where = 'loop at line %s' % getattr(st, 'lineno', '?')
    # ---------------- run the body at an arbitrary iteration
    poison = {}     # loc -> Poison object
    carried = {}    # loc -> havoc value

    def run(state):
        """explore the body at iteration k from the patched state"""
        def thunk():
            for loc, v in state.items():
                set_loc(ctx.store, loc, v)
            ctx.store['log'] = ()
            try:
                r = body(seq.get(k))
            except PyExc as e:
                return 'raise', e.val
            if r is None or r[0] == 'continue':
                return 'normal', None
            return r
        ctx.loopvars.append(k)
        ctx.pc.append(z3.And(k >= 0, k < n))
        if 'assume' in seq.meta:
            ctx.pc.append(seq.meta['assume'](k))
        try:
            return ctx.explore(thunk)
        finally:
            ctx.loopvars.pop()
            ctx.pc.pop()
            if 'assume' in seq.meta:
                ctx.pc.pop()

    def patched(state):
        s = dict(store0)
        for loc, v in state.items():
            set_loc(s, loc, v)
        return s

    ctx.mute += 1
    try:
        for rnd in range(24):
            state = dict(poison)
            state.update({l: h.value for l, h in carried.items()})
            try:
                outs = run(state)
            except PoisonRead as e:
                loc = next((l for l, p in poison.items() if p is e.p), None)
                if loc is None:
                    raise
                del poison[loc]
                carried[loc] = havoc(I, loc, get_loc(store0, loc), L)
                continue
            base = patched(state)
            locs = set()
            for o in outs:
                for a, c in o.store.items():
                    if a in ('log', 'enums') or a not in base or (isinstance(a, int) and a > L.addr0):
                        continue
                    for l in cell_locs(a, base[a], c):
                        locs.add(l)
            new = [l for l in locs if l not in poison and l not in carried]
            if not new:
                break
            for l in new:
                if l[1] == 'var' or l[1] == 'fld' and False:
                    poison[l] = Poison('%s: variable of another iteration' % where)
                elif l[1] == 'fld':
                    poison[l] = Poison('%s: attribute %s of another iteration' % (where, l[2]))
                else:
                    carried[l] = havoc(I, l, get_loc(store0, l), L)
        else:
            raise Unsupported(where + ': no fixpoint of modified locations')
    finally:
        ctx.mute -= 1
    normal = [o for o in outs if o.kind == 'normal']
    L.normal = normal
    # ---------------- closed forms
    cfs = {}
    L.cfs = cfs
    pending = dict(carried)
    ctx.loopvars.append(k)
    try:
        progress = True
        while pending and progress:
            progress = False
            for loc, h in list(pending.items()):
                cf = guess(I, L, loc, h, normal, get_loc(store0, loc), pending)
                if cf is not None:
                    cfs[loc] = cf
                    h.bind(sub, cf)
                    del pending[loc]
                    progress = True
    finally:
        ctx.loopvars.pop()
    # ---------------- the invariant is proved; what cannot be proved is unknown
    bad = dict(pending)
    if bad and peels and reshaped(store0, carried, bad, normal):
        raise Peel('an array of another shape after the first iteration')
    outs2 = None
    for attempt in range(len(carried) + 2):
        state = dict(poison)
        for loc, h in carried.items():
            if loc in bad:
                state[loc] = h.unknown(I, where)
            else:
                state[loc] = cfs[loc].at(I, k)
        ctx.mute += 1
        try:
            outs2 = run(state)
        finally:
            ctx.mute -= 1
        failed = []
        for o in outs2:
            if o.kind != 'normal':
                continue
            for loc, cf in cfs.items():
                if loc in bad:
                    continue
                if not check_step(I, L, seq, loc, cf, o):
                    failed.append(loc)
        if attempt == 0:
            for loc, cf in cfs.items():
                if loc not in bad and not cf.check_base(I):
                    failed.append(loc)
        if not failed:
            break
        for l in failed:
            bad[l] = carried[l]
    else:
        raise Unsupported(where + ': invariant not inductive')
    for loc in bad:
        ctx.imprecise.append('%s: no closed form for %s' % (where, loc[1:]))
    # the final run also records the obligations of the body
    if not ctx.mute:
        outs2 = run(state)
    normal = [o for o in outs2 if o.kind == 'normal']
    exits = [o for o in outs2 if o.kind != 'normal']
    L.normal = normal

    def normal_fact(t):
        return OR(*[AND(*[sub(p, t) for p in o.pc]) for o in normal])

    def needs_fact(outs):
        """without early exits the cases are exhaustive; what is assumed of symbols made by the body is worth stating"""
        def fresh(e):
            for x in T.apps_in(e, lambda x: True):
                nm = x.decl().name()
                c = num_of(nm)
                if c is not None and c > L.lo and not x.eq(k) and not nm.startswith(('ivd!', 'ivg!')):
                    return True
            return False
        return any(fresh(p) for o in outs for p in o.pc)

    def facts_before(K):
        """iterations before K completed normally"""
        if exits or needs_fact(normal):
            ctx.assume_all(1, lambda t: IMP(AND(t >= 0, t < K), normal_fact(t)))
        for o in normal:
            for ar, fn in o.facts:
                if ar <= 2:
                    def q(t, *idx, fn=fn, o=o):
                        vs = [z3.Const(T.gname('q'), Int) for _ in idx]
                        e = sub(zb(fn(*vs)), t)
                        e = T.subst(e, *zip(vs, idx))
                        return IMP(AND(t >= 0, t < K, *[sub(p, t) for p in o.pc]), e)
                    ctx.assume_all(ar + 1, q)
    # logs
    logs = [o.store.get('log', ()) for o in normal]
    choice = ctx.choose(len(exits) + 1) if exits else 0
    if choice == 0:
        if not normal:
            raise Infeasible()
        for loc in carried:
            if loc in bad:
                set_loc(ctx.store, loc, carried[loc].unknown(I, where))
            else:
                set_loc(ctx.store, loc, cfs[loc].at(I, n))
        facts_before(n)
        if exits and not ctx.feasible(z3.BoolVal(True)):
            raise Infeasible()
        last = z3.simplify(n - 1)
        for loc in poison:
            try:
                v = merged(I, [(AND(*o.pc), get_loc(o.store, loc)) for o in normal])
                set_loc(ctx.store, loc, sub_val(I, sub, v, last, L) if v is not MISSING else Poison(where))
            except (Unsupported, KeyError, AttributeError):
                set_loc(ctx.store, loc, Poison(where + ': variable after the loop'))
        if any(logs):
            ctx.log('loop', tuple((tuple(o.pc), lg, L) for o, lg in zip(normal, logs)))
        return None
    o = exits[choice - 1]
    k2 = T.fresh('ex', Int)
    ctx.assume(AND(k2 >= 0, k2 < n))
    if 'assume' in seq.meta:
        ctx.assume(seq.meta['assume'](k2))
    # names of that iteration stay as they are, only k is renamed
    ctx.assume(k == k2)
    for p in o.pc:
        ctx.pc.append(p)
    ctx.facts.extend(o.facts)
    ctx.imprecise.extend(o.flags)
    for a, c in o.store.items():
        if a != 'log':
            ctx.store[a] = c
    ctx.store['log'] = ctx.store.get('log', ()) + ((('loop', tuple((tuple(q.pc), lg, L) for q, lg in zip(normal, logs))),) if any(logs) else ()) + o.store.get('log', ())
    facts_before(k)
    if not ctx.feasible(z3.BoolVal(True)):
        raise Infeasible()
    for loc in poison:
        if isinstance(get_loc(ctx.store, loc), Poison) and loc[1] == 'var':
            pass
    if o.kind == 'raise':
        raise PyExc(o.value)
    return (o.kind, o.value)


def merged(I, cases):
    v = cases[-1][1]
    for c, x in reversed(cases[:-1]):
        if v is MISSING or x is MISSING:
            if v is x:
                continue
            raise Unsupported('variable set on some paths only')
        v = merge_val(c, x, v)
    return v


# ---------------------------------------------------------------- havoc
class GCell:
    """ghost map (see contracts): key -> Bool"""

    def __init__(self, dom):
        self.dom = dom


def flags2(v):
    """(is NaN, is infinite) of a numeric value, simplified"""
    if isinstance(v, S):
        return tuple(z3.simplify(zb(f)) if f is not None else z3.BoolVal(False) for f in (v.nan, v.inf))
    if isinstance(v, float):
        return z3.BoolVal(v != v), z3.BoolVal(v in (float('inf'), -float('inf')))
    return z3.BoolVal(False), z3.BoolVal(False)


class Havoc:
    def bind(self, sub, cf):
        pass

    def unknown(self, I, where):
        return Poison(where)


class HScalar(Havoc):
    def __init__(self, v):
        self.names = []
        s = v.e.sort() if isinstance(v, S) else Bool if isinstance(v, bool) else Int if isinstance(v, int) else Real
        self.sort = s
        self.sym = T.fresh('hv', s)
        self.value = S(self.sym, None, None, isinstance(v, S) and v.np)

    def bind(self, sub, cf):
        def f(t, args):
            x = cf.expr(t)
            return x
        sub.hav[self.sym.decl().name()] = f

    def unknown(self, I, where):
        return S(self.sym)


class HArr(Havoc):
    """contents of an array (cell), or a variable bound to a new array in each iteration"""

    def __init__(self, I, c, isvar):
        self.c, self.isvar = c, isvar
        if c.dtype.kind not in 'fiub' or 'filt' in c.meta:
            raise Unsupported('loop over an array of dtype %s' % c.dtype)
        self.sort = {'f': Real, 'i': Int, 'u': Int, 'b': Bool}[c.dtype.kind]
        self.f = z3.Function(T.fresh_name('ha'), *[Int] * c.ndim, self.sort)
        self.nan = self.inf = None
        p = tuple(z3.Const(T.gname('p'), Int) for _ in c.shape)
        if self.sort == Real and (getattr(I, 'nan_arrays', False) or any(not z3.is_false(f) for f in flags2(NP.rd(I, c)(p)))):
            self.nan, self.inf = (z3.Function(self.f.name() + x, *[Int] * c.ndim, Bool) for x in ('.nan', '.inf'))
        cell = c.with_(elem=self.elem, view=None)
        if isvar:
            self.value = I.ctx.alloc(cell)
        else:
            if c.view is not None:
                raise Unsupported('loop writing a view')
            self.value = cell

    def elem(self, idx):
        idx = [zi(x) for x in idx]
        if self.nan is not None:
            return S(self.f(*idx), self.nan(*idx), self.inf(*idx), True)
        return S(self.f(*idx), None, None, True)

    def bind(self, sub, cf):
        sub.hav[self.f.name()] = lambda t, args: cf.expr(t, args)
        if self.nan is not None:
            sub.hav[self.nan.name()] = lambda t, args: cf.flags(t, args)[0]
            sub.hav[self.inf.name()] = lambda t, args: cf.flags(t, args)[1]

    def unknown(self, I, where):
        return self.value


class HList(Havoc):
    def __init__(self, c):
        self.c = c
        self.n = T.fresh('hl', Int)
        s = Seq(self.n, lambda j: _unsup('element of a list under construction'))
        self.seq = s
        self.value = LCell(s, c.kind)

    def bind(self, sub, cf):
        sub.hav[self.n.decl().name()] = lambda t, args: cf.count(t)

    def unknown(self, I, where):
        return LCell(Seq(T.fresh('len', Int), lambda j: _unsup('unknown list')), self.c.kind)


class HDict(Havoc):
    def __init__(self, I, c):
        self.c = c
        if c.sym is None:
            if c.items:
                raise Unsupported('loop filling a non-empty concrete dict')
            self.sorts = None
        self.doms = {}
        self.nm = T.fresh_name('hd')
        inv = c.sym.val if c.sym is not None else None
        self.vals = {}

        def dom(p):
            return self.dom_f(p)(*p)

        def val(p):
            key = tuple(x.sort().name() for x in p)
            if key not in self.vals:
                self.vals[key] = z3.Function(self.nm + '.v.' + '.'.join(key), *[x.sort() for x in p], Real)
            return S(self.vals[key](*p))
        self.value = DCell(None, SymMap(None, dom, inv or val))

    def dom_f(self, p):
        key = tuple(x.sort().name() for x in p)
        if key not in self.doms:
            self.doms[key] = z3.Function(self.nm + '.' + '.'.join(key), *[x.sort() for x in p], Bool)
        return self.doms[key]

    def bind(self, sub, cf):
        for f in self.doms.values():
            sub.hav[f.name()] = lambda t, args: cf.dom_expr(t, args)
        for f in self.vals.values():
            sub.hav[f.name()] = lambda t, args: zr(cf.valf(t, args))

    def unknown(self, I, where):
        return DCell(None, SymMap(None, lambda p: self.dom_f(p)(*p), lambda p: _unsup('unknown dict')))


class HDictInv(Havoc):
    """dictionary with a stated invariant: after any number of iterations it is any dictionary
    that extends the initial one and satisfies the invariant"""

    def __init__(self, c):
        self.c = c
        self.value = self.cell()

    def cell(self):
        s, inv = self.c.sym, self.c.sym.inv
        D = z3.Function(T.fresh_name('ivd'), Int, Int, Bool)
        G = z3.Function(T.fresh_name('ivg'), Int, Int, Bool)

        def dom(p):
            if len(p) != 2 or any(x.sort() != Int for x in p):
                raise Unsupported('key of another kind in a dictionary under invariant')
            return OR(s.dom(p), AND(inv.bound(p), D(*p)))
        ghost = None
        if s.ghost is not None:
            def ghost(p):
                return OR(s.ghost(p), AND(inv.bound(p), D(*p), G(*p)))
        return DCell(None, SymMap(s.sorts, dom, inv.val, inv, ghost))

    def unknown(self, I, where):
        return Poison(where)


class CFInv:
    def __init__(self, h):
        self.h = h

    def check_base(self, I):
        return True         # the cell satisfied the invariant when it was made

    def at(self, I, t):
        return self.h.cell()


def dict_inv_goals(c0, c, ps):
    """the invariant of the dictionary cell c, which extends c0"""
    s, inv = c.sym, c.sym.inv
    x = s.val(ps)
    g = [IMP(c0.sym.dom(ps), s.dom(ps)), IMP(s.dom(ps), inv.bound(ps))]
    y = inv.val(ps)
    if not isinstance(x, (S,) + NUMS):
        return None
    eqs = [zr(x) == zr(y)]
    for f in ('nan', 'inf'):
        p, q = (getattr(z, f) if isinstance(z, S) else None for z in (x, y))
        if p is not None or q is not None:
            eqs.append(zb(p if p is not None else False) == zb(q if q is not None else False))
    g.append(IMP(s.dom(ps), AND(*eqs)))
    if s.ghost is not None:
        g += [IMP(s.ghost(ps), s.dom(ps)), IMP(c0.sym.ghost(ps), s.ghost(ps))]
    return g


class HGhost(Havoc):
    def __init__(self, c, p):
        self.f = z3.Function(T.fresh_name('hg'), Int, Int, Bool)
        self.value = GCell(lambda q: self.f(*q))

    def bind(self, sub, cf):
        sub.hav[self.f.name()] = lambda t, args: cf.dom_expr(t, args)

    def unknown(self, I, where):
        return self.value


def _unsup(m):
    raise Unsupported(m)


def havoc(I, loc, v, L):
    if loc[1] in ('var', 'fld'):
        if isinstance(v, (S,) + NUMS):
            if any(not z3.is_false(f) for f in flags2(v)):
                raise Unsupported('loop carried variable %s that may be NaN' % loc[2])
            return HScalar(v)
        if isinstance(v, Ref) and isinstance(I.ctx.store.get(v.a), ACell) and not I.ctx.store[v.a].sparse:
            return HArr(I, I.ctx.store[v.a], True)
        raise Peel('loop carried variable %s' % loc[2])
    if loc[1] == 'list':
        return HList(v)
    if loc[1] == 'dict':
        if v.sym is not None and v.sym.inv is not None:
            return HDictInv(v)
        return HDict(I, v)
    if loc[1] == 'arr':
        return HArr(I, v, False)
    if loc[1] == 'ghost':
        return HGhost(v, None)
    raise Unsupported('loop location')


# ---------------------------------------------------------------- closed forms
class CF:
    def check_base(self, I):
        return True


def mentions(e, names):
    return bool(T.apps_in(e, lambda x: x.decl().name() in names))


class CFScalarFn(CF):
    """pointwise closed form over parameters p: fn(t, p) -> z3"""

    def __init__(self, fn, step, wrapv, flags=None):
        self.fn, self.step, self.wrapv, self.flags = fn, step, wrapv, flags

    def expr(self, t, args=()):
        return self.fn(t, args)

    def at(self, I, t):
        return self.wrapv(I, t, self)


def resolve(L, e, pending):
    """replace havoc symbols of locations whose closed form is already known by CF(k)"""
    sub = L.sub
    names = [n for n in sub.hav]
    if not names:
        return e
    s2 = Sub(L.k, 10 ** 12, L)
    s2.hav = sub.hav
    return s2(e, L.k)


def guess(I, L, loc, h, normal, init, pending):
    try:
        if isinstance(h, HScalar):
            return guess_point(I, L, loc, h, normal, init, ())
        if isinstance(h, HArr):
            return guess_arr(I, L, loc, h, normal, init)
        if isinstance(h, HList):
            return guess_list(I, L, loc, h, normal, init)
        if isinstance(h, HDict):
            return guess_dict(I, L, loc, h, normal, init)
        if isinstance(h, HDictInv):
            return CFInv(h)
        if isinstance(h, HGhost):
            return guess_ghost(I, L, loc, h, normal, init)
    except Unsupported:
        return None
    return None


def havoc_names(L):
    return [f for f in L.__dict__.get('hnames', [])]


def is_clean(L, e, own=None):
    """no unresolved havoc symbol"""
    for x in T.apps_in(e, lambda x: True):
        nm = x.decl().name()
        if nm.startswith(('hv!', 'ha!', 'hl!', 'hd!', 'hg!')) and num_of(nm.split('.')[0]) is not None and num_of(nm.split('.')[0]) > L.lo:
            return False
    return True


def flat_and(c):
    c = z3.simplify(c)
    if z3.is_and(c):
        out = []
        for x in c.children():
            out += flat_and(x)
        return out
    if z3.is_not(c) and z3.is_or(c.arg(0)):
        out = []
        for x in c.arg(0).children():
            out += flat_and(NOT(x))
        return out
    return [c]


def solve_k(L, conj, p):
    """term t(p) with  conj => k == t(p), or None"""
    k = L.k
    for c in conj:
        if z3.is_eq(c) and T.contains(c, k) and c.arg(0).sort() == Int:
            t = T.solve_for(c, k)
            if t is not None and all(T.contains(t, x) or True for x in p):
                return t
    # conj may bound k from both sides:  k >= t and k <= t
    # pairs of functions with a joint inverse
    eqs = {}
    for c in conj:
        if z3.is_eq(c) and c.arg(0).sort() == Int:
            for a, b in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                if z3.is_app(a) and a.num_args() >= 1 and a.arg(0).eq(k) and not T.contains(b, k):
                    eqs[a.decl().name()] = (a, b)
    if 'udiv' in eqs and 'umod' in eqs:
        from .extmodel import upair
        return upair(eqs['udiv'][1], eqs['umod'][1], eqs['udiv'][0].arg(1))
    for names, inv, P, s in NP.INVERSES:
        if all(n in eqs for n in names):
            return inv(tuple(eqs[n][1] for n in names))
    for n, (a, b) in eqs.items():
        if n in INJ:
            return INJ[n](b)
    return None


INJ = {}     # name of an injective sequence -> inverse


def peel(e, hp):
    """e as a list of (condition, value) with default hp; None if not of that shape"""
    e = z3.simplify(e)
    if e.eq(hp):
        return []
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = e.children()
        pa, pb = peel(a, hp), peel(b, hp)
        out = []
        if pa is None:
            if T.contains(a, hp):
                return None
            out.append((c, a))
        else:
            out += [(AND(c, x), y) for x, y in pa]
        if pb is None:
            if T.contains(b, hp):
                return None
            out.append((NOT(c), b))
        else:
            out += [(AND(NOT(c), x), y) for x, y in pb]
        return out
    return None


def guess_point(I, L, loc, h, normal, init, params, getter=None, hsym=None, initf=None, wrapv=None):
    """closed form of a scalar location (params == ()), or of the elements of an array"""
    flagged = getattr(h, 'nan', None) is not None
    hsym = hsym if hsym is not None else h.sym
    vals = []
    for o in normal:
        v = getter(o) if getter else get_loc(o.store, loc)
        if v is MISSING or not isinstance(v, (S,) + NUMS):
            return None
        if not flagged and any(not z3.is_false(f) for f in flags2(v)):
            return None
        vals.append(v)
    sort = h.sort

    def conv(v):
        return zr(v) if sort == Real else zi(v) if sort == Int else zb(v)
    if sort == Int and any((isinstance(v, S) and v.e.sort() == Real) or isinstance(v, (float, Fraction)) for v in vals):
        # counter that becomes a real
        return None
    e = conv(vals[-1])
    for o, v in list(zip(normal, vals))[-2::-1]:
        e = ITE(AND(*o.pc), conv(v), e)
    e = resolve(L, e, None)
    fe = None
    if flagged:
        fe = []
        for w in (0, 1):
            x = flags2(vals[-1])[w]
            for o, v in list(zip(normal, vals))[-2::-1]:
                x = ITE(AND(*o.pc), flags2(v)[w], x)
            fe.append(resolve(L, x, None))
    k, sub = L.k, L.sub
    if wrapv is None:
        def wrapv(I, t, cf):
            return wrap(z3.simplify(cf.fn(t, ()))) if sort != Real else S(cf.fn(t, ()))
        iv = conv(init)
        initf = lambda p: iv
    hd = hsym

    def sb(x, t, p):
        r = sub(x, t)
        return T.subst(r, *zip(params, p)) if params else r
    # (a) value of the last iteration
    if is_clean(L, e):
        def fn(t, p):
            t1 = z3.simplify(t - 1)
            return z3.If(t <= 0, initf(p), sb(e, t1, p))
        if flagged:
            if not all(is_clean(L, x) for x in fe):
                return None

            def fl(t, p):
                t1 = z3.simplify(t - 1)
                return tuple(z3.If(t <= 0, i0, sb(x, t1, p)) for x, i0 in zip(fe, initf(p, True)))
            return CFScalarFn(fn, None, wrapv, fl)
        return CFScalarFn(fn, None, wrapv)
    # (m) write at an invertible position
    if params:
        hits = peel(e, hd)
        if hits is not None:
            cases = []
            for c, v in hits:
                if not is_clean(L, v):
                    return None
                conj = [x for x in flat_and(c) if is_clean(L, x)]
                t = solve_k(L, conj, params)
                if t is None:
                    break
                cases.append((t, AND(*conj), v))
            else:
                def fn(K, p):
                    r = initf(p)
                    for t, c, v in reversed(cases):
                        tp = T.subst(t, *zip(params, p))
                        r = ITE(AND(tp >= 0, tp < K, sb(c, tp, p)), sb(v, tp, p), r)
                    return r
                if not flagged:
                    return CFScalarFn(fn, None, wrapv)
                own = [(f(*params), z3.BoolVal(False)) for f in (h.nan, h.inf)]
                fw = [z3.simplify(T.subst(x, *own)) for x in fe]
                if not all(is_clean(L, x) for x in fw):
                    return None

                def fl(K, p):
                    r = list(initf(p, True))
                    for t, c, v in reversed(cases):
                        tp = T.subst(t, *zip(params, p))
                        hit = AND(tp >= 0, tp < K, sb(c, tp, p))
                        r = [ITE(hit, sb(x, tp, p), y) for x, y in zip(fw, r)]
                    return tuple(r)
                return CFScalarFn(fn, None, wrapv, fl)
    if flagged:
        return None
    # (b) accumulation
    if sort in (Int, Real):
        z = z3.RealVal(0) if sort == Real else z3.IntVal(0)
        N = T.Norm(None)
        if sort == Real:
            d = N.canon(e - hd)
        else:
            d = z3.simplify(e - hd, som=True)
        if is_clean(L, d):
            if sort == Int:
                if z3.is_int_value(d):
                    return CFScalarFn(lambda t, p: initf(p) + t * d, None, wrapv)
                return None

            def fn(t, p):
                return initf(p) + T.mk_sum(t, lambda b: sb(d, b, p))
            return CFScalarFn(fn, lambda cf, t, p: (cf.fn(t, p) + sb(d, t, p)), wrapv)
        # (c) product
        if sort == Real:
            e0 = z3.simplify(T.subst(e, (hd, z3.RealVal(0))))
            e1 = T.subst(e, (hd, z3.RealVal(1)))
            if is_clean(L, e1) and not T.contains(e1, hd):
                ok = N.canon(e - e1 * hd)
                if z3.is_rational_value(ok) and ok.as_fraction() == 0:
                    def fn(t, p):
                        return initf(p) * T.mk_sum(t, lambda b: sb(e1, b, p), 'Prod')
                    return CFScalarFn(fn, lambda cf, t, p: cf.fn(t, p) * sb(e1, t, p), wrapv)
    # (f) flags: set to a constant under a condition
    if sort == Bool and not params:
        hits = peel(e, hd)
        if hits is not None and all(z3.is_true(v) or z3.is_false(v) for _, v in hits) and len(set(str(v) for _, v in hits)) == 1:
            c = OR(*[c for c, _ in hits])
            if is_clean(L, c):
                v = hits[0][1]
                iv = initf(())
                cache = {}

                def fn(t, p):
                    key = t.sexpr()
                    if key not in cache:
                        cache[key] = zb(NP.exists(I, (t,), lambda idx: sub(c, zi(idx[0])), 'flag'))
                    b = cache[key]
                    return OR(iv, b) if z3.is_true(v) else AND(iv, NOT(b))
                return CFScalarFn(fn, None, wrapv)
    return None


def guess_arr(I, L, loc, h, normal, init):
    if h.isvar:
        ic = I.ctx.store[init.a]
    else:
        ic = init
    ie = NP.rd(I, ic)
    nd = ic.ndim
    ps = tuple(z3.Const(T.gname('p'), Int) for _ in range(nd))
    cells = []
    for o in normal:
        v = get_loc(o.store, loc)
        if h.isvar:
            if not isinstance(v, Ref) or not isinstance(o.store.get(v.a), ACell):
                return None
            c = o.store[v.a]
        else:
            c = v
        if c.ndim != nd:
            return None
        cells.append(c)
    dt = h.c.dtype
    for c in cells:
        if not all((isinstance(a, int) and isinstance(b, int) and a == b) or (T.isz(a) and T.isz(b) and a.eq(b)) for a, b in zip(c.shape, ic.shape)):
            return None

    def getter(o, cells=dict(zip(map(id, normal), cells))):
        c = cells[id(o)]
        saved = I.ctx.store
        I.ctx.store = o.store
        try:
            return NP.rd(I, c)(ps)
        finally:
            I.ctx.store = saved

    def initf(p, fl=False):
        v = ie(tuple(p))
        if fl:
            return flags2(v)
        if h.nan is None and any(not z3.is_false(f) for f in flags2(v)):
            raise Unsupported('non-finite initial value')
        return zr(v) if h.sort == Real else zi(v) if h.sort == Int else zb(v)

    def wrapv(I, t, cf):
        def el(idx):
            idx = tuple(zi(x) for x in idx)
            return S(cf.fn(t, idx), *[None if z3.is_false(z3.simplify(f)) else f for f in (cf.flags(t, idx) if cf.flags else ())] or (None, None), True)
        c = ic.with_(elem=el, view=None)
        return I.ctx.alloc(c) if h.isvar else c
    return guess_point(I, L, loc, h, normal, init, ps, getter=getter, hsym=h.f(*ps), initf=initf, wrapv=wrapv)


class CFList(CF):
    def __init__(self, init, per, kind, get, grid=None):
        self.init, self.per, self.kind, self.get = init, per, kind, get
        self.grid = grid

    def count(self, t):
        n0 = len(self.init) if isinstance(self.init, tuple) else self.init.n
        return zi(n0) + t * self.per

    def at(self, I, t):
        n0 = len(self.init) if isinstance(self.init, tuple) else self.init.n
        if self.per == 0:
            return LCell(self.init, self.kind)
        if isinstance(n0, int) and n0 == 0:
            s = Seq(simp_int(z3.simplify(t)), self.get)
            if self.grid is not None and z3.simplify(t).eq(z3.simplify(self.grid[1])):
                s.grid = self.grid[0]
            return LCell(s, self.kind)

        if isinstance(n0, int) and n0 <= 2 and self.continues(I, n0):
            return LCell(Seq(simp_int(z3.simplify(zi(n0) + t)), lambda j: simp_obj(self.get(simp_int(z3.simplify(zi(j) - n0))))), self.kind)

        def get(j):
            if I.ctx.decide(zi(j) < zi(n0)):
                return I.seq_at(self.init, j)
            return self.get(simp_int(zi(j) - zi(n0)))
        return LCell(Seq(simp_int(z3.simplify(zi(n0) + t)), get), self.kind)


    def continues(self, I, n0):
        """the elements before the loop follow the same rule"""
        for i in range(n0):
            a = I.seq_at(self.init, i)
            if not isinstance(a, Opq):
                return False
            try:
                b = self.get(i - n0)
            except (Unsupported, Infeasible):
                return False
            if not isinstance(b, Opq) or type(a) is not type(b) or not z3.simplify(a.e).eq(z3.simplify(b.e)):
                return False
        return True


def simp_obj(v):
    return v.at(z3.simplify(v.e)) if isinstance(v, Opq) else v


ENUMS = {}


class Enum:
    """the iterations t < n with P(t), in order: sel(j) is the j-th, cnt(t) the number of those before t"""

    def __init__(self, n, pred, outer=()):
        # the same indices have the same enumeration on every path
        key = (z3.simplify(zi(n)).sexpr(), z3.simplify(zb(pred(z3.Int('?t')))).sexpr(), tuple(x.sexpr() for x in outer))
        nm = ENUMS.setdefault(key, str(len(ENUMS)))
        so = [x.sort() for x in outer]
        c, s = z3.Function('cnt_' + nm, Int, *so, Int), z3.Function('sel_' + nm, Int, *so, Int)
        self.n, self.pred, self.outer = zi(n), pred, tuple(outer)
        self.cnt, self.sel = lambda t: c(t, *outer), lambda j: s(j, *outer)

    def assume(self, ctx):
        n, P, cnt, sel = self.n, self.pred, self.cnt, self.sel
        ctx.assume(AND(cnt(zi(0)) == 0, cnt(n) >= 0, cnt(n) <= n))
        ctx.assume_all(1, lambda t: IMP(AND(t >= 0, t < n), AND(cnt(t) >= 0, cnt(t) <= t, cnt(t + 1) == cnt(t) + ITE(P(t), zi(1), zi(0)), cnt(t + 1) <= cnt(n),
                                                                  IMP(P(t), sel(cnt(t)) == t))))
        ctx.assume_all(1, lambda j: IMP(AND(j >= 0, j < cnt(n)), AND(sel(j) >= 0, sel(j) < n, P(sel(j)), cnt(sel(j)) == j)))


def enumeration(I, n, pred, outer=()):
    """an enumeration known already, of the same indices, or a new one"""
    ctx = I.ctx
    known = ctx.store.get('enums', ())
    for e in known:
        if len(e.outer) != len(outer) or any(not a.eq(b) for a, b in zip(e.outer, outer)) or not ctx.simple_prove(e.n == zi(n)):
            continue
        t = T.fresh('t', Int)
        if ctx.under(AND(t >= 0, t < zi(n)), lambda: ctx.simple_prove(zb(pred(t)) == zb(e.pred(t)))):
            return e
    e = Enum(n, pred, outer)
    e.assume(ctx)
    ctx.store['enums'] = known + (e,)
    return e


class CFFilter(CF):
    per = 'filter'

    def __init__(self, init, kind, get, en):
        self.init, self.kind, self.get, self.en = init, kind, get, en

    def count(self, t):
        return zi(len(self.init) if isinstance(self.init, tuple) else self.init.n) + self.en.cnt(t)

    def at(self, I, t):
        n0 = len(self.init) if isinstance(self.init, tuple) else self.init.n

        def get(j):
            if not (isinstance(n0, int) and n0 == 0) and I.ctx.decide(zi(j) < zi(n0)):
                return I.seq_at(self.init, j)
            return self.get(z3.simplify(self.en.sel(zi(j) - zi(n0))))
        return LCell(Seq(simp_int(z3.simplify(self.count(t))), get), self.kind)


def guess_filter(I, L, h, normal, init, tails):
    """appended in some of the iterations"""
    took = [(o, t) for o, t in zip(normal, tails) if len(t) == 1]
    conds = [z3.simplify(AND(*o.pc)) for o, t in took]
    if any(mentions(c, {h.n.decl().name()}) or not is_clean(L, c) for c in conds):
        return None

    def pred(t):
        return z3.simplify(OR(*[L.sub(c, zi(t)) for c in conds]))
    v = merged(I, [(c, t[0]) for c, (o, t) in zip(conds, took)])
    en = enumeration(I, L.n, pred, [x for x in I.ctx.loopvars if not x.eq(L.k)])
    return CFFilter(init.seq, init.kind, lambda t: sub_val(I, L.sub, v, zi(t), L), en)


def guess_list(I, L, loc, h, normal, init):
    tails = []
    for o in normal:
        c = get_loc(o.store, loc)
        s = c.seq
        def own(q):
            return q is h.seq or (isinstance(q, Seq) and T.isz(q.n) and q.n.eq(h.n))
        if own(s):
            tails.append(())
            continue
        if not own(getattr(s, 'base', None)):
            return None
        tails.append(s.tail)
    ln = set(len(t) for t in tails)
    if ln == {0}:
        return CFList(init.seq, 0, init.kind, None)
    if ln == {0, 1}:
        return guess_filter(I, L, h, normal, init, tails)
    if ln != {1}:
        return None
    try:
        v = merged(I, [(AND(*o.pc), t[0]) for o, t in zip(normal, tails)])

        def get(j):
            return sub_val(I, L.sub, v, zi(j), L)
    except Unsupported:
        # values that cannot be merged: decide which path iteration j took
        def get(j):
            for o, t in zip(normal, tails):
                if I.ctx.decide(AND(*[L.sub(p, zi(j)) for p in o.pc])):
                    return sub_val(I, L.sub, t[0], zi(j), L)
            raise Infeasible()
    cf = CFList(init.seq, 1, init.kind, get, (L.seq.grid, L.n) if L.seq.grid is not None else None)
    return cf


class CFDom(CF):
    def __init__(self, initd, cases, valf, sub, mk):
        self.initd, self.cases, self.valf, self.sub, self.mk = initd, cases, valf, sub, mk

    def dom_expr(self, K, p):
        r = [self.initd(p)]
        for ps, t, c in self.cases:
            if len(ps) != len(p) or any(a.sort() != b.sort() for a, b in zip(ps, p)):
                continue
            tp = T.subst(t, *zip(ps, p))
            r.append(AND(tp >= 0, tp < K, T.subst(self.sub(c, tp), *zip(ps, p))))
        return OR(*r)

    def at(self, I, K):
        return self.mk(self, K)


def dom_cases(I, L, normal, newdom, hdom, ps):
    cases = []
    for o in normal:
        e = z3.simplify(newdom(o))
        hd = hdom
        if e.eq(hd):
            continue
        c = z3.simplify(T.subst(e, (hd, z3.BoolVal(False))))
        if z3.is_false(c):
            continue
        ds = [c] if not z3.is_or(c) else c.children()
        for d in ds:
            conj = [x for x in flat_and(d) if is_clean(L, x)]
            # conditions of the path that do not depend on the state
            pcs = [resolve(L, x, None) for x in o.pc]
            pcs = [x for x in pcs if is_clean(L, x) and not L.sub.fresh_in(x)]
            t = solve_k(L, conj + pcs, ps)
            if t is None:
                return None
            cases.append((ps, t, AND(*conj, *pcs)))
    return cases


def guess_dict(I, L, loc, h, normal, init):
    if not h.doms:
        # find the key sorts from the writes
        pass
    sorts = getattr(h, 'keysorts', None) or [Int, Int]
    allcases = []
    for srt in ([Int, Int], [Int]):
        if init.sym is None or h.doms or True:
            key = tuple(s.name() for s in srt)
            if h.doms and key not in h.doms:
                continue
            ps = tuple(z3.Const(T.gname('p'), s) for s in srt)

            def nd(o):
                c = get_loc(o.store, loc)
                if c.sym is None:
                    raise Unsupported('dict replaced')
                return c.sym.dom(ps)
            cases = dom_cases(I, L, normal, nd, h.dom_f(ps)(*ps), ps)
            if cases is None:
                return None
            allcases += cases
    # values
    ivs = init.sym.val if init.sym is not None else None

    def initd(p):
        return init.sym.dom(p) if init.sym is not None else z3.BoolVal(False)
    ps = tuple(z3.Const(T.gname('p'), Int) for _ in (allcases[0][0] if allcases else (0, 0)))
    vals = []
    for o in normal:
        c = get_loc(o.store, loc)
        try:
            v = c.sym.val(ps)
            if ivs is None and isinstance(v, S):
                hits = peel(v.e, h.value.sym.val(ps).e)
                hits = [y for _, y in hits or [] if is_clean(L, y)]
                v = S(hits[0], v.nan, v.inf, v.np) if hits else None
            vals.append(v)
        except Unsupported:
            vals.append(None)

    def valf(K, p):
        if ivs is not None:
            iv = ivs(p)
        else:
            iv = None
        for o, v in zip(normal, vals):
            if v is None:
                continue
            for qs, t, c in allcases:
                if len(qs) != len(p):
                    continue
                tp = T.subst(t, *zip(qs, p))
                w = sub_val(I, L.sub, v, tp, L)
                if isinstance(w, S):
                    w = S(*[T.subst(x, *zip(ps, p)) if x is not None else None for x in (w.e, w.nan, w.inf)], w.np)
                if iv is None:
                    return w
                return merge_val(z3.simplify(initd(p)), iv, w)
        return iv if iv is not None else _unsup('dict value')
    sub = L.sub
    return CFDom(initd, allcases, valf, sub,
                 lambda cf, K: DCell(None, SymMap(None, lambda p: cf.dom_expr(K, p), lambda p: cf.valf(K, p))))


def guess_ghost(I, L, loc, h, normal, init):
    ps = (z3.Const(T.gname('p'), Int), z3.Const(T.gname('p'), Int))
    cases = dom_cases(I, L, normal, lambda o: get_loc(o.store, loc).dom(ps), h.f(*ps), ps)
    if cases is None:
        return None
    return CFDom(init.dom, cases, None, L.sub, lambda cf, K: GCell(lambda p: cf.dom_expr(K, p)))


# ---------------------------------------------------------------- preservation
def check_step(I, L, seq, loc, cf, o):
    """after a normal iteration from CF(k) the location is CF(k+1)"""
    ctx = I.ctx
    saved = (ctx.pc, ctx.facts, ctx.store)
    ctx.pc = ctx.pc + [z3.And(L.k >= 0, L.k < L.n)] + ([seq.meta['assume'](L.k)] if 'assume' in seq.meta else []) + list(o.pc)
    ctx.facts = ctx.facts + list(o.facts)
    ctx.store = o.store
    k1 = L.k + 1
    try:
        v = get_loc(o.store, loc)
        if isinstance(cf, CFScalarFn):
            if isinstance(v, Ref):
                c = ctx.store[v.a]
            else:
                c = v
            if isinstance(c, ACell):
                ps = tuple(z3.Const(T.gname('p'), Int) for _ in c.shape)
                x = NP.rd(I, c)(ps)
                rngc = NP.rng(ps, c.shape)
            else:
                ps, x, rngc = (), v, z3.BoolVal(True)
            if not isinstance(x, (S,) + NUMS):
                return False
            fx = flags2(x)
            fgoal = []
            if cf.flags:
                fgoal = [a == b for a, b in zip(fx, cf.flags(k1, ps))]
            elif any(not z3.is_false(f) for f in fx):
                return False
            want = cf.step(cf, L.k, ps) if cf.step else cf.fn(k1, ps)
            s = want.sort()
            got = zr(x) if s == Real else zi(x) if s == Int else zb(x)
            if fgoal:
                fgoal.append(IMP(NOT(OR(*fx)), got == want))
                return ctx.prove(IMP(rngc, AND(*fgoal)), timeout_ms=5000, portfolio=False)[0] == 'unsat'
            return ctx.prove(IMP(rngc, got == want), timeout_ms=5000, portfolio=False)[0] == 'unsat'
        if isinstance(cf, CFDom):
            if cf.cases:
                arities = set(tuple(x.sort() for x in c[0]) for c in cf.cases)
            else:
                arities = {(Int, Int)}
            for ar in arities:
                ps = tuple(z3.Const(T.gname('p'), s) for s in ar)
                if isinstance(v, GCell):
                    got = v.dom(ps)
                else:
                    if v.sym is None:
                        return False
                    got = v.sym.dom(ps)
                want = cf.dom_expr(k1, ps)
                if ctx.prove(got == want, timeout_ms=5000, portfolio=False)[0] != 'unsat':
                    return False
                if not isinstance(v, GCell) and all(s == Int for s in ar):
                    x, y = v.sym.val(ps), cf.valf(k1, ps)
                    if isinstance(x, Ref) or isinstance(y, Ref) or not isinstance(x, (S,) + NUMS) or not isinstance(y, (S,) + NUMS):
                        return False
                    eqs = [zr(x) == zr(y)]
                    for f in ('nan', 'inf'):
                        p, q = (getattr(z, f) if isinstance(z, S) else None for z in (x, y))
                        if p is not None or q is not None:
                            eqs.append(zb(p if p is not None else False) == zb(q if q is not None else False))
                    if ctx.prove(IMP(want, AND(*eqs)), timeout_ms=5000, portfolio=False)[0] != 'unsat':
                        return False
            return True
        if isinstance(cf, CFInv):
            if not isinstance(v, DCell) or v.sym is None or v.sym.inv is not cf.h.c.sym.inv or (v.sym.ghost is None) != (cf.h.c.sym.ghost is None):
                return False
            ps = tuple(z3.Const(T.gname('p'), Int) for _ in range(2))
            gs = dict_inv_goals(cf.h.c, v, ps)
            return gs is not None and all(ctx.simple_prove(g) or ctx.prove(g, timeout_ms=5000, portfolio=False)[0] == 'unsat' for g in gs)
        if isinstance(cf, CFFilter):
            # by construction: appended exactly when the predicate holds
            s = v.seq
            tail = () if isinstance(s, tuple) else getattr(s, 'tail', ())
            if len(tail) > 1:
                return False
            P = zb(cf.en.pred(L.k))
            g = P if tail else NOT(P)
            return ctx.simple_prove(g) or ctx.prove(g, timeout_ms=5000, portfolio=False)[0] == 'unsat'
        if isinstance(cf, CFList):
            # by construction: exactly one append per normal iteration
            s = v.seq
            if isinstance(s, tuple):
                return cf.per == 0
            return len(getattr(s, 'tail', ())) == cf.per
        return False
    except Unsupported:
        return False
    except Infeasible:
        return True
    finally:
        ctx.pc, ctx.facts, ctx.store = saved


# ---------------------------------------------------------------- objects made by an iteration
def _instance(L, ref, t):
    """the object that iteration t made at this address"""
    I = L.I
    ctx = I.ctx
    key = ('fam', L.id, ref.a, z3.simplify(t).sexpr())
    if key in ctx.store:
        return Ref(ctx.store[key])
    cands = [o for o in L.normal if ref.a in o.store]
    if not cands:
        raise Unsupported('object of an iteration that is not known')
    if len(cands) > 1:
        for o in cands:
            if ctx.decide(AND(*[L.sub(p, t) for p in o.pc])):
                cands = [o]
                break
        else:
            raise Infeasible()
    o = cands[0]
    c = o.store[ref.a]
    r = ctx.alloc(None)
    ctx.store[key] = r.a
    sv = lambda v: sub_val(I, L.sub, v, t, L)
    if isinstance(c, ACell):
        saved = ctx.store

        def el(idx, c=c, o=o):
            cur = ctx.store
            ctx.store = o.store
            try:
                v = NP.rd(I, c)(idx)
            finally:
                ctx.store = cur
            return sv(v)
        nc = ACell([simp_int(L.sub(zi(s), t)) if T.isz(s) else s for s in c.shape], c.dtype, el, sparse=c.sparse,
                   meta={k_: v for k_, v in c.meta.items() if k_ in ('fixed',)})
    elif isinstance(c, LCell):
        nc = LCell(tuple(sv(x) for x in c.seq) if isinstance(c.seq, tuple) else sv(c.seq), c.kind)
    elif isinstance(c, OCell):
        nc = OCell(c.cls, {n: sv(v) for n, v in c.fields.items()})
    elif isinstance(c, DCell) and c.sym is None:
        nc = DCell({n: sv(v) for n, v in c.items.items()})
    else:
        raise Unsupported('object %r made in a loop' % (c,))
    ctx.set(r, nc)
    return r


Loop.instance = _instance
