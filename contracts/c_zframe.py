"""C18: the frame conditions of the functions under contract.

The units of the other properties are executed once more, with the frame condition in place of their postconditions: every write
to an object of the caller (samples, vectors, matrices, weights, targets, value lists, matrices of members of a set) must leave its
contents as they are, and at the end of every path each of them is as it was given."""
from .lib import *
from . import lib, c_km
from .kmlib import KM

SKIP = ('km_', 'nan_inf', 'distinct_indices')
for un in list(lib.UNITS):
    if not un.name.startswith(SKIP) and 'C18' not in un.props:
        lib.UNITS.append(Unit(['C18'], 'frame of ' + un.name, un.fn, un.funcs, dict(un.kw, frames=True)))


def then_framed(op, given):
    def f(km):
        op(km)
        for a, c in given.items():
            km.u.ctx.oblige('frame: %s is as it was given' % c.owner, z3.BoolVal(km.u.ctx.store.get(a) is c))
    if hasattr(op, 'zero'):
        f.zero = op.zero
    return f


@each('C18', c_km.CONF, *c_km.FN, frames=True)
def km_frame(u, two, normalized):
    """the samples are not modified by any read, from any state reads can leave"""
    km = KM(u, two, normalized)
    km.counting = False
    km.construct()
    given = {a: c for a, c in u.ctx.given.items() if isinstance(c, ACell)}
    ops = {nm: then_framed(op, given) for nm, op in c_km.quiet_reads(km).items()}
    if u.sizes is not None:
        km.histories(ops, 0)
    else:
        km.closure(ops)
