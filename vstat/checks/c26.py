"""Vertical flip (turning the model and the survey upside down).

The flipped problem has negated depths, reversed layers and negated vertical
coordinates.  Fields must be equal up to the parity of the components.
"""
from ..rel import *

LEVEL = 'other'
LAYER = ('res', 'aniso', 'epermH', 'epermV', 'mpermH', 'mpermV')


def flip(r, m):
    m = dict(m)
    m['depth'] = ListV([r.neg(q) for q in m['depth'].items[::-1]])
    for k in LAYER:
        if k in m:
            m[k] = ListV(m[k].items[::-1])
    return m


def check(ctx):
    ctx.rule('field(upside-down problem) = parity * field')
    r = Rel(ctx)
    M = Maps('vertical-flip', lambda r, x, y, z: (x, y, r.neg(z)),
             {1: 1, 2: 2, 3: -3}, lambda r, a: a, lambda r, d: r.neg(d), -1,
             flip)
    symmetry(ctx, r, M, models(r, ctx) + [('a 4-layer model', r.model(4))],
             ZZ, ctx.quick, False)
    r.done()
