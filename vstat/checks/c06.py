"""Mirror symmetry of horizontally layered models.

The mirrored problem (x -> -x, or y -> -y, in positions, orientations and
components) is analysed next to the original one and the value numbers of the
fields are compared: equal up to the parity of the components (magnetic
dipoles are axial).
"""
from ..rel import *

LEVEL = 'other'
ASSUME = ['value numbers: equal expressions modulo field axioms and exp/cos/'
          'sin addition theorems; arctan2 up to its sign symmetries']


def check(ctx):
    ctx.rule('field(mirrored survey) = parity * field(survey), by value '
             'number')
    r = Rel(ctx)
    mx = Maps('x-mirror', lambda r, x, y, z: (r.neg(x), y, z),
              {1: -1, 2: 2, 3: 3}, lambda r, a: r.sub(180., a),
              lambda r, d: d, -1)
    my = Maps('y-mirror', lambda r, x, y, z: (x, r.neg(y), z),
              {1: 1, 2: -2, 3: 3}, lambda r, a: r.neg(a), lambda r, d: d, -1)
    for M in (mx, my):
        symmetry(ctx, r, M, models(r, ctx), ZZ if not ctx.quick else ZZ[:2],
                 ctx.quick)
    r.done()
