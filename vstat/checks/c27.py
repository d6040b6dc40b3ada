"""Azimuthal isotropy: rotation of the whole survey.

A quarter turn is applied to positions, orientations and components of all
entry points; a rotation by an arbitrary symbolic angle is applied to the
polar form of the geometry (offset, source-receiver angle, azimuths).  The
value numbers of the fields must be equal.
"""
from ..rel import *

LEVEL = 'other'
ASSUME = ['arctan2 up to quarter-turn symmetries']


def check(ctx):
    ctx.rule('field(rotated survey) = rotated field, by value number')
    r = Rel(ctx)
    rot = Maps('quarter-turn', lambda r, x, y, z: (r.neg(y), x, z),
               {1: 2, 2: -1, 3: 3}, lambda r, a: r.add(a, 90.),
               lambda r, d: d, 1)
    half = Maps('half-turn', lambda r, x, y, z: (r.neg(x), r.neg(y), z),
                {1: -1, 2: -2, 3: 3}, lambda r, a: r.add(a, 180.),
                lambda r, d: d, 1)
    symmetry(ctx, r, rot, models(r, ctx), ZZ if not ctx.quick else ZZ[:2],
             ctx.quick)
    symmetry(ctx, r, half, models(r, ctx), ZZ[2:], ctx.quick, False)
    arbitrary(ctx, r)
    r.done()


def arbitrary(ctx, r):
    """Rotation by any angle, with the geometry in polar form."""
    g = Geo(r)
    phi = r.N('phi', 33.)
    off, ang = r.N('off', 170.), r.N('theta', .4)
    state = {}

    def hook(eng, f, args, kw):
        if f.name == 'get_off_ang' and f.module.name == 'empymod.utils':
            state['n'] = state.get('n', 0) + 1
            a = ang
            if state['rot']:
                a = r.add(ang, r.eng.sun('deg2rad', phi))
            return (TupleV([r.w.arr([off]), r.w.arr([a])]),)
        return None
    r.eng.call_hook = hook
    for mn, m in models(r, ctx):
        for zn, zs, zr in ZZ:
            for ms in (False, True):
                for mr in (False, True):
                    if not ctx.mine():
                        continue
                    o = []
                    for rt in (False, True):
                        state['rot'] = rt
                        sa, ra = g.sa, g.ra
                        if rt:
                            sa, ra = r.add(sa, phi), r.add(ra, phi)
                        o.append(bip(
                            r, g.src[:2]+[r.N('sz'+zn, zs), sa, g.sd],
                            g.rec[:2]+[r.N('rz'+zn, zr), ra, g.rd], m,
                            msrc=ms, mrec=mr))
                    r.eq(f'rotation:{ms}:{mr}', o[1], o[0],
                         f'bipole(msrc={ms}, mrec={mr}) in {mn} depends on '
                         f'the direction of the x-axis ({zn})',
                         'empymod.model.bipole')
    r.eng.call_hook = None
    if not state.get('n'):
        ctx.undec('get_off_ang not called')
