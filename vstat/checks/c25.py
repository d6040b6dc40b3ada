"""Fictitious interfaces do not matter.

An interface inserted into a layer (same material on both sides) leaves every
response unchanged, wherever it is relative to source and receiver.  Decided
by value numbers of the two abstract runs.
"""
from ..rel import *

LEVEL = 'other'
ASSUME = ['the material parameters of the two parts are the same numbers']


def split(r, m, i, name, c):
    """Model m with layer i split at depth `name` (representative c)."""
    out = dict(m)
    d = list(m['depth'].items)
    out['depth'] = r.L(*d[:i], r.N(name, c), *d[i:])
    for k, v in m.items():
        if k != 'depth':
            q = list(v.items)
            out[k] = r.L(*q[:i+1], *q[i:])
    return out


TOP = [-300., 0., 1000., 1500., 1800.]


def check(ctx):
    ctx.rule('response(model with a fictitious interface) = response(model)')
    r = Rel(ctx)
    x = [r.N(q, v) for q, v in (('sx', 10.), ('sy', -20.), ('rx', 150.),
                                ('ry', 40.))]
    for n in (2, 3) if ctx.quick else (2, 3, 4):
        m = r.model(n)
        pos = [-150., 250., 1200., 1600.][:n]
        for i in range(n):
            for j in range(n):
                zs, zr = pos[i], pos[j] + (60. if i == j else 0.)
                for k in range(n):
                    # cuts in layer k, in every order with src and rec
                    a = TOP[k]
                    b = TOP[k+1] if k < n-1 else TOP[k] + 400
                    z = sorted([a, b] + [q for q in (zs, zr) if a < q < b])
                    if k == 0:
                        z[0] = -500.
                    for c in [(p+q)/2 for p, q in zip(z, z[1:])]:
                        m2 = split(r, m, k, 'cut', c)
                        for ab in ABS if n == 2 else (
                                11, 12, 22, 31, 33, 14, 24, 16, 34, 66, 46,
                                63):
                            if not ctx.mine():
                                continue
                            kw = dict(fn='empymod.model.dipole_k')
                            o = []
                            for mm in (m, m2):
                                o.append(one(r, mm, ab, x, zs, zr))
                            r.eq(f'split:{ab}', o[1], o[0],
                                 f'a fictitious interface in layer {k} of '
                                 f'{n} changes the wavenumber-domain field '
                                 f'of ab={ab} (source in layer {i}, receiver '
                                 f'in layer {j})', 'empymod.kernel.greenfct')
    whole(ctx, r)
    r.done()


def one(r, m, ab, x, zs, zr):
    return r.call('empymod.model.dipole_k', src=r.L(
        x[0], x[1], r.N('zs', zs)), rec=r.L(x[2], x[3], r.N('zr', zr)),
        freq=r.N('freq', 1.), wavenumber=r.w.arr([r.N('kappa', .01)]),
        ab=ab, verb=0, **m)


def whole(ctx, r):
    """Same for the space-domain routines, options and entry points."""
    g = Geo(r)
    m = r.model(3)
    m2 = split(r, m, 1, 'cut', 600.)
    m3 = split(r, m, 2, 'cut', 1400.)
    for xd in (True, False, None):
        for ab in (11, 23, 33, 41, 52, 66, 46):
            for mm in (m2, m3):
                if not ctx.mine():
                    continue
                o = [r.dipole(ab, g.src, g.rec, q, xdirect=xd)
                     for q in (m, mm)]
                r.eq(f'dipole:{xd}:{ab}', o[1], o[0],
                     f'a fictitious interface away from source and receiver '
                     f'changes dipole(ab={ab}, xdirect={xd})',
                     'empymod.model.dipole')
    for ms, mr in ((False, False), (True, False), (False, 'j'), ('b', 'b')):
        for kind in ('pp', 'ff'):
            if not ctx.mine():
                continue
            s = g.fsrc if kind == 'ff' else g.src + [g.sa, g.sd]
            q = g.frec if kind == 'ff' else g.rec + [g.ra, g.rd]
            o = [bip(r, s, q, mm, msrc=ms, mrec=mr, srcpts=3, recpts=3)
                 for mm in (m, m2)]
            r.eq(f'bipole:{ms}:{mr}:{kind}', o[1], o[0],
                 f'a fictitious interface changes bipole(msrc={ms}, '
                 f'mrec={mr})', 'empymod.model.bipole')
    # full-space in disguise: layers of the same material
    one_ = dict(depth=r.L(), **{k: r.L(r.N(k+'0', c)) for k, c in (
        ('res', 2.), ('aniso', 1.2), ('epermH', 1.), ('epermV', 1.5),
        ('mpermH', 1.), ('mpermV', 1.2))})
    for cuts in ((100.,), (290.,), (100., 600.), (275.,)):
        same_ = dict(depth=r.L(*[r.N(f'cut{i}', c)
                                 for i, c in enumerate(cuts)]),
                     **{k: r.L(*(list(v.items)*(len(cuts)+1)))
                        for k, v in one_.items() if k != 'depth'})
        for xd in (True, False, None):
            for ab in (11, 23, 33, 41, 52, 66, 46):
                if not ctx.mine():
                    continue
                o = [r.dipole(ab, g.src, g.rec, q, xdirect=xd)
                     for q in (one_, same_)]
                r.eq(f'fullspace:{xd}:{ab}', o[1], o[0],
                     f'a full-space given as {len(cuts)+1} layers differs '
                     f'from one given as one layer (ab={ab}, xdirect={xd})',
                     'empymod.model.fem')
