"""Translation invariance.

Shifting all horizontal coordinates, or all depths together with all
interfaces, is analysed next to the unshifted problem; the value numbers of
the fields must be equal.
"""
from ..rel import *

LEVEL = 'other'
ASSUME = ['rounding of integration points to the minimum-offset grid is '
          'ignored']


def check(ctx):
    ctx.rule('field(shifted survey[, shifted interfaces]) = field(survey)')
    r = Rel(ctx)
    t, u, v = r.N('shift-x', 3000.), r.N('shift-y', -70.), r.N('shift-z',
                                                               123.)
    idv = {1: 1, 2: 2, 3: 3}

    def mz(r, m):
        m = dict(m)
        m['depth'] = ListV([r.add(q, v) for q in m['depth'].items])
        return m
    hor = Maps('horizontal-shift', lambda r, x, y, z: (
        r.add(x, t), r.add(y, u), z), idv, lambda r, a: a, lambda r, d: d, 1)
    ver = Maps('vertical-shift', lambda r, x, y, z: (x, y, r.add(z, v)), idv,
               lambda r, a: a, lambda r, d: d, 1, mz)
    symmetry(ctx, r, hor, models(r, ctx), ZZ if not ctx.quick else ZZ[:2],
             ctx.quick)
    symmetry(ctx, r, ver, models(r, ctx), ZZ if not ctx.quick else ZZ[:2],
             ctx.quick, analytic=False)
    other(ctx, r, t, u, v, mz)
    r.done()


def other(ctx, r, t, u, v, mz):
    """Other entry points: loop, gpr, time domain, TM/TE splitting."""
    g = Geo(r)
    m = r.model(3, full=False)
    for nm, sh in (('horizontal', lambda p: [r.add(p[0], t), r.add(p[1], u)]
                    + list(p[2:])),
                   ('vertical', lambda p: list(p[:2]) + [r.add(p[2], v)]
                    + list(p[3:]))):
        m2 = mz(r, m) if nm == 'vertical' else m
        for fn, k, bp in (
                ('loop', dict(mrec=True), 1), ('loop', dict(mrec='loop'), 1),
                ('dipole', dict(ab=11, signal=0), 0),
                ('dipole', dict(ab=13, signal=1), 0),
                ('bipole', dict(signal=-1, msrc=True), 1),
                ('bipole', dict(mrec='j'), 1)):
            if not ctx.mine():
                continue
            o = []
            for mm, f in ((m, list), (m2, sh)):
                s, q = g.src, g.rec
                if bp:
                    s, q = s+[g.sa, g.sd], q+[g.ra, g.rd]
                kw = dict(src=r.L(*f(s)), rec=r.L(*f(q)),
                          freqtime=r.N('ft', 1.), verb=0, **mm,
                          **ht_kw('dlf'))
                if 'signal' in k:
                    kw.update(ft_kw('dlf'))
                kw.update(k)
                o.append(r.call('empymod.model.'+fn, **kw))
            r.eq(f'{fn}:{nm}:{sorted(k.items())}', o[1], o[0],
                 f'{fn}({k}) is not invariant under a {nm} shift',
                 'empymod.model.'+fn)
