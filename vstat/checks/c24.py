"""The layered fields solve Maxwell's equations.

The value numbers of the wavenumber-domain fields are compared with those of
an independent reference solution (vstat/spec.py): two polarisations as
transmission lines with tangential fields continuous across every interface,
outgoing waves in the outer half-spaces, and the source's jump conditions.
"""
from ..rel import *
from ..spec import *

LEVEL = 'other'
ASSUME = ['the branch of the vertical wavenumber is the principal square '
          'root of zeta*eta + kappa^2 eta_H/eta_V (TM; TE alike)']
TOPS = (0., 1000., 1500., 1800.)


def lay_of(z, n):
    return sum(z > t for t in TOPS[:n-1])


def setup(r, n, laplace=False):
    X.g = r.g
    m = r.model(n)
    s = X(1j)*2*X(PI)*X(r.f(r.N('freq', 1.)))
    if laplace:
        s = X(r.f(r.N('sval', 1.)))
    lays = [[medium(*[X(r.f(m[k].items[i])) for k in (
        'res', 'aniso', 'epermH', 'epermV', 'mpermH', 'mpermV')], s, *c)
        for i in range(n)] for c in constants()]
    d = [None] + [X(r.f(q)) for q in m['depth'].items]
    return m, lays, d


def angles(r, dx, dy):
    """Both ways to define the angle: arctan2, or the direction cosines."""
    g = r.g
    o = X(g.fn('hypot', [dx.v, dy.v], [])) if hasattr(dx, 'v') else None
    th = X(g.atan2(dy.v, dx.v, 1, 1))
    yield o, *th.cs()
    yield o, dx/o, dy/o


def pairs(n, quick):
    mid = [-40., 250., 1200., 1700., 1900.]
    for i in range(n):
        for j in range(n):
            yield mid[i], mid[j] + 60., 1 if j >= i else -1
            if i == j:
                yield mid[i], mid[j] - 30., -1
                yield mid[i], None, 0


def layered(ctx, r):
    for n in (1, 2, 3, 4) if ctx.quick else (1, 2, 3, 4, 5):
        env = setup(r, n)
        for zs, zr, rel in pairs(n, ctx.quick):
            ls, lr = lay_of(zs, n), lay_of(zs if zr is None else zr, n)
            zsv = r.N('zs', zs)
            zrv = zsv if zr is None else r.N('zr', zr)
            for ab in ABS:
                if ctx.mine():
                    case(ctx, r, n, env, ab, zsv, zrv, ls, lr, rel, '')
    # Laplace domain
    for n, zs, zr, rel in ((2, -40., 250., 1), (2, 1200., 250., -1),
                           (3, 250., 1200., 1), (3, 250., 260., 1)):
        env = setup(r, n, True)
        for ab in ABS:
            if ctx.mine():
                case(ctx, r, n, env, ab, r.N('zs', zs), r.N('zr', zr),
                     lay_of(zs, n), lay_of(zr, n), rel, ', Laplace domain')
    # source or receiver on an interface: counts as in the upper layer
    for n, zs, zr in ((2, 0, 250.), (2, 250., 0), (3, 0, 1), (3, 1, 0),
                      (3, 1, 1), (4, 1, 1900.), (4, -40., 2), (2, 0, -40.),
                      (3, 1, 1200.), (3, 1200., 1)):
        env = setup(r, n)
        zz, ll, cc = [], [], []
        for nm, z in (('zs', zs), ('zr', zr)):
            if isinstance(z, int):
                zz.append(env[0]['depth'].items[z])
                cc.append(TOPS[z])
                ll.append(z)
            else:
                zz.append(r.N(nm, z))
                cc.append(z)
                ll.append(lay_of(z, n))
        rel = (cc[1] > cc[0]) - (cc[1] < cc[0])
        for ab in ABS:
            if ctx.mine():
                case(ctx, r, n, env, ab, *zz, *ll, rel, ', on an interface')


def case(ctx, r, n, env, ab, zsv, zrv, ls, lr, rel, txt):
    m, lays, d = env
    sx, sy, rx, ry = [r.N(q, v) for q, v in (
        ('sx', 10.), ('sy', -20.), ('rx', 150.), ('ry', 40.))]
    kk = r.N('kappa', .01)
    k = X(r.f(kk))
    dx, dy = X(r.f(rx)) - X(r.f(sx)), X(r.f(ry)) - X(r.f(sy))
    f = r.N('freq', 1.)
    if 'Laplace' in txt:
        f = r.neg(r.N('sval', 1.))
    a = r.call('empymod.model.dipole_k', src=r.L(sx, sy, zsv),
               rec=r.L(rx, ry, zrv), freq=f, wavenumber=r.w.arr([kk]), ab=ab,
               verb=0, **m)
    key = f'dipole_k:{ab}' + txt.split(' ')[-1]
    what = (f'wavenumber-domain field of ab={ab} ({n} layers, source in '
            f'layer {ls}, receiver in layer {lr}{txt}) does not solve '
            "Maxwell's equations")
    if not a.ok or not isinstance(a.value, TupleV):
        if a.exc is None or getattr(a.exc, 'imprecise', 0):
            ctx.undec(key)
        else:
            ctx.violation(key, what + f': raises {exc_name(a.exc)}',
                          'empymod.model.dipole_k')
        return
    best = solves(r, a.value.items, ab, lays, d, X(r.f(zsv)), ls,
                  X(r.f(zrv)), lr, k, rel, dx, dy)
    r.holds(key, best, what, 'empymod.kernel.greenfct')


def solves(r, vals, ab, lays, d, zs, ls, zr, lr, k, rel, dx, dy):
    got = [r.fs(v)[0] for v in vals]
    best = False
    for lay in lays:
        sp = spectral(ab, lay, d, zs, ls, zr, lr, k, rel)
        for off, c, s in angles(r, dx, dy):
            q = [same(v, w.v) for v, w in zip(got, hankel(sp, k, off, c, s))]
            if all(q):
                return True
            if None in q:
                best = None
    return best


def check(ctx):
    ctx.rule('wavenumber-domain field = transmission-line solution, 1-5 '
             'layers, all positions and component pairs')
    r = Rel(ctx)
    layered(ctx, r)
    r.done()
