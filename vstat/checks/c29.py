"""The TM/TE splitting returns the documented parts of the field.

scripts.tmtemod.dipole: each of the ten contributions is the digital-filter
integral of its up/down-going wave, with the non-physical contribution at zero
wavenumber removed from the J1 integral, and the ten sum up to the total field
of model.dipole (xdirect=False).
"""
from ..rel import *
from ..spec import X, Line, constants, medium, PI
from .c30 import At, angle, cpos, rpos

LEVEL = 'other'
ASSUME = []
FN = 'empymod.scripts.tmtemod.dipole'
NAMES = ('--', '-+', '+-', '++', 'direct')
TOPS = (0., 1000., 1500., 1800.)


def check(ctx):
    ctx.rule('TM and TE parts = filter sums of the up/down-going waves')
    r = Rel(ctx, modules=['empymod.scripts.tmtemod'])
    X.g = r.g
    r.g.qr = True
    for n in (2, 3, 4) if ctx.quick else (2, 3, 4, 5):
        for lap in (False, True):
            env = None
            mid = [-140., 250., 1200., 1700., 1900.]
            for ls in range(n):
                for dz in (60., -30., 0.):
                    if not ctx.mine():
                        continue
                    env = env or setup(r, n, lap)
                    case(ctx, r, n, env, ls, mid[ls], mid[ls] + dz, lap)
    several(ctx, r)
    limits(ctx, r)
    r.done()


def setup(r, n, lap):
    """Symbolic model for which sqrt(zeta eta) exists in every layer."""
    at, g = At(r), r.g
    f = X(g.leaf(('freq', lap)))
    s = f if lap else 2j*X(PI)*f
    res = [X(g.leaf(('res', i))) for i in range(n)]
    lam = [X(g.leaf(('lam', i))) for i in range(n)]
    pos = rpos if lap else cpos
    eH = [pos(('eH', i)) for i in range(n)]
    zH = [pos(('zH', i)) for i in range(n)]
    ft = at('freq', -f if lap else f, -1. if lap else 1.)
    out = []
    for mu0, eps0 in constants():
        ep = [(e - 1/q)/(s*eps0) for e, q in zip(eH, res)]
        mp = [z/(s*mu0) for z in zH]
        ms = [medium(*q, s, mu0, eps0) for q in zip(res, lam, ep, ep, mp,
                                                    mp)]
        kw = dict(
            depth=r.depth(n, TOPS + (2500.,)),
            res=r.L(*[at(f'res{i}', q, 2. + i) for i, q in enumerate(res)]),
            aniso=r.L(*[at(f'lam{i}', q, 1.2 + .1*i)
                        for i, q in enumerate(lam)]))
        e = r.L(*[at(f'ep{i}', q, 3. + i) for i, q in enumerate(ep)])
        m = r.L(*[at(f'mp{i}', q, 1.5 + i) for i, q in enumerate(mp)])
        out.append((ms, kw, e, m))
    return ft, out


def lists(v):
    """((TM), (TE)) of the returned value, or None."""
    try:
        out = []
        for p in v.items:
            q = p.items if hasattr(p, 'items') else None
            if q is None or len(q) != 5:
                return None
            out.append([cells(x) for x in q])
        return out if len(out) == 2 else None
    except AttributeError:
        return None


class Ref:
    """Digital-filter integrals of the parts of the field."""

    def __init__(self, r, ms, d, ls, zs, zr, rel):
        self.r, self.ms, self.d, self.ls = r, ms, d, ls
        self.zs, self.zr, self.rel = zs, zr, rel

    def waves(self, k, te):
        """The five waves of the voltage at the receiver."""
        n, ls, d = len(self.ms), self.ls, self.d
        gam = [(L['eH']*L['zH'] + k*k*(L['zH']/L['zV'] if te else
                                       L['eH']/L['eV'])).sqrt()
               for L in self.ms]
        Z = [L['zH']/q if te else q/L['eH'] for L, q in zip(self.ms, gam)]
        G = gam[ls]
        dz = (self.zr - self.zs)*self.rel
        o = X(0)
        up = dn = None
        if ls < n-1:
            zb = d[ls+1]
            q = Line(d, gam, Z, zb, ls).dn
            dn = (q - Z[ls])/(q + Z[ls])
        if ls > 0:
            zt = d[ls]
            q = Line(d, gam, Z, zt, ls).up
            up = (q - Z[ls])/(q + Z[ls])
        zs, zr = self.zs, self.zr
        M = X(1)
        uu = dd = ud = du = o
        if up is not None and dn is not None:
            h = zb - zt
            M = 1 - up*dn*(-(2*G*h)).exp()
            uu = up*dn*(-(G*(2*h - zr + zs))).exp()/M
            dd = up*dn*(-(G*(2*h + zr - zs))).exp()/M
        if dn is not None:
            ud = dn*(-(G*(2*zb - zr - zs))).exp()/M
        if up is not None:
            du = up*(-(G*(zr + zs - 2*zt))).exp()/M
        return [Z[ls]*w for w in (uu, ud, du, dd, (-(G*dz)).exp())]

    def parts(self, off, cos2, filt):
        """[TM, TE], five parts each."""
        out = []
        base, j0, j1 = filt
        for te in (False, True):
            sg = 1 if te else -1
            w = [self.waves(b/off, te) for b in base]
            w0 = self.waves(X(0), te)
            tot = []
            for i in range(5):
                v = X(0)
                for b, p, q, u in zip(base, j0, j1, w):
                    v = v + u[i]*(((cos2 - sg)/2)*(b/off)*p - cos2/off*q)
                if i < 4:
                    v = v + cos2*w0[i]/off
                tot.append(v*sg/(4*X(PI)*off))
            out.append(tot)
        return out


def filt(r):
    f = r.w.call('empymod.filters.Hankel').value
    f = r.eng.getattr(f, 'key_201_2012')
    return [[X(r.f(q)) for q in cells(r.eng.getattr(f, n))]
            for n in ('base', 'j0', 'j1')]


def case(ctx, r, n, env, ls, zs, zr, lap):
    N = r.N
    ft, variants = env
    at = At(r)
    off = rpos(('off',))
    co, si = angle('azm')
    sx, sy = N('sx', 10.), N('sy', -20.)
    rx = at('rx', X(r.f(sx)) + off*co, 150.)
    ry = at('ry', X(r.f(sy)) + off*si, 40.)
    cos2 = co*co - si*si
    zsv = N('zs', zs)
    zrv = zsv if zr == zs else N('zr', zr)
    src, rec = r.L(sx, sy, zsv), r.L(rx, ry, zrv)
    rel = (zr > zs) - (zr < zs)
    txt = (f'{n} layers, source and receiver in layer {ls}, receiver '
           f'{("at the same depth", "below", "above")[rel]}'
           f'{", Laplace domain" if lap else ""}')
    key = f'tmtemod:{n}:{ls}:{rel}:{lap}'
    best = None
    for ms, kw, e, m in variants:
        a = r.call(FN, src=src, rec=rec, freqtime=ft, eperm=e, mperm=m,
                   verb=0, **kw)
        if not a.ok:
            if a.dead or getattr(a.exc, 'imprecise', False):
                ctx.undec(f'{key}: {exc_name(a.exc)}')
            else:
                ctx.violation(key, f'tmtemod.dipole ({txt}) raises '
                              f'{exc_name(a.exc)}', FN)
            return
        v = lists(a.value)
        if v is None:
            ctx.undec(f'{key}: value')
            return
        d = [None] + [X(r.f(q)) for q in kw['depth'].items]
        ref = Ref(r, ms, d, ls, X(r.f(zsv)), X(r.f(zrv)), rel or 1)
        ref = ref.parts(off, cos2, filt(r))
        q = [(same(r.f(x[0]), y.v), i, j) for i in (0, 1)
             for j, (x, y) in enumerate(zip(v[i], ref[i]))]
        s = sum(t[0] is True for t in q)
        if best is None or s > best[0]:
            best = (s, q, v, kw, e, m)
        if s == 10:
            break
    s, q, v, kw, e, m = best
    for ok, i, j in q:
        r.holds(f'{key}:{"TE" if i else "TM"}{NAMES[j]}', ok,
                f'{"TE" if i else "TM"}{NAMES[j]} of tmtemod.dipole ({txt}) '
                'is not the documented part of the field', FN)
    b = r.call('empymod.model.dipole', src=src, rec=rec, freqtime=ft, ab=11,
               epermH=e, mpermH=m, xdirect=False, verb=0,
               **{**kw, **ht_kw('dlf', dlf='key_201_2012')})
    tot = X(0)
    for p in v:
        for x in p:
            tot = tot + X(r.f(x[0]))
    r.eq(key + ':sum', b, [tot.v], f'the parts of tmtemod.dipole ({txt}) do '
         'not sum up to the total field', FN)


def several(ctx, r):
    """Order of several sources and receivers."""
    N = r.N
    S = [[N('sx', 10.), N('sy', -20.)], [N('sx2', 30.), N('sy2', -40.)]]
    R = [[N('rx', 150.), N('ry', 40.)], [N('rx2', -150.), N('ry2', 240.)],
         [N('rx3', 350.), N('ry3', 140.)]]
    kw = dict(depth=r.depth(3), res=r.L(*[N(f'res{i}', 1. + i)
                                          for i in range(3)]),
              freqtime=N('freq', 1.), verb=0)
    zs, zr = N('zs', 250.), N('zr', 300.)
    for ns, nr in ((1, 3), (2, 1), (2, 2), (2, 3)):
        if not ctx.mine():
            continue
        a = r.call(FN, src=r.L(*[r.w.arr([p[i] for p in S[:ns]])
                                 for i in range(2)], zs),
                   rec=r.L(*[r.w.arr([p[i] for p in R[:nr]])
                             for i in range(2)], zr), **kw)
        got = a.ok and lists(a.value)
        want = [[[] for _ in range(5)] for _ in range(2)]
        for j in range(nr):
            for i in range(ns):
                b = r.call(FN, src=r.L(*S[i], zs), rec=r.L(*R[j], zr), **kw)
                v = b.ok and lists(b.value)
                if not v:
                    ctx.undec('several: single response')
                    return
                for p in range(2):
                    for q in range(5):
                        want[p][q].append(r.f(v[p][q][0]))
        if not got:
            ctx.undec('several: value')
            continue
        for p in range(2):
            for q in range(5):
                r.eq(f'several:{ns}x{nr}', [r.f(c) for c in got[p][q]],
                     want[p][q], f'tmtemod.dipole with {ns} sources and '
                     f'{nr} receivers: entries are not the single '
                     'responses', FN)


def limits(ctx, r):
    """Models which the routine cannot handle are rejected."""
    N = r.N
    for key, n, zs, zr, nf in (('layers', 3, 250., 1200., 1),
                               ('layers', 3, 1200., 250., 1),
                               ('layers', 2, -250., 250., 1),
                               ('single', 1, 250., 300., 1),
                               ('freq', 3, 250., 300., 2)):
        if not ctx.mine():
            continue
        f = r.L(*[N(f'freq{i}', 1. + i) for i in range(nf)])
        a = r.call(FN, src=r.L(N('sx', 10.), N('sy', 20.), N('zs', zs)),
                   rec=r.L(N('rx', 150.), N('ry', 40.), N('zr', zr)),
                   depth=r.depth(n), res=r.L(*[N(f'res{i}', 1. + i)
                                               for i in range(n)]),
                   freqtime=f, verb=0)
        txt = (f'{n} layers, depths {zs}/{zr}, {nf} frequencies')
        if a.ok:
            ctx.violation(f'limits:{key}', f'tmtemod.dipole ({txt}) is not '
                          'rejected', FN)
        elif a.dead or getattr(a.exc, 'imprecise', False):
            ctx.undec(f'limits:{key}: {exc_name(a.exc)}')
        elif exc_name(a.exc) != 'ValueError':
            ctx.violation(f'limits:{key}', f'tmtemod.dipole ({txt}) raises '
                          f'{exc_name(a.exc)}', FN)
        else:
            ctx.ok()
