"""Arbitrary bipoles are weighted sums of elementary dipoles.

The value number of a bipole response is compared with the sum of the value
numbers of the nine elementary dipole responses, weighted with the direction
cosines of source and receiver; for bipoles of finite length with the sum over
the Gauss points (or the centre) along the wire.
"""
from ..rel import *

LEVEL = 'other'
ASSUME = []
SPECIAL = ((0., 0.), (90., 0.), (180., 0.), (-90., 0.), (270., 0.),
           (0., 90.), (0., -90.), (35., 90.), (90., 90.), (45., 0.),
           (90., 30.), (0., 180.), (180., 45.), (360., 0.), (450., -270.))


def dircos(r, a, d):
    """Direction cosines of azimuth a and dip d (radians)."""
    u = r.eng.sun
    g = r.g
    ca, sa, cd = (r.f(u('cos', a)), r.f(u('sin', a)), r.f(u('cos', d)))
    return [g.mul(ca, cd), g.mul(sa, cd), r.f(u('sin', d))]


def rad(r, q):
    return r.eng.sun('deg2rad', q)


class Ref:
    """Weighted sums of dipole responses (memoised)."""

    def __init__(self, r, m):
        self.r, self.m, self.memo = r, m, {}

    def dip(self, ab, s, q):
        r = self.r
        k = (ab,) + tuple(r.f(v).key for v in s+q)
        if k not in self.memo:
            self.memo[k] = r.dipole(ab, s, q, self.m)
        v = self.memo[k]
        return r.fs(v.value)[0] if v.ok else None

    def sum(self, s, ws, q, wq, ms, mr):
        r, tot = self.r, ZERO
        for i, a in enumerate(wq):
            for j, b in enumerate(ws):
                w = r.g.mul(a, b)
                if w is not None and w.zero:
                    continue
                v = self.dip(10*(i+1+3*mr) + j+1+3*ms, s, q)
                if v is None or w is None:
                    return None
                tot = r.g.add(tot, r.g.mul(w, v))
        return tot


def wire(r, p, n, axis=None):
    """Gauss points [(x, y, z), weight] and direction cosines of a wire."""
    d = [r.sub(p[2*k+1], p[2*k]) for k in range(3)]
    mid = [r.mul(.5, r.add(p[2*k+1], p[2*k])) for k in range(3)]
    if axis is None:
        q = 0.
        for v in d:
            q = r.add(q, r.mul(v, v))
        a = r.eng.sfn('arctan2', [d[1], d[0]])
        dip = r.eng.sun('arcsin', r.op('/', d[2], r.eng.sun('sqrt', q)))
        w = dircos(r, a, dip)
    else:
        w = [r.g.const(axis.get(k, 0.)) for k in range(3)]
    if n < 3:
        return [(mid, r.g.const(1))], w
    import numpy as np
    xs = np.polynomial.legendre.leggauss(n)[0]
    out = []
    for i in range(n):
        x = r.w.num('gauss', c=float(xs[i]), vn=r.g.gauss(0, n, i))
        x = r.mul(.5, x)
        out.append(([r.add(c, r.mul(x, v)) for c, v in zip(mid, d)],
                    r.g.mul(r.g.gauss(1, n, i), r.g.const(.5))))
    return out, w


def point(p, w):
    return [(p, None)], w


TYPES = ((False, False), (True, False), (False, True), (True, True))


def compare(r, ref, key, what, s, q, sp, rp, m, ms, mr, **k):
    """bipole(s, q) against the weighted sum; sp, rp: (points, cosines)."""
    a = bip(r, s, q, m, msrc=ms, mrec=mr, **k)
    tot = ZERO
    for x, wx in sp[0]:
        for y, wy in rp[0]:
            v = ref.sum(x, sp[1], y, rp[1], ms, mr)
            for w in (wx, wy):
                if v is not None and w is not None:
                    v = r.g.mul(v, w)
            tot = None if v is None or tot is None else r.g.add(tot, v)
    return r.eq(key, a, [tot], what, 'empymod.model.bipole')


def check(ctx):
    ctx.rule('bipole = sum of direction-cosine (and Gauss) weighted dipoles')
    r = Rel(ctx)
    g = Geo(r)
    for n in (2,) if ctx.quick else (2, 3):
        m = r.model(n)
        ref = Ref(r, m)
        points(ctx, r, g, m, ref)
        wires(ctx, r, g, m, ref)
        if n == 2:
            surveys(ctx, r, g, m, ref)
    r.done()


def points(ctx, r, g, m, ref):
    gen = dircos(r, rad(r, g.sa), rad(r, g.sd)), dircos(
        r, rad(r, g.ra), rad(r, g.rd))
    cases = [((g.sa, g.sd), (g.ra, g.rd), gen[0], gen[1], 'any', 'any')]
    for a, d in SPECIAL:
        w = dircos(r, rad(r, a), rad(r, d))
        cases.append(((a, d), (g.ra, g.rd), w, gen[1], f'({a}, {d})', 'any'))
        cases.append(((g.sa, g.sd), (a, d), gen[0], w, 'any', f'({a}, {d})'))
    for (a, d), (b, e) in (((0., 0.), (90., 0.)), ((0., 0.), (0., 0.)),
                           ((90., 0.), (0., 0.)), ((0., 90.), (0., -90.)),
                           ((180., 0.), (0., 90.)), ((0., 90.), (90., 0.)),
                           ((90., 0.), (-90., 0.)), ((45., 0.), (0., 90.))):
        cases.append(((a, d), (b, e), dircos(r, rad(r, a), rad(r, d)),
                      dircos(r, rad(r, b), rad(r, e)), f'({a}, {d})',
                      f'({b}, {e})'))
    for s, q, ws, wq, ns, nq in cases:
        for ms, mr in TYPES:
            if not ctx.mine():
                continue
            compare(r, ref, f'dipole:{ms}:{mr}:{ns}:{nq}',
                    f'bipole(msrc={ms}, mrec={mr}) with (azimuth, dip) {ns} '
                    f'of the source and {nq} of the receiver is not the '
                    'weighted sum of the elementary dipoles',
                    g.src + list(s), g.rec + list(q), point(g.src, ws),
                    point(g.rec, wq), m, ms, mr)


def axes(r, c, length=24.):
    """Wires along the coordinate axes around centre c (names, values)."""
    for k in range(3):
        for sg in (1, -1):
            p = []
            for i in range(3):
                v = r.N(f'{c[0]}{i}', c[1][i])
                if i == k:
                    h = r.N(f'{c[0]}len', length)
                    e = r.add(v, h)
                    p += [v, e] if sg > 0 else [e, v]
                else:
                    p += [v, v]
            yield f'{"-" if sg < 0 else "+"}{"xyz"[k]}', p, {k: float(sg)}


def wires(ctx, r, g, m, ref):
    pt = dircos(r, rad(r, g.sa), rad(r, g.sd)), dircos(
        r, rad(r, g.ra), rad(r, g.rd))
    pr = g.rec + [g.ra, g.rd], point(g.rec, pt[1])
    ps = g.src + [g.sa, g.sd], point(g.src, pt[0])
    for n in (1, 2, 3, 4, 5):
        for ms, mr in TYPES:
            if ctx.mine():
                compare(r, ref, f'wire:src:{n}:{ms}:{mr}',
                        f'a finite source with srcpts={n} (msrc={ms}, '
                        f'mrec={mr}) is not the sum over its points',
                        g.fsrc, pr[0], wire(r, g.fsrc, n), pr[1], m, ms, mr,
                        srcpts=n)
            if ctx.mine():
                compare(r, ref, f'wire:rec:{n}:{ms}:{mr}',
                        f'a finite receiver with recpts={n} (msrc={ms}, '
                        f'mrec={mr}) is not the sum over its points',
                        ps[0], g.frec, ps[1], wire(r, g.frec, n), m, ms, mr,
                        recpts=n)
            if n < 4 and ctx.mine():
                compare(r, ref, f'wire:both:{n}:{ms}:{mr}',
                        f'finite source and receiver (srcpts={n}, recpts=3, '
                        f'msrc={ms}, mrec={mr}) are not the sum over their '
                        'points', g.fsrc, g.frec, wire(r, g.fsrc, n),
                        wire(r, g.frec, 3), m, ms, mr, srcpts=n, recpts=3)
    for ms, mr in TYPES[:2]:
        for nm, p, ax in axes(r, ('u', (10., -20., 250.))):
            for n in (1, 3):
                if ctx.mine():
                    compare(r, ref, f'axis:src:{nm}:{n}:{ms}',
                            f'a finite source along {nm} (srcpts={n}, '
                            f'msrc={ms}) is not the sum over its points',
                            p, pr[0], wire(r, p, n, ax), pr[1], m, ms, mr,
                            srcpts=n)
        for nm, p, ax in axes(r, ('v', (150., 40., 300.))):
            for n in (1, 3):
                if ctx.mine():
                    compare(r, ref, f'axis:rec:{nm}:{n}:{ms}',
                            f'a finite receiver along {nm} (recpts={n}, '
                            f'msrc={ms}) is not the sum over its points',
                            ps[0], p, ps[1], wire(r, p, n, ax), m, ms, mr,
                            recpts=n)


MIX = ((0., 0.), (90., 0.), (0., 90.), (180., 0.), (35., 0.), (35., 90.),
       (90., 30.), ('any', 'any'))


def surveys(ctx, r, g, m, ref):
    """Two sources or receivers of different orientation in one call."""
    gen = ((g.sa, g.sd), dircos(r, rad(r, g.sa), rad(r, g.sd))), (
        (g.ra, g.rd), dircos(r, rad(r, g.ra), rad(r, g.rd)))
    for side in (0, 1):
        for a in MIX:
            for b in MIX:
                if a == b:
                    continue
                for ms, mr in TYPES:
                    if ctx.mine():
                        mixed(ctx, r, g, m, ref, side, a, b, gen, ms, mr)


def mixed(ctx, r, g, m, ref, side, a, b, gen, ms, mr):
    ps = [[r.N(f'{"sr"[k]}{n}{i}', v + 11*i) for n, v in zip('xy', p)]
          + [r.N(f'{"sr"[k]}z', z)] for k, i, p, z in (
              (0, 0, (10., -20.), 250.), (1, 0, (150., 40.), 300.),
              (0, 1, (10., -20.), 250.), (1, 1, (150., 40.), 300.))]
    pts = [ps[0], ps[2]], [ps[1], ps[3]]
    na, nb = a, b
    a, b = (gen[side][0] if q[0] == 'any' else q for q in (a, b))
    both = r.L(r.w.arr([p[0] for p in pts[side]]),
               r.w.arr([p[1] for p in pts[side]]), pts[side][0][2],
               r.w.arr([a[0], b[0]]), r.w.arr([a[1], b[1]]))
    o = 1-side
    single = r.L(*(pts[o][0] + list(gen[o][0])))
    args = [both, single] if side == 0 else [single, both]
    res = r.call('empymod.model.bipole', src=args[0], rec=args[1], verb=0,
                 freqtime=r.N('freq', 1.), msrc=ms, mrec=mr, **m,
                 **ht_kw('dlf'))
    want = []
    for i, q in enumerate((a, b)):
        w = dircos(r, rad(r, q[0]), rad(r, q[1]))
        if side == 0:
            want.append(ref.sum(pts[0][i], w, pts[1][0], gen[1][1], ms, mr))
        else:
            want.append(ref.sum(pts[0][0], gen[0][1], pts[1][i], w, ms, mr))
    nm = ('sources', 'receivers')[side]
    r.eq(f'mixed:{nm}:{na}:{nb}:{ms}:{mr}', res, want,
         f'bipole(msrc={ms}, mrec={mr}) for two {nm} with (azimuth, dip) '
         f'{na} and {nb}: not the weighted sums of the elementary dipoles',
         'empymod.model.bipole')
