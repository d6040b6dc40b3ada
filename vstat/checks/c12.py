"""Strength, lengths and types of sources and receivers are plain factors.

The value number of a bipole response with a strength, a type ('b', 'j',
'loop') or both is compared with the plain response times the documented
factor.
"""
from ..rel import *
from ..spec import X, constants
from .c09 import Ref, dircos, rad, wire

LEVEL = 'other'
ASSUME = []
TYPES = (None, True, 'b', 'j', 'loop')


def iso(r, n, c=(0., 1000., 1500., 1800.)):
    """Isotropic model (the types are only defined for those)."""
    return dict(depth=r.depth(n, c), res=r.L(*[
        r.N(f'res{i}', v) for i, v in zip(range(n), (20., .3, 1., 5., 2.))]),
        epermH=r.par('epermH', n, 1., .3), mpermH=r.par('mpermH', n, 1., .2))


def length(r, p):
    q = 0.
    for k in range(3):
        v = r.sub(p[2*k+1], p[2*k])
        q = r.add(q, r.mul(v, v))
    return r.f(r.eng.sun('sqrt', q))


class Fact:
    """Factors of the types, for every accepted value of the constants."""

    def __init__(self, r):
        self.r = r
        X.g = r.g
        self.c = list(constants())

    def s(self, freq, laplace=False):
        f = X(self.r.f(freq))
        return -f if laplace else X(2j)*X(3.141592653589793)*f

    def get(self, kind, m, layer, s, const):
        def p(n):
            v = m.get(n)
            return X(1) if v is None else X(self.r.f(v.items[layer]))
        mu, ep = const
        if kind in ('b', 'loop'):
            return (s*mu*p('mpermH')).v
        if kind == 'j':
            return (1/p('res') + s*ep*p('epermH')).v
        return self.r.g.const(1)


def check(ctx):
    ctx.rule('response = plain response times strength, lengths, type factor')
    r = Rel(ctx)
    g = Geo(r)
    strengths(ctx, r, g)
    types(ctx, r, g)
    crossing(ctx, r, g)
    surveys(ctx, r, g)
    r.done()


def strengths(ctx, r, g):
    m = r.model(3)
    I = {c: r.N(f'I{c}', c) for c in (5., -3.)}
    for kind in ('pp', 'fp', 'pf', 'ff'):
        s = g.src + [g.sa, g.sd] if kind[0] == 'p' else g.fsrc
        q = g.rec + [g.ra, g.rd] if kind[1] == 'p' else g.frec
        for pts in (1, 3):
            for ms, mr in ((False, False), (True, False), (False, True),
                           ('b', 'b'), (False, 'j')):
                for c, v in I.items():
                    for tm in (None, 1, 0, -1):
                        if tm is not None and (pts == 3 or c < 0):
                            continue
                        if ctx.quick and tm is not None and (
                                ms != mr or kind[0] != kind[1] or tm == -1):
                            continue
                        if not ctx.mine():
                            continue
                        kw = dict(msrc=ms, mrec=mr, srcpts=pts, recpts=pts)
                        if tm is not None:
                            kw.update(freqtime=r.N('time', 1.), signal=tm,
                                      **ft_kw('dlf'))
                        a = bip(r, s, q, m, strength=v, **kw)
                        b = bip(r, s, q, m, **kw)
                        f = r.f(v)
                        if kind[0] == 'f':
                            f = r.g.mul(f, length(r, s))
                        if kind[1] == 'f':
                            f = r.g.mul(f, length(r, q))
                        ref = scale(r, b, f)
                        r.eq(f'strength:{kind}:{pts}:{ms}:{mr}:{c > 0}:{tm}',
                             a, ref, f'bipole ({kind}, srcpts=recpts={pts}, '
                             f'msrc={ms}, mrec={mr}, signal={tm}): the '
                             'strength is not the factor strength * length '
                             'of source * length of receiver',
                             'empymod.model.bipole')
        if ctx.mine():
            a = bip(r, s, q, m, strength=0)
            b = bip(r, s, q, m)
            r.eq(f'strength:{kind}:0', a, b, f'bipole ({kind}): strength=0 '
                 'is not the normalised response', 'empymod.model.bipole')


def scale(r, b, f):
    if isinstance(b, Result):
        if not b.ok:
            return b
        b = r.fs(b.value)
    return [None if v is None or f is None else r.g.mul(v, f) for v in b]


def types(ctx, r, g):
    F = Fact(r)
    m = iso(r, 3)
    zs = [('a', -40.), ('b', 250.), ('c', 1200.)]
    zr = [('a', -70.), ('b', 300.), ('c', 1300.)]
    fr = {1: [r.N('freq', 1.)], 2: [r.N('freq', 1.), r.N('freq2', 3.)]}
    for n, freqs in fr.items():
        for lap in (False, True):
            if lap and n == 2:
                continue
            for i, (zn, zv) in enumerate(zs):
                for j, (qn, qv) in enumerate(zr):
                    for ms, mr in (('b', False), ('b', True), (False, 'b'),
                                   (True, 'b'), ('b', 'b'), (False, 'j'),
                                   (True, 'j'), ('b', 'j'), ('loop', 'loop'),
                                   ('loop', 'j'), ('b', 'loop')):
                        if n == 2 and (i, j) not in ((0, 1), (1, 2)):
                            continue
                        if lap and ctx.quick and i == j:
                            continue
                        if not ctx.mine():
                            continue
                        s = g.src[:2] + [r.N('sz'+zn, zv), g.sa, g.sd]
                        q = g.rec[:2] + [r.N('rz'+qn, qv), g.ra, g.rd]
                        fv = [r.neg(f) for f in freqs] if lap else freqs
                        if lap:
                            fv = [r.N('lap', -2.)]
                        one(ctx, r, F, m, s, q, ms, mr, i, j, fv, lap)


def one(ctx, r, F, m, s, q, ms, mr, i, j, freqs, lap):
    ft = r.w.arr(freqs) if len(freqs) > 1 else freqs[0]
    a = bip(r, s, q, m, msrc=ms, mrec=mr, freqtime=ft)
    b = bip(r, s, q, m, msrc=ms in ('b', 'loop') or ms,
            mrec=mr in ('b', 'loop') or (mr if mr != 'j' else False),
            freqtime=ft)
    key = f'type:{ms}:{mr}:{i}:{j}:{len(freqs)}:{lap}'
    what = (f'bipole(msrc={ms}, mrec={mr}), source in layer {i}, receiver in '
            f'layer {j}: not the plain response times the factor of the type')
    if not (a.ok and b.ok):
        r.eq(key, a, b, what, 'empymod.model.bipole')
        return
    va, vb = r.fs(a.value), r.fs(b.value)
    for c in F.c:
        ref = []
        for k, f in enumerate(freqs):
            sv = F.s(f, lap)
            w = r.g.mul(F.get(ms, m, i, sv, c), F.get(mr, m, j, sv, c))
            ref.append(r.g.mul(vb[k], w) if k < len(vb) and vb[k] is not None
                       and w is not None else None)
        if [v and v.key for v in va] == [v and v.key for v in ref]:
            break
    r.eq(key, va, ref, what, 'empymod.model.bipole')


def crossing(ctx, r, g):
    """Finite wires through an interface: each point has its own layer."""
    F = Fact(r)
    m = iso(r, 4, (0., 258., 318.))
    ref = Ref(r, m)
    ws, wq = wire(r, g.fsrc, 3), wire(r, g.frec, 3)
    ls, lq = (1, 2, 2), (2, 3, 3)
    s = F.s(r.N('freq', 1.))
    for ms, mr in (('b', 'b'), ('b', False), (True, 'b'), (False, 'j'),
                   ('b', 'j')):
        if not ctx.mine():
            continue
        a = bip(r, g.fsrc, g.frec, m, msrc=ms, mrec=mr, srcpts=3, recpts=3)
        key = f'crossing:{ms}:{mr}'
        if not a.ok:
            ctx.undec(key)
            continue
        va = r.fs(a.value)
        for c in F.c:
            tot = ZERO
            for (x, wx), i in zip(ws[0], ls):
                for (y, wy), j in zip(wq[0], lq):
                    v = ref.sum(x, ws[1], y, wq[1], bool(ms),
                                mr in (True, 'b'))
                    for w in (wx, wy, F.get(ms, m, i, s, c),
                              F.get(mr, m, j, s, c)):
                        v = None if v is None or w is None else \
                            r.g.mul(v, w)
                    tot = None if v is None or tot is None else \
                        r.g.add(tot, v)
            if tot is not None and va[0] is not None and \
                    tot.key == va[0].key:
                break
        r.eq(key, va, [tot], f'bipole(msrc={ms}, mrec={mr}) with wires '
             'through an interface: the points are not scaled with the '
             'factor of their own layer', 'empymod.model.bipole')


def surveys(ctx, r, g):
    """Several sources and receivers: each entry has its own layers."""
    F = Fact(r)
    m = iso(r, 3)
    zs = {0: (-40., 0), 1: (250., 1), 2: (1200., 2)}
    zr = {0: (-70., 0), 1: (300., 1), 2: (1300., 2)}
    depths = (((1, 1), (2, 2)), ((2, 2), (0, 0)), ((1, 1), (0, 2)),
              ((2, 2), (0, 1)), ((0, 2), (1, 1)), ((1, 0), (2, 2)),
              ((0, 1), (2, 1)), ((2, 0), (1, 2)))
    I = r.N('I', 5.)
    for ls, lq in depths:
        for fin in (False, True):
            for ms, mr in (('b', 'b'), (False, 'j'), ('loop', 'j'),
                           ('b', False), (True, 'b')):
                if not ctx.mine():
                    continue
                one_survey(r, F, m, [zs[i] for i in ls], [zr[i] for i in lq],
                           ms, mr, fin, I)


def one_survey(r, F, m, zs, zq, ms, mr, fin, I):
    def side(t, zz, x0):
        if fin:
            cs = [[r.N(f'{t}{n}{i}', x0 + 7*i + v + (3*i if n == 'b' else 0))
                   for i in range(2)]
                  for n, v in zip('abcd', (0., 12., -4., 9.))]
            z = [r.N(f'{t}z{v[0]:g}', v[0]) for v in zz]
            cs = cs + [z, z]
        else:
            cs = [[r.N(f'{t}{n}{i}', x0 + 7*i + v) for i in range(2)]
                  for n, v in zip('xy', (0., 30.))]
            cs.append([r.N(f'{t}z{v[0]:g}', v[0]) for v in zz])
            cs += [[r.N(f'{t}{n}{i}', 20. + 3*i) for i in range(2)]
                   for n in 'ad']
        arr = []
        for c in cs:
            one = c[0] is c[1] or r.f(c[0]).key == r.f(c[1]).key
            arr.append(c[0] if one else r.w.arr(c))
        ln = [length(r, [c[i] for c in cs]) for i in range(2)] if fin else \
            [r.g.const(1)]*2
        return r.L(*arr), ln
    (S, lsrc), (Q, lrec) = side('s', zs, 10.), side('r', zq, 400.)
    kw = dict(verb=0, freqtime=r.N('freq', 1.), squeeze=False, **m,
              **ht_kw('dlf'))
    a = r.call('empymod.model.bipole', src=S, rec=Q, msrc=ms, mrec=mr,
               strength=I, **kw)
    b = r.call('empymod.model.bipole', src=S, rec=Q,
               msrc=ms in ('b', 'loop') or ms,
               mrec=mr in ('b', 'loop') or (mr if mr != 'j' else False), **kw)
    lay = [[v[1] for v in z] for z in (zs, zq)]
    key = f'survey:{ms}:{mr}:{lay}:{fin}'
    what = (f'bipole(msrc={ms}, mrec={mr}, strength) for two '
            f'{"wires" if fin else "dipoles"} each, sources in layers '
            f'{lay[0]}, receivers in layers {lay[1]}: not the plain response '
            'times strength, lengths and the factor of the type')
    if not (a.ok and b.ok):
        r.eq(key, a, b, what, 'empymod.model.bipole')
        return
    va, vb = r.fs(a.value), r.fs(b.value)
    if len(va) != 4 or len(vb) != 4:
        r.ctx.undec(key)
        return
    sv = F.s(r.N('freq', 1.))
    for c in F.c:
        ref = []
        for n in range(4):
            j, i = divmod(n, 2)
            w = r.f(I)
            for q in (lsrc[i], lrec[j], F.get(ms, m, lay[0][i], sv, c),
                      F.get(mr, m, lay[1][j], sv, c)):
                w = None if w is None or q is None else r.g.mul(w, q)
            ref.append(None if w is None or vb[n] is None
                       else r.g.mul(vb[n], w))
        if [v and v.key for v in va] == [v and v.key for v in ref]:
            break
    r.eq(key, va, ref, what, 'empymod.model.bipole')
