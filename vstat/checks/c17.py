"""The convenience routines are the documented combinations.

dipole = bipole with point dipoles along the axes; loop = bipole with a loop
source; ip_and_q = real and imaginary part of scale*Hs/Hp; gpr = transform of
dipole times a Ricker wavelet, times the gain; every model parameter and
option reaches the computation.
"""
from ..rel import *
from ..spec import X

LEVEL = 'other'
ASSUME = []
AXIS = {1: (0., 0.), 2: (90., 0.), 3: (0., 90.)}
MODEL = 'empymod.model.'


def check(ctx):
    ctx.rule('wrapper = documented combination, by value number')
    r = Rel(ctx)
    X.g = r.g
    ms = models(r, ctx) if not ctx.quick else models(r, ctx)[:2]
    dips(ctx, r, ms)
    loops(ctx, r, ms)
    ipq(ctx, r)
    gprs(ctx, r)
    r.done()


def variants(r, ctx):
    t = r.w.arr([r.N('t1', 1.), r.N('t2', 3.)])
    f = r.w.arr([r.N('freq', 1.), r.N('freq2', 3.)])
    out = [('frequencies', dict(freqtime=f))]
    for x in (True, None, False):
        out.append((f'xdirect={x}', dict(freqtime=f, xdirect=x)))
    for h, o in (('dlf', dict(pts_per_dec=-1)), ('dlf', dict(pts_per_dec=1)),
                 ('qwe', {}), ('quad', {})):
        out.append((f'ht={h}{o}', dict(freqtime=r.N('freq', 1.),
                                       **ht_kw(h, **o))))
    for lo in ('off', 'freq'):
        out.append((f'loop={lo}', dict(freqtime=f, loop=lo)))
    for s in (0, 1, -1):
        out.append((f'signal={s}', dict(freqtime=t, signal=s,
                                        **ft_kw('dlf'))))
    out.append(('kind=cos', dict(freqtime=t, signal=0,
                                 **ft_kw('dlf', kind='cos'))))
    out.append(('ft=fftlog', dict(freqtime=r.w.arr(
        [r.N('t1', 1.), r.N('t2', 30.)]), signal=1, **ft_kw('fftlog'))))
    return out


def dips(ctx, r, ms):
    g = Geo(r)
    surveys = [('one', g.src, g.rec)]
    surveys.append(('many', [r.w.arr([g.src[0], r.N('x2', 33.)]),
                             r.w.arr([g.src[1], r.N('y2', -5.)]), g.src[2]],
                    [r.w.arr([g.rec[0], r.N('u2', 77.), r.N('u3', 300.)]),
                     g.rec[1], g.rec[2]]))
    for mn, m in ms:
        for vn, k in variants(r, ctx):
            for sn, src, rec in surveys:
                if sn == 'many' and ctx.quick and vn not in (
                        'frequencies', 'loop=off', 'signal=0'):
                    continue
                for ab in ABS:
                    if ctx.quick and (mn != ms[0][0] or sn == 'many') and \
                            ab not in (12, 31, 43, 56):
                        continue
                    if not ctx.mine():
                        continue
                    a, b = ab // 10, ab % 10
                    kw = dict(ht_kw('dlf'), **k)
                    x = r.dipole(ab, src, rec, m, **kw)
                    y = bip(r, list(src) + list(AXIS[(b-1) % 3+1]),
                            list(rec) + list(AXIS[(a-1) % 3+1]), m,
                            msrc=b > 3, mrec=a > 3, **kw)
                    r.eq(f'dipole:{ab}:{vn}:{sn}:{mn}', x, y,
                         f'dipole(ab={ab}) is not bipole with dipoles along '
                         f'these axes ({vn}; {sn}; {mn})', MODEL+'dipole')


def loops(ctx, r, ms):
    g = Geo(r)
    geos = [('point', g.src + [g.sa, g.sd], g.rec + [g.ra, g.rd], {}),
            ('finite', g.fsrc, g.frec, dict(recpts=2)),
            ('strength', g.src + [g.sa, g.sd], g.frec,
             dict(strength=r.N('I', 5.)))]
    for mn, m in ms:
        for vn, k in variants(r, ctx):
            for gn, src, rec, o in geos:
                for mrec in (None, False, True, 'b', 'j'):
                    if ctx.quick and (vn[:2] in ('ht', 'lo', 'xd', 'ft') or
                                      mn != ms[0][0]) and \
                            mrec in (False, 'j', True):
                        continue
                    if not ctx.mine():
                        continue
                    kw = dict(ht_kw('dlf'), **o, **k)
                    e = {} if mrec is None else dict(mrec=mrec)
                    y = bip(r, src, rec, m, msrc='b', srcpts=1, **dict(
                        kw, mrec=True if mrec is None else mrec))
                    x = r.call(MODEL+'loop', src=r.L(*src), rec=r.L(*rec),
                               verb=0, **m, **kw, **e)
                    r.eq(f'loop:{mrec}:{vn}:{gn}:{mn}', x, y,
                         f'loop is not bipole with msrc="b" (mrec={mrec}; '
                         f'{vn}; {gn}; {mn})', MODEL+'loop')


def ipq(ctx, r):
    """Real and imaginary part of scale*Hs/Hp."""
    g = Geo(r)
    rec2 = [r.w.arr([g.rec[0], r.N('u2', 77.)]), g.rec[1], g.rec[2]]
    f = r.w.arr([r.N('freq', 1.), r.N('freq2', 3.)])
    full = r.model(3)
    part = dict(depth=r.depth(3), res=full['res'])
    for ab in MM:
        for mn, m in (('all parameters', full), ('resistivities', part),
                      ('vti', dict(part, aniso=full['aniso'],
                                   mpermV=full['mpermV']))):
            for sc in (None, 'scale'):
                for rec in (g.rec, rec2):
                    for fr in (r.N('freq', 1.), f):
                        for o in ({}, dict(xdirect=True), dict(loop='off')):
                            if ctx.quick and (rec is rec2) != (fr is f):
                                continue
                            if not ctx.mine():
                                continue
                            one_ipq(ctx, r, g.src, rec, ab, mn, m, sc, fr, o)


def one_ipq(ctx, r, src, rec, ab, mn, m, sc, fr, o):
    k = dict(o)
    s = X(1000.)
    if sc:
        k['scale'] = r.N('scale', 1e6)
        s = X(r.f(k['scale']))
    x = r.dipole(ab, src, rec, m, fr, fn=MODEL+'ip_and_q', **k)
    o = {q: v for q, v in o.items() if q != 'xdirect'}
    hs = r.dipole(ab, src, rec, m, fr, xdirect=None, **o)
    top = {q: v.items[0] for q, v in m.items() if q != 'depth'}
    hp = r.dipole(ab % 10*11, src, rec, dict(top, depth=ListV([])), fr,
                  xdirect=True, **o)
    key = f'ip_and_q:{ab}:{mn}:{sc}:{sorted(k)}'
    what = f'ip_and_q(ab={ab}; {mn}; {sorted(k)})'
    if not (hs.ok and hp.ok):
        ctx.undec(f'{key}: {exc_name((hs if not hs.ok else hp).exc)}')
        return
    if not x.ok:
        r.eq(key, x, hs, what, MODEL+'ip_and_q')
        return
    for i, nm in enumerate(('real', 'imag')):
        ref = [(s*X(a)/X(b)) for a, b in zip(r.fs(hs.value), r.fs(hp.value))]
        r.eq(f'{key}:{nm}', x.value.items[i],
             [r.g.un(nm, q.v, None) for q in ref],
             f'{what}: not the {nm} part of scale*Hs/Hp', MODEL+'ip_and_q')


def gprs(ctx, r):
    g = Geo(r)
    cap = []
    orig = r.eng.call_hook

    def hook(eng, f, args, kw):
        if (f.module.name, f.name) == ('empymod.model', 'tem') and not kw:
            cap.append([eng.arr_of(args[0]).a, args[2]])
        return None
    surveys = [('one', g.src, g.rec),
               ('many', [r.w.arr([g.src[0], r.N('x2', 33.)]), g.src[1],
                         g.src[2]],
                [r.w.arr([g.rec[0], r.N('u2', 77.), r.N('u3', 300.)]),
                 g.rec[1], g.rec[2]])]
    t = r.w.arr([r.N('t1', 1.), r.N('t2', 3.)])
    cf = r.N('cf', 5.)
    full = r.model(3)
    ft = ft_kw('fft', nfreq=3, ntot=4)
    for sn, src, rec in surveys:
        for ab in (11, 12, 33, 43, 26, 66):
            for time in (t, r.N('t1', 1.)):
                for x in (False, True):
                    if not ctx.mine():
                        continue
                    del cap[:]
                    r.eng.call_hook = hook
                    kw = dict(ht_kw('dlf'), xdirect=x, **ft)
                    a = r.dipole(ab, src, rec, full, time, fn=MODEL+'gpr',
                                 cf=cf, **kw)
                    b = r.dipole(ab, src, rec, full, time, fn=MODEL+'gpr',
                                 cf=cf, gain=r.N('gain', 2.), **kw)
                    r.eng.call_hook = orig
                    key = f'gpr:{ab}:{sn}:{x}'
                    gains(ctx, r, a, b, time, key)
                    spectra(ctx, r, cap, ab, src, rec, full, x, cf, key)


def gains(ctx, r, a, b, time, key):
    """gain: 1 + |(t in ns)**gain|, per time."""
    if not (a.ok and b.ok):
        ctx.undec(f'{key}: {exc_name((a if not a.ok else b).exc)}')
        return
    ts = list(time.a) if isinstance(time, Arr) else [time]
    p, q = r.fs(a.value), r.fs(b.value)
    n = len(p)//len(ts)
    ref = []
    for i, t in enumerate(ts):
        pw = r.op('**', r.mul(t, 10**9), r.N('gain', 2.))
        f = X(1) + X(r.f(r.eng.sun('abs', pw)))
        ref += [(X(v)*f).v for v in p[i*n:(i+1)*n]]
    r.eq(key+':gain', b, ref, 'gpr: the gain is not a factor 1+|(t/ns)**gain|'
         ' of each time', MODEL+'gpr')


def spectra(ctx, r, cap, ab, src, rec, m, xd, cf, key):
    """Spectrum handed to the transform = dipole * Ricker wavelet."""
    if not cap or cap[0][0] is None:
        ctx.undec(f'{key}: spectrum')
        return
    S_, freq = cap[0]
    fr = [X(r.f(c)) for c in cells(freq)]
    e = r.dipole(ab, src, rec, m, freq, xdirect=xd)
    if not e.ok:
        ctx.undec(f'{key}: {exc_name(e.exc)}')
        return
    nf = len(fr)
    E = r.eng.arr_of(e.value).a
    if E is None or S_.shape[0] != nf or E.size != S_.size:
        ctx.undec(f'{key}: shape')
        return
    # columns: receivers first, then sources
    E = E.reshape(nf, -1, order='F')
    out = []
    for j in range(S_.shape[1]):
        for i in range(nf):
            # first sample of the wavelet belongs to zero frequency
            x = (fr[i-1] if i else X(0))/X(r.f(cf))
            w = -(x*x)
            w = w*X(r.g.exp(w.v))
            out.append((X(r.f(E[i, j]))*w).v)
    r.eq(key+':spectrum', [r.f(c) for c in S_.T.ravel()], out,
         'gpr: the transformed spectrum is not dipole times the Ricker '
         'wavelet', MODEL+'gpr')
