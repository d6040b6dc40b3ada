"""Time-domain responses are the documented sine and cosine transforms.

(1) With a standard digital filter the value number of the time-domain result
of every entry point equals (2/pi) sum_j w_j g(E(b_j/(2 pi t)))/t, with
g = -Im and sine weights (impulse, switch-on), g = Re and cosine weights
(switch-off), and E divided by i omega for the steps.
(2) For all Fourier transforms: the step responses are the transforms of
+/-E/(i omega), and only the real (cosine) or imaginary (sine) part enters.
"""
from ..rel import *
from ..spec import X

LEVEL = 'other'
ASSUME = []
PI = 3.141592653589793


def check(ctx):
    ctx.rule('f(t) = 2/pi * {sine of -Im, cosine of Re} of E or E/(i omega)')
    r = Rel(ctx)
    X.g = r.g
    ends(ctx, r)
    parts(ctx, r)
    r.done()


def filt(r, name='key_201_2012'):
    f = r.w.call('empymod.filters.Fourier').value
    f = r.eng.getattr(f, name)
    return [list(cells(r.eng.getattr(f, n))) for n in ('base', 'sin', 'cos')]


def ends(ctx, r):
    g = Geo(r)
    m = r.model(3)
    base, ws, wc = filt(r)
    E = {}

    def run(n, f, **k):
        if n[0] == 'dipole':
            return r.dipole(n[1], g.src, g.rec, m, freq=f, **k)
        if n[0] == 'bipole':
            return bip(r, g.src + [g.sa, g.sd], g.frec, m, msrc=n[1],
                       mrec=n[2], freqtime=f, strength=r.N('I', 5.), **k)
        if n[0] == 'twosrc':
            return r.dipole(n[1], [r.w.arr([g.src[0], r.N('x2', 33.)]),
                                   *g.src[1:]], g.rec, m, freq=f, **k)
    cases = [('dipole', ab) for ab in ABS if ab not in (36, 63)]
    cases += [('bipole', a, b) for a, b in (
        (False, False), (True, True), ('b', 'b'), (False, 'b'), (False, 'j'))]
    cases += [('twosrc', 12)]

    if not ctx.quick:
        cases += [('twosrc', ab) for ab in (11, 31, 43, 66)]
    for n in cases:
        if not ctx.mine():
            continue
        times = [r.N('t1', 1.)] if n[0] in ('dipole',) and ctx.quick else [
            r.N('t1', 1.), r.N('t2', 3.)]
        for sig, kind in ((0, 'sin'), (0, 'cos'), (1, 'sin'), (-1, 'cos'),
                          (1, 'cos'), (-1, 'sin'), (0, None)):
            over = {} if kind is None else {'kind': kind}
            ft = r.w.arr(times) if len(times) > 1 else times[0]
            a = run(n, ft, signal=sig, **ft_kw('dlf', **over))
            use = kind or 'sin'
            if sig:
                use = 'sin' if sig > 0 else 'cos'
            ref = []
            for t in times:
                tot = None
                for b, s, c in zip(base, ws, wc):
                    f = r.op('/', r.op('/', b, 2*PI), t)
                    k = n + (r.f(f).key,)
                    if k not in E:
                        E[k] = run(n, f)
                    e = E[k]
                    if not e.ok:
                        tot = [None]
                        break
                    v = [X(q) for q in r.fs(e.value)]
                    if sig:
                        v = [q*sig/(X(2j)*X(PI)*X(r.f(f))) for q in v]
                    w = X(r.f(s if use == 'sin' else c))
                    v = [part(r, q, use)*w/X(r.f(t)) for q in v]
                    tot = v if tot is None else [p+q for p, q in zip(tot, v)]
                ref += [q and (q*X(2)/X(PI)).v for q in tot]
            r.eq(f'sum:{n}:{sig}:{kind}', a, ref, f'{n[0]} {n[1:]}: the '
                 f'time-domain response (signal={sig}, kind={kind}) is not '
                 'the documented transform', f'empymod.model.'
                 f'{"dipole" if n[0] == "twosrc" else n[0]}')


def part(r, x, use):
    if x.v is None:
        return x
    if use == 'sin':
        return -X(r.g.un('imag', x.v, None))
    return X(r.g.un('real', x.v, None))


def parts(ctx, r):
    """The pairing for every transform, on symbolic spectra."""
    dec = Decide(r.eng)
    variants = [(ft, {}) for ft in FT if ft != 'qwe'] + [
        ('qwe', dict(diff_quad=BIG, maxint=3)), ('fftlog', dict(q=.3)),
        ('fftlog', dict(q=-.7)), ('fftlog', dict(pts_per_dec=2))]
    for ft, var in variants:
        for sig in (0, 1, -1):
            for kind in ('sin', 'cos') if ft[:3] == 'dlf' else (None,):
                if not ctx.mine():
                    continue
                for mask in ((1, 1), (1, 0), (0, 0)) if ft == 'qwe' else (
                        None,):
                    dec.set(mask, 3)
                    pair(ctx, r, ft, sig, kind, var, mask)
    dec.stop()


def spectrum(r, n, step, tag=''):
    re = [r.N(f're{tag}{i}', 3. + i) for i in range(n)]
    im = [r.N(f'im{tag}{i}', -2. - .3*i) for i in range(n)]
    return re, im


def arr(r, re, im):
    z = [r.add(a, r.mul(1j, b)) for a, b in zip(re, im)]
    return Arr(oarr(z, (len(z), 1)), 'c')


def pair(ctx, r, ft, sig, kind, var, mask=None):
    over = dict(var) if kind is None else dict(var, kind=kind)
    kw = ft_kw(ft, **over)
    time = r.w.arr([r.N('t1', 1.), r.N('t2', 30.)])
    where = 'empymod.model.tem'
    key = f'pair:{ft}:{sig}:{kind}' + ''.join(f':{k}' for k in var)
    if mask:
        key += ':' + ''.join(map(str, mask))

    def check_time(s, kw):
        o = r.call('empymod.utils.check_time', time, s, kw['ft'],
                   kw['ftarg'], 0, new=True)
        return o.value.items if o.ok else None
    a = check_time(sig, kw)
    if a is None or not isinstance(a[1], Arr) or a[1].a is None:
        ctx.undec(key)
        return
    fr = list(cells(a[1]))
    n = len(fr)
    re, im = spectrum(r, n, 0)
    r2, i2 = spectrum(r, n, 0, 'x')
    off = r.w.arr([1.])

    def tem(e, args, s):
        return r.call('empymod.model.tem', e, off, args[1], args[0], s,
                      args[2], args[3])
    x = tem(arr(r, re, im), a, sig)
    if not x.ok:
        ctx.undec(f'{key}: {exc_name(x.exc)}')
        return
    val = r.fs(x.value.items[0])
    # the step responses are transforms of sig*E/(i omega)
    use = 'sin' if sig > 0 else 'cos' if sig < 0 else kind or 'sin'
    if sig:
        # E/(i omega) = im/omega - i re/omega
        om = [r.mul(2*PI, f) for f in fr]
        q = [r.op('/', r.mul(float(sig), b), o) for b, o in zip(im, om)]
        p = [r.op('/', r.mul(float(-sig), b), o) for b, o in zip(re, om)]
        y = tem(arr(r, q, p), a, 0)
        r.eq(key + ':step', x.value.items[0], y.value.items[0] if y.ok else
             y, f'{ft}: the step response (signal={sig}) is not the '
             'transform of the spectrum divided by i omega', where)
        if ft[:3] != 'fft' or ft == 'fftlog':
            b = check_time(0, ft_kw(ft, kind='cos', **var) if ft[:3] ==
                           'dlf' and sig < 0 else ft_kw(ft, **var))
            if b is not None and (sig > 0 or ft[:3] == 'dlf'):
                y = tem(arr(r, q, p), b, 0)
                r.eq(key + ':kind', x.value.items[0], y.value.items[0] if
                     y.ok else y, f'{ft}: signal={sig} does not use the '
                     f'{use} transform', where)
    if ft in ('fft', 'fftspl'):
        return
    # which part of the spectrum enters (steps exchange the parts)
    used_im = (use == 'sin') != bool(sig)
    y = tem(arr(r, r2, im) if used_im else arr(r, re, i2), a, sig)
    r.eq(key + ':part', x.value.items[0], y.value.items[0] if y.ok else y,
         f'{ft}: signal={sig} ({use} transform) uses the wrong part of the '
         'spectrum', where)
    y = tem(arr(r, re, i2) if used_im else arr(r, r2, im), a, sig)
    if y.ok:
        v = r.fs(y.value.items[0])
        if None not in v and None not in val:
            r.holds(key + ':dep', [p.key for p in v] != [p.key for p in val],
                    f'{ft}: signal={sig} ({use} transform) does not depend '
                    'on the required part of the spectrum', where)
