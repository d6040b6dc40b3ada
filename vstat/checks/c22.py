"""Minimum values: input below a minimum counts as the minimum.

set_minimum/get_minimum: every subset of the five minima is set to abstract
numbers and read back, the others stay.  Then every routine is called with
values below, at and above raised minima: the response must be the one, by
value number, for the minimum (below) and for the given value (at, above),
under default minima.
"""
from ..rel import *
from .c09 import dircos, rad
from .c30 import rpos
import itertools

LEVEL = 'other'
M = 'empymod.model.'
U = 'empymod.utils.'
NAMES = ('min_freq', 'min_time', 'min_off', 'min_res', 'min_angle')
DEF = (1e-20, 1e-20, 1e-3, 1e-20, 1e-10)
TOP = 'empymod.'


def check(ctx):
    ctx.rule('set_minimum sets what is given, get_minimum returns it')
    ctx.rule('response for a value below a minimum = response for the minimum')
    ctx.rule('a replaced value is reported at verb=1')
    r = Rel(ctx)
    if ctx.mine():
        setget(ctx, r)
    g = Geo(r)
    for f in (frequencies, times, resistivities, angles, offsets):
        f(ctx, r, g)
    r.done()


def setmin(r, **k):
    s = r.call(U+'set_minimum', **k)
    return s.ok


def reset(r):
    return setmin(r, **dict(zip(NAMES, DEF)))


def setget(ctx, r):
    fn = U+'set_minimum'
    keep = {k: r.N('keep_'+k, .5) for k in NAMES}
    new = {k: r.N('new_'+k, .25) for k in NAMES}
    g = r.call(U+'get_minimum')
    want(ctx, r, g, dict(zip(NAMES, DEF)), 'defaults')
    for n in range(6):
        for sub in itertools.combinations(NAMES, n):
            for none in (False, True):
                setmin(r, **keep)
                k = {q: new[q] for q in sub}
                if none:
                    k.update({q: None for q in NAMES if q not in sub})
                s = r.call(fn, **k)
                if not s.ok:
                    ctx.undec(f'{sub}: {exc_name(s.exc)}')
                    continue
                want(ctx, r, r.call(U+'get_minimum'), {**keep, **k} if not none
                     else {**keep, **{q: new[q] for q in sub}}, f'set {sub}')
    for q in NAMES:
        setmin(r, **keep)
        s = r.call(fn, **{q: 0.})
        want(ctx, r, r.call(U+'get_minimum'), {**keep, q: 0.}, f'{q} = 0')
    setmin(r, **keep)
    s = r.call(fn, *[new[q] for q in NAMES])
    want(ctx, r, r.call(U+'get_minimum'), new, 'positional')
    # what was returned earlier is not a handle on the settings
    s = r.call(U+'get_minimum')
    if s.ok and isinstance(s.value, DictV):
        s.value.items['min_off'] = 7.
        want(ctx, r, r.call(U+'get_minimum'), new, 'changed copy')
    reset(r)


def want(ctx, r, s, d, key):
    fn = U+'get_minimum'
    if not s.ok or not isinstance(s.value, DictV):
        return ctx.undec(f'{key}: {exc_name(s.exc)}')
    r.holds(key, set(s.value.items) == set(NAMES),
            f'get_minimum returns {sorted(s.value.items)}', fn)
    for k in NAMES:
        if k in s.value.items:
            r.eq(f'{key}:{k}', r.w.arr([s.value.items[k]]), r.w.arr([d[k]]),
                 f'get_minimum: {k} is not what was set ({key})', fn)


def both(ctx, r, key, what, fn, mins, low, ref, below=True):
    """fn(**low) under the minima equals fn(**ref) under the defaults."""
    reset(r)
    b = r.call(fn, **ref)
    if not setmin(r, **mins):
        return ctx.undec(f'{key}: set_minimum')
    a = r.call(fn, **low)
    # and again: the inputs are not remembered
    reset(r)
    r.eq(key, a, b, what, fn)
    # a replaced value is reported from verbosity 1 on, nothing else is
    setmin(r, **mins)
    n = [r.call(fn, **{**k, 'verb': 1}) for k in (low, ref)]
    reset(r)
    if all(q.ok for q in n):
        n = [len(q.kinds('print')) for q in n]
        r.holds(key+':warn', (n[0] > n[1]) == below, f'{fn}: verb=1 '
                f'prints {n[0]} messages with values below the minimum, '
                f'{n[1]} without', fn)
    c = r.call(fn, **ref)
    r.eq(key+':reset', c, b, f'{fn}: response changes after the minima are '
         'set back', fn)


def small(r, n=1):
    return dict(depth=r.L(), res=r.N('res0', 2.)) if n == 1 else {
        k: v for k, v in r.model(n).items() if k in ('depth', 'res')}


def routines(r, g):
    sh = dict(src=r.L(*g.src), rec=r.L(*g.rec), verb=0)
    bp = dict(src=r.L(*g.src, g.sa, g.sd), rec=r.L(*g.rec, g.ra, g.rd),
              verb=0)
    yield M+'dipole', dict(sh, **small(r, 2)), 'freqtime'
    yield M+'bipole', dict(bp, **small(r)), 'freqtime'
    yield M+'loop', dict(bp, **small(r)), 'freqtime'
    yield M+'analytical', dict(sh, res=r.N('res0', 2.)), 'freqtime'
    yield M+'dipole_k', dict(sh, wavenumber=r.N('wn', .01), **small(r, 2)), \
        'freq'


CASES = ((1., ), (9., ), (1., 9.), (9., 1., 1.5), (4., 9.), (4., ))


def frequencies(ctx, r, g):
    for fn, kw, name in routines(r, g):
        for cs in CASES:
            if not ctx.mine():
                continue
            m = r.N('minimum', 4.)
            f = [m if c == 4 else r.N(f'f{c:g}', c) for c in cs]
            t = [m if c < 4 else v for c, v in zip(cs, f)]
            p, q = ((v[0] if len(cs) == 1 else r.L(*v)) for v in (f, t))
            both(ctx, r, f'{fn}:freq:{cs}', f'{fn}: frequencies below the '
                 'minimum are not taken as the minimum', fn,
                 dict(min_freq=m), {**kw, name: p}, {**kw, name: q},
                 min(cs) < 4)


def times(ctx, r, g):
    for fn, kw, name in list(routines(r, g))[:4]:
        if 'analytical' in fn:
            kw = dict(kw, solution='dhs')
        else:
            kw = dict(kw, ft='dlf', ftarg=DictV({'pts_per_dec': 0}))
        for cs in CASES:
            for sig in (0, 1, -1):
                if not ctx.mine() or sig and cs != CASES[2]:
                    continue
                m = r.N('minimum', 4.)
                f = [m if c == 4 else r.N(f't{c:g}', c) for c in cs]
                t = [m if c < 4 else v for c, v in zip(cs, f)]
                p, q = ((v[0] if len(cs) == 1 else r.L(*v)) for v in (f, t))
                both(ctx, r, f'{fn}:time:{cs}:{sig}', f'{fn}: times below the '
                     'minimum are not taken as the minimum', fn,
                     dict(min_time=m), {**kw, name: p, 'signal': sig},
                     {**kw, name: q, 'signal': sig}, min(cs) < 4)
    if ctx.mine():
        waveform(ctx, r, g)


def waveform(ctx, r, g):
    """Quadrature times of a waveform below min_time."""
    from .c34 import gauss, base
    fn = M+'dipole'
    m = r.N('minimum', .5)
    t, n, a, b = (r.N(k, c) for k, c in zip(('tw', 'n1', 'Ia', 'Ib'), (
        1.001, 1., 3., 5.)))
    xs, ws = gauss(r, 2)
    half = r.op('/', n, 2.)
    mid = r.sub(t, half)
    pts = [r.sub(mid, r.mul(half, x)) for x in xs]
    low = [r.eng.cval(p) < .5 for p in pts]
    reset(r)
    ref = r.call(fn, freqtime=r.L(*[m if k else p for k, p in zip(low, pts)]),
                 signal=0, **base(r))
    setmin(r, min_time=m)
    got = r.call(fn, freqtime=t, signal=DictV(dict(
        nodes=r.L(0., n), amplitudes=r.L(a, b), nquad=2)), **base(r))
    reset(r)
    if not ref.ok or not isinstance(ref.value, Arr) or ref.value.a is None:
        return ctx.undec(f'waveform: {exc_name(ref.exc)}')
    v = 0.
    for w, q in zip(ws, ref.value.a.reshape(-1)):
        v = r.sub(v, r.mul(r.mul(w, q), r.op('/', r.mul(
            half, r.sub(b, a)), n)))
    r.eq('waveform', got, r.w.arr([v]), 'waveform: quadrature times below '
         'the minimum are not taken as the minimum', fn)


def resistivities(ctx, r, g):
    m = r.N('minimum', 4.)
    for fn, kw, name in routines(r, g):
        f = {name: r.N('freq', 1.)}
        for cs in ((1., 9., 5.), (9., 1., 1.5), (1., 1.5, 2.), (7., 9., 6.),
                   (4., 9., 6.)):
            if not ctx.mine():
                continue
            n = 1 if 'analytical' in fn else 3
            v = [m if c == 4 else r.N(f'r{c:g}', c) for c in cs[:n]]
            t = [m if c < 4 else q for c, q in zip(cs, v)]
            mod = {} if n == 1 else dict(depth=r.depth(3))
            p, q = ((x[0] if n == 1 else r.L(*x)) for x in (v, t))
            both(ctx, r, f'{fn}:res:{cs}', f'{fn}: resistivities below the '
                 'minimum are not taken as the minimum', fn,
                 dict(min_res=m), {**kw, **f, **mod, 'res': p},
                 {**kw, **f, **mod, 'res': q}, min(cs[:n]) < 4)
        if 'analytical' in fn or not ctx.mine():
            continue
        # vertical resistivity aniso^2 res below the minimum
        R = [r.N(f'R{i}', 9.+i) for i in range(3)]
        A = [r.N(f'A{i}', c) for i, c in enumerate((.1, 1.5, 2.))]
        B = [r.eng.sun('sqrt', r.op('/', m, R[0])), A[1], A[2]]
        x = dict(kw, **f, depth=r.depth(3), res=r.L(*R))
        both(ctx, r, f'{fn}:aniso', f'{fn}: vertical resistivities below the '
             'minimum are not taken as the minimum', fn, dict(min_res=m),
             dict(x, aniso=r.L(*A)), dict(x, aniso=r.L(*B)))


def angles(ctx, r, g):
    """Direction factors below min_angle are dropped."""
    fn = M+'bipole'
    F = dict(small(r), freqtime=r.N('freq', 1.), verb=0)
    m = r.N('minimum', .3)
    # azimuth/dip of the source: factors (.96, .05, .28) in turn
    dirs = ((5., 2.), (88., 3.), (40., 4.), (3., 86.), (20., 50.),
            (175., 4.), (-60., -25.), (95., -85.))
    for (a, d) in dirs:
        for (b, e) in dirs[:4] + dirs[5:7]:
            if not ctx.mine():
                continue
            s = (r.N(f'a{a}', a), r.N(f'd{d}', d))
            q = (r.N(f'b{b}', b), r.N(f'e{e}', e))
            ws = dircos(r, rad(r, s[0]), rad(r, s[1]))
            wq = dircos(r, rad(r, q[0]), rad(r, q[1]))
            cs, cq = cosines(a, d), cosines(b, e)
            reset(r)
            tot = ZERO
            for i in range(3):
                for j in range(3):
                    if abs(cs[j]*cq[i]) < .3:
                        continue
                    v = r.call(M+'dipole', ab=10*(i+1)+j+1,
                               src=r.L(*g.src), rec=r.L(*g.rec), **F)
                    v = r.fs(v.value)[0] if v.ok else None
                    w = r.g.mul(wq[i], ws[j])
                    tot = None if None in (v, w, tot) else r.g.add(
                        tot, r.g.mul(w, v))
            setmin(r, min_angle=m)
            got = r.call(fn, src=r.L(*g.src, *s), rec=r.L(*g.rec, *q), **F)
            reset(r)
            if tot is not None and tot.zero:
                continue
            r.eq(f'angle:{a}:{d}:{b}:{e}', got, [tot], 'bipole: components '
                 'with a direction factor below the minimum are not exactly '
                 'those left out', fn)


def cosines(a, d):
    import math
    a, d = math.radians(a), math.radians(d)
    return (math.cos(a)*math.cos(d), math.sin(a)*math.cos(d), math.sin(d))


def offsets(ctx, r, g):
    """Offsets below min_off count as min_off, in the same direction."""
    m = r.w.num('minimum', c=40., vn=rpos('minimum').v)
    z = [r.N('zs', 10.), r.N('zr', 25.)]
    x, y = r.N('x', 3.), r.N('y', 4.)
    r.g.qr = True
    o = r.eng.sun('sqrt', r.add(r.mul(x, x), r.mul(y, y)))
    far = [r.op('/', r.mul(m, v), o) for v in (x, y)]
    X, Y = r.N('X', 300.), r.N('Y', 400.)
    for fn, kw, name in routines(r, g):
        if 'loop' in fn:
            continue
        kw = {k: v for k, v in kw.items() if k not in ('src', 'rec')}
        kw[name] = r.N('freq', 1.)
        e = (g.sa, g.sd), (g.ra, g.rd)
        e = e if 'bipole' in fn else ((), ())
        for more in ((), ((X, Y), )):
            if not ctx.mine():
                continue
            if more and 'bipole' in fn:
                e = e[0], (g.ra, g.rd)
            pos = []
            for v in ((x, y), tuple(far)):
                p = [v, *more]
                c = [r.L(*[q[i] for q in p]) if more else p[0][i]
                     for i in range(2)]
                pos.append(dict(src=r.L(0., 0., z[0], *e[0]),
                                rec=r.L(*c, z[1], *e[1])))
            both(ctx, r, f'{fn}:off:{len(more)}', f'{fn}: offsets below the '
                 'minimum are not taken as the minimum in the same direction',
                 fn, dict(min_off=m), {**kw, **pos[0]}, {**kw, **pos[1]})
    r.g.qr = False


