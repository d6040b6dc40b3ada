"""Documented defaults: leaving an option out is giving its default.

(a) Modelling routines: value numbers with the option omitted and given with
the documented default are compared.  (b) Transform options: what
check_hankel/check_time return for omitted options are the documented numbers,
and a given option is handed on unchanged, in the right slot.
"""
from ..rel import *
from .c16 import fails

LEVEL = 'other'
M = 'empymod.model.'

# documented defaults of the transform options
HANKEL = {
    'dlf': dict(pts_per_dec=0),
    'qwe': dict(rtol=1e-12, atol=1e-30, nquad=51, maxint=100, pts_per_dec=0,
                diff_quad=100, a=None, b=None, limit=None),
    'quad': dict(rtol=1e-12, atol=1e-20, limit=500, a=1e-6, b=.1,
                 pts_per_dec=40),
}
FOURIER = {
    'dlf': dict(pts_per_dec=-1),
    'qwe': dict(rtol=1e-8, atol=1e-20, nquad=21, maxint=200, pts_per_dec=20,
                diff_quad=100, a=None, b=None, limit=None),
    'fftlog': dict(pts_per_dec=10, add_dec=[-2, 1], q=0),
    'fft': dict(dfreq=.002, nfreq=2048, ntot=2048, pts_per_dec=None),
}
FILTER = {'ht': 'key_201_2009', 'ft': 'key_201_2012'}


def check(ctx):
    ctx.rule('option omitted = documented default given, by value number')
    ctx.rule('transform options: documented defaults, given values unchanged')
    r = Rel(ctx)
    routines(ctx, r)
    for ht, d in HANKEL.items():
        if ctx.mine():
            hankel(ctx, r, ht, d)
    for ft, d in FOURIER.items():
        for sig in (0, 1, -1):
            if ctx.mine():
                fourier(ctx, r, ft, d, sig)
    r.done()


def hankel(ctx, r, ht, d):
    fn = 'empymod.utils.check_hankel'
    for name in (ht, ht.upper(), ht.capitalize()):
        s = r.call(fn, name, DictV({}), 0)
        options(ctx, r, s, ht, d, {}, f'check_hankel:{ht}', fn, 'ht')
    for k in d:
        v = r.N(k, CL.get(k, NOC), typ(k, ht))
        s = r.call(fn, ht, DictV({k: v}), 0)
        options(ctx, r, s, ht, d, {k: v}, f'check_hankel:{ht}:{k}', fn, 'ht')
    al = {k: r.N(k, CL.get(k, NOC), typ(k, ht)) for k in d}
    s = r.call(fn, ht, DictV(dict(reversed(al.items()))), 0)
    options(ctx, r, s, ht, d, al, f'check_hankel:{ht}:all', fn, 'ht')


def typ(k, t):
    return 'i' if k in INT or k == 'pts_per_dec' and t != 'dlf' else 'f'


INT = ('diff_quad', 'nquad', 'maxint', 'limit', 'nfreq', 'ntot')
CL = dict(nquad=5, maxint=7, pts_per_dec=3, limit=9, diff_quad=50., q=.3,
          rtol=1e-5, atol=1e-6, a=.1, b=.5, dfreq=.01, nfreq=5, ntot=8)
GIVE = {'dlf': ('pts_per_dec', ), 'fftlog': ('q', 'pts_per_dec', 'add_dec'),
        'fft': ('dfreq', ),
        'qwe': ('rtol', 'atol', 'diff_quad', 'a', 'b', 'limit')}


def fourier(ctx, r, ft, d, sig):
    fn = 'empymod.utils.check_time'
    t = r.L(r.N('t0', 1.), r.N('t1', 20.))
    for name in (ft, ft.upper()):
        s = r.call(fn, t, sig, name, DictV({}), 0)
        options(ctx, r, part(s), ft, d, {}, f'check_time:{ft}', fn, 'ft')
    for k in GIVE[ft]:
        v = r.N(k, CL.get(k, NOC), typ(k, ft))
        if k == 'add_dec':
            v = r.L(r.N('add0', -1.), r.N('add1', 2.))
        elif ft != 'dlf' and k == 'pts_per_dec':
            v = 3
        s = r.call(fn, t, sig, ft, DictV({k: v}), 0)
        options(ctx, r, part(s), ft, d, {k: v}, f'check_time:{ft}:{k}', fn,
                'ft')
    for over in ({'nquad': 3}, {'maxint': 3}, {'pts_per_dec': 2}) \
            if ft == 'qwe' else ({'nfreq': 5, 'ntot': 8}, {'nfreq': 4}, {
                'nfreq': 8, 'ntot': 4}, {'nfreq': 7, 'ntot': 2}, {
                'pts_per_dec': 2}, {'nfreq': 5}, {'ntot': 4096}) \
            if ft == 'fft' else ():
        s = r.call(fn, t, sig, ft, DictV(dict(over)), 0)
        want = dict(over)
        if ft == 'fft' and 'nfreq' in over and 'ntot' not in over:
            want['ntot'] = 4 if over['nfreq'] == 4 else 8
        elif over.get('ntot', 99) < over.get('nfreq', 0):
            want['ntot'] = 8   # never fewer samples than frequencies
        options(ctx, r, part(s), ft, d, want, f'check_time:{ft}:{over}', fn,
                'ft')


def part(s):
    """(ft, ftarg) of check_time."""
    if s.ok and isinstance(s.value, (TupleV, ListV)) and \
            len(s.value.items) >= 4:
        return Result(TupleV(list(s.value.items[2:4])), None, False, [])
    return s


def options(ctx, r, s, t, d, over, key, fn, kind):
    if not s.ok:
        return fails(ctx, r, s, key, fn, f'{key} fails')
    v = s.value
    if not r.holds(key, isinstance(v, (TupleV, ListV)) and len(
            v.items) == 2 and isinstance(v.items[1], DictV),
            f'{key}: unexpected return {v!r}'[:200], fn):
        return
    name, out = v.items
    r.holds(key+':name', name == t, f'{key} returns the method {name!r}', fn)
    for k, want in d.items():
        want = over.get(k, want)
        if not r.holds(f'{key}:{k}', k in out.items, f'{key}: no {k}', fn):
            continue
        got = out.items[k]
        if want is None:
            r.holds(f'{key}:{k}', got is None, f'{key}: {k} is {got!r}, '
                    f'documented is None', fn)
            continue
        w = want.items if isinstance(want, ListV) else want
        r.eq(f'{key}:{k}', got if isinstance(got, Arr) else ListV([got]),
             r.w.arr(w if isinstance(w, list) else [w]),
             f'{key}: {k} is not the {"given" if k in over else "documented"}'
             f' value', fn)
    if t == 'dlf':
        f = out.items.get('dlf')
        r.holds(f'{key}:dlf', isinstance(f, InstV) and f.attrs.get(
            'name') == FILTER[kind], f'{key}: default filter is not '
            f'{FILTER[kind]}', fn)


def routines(ctx, r):
    g = Geo(r)
    for n in (1, 3):
        m = {k: v for k, v in r.model(n).items() if k in ('depth', 'res')}
        ones = lambda: r.L(*[1.]*n)
        layer = {k: ones for k in ('aniso', 'epermH', 'epermV', 'mpermH',
                                   'mpermV')}
        mod = {k: (lambda v=v: v) for k, v in (
            ('verb', 2), ('xdirect', False), ('loop', None),
            ('squeeze', True), ('bandpass', None), ('signal', None),
            ('ht', 'dlf'))}
        mod['htarg'] = lambda: DictV(dict(dlf=FILTER['ht'], pts_per_dec=0))
        fr = lambda: r.N('freq', 1.)
        base = dict(src=r.L(*g.src), rec=r.L(*g.rec), freqtime=fr(), **m)
        bp = dict(base, src=r.L(*g.src, g.sa, g.sd),
                  rec=r.L(*g.rec, g.ra, g.rd))
        cases = [
            (M+'dipole', base, {**layer, **mod, 'ab': lambda: 11}),
            (M+'bipole', bp, {**layer, **mod, **{
                k: (lambda v=v: v) for k, v in (
                    ('msrc', False), ('mrec', False), ('srcpts', 1),
                    ('recpts', 1), ('strength', 0))}}),
            (M+'dipole_k', dict(src=base['src'], rec=base['rec'], **m,
                                freq=fr(), wavenumber=r.N('wn', .01)),
             {**layer, 'ab': lambda: 11, 'verb': lambda: 2}),
        ]
        if n == 3:
            lp = {k: v for k, v in cases[1][2].items() if k not in ('msrc',)}
            cases.append((M+'loop', bp, {**{
                k: v for k, v in lp.items()}, 'mrec': lambda: True}))
            t = dict(base, freqtime=r.N('t0', 1.), signal=1)
            tm = {**{k: v for k, v in mod.items() if k != 'signal'},
                  'ft': lambda: 'dlf', 'ftarg': lambda: DictV(dict(
                      dlf=FILTER['ft'], pts_per_dec=-1))}
            cases.append((M+'dipole', t, tm))
            cases.append((M+'gpr', dict(
                base, freqtime=r.N('t0', 1e-8), cf=r.N('cf', 1e8), ft='fft',
                ftarg=DictV({'nfreq': 3, 'ntot': 4}), ht='dlf', htarg=DictV(
                    {'pts_per_dec': 0})),
                {**layer, 'ab': lambda: 11, 'gain': lambda: None,
                 'verb': lambda: 2, 'xdirect': lambda: False,
                 'loop': lambda: None}))
            cases.append(('empymod.scripts.tmtemod.dipole', dict(
                base, src=r.L(r.N('x', 0.), r.N('y', 0.), r.N('sz', 250.)),
                rec=r.L(g.rec[0], g.rec[1], r.N('rz3', 300.))), {
                    k: layer[k] for k in ('aniso', )} | {
                    'verb': lambda: 2}))
        else:
            s = dict(src=base['src'], rec=base['rec'], res=r.N('rs', 3.),
                     freqtime=fr())
            cases.append((M+'analytical', s, {
                **{k: (lambda: 1.) for k in layer}, 'ab': lambda: 11,
                'solution': lambda: 'fs', 'signal': lambda: None,
                'verb': lambda: 2, 'squeeze': lambda: True}))
        r.eng.load('empymod.scripts.tmtemod')
        for fn, kw, opts in cases:
            # the defaults shared by the reference are given one by one
            ref = None
            for k in [None, 'ALL'] + list(opts):
                if k is not None and not ctx.mine():
                    continue
                if ref is None:
                    ref = r.call(fn, **kw)
                    said = len(ref.kinds('print'))
                    if not ref.ok:
                        fails(ctx, r, ref, fn, fn, f'{fn} fails without '
                              'optional arguments')
                        break
                if k is None:
                    continue
                add = {q: v() for q, v in opts.items()
                       if k in ('ALL', q)}
                s = r.call(fn, **kw, **add)
                r.eq(f'{fn}:{k}', s, ref, f'{fn.split(".")[-1]} with {k} = '
                     f'documented default differs from leaving it out', fn)
                if k == 'verb' and s.ok:
                    r.holds(f'{fn}:verb:print', len(s.kinds('print')) == said,
                            'verb = 2 (documented default) does not print '
                            'the same as leaving verb out', fn)
                if s.ok and ref.ok:
                    r.holds(f'{fn}:{k}:shape', r.eng.shape(s.value)
                            == r.eng.shape(ref.value) if isinstance(
                                s.value, Arr) else True,
                            f'{k} given or left out changes the shape', fn)
