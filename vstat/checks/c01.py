"""Inputs are never modified.

Every array/list/dict handed to a public routine carries an owner label.  The
abstract interpreter propagates labels through views, slices, aliases,
containers and calls; each in-place operation (augmented assignment on an
array, item/attribute store, list/dict mutator, out=) is an obligation: the
target's labels must not contain an input label.
"""
from ..cases import *

LEVEL = 'other'
ASSUME = ['numpy/scipy copy-vs-view behaviour as modelled in npmodel.py',
          'user callbacks (res hooks, bandpass) are outside the guarantee']


def report(ctx, r, name):
    for e in r.kinds('mutate'):
        for l in e.data:
            if l.startswith('in:'):
                ctx.violation(
                    f'{e.mod}.{e.func}:{l[3:]}',
                    f'input `{l[3:]}` is modified in place ({e.detail}) on '
                    f'call path of {name}', e.where())


def core_cases(w):
    """Direct calls of the building blocks, with caller-owned arrays."""
    m = Maker(w, 'array')
    c = lambda n, sh: Arr(full(sh, w.num(n, dt='c')), 'c',
                          frozenset({'in:'+n}))
    f = lambda n, *v: w.arr([w.num(n, c=i) for i in v], own='in:'+n)
    T = 'empymod.transform.'
    
    filt = lambda k: w.eng.getattr(w.eng.call(w.get(
        'empymod.filters.' + k), [], {}), 'key_201_2012')
    ctl = m.w.eng.call
    for sig in (0, -1):
        for ft in ('dlf', 'dlflag', 'dlfspl', 'qwe', 'fftlog', 'fft',
                   'fftspl'):
            kw = ft_opts(m, ft)
            tt = f('time', .01, 10.)
            r = w.call('empymod.utils.check_time', tt, sig, kw['ft'],
                       kw['ftarg'], 0, True)
            if not r.ok:
                continue
            tm, fr, ftn, targ, _ = [w.eng.getitem(r.value, i)
                                    for i in range(5)]
            n = fr.a.size if isinstance(fr, Arr) and fr.a is not None else 4
            fr = Arr(full((n,), w.num('freq')), 'f', frozenset({'in:freq'}))
            targ.own = 'in:ftarg'
            yield (f'fourier_{ftn}[{ft},{sig}]', T+'fourier_'+ftn,
                   dict(fEM=c('fEM', (n,)), time=tm, freq=fr, ftarg=targ))
    yield ('qwe', T+'qwe', dict(
        rtol=1e-8, atol=1e-20, maxint=3, inp=c('inp', (2, 3)),
        intervals=w.arr([w.num('intervals') for i in range(8)], (2, 4), own='in:intervals')))
    eta = lambda n: c(n, (2, 3))
    ker = dict(zsrc=250., zrec=300., lsrc=1, lrec=1,
               depth=f('depth', -INF, 0., 1000.))
    for n in ('etaH', 'etaV', 'zetaH', 'zetaV'):
        ker[n] = eta(n)
    for ab in (11, 13, 31, 33, 14, 16, 34):
        yield (f'wavenumber-{ab}', 'empymod.kernel.wavenumber',
               dict(ker, lambd=Arr(full((2, 2), w.num('lambd')), 'f',
                                   frozenset({'in:lambd'})), ab=ab,
                    xdirect=False, msrc=False, mrec=(ab == 16)))
        yield (f'angle-{ab}', 'empymod.kernel.angle_factor',
               dict(angle=f('angle', .1, .2), ab=ab, msrc=False,
                    mrec=True))
    one = {k: c(k, (2,)) for k in ('etaH', 'etaV', 'zetaH', 'zetaV')}
    for ab in (11, 33, 14):
        yield (f'fullspace-{ab}', 'empymod.kernel.fullspace',
               dict(off=f('off', 100., 200.), angle=f('angle', .1, .2),
                    zsrc=250., zrec=300., **one, ab=ab, msrc=False,
                    mrec=False))
    for s in (None, 0, 1, -1):
        for sol in ('dhs', 'dsplit', 'dtetm'):
            ft = Arr(full((2, 1), w.num('freqtime', dt='c' if s is None
                                        else 'f')),
                     'c' if s is None else 'f', frozenset({'in:freqtime'}))
            e2 = {k: c(k, (2, 1)) for k in ('etaH', 'etaV')}
            yield (f'halfspace-{s}-{sol}', 'empymod.kernel.halfspace',
                   dict(off=f('off', 100., 200.), angle=f('angle', .1, .2),
                        zsrc=250., zrec=300., **e2, freqtime=ft, ab=11,
                        signal=s, solution=sol))
    base = dict(ker, off=f('off', 100., 200.), freq=f('freq', 1., 2.))
    for ht in HT:
        ho = ht_opts(m, ht)
        r = w.call('empymod.utils.check_hankel', ho['ht'], ho['htarg'], 0)
        if not r.ok:
            continue
        targ = w.eng.getitem(r.value, 1)
        targ.own = 'in:htarg'
        yield (f'fem-{ht}', 'empymod.model.fem', dict(
            ab=11, angle=f('angle', .1, .2), **base, xdirect=True,
            isfullspace=False, ht=ho['ht'], htarg=targ, msrc=False,
            mrec=False, loop_freq=ht != 'dlf', loop_off=False))
        yield (f'hankel-{ht}', f'{T}hankel_{ho["ht"]}', dict(
            {k: v for k, v in base.items() if k not in (
                'freq', 'etaH', 'etaV', 'zetaH', 'zetaV')},
            **{k: c(k, (1, 3)) for k in ('etaH', 'etaV', 'zetaH', 'zetaV')},
            ang_fact=f('ang_fact', .3, .4), ab=11, xdirect=False,
            htarg=targ, msrc=False, mrec=False))


def other_cases(w, form):
    m = Maker(w, form)
    yield ('save_input', 'empymod.io.save_input',
           dict(fname='x.json', data=w.dct(own='in:data',
                                           src=m.vec('data', SRC))))
    for ext in ('txt', 'json'):
        for dt in 'fc':
            yield (f'save_data-{ext}-{dt}', 'empymod.io.save_data',
                   dict(fname='x.'+ext, data=Arr(
                       full((2, 2, 1), w.num('data', dt=dt)), dt,
                       frozenset({'in:data'}))))
    fi = w.eng.call(w.get('empymod.scripts.fdesign.j0_1'), [], {})
    yield ('design', 'empymod.scripts.fdesign.design',
           dict(n=5, spacing=m.vec('spacing', [.01, .2, 3]),
                shift=m.vec('shift', [-4., 0., 3]), fI=fi,
                r_def=m.vec('r_def', [1., 1., 2.]), save=False, plot=0,
                verb=0))
    for k in ('check_dipole', 'check_bipole'):
        yield (k, 'empymod.utils.'+k,
               dict(inp=m.coords('inp', SRC if k == 'check_dipole' else
                                 SRC+[0., 0.]), name='src', verb=0))


def check(ctx):
    ctx.rule('no in-place effect reaches an object owned by the caller')
    forms = ['list', 'array'] if ctx.quick else ['list', 'array', 'mixed']
    w = World(ctx.repo, modules=['empymod.__main__',
                                 'empymod.scripts.fdesign',
                                 'empymod.scripts.tmtemod'])
    for form in forms:
        for gen in (public_cases(w, form, ctx.quick),
                    res_hook_cases(w, form), other_cases(w, form)):
            for name, fn, kw in gen:
                if not ctx.mine():
                    continue
                r = w.call(fn, **kw)
                ctx.scenarios += 1
                if not r.ok:
                    ctx.undec(f'{name}: {exc_name(r.exc)}')
                report(ctx, r, name)
    for name, fn, kw in core_cases(w):
        if not ctx.mine():
            continue
        r = w.call(fn, **kw)
        ctx.scenarios += 1
        if not r.ok:
            ctx.undec(f'{name}: {exc_name(r.exc)}')
        report(ctx, r, name)
    ctx.ok(w.eng.mutations)
    ctx.covered(w.eng)
