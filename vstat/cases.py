"""Library of abstract calls that covers the public routines and options."""
from .scen import *
from .values import *


class Maker:
    """Builds labelled inputs; form: 'list', 'array' or 'mixed'."""

    def __init__(self, w, form='list', lab=True, own=True):
        self.w, self.form, self.lab, self.own = w, form, lab, own

    def s(self, label, c=NOC, dt='f', **k):
        return self.w.num(label if self.lab else None, c=c, dt=dt, **k)

    def o(self, name):
        return ('in:' + name) if self.own else None

    def vec(self, name, cs, dt='f'):
        """1-D input called `name` with representative values cs."""
        items = [self.s(f'{name}', c, dt) for c in cs]
        if self.form == 'array':
            return self.w.arr(items, dt=dt, own=self.o(name))
        return self.w.lst(*items, own=self.o(name))

    def coords(self, name, cols):
        """src/rec: list of coordinate entries (scalar or 1-D)."""
        out = []
        for k, c in enumerate(cols):
            if isinstance(c, (list, tuple)):
                it = [self.s(f'{name}', v) for v in c]
                out.append(self.w.arr(it, own=self.o(name))
                           if self.form != 'list' else
                           self.w.lst(*it, own=self.o(name)))
            else:
                out.append(self.s(f'{name}', c))
        if self.form == 'array' and not any(
                isinstance(c, (list, tuple)) for c in cols):
            return self.w.arr(out, own=self.o(name))
        return self.w.lst(*out, own=self.o(name))

    def opts(self, name, d):
        out = {}
        for k, v in d.items():
            if isinstance(v, list):
                out[k] = (self.w.arr([float(i) for i in v],
                                     own=self.o(name))
                          if self.form != 'list' else
                          self.w.lst(*v, own=self.o(name)))
            else:
                out[k] = v
        return self.w.dct(own=self.o(name), **out)


def model3(m, aniso=True, perm=True, vert=True):
    """Three-layer model."""
    d = dict(depth=m.vec('depth', [0., 1000.]),
             res=m.vec('res', [1e20, .3, 1.]))
    if aniso:
        d['aniso'] = m.vec('aniso', [1., 2., 3.])
    if perm:
        d['epermH'] = m.vec('epermH', [1., 80., 5.])
        d['mpermH'] = m.vec('mpermH', [1., 2., 1.])
        if vert:
            d['epermV'] = m.vec('epermV', [1., 70., 6.])
            d['mpermV'] = m.vec('mpermV', [1., 3., 1.])
    return d


SRC = [0., 0., 250.]
REC = [[100., 200.], [30., 40.], 300.]


def survey(m, src=SRC, rec=REC):
    return dict(src=m.coords('src', src), rec=m.coords('rec', rec))


def ht_opts(m, ht, **over):
    return dict(ht=base_name(ht), htarg=m.opts('htarg', {**HT[ht], **over}))


def ft_opts(m, ft, **over):
    return dict(ft=base_name(ft), ftarg=m.opts('ftarg', {**FT[ft], **over}))


def waveform(m):
    return m.w.dct(own=m.o('signal'), nodes=m.vec('signal', [-.1, 0., .2]),
                   amplitudes=m.vec('signal', [0., 1., 1.]), signal=0)


def public_cases(w, form='list', quick=True, verb=None):
    """Yield (name, function, kwargs) over routines and options."""
    m = Maker(w, form)
    freq = lambda: m.vec('freqtime', [1., 2.])
    time = lambda: m.vec('freqtime', [.01, 10.])
    D = 'empymod.model.'

    def base(**k):
        d = {**survey(m), **model3(m)}
        if verb is not None:
            d['verb'] = verb
        d.update(k)
        return d

    for ht in HT:
        yield (f'dipole-freq-{ht}', D+'dipole',
               base(freqtime=freq(), **ht_opts(m, ht)))
    yield ('dipole-freq-dlfspl', D+'dipole',
           base(freqtime=freq(), **ht_opts(m, 'dlf', pts_per_dec=2)))
    yield ('dipole-freq-dlflag', D+'dipole',
           base(freqtime=freq(), **ht_opts(m, 'dlf', pts_per_dec=-1)))
    for lo in ('off', 'freq'):
        yield (f'dipole-loop-{lo}', D+'dipole',
               base(freqtime=freq(), loop=lo, **ht_opts(m, 'dlf')))
    for ab in (33, 36, 41, 66, 46):
        yield (f'dipole-ab{ab}', D+'dipole',
               base(freqtime=freq(), ab=ab, xdirect=True,
                    **ht_opts(m, 'dlf')))
    yield ('dipole-laplace', D+'dipole',
           base(freqtime=m.vec('freqtime', [-1., -2.]), **ht_opts(m, 'dlf')))
    yield ('dipole-reversed', D+'dipole',
           base(freqtime=freq(), **ht_opts(m, 'dlf'),
                depth=m.vec('depth', [1000., 0.])))
    yield ('dipole-inf-depth', D+'dipole',
           base(freqtime=freq(), **ht_opts(m, 'dlf'),
                depth=m.vec('depth', [-INF, 0., 1000., INF])))
    for ft in FT:
        for sig in (0, 1, -1) if not quick or ft in ('dlf', 'fftlog') \
                else (0, -1):
            yield (f'dipole-time-{ft}-{sig}', D+'dipole',
                   base(freqtime=time(), signal=sig, **ht_opts(m, 'dlf'),
                        **ft_opts(m, ft)))
    yield ('dipole-waveform', D+'dipole',
           base(freqtime=time(), signal=waveform(m), **ht_opts(m, 'dlf'),
                **ft_opts(m, 'dlf')))
    yield ('dipole-fullspace', D+'dipole',
           dict(survey(m), depth=m.vec('depth', []), res=m.vec('res', [2.]),
                freqtime=freq(), xdirect=True,
                **({} if verb is None else {'verb': verb})))
    # bipole geometries
    geo = {
        'dip1': ([0., 0., 250., 10., 20.], [[100., 200.], [30., 40.], 300.,
                                            0., 90.]),
        'dip2': ([0., 0., 250., 0., 0.], [[100., 200.], [30., 40.],
                                          [300., 310.], 0., 0.]),
        'srcz': ([[0., 5.], [0., 5.], [250., 260.], 0., 0.],
                 [[100., 200.], [30., 40.], 300., 0., 0.]),
        'bip': ([0., 10., 0., 0., 250., 250.],
                [[100., 200.], [110., 210.], [30., 40.], [30., 40.],
                 300., 300.]),
        'bipz': ([0., 10., 0., 5., 250., 260.],
                 [[100., 200.], [110., 210.], [30., 40.], [35., 45.],
                  [300., 310.], [305., 315.]]),
    }
    for g, (s, r) in geo.items():
        for k in (dict(), dict(msrc=True, mrec=True, strength=5., srcpts=3,
                               recpts=3)):
            if quick and k and g == 'srcz':
                continue
            yield (f'bipole-{g}{"-m" if k else ""}', D+'bipole',
                   base(src=m.coords('src', s), rec=m.coords('rec', r),
                        freqtime=freq(), **ht_opts(m, 'dlf'), **k))
    for k in ('j', 'b', 'loop'):
        yield (f'bipole-rec-{k}', D+'bipole',
               base(src=m.coords('src', geo['dip2'][0]),
                    rec=m.coords('rec', geo['dip2'][1]), freqtime=freq(),
                    mrec=k, msrc=('b' if k == 'b' else False),
                    **ht_opts(m, 'dlf')))
    yield ('loop', D+'loop',
           base(src=m.coords('src', geo['dip2'][0]),
                rec=m.coords('rec', geo['dip2'][1]), freqtime=freq(),
                **ht_opts(m, 'dlf')))
    one = dict(res=m.vec('res', [.3]), aniso=m.vec('aniso', [2.]))
    vb = {} if verb is None else {'verb': verb}
    for sol, sig in (('fs', None), ('dfs', None), ('dfs', 0), ('dhs', None),
                     ('dhs', 0), ('dhs', 1), ('dhs', -1), ('dsplit', None),
                     ('dtetm', 1)):
        for ab in ((11, 33) if quick else (11, 12, 13, 23, 31, 33)):
            yield (f'analytical-{sol}-{sig}-{ab}', D+'analytical',
                   dict(survey(m), **one, solution=sol, signal=sig, ab=ab,
                        freqtime=w.arr([m.s('freqtime', 1.),
                                        m.s('freqtime', 2.)],
                                       own=m.o('freqtime')), **vb))
    yield ('gpr', D+'gpr',
           base(freqtime=time(), cf=250e6, gain=2., **ht_opts(m, 'dlf'),
                ftarg=m.opts('ftarg', dict(nfreq=3, ntot=4))))
    for ab in (11, 42, 66, 33):
        yield (f'dipole_k-{ab}', D+'dipole_k',
               {**base(), 'freq': m.vec('freq', [1., 2.]),
                'wavenumber': w.arr([m.s('wavenumber', .01),
                                     m.s('wavenumber', .02)],
                                    own=m.o('wavenumber')), 'ab': ab})
    yield ('ip_and_q', D+'ip_and_q',
           base(freqtime=freq(), ab=46, scale=1e3, **ht_opts(m, 'dlf')))
    yield ('tmtemod', 'empymod.scripts.tmtemod.dipole',
           dict(survey(m), depth=m.vec('depth', [0., 1000.]),
                res=m.vec('res', [1e20, .3, 1.]),
                freqtime=m.vec('freqtime', [1.]),
                aniso=m.vec('aniso', [1., 1., 1.]), **vb))


def res_hook_cases(w, form='array'):
    """Models whose eta/zeta come from user callbacks (Cole-Cole style)."""
    m = Maker(w, form)

    def cb(eng, a, kw):
        res, loc = a[0], a[1]
        return TupleV((eng.getitem(loc, 'etaH'), eng.getitem(loc, 'etaV')))

    def cb2(eng, a, kw):
        res, loc = a[0], a[1]
        return TupleV((eng.getitem(loc, 'zetaH'), eng.getitem(loc, 'zetaV')))

    for name, top, rest in (('', [0., 1000.], {}),
                            ('-reversed', [1000., 0.], {}),
                            ('-bipole', [1000., 0.], {'verb': 4})):
        d = w.dct(own='in:res', res=m.vec('res', [1e20, .3, 1.]),
                  tau=m.vec('res', [1., 2., 3.]))
        d.items['func_eta'] = Native(cb, 'func_eta')
        if name:
            d.items['func_zeta'] = Native(cb2, 'func_zeta')
        k = dict(survey(m), depth=m.vec('depth', top), res=d,
                 freqtime=m.vec('freqtime', [1., 2.]), **ht_opts(m, 'dlf'),
                 **rest)
        fn = 'dipole'
        if name == '-bipole':
            fn = 'bipole'
            k['src'] = m.coords('src', [0., 0., 250., 10., 20.])
            k['rec'] = m.coords('rec', [[100., 200.], [30., 40.], 300.,
                                        0., 90.])
        yield f'{fn}-func_eta{name}', f'empymod.model.{fn}', k


__all__ = [n for n in dir() if not n.startswith('__')]
