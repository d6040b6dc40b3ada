"""Invalid surveys, models and options are rejected.

Each routine is interpreted with inputs that break one rule of its
documentation, everything else symbolic and valid.  Every path must end in an
exception; the valid neighbour of each case must be accepted.
"""
from ..rel import *

LEVEL = 'other'
M = 'empymod.model.'
TM = 'empymod.scripts.tmtemod.dipole'


def check(ctx):
    ctx.rule('invalid input: every path raises')
    ctx.rule('valid neighbour: accepted')
    r = Rel(ctx, modules=['empymod.scripts.tmtemod'])
    for fn, base, good, bad in tables(r):
        short = fn.split('.', 1)[1]
        for tag, ch in [('base', {})] + good:
            if not ctx.mine():
                continue
            kw = merge(base, ch)
            s = r.call(fn, **kw)
            if s.ok:
                ctx.ok()
            elif s.dead or getattr(s.exc, 'imprecise', False):
                ctx.undec(f'{short}:{tag}: {exc_name(s.exc)}')
            else:
                ctx.violation(f'{short}:good:{tag}', f'{short} rejects valid '
                              f'input ({tag}): {exc_name(s.exc)} '
                              f'{getattr(s.exc, "args", "")}'[:300], fn)
        for tag, ch in bad:
            if not ctx.mine():
                continue
            s = r.call(fn, **merge(base, ch))
            if s.exc is None:
                ctx.violation(f'{short}:bad:{tag}', f'{short} accepts invalid'
                              f' input ({tag}) and returns a result', fn)
            elif getattr(s.exc, 'imprecise', False):
                ctx.undec(f'{short}:{tag}: {exc_name(s.exc)}')
            else:
                ctx.ok()
    r.done()


def merge(base, ch):
    kw = {k: v for k, v in {**base, **ch}.items() if v is not ABSENT}
    return {k: v() if callable(v) and not isinstance(
        v, (Native, FuncV)) else v for k, v in kw.items()}


def tables(r):
    N, L = r.N, r.L
    vec = lambda n, c, k: L(*[N(f'{n}{i}', c+10*i) for i in range(k)])
    nest = L(vec('q', 1., 2), vec('p', 5., 2))
    z = lambda k, c=300.: vec('z', c, k)
    one = lambda n, c: N(n, c)

    # --- models, common to all layered routines
    def layered(nl=3):
        return dict(depth=vec('d', 0., nl-1), res=vec('res', 1., nl))
    par = ('aniso', 'epermH', 'epermV', 'mpermH', 'mpermV')
    good_m = [
        ('depth down', dict(depth=L(N('d1', 10.), N('d0', 0.)))),
        ('depth inf', dict(depth=L(-float('inf'), N('d0', 0.), N('d1', 10.)))),
        ('depth +inf', dict(depth=L(N('d0', 0.), N('d1', 10.),
                                    float('inf')))),
        ('fullspace', dict(depth=L(), res=N('res', 1.))),
        ('no depth', dict(depth=None, res=L(N('res', 1.)))),
        ('all parameters', {p: vec(p, 1., 3) for p in par}),
        ('scalar depth', dict(depth=N('d0', 0.), res=vec('res', 1., 2))),
    ]
    bad_m = [
        ('depth zigzag', dict(depth=L(N('d0', 0.), N('d1', 20.),
                                      N('d2', 10.)),
                              res=vec('res', 1., 4))),
        ('depth zigzag down', dict(depth=L(N('d0', 20.), N('d1', 0.),
                                           N('d2', 10.)),
                                   res=vec('res', 1., 4))),
        ('res short', dict(res=vec('res', 1., 2))),
        ('res long', dict(res=vec('res', 1., 4))),
        ('res scalar', dict(res=N('res', 1.))),
        ('res nested', dict(res=L(vec('res', 1., 3)))),
        ('depth nested', dict(depth=L(vec('d', 0., 2)))),
        ('res text', dict(res=L('a', 'b', 'c'))),
        ('res none', dict(res=None)),
        ('res dict without res', dict(res=DictV({'par': vec('r', 1., 3)}))),
        ('res dict wrong size', dict(res=DictV({
            'res': vec('r', 1., 3), 'par': vec('p', 1., 2)}))),
    ]
    for p in par:
        bad_m += [(f'{p} short', {p: vec(p, 1., 2)}),
                  (f'{p} long', {p: vec(p, 1., 4)}),
                  (f'{p} scalar', {p: N(p, 2.)}),
                  (f'{p} nested', {p: L(vec(p, 1., 3))})]
    # --- components, frequencies, times, transforms
    bad_ab = [(f'ab {a!r}', dict(ab=a)) for a in (
        0, 1, 7, 10, 17, 20, 40, 67, 71, 77, 111, -11, 'xx', None,
        L(11, 12))]
    good_ab = [(f'ab {a!r}', dict(ab=a)) for a in (
        11, 16, 33, 36, 44, 61, 63, 66, '35')]
    good_f = [('freq vector', dict(freqtime=vec('f', 1., 3))),
              ('freq scalar', dict(freqtime=N('f', 1.)))]
    bad_f = [('freq text', dict(freqtime='a'))]
    good_t = []
    bad_t = [('ht', dict(ht='fht')), ('ht part', dict(ht='qu')),
             ('ht empty', dict(ht='')), ('ht number', dict(ht=1)),
             ('filter name', dict(htarg=DictV({'dlf': 'nofilter'}))),
             ('htarg list', dict(htarg=L('key_101_2009'))),
             ('pts_per_dec vector', dict(htarg=DictV(
                 {'pts_per_dec': L(1., 2.)}))),
             ('pts_per_dec text', dict(htarg=DictV({'pts_per_dec': 'a'}))),
             ('keyword', dict(nokeyword=1)),
             ('keyword case', dict(Verb=0))]
    for k in ('rtol', 'atol', 'nquad', 'maxint', 'diff_quad', 'a', 'b',
              'limit', 'pts_per_dec'):
        bad_t.append((f'qwe {k} vector', dict(ht='qwe', htarg=DictV(
            {k: L(1, 2)}))))
    for k in ('rtol', 'atol', 'limit', 'a', 'b', 'pts_per_dec'):
        bad_t.append((f'quad {k} vector', dict(ht='quad', htarg=DictV(
            {k: L(1, 2)}))))
    tm = lambda **k: dict(freqtime=vec('t', 1., 2), signal=0, **k)
    for s in (0, 1, -1):
        good_t.append((f'signal {s}', {**tm(), 'signal': s}))
    for s in (2, -2, 10):
        bad_t.append((f'signal {s}', {**tm(), 'signal': s}))
    bad_t += [('signal text', {**tm(), 'signal': 'on'}),
              ('ft', tm(ft='fht')), ('ft part', tm(ft='fftl')),
              ('ft number', tm(ft=1)),
              ('ft filter name', tm(ft='dlf', ftarg=DictV({'dlf': 'no'}))),
              ('kind', tm(ft='dlf', ftarg=DictV({'kind': 'tan'}))),
              ('add_dec', tm(ft='fftlog', ftarg=DictV(
                  {'add_dec': L(1, 2, 3)})))]
    for k, d in (('qwe', ('rtol', 'atol', 'nquad', 'maxint', 'diff_quad',
                          'a', 'b', 'limit', 'pts_per_dec')),
                 ('fftlog', ('pts_per_dec', 'q')),
                 ('fft', ('dfreq', 'nfreq', 'ntot', 'pts_per_dec')),
                 ('dlf', ('pts_per_dec', ))):
        for o in d:
            bad_t.append((f'{k} {o} vector', tm(ft=k, ftarg=DictV(
                {o: L(1, 2)}))))
    wave = lambda **k: dict(freqtime=vec('t', 1., 2), signal=DictV(
        {q: v for q, v in {'nodes': r.w.arr([0., 1.]), 'amplitudes':
                           r.w.arr([0., 1.]), **k}.items()
         if v is not ABSENT}))
    good_t.append(('waveform', wave()))
    bad_t += [('waveform without nodes', wave(nodes=ABSENT)),
              ('waveform without amplitudes', wave(amplitudes=ABSENT)),
              ('waveform sizes', wave(amplitudes=r.w.arr([0., 1., 2.]))),
              ('waveform unknown key', wave(extra=1)),
              ('waveform later than times', wave(
                  nodes=r.w.arr([100., 200.])))]
    # --- positions of infinitesimal dipoles
    def pos(n):
        v = [N(n+'x', 10.), N(n+'y', 20.), N(n+'z', 5.)]
        bad = [('two', L(*v[:2])), ('four', L(*v, N(n+'a', 3.))),
               ('five', L(*v, N(n+'a', 3.), N(n+'d', 3.))),
               ('scalar', v[0]), ('empty', L()), ('none', None),
               ('sizes', L(vec(n+'x', 1., 2), vec(n+'y', 1., 3), v[2])),
               ('z vector', L(vec(n+'x', 1., 2), vec(n+'y', 1., 2),
                              z(2))),
               ('x text', L('a', v[1], v[2]))]
        good = [('vectors', L(vec(n+'x', 1., 2), vec(n+'y', 1., 2), v[2])),
                ('x vector', L(vec(n+'x', 1., 2), v[1], v[2])),
                ('y vector', L(v[0], vec(n+'y', 1., 3), v[2])),
                ('z list', L(v[0], v[1], L(v[2])))]
        return ([(f'{n} {t}', {n: b}) for t, b in good],
                [(f'{n} {t}', {n: b}) for t, b in bad])

    def rot(n):
        v = [N(n+'x', 10.), N(n+'y', 20.), N(n+'z', 5.), N(n+'a', 30.),
             N(n+'d', 10.)]
        w = [N(n+'x0', 10.), N(n+'x1', 20.), N(n+'y0', 1.), N(n+'y1', 2.),
             N(n+'z0', 5.), N(n+'z1', 6.)]
        two, three = vec(n+'u', 40., 2), vec(n+'v', 70., 3)
        sw = lambda v, **k: L(*[k.get(f'i{i}', q)
                                for i, q in enumerate(v)])
        bad = [('three', L(*v[:3])), ('four', L(*v[:4])),
               ('seven', L(*w, v[0])), ('scalar', v[0]), ('none', None),
               ('point wire', L(w[0], w[0], w[2], w[2], w[4], w[4]))]
        good = [('wire', L(*w)),
                ('vectors', L(two, vec(n+'y', 1., 2), v[2], v[3], v[4])),
                ('all vectors', L(*[vec(n+k, 3., 2) for k in 'xyzad']))]
        for i in range(5):
            for j in range(5):
                if i != j:
                    bad.append((f'sizes {i} {j}', sw(v, **{
                        f'i{i}': two, f'i{j}': three})))
            bad.append((f'nested {i}', sw(v, **{f'i{i}': L(two)})))
        for i in range(6):
            j = (i+1) % 6
            bad.append((f'wire sizes {i} {j}', sw(w, **{
                f'i{i}': two, f'i{j}': three})))
        return ([(f'{n} {t}', {n: b}) for t, b in good],
                [(f'{n} {t}', {n: b}) for t, b in bad])

    sg, sb = pos('src')
    rg, rb = pos('rec')
    bsg, bsb = rot('src')
    brg, brb = rot('rec')
    v3 = lambda n, c: L(N(n+'x', c), N(n+'y', c+7.), N(n+'z', 5.))
    v5 = lambda n, c: L(N(n+'x', c), N(n+'y', c+7.), N(n+'z', 5.),
                        N(n+'a', 20.), N(n+'d', 10.))
    base = dict(src=v3('src', 0.), rec=v3('rec', 100.), freqtime=N('f', 1.),
                verb=0, **layered())
    yield (M+'dipole', base, good_m + good_ab + good_f + good_t + sg + rg,
           bad_m + bad_ab + bad_f + bad_t + sb + rb)
    bb = dict(base, src=v5('src', 0.), rec=v5('rec', 100.))
    extra = [('recpts vector', dict(rec=L(N('a', 1.), N('b', 2.), N('c', 3.),
                                          N('d', 4.), N('e', 5.), N('g', 6.)),
                                    recpts=L(1, 2))),
             ('ab keyword of bipole', dict(nokey=2))]
    yield (M+'bipole', bb, good_m[:3] + good_f + bsg + brg,
           bad_m[:4] + bad_f + bad_t[:8] + bsb + brb + extra)
    yield (M+'loop', bb, bsg[:1] + brg[:1],
           bad_m[:3] + bad_f[:1] + bsb[:6] + brb[:6] + [
               ('keyword', dict(nokeyword=1))])
    # --- analytical
    a0 = dict(src=v3('src', 0.), rec=L(N('recx', 90.), N('recy', 1.),
                                       N('recz', 6.)),
              res=N('res', 1.), freqtime=N('f', 1.), verb=0)
    sols = [(f'solution {s!r}', dict(solution=s)) for s in (
        'fs', 'dfs', 'dhs', 'dsplit', 'dtetm')]
    nos = [(f'solution {s!r}', dict(solution=s)) for s in (
        'hs', '', 'FS', 'dsplitt', 'd')]
    nos += [(f'{s} magnetic {a}', dict(solution=s, ab=a))
            for s in ('dfs', 'dhs', 'dsplit', 'dtetm')
            for a in (14, 41, 44, 36, 63)]
    nos += [(f'fs signal {s}', dict(signal=s)) for s in (0, 1, -1)]
    nos += [(f'{p} vector', {p: vec(p, 1., 2)}) for p in par + ('res', )]
    nos += [('signal 2', dict(solution='dhs', signal=2)),
            ('keyword', dict(nokeyword=1))]
    yield (M+'analytical', a0, sols + good_ab[:-1] + good_f + sg[:2] + rg[:2],
           nos + bad_ab + bad_f + sb + rb)
    # --- wavenumber domain
    k0 = dict(src=v3('src', 0.), rec=v3('rec', 100.), freq=N('f', 1.),
              wavenumber=N('k', .01), verb=0, **layered())
    yield (M+'dipole_k', k0,
           good_m[:3] + good_ab[:4] + [
               ('wavenumbers', dict(wavenumber=r.w.arr([N('k1', .1), N('k2', .2)])))],
           bad_m + bad_ab[:9] + sb + rb + [
               ('keyword', dict(nokeyword=1))])
    ip = dict(base, ab=66, src=v3('src', 0.), rec=v3('rec', 100.),
              scale=1e3)
    yield (M+'ip_and_q', ip, [(f'ab {a}', dict(ab=a)) for a in (
        44, 45, 46, 54, 55, 56, 64, 65)],
        [(f'ab {a}', dict(ab=a)) for a in (11, 14, 41, 36, 63, 16)] + [
            ('signal', tm()), ('keyword', dict(nokeyword=1))] + sb[:3])
    t0 = dict(src=L(N('x', 0.), N('y', 0.), N('sz', 5.)),
              rec=L(N('rx', 100.), N('ry', 10.), N('rz', 7.)),
              freqtime=N('f', 1.), verb=0, **layered())
    yield (TM, t0, [], bad_m[:4] + [
        ('layers', dict(rec=L(N('rx', 100.), N('ry', 10.), N('rz', 70.)))),
        ('layers above', dict(src=L(N('x', 0.), N('y', 0.), N('sz', -5.)))),
        ('fullspace', dict(depth=L(), res=N('res', 1.))),
        ('frequencies', dict(freqtime=vec('f', 1., 2)))])
