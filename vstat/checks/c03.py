"""Verbosity changes what is printed and nothing else.

With a symbolic verbosity level the interpreter follows both sides of every
verbosity test.  Rules: no cell of any returned value may depend (data or
control) on the level, no exception may be raised under a verbosity test, and
with level 0 no output statement is reachable.
"""
from ..cases import *
from . import c01

LEVEL = 'other'
ASSUME = ['user callbacks do not print']


def cases(ctx, w, form, verb):
    m = Maker(w, form)
    yield from public_cases(w, form, ctx.quick, verb)
    # inputs that trigger the warnings/minimum corrections
    D = 'empymod.model.'
    z = lambda **k: {**survey(m), **model3(m),
                     'freqtime': m.vec('freqtime', [1., 2.]),
                     **ht_opts(m, 'dlf'), 'verb': verb, **k}
    yield ('minfreq', D+'dipole', z(freqtime=m.vec('freqtime', [1e-30, 2.])))
    yield ('minoff', D+'dipole', z(rec=m.coords('rec', [[0., 1.], 0., 300.])))
    yield ('minres', D+'dipole', z(res=m.vec('res', [1e20, 1e-30, 1.])))
    yield ('unkht', D+'dipole', z(htarg=m.opts('htarg', dict(
        pts_per_dec=0, unknown=3))))
    yield ('unkkw', D+'dipole', z(solution='fs'))
    yield ('unkft', D+'dipole', z(signal=0, ftarg=m.opts('ftarg', dict(
        pts_per_dec=0, unknown=3))))
    yield ('j-aniso', D+'bipole',
           z(src=m.coords('src', [0., 0., 250., 0., 0.]),
             rec=m.coords('rec', [[1., 2.], 0., 300., 0., 0.]), mrec='j'))
    yield ('ip', D+'ip_and_q', z(ab=66, rec=m.coords('rec', REC)))
    yield ('loop', D+'loop',
           z(src=m.coords('src', [0., 0., 250., 0., 0.]),
             rec=m.coords('rec', [[1., 2.], 0., 300., 0., 0.]),
             mrec='loop'))
    for name, fn, kw in res_hook_cases(w, form):
        yield (name, fn, {**kw, 'verb': verb})


def check(ctx):
    ctx.rule('result cells carry no verbosity label')
    ctx.rule('no raise is control-dependent on verbosity')
    ctx.rule('verbosity 0 reaches no output statement')
    ctx.rule('verbosity 0 and 4 raise the same exceptions')
    w = World(ctx.repo, modules=['empymod.scripts.tmtemod'])
    out = {}
    for tag, verb in (('sym', None), (0, 0), (4, 4)):
        for k, (name, fn, kw) in enumerate(cases(
                ctx, w, 'list', w.num('VERB', dt='i') if tag == 'sym' else
                verb)):
            if ctx.quick and tag == 'sym' and k % 2 and \
                    name.startswith(('analytical', 'bipole')):
                continue
            if not ctx.mine(k):
                continue
            r = w.call(fn, **kw)
            ctx.scenarios += 1
            ex = exc_name(r.exc) if r.exc is not None else None
            if tag == 0 and ex:
                ctx.undec(f'{name}: {ex}')
            if tag == 'sym':
                if r.ok:
                    for c in cells(r.value):
                        ctx.ok()
                        if isinstance(c, S) and 'VERB' in (c.e | c.x):
                            ctx.violation(f'{fn}:result',
                                          f'result of {name} depends on the '
                                          f'verbosity level', fn)
                            break
                for e in r.kinds('raise', 'implicit'):
                    ctx.ok()
                    if 'VERB' in e.x:
                        ctx.violation(f'{e.mod}.{e.func}:raise',
                                      f'exception under a verbosity test '
                                      f'({e.detail}) in {name}', e.where())
            elif tag == 0:
                out[name] = ex
                for e in r.kinds('print', 'fwrite'):
                    ctx.violation(f'{e.mod}.{e.func}:{e.kind}',
                                  f'{e.kind} reachable with verbosity 0 in '
                                  f'{name}', e.where())
                ctx.ok()
            else:
                ctx.ok()
                if name in out and out[name] != ex:
                    ctx.violation(f'{fn}:exc', f'{name}: verbosity 0 gives '
                                  f'{out[name]}, verbosity 4 gives {ex}', fn)
    ctx.covered(w.eng)
