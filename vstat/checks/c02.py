"""Results do not depend on earlier calls and are reproducible.

Effect analysis: objects created at import time, default arguments, cached
filters, class and module attributes carry owner labels; every write to one of
them during a call is an effect.  Allowed effects: the five minimum values
written by the minimum setter, and filling the filter cache.  In addition no
value returned by a modelling routine may carry a non-determinism label (clock,
random numbers, uninitialised memory, object identity, file system) and no
function may be memoised on mutable state.
"""
from ..cases import *
from . import c01

LEVEL = 'other'
ASSUME = ['numpy/scipy calls are deterministic unless labelled otherwise']
BAD = {'NONDET', 'UNINIT', 'FS', 'FILE'}
STATE = ('import:', 'glob:', 'default:')
MINS = {'empymod.utils._min_freq', 'empymod.utils._min_time',
        'empymod.utils._min_off', 'empymod.utils._min_res',
        'empymod.utils._min_angle'}


def scan(ctx, r, name, fn, result=True):
    for e in r.kinds('mutate'):
        for l in e.data:
            if l.startswith(STATE):
                if l == 'import:empymod.filters' and \
                        e.mod == 'empymod.filters':
                    continue        # the filter cache (see C20)
                ctx.violation(f'{e.mod}.{e.func}:{l}',
                              f'shared object `{l}` is modified during '
                              f'{name} ({e.detail})', e.where())
    for e in r.kinds('global-write', 'state-write', 'ext-write'):
        if e.kind == 'global-write' and e.detail in MINS and \
                fn.endswith('set_minimum'):
            continue
        ctx.violation(f'{e.mod}.{e.func}:{e.detail}',
                      f'state `{e.detail}` is written during {name}',
                      e.where())
    if result and r.ok:
        for c in cells(r.value):
            if isinstance(c, S):
                bad = (c.e | c.x) & BAD
                ctx.ok()
                if bad:
                    ctx.violation(f'{fn}:{sorted(bad)[0]}',
                                  f'result of {name} depends on '
                                  f'{sorted(bad)}', fn)


def check(ctx):
    ctx.rule('no write to import-time/global/default/class state in a call '
             '(except minima setter, filter cache)')
    ctx.rule('no clock/random/uninitialised/file label in a result')
    w = World(ctx.repo, modules=['empymod.__main__',
                                 'empymod.scripts.fdesign',
                                 'empymod.scripts.tmtemod'])
    for e in w.eng.events:
        if e.kind == 'cached-function':
            ctx.violation(f'cache:{e.detail}', 'memoised function', e.where())
    forms = ['list'] if ctx.quick else ['list', 'array', 'mixed']
    for form in forms:
        for gen, res in ((public_cases(w, form, ctx.quick), True),
                         (res_hook_cases(w, form), True),
                         (c01.other_cases(w, form), False)):
            for name, fn, kw in gen:
                if not ctx.mine():
                    continue
                r = w.call(fn, **kw)
                ctx.scenarios += 1
                if not r.ok:
                    ctx.undec(f'{name}: {exc_name(r.exc)}')
                scan(ctx, r, name, fn, res)
    for name, fn, kw in c01.core_cases(w):
        if not ctx.mine():
            continue
        r = w.call(fn, **kw)
        ctx.scenarios += 1
        scan(ctx, r, name, fn)
    for name, fn, kw in (
            ('set_minimum', 'empymod.utils.set_minimum',
             dict(min_freq=1., min_time=1., min_off=1., min_res=1.,
                  min_angle=1.)),
            ('get_minimum', 'empymod.utils.get_minimum', {})):
        if not ctx.mine():
            continue
        r = w.call(fn, **kw)
        ctx.scenarios += 1
        scan(ctx, r, name, fn, False)
    ctx.ok(w.eng.mutations)
    ctx.covered(w.eng)
