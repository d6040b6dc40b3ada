"""Equivalent ways to describe a model and a survey.

Layers listed top-down or bottom-up, optional parameters omitted or given with
their documented default, explicit infinite boundaries, lists or arrays: the
abstract runs must give equal value numbers for every entry point.
"""
from ..rel import *

LEVEL = 'other'
ASSUME = []
PARS = ('aniso', 'epermH', 'epermV', 'mpermH', 'mpermV')


def variants(r, n, quick):
    """(name, model, equivalent model)."""
    m = r.model(n)
    rev = {k: r.L(*reversed(v.items)) for k, v in m.items()}
    if n > 2:
        yield 'layers listed bottom-up', m, rev
    for p in PARS:
        base = {k: v for k, v in m.items() if k in ('depth', 'res', p)}
        if n > 2:
            yield (f'layers listed bottom-up ({p})', base,
                   {k: r.L(*reversed(v.items)) for k, v in base.items()})
    ones = r.L(*[1.]*n)
    for p, q in (('epermV', 'epermH'), ('mpermV', 'mpermH')):
        a = {k: v for k, v in m.items() if k != p}
        yield f'{p} omitted', a, {**a, p: a[q]}
        yield f'{p}=None', {**a, p: None}, {**a, p: a[q]}
        b = {k: r.L(*reversed(v.items)) for k, v in a.items()}
        if n > 2:
            yield f'{p} omitted, layers bottom-up', b, {**a, p: a[q]}
    for p in PARS:
        a = {k: v for k, v in m.items() if k != p}
        if p[-1] == 'V':
            continue
        yield f'{p} omitted', a, {**a, p: ones}
    for p in ('epermH', 'mpermH'):
        v = p[:-1] + 'V'
        a = {k: x for k, x in m.items() if k not in (p, v)}
        yield f'{p} and {v} omitted', a, {**a, p: ones, v: ones}
    d = list(m['depth'].items)
    yield ('explicit infinite top', m, {**m, 'depth': r.L(-INF, *d)})
    yield ('explicit infinite boundaries', m,
           {**m, 'depth': r.L(-INF, *d, INF)})
    yield ('explicit infinite boundaries, bottom-up', m,
           {**rev, 'depth': r.L(INF, *reversed(d), -INF)})
    yield ('arrays instead of lists', m,
           {k: r.w.arr(v.items) for k, v in m.items()})
    yield ('tuples instead of lists', m,
           {k: TupleV(tuple(v.items)) for k, v in m.items()})
    yield ('res given as dictionary', m,
           {**m, 'res': DictV({'res': m['res']})})
    if n > 2:
        yield ('res given as dictionary, bottom-up', m,
               {**rev, 'res': DictV({'res': rev['res']})})


def runs(r, g, quick):
    """(name, function of model -> Result)."""
    for ab in (11, 23, 32, 33, 14, 62, 46) if quick else ABS:
        yield (f'dipole:{ab}', 'empymod.model.dipole',
               lambda m, ab=ab: r.dipole(ab, g.src, g.rec, m))
    yield ('dipole:xdirect', 'empymod.model.dipole',
           lambda m: r.dipole(12, g.src, g.rec, m, xdirect=True))
    yield ('bipole', 'empymod.model.bipole',
           lambda m: bip(r, g.fsrc, g.rec + [g.ra, g.rd], m, srcpts=3))
    yield ('bipole:m', 'empymod.model.bipole',
           lambda m: bip(r, g.src + [g.sa, g.sd], g.frec, m, msrc='b',
                         mrec='b'))
    yield ('bipole:j', 'empymod.model.bipole',
           lambda m: bip(r, g.src + [g.sa, g.sd], g.frec, m, mrec='j'))
    yield ('dipole_k', 'empymod.model.dipole_k',
           lambda m: r.call('empymod.model.dipole_k', src=r.L(*g.src),
                            rec=r.L(*g.rec), freq=r.N('freq', 1.),
                            wavenumber=r.w.arr([r.N('kappa', .01)]), ab=22,
                            verb=0, **m))
    yield ('time', 'empymod.model.dipole',
           lambda m: r.dipole(12, g.src, g.rec, m, freq=r.N('time', 1.),
                              signal=1, **ft_kw('dlf')))


def check(ctx):
    ctx.rule('equivalent descriptions of a model give equal responses')
    r = Rel(ctx)
    g = Geo(r)
    for n in (3, 2) if ctx.quick else (3, 2, 4):
        for name, m, m2 in variants(r, n, ctx.quick):
            for rn, fn, run in runs(r, g, ctx.quick):
                if not ctx.mine():
                    continue
                a, b = run(m), run(m2)
                if rn == 'dipole_k' and 'dict' in name:
                    continue
                r.eq(f'{rn}:{name}', b, a, f'{rn}: {name}: the response '
                     f'differs ({n} layers)', fn)
    fullspace(ctx, r, g)
    r.done()


def fullspace(ctx, r, g):
    a = dict(depth=r.L(), res=r.L(r.N('res0', 2.)))
    full = dict(a, **{p: r.L(1.) for p in PARS})
    for name, m in (('depth=None', {**a, 'depth': None}),
                    ('depth=-inf', {**a, 'depth': r.L(-INF)}),
                    ('depth=inf', {**a, 'depth': r.L(INF)}),
                    ('depth=[-inf, inf]', {**a, 'depth': r.L(-INF, INF)}),
                    ('scalar res', {**a, 'res': r.N('res0', 2.)}),
                    ('explicit ones', full)):
        for rn, fn, run in runs(r, g, True):
            for xd in (True, False):
                if not ctx.mine():
                    continue
                r.eq(f'fullspace:{rn}:{name}', run(m), run(a),
                     f'{rn}: full-space given with {name}: the response '
                     'differs', fn)
