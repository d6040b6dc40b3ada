"""Command line: the stored result is that of the routine in the input file.

__main__.main is interpreted with abstract files and the argument parser that
the source builds.  What load_data finds in the output file must be, cell by
cell, what the modelling routine returns for the keywords of the input file
with squeeze=False; failures are returned and leave no output file.
"""
from ..rel import *
from ..vfs import Cli
from . import c16

LEVEL = 'other'
ASSUME = c16.ASSUME + ['argparse itself']
MAIN = 'empymod.__main__.main'


def surveys(r, quick):
    N, L = r.N, r.L
    mod = dict(depth=L(N('d0', 0.), N('d1', 1000.)),
               res=L(2e14, N('r1', .3), N('r2', 1.)), verb=0)
    src = lambda n: L(L(*[N(f'sx{i}', 10.*i) for i in range(n)]),
                      L(*[N(f'sy{i}', 3.*i) for i in range(n)]), N('sz', 250.))
    rec = lambda n: L(L(*[N(f'rx{i}', 100.+30*i) for i in range(n)]),
                      L(*[N(f'ry{i}', 20.+5*i) for i in range(n)]),
                      N('rz', 300.))
    ang = L(N('azm', 20.), N('dip', 10.))
    plus = lambda v: L(*v.items, *ang.items)
    fr = lambda n: L(*[N(f'f{i}', 1.+i) for i in range(n)]) if n > 1 else \
        N('f0', 1.)
    ht = lambda: ht_kw('dlf')
    for ns, nr, nf in ((1, 1, 1), (2, 3, 2), (1, 3, 1), (1, 1, 2)):
        sh = f'{nf}x{nr}x{ns}'
        yield 'dipole', sh, (nf, nr, ns), dict(
            src=src(ns), rec=rec(nr), freqtime=fr(nf), ab=24, **mod, **ht())
        if quick and ns == 2:
            continue
        yield 'bipole', sh, (nf, nr, ns), dict(
            src=plus(src(ns)), rec=plus(rec(nr)), freqtime=fr(nf), msrc=True,
            **mod, **ht())
        yield 'loop', sh, (nf, nr, ns), dict(
            src=plus(src(ns)), rec=plus(rec(nr)), freqtime=fr(nf),
            mrec=False, **mod, **ht())
        yield 'analytical', sh, (nf, nr, 1), dict(
            src=L(N('sx', 0.), N('sy', 0.), N('sz', 250.)), rec=rec(nr),
            res=N('r1', .3), freqtime=fr(nf), ab=13, verb=0)
    yield 'dipole', 'time', (2, 1, 1), dict(
        src=src(1), rec=rec(1), freqtime=fr(2), signal=0, squeeze=True,
        **mod, **ht(), **ft_kw('dlf'))


def check(ctx):
    ctx.rule('output file = routine(**input, squeeze=False)')
    ctx.rule('without output file the result is printed')
    ctx.rule('errors are returned, no output file is left')
    r = c16.world(ctx)
    r.eng.load('empymod.__main__')
    Cli(r.eng)
    r.eng.sys_argv = None
    calls = []

    def hook(eng, f, args, kw):
        if f.module.name == 'empymod.model' and f.name in (
                'bipole', 'dipole', 'loop', 'analytical'):
            calls.append(f.name)
        return None
    r.eng.call_hook = hook
    for fn, tag, shape, inp in surveys(r, ctx.quick):
        if ctx.mine():
            one(ctx, r, fn, tag, shape, inp)
    if ctx.mine():
        errors(ctx, r, calls)
    if ctx.mine():
        infos(ctx, r, calls)
    r.done()


def main(r, *args, argv=None):
    r.eng.constants['sys.argv'] = ListV(['empymod'] + list(argv or ()))
    r.eng.sys_argv = ListV(list(argv or ()))
    return r.call(MAIN, *([ListV(list(args))] if argv is None else []))


def save(r, inp, name='in.json'):
    r.vfs.files.clear()
    s = r.call('empymod.io.save_input', name, DictV(dict(inp)))
    del r.vfs.log[:], r.vfs.out[:]
    return s.ok


def one(ctx, r, fn, tag, shape, inp):
    key = f'{fn}:{tag}'
    want = r.call(f'empymod.model.{fn}', **{**inp, 'squeeze': False})
    if not want.ok:
        return ctx.undec(f'{key}: {exc_name(want.exc)}')
    for out, argv in (('out.txt', False), ('sub/out.json', False),
                      ('out.json', True), (None, False)):
        if out is None and tag != '2x1x1' and ctx.quick:
            pass
        if not save(r, inp):
            return ctx.undec('save_input')
        a = [fn, 'in.json'] + ([out] if out else [])
        s = main(r, *a) if not argv else main(r, argv=a)
        if not s.ok:
            c16.fails(ctx, r, s, 'main:raise', MAIN, f'empymod {" ".join(a)}')
            continue
        if isinstance(s.value, ExcV):
            ctx.violation('main:error', f'empymod {" ".join(a)} fails for '
                          f'{key}: {exc_name(s.value)} {s.value.args}'[:300],
                          MAIN)
            continue
        r.holds('main:status', s.value is None or eqc(s.value, 0),
                f'empymod {" ".join(a)} returns {s.value!r}', MAIN)
        w = {p for k, p in r.vfs.log if k == 'w'}
        r.holds('main:files', w == ({r.vfs.path(out)} if out else set()),
                f'empymod {" ".join(a)} writes {sorted(w)}', MAIN)
        if out is None:
            got = r.vfs.out[-1][0] if r.vfs.out else None
            r.holds('main:print', got is not None, 'result not printed',
                    MAIN)
        else:
            q = r.call('empymod.io.load_data', out)
            got = q.value if q.ok else None
            r.holds('main:quiet', not r.vfs.out,
                    'result printed although stored', MAIN)
        if not isinstance(got, Arr):
            ctx.violation('main:result', f'no array result for {key}', MAIN)
            continue
        r.holds('main:shape', got.a is not None and got.a.shape == shape,
                f'result of {key} has the shape {r.eng.shape(got)}, not '
                f'{shape}', MAIN)
        r.eq('main:values', got, want.value, f'empymod {" ".join(a)} gives '
             f'other values than {fn}() ({tag})', MAIN)


def eqc(v, c):
    return is_raw(v) and v == c


def errors(ctx, r, calls):
    N, L = r.N, r.L
    ok = next(iter(surveys(r, True)))[3]
    bad = dict(ok)
    bad['res'] = L(1., 2.)                       # one layer missing
    cases = (
        ('missing', None, ['dipole', 'nope.json', 'o.txt'],
         'FileNotFoundError'),
        ('value', bad, ['dipole', 'in.json', 'o.txt'], 'ValueError'),
        ('keyword', {**ok, 'nokey': 1}, ['dipole', 'in.json', 'o.txt'],
         'TypeError'),
        ('noarg', {'src': L(1., 2., 3.)}, ['dipole', 'in.json', 'o.txt'],
         'TypeError'),
        ('input-ext', ok, ['dipole', 'in.txt', 'o.txt'], 'ValueError'),
        ('output-ext', ok, ['dipole', 'in.json', 'o.csv'], 'ValueError'))
    for tag, inp, a, ex in cases:
        save(r, ok if inp is None else inp)
        s = main(r, *a)
        e = s.value if s.ok else None
        if s.exc is not None and getattr(s.exc, 'imprecise', False):
            ctx.undec(f'{tag}: {exc_name(s.exc)}')
            continue
        r.holds(f'error:{tag}', isinstance(e, ExcV) and exc_name(e) == ex,
                f'empymod {" ".join(a)} ({tag}): expected to return a {ex}, '
                f'got {e!r} {exc_name(s.exc) if s.exc else ""}', MAIN)
        w = {p for k, p in r.vfs.log if k == 'w'}
        r.holds(f'error:{tag}:files', not w, f'{tag}: {sorted(w)} written',
                MAIN)
    for a in (['nofunction', 'in.json'], ['dipole', 'in.json', 'a', 'b'],
              ['--nooption']):
        save(r, ok)
        del calls[:]
        s = main(r, *a)
        r.holds('error:usage', s.exc is not None and exc_name(s.exc) ==
                'SystemExit' and not calls, f'empymod {" ".join(a)} is '
                f'accepted', MAIN)


def infos(ctx, r, calls):
    for a in ([], ['--version'], ['--report'], ['dipole'],
              ['--version', 'dipole', 'in.json'],
              ['dipole', 'in.json', 'o.txt', '--report']):
        save(r, next(iter(surveys(r, True)))[3])
        del calls[:]
        s = main(r, *a)
        r.holds('info', s.ok and s.value is None and len(r.vfs.out) == 1 and
                not calls and not r.vfs.log,
                f'empymod {" ".join(a)} does not just print information',
                MAIN)
        if '--version' in a and r.vfs.out:
            r.holds('info:version', eqs(r.vfs.out[0], '1.2.3-test'),
                    '--version does not print the version', MAIN)


def eqs(out, t):
    return any(isinstance(v, str) and t in v for v in out)
