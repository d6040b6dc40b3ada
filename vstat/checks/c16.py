"""Save and load round trips.

Files are abstract texts: symbolic numbers are written as 17-digit markers and
recognised when read back.  load_data(save_data(d)) must be d, cell by cell, in
both formats; load_input(save_input(d)) must be d with arrays as nested lists;
DigitalFilter.fromfile(tofile()) must be the filter.
"""
from ..rel import *
from ..vfs import VFS, CWD
from ..values import DtypeV  # noqa

LEVEL = 'other'
ASSUME = ['the machine has no Unicode default encoding',
          'numpy prints and parses numbers correctly']
IO = 'empymod.io.'
SHAPES = ((2, 3, 2), (1, 1, 1), (3, 1, 1), (1, 4, 1), (1, 1, 3), (2, 1, 3))


def world(ctx):
    r = Rel(ctx)
    r.vfs = VFS(r.eng)
    for m in ('empymod.utils', 'empymod'):
        r.eng.modules[m].vars['__version__'] = '1.2.3-test'
    return r


def data(r, shape, dt, tag='d'):
    n = int(np.prod(shape))
    a = r.w.arr([r.N(f'{tag}{i}', dt=dt) for i in range(n)], shape, dt)
    a.cls = r.w.get('empymod.utils.EMArray')
    return a


def check(ctx):
    ctx.rule('load_data(save_data(d)) is d: shape, kind and every value')
    ctx.rule('load_input(save_input(d)) is d')
    ctx.rule('fromfile(tofile(filter)) is the filter')
    ctx.rule('only the named file is written; rejected calls write nothing')
    r = world(ctx)
    arrays(ctx, r)
    inputs(ctx, r)
    filters(ctx, r)
    reject(ctx, r)
    r.done()


def wrote(r, n):
    return {p for k, p in r.vfs.log[n:] if k == 'w'}


def arrays(ctx, r):
    infos = (None, '', 'a: b, c: d', 'Gr\u00f6\u00dfe \u03a9m', 'the data')
    for sh in SHAPES if not ctx.quick else SHAPES[:5]:
        for dt in 'fc':
            for ext in ('txt', 'json'):
                for i, info in enumerate(infos):
                    if i > 1 and sh not in SHAPES[:2]:
                        continue
                    if not ctx.mine():
                        continue
                    roundtrip(ctx, r, sh, dt, ext, info)
    if ctx.mine():
        for ext, kw in (('txt', dict(fmt=None)), ('json', dict(indent=None)),
                        ('json', dict(indent=0))):
            kw = {k: v for k, v in kw.items() if ext == 'json'}
            roundtrip(ctx, r, (2, 2, 2), 'c', ext, 'x', kw,
                      fn='/abs/some.dir/b')
        # a second save replaces the first one
        for ext in ('txt', 'json'):
            roundtrip(ctx, r, (2, 2, 2), 'c', ext, None, {}, 'twice', True)
        # constants, signed zeros and values of any size
        for ext in ('txt', 'json'):
            for dt, v in (('f', [0., -1.5, 1e-300, -2e300, .1, 1/3]),
                          ('c', [0j, 1j, -1-2j, complex(-.1, 1/3), 1e-200j,
                                 complex(-0., -2.)])):
                a = r.w.arr(v, (1, 6, 1), dt)
                a.cls = r.w.get('empymod.utils.EMArray')
                compare(ctx, r, a, f'const.{ext}', ext, {}, f'const:{dt}')


def roundtrip(ctx, r, sh, dt, ext, info, kw={}, fn='./sub/out', twice=False):
    kw = dict(kw)
    if info is not None:
        kw['info'] = info
    name = f'{fn}.{ext}'
    if twice:
        r.call(IO+'save_data', name, data(r, (3, 2, 2), dt, 'old'))
    compare(ctx, r, data(r, sh, dt), name, ext, kw,
            f'{"x".join(map(str, sh))}:{dt}:{info!r}')


def compare(ctx, r, a, name, ext, kw, tag):
    want = Arr(a.a.copy(), a.dt)
    n = len(r.vfs.log)
    s = r.call(IO+'save_data', name, a, **kw)
    where = IO+'save_data'
    if not s.ok:
        return fails(ctx, r, s, f'save_data:{ext}:raise', where,
                     f'save_data fails for {tag} ({ext})')
    p = r.vfs.path(name)
    r.holds(f'save_data:{ext}:files', wrote(r, n) == {p},
            f'save_data to {name} writes {sorted(wrote(r, n))}', where)
    dirs = {q for k, q in r.vfs.log[n:] if k == 'mkdir'}
    r.holds(f'save_data:{ext}:mkdir', not dirs,
            f'save_data creates {sorted(dirs)}', where)
    n = len(r.vfs.log)
    q = r.call(IO+'load_data', name)
    where = IO+'load_data'
    if not q.ok:
        return fails(ctx, r, q, f'load_data:{ext}:raise', where,
                     f'load_data cannot read what save_data wrote for {tag}')
    v = q.value
    r.holds(f'load_data:{ext}:write', not wrote(r, n),
            'load_data writes a file', where)
    ok = isinstance(v, Arr) and v.a is not None and \
        v.a.shape == want.a.shape and v.dt == want.dt and \
        getattr(v.cls, 'name', None) == 'EMArray'
    if not r.holds(f'load_data:{ext}:type', ok, f'loaded data differs in '
                   f'shape, kind or class from the saved for {tag}: '
                   f'{v!r}'[:200], where):
        return
    r.eq(f'load_data:{ext}:values', Arr(v.a, v.dt), want,
         f'loaded values differ from the saved ones for {tag} ({ext})',
         where)
    r.eq(f'save_data:{ext}:input', Arr(a.a, a.dt), want,
         f'save_data changes the data of the caller ({tag})',
         IO+'save_data')


def fails(ctx, r, s, key, where, what):
    if s.dead or getattr(s.exc, 'imprecise', False):
        ctx.undec(f'{key}: {exc_name(s.exc) if s.exc else "dead"}')
    elif s.ok:
        ctx.violation(key, f'{what}: returns {s.value!r}'[:200], where)
    else:
        ctx.violation(key, f'{what}: {exc_name(s.exc)}', where)


def inputs(ctx, r):
    if not ctx.mine():
        return
    N = r.N
    np_ = lambda nm, dt, p='np': S(dt, NOC, E0, E0,
                                   r.w.facets(NOC, nm, dt), p)
    cx = lambda nm: r.w.arr([N(f'{nm}{i}', dt='c') for i in range(2)],
                            dt='c')
    full = dict(
        src=r.L(N('sx'), N('sy'), N('sz')),
        rec=r.L(r.w.arr([N('rx0'), N('rx1')]), TupleV([N('ry'), 0.]), -.5),
        depth=r.L(), res=2e14, freqtime=np_('f', 'f'), ab=np_('ab', 'i'),
        signal=None, verb=0, xdirect=True, loop='freq',
        aniso=r.w.arr([N(f'a{i}') for i in range(6)], (2, 3)),
        flag=S('b', True, E0, E0, None, 'np'),
        htarg=r.w.dct(dlf='key_201_2009', pts_per_dec=-1, lim=r.L(1, 2)),
        one=r.w.arr([N('one')]), eta=cx('eta'), z=N('z', dt='c'),
        k=np_('k', 'c'), single=np_('single', 'f', 'np32'), text='a "quoted", \u03a9 \\ text\n')
    stack = lambda q: ListV([
        ListV([r.eng.sun('real', i) for i in q]),
        ListV([r.eng.sun('imag', i) for i in q])])
    want = dict(full)
    want['rec'] = r.L(r.L(N('rx0'), N('rx1')), r.L(N('ry'), 0.), -.5)
    want['aniso'] = r.L(*[r.L(*[N(f'a{i+j}') for i in range(3)])
                          for j in (0, 3)])
    want['one'] = r.L(N('one'))
    want['eta'] = stack(full['eta'].a)
    for k in 'zk':
        want[k] = ListV([r.eng.sun('real', full[k]),
                         r.eng.sun('imag', full[k])])
    want['flag'] = True
    f = r.eng.getattr(r.call('empymod.filters.Hankel').value,
                      'wer_201_2018')
    full['ftarg'] = r.w.dct(dlf=f)
    want['ftarg'] = r.w.dct(dlf='wer_201_2018')
    one = lambda k: ({k: full[k]}, {k: want[k]})
    cases = [('full', full, want), ('empty', {}, {})]
    cases += [(k, *one(k)) for k in full]
    for tag, d, w in cases:
        for name in ('inp.json', '/tmp.x/y.z/inp.v2.json'):
            n = len(r.vfs.log)
            D = DictV(dict(d))
            s = r.call(IO+'save_input', name, D)
            if not s.ok:
                fails(ctx, r, s, 'save_input:raise', IO+'save_input',
                      f'save_input fails for {tag}')
                continue
            r.holds('save_input:files', wrote(r, n) == {r.vfs.path(name)},
                    f'save_input writes {sorted(wrote(r, n))}',
                    IO+'save_input')
            r.holds('save_input:input', D.items == d,
                    'save_input changes the input', IO+'save_input')
            q = r.call(IO+'load_input', name)
            if not q.ok:
                fails(ctx, r, q, 'load_input:raise', IO+'load_input',
                      f'load_input cannot read what save_input wrote '
                      f'({tag})')
                continue
            bad = equal(r, q.value, DictV(dict(w)))
            if bad is None:
                ctx.ok()
            else:
                ctx.violation(f'load_input:values', f'{tag}: entry {bad} '
                              f'differs after save_input/load_input',
                              IO+'load_input')


def equal(r, a, b, at=''):
    """None or the place where a and b differ."""
    if isinstance(b, DictV):
        if not isinstance(a, DictV) or list(a.items) != list(b.items):
            return at or 'keys'
        for k in b.items:
            q = equal(r, a.items[k], b.items[k], f'{at}/{k}')
            if q:
                return q
        return None
    if isinstance(b, (ListV, TupleV)):
        if not isinstance(a, (ListV, TupleV)) or \
                len(a.items) != len(b.items):
            return at
        for i, (p, q) in enumerate(zip(a.items, b.items)):
            q = equal(r, p, q, f'{at}[{i}]')
            if q:
                return q
        return None
    if is_raw(b) or b is None:
        return None if type(a) is type(b) and a == b else at
    if not isinstance(a, S):
        return at
    return None if same(r.f(a), r.f(b)) and a.dt == b.dt else at


def filters(ctx, r):
    cases = (('j0', 'j1'), ('sin', 'cos'), ('j0', ), ('j0', 'j1', 'mine'))
    for names in cases:
        for path in (None, 'a/b', '/abs/dir'):
            for save in (None, 'other-name.v2'):
                if not ctx.mine():
                    continue
                one_filter(ctx, r, names, path, save)


def one_filter(ctx, r, names, path, save):
    fl = 'empymod.filters.DigitalFilter'
    extra = {'filter_coeff': r.L('mine')} if 'mine' in names else {}
    if save:
        extra['savename'] = save
    pk = {} if path is None else {'path': path}
    r.vfs.files.clear()
    f = r.call(fl, 'MyFilt_1', **extra).value
    g = r.call(fl, 'MyFilt_1', **extra).value
    base = [r.N(f'b{i}', 10.**i) for i in range(4)]
    f.attrs['base'] = r.w.arr(base)
    for k in names:
        f.attrs[k] = r.w.arr([r.N(f'{k}_{i}') for i in range(4)])
    n = len(r.vfs.log)
    s = r.call(Bound(f.cls.lookup('tofile'), f), **pk)
    where = 'empymod.filters.DigitalFilter.tofile'
    if not s.ok:
        return fails(ctx, r, s, 'tofile:raise', where, 'tofile fails')
    pre = f'{path or "filters"}/{save or "MyFilt_1"}'
    want = {r.vfs.path(f'{pre}_{k}.txt') for k in ('base', )+names}
    r.holds('tofile:files', wrote(r, n) == want, f'tofile writes '
            f'{sorted(wrote(r, n))}', where)
    s = r.call(Bound(g.cls.lookup('fromfile'), g), **pk)
    where = 'empymod.filters.DigitalFilter.fromfile'
    if not s.ok:
        return fails(ctx, r, s, 'fromfile:raise', where, 'fromfile fails')
    for k in ('base', )+names:
        v = g.attrs.get(k)
        if not r.holds(f'fromfile:{k}', isinstance(v, Arr),
                       f'{k} not loaded', where):
            continue
        r.eq('fromfile:values', v, f.attrs[k],
             f'{k} differs after tofile/fromfile', where)
    more = [k for k in ('j0', 'j1', 'sin', 'cos') if k not in names and
            k in g.attrs]
    r.holds('fromfile:more', not more, f'fromfile invents {more}', where)
    v = g.attrs.get('factor')
    if r.holds('fromfile:factor', isinstance(v, Arr) and v.a is not None and
               v.a.shape == (1,), 'no factor of shape (1,)', where):
        r.eq('fromfile:factor-value', v, r.op('/', base[1], base[0]),
             'factor is not base[1]/base[0]', where)


def reject(ctx, r):
    if not ctx.mine():
        return
    d = data(r, (2, 3, 2), 'c')
    for fn, a in (('save_data', (d, )), ('save_input', (DictV({'a': 1}), )),
                  ('load_data', ()), ('load_input', ())):
        for name in ('f.csv', 'f', 'f.json.gz', 'json', 'a.txt/b',
                     'f.txt' if 'input' in fn else 'f.npz'):
            n = len(r.vfs.log)
            s = r.call(IO+fn, name, *a)
            ok = s.exc is not None and exc_name(s.exc) == 'ValueError'
            r.holds(f'{fn}:extension', ok and not r.vfs.log[n:],
                    f'{fn} accepts the file name {name}', IO+fn)
    for sh in ((2, 3), (4, ), (1, 2, 3, 1)):
        for ext in ('txt', 'json'):
            n = len(r.vfs.log)
            s = r.call(IO+'save_data', 'a.'+ext, data(r, sh, 'f'))
            r.holds('save_data:ndim', s.exc is not None and exc_name(
                s.exc) == 'ValueError' and not r.vfs.log[n:],
                f'save_data accepts data with {len(sh)} dimensions',
                IO+'save_data')
    for fn in ('load_data', 'load_input'):
        s = r.call(IO+fn, 'missing.json')
        r.holds(f'{fn}:missing', s.exc is not None and exc_name(
            s.exc) == 'FileNotFoundError', 'missing file not reported',
            IO+fn)
