"""Digital filters: registry, lazy loading, deprecated names and use.

The filter classes are interpreted with a symbolic libdlf.  Every registered
name must give one DigitalFilter holding exactly the numbers of libdlf under
the names libdlf declares, independently of the history of accesses; a filter
given by name, as instance or as own object gives the same field.
"""
from ..rel import *
from .c16 import fails

LEVEL = 'other'
ASSUME = ['libdlf delivers base and coefficients in its declared order']
FL = 'empymod.filters.'
OLD = {
    'kong_61_2007': ('Hankel', 'kong_61_2007b'),
    'key_81_CosSin_2009': ('Fourier', 'key_81_2009'),
    'key_241_CosSin_2009': ('Fourier', 'key_241_2009'),
    'key_601_CosSin_2009': ('Fourier', 'key_601_2009'),
    'key_101_CosSin_2012': ('Fourier', 'key_101_2012'),
    'key_201_CosSin_2012': ('Fourier', 'key_201_2012'),
    **{n: ('Hankel', n) for n in (
        'kong_241_2007', 'key_101_2009', 'key_201_2009', 'key_401_2009',
        'anderson_801_1982', 'key_51_2012', 'key_101_2012', 'key_201_2012',
        'wer_201_2018')}}
DEFAULT = {'Hankel': 'key_201_2009', 'Fourier': 'key_201_2012'}


def check(ctx):
    ctx.rule('registered name -> numbers of libdlf, one object per name')
    ctx.rule('deprecated function -> the filter of that name, with a warning')
    ctx.rule('name, instance and own filter give the same field')
    ctx.rule('filters without the required coefficients are rejected')
    from ..npmodel import find_libdlf
    lib = find_libdlf()
    r = Rel(ctx)
    if ctx.mine():
        for kind in ('Hankel', 'Fourier'):
            registry(ctx, r, kind, lib[kind.lower()])
        deprecated(ctx, r)
    if ctx.mine():
        # another order of access, interleaved, from new instances
        q = Rel(ctx)
        for kind in ('Fourier', 'Hankel'):
            registry(ctx, q, kind, dict(reversed(
                list(lib[kind.lower()].items()))), order=False)
    if ctx.mine():
        own(ctx, r)
    use(ctx, r, lib)
    r.done()


def get(r, obj, name):
    f = Native(lambda eng, a, kw: eng.getattr(a[0], name), 'getattr')
    return r.call(f, obj)


def registry(ctx, r, kind, names, order=True):
    where = FL + '_BaseFilter.__getattribute__'
    H = r.call(FL+kind).value
    av = get(r, H, 'available')
    r.holds(f'{kind}:available', av.ok and isinstance(av.value, ListV) and
            (list(av.value.items) == list(names) if order else
             set(av.value.items) == set(names)),
            f'{kind}().available is not the list of filters of libdlf', where)
    seen = {}
    for n, vals in names.items():
        s = get(r, H, n)
        if not s.ok:
            fails(ctx, r, s, f'{kind}:get', where, f'{kind}().{n} fails')
            continue
        f = s.value
        if not r.holds(f'{kind}:class', isinstance(f, InstV) and getattr(
                f.cls, 'name', '') == 'DigitalFilter',
                f'{kind}().{n} is no DigitalFilter', where):
            continue
        seen[n] = f
        r.holds(f'{kind}:name', f.attrs.get('name') == n,
                f'{kind}().{n} has the name {f.attrs.get("name")!r}', where)
        content(ctx, r, kind, n, vals, f, where)
    H2 = r.call(FL+kind).value
    for n, f in seen.items():
        for h in (H, H2):
            s = get(r, h, n)
            r.holds(f'{kind}:cache', s.ok and s.value is f,
                    f'second access of {kind}().{n} gives another object',
                    where)
        content(ctx, r, kind, n, names[n], f, where)
    for n in ('key_999_2099', 'Key_201_2009', ''):
        s = get(r, H, n)
        r.holds(f'{kind}:unknown', s.exc is not None and exc_name(
            s.exc) == 'AttributeError', f'{kind}().{n or "(empty)"} does not '
            f'raise AttributeError', where)


def content(ctx, r, kind, n, vals, f, where):
    lib = r.w.call(Ext(f'libdlf.{kind.lower()}.{n}')).value
    for i, k in enumerate(['base'] + list(vals)):
        v = f.attrs.get(k)
        if r.holds(f'{kind}:{k}', isinstance(v, Arr) and v.a is not None and
                   v.a.shape == lib.a.shape[1:],
                   f'{kind}().{n} has no array {k}', where):
            r.eq(f'{kind}:{k}', v, Arr(lib.a[i], 'f'),
                 f'{k} of {kind}().{n} is not that of libdlf', where)
    more = [k for k in ('j0', 'j1', 'j2', 'sin', 'cos')
            if k in f.attrs and k not in vals]
    r.holds(f'{kind}:more', not more, f'{kind}().{n} has {more}', where)
    v = f.attrs.get('factor')
    if r.holds(f'{kind}:factor', isinstance(v, Arr) and v.a is not None and
               v.a.shape == (1,), f'{kind}().{n} has no factor', where):
        r.eq(f'{kind}:factor', v, r.op('/', lib.a[0, 1], lib.a[0, 0]),
             f'factor of {kind}().{n} is not base[1]/base[0]', where)


def deprecated(ctx, r):
    for old, (kind, new) in OLD.items():
        s = r.call(FL+old)
        where = FL+old
        if not s.ok:
            fails(ctx, r, s, 'deprecated:raise', where, f'{old}() fails')
            continue
        w = s.kinds('warn')
        r.holds('deprecated:warn', len(w) == 1 and any(
            isinstance(q, Ext) and q.path.endswith('DeprecationWarning')
            for q in w[0].data), f'{old}() gives no DeprecationWarning',
            where)
        f = get(r, r.call(FL+kind).value, new)
        r.holds('deprecated:filter', f.ok and s.value is f.value,
                f'{old}() is not {kind}().{new}', where)
        msg = ' '.join(str(q) for q in w[0].data) if w else ''
        r.holds('deprecated:text', f'{kind}().{new}`' in msg,
                f'the warning of {old}() does not name {kind}().{new}', where)


def make(r, names, n=4, name='mine', tag=''):
    f = r.call(FL+'DigitalFilter', name).value
    for k in names:
        f.attrs[k] = r.w.arr([r.N(f'{tag}{k}{i}', 10.**(i-1) if k == 'base'
                                  else NOC)
                              for i in range(n)])
    if 'base' in names:
        b = f.attrs['base'].a
        f.attrs['factor'] = r.w.arr([r.op('/', b[1], b[0])])
    return f


def own(ctx, r):
    """Name, instance and equal own filter; missing parts are rejected."""
    for kind, fn, need in (
            ('Hankel', 'check_hankel', ('base', 'j0', 'j1', 'factor')),
            ('sin', 'check_time', ('base', 'sin', 'factor')),
            ('cos', 'check_time', ('base', 'cos', 'factor'))):
        where = 'empymod.utils.'+fn
        for miss in (None, )+need:
            f = make(r, [k for k in need if k != 'factor'])
            for k in ('j0', 'j1', 'sin', 'cos'):
                if k not in need:
                    f.attrs.pop(k, None)
            if miss is not None:
                f.attrs.pop(miss, None)
            d = r.w.dct(dlf=f, pts_per_dec=0)
            if kind == 'Hankel':
                s = r.call(where, 'dlf', d, 0)
            else:
                s = r.call(where, r.L(1., 2.), 1 if kind == 'sin' else -1,
                           'dlf', d, 0)
            if miss is None:
                if not s.ok:
                    fails(ctx, r, s, f'own:{kind}', where,
                          f'own filter with {need} rejected')
                else:
                    ctx.ok()
            else:
                r.holds(f'own:{kind}:{miss}', s.exc is not None and exc_name(
                    s.exc) == 'AttributeError', f'filter without {miss} is '
                    f'accepted as {kind} filter', where)
        name = 'nofilter_1_1999'
        d = r.w.dct(dlf=name)
        s = r.call(where, *(('dlf', d, 0) if kind == 'Hankel' else
                            (r.L(1., 2.), 1, 'dlf', d, 0)))
        r.holds(f'own:{kind}:name', s.exc is not None and exc_name(
            s.exc) == 'AttributeError', f'unknown filter name accepted',
            where)


def use(ctx, r, lib):
    g = Geo(r)
    m = r.model(2)
    lists = {'ht': ['key_101_2009', 'wer_201_2018', 'anderson_801_1982'],
             'ft': ['key_81_2009', 'key_601_2009', 'grayver_50_2021']}
    for w, kind in (('ht', 'Hankel'), ('ft', 'Fourier')):
        for ppd in (0, -1, 1):
            for sig in ((None, ) if w == 'ht' else (0, 1, -1)):
                if not ctx.mine():
                    continue
                H = r.call(FL+kind).value
                res = {}
                need = 'j1' if w == 'ht' else 'cos' if sig == -1 else 'sin'
                for n in lists[w] + [None]:
                    if need not in lib[kind.lower()].get(
                            n or DEFAULT[kind], ()):
                        continue
                    n_ = n or DEFAULT[kind]
                    f = get(r, H, n_)
                    if not f.ok or not isinstance(f.value, InstV):
                        fails(ctx, r, f, f'use:{kind}:get', FL+kind,
                              f'{kind}().{n_} fails')
                        continue
                    f = f.value
                    c = r.call(FL+'DigitalFilter', 'copy').value
                    c.attrs.update({k: v for k, v in f.attrs.items()
                                    if isinstance(v, Arr)})
                    out = []
                    for v in (n_, f, c) if n else (n_, ABSENT):
                        d = {'pts_per_dec': ppd}
                        if v is not ABSENT:
                            d['dlf'] = v
                        kw = {w+'arg': DictV(d)}
                        if w == 'ft':
                            kw.update(signal=sig, ft='dlf', freq=r.L(
                                r.N('t0', 1.), r.N('t1', 3.)))
                        out.append(r.dipole(11, g.src[:3], g.rec[:3], m, **kw))
                    for o in out[1:]:
                        r.eq(f'use:{kind}', o, out[0], f'{kind} filter {n_} '
                             f'given by name and as object (or by default) '
                             f'give different fields', 'empymod.utils.' + (
                                 'check_hankel' if w == 'ht' else
                                 'check_time'))
                    res[n_] = [q.key if q is not None else None
                               for q in r.fs(out[0].value)] if out[0].ok \
                        else None
                vals = [str(v) for v in res.values() if v is not None]
                r.holds(f'use:{kind}:differ', len(set(vals)) == len(vals),
                        f'different {kind} filters give the same field',
                        'empymod.transform.dlf')
