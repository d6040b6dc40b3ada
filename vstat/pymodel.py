"""Models of Python builtins, containers and attribute access."""
import builtins
import operator

import numpy as np

from .values import (
    S, Arr, ListV, SetV, TupleV, DictV, InstV, Alt, FuncV, Bound, ClassV,
    ModV, Ext, Native, DtypeV, SliceV, RangeV, SuperV, ExcV, Obj, E0, NOC,
    ABSENT, UNBOUND, is_raw, is_scalar, dtchar, promote, oarr, full)
from . import engine as _E

INTR = {}
ATTR = {}


def intr(*names):
    def deco(fn):
        for n in names:
            INTR[n] = fn
        return fn
    return deco


def attrs(*types):
    def deco(fn):
        for t in types:
            ATTR[t] = fn
        return fn
    return deco


def miss(eng, o, name, default):
    if default is not _E._MISSING:
        return default
    eng.throw('AttributeError', f'{o!r:.60} has no attribute {name}')


def native(fn, name):
    return Native(fn, name)


def arg(args, kw, i, name, default=None):
    if i < len(args):
        return args[i]
    return kw.get(name, default)


def unk(eng, *vals, dt='?', lab=None):
    e = x = E0
    for v in vals:
        a, b = eng.deps(v)
        e, x = e | a, x | b
    if lab:
        e = e | {lab}
    return eng.mk(dt, e=e, x=x)


def elements(eng, it):
    """(items, unk) of an iterable."""
    items, u = [], None
    for d, v, _x in eng.iterate(it):
        if d and u is None:
            items.append(v)
        else:
            u = eng.join_opt(u, v)
    return items, u


def walt(fn):
    """Wrap: map over alternatives of positional arguments."""
    def w(eng, args, kw):
        if any(isinstance(a, Alt) for a in args):
            return eng.alt_map(lambda *a: fn(eng, list(a), kw), *args)
        return fn(eng, args, kw)
    return w


def ub(eng, n):
    return eng.mk('i', p=('ub', n))


# ---------------------------------------------------------------- builtins
@intr('builtins.len')
@walt
def b_len(eng, a, kw):
    v = a[0]
    if isinstance(v, (ListV, TupleV)):
        if v.unk is None:
            if isinstance(v, SetV):
                ks = [eng.ckey(i) for i in v.items]
                if NOC in ks:
                    return eng.mk('i')
                return len(set(ks))
            return len(v.items)
        return unk(eng, v.unk, dt='i')
    if isinstance(v, DictV):
        if v.open is None and not any(isinstance(q, Alt) and ABSENT in q.opts
                                      for q in v.items.values()):
            return len(v.items)
        return unk(eng, v, dt='i')
    if isinstance(v, str):
        return len(v)
    if isinstance(v, Arr):
        sh = eng.shape(v)
        if sh == ():
            eng.throw('TypeError', 'len() of unsized object')
        if sh and sh[0] is not None:
            return sh[0]
        if v.a is not None:
            return ub(eng, v.a.shape[0])
        return eng.mk('i', x=eng.summ(v).x)
    if isinstance(v, RangeV):
        cs = [eng.cint(q) for q in (v.lo, v.hi, v.st)]
        if None not in cs:
            return len(range(*cs))
        return unk(eng, v, dt='i')
    if isinstance(v, InstV):
        m = eng.find_attr(v, '__len__')
        if m is not None:
            return eng.call(m, [], {})
    if v is None or isinstance(v, (bool, int, float, complex)) or \
            isinstance(v, S) and v.dt in 'bifc':
        eng.throw('TypeError', f'object {v!r} has no len()')
    if isinstance(v, S) and isinstance(v.c, str):
        return len(v.c)
    return unk(eng, v, dt='i')


@intr('builtins.range')
def b_range(eng, a, kw):
    a = [eng.lift_alt(v) if isinstance(v, Alt) else v for v in a]
    a = [v.a.flat[0] if isinstance(v, Arr) and v.a is not None and
         v.a.size == 1 else v for v in a]
    for v in a:
        if isinstance(v, float) or isinstance(v, S) and v.dt == 'f':
            eng.throw('TypeError', 'float in range')
    if len(a) == 1:
        return RangeV(0, a[0], 1)
    return RangeV(a[0], a[1], a[2] if len(a) > 2 else 1)


@intr('builtins.enumerate')
def b_enum(eng, a, kw):
    st = arg(a, kw, 1, 'start', 0)
    items, u = elements(eng, a[0])
    c = eng.cint(st)
    out = []
    for i, v in enumerate(items):
        out.append(TupleV([c + i if c is not None else eng.mk('i'), v]))
    return ListV(out, None if u is None else TupleV(
        [unk(eng, u, dt='i') if False else eng.mk('i'), u]))


@intr('builtins.zip', 'itertools.zip_longest')
def b_zip(eng, a, kw):
    cols = [elements(eng, v) for v in a]
    n = min([len(c[0]) for c in cols] or [0])
    out = [TupleV([c[0][i] for c in cols]) for i in range(n)]
    if all(c[1] is not None or len(c[0]) > n for c in cols) and cols:
        el = []
        for c in cols:
            u = c[1]
            for v in c[0][n:]:
                u = eng.join_opt(u, v)
            el.append(u)
        return ListV(out, TupleV(el))
    return ListV(out)


@intr('itertools.product')
def b_product(eng, a, kw):
    cols = [elements(eng, v) for v in a]
    if any(c[1] is not None for c in cols):
        return ListV([], TupleV([_joinall(eng, c[0], c[1]) for c in cols]))
    out = [()]
    for c in cols:
        out = [o + (v,) for o in out for v in c[0]]
    return ListV([TupleV(o) for o in out])


@intr('itertools.chain')
def b_chain(eng, a, kw):
    items, u = [], None
    for v in a:
        i, w = elements(eng, v)
        if u is None:
            items += i
        else:
            for k in i:
                u = eng.join_opt(u, k)
        if w is not None:
            u = eng.join_opt(u, w)
    return ListV(items, u)


def _joinall(eng, items, u=None):
    for v in items:
        u = eng.join_opt(u, v)
    return u


@intr('builtins.list', 'builtins.iter')
def b_list(eng, a, kw):
    if not a:
        return ListV(own=eng.own_label())
    i, u = elements(eng, a[0])
    return ListV(i, u, own=eng.own_label())


@intr('builtins.tuple')
def b_tuple(eng, a, kw):
    if not a:
        return TupleV()
    if isinstance(a[0], TupleV):
        return a[0]
    i, u = elements(eng, a[0])
    return TupleV(i, u)


@intr('builtins.set', 'builtins.frozenset')
def b_set(eng, a, kw):
    if not a:
        return SetV(own=eng.own_label())
    items, u = elements(eng, a[0])
    out, seen = [], set()
    for v in items:
        k = eng.ckey(v)
        if k is NOC:
            out.append(v)
        elif k not in seen:
            seen.add(k)
            out.append(v)
    return SetV(out, u, own=eng.own_label())


@intr('builtins.dict', 'collections.OrderedDict')
def b_dict(eng, a, kw):
    d = DictV(own=eng.own_label())
    if a:
        if isinstance(a[0], (DictV, Alt, S)):
            eng.dict_update(d, a[0])
        elif isinstance(a[0], InstV) and eng.find_attr(a[0], 'keys'):
            d.open = unk(eng, a[0])
        else:
            items, u = elements(eng, a[0])
            for p in items:
                k, v = eng.unpack(p, [None, None])
                eng.dict_put(d, k, v)
            if u is not None:
                k, v = eng.unpack(u, [None, None])
                d.open = v
    for k, v in kw.items():
        d.items[k] = v
    if getattr(kw, 'open', None) is not None:
        d.open = kw.open
    return d


@intr('builtins.dict.fromkeys')
def b_fromkeys(eng, a, kw):
    d = DictV(own=eng.own_label())
    items, u = elements(eng, a[0])
    v = a[1] if len(a) > 1 else None
    for k in items:
        eng.dict_put(d, k, v)
    if u is not None:
        d.open = v if v is not None else eng.mk('?')
    return d


@intr('builtins.isinstance')
def b_isinst(eng, a, kw):
    if isinstance(a[0], S) and a[0].c is NOC and a[0].dt in '?o':
        return unk(eng, a[0], dt='b')
    if isinstance(a[0], Alt):
        r = eng.isinstance_(a[0], a[1])
        return r if r is not None else eng.mk('b', x=a[0].x)
    r = eng.isinstance_(a[0], a[1])
    if r is None:
        return unk(eng, dt='b')
    return r


@intr('builtins.issubclass')
def b_issub(eng, a, kw):
    if isinstance(a[0], ClassV):
        return a[1] in a[0].mro()
    return eng.mk('b')


@intr('builtins.callable')
def b_callable(eng, a, kw):
    r = eng.is_callable(a[0])
    return unk(eng, a[0], dt='b') if r is None else r


def has_attr(eng, o, n):
    """True/False/None"""
    if isinstance(o, Alt):
        rs = {has_attr(eng, p, n) for p in o.opts
              if p is not ABSENT and p is not UNBOUND}
        return rs.pop() if len(rs) == 1 else None
    if isinstance(o, InstV):
        v = o.attrs.get(n)
        if v is not None and not (isinstance(v, Alt) and UNBOUND in v.opts):
            return True
        if n in o.attrs and v is None:
            return True
        if n in o.attrs:
            return None
        if isinstance(o.cls, ClassV):
            if o.cls.lookup(n) is not None:
                return True
            if o.cls.lookup('__getattr__') is not None or \
                    o.cls.lookup('__getattribute__') is not None:
                try:
                    eng.getattr(o, n)
                    return True
                except _E.RaiseSig:
                    return False
            if n in dir(object):
                return True
        return None if o.open is not None or not isinstance(
            o.cls, ClassV) else False
    if isinstance(o, Arr):
        if o.cls is not None and o.cls.lookup(n) is not None:
            return True
        return hasattr(np.empty(0), n)
    if isinstance(o, S):
        if o.dt in 'bifc':
            return None if not hasattr(1.0, n) else True
        if o.dt == 's':
            return hasattr("", n)
        return None
    if is_raw(o):
        return hasattr(o, n)
    if isinstance(o, ListV):
        return hasattr(set() if isinstance(o, SetV) else [], n)
    if isinstance(o, TupleV):
        return hasattr((), n)
    if isinstance(o, DictV):
        return hasattr({}, n)
    if isinstance(o, FuncV):
        return n in o.attrs or hasattr(has_attr, n)
    if isinstance(o, ModV):
        return n in o.vars
    if isinstance(o, ClassV):
        return o.lookup(n) is not None
    if isinstance(o, Ext):
        if o.path.startswith('libdlf.'):
            try:
                eng.getattr(o, n)
                return True
            except _E.RaiseSig:
                return False
        return None
    return None


@intr('builtins.hasattr')
def b_hasattr(eng, a, kw):
    n = eng.cval(a[1])
    if n is NOC:
        return unk(eng, a[1], dt='b')
    r = has_attr(eng, a[0], n)
    return unk(eng, dt='b') if r is None else r


@intr('builtins.getattr')
def b_getattr(eng, a, kw):
    d = a[2] if len(a) > 2 else _E._MISSING
    if isinstance(a[1], Alt):
        return eng.alt_map(lambda n: b_getattr(eng, [a[0], n]+a[2:], kw),
                           a[1])
    n = eng.cval(a[1])
    if n is NOC:
        vals = None
        if isinstance(a[0], InstV):
            for v in a[0].attrs.values():
                vals = eng.join_opt(vals, v)
        e, x = eng.deps(a[1])
        if vals is None:
            return unk(eng, a[0], a[1])
        return eng.addx(vals, x, e)
    if d is not _E._MISSING:
        r = has_attr(eng, a[0], n)
        if r is False:
            return d
        if r is True:
            return eng.getattr(a[0], n)
        try:
            return eng.join(eng.getattr(a[0], n), d)
        except _E.RaiseSig:
            return d
    return eng.getattr(a[0], n)


@intr('builtins.setattr', 'builtins.object.__setattr__')
def b_setattr(eng, a, kw):
    n = eng.cval(a[1])
    if n is NOC:
        o = a[0]
        if isinstance(o, InstV):
            eng.mutate(o, '.? =')
            for k in list(o.attrs):
                eng.jset(o.attrs, k, eng.join(o.attrs[k], a[2]))
            eng.jattr(o, 'open', a[2])
        return None
    eng.setattr(a[0], n, a[2])
    return None


@intr('builtins.delattr')
def b_delattr(eng, a, kw):
    o = a[0]
    eng.mutate(o, 'delattr')
    if isinstance(o, InstV):
        eng.jdel(o.attrs, eng.cval(a[1]))


@intr('builtins.object.__getattribute__')
def b_objga(eng, a, kw):
    n = eng.cval(a[1])
    if n is NOC:
        return unk(eng, a[0], a[1])
    return inst_attr(eng, a[0], n, _E._MISSING, raw=True)


@intr('builtins.vars')
def b_vars(eng, a, kw):
    if not a:
        return b_locals(eng, a, kw)
    o = a[0]
    if isinstance(o, InstV):
        d = DictV(own=o.own)
        d.items = o.attrs
        return d
    if isinstance(o, ModV):
        d = DictV(own='import:'+o.name)
        d.items = o.vars
        return d
    return unk(eng, o)


@intr('builtins.locals')
def b_locals(eng, a, kw):
    return DictV({k: v for k, v in eng.frames[-1].vars.items()})


@intr('builtins.globals')
def b_globals(eng, a, kw):
    m = eng.frames[-1].module
    d = DictV(own='import:'+m.name)
    d.items = m.vars
    return d


@intr('builtins.abs')
def b_abs(eng, a, kw):
    return eng.unop('abs', a[0])


@intr('builtins.round')
@walt
def b_round(eng, a, kw):
    v = a[0]
    if len(a) == 1:
        r = eng.unop('round', v)
        if is_scalar(r):
            return eng.sun('int', r)
        return r
    if is_raw(v) and is_raw(a[1]):
        return round(v, a[1])
    return eng.intrinsics['numpy.round'](eng, list(a), {})


@intr('builtins.divmod')
def b_divmod(eng, a, kw):
    return TupleV([eng.binop('FloorDiv', *a), eng.binop('Mod', *a)])


@intr('builtins.pow')
def b_pow(eng, a, kw):
    return eng.binop('Pow', a[0], a[1])


def minmax(eng, name, items):
    out = items[0]
    for v in items[1:]:
        out = mm2(eng, name, out, v)
    return out


def mm2(eng, name, p, q):
    if p is q:
        return p
    p, q = [v.a.flat[0] if isinstance(v, Arr) and v.a is not None and
            v.a.size == 1 else v for v in (p, q)]
    cp, cq = eng.cval(p), eng.cval(q)
    if is_raw(p) and is_raw(q):
        try:
            if isinstance(p, complex) or isinstance(q, complex):
                return p
            if p != p:
                return p
            return (max if name == 'max' else min)(p, q)
        except TypeError:
            eng.throw('TypeError', 'max of mixed types')
    if not is_scalar(p) or not is_scalar(q):
        return eng.join(p, q)
    r = eng.sfn(name, [p, q], promote(dtchar(p), dtchar(q)))
    if cp is not NOC and cq is not NOC:
        try:
            r.c = (max if name == 'max' else min)(cp, cq)
        except TypeError:
            pass
    elif isinstance(p, S) and isinstance(q, S) and name == 'max':
        pass
    return r


def b_mm(name):
    def fn(eng, a, kw):
        if len(a) == 1:
            if isinstance(a[0], Alt):
                return eng.alt_map(lambda v: fn(eng, [v], kw), a[0])
            items, u = elements(eng, a[0])
            if u is not None:
                items = items + [u]
        else:
            items = [eng.lift_alt(v) if isinstance(v, Alt) else v for v in a]
            items = [v.a.flat[0] if isinstance(v, Arr) and v.a is not None
                     and v.a.size == 1 else v for v in items]
        if not items:
            if 'default' in kw:
                return kw['default']
            eng.throw('ValueError', f'{name}() of empty sequence')
        if 'key' in kw:
            return _joinall(eng, items)
        if all(isinstance(v, str) for v in items):
            return (max if name == 'max' else min)(items)
        return minmax(eng, name, items)
    return fn


INTR['builtins.max'] = b_mm('max')
INTR['builtins.min'] = b_mm('min')


@intr('builtins.sum', 'math.fsum')
@walt
def b_sum(eng, a, kw):
    st = arg(a, kw, 1, 'start', 0)
    items, u = elements(eng, a[0])
    for v in items:
        if isinstance(v, bool):
            v = int(v)
        st = eng.binop('Add', st, v)
        if isinstance(st, S) and st.dt == 'b':
            st = eng.cast(st, 'i')
    if u is not None:
        w = eng.binop('Add', st, u)
        st = eng.join(st, w)
    return st


def b_anyall(isany):
    def fn(eng, a, kw):
        if isinstance(a[0], Alt):
            return eng.alt_map(lambda v: fn(eng, [v], kw), a[0])
        items, u = elements(eng, a[0])
        e = x = E0
        unknown = u is not None
        if unknown:
            c, e1, x1 = eng.truth(u)
            e, x = e | e1, x | x1
        for v in items:
            c, e1, x1 = eng.truth(v)
            if c is isany:
                return isany
            e, x = e | e1, x | x1
            if c is None:
                unknown = True
        if unknown:
            return eng.mk('b', e=e, x=x)
        return (not isany) if not (e or x) else eng.mkc(not isany, e, x)
    return fn


INTR['builtins.any'] = b_anyall(True)
INTR['builtins.all'] = b_anyall(False)


def to_num(eng, v, kind):
    py = {'int': int, 'float': float, 'complex': complex, 'bool': bool}[kind]
    dt = {'int': 'i', 'float': 'f', 'complex': 'c', 'bool': 'b'}[kind]
    if isinstance(v, Alt):
        return eng.alt_map(lambda o: to_num(eng, o, kind), v)
    if kind == 'bool':
        c, e, x = eng.truth(v)
        if c is None:
            return eng.mk('b', e=e, x=x)
        return c
    if is_raw(v):
        try:
            return py(v)
        except (TypeError, ValueError, OverflowError) as ex:
            eng.throw(type(ex).__name__, str(ex))
    if isinstance(v, Arr):
        if v.a is not None:
            if v.a.size != 1:
                if not v.masked:
                    eng.throw('TypeError', 'only length-1 arrays can be '
                              'converted to Python scalars')
                return to_num(eng, eng.summ(v), kind)
            return to_num(eng, v.a.flat[0], kind)
        return to_num(eng, eng.summ(v), kind)
    if isinstance(v, S):
        if v.c is not NOC and not (v.c is None):
            try:
                c = py(v.c)
                r = eng.mkc(c, v.e, v.x)
                return r
            except (TypeError, ValueError, OverflowError) as ex:
                eng.throw(type(ex).__name__, str(ex))
        if v.dt == 'c' and kind in ('int', 'float'):
            eng.throw('TypeError', f'{kind}() of complex')
        if v.dt == dt:
            return v
        if v.dt in 'bifc':
            return eng.sun(kind, v) if kind != 'complex' else eng.cast(v, 'c')
        return eng.mk(dt, e=v.e, x=v.x)
    if isinstance(v, (ListV, TupleV, DictV)) or v is None:
        eng.throw('TypeError', f'{kind}() of container')
    return unk(eng, v, dt=dt)


for _k in ('int', 'float', 'complex', 'bool'):
    def _mk(k):
        def fn(eng, a, kw):
            if not a:
                return {'int': 0, 'float': 0., 'complex': 0j,
                        'bool': False}[k]
            if len(a) == 2 and k == 'complex':
                return eng.binop('Add', a[0], eng.binop('Mult', 1j, a[1]))
            return to_num(eng, a[0], k)
        return fn
    INTR['builtins.'+_k] = _mk(_k)


@intr('builtins.str')
def b_str(eng, a, kw):
    if not a:
        return ''
    return eng.to_str(a[0]) if not isinstance(a[0], Alt) else \
        eng.alt_map(eng.to_str, a[0])


@intr('builtins.repr', 'builtins.format', 'builtins.ascii', 'builtins.bin',
      'builtins.hex', 'builtins.chr')
def b_repr(eng, a, kw):
    if is_raw(a[0]) and len(a) == 1:
        return repr(a[0])
    return unk(eng, a[0], dt='s')


@intr('builtins.print')
def b_print(eng, a, kw):
    eng.event('print', str(a[0])[:60] if a else '', list(a))
    return None


@intr('warnings.warn', 'warnings.warn_explicit')
def w_warn(eng, a, kw):
    eng.event('warn', '', list(a) + list(kw.values()))
    return None


@intr('builtins.open', 'io.open', 'codecs.open')
def b_open(eng, a, kw):
    mode = arg(a, kw, 1, 'mode', 'r')
    f = InstV(Ext('builtins.file'), {'__kind__': 'file', 'path': a[0],
                                     'mode': mode,
                                     'encoding': kw.get('encoding')})
    eng.event('open', str(eng.cval(mode)), f)
    return f


@intr('builtins.sorted')
@walt
def b_sorted(eng, a, kw):
    items, u = elements(eng, a[0])
    if u is None and all(is_raw(v) for v in items) and 'key' not in kw:
        try:
            return ListV(sorted(items, reverse=bool(
                eng.truth(kw.get('reverse', False))[0])))
        except TypeError:
            eng.throw('TypeError', 'sorted')
    if u is None and len(items) <= 1:
        return ListV(items)
    j = _joinall(eng, items, u)
    if u is None:
        return ListV([j]*len(items))
    return ListV([], j)


@intr('builtins.reversed')
def b_reversed(eng, a, kw):
    items, u = elements(eng, a[0])
    if u is None:
        return ListV(items[::-1])
    return ListV([], _joinall(eng, items, u))


@intr('builtins.map')
def b_map(eng, a, kw):
    items, u = elements(eng, b_zip(eng, a[1:], {}) if len(a) > 2 else a[1])
    out = [eng.call(a[0], list(v.items) if len(a) > 2 else [v], {})
           for v in items]
    w = None if u is None else eng.call(
        a[0], list(u.items) if len(a) > 2 else [u], {})
    return ListV(out, w)


@intr('builtins.filter')
def b_filter(eng, a, kw):
    items, u = elements(eng, a[1])
    out, w = [], u
    for v in items:
        t = v if a[0] is None else eng.call(a[0], [v], {})
        c = eng.truth(t)[0]
        if c is True and w is None:
            out.append(v)
        elif c is not False:
            w = eng.join_opt(w, v)
    return ListV(out, w)


@intr('builtins.next')
def b_next(eng, a, kw):
    items, u = elements(eng, a[0])
    if items:
        if isinstance(a[0], ListV):
            eng.jlist(a[0])
            a[0].items = a[0].items[1:]
        return items[0]
    if u is not None:
        return u if len(a) < 2 else eng.join(u, a[1])
    if len(a) > 1:
        return a[1]
    eng.throw('StopIteration')


@intr('builtins.slice')
def b_slice(eng, a, kw):
    if len(a) == 1:
        return SliceV(None, a[0], None)
    return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)


@intr('builtins.type')
def b_type(eng, a, kw):
    v = a[0]
    if isinstance(v, InstV):
        return v.cls
    if isinstance(v, Arr):
        return v.cls if v.cls is not None else Ext('numpy.ndarray')
    for t, n in ((ListV, 'list'), (DictV, 'dict'), (TupleV, 'tuple'),
                 (SetV, 'set')):
        if type(v) is t:
            return Ext('builtins.'+n)
    if is_raw(v):
        return Ext('builtins.'+type(v).__name__)
    if isinstance(v, S) and v.dt == 's':
        return Ext('builtins.str')
    if isinstance(v, (ClassV,)):
        return Ext('builtins.type')
    return unk(eng, v)


@intr('builtins.super')
def b_super(eng, a, kw):
    fr = eng.frames[-1]
    f = fr
    while f is not None and (f.func is None or f.func.cls is None):
        f = f.parent
    if f is None:
        return eng.mk()
    n = f.func.node.args
    names = [p.arg for p in n.posonlyargs + n.args]
    return SuperV(f.func.cls, f.vars.get(names[0]) if names else None)


@intr('builtins.object')
def b_object(eng, a, kw):
    return InstV(Ext('builtins.object'), own=eng.own_label())


@intr('builtins.id', 'builtins.hash')
def b_id(eng, a, kw):
    eng.event('nondet', 'id/hash')
    return unk(eng, *a, dt='i', lab='NONDET')


@intr('builtins.input')
def b_input(eng, a, kw):
    eng.event('nondet', 'input')
    return unk(eng, dt='s', lab='NONDET')


@intr('builtins.exit', 'sys.exit', 'builtins.quit', 'os._exit')
def b_exit(eng, a, kw):
    eng.event('exit', '', list(a))
    raise _E.RaiseSig(_E.ExcV(Ext('builtins.SystemExit'), tuple(a), False))


@intr('functools.partial')
def b_partial(eng, a, kw):
    f, pre, k0 = a[0], list(a[1:]), dict(kw)

    def fn(eng, args, kwargs):
        k = dict(k0)
        k.update(kwargs)
        if getattr(kwargs, 'open', None) is not None:
            k = _E.KwOpen(k, kwargs.open)
        return eng.call(f, pre + list(args), k)
    return InstV(Ext('functools.partial'), {
        '__call__': Native(fn, 'partial'), 'func': f, 'args': TupleV(pre)})


@intr('functools.wraps')
def b_wraps(eng, a, kw):
    return Native(lambda eng, args, kw: args[0], 'wraps')


@intr('functools.reduce')
def b_reduce(eng, a, kw):
    items, u = elements(eng, a[1])
    acc = a[2] if len(a) > 2 else items.pop(0)
    for v in items:
        acc = eng.call(a[0], [acc, v], {})
    if u is not None:
        acc = eng.join(acc, eng.call(a[0], [acc, u], {}))
    return acc


@intr('functools.lru_cache', 'functools.cache')
def b_lru(eng, a, kw):
    if a and isinstance(a[0], FuncV):
        eng.event('cached-function', a[0].name)
        return a[0]
    return Ext('functools.lru_cache')


@intr('numba.njit', 'numba.jit', 'numba.vectorize', 'numba.guvectorize')
def nb_njit(eng, a, kw):
    if a and isinstance(a[0], (FuncV, Bound, Native)):
        return a[0]
    return Native(lambda eng, args, k: args[0], 'njit')


# --------------------------------------------------------------- copying
def deepcopy(eng, v, memo=None):
    memo = {} if memo is None else memo
    if is_raw(v) or isinstance(v, (S, Ext, FuncV, ClassV, ModV, Native,
                                   DtypeV, Bound, RangeV)):
        return v
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, Arr):
        return arr_copy(eng, v)
    if isinstance(v, ListV):
        r = type(v)([], None, own=eng.own_label())
        memo[id(v)] = r
        r.items = [deepcopy(eng, i, memo) for i in v.items]
        r.unk = None if v.unk is None else deepcopy(eng, v.unk, memo)
        return r
    if isinstance(v, TupleV):
        return TupleV([deepcopy(eng, i, memo) for i in v.items],
                      None if v.unk is None else deepcopy(eng, v.unk, memo))
    if isinstance(v, DictV):
        r = DictV(own=eng.own_label())
        memo[id(v)] = r
        r.items = {k: deepcopy(eng, i, memo) for k, i in v.items.items()}
        r.open = None if v.open is None else deepcopy(eng, v.open, memo)
        return r
    if isinstance(v, InstV):
        r = InstV(v.cls, {}, own=eng.own_label(), open=v.open)
        memo[id(v)] = r
        r.attrs = {k: deepcopy(eng, i, memo) for k, i in v.attrs.items()}
        return r
    if isinstance(v, Alt):
        return Alt([deepcopy(eng, o, memo) for o in v.opts], v.x)
    return v


def arr_copy(eng, v):
    if v.a is None:
        return Arr(None, v.dt, E0, cell=[v.cell[0]], shp=v.shp, cls=v.cls)
    return Arr(np.array(v.a, dtype=object, copy=True).reshape(v.a.shape),
               v.dt, E0, masked=v.masked, cls=v.cls)


@intr('copy.deepcopy')
def c_deepcopy(eng, a, kw):
    return deepcopy(eng, a[0])


@intr('copy.copy')
def c_copy(eng, a, kw):
    return shallow(eng, a[0])


def shallow(eng, v):
    if isinstance(v, Arr):
        return arr_copy(eng, v)
    if isinstance(v, ListV):
        return type(v)(v.items, v.unk, own=eng.own_label())
    if isinstance(v, DictV):
        return DictV(v.items, v.open, own=eng.own_label())
    if isinstance(v, InstV):
        return InstV(v.cls, dict(v.attrs), own=eng.own_label(), open=v.open)
    if isinstance(v, Alt):
        return Alt([shallow(eng, o) for o in v.opts], v.x)
    return v


# ------------------------------------------------------------- attributes
def method(o, fn, name):
    return Native(lambda eng, a, kw: fn(eng, o, a, kw), name)


@attrs(ModV)
def mod_attr(eng, o, n, default):
    if n in o.vars:
        if eng.global_read is not None and not eng.phase:
            eng.global_read(o.name, n)
        v = o.vars[n]
        if isinstance(v, Alt) and UNBOUND in v.opts:
            keep = [p for p in v.opts if p is not UNBOUND]
            return keep[0] if len(keep) == 1 else Alt(keep, v.x)
        return v
    if n == '__dict__':
        d = DictV(own='import:'+o.name)
        d.items = o.vars
        return d
    if eng.modfile(o.name + '.' + n):
        return eng.load(o.name + '.' + n)
    return miss(eng, o, n, default)


@attrs(ClassV)
def class_attr(eng, o, n, default):
    v = o.lookup(n)
    if v is None:
        if n in ('__name__', '__qualname__'):
            return o.name
        if n == '__module__':
            return o.module.name
        if n == '__doc__':
            return eng.mk('s')
        if n == '__dict__':
            d = DictV(own=o.own)
            d.items = o.attrs
            return d
        for c in o.mro():
            if isinstance(c, Ext) and c.path != 'builtins.object':
                return Ext(c.path + '.' + n)
        if n in dir(object):
            return Ext('builtins.object.' + n)
        if n in o.attrs:
            return None
        return miss(eng, o, n, default)
    if isinstance(v, InstV) and isinstance(v.cls, Ext):
        if v.cls.path == 'builtins.staticmethod':
            return v.attrs['fget']
        if v.cls.path == 'builtins.classmethod':
            return Bound(v.attrs['fget'], o)
    return v


@attrs(FuncV)
def func_attr(eng, o, n, default):
    if n in o.attrs:
        return o.attrs[n]
    if n in ('__name__', '__qualname__'):
        return o.name.split('.')[-1]
    if n == '__doc__':
        return eng.mk('s')
    if n == '__module__':
        return o.module.name
    if n == '__defaults__':
        return TupleV(o.defaults)
    if n == '__wrapped__' or n == 'py_func':
        return o
    if n in ('__code__', '__dict__', '__signature__', '__annotations__'):
        return eng.mk()
    if n in ('cache_clear', 'cache_info'):
        return Native(lambda eng, a, k: None, n)
    if n == '__call__':
        return o
    return miss(eng, o, n, default)


@attrs(Bound, Native)
def bound_attr(eng, o, n, default):
    if n == '__self__' and isinstance(o, Bound):
        return o.self
    if n == '__func__' and isinstance(o, Bound):
        return o.func
    if isinstance(o, Bound):
        return eng.getattr(o.func, n)
    return unk(eng, o)


@attrs(Ext)
def ext_attr(eng, o, n, default):
    p = o.path + '.' + n
    if p in eng.constants:
        return eng.constants[p]
    fn = eng.ext_attrs.get(o.path)
    if fn is not None:
        r = fn(eng, o, n)
        if r is not None:
            return r
        return miss(eng, o, n, default)
    if n == '__name__':
        return o.path.split('.')[-1]
    if n == '__doc__':
        return eng.mk('s')
    return Ext(p, o.e)


@attrs(SuperV)
def super_attr(eng, o, n, default):
    s = o.self
    cls = s.cls if isinstance(s, (InstV, Arr)) else s
    mro = cls.mro() if isinstance(cls, ClassV) else o.cls.mro()
    if o.cls in mro:
        mro = mro[mro.index(o.cls)+1:]
    for c in mro:
        if isinstance(c, ClassV):
            if n in c.attrs:
                v = c.attrs[n]
                if isinstance(v, FuncV):
                    return Bound(v, s)
                return v
        elif isinstance(c, Ext):
            p = c.path + '.' + n
            fn = eng.ext_overrides.get(p) or eng.intrinsics.get(p)
            if fn is not None:
                return Native(lambda eng, a, kw: fn(eng, [s]+list(a), kw), p)

            def unknown(eng, a, kw, p=p):
                eng.event('super-call', p, (s, list(a), dict(kw)))
                return unk(eng, *a, *kw.values())
            return Native(unknown, p)
    if n == '__getattribute__':
        return Native(lambda eng, a, kw: inst_attr(
            eng, s, eng.cval(a[0]), _E._MISSING, raw=True), n)
    if n == '__setattr__':
        return Native(lambda eng, a, kw: eng.setattr(
            s, eng.cval(a[0]), a[1]), n)
    if n in ('__init__', '__init_subclass__'):
        return Native(lambda eng, a, kw: None, n)
    if n == '__new__':
        return Native(lambda eng, a, kw: InstV(a[0], own=eng.own_label()), n)
    return miss(eng, o, n, default)


@attrs(InstV)
def inst_attr(eng, o, n, default, raw=False):
    cls = o.cls
    if not raw and isinstance(cls, ClassV):
        ga = cls.lookup('__getattribute__')
        if isinstance(ga, FuncV):
            return eng.call_func(ga, [o, n], {})
    if isinstance(cls, ClassV):
        cv = cls.lookup(n)
        if isinstance(cv, InstV) and isinstance(cv.cls, Ext) and \
                'fget' in cv.attrs:
            k = cv.cls.path
            if k == 'builtins.staticmethod':
                return cv.attrs['fget']
            if k == 'builtins.classmethod':
                return Bound(cv.attrs['fget'], cls)
            if k == 'builtins.property' or n not in o.attrs:
                return eng.call(cv.attrs['fget'], [o], {})
    if n in o.attrs:
        v = o.attrs[n]
        if isinstance(v, Alt) and UNBOUND in v.opts:
            eng.event('maybe-attr', n, (o, v.x))
            keep = [p for p in v.opts if p is not UNBOUND]
            return keep[0] if len(keep) == 1 else Alt(keep, v.x)
        return v
    if isinstance(cls, ClassV):
        if cv is not None:
            if isinstance(cv, FuncV):
                return Bound(cv, o)
            return cv
        ga = cls.lookup('__getattr__')
        if isinstance(ga, FuncV):
            return eng.call_func(ga, [o, n], {})
    if n == '__dict__':
        d = DictV(own=o.own)
        d.items = o.attrs
        return d
    if n == '__class__':
        return cls
    if n == '__doc__':
        return eng.mk('s')
    if n == '__repr__' or n == '__str__':
        return Native(lambda eng, a, kw: eng.mk('s'), n)
    if o.attrs.get('__kind__') == 'file':
        return file_attr(eng, o, n)
    if isinstance(cls, ClassV):
        for c in cls.mro():
            if isinstance(c, Ext) and c.path + '.' + n in eng.intrinsics:
                f = eng.intrinsics[c.path + '.' + n]
                return Native(lambda eng, a, kw: f(eng, [o]+list(a), kw), n)
    if o.open is not None:
        return eng.join(o.open, eng.mk()) if o.open is not None else None
    if not isinstance(cls, ClassV):
        if default is not _E._MISSING:
            return eng.join(default, eng.mk())
        return unk(eng, o)
    return miss(eng, o, n, default)


def file_attr(eng, o, n):
    if 'vf' in o.attrs and n in ('write', 'writelines', 'read', 'readline',
                                 'readlines', '__iter__', 'close', 'flush'):
        return eng.vfs.attr(o, n)

    def wr(eng, a, kw):
        eng.event('fwrite', n, (o, list(a)))
        return eng.mk('i')

    def rd(eng, a, kw):
        eng.event('fread', n, (o, list(a)))
        return eng.mk('s', p='{}')

    def rdl(eng, a, kw):
        eng.event('fread', n, (o, list(a)))
        return ListV([], eng.mk('s', p='{}'))
    if n in ('write', 'writelines'):
        return Native(wr, n)
    if n in ('read', 'readline'):
        return Native(rd, n)
    if n == 'readlines':
        return Native(rdl, n)
    if n == 'close':
        return Native(lambda eng, a, kw: eng.event('close', '', o) and None,
                      n)
    if n == '__iter__':
        return Native(rdl, n)
    return Native(lambda eng, a, kw: unk(eng, *a), n)


@attrs(ExcV)
def exc_attr(eng, o, n, default):
    if n == 'args':
        return TupleV(o.args)
    return unk(eng, *o.args)


@attrs(Alt)
def alt_attr(eng, o, n, default):
    opts = [p for p in o.opts if p is not ABSENT and p is not UNBOUND]
    out = _E._MISSING
    err = None
    k = len(eng.events)
    for p in opts:
        try:
            v = eng.getattr(p, n, default)
        except _E.RaiseSig as ex:
            err = ex
            continue
        out = v if out is _E._MISSING else eng.mkalt([out, v]) if not (
            is_scalar(out) and is_scalar(v)) else eng.join(out, v)
    if out is _E._MISSING:
        if err:
            raise err
        return eng.mk()
    if err is not None:
        eng.events[k:] = [v for v in eng.events[k:] if v.kind != 'implicit']
    return eng.addx(out, o.x)


@attrs(DtypeV)
def dtype_attr(eng, o, n, default):
    if n == 'kind':
        return o.dt if o.dt in 'bifc' else eng.mk('s')
    if n == 'name':
        return {'f': 'float64', 'c': 'complex128', 'i': 'int64',
                'b': 'bool'}.get(o.dt) or eng.mk('s')
    if n == 'type':
        return o
    return eng.mk()


@attrs(TupleV)
def tuple_attr(eng, o, n, default):
    if n in ('index', 'count'):
        return method(o, lst_index, n)
    return miss(eng, o, n, default)


def lst_index(eng, o, a, kw):
    if o.unk is None:
        for i, v in enumerate(o.items):
            c = eng.truth(eng.cmp('Eq', v, a[0]))[0]
            if c is True:
                return i
            if c is None:
                return unk(eng, o, a[0], dt='i')
        eng.throw('ValueError', 'not in list')
    return unk(eng, o, a[0], dt='i')


def l_mut(eng, o, what):
    eng.mutate(o, f'.{what}()')
    eng.jlist(o)


def l_append(eng, o, a, kw):
    l_mut(eng, o, 'append')
    eng.escape(o, a[0])
    if o.unk is None:
        if isinstance(o, SetV):
            k = eng.ckey(a[0])
            if k is not NOC and any(eng.ckey(i) == k for i in o.items):
                return
        o.items.append(a[0])
    else:
        o.unk = eng.join(o.unk, a[0])


def l_extend(eng, o, a, kw):
    l_mut(eng, o, 'extend')
    for it in a:
        i, u = elements(eng, it)
        for v in i:
            eng.escape(o, v)
            if o.unk is None:
                if isinstance(o, SetV):
                    k = eng.ckey(v)
                    if k is not NOC and any(eng.ckey(q) == k
                                            for q in o.items):
                        continue
                o.items.append(v)
            else:
                o.unk = eng.join(o.unk, v)
        if u is not None:
            o.unk = eng.join_opt(o.unk, u)


def l_insert(eng, o, a, kw):
    l_mut(eng, o, 'insert')
    eng.escape(o, a[1])
    c = eng.cint(a[0])
    if c is not None and o.unk is None:
        o.items.insert(c, a[1])
    else:
        o.unk = eng.join_opt(_joinall(eng, o.items, o.unk), a[1])
        o.items = []


def l_pop(eng, o, a, kw):
    l_mut(eng, o, 'pop')
    c = eng.cint(a[0]) if a else -1
    if o.unk is None:
        if not o.items:
            eng.throw('IndexError', 'pop from empty list')
        if c is not None:
            if not -len(o.items) <= c < len(o.items):
                eng.throw('IndexError', 'pop index')
            return o.items.pop(c)
    j = _joinall(eng, o.items, o.unk)
    return j


def l_remove(eng, o, a, kw):
    l_mut(eng, o, 'remove')
    if o.unk is None:
        for i, v in enumerate(o.items):
            c = eng.truth(eng.cmp('Eq', v, a[0]))[0]
            if c is True:
                o.items.pop(i)
                return
            if c is None:
                o.unk = _joinall(eng, o.items)
                o.items = []
                return
        eng.throw('ValueError', 'list.remove')


def l_clear(eng, o, a, kw):
    l_mut(eng, o, 'clear')
    o.items, o.unk = [], None


def l_sort(eng, o, a, kw):
    l_mut(eng, o, 'sort')
    r = b_sorted(eng, [o], kw)
    o.items, o.unk = r.items, r.unk


def l_reverse(eng, o, a, kw):
    l_mut(eng, o, 'reverse')
    o.items = o.items[::-1]


def l_copy(eng, o, a, kw):
    return type(o)(o.items, o.unk, own=eng.own_label())


def s_binop(op):
    def fn(eng, o, a, kw):
        return eng.binop(op, o, b_set(eng, a, {}) if a else SetV())
    return fn


def s_union(eng, o, a, kw):
    r = SetV(o.items, o.unk)
    for q in a:
        r = eng.binop('BitOr', r, b_set(eng, [q], {}))
    return r


def s_subset(eng, o, a, kw):
    b = b_set(eng, a, {})
    res = True
    for v in o.items:
        c = eng.truth(eng.contains(v, b))[0]
        if c is False:
            return False
        if c is None:
            res = None
    if res is None or o.unk is not None:
        return unk(eng, o, b, dt='b')
    return True


LIST = {'append': l_append, 'extend': l_extend, 'insert': l_insert,
        'pop': l_pop, 'remove': l_remove, 'clear': l_clear, 'sort': l_sort,
        'reverse': l_reverse, 'copy': l_copy, 'index': lst_index,
        'count': lambda eng, o, a, kw: unk(eng, o, dt='i')}
SET = {'add': l_append, 'update': l_extend, 'discard': l_remove,
       'remove': l_remove, 'clear': l_clear, 'copy': l_copy, 'pop': l_pop,
       'union': s_union, 'intersection': s_binop('BitAnd'),
       'difference': s_binop('Sub'), 'issubset': s_subset,
       'issuperset': lambda eng, o, a, kw: s_subset(
           eng, b_set(eng, a, {}), [o], {}),
       'symmetric_difference': lambda eng, o, a, kw: unk(eng, o, *a)}


@attrs(ListV)
def list_attr(eng, o, n, default):
    if n in LIST:
        return method(o, LIST[n], n)
    if n in ('__len__', '__contains__', '__getitem__'):
        return dunder(o, n)
    return miss(eng, o, n, default)


@attrs(SetV)
def set_attr(eng, o, n, default):
    if n in SET:
        return method(o, SET[n], n)
    return miss(eng, o, n, default)


def dunder(o, n):
    if n == '__len__':
        return Native(lambda eng, a, kw: b_len(eng, [o], {}), n)
    if n == '__contains__':
        return Native(lambda eng, a, kw: eng.contains(a[0], o), n)
    return Native(lambda eng, a, kw: eng.getitem(o, a[0]), n)


def strip_absent(eng, v):
    """(value without ABSENT, maybe_absent)"""
    if isinstance(v, Alt) and ABSENT in v.opts:
        keep = [p for p in v.opts if p is not ABSENT]
        return (eng.mkalt(keep, v.x) if keep else None), True
    return v, False


def d_lookup(eng, o, key, default, pop=False):
    if isinstance(key, Alt):
        return eng.alt_map(lambda k: d_lookup(eng, o, k, default, pop), key)
    k = eng.ckey(key)
    if k is NOC:
        out = o.open
        for v in o.items.values():
            out = eng.join_opt(out, strip_absent(eng, v)[0])
        if pop:
            for q in list(o.items):
                v = o.items[q]
                eng.jset(o.items, q, eng.mkalt([v, ABSENT]))
        e, x = eng.deps(key)
        if out is None:
            if default is _E._MISSING:
                eng.throw('KeyError', '?')
            return default
        if default is not _E._MISSING:
            out = eng.join(out, default)
        return eng.addx(out, x, e)
    if k in o.items:
        v, maybe = strip_absent(eng, o.items[k])
        if pop:
            eng.jdel(o.items, k)
        if maybe:
            x = o.items[k].x if k in o.items else E0
            if default is _E._MISSING:
                eng.event('maybe-keyerror', repr(k))
                return v
            return eng.join(v, default) if v is not None else default
        return v
    if o.open is not None:
        if default is _E._MISSING:
            return o.open
        return eng.join(o.open, default)
    if default is _E._MISSING:
        eng.throw('KeyError', repr(k))
    return default


def d_get(eng, o, a, kw):
    return d_lookup(eng, o, a[0], arg(a, kw, 1, 'default', None))


def d_pop(eng, o, a, kw):
    eng.mutate(o, '.pop()')
    return d_lookup(eng, o, a[0], a[1] if len(a) > 1 else _E._MISSING, True)


def d_setdefault(eng, o, a, kw):
    k = eng.ckey(a[0])
    d = a[1] if len(a) > 1 else None
    if k is not NOC and k in o.items and not strip_absent(
            eng, o.items[k])[1]:
        return o.items[k]
    cur = d_lookup(eng, o, a[0], d)
    eng.mutate(o, '.setdefault()')
    eng.escape(o, d)
    eng.dict_put(o, a[0], cur)
    return cur


def d_update(eng, o, a, kw):
    eng.mutate(o, '.update()')
    for q in a:
        eng.dict_update(o, q)
        eng.escape(o, q)
    for k, v in kw.items():
        eng.jset(o.items, k, v)
        eng.escape(o, v)
    if getattr(kw, 'open', None) is not None:
        eng.jattr(o, 'open', eng.join_opt(o.open, kw.open))


def d_items(eng, o, a, kw):
    out, u = [], None
    for k, v in o.items.items():
        w, maybe = strip_absent(eng, v)
        kk = TupleV(k[1:]) if isinstance(k, tuple) and k and \
            k[0] == '__t__' else k
        if maybe:
            u = eng.join_opt(u, TupleV([kk, w]))
        elif u is None:
            out.append(TupleV([kk, w]))
        else:
            u = eng.join(u, TupleV([kk, w]))
    if o.open is not None:
        u = eng.join_opt(u, TupleV([eng.mk('s', p='{}'), o.open]))
    return ListV(out, u)


def d_keys(eng, o, a, kw):
    r = d_items(eng, o, a, kw)
    if r.unk is None:
        return ListV([i.items[0] for i in r.items])
    return DictKeys(o)


def DictKeys(o):
    return DictV(o.items, o.open)


def d_values(eng, o, a, kw):
    r = d_items(eng, o, a, kw)
    return ListV([i.items[1] for i in r.items], None if r.unk is None else
                 eng.unpack(r.unk, [None, None])[1])


def d_clear(eng, o, a, kw):
    eng.mutate(o, '.clear()')
    for k in list(o.items):
        eng.jdel(o.items, k)
    eng.jattr(o, 'open', None)


DICT = {'get': d_get, 'pop': d_pop, 'setdefault': d_setdefault,
        'update': d_update, 'items': d_items, 'keys': d_keys,
        'values': d_values, 'clear': d_clear,
        'copy': lambda eng, o, a, kw: DictV(o.items, o.open,
                                            own=eng.own_label()),
        'popitem': lambda eng, o, a, kw: unk(eng, o)}


@attrs(DictV)
def dict_attr(eng, o, n, default):
    if n in DICT:
        return method(o, DICT[n], n)
    if n in ('__len__', '__contains__', '__getitem__'):
        return dunder(o, n)
    return miss(eng, o, n, default)


# ---- strings
def str_attr(eng, o, n, default):
    if not hasattr(str, n):
        return miss(eng, o, n, default)

    def fn(eng, a, kw):
        if n == 'join' and isinstance(o, str):
            items, u = elements(eng, a[0])
            if u is None:
                parts = []
                for i, v in enumerate(items):
                    if i and o:
                        parts.append(o)
                    parts.append(v)
                return eng.concat_str(parts) if parts else ''
            return unk(eng, a[0], dt='s')
        if n == 'format' and isinstance(o, str):
            e, x = E0, E0
            if all(is_raw(v) for v in a) and all(is_raw(v)
                                                 for v in kw.values()):
                try:
                    return o.format(*a, **kw)
                except Exception:
                    pass
            r = unk(eng, *a, *kw.values(), dt='s')
            r.p = o
            return r
        cs = [eng.cval(v) if not isinstance(v, TupleV) else
              tuple(eng.cval(i) for i in v.items) for v in a]
        if isinstance(o, str) and not any(
                c is NOC or isinstance(c, tuple) and NOC in c for c in cs):
            try:
                r = getattr(o, n)(*cs, **{k: eng.cval(v)
                                          for k, v in kw.items()})
            except (TypeError, ValueError) as ex:
                eng.throw(type(ex).__name__, str(ex))
            if isinstance(r, (list,)):
                return ListV(r)
            if isinstance(r, tuple):
                return TupleV(r)
            return r
        if n in ('split', 'splitlines', 'rsplit'):
            u = unk(eng, o, *a, dt='s')
            u.p = '{}'
            return ListV([], u)
        if n in ('partition', 'rpartition'):
            return TupleV([unk(eng, o, dt='s') for _ in range(3)])
        if n in ('startswith', 'endswith', 'isdigit', 'isalpha', 'isnumeric',
                 'islower', 'isupper', 'isspace'):
            r = strpat_test(eng, n, o, cs)
            if r is not None:
                return r
            return unk(eng, o, *a, dt='b')
        if n in ('find', 'index', 'count', 'rfind'):
            return unk(eng, o, *a, dt='i')
        r = unk(eng, o, *a, dt='s')
        r.p = o.p if isinstance(o, S) and n in ('lower', 'upper', 'strip') \
            else '{}'
        return r
    return Native(fn, 'str.'+n)


def strpat_test(eng, n, o, cs):
    if isinstance(o, S) and o.p and isinstance(o.p, str) and cs and \
            isinstance(cs[0], str):
        if n == 'endswith' and not o.p.endswith('{}'):
            tail = o.p.rsplit('{}', 1)[-1]
            if len(tail) >= len(cs[0]):
                return tail.endswith(cs[0])
        if n == 'startswith' and not o.p.startswith('{}'):
            head = o.p.split('{}', 1)[0]
            if len(head) >= len(cs[0]):
                return head.startswith(cs[0])
    return None


ATTR[str] = str_attr


@attrs(bytes, type(None), type(Ellipsis))
def raw_attr(eng, o, n, default):
    if o is None:
        return miss(eng, o, n, default)
    return unk(eng)


@attrs(RangeV, SliceV)
def rng_attr(eng, o, n, default):
    if isinstance(o, SliceV):
        return {'start': o.lo, 'stop': o.hi, 'step': o.st}.get(n) \
            if n in ('start', 'stop', 'step') else unk(eng, o)
    return unk(eng, o)


# --------------------------------------------------------- libs (stdlib)
def nondet(name, dt='f'):
    def fn(eng, a, kw):
        eng.event('nondet', name)
        return unk(eng, *a, dt=dt, lab='NONDET')
    return fn


for _n in ('time.time', 'time.perf_counter', 'time.monotonic',
           'timeit.default_timer', 'time.process_time', 'time.time_ns',
           'random.random', 'random.uniform', 'random.gauss'):
    INTR[_n] = nondet(_n)
for _n in ('time.ctime', 'time.asctime', 'time.strftime', 'os.getcwd',
           'os.getenv', 'os.environ.get', 'socket.gethostname',
           'uuid.uuid4', 'platform.node', 'tempfile.mkdtemp',
           'tempfile.mkstemp', 'tempfile.gettempdir'):
    INTR[_n] = nondet(_n, 's')
for _n in ('time.localtime', 'time.gmtime', 'datetime.datetime.now',
           'datetime.datetime.today', 'datetime.datetime.utcnow',
           'datetime.date.today', 'os.getpid', 'os.urandom',
           'os.environ[]', 'os.stat', 'os.listdir', 'random.randint',
           'random.choice', 'random.seed', 'os.cpu_count'):
    INTR[_n] = nondet(_n, '?')


@intr('time.sleep')
def t_sleep(eng, a, kw):
    return None


def _pat(eng, v):
    if isinstance(v, str):
        return v
    if isinstance(v, S):
        if isinstance(v.c, str):
            return v.c
        if isinstance(v.p, str):
            return v.p
    return '{}'


@intr('os.path.join')
def os_join(eng, a, kw):
    parts = []
    for i, v in enumerate(a):
        if i:
            parts.append('/')
        parts.append(v)
    return eng.concat_str(parts)


def os_pass(pre):
    def fn(eng, a, kw):
        if isinstance(a[0], Alt):
            return eng.alt_map(lambda v: fn(eng, [v], kw), a[0])
        r = unk(eng, a[0], dt='s')
        pat = _pat(eng, a[0])
        if pre == 'dirname':
            r.p = '{}' if '{}' in pat.rsplit('/', 1)[-1] or '/' not in pat \
                else pat.rsplit('/', 1)[0]
        elif pre == 'basename':
            r.p = pat.rsplit('/', 1)[-1]
        elif pat.startswith('{}/') or pat.startswith('/'):
            r.p = pat
        else:
            r.p = '{}/' + pat
        return r
    return fn


for _n in ('abspath', 'realpath', 'expanduser', 'normpath', 'dirname',
           'basename'):
    INTR['os.path.'+_n] = os_pass(_n)


@intr('os.path.splitext')
def os_splitext(eng, a, kw):
    if isinstance(a[0], Alt):
        return eng.alt_map(lambda v: os_splitext(eng, [v], kw), a[0])
    pat = _pat(eng, a[0])
    tail = pat.rsplit('{}', 1)[-1].rsplit('/', 1)[-1]
    root, ext = unk(eng, a[0], dt='s'), unk(eng, a[0], dt='s')
    if '.' in tail:
        root.p, e_ = pat.rsplit('.', 1)
        ext.p = '.' + e_
        ext.c = ext.p
    return TupleV([root, ext])


def fs_query(name):
    def fn(eng, a, kw):
        eng.event('fs-query', name, list(a))
        return unk(eng, *a, dt='b', lab='FS')
    return fn


for _n in ('isfile', 'exists', 'isdir', 'islink', 'getsize', 'getmtime'):
    INTR['os.path.'+_n] = fs_query('os.path.'+_n)


def fs_write(name):
    def fn(eng, a, kw):
        eng.event('fs-write', name, list(a))
        return None
    return fn


for _n in ('makedirs', 'mkdir', 'remove', 'unlink', 'rename', 'replace',
           'rmdir', 'truncate', 'chmod', 'link', 'symlink', 'chdir',
           'putenv'):
    INTR['os.'+_n] = fs_write('os.'+_n)
for _n in ('copy', 'copyfile', 'move', 'rmtree'):
    INTR['shutil.'+_n] = fs_write('shutil.'+_n)


@intr('warnings.catch_warnings', 'contextlib.suppress',
      'contextlib.nullcontext', 'contextlib.redirect_stdout')
def w_ctx(eng, a, kw):
    return InstV(Ext('ctx'), {})


@intr('warnings.simplefilter', 'warnings.filterwarnings')
def w_filter(eng, a, kw):
    eng.event('ext-write', 'warnings filter')
    return None


def mathfn(n, np_name=None):
    def fn(eng, a, kw):
        if isinstance(a[0], Alt):
            return eng.alt_map(lambda v: fn(eng, [v], kw), a[0])
        v = a[0]
        if isinstance(v, Arr) and v.a is not None and v.a.size == 1:
            v = v.a.flat[0]
        return eng.unop(np_name or n, v)
    return fn


for _n in ('sqrt', 'exp', 'log', 'log10', 'sin', 'cos', 'tan', 'sinh',
           'cosh', 'tanh', 'erfc', 'erf'):
    INTR['math.'+_n] = mathfn(_n)
INTR['math.fabs'] = mathfn('fabs', 'abs')
INTR['math.radians'] = mathfn('radians', 'deg2rad')
INTR['math.degrees'] = mathfn('degrees', 'rad2deg')
INTR['math.isnan'] = mathfn('isnan')
INTR['math.isfinite'] = mathfn('isfinite')
INTR['math.isinf'] = mathfn('isinf')


@intr('math.ceil', 'math.floor')
def m_ceil(eng, a, kw):
    v = a[0]
    if is_raw(v):
        import math
        return math.ceil(v)
    return eng.sun('int', eng.lift(v))


for _op, _n in (('Add', 'add'), ('Sub', 'sub'), ('Mult', 'mul'),
                ('Div', 'truediv')):
    INTR['operator.'+_n] = (lambda op: lambda eng, a, kw: eng.binop(
        op, a[0], a[1]))(_op)


@intr('operator.itemgetter')
def op_item(eng, a, kw):
    ks = list(a)
    return Native(lambda eng, q, kw: eng.getitem(q[0], ks[0])
                  if len(ks) == 1 else TupleV([eng.getitem(q[0], k)
                                               for k in ks]), 'itemgetter')


@intr('re.split', 're.findall')
def re_split(eng, a, kw):
    u = unk(eng, *a, dt='s')
    u.p = '{}'
    return ListV([], u)


@intr('json.load', 'json.loads')
def j_load(eng, a, kw):
    eng.event('json-load', '', (list(a), dict(kw)))
    return DictV({}, open=unk(eng, *a))


@intr('json.dump')
def j_dump(eng, a, kw):
    eng.event('json-dump', '', (list(a), dict(kw)))
    return None


@intr('json.dumps')
def j_dumps(eng, a, kw):
    eng.event('json-dumps', '', (list(a), dict(kw)))
    r = unk(eng, *a, dt='s')
    r.p = '{}'
    return r


CONST = {'builtins.True': True, 'builtins.False': False,
         'builtins.None': None, 'builtins.__debug__': True,
         'builtins.Ellipsis': Ellipsis, 'typing.TYPE_CHECKING': False,
         'math.pi': float(np.pi), 'math.e': float(np.e),
         'math.inf': float('inf'), 'math.nan': float('nan')}

del operator, builtins
