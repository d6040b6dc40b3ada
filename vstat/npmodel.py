"""Models of NumPy / SciPy functions and of array attributes."""
import ast
import glob
import os

import numpy as np

from .values import (
    S, Arr, ListV, SetV, TupleV, DictV, InstV, Alt, FuncV, Bound, ClassV,
    ModV, Ext, Native, DtypeV, SliceV, RangeV, SuperV, ExcV, Obj, E0, NOC,
    ABSENT, UNBOUND, is_raw, is_scalar, dtchar, promote, oarr, full)
from . import engine as _E
from . import pymodel
from .pymodel import (intr, attrs, INTR, ATTR, CONST, arg, unk, walt, ub,
                      elements, arr_copy, miss, mm2, has_attr)

LIMIT = 60000
MISSING = object()


# ------------------------------------------------------------------ helpers
def dims(eng, v):
    """[(n|None, masked)] or None if the rank is unknown."""
    if isinstance(v, Alt):
        v = v.opts[0]
    if isinstance(v, (TupleV, ListV)):
        if v.unk is not None:
            return None
        return [dim1(eng, i) for i in v.items]
    if isinstance(v, Arr):
        if v.a is not None and v.a.ndim <= 1:
            return [dim1(eng, i) for i in v.a.flat]
        return None
    if isinstance(v, RangeV):
        return None
    if isinstance(v, S) and v.dt not in 'bif' and v.c is NOC:
        return None
    return [dim1(eng, v)]


def dim1(eng, v):
    c = eng.cint(v)
    if c is not None:
        return (c, False)
    if isinstance(v, Arr) and v.a is not None and v.a.size == 1:
        return dim1(eng, v.a.flat[0])
    if isinstance(v, float) or isinstance(v, S) and v.dt == 'f':
        eng.throw('TypeError', 'float used as a dimension')
    if isinstance(v, S) and isinstance(v.p, tuple) and v.p[0] == 'ub':
        return (v.p[1], True)
    return (None, False)


def build(eng, ds, val, dt):
    """New array of dims ds filled with val."""
    if ds is None:
        return Arr(None, dt, cell=[val], shp=None)
    ns = [d[0] for d in ds]
    if None in ns or int(np.prod(ns, dtype=float)) > LIMIT:
        return Arr(None, dt, cell=[val], shp=tuple(ns))
    if any(n < 0 for n in ns):
        eng.throw('ValueError', 'negative dimensions')
    return Arr(full(tuple(ns), val), dt,
               masked=frozenset(i for i, d in enumerate(ds) if d[1]))


def dt_kw(eng, v, default):
    if v is None:
        return default
    d = eng.dtype_of(v)
    return d if d else default


ZERO = {'b': False, 'i': 0, 'f': 0.0, 'c': 0j, '?': 0.0}
ONE = {'b': True, 'i': 1, 'f': 1.0, 'c': 1+0j, '?': 1.0}


def axis_of(eng, v, nd):
    c = eng.cint(v)
    if c is None:
        return None
    if not -nd <= c < nd:
        eng.throw('AxisError', f'axis {c} of {nd}')
    return c % nd


def reduce_(eng, A, axis, f2, dt, keep=False, init=None, post=None):
    """Fold along axis (None = all)."""
    post = post or (lambda v: v)
    if A.a is None:
        s = A.cell[0]
        r = post(f2(s, s))
        if axis is None:
            return eng.cast(r, dt) if dt else r
        shp = None
        if A.shp is not None:
            k = axis_of(eng, axis, len(A.shp))
            if k is not None:
                shp = A.shp[:k] + ((1,) if keep else ()) + A.shp[k+1:]
                if shp == ():
                    return r
        return Arr(None, dt or A.dt, cell=[r], shp=shp)

    def fold(cells):
        if len(cells) == 0:
            if init is None:
                eng.throw('ValueError', 'reduction of empty array')
            return init
        num = dt != 'b' and A.dt == 'b'
        out = eng.cast(cells[0], 'i') if num else cells[0]
        for c in cells[1:]:
            out = f2(out, eng.cast(c, 'i') if num else c)
        if dt and dtchar(out) != dt and dt in 'bifc':
            out = eng.cast(out, dt)
        return post(out)
    if axis is None or A.a.ndim == 0:
        return fold(list(A.a.flat))
    if isinstance(axis, (TupleV, ListV)):
        ax = sorted((axis_of(eng, i, A.a.ndim) for i in axis.items),
                    reverse=True)
        out = A
        for k in ax:
            out = reduce_(eng, eng.arr_of(out), k, f2, dt, keep, init)
        return out
    k = axis_of(eng, axis, A.a.ndim)
    if k is None:
        r = fold(list(A.a.flat))
        return Arr(None, dt or A.dt, cell=[r], shp=None)
    m = np.moveaxis(A.a, k, -1)
    out = np.empty(m.shape[:-1], dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = fold(list(m[i]))
    if keep:
        out = np.expand_dims(out, k)
    masked = frozenset((q if q < k or keep else q-1)
                       for q in A.masked if q != k)
    r = Arr(out, dt or A.dt, masked=masked, cls=A.cls)
    if out.ndim == 0:
        return out[()]
    return r


def sum_dt(A):
    return {'b': 'i'}.get(A.dt, A.dt)


def np_sum(eng, A, axis=None, keep=False):
    return reduce_(eng, A, axis, lambda p, q: eng.sbin('+', p, q),
                   sum_dt(A), keep, init=ZERO.get(sum_dt(A), 0.0))


def np_prod(eng, A, axis=None, keep=False):
    return reduce_(eng, A, axis, lambda p, q: eng.sbin('*', p, q),
                   sum_dt(A), keep, init=ONE.get(sum_dt(A), 1.0))


def np_mm(name):
    def fn(eng, A, axis=None, keep=False):
        return reduce_(eng, A, axis, lambda p, q: mm2(eng, name, p, q),
                       A.dt, keep)
    return fn


def np_anyall(isany):
    def two(eng, p, q):
        cp, ep, xp = eng.truth(p)
        cq, eq, xq = eng.truth(q)
        if cp is isany or cq is isany:
            return isany
        if cp is not None and cq is not None:
            r = (cp or cq) if isany else (cp and cq)
            if ep | eq | xp | xq:
                return eng.mkc(r, ep | eq, xp | xq)
            return r
        return eng.mk('b', e=ep | eq, x=xp | xq)

    def fn(eng, A, axis=None, keep=False):
        r = reduce_(eng, A, axis, lambda p, q: two(eng, p, q), 'b', keep,
                    init=not isany, post=lambda v: two(eng, v, not isany))
        return r
    return fn


np_any, np_all = np_anyall(True), np_anyall(False)


def np_mean(eng, A, axis=None, keep=False):
    s = np_sum(eng, A, axis, keep)
    if isinstance(s, Arr) or A.a is None:
        return eng.binop('Div', s, 2) if A.a is None else eng.binop(
            'Div', s, A.a.size//max(1, s.a.size))
    return eng.binop('Div', s, A.a.size)


def cum(f):
    def fn(eng, A, axis=None, keep=False):
        if A.a is None:
            return Arr(None, A.dt, cell=[f(eng, A.cell[0], A.cell[0])],
                       shp=A.shp if axis is not None else (None,))
        a = A.a.ravel() if axis is None else A.a
        k = 0 if axis is None else axis_of(eng, axis, a.ndim)
        m = np.moveaxis(a, k, 0).copy()
        if A.dt == 'b':
            for j in np.ndindex(*m.shape):
                m[j] = eng.cast(m[j], 'i')
        for i in range(1, m.shape[0]):
            for j in np.ndindex(*m.shape[1:]):
                m[(i,)+j] = f(eng, m[(i-1,)+j], m[(i,)+j])
        return Arr(np.moveaxis(m, 0, k).copy(), sum_dt(A))
    return fn


np_cumsum = cum(lambda eng, p, q: eng.sbin('+', p, q))
np_cumprod = cum(lambda eng, p, q: eng.sbin('*', p, q))


def np_argmm(eng, A, axis=None, keep=False, name='argmax'):
    if A.a is not None and axis is None:
        cs = [eng.cval(c) for c in A.a.flat]
        if NOC not in cs and cs and not A.masked:
            try:
                return int(getattr(np, name)(np.array(cs)))
            except TypeError:
                pass
    s = eng.summ(A)
    el = eng.mk('i', e=s.e, x=s.x)
    if axis is None:
        return el
    return reduce_(eng, A, axis, lambda p, q: el, 'i', keep,
                   post=lambda v: el)


def alljoin(eng, A, dt=None):
    """Array of same shape whose every cell is the join of all cells."""
    s = eng.summ(A)
    s = S(s.dt, s.c, s.e, s.x, s.f)
    if A.a is None:
        return Arr(None, dt or A.dt, cell=[s], shp=A.shp)
    return Arr(full(A.a.shape, s), dt or A.dt, masked=A.masked)


def const_np(eng, A):
    """Concrete numpy array if all cells constant, else None."""
    if A.a is None or A.masked:
        return None
    cs = [eng.cval(c) for c in A.a.flat]
    if any(c is NOC or c is None or isinstance(c, str) for c in cs):
        return None
    return np.array(cs).reshape(A.a.shape)


def from_np(eng, x):
    x = np.asarray(x)
    dt = x.dtype.kind if x.dtype.kind in 'bifc' else '?'
    o = np.empty(x.shape, dtype=object)
    for i in np.ndindex(*x.shape):
        o[i] = x[i].item()
    return Arr(o, dt)


def reshape_(eng, A, shape, order='C'):
    ds = dims(eng, shape)
    if A.a is None:
        shp = None if ds is None else tuple(
            None if (d[0] is None or d[0] == -1) else d[0] for d in ds)
        return Arr(None, A.dt, A.roots, cell=A.cell, shp=shp, cls=A.cls)
    if ds is None or any(d[0] is None for d in ds):
        shp = None if ds is None else tuple(
            None if d[0] == -1 else d[0] for d in ds)
        return Arr(None, A.dt, E0, cell=[eng.summ(A)], shp=shp, cls=A.cls)
    ns = tuple(d[0] for d in ds)
    try:
        b = A.a.reshape(ns, order=order if isinstance(order, str) else 'C')
    except ValueError as ex:
        if A.masked:
            return Arr(None, A.dt, E0, cell=[eng.summ(A)],
                       shp=tuple(None if n == -1 else n for n in ns))
        eng.event('shape', str(ex))
        eng.throw('ValueError', str(ex))
    m = E0
    if A.masked:
        if b.ndim == 1:
            m = frozenset({0})
        elif b.size == A.a.size:
            # keep axes of equal length order
            m = frozenset(i for i, n in enumerate(b.shape)
                          if n in [A.a.shape[k] for k in A.masked])
    return Arr(b, A.dt, A.roots, masked=m, cls=A.cls)


def concat(eng, parts, axis=0):
    As = [eng.arr_of(p) for p in parts]
    if not As:
        eng.throw('ValueError', 'need at least one array to concatenate')
    dt = promote(*[A.dt for A in As])
    if any(A.a is None for A in As):
        s = None
        for A in As:
            if A.a is not None and A.a.size == 0:
                continue
            t = eng.summ(A)
            s = t if s is None else eng.join_s(s, t)
        nd = None
        for A in As:
            sh = eng.shape(A)
            if sh is not None:
                nd = len(sh)
        return Arr(None, dt, cell=[s], shp=None if nd is None else
                   tuple(None for _ in range(nd)))
    try:
        b = np.concatenate([A.a for A in As], axis=eng.cint(axis) or 0)
    except ValueError as ex:
        if any(A.masked for A in As):
            return Arr(None, dt, cell=[eng.lift_many(As)], shp=None)
        eng.event('shape', str(ex))
        eng.throw('ValueError', str(ex))
    m = E0
    for A in As:
        m = m | A.masked
    r = Arr(b, dt, masked=m)
    if b.dtype != object:
        r.a = b.astype(object)
    return r


def dot_(eng, A, B):
    if A.a is None or B.a is None:
        p = eng.sbin('*', eng.summ(A), eng.summ(B))
        s = eng.sbin('+', p, p)
        sa, sb = eng.shape(A), eng.shape(B)
        if sa is None or sb is None:
            return Arr(None, promote(A.dt, B.dt), cell=[s], shp=None)
        shp = sa[:-1] + (sb[:-2] + sb[-1:] if len(sb) > 1 else ())
        if shp == ():
            return s
        return Arr(None, promote(A.dt, B.dt), cell=[s], shp=shp)
    if A.a.ndim == 0 or B.a.ndim == 0:
        return eng.binop('Mult', A, B)
    a, b = A.a, B.a
    bm = b if b.ndim == 1 else np.moveaxis(b, -2, 0)
    if a.shape[-1] != bm.shape[0]:
        if A.masked or B.masked:
            p = eng.sbin('*', eng.summ(A), eng.summ(B))
            return Arr(None, promote(A.dt, B.dt), cell=[eng.sbin('+', p, p)])
        eng.event('shape', f'dot {a.shape} {b.shape}')
        eng.throw('ValueError', 'shapes not aligned')
    shp = a.shape[:-1] + bm.shape[1:]
    out = np.empty(shp, dtype=object)
    dt = promote(A.dt, B.dt)
    for i in np.ndindex(*a.shape[:-1]):
        for j in np.ndindex(*bm.shape[1:]):
            s = None
            for k in range(bm.shape[0]):
                p = eng.sbin('*', a[i+(k,)], bm[(k,)+j])
                s = p if s is None else eng.sbin('+', s, p)
            out[i+j] = s if s is not None else ZERO.get(dt, 0.0)
    if out.ndim == 0:
        return out[()]
    m = frozenset(q for q in A.masked if q < a.ndim-1)
    return Arr(out, dt, masked=m)


# -------------------------------------------------------------- registration
def masked_call(eng, name, fn, args, kw, cond, out):
    """A universal function or reduction with a where= argument."""
    ini = {'sum': 0, 'nansum': 0, 'prod': 1, 'any': False, 'all': True,
           'add.reduce': 0, 'multiply.reduce': 1}
    if name in ini:
        A = INTR['numpy.where'](eng, [cond, args[0], ini[name]], {})
        return fn(eng, [A] + list(args[1:]), kw)
    r = fn(eng, args, kw)
    if isinstance(out, TupleV):
        out = out.items[0]
    if isinstance(out, Arr):
        eng.setitem(out, TupleV([Ellipsis]), INTR['numpy.where'](
            eng, [cond, r, out], {}))
        return out
    R = eng.summ(eng.arr_of(r))
    return INTR['numpy.where'](
        eng, [cond, r, S(R.dt, NOC, R.e, R.x, eng.nof)], {})


def npf(*names):
    """Register numpy function; maps over alternatives; handles out=."""
    def deco(fn):
        def w(eng, args, kw):
            kw = dict(kw)
            out = kw.pop('out', None)
            cond = kw.pop('where', None) if names[0] != 'where' else None
            if isinstance(cond, (Arr, ListV, TupleV)):
                return masked_call(eng, names[0], fn, args, kw, cond, out)
            if any(isinstance(a, Alt) for a in args):
                r = eng.alt_map(lambda *a: fn(eng, list(a), kw), *args)
            else:
                r = fn(eng, args, kw)
            if out is not None:
                if isinstance(out, TupleV):
                    out = out.items[0]
                if isinstance(out, Arr):
                    eng.setitem(out, TupleV([Ellipsis]), r)
                    return out
            return r
        for n in names:
            INTR['numpy.'+n] = w
        return fn
    return deco


UN = {'exp': 'exp', 'log': 'log', 'log10': 'log10', 'log2': 'log2',
      'cos': 'cos', 'sin': 'sin', 'tan': 'tan', 'sqrt': 'sqrt',
      'abs': 'abs', 'absolute': 'abs', 'fabs': 'abs', 'conj': 'conj',
      'conjugate': 'conj', 'sign': 'sign', 'floor': 'floor',
      'ceil': 'ceil', 'rint': 'round', 'fix': 'trunc', 'trunc': 'trunc',
      'isnan': 'isnan', 'isfinite': 'isfinite', 'isinf': 'isinf',
      'arccos': 'arccos', 'arcsin': 'arcsin', 'arctan': 'arctan',
      'deg2rad': 'deg2rad', 'radians': 'deg2rad', 'rad2deg': 'rad2deg',
      'degrees': 'rad2deg', 'invert': 'invert', 'bitwise_not': 'invert',
      'negative': 'neg', 'positive': 'pos', 'square': 'square',
      'tanh': 'tanh', 'sinh': 'sinh', 'cosh': 'cosh', 'log1p': 'log1p',
      'expm1': 'expm1', 'angle': 'angle', 'cbrt': 'cbrt',
      'arcsinh': 'arcsinh', 'arccosh': 'arccosh', 'arctanh': 'arctanh'}


def un_fn(nm):
    def fn(eng, a, kw):
        v = a[0]
        if nm == 'angle' and (len(a) > 1 or 'deg' in kw):
            r = eng.unop('angle', v)
            dg = arg(a, kw, 1, 'deg')
            c = eng.truth(dg)[0]
            if c:
                return eng.unop('rad2deg', r)
            return r
        return eng.unop(nm, v)
    return fn


for _n, _m in UN.items():
    npf(_n)(un_fn(_m))


@npf('reciprocal')
def np_recip(eng, a, kw):
    return eng.binop('Div', 1, eng.arr_of(a[0]) if not is_scalar(
        a[0]) else a[0])


@npf('logical_not')
def np_lnot(eng, a, kw):
    return eng.unop('not', a[0])


@npf('real', 'imag')
def np_real(eng, a, kw):
    return eng.getattr(eng.arr_of(a[0]), 'real')


@npf('imag')
def np_imag(eng, a, kw):
    return eng.getattr(eng.arr_of(a[0]), 'imag')


BIN = {'add': 'Add', 'subtract': 'Sub', 'multiply': 'Mult', 'divide': 'Div',
       'true_divide': 'Div', 'power': 'Pow', 'mod': 'Mod',
       'remainder': 'Mod', 'fmod': 'Mod', 'floor_divide': 'FloorDiv',
       'bitwise_and': 'BitAnd', 'bitwise_or': 'BitOr',
       'bitwise_xor': 'BitXor', 'float_power': 'Pow'}
CMPF = {'greater': 'Gt', 'less': 'Lt', 'greater_equal': 'GtE',
        'less_equal': 'LtE', 'equal': 'Eq', 'not_equal': 'NotEq'}


def wrapA(eng, v):
    return v if is_scalar(v) else eng.arr_of(v)


def bin_fn(op):
    return lambda eng, a, kw: eng.binop(op, wrapA(eng, a[0]),
                                        wrapA(eng, a[1]))


for _n, _m in BIN.items():
    npf(_n)(bin_fn(_m))
for _n, _m in CMPF.items():
    npf(_n)((lambda op: lambda eng, a, kw: eng.cmp(
        op, wrapA(eng, a[0]), wrapA(eng, a[1])))(_m))


def logical(op):
    def two(eng, p, q):
        cp, ep, xp = eng.truth(p)
        cq, eq, xq = eng.truth(q)
        r = None
        if op == 'and':
            if cp is False or cq is False:
                r = False
            elif cp and cq:
                r = True
        elif op == 'or':
            if cp or cq:
                r = True
            elif cp is False and cq is False:
                r = False
        elif cp is not None and cq is not None:
            r = cp != cq
        if r is not None and not (ep | eq | xp | xq):
            return r
        return S('b', NOC if r is None else r, ep | eq, xp | xq, eng.nof)

    def fn(eng, a, kw):
        r = eng.emap(lambda p, q: two(eng, p, q),
                     [eng.arr_of(a[0]), eng.arr_of(a[1])], 'b')
        return eng.maybe_scalar(r)
    return fn


for _n in ('and', 'or', 'xor'):
    npf('logical_'+_n)(logical(_n))


def bfn(name, dt='f', keep=False):
    def fn(eng, a, kw):
        A, B = eng.arr_of(a[0]), eng.arr_of(a[1])

        def two(p, q):
            cp, cq = eng.cval(p), eng.cval(q)
            if is_raw(p) and is_raw(q):
                try:
                    return getattr(np, name)(p, q).item()
                except (TypeError, AttributeError):
                    pass
            if name in ('maximum', 'minimum', 'fmax', 'fmin'):
                return mm2(eng, 'max' if 'max' in name else 'min', p, q)
            if name == 'hypot':
                return eng.sun('sqrt', eng.sbin(
                    '+', eng.sbin('*', p, p), eng.sbin('*', q, q)))
            r = eng.sfn(name, [p, q], dt)
            if cp is not NOC and cq is not NOC:
                try:
                    r.c = getattr(np, name)(cp, cq).item()
                except (TypeError, AttributeError):
                    pass
            return r
        r = eng.emap(two, [A, B])
        return eng.maybe_scalar(r)
    return fn


for _n in ('maximum', 'minimum', 'fmax', 'fmin', 'arctan2', 'hypot',
           'copysign', 'heaviside'):
    npf(_n)(bfn(_n))


@npf('isclose')
def np_isclose(eng, a, kw):
    A, B = eng.arr_of(a[0]), eng.arr_of(a[1])
    rt = eng.cval(arg(a, kw, 2, 'rtol', 1e-5))
    at = eng.cval(arg(a, kw, 3, 'atol', 1e-8))

    def two(p, q):
        cp, cq = eng.cval(p), eng.cval(q)
        c = NOC
        if NOC not in (cp, cq, rt, at):
            try:
                c = bool(np.isclose(cp, cq, rtol=rt, atol=at))
            except TypeError:
                pass
        P, Q = eng.lift(p), eng.lift(q)
        if c is not NOC and not (P.e | Q.e | P.x | Q.x):
            return c
        f = tuple(d.cmp('Eq', P.f[i], Q.f[i], P, Q)
                  for i, d in enumerate(eng.domains))
        return S('b', c, P.e | Q.e, P.x | Q.x, f)
    return eng.maybe_scalar(eng.emap(two, [A, B], 'b'))


@npf('allclose')
def np_allclose(eng, a, kw):
    sh = [eng.shape(eng.arr_of(v)) for v in a[:2]]
    r = np_isclose(eng, a, kw)
    return np_all(eng, eng.arr_of(r))


@npf('array_equal', 'array_equiv')
def np_arreq(eng, a, kw):
    A, B = eng.arr_of(a[0]), eng.arr_of(a[1])
    if A.a is not None and B.a is not None and not A.masked and \
            not B.masked and A.a.shape != B.a.shape:
        return False
    try:
        return np_all(eng, eng.arr_of(eng.cmp('Eq', A, B)))
    except _E.RaiseSig:
        return eng.mk('b')


def reg_red(name, f, *alias):
    def fn(eng, a, kw):
        ax = arg(a, kw, 1, 'axis')
        if isinstance(ax, S) and ax.c is None:
            ax = None
        keep = eng.truth(kw.get('keepdims', False))[0] is True
        return f(eng, eng.arr_of(a[0]), ax, keep)
    npf(name, *alias)(fn)


reg_red('sum', np_sum, 'nansum')
reg_red('prod', np_prod)
reg_red('max', np_mm('max'), 'amax', 'nanmax')
reg_red('min', np_mm('min'), 'amin', 'nanmin')
reg_red('any', np_any)
reg_red('all', np_all)
reg_red('mean', np_mean, 'nanmean', 'median')
reg_red('cumsum', np_cumsum)
reg_red('cumprod', np_cumprod)
reg_red('argmax', np_argmm)
reg_red('argmin', lambda eng, A, ax, k: np_argmm(eng, A, ax, k, 'argmin'))


@npf('average')
def np_average(eng, a, kw):
    return np_mean(eng, eng.arr_of(a[0]), arg(a, kw, 1, 'axis'))


@npf('ptp')
def np_ptp(eng, a, kw):
    A = eng.arr_of(a[0])
    return eng.binop('Sub', np_mm('max')(eng, A), np_mm('min')(eng, A))


# ---- creation
def creator(kind):
    def fn(eng, a, kw):
        sh = arg(a, kw, 0, 'shape')
        if kind == 'full':
            v = arg(a, kw, 1, 'fill_value')
            V = eng.arr_of(v)
            dt = dt_kw(eng, arg(a, kw, 2, 'dtype'), V.dt)
            r = build(eng, dims(eng, sh), eng.cast(eng.summ(V) if
                      V.a is None or V.a.size != 1 else V.a.flat[0], dt), dt)
            if V.a is not None and V.a.size > 1 and r.a is not None:
                r.a[...] = V.a
            return r
        dt = dt_kw(eng, arg(a, kw, 1, 'dtype'), 'f')
        if kind == 'zeros':
            val = ZERO.get(dt, 0.0)
        elif kind == 'ones':
            val = ONE.get(dt, 1.0)
        else:
            val = eng.mk(dt, e=frozenset({'UNINIT'}))
        return build(eng, dims(eng, sh), val, dt)
    return fn


def creator_like(kind):
    def fn(eng, a, kw):
        A = eng.arr_of(a[0])
        i = 2 if kind == 'full' else 1
        dt = dt_kw(eng, arg(a, kw, i, 'dtype'), A.dt)
        if kind == 'zeros':
            val = ZERO.get(dt, 0.0)
        elif kind == 'ones':
            val = ONE.get(dt, 1.0)
        elif kind == 'full':
            V = eng.arr_of(arg(a, kw, 1, 'fill_value'))
            val = eng.cast(V.a.flat[0] if V.a is not None and V.a.size == 1
                           else eng.summ(V), dt)
        else:
            val = eng.mk(dt, e=frozenset({'UNINIT'}))
        if A.a is None:
            return Arr(None, dt, cell=[val], shp=A.shp, cls=A.cls)
        return Arr(full(A.a.shape, val), dt, masked=A.masked, cls=A.cls)
    return fn


for _k in ('zeros', 'ones', 'empty', 'full'):
    npf(_k)(creator(_k))
    npf(_k+'_like')(creator_like(_k))


@npf('eye', 'identity')
def np_eye(eng, a, kw):
    n = eng.cint(a[0])
    if n is None:
        return Arr(None, 'f', cell=[eng.mk('f')], shp=(None, None))
    return from_np(eng, np.eye(n))


def ragged(eng, v):
    """Object array of arrays of different shapes: broadcast, if possible
    (element-wise operations and sums over the first axis are the same)."""
    ps = [eng.arr_of(o) for o in v.items if isinstance(o, Arr) or
          is_scalar(o)]
    if len(ps) < len(v.items) or v.unk is not None or any(
            p.a is None or p.masked for p in ps):
        return None
    if len({p.a.shape for p in ps}) < 2:
        return None
    try:
        sh = np.broadcast_shapes(*[p.a.shape for p in ps])
    except ValueError:
        return None
    return eng.from_seq(ListV([Arr(np.broadcast_to(p.a, sh).copy(), p.dt)
                               for p in ps]))


def asarray(eng, v, copy, dtype=None, ndmin=0):
    if isinstance(v, (ListV, TupleV)) and dtype is not None and dt_kw(
            eng, dtype, None) == 'o':
        rag = ragged(eng, v)
        if rag is not None:
            r = arr_copy(eng, eng.arr_of(v))
            r.dt = 'o'
            r.rag = rag
            return r
    if isinstance(v, Arr):
        r = arr_copy(eng, v) if copy else v
        if copy:
            r.cls = None
    elif isinstance(v, S) and v.c is NOC and v.dt in '?o':
        r = Arr(None, '?', cell=[v], shp=None)
    elif isinstance(v, (DictV, InstV, FuncV, ClassV, Ext, Native)):
        e, x = eng.deps(v)
        r = Arr(oarr(eng.mk('o', e=e, x=x)), 'o')
    elif isinstance(v, SetV):
        r = Arr(oarr(unk(eng, v, dt='o')), 'o')
    else:
        r = eng.arr_of(v)
        if isinstance(v, (ListV, TupleV)) or True:
            r = arr_copy(eng, r)
    dt = dt_kw(eng, dtype, None)
    if dt == 's':
        dt = 'o'
    if dt and dt != r.dt and dt in 'bifc':
        if r.dt == 'o' and r.a is not None and any(
                isinstance(eng.cval(c), str) or eng.cval(c) is None
                for c in r.a.flat):
            if any(isinstance(eng.cval(c), str) for c in r.a.flat):
                eng.throw('ValueError', 'could not convert string')
            if dt != 'f' and dt != 'c':
                eng.throw('TypeError', 'None to number')
        if r.dt == 'c' and dt in 'if':
            if not isinstance(v, Arr):
                eng.throw('TypeError', 'complex to float')
            eng.event('discard-imag', '')
        r = Arr(arr_copy(eng, r).a, dt, masked=r.masked) if r.a is not None \
            else Arr(None, dt, cell=[r.cell[0]], shp=r.shp)
        eng.retag(r)
    if dt == 'o' and r.dt != 'o':
        r = arr_copy(eng, r)
        r.dt = 'o'
    n = eng.cint(ndmin) or 0
    if n and r.a is not None and r.a.ndim < n:
        b = r.a.reshape((1,)*(n-r.a.ndim) + r.a.shape)
        r = Arr(b, r.dt, r.roots, cls=r.cls, masked=frozenset(
            m + n - r.a.ndim for m in r.masked))
    elif n and r.a is None and r.shp is not None and len(r.shp) < n:
        r = Arr(None, r.dt, r.roots, cell=r.cell,
                shp=(1,)*(n-len(r.shp)) + tuple(r.shp), cls=r.cls)
    return r


@npf('array')
def np_array(eng, a, kw):
    cp = kw.get('copy', True)
    c = eng.truth(cp)[0] if cp is not None else False
    return asarray(eng, a[0], c is not False, arg(a, kw, 1, 'dtype'),
                   kw.get('ndmin', 0))


@npf('asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray',
     'asarray_chkfinite', 'require')
def np_asarray(eng, a, kw):
    return asarray(eng, a[0], False, arg(a, kw, 1, 'dtype'))


@npf('copy')
def np_copy(eng, a, kw):
    return asarray(eng, a[0], True)


@npf('atleast_1d')
def np_al1(eng, a, kw):
    if len(a) > 1:
        return ListV([asarray(eng, v, False, None, 1) for v in a])
    return asarray(eng, a[0], False, None, 1)


@npf('atleast_2d')
def np_al2(eng, a, kw):
    return asarray(eng, a[0], False, None, 2)


@npf('atleast_3d')
def np_al3(eng, a, kw):
    r = asarray(eng, a[0], False)
    return Arr(np.atleast_3d(r.a), r.dt, r.roots) if r.a is not None else \
        Arr(None, r.dt, r.roots, cell=r.cell, shp=None)


@npf('asarray_scalar')
def np_ass(eng, a, kw):
    r = asarray(eng, a[0], True, a[1])
    return eng.maybe_scalar(r)


for _n in ('float64', 'complex128', 'int64', 'double', 'float32', 'int32',
           'bool_', 'intp', 'cdouble', 'longdouble'):
    npf(_n)((lambda n: lambda eng, a, kw: eng.maybe_scalar(
        asarray(eng, a[0] if a else 0, True, Ext('numpy.'+n))))(_n))


@npf('dtype')
def np_dtype(eng, a, kw):
    return DtypeV(eng.dtype_of(a[0]) or 'f')


@npf('result_type', 'promote_types', 'common_type')
def np_rt(eng, a, kw):
    return DtypeV(promote(*[v.dt if isinstance(v, (Arr, S, DtypeV)) else
                            (eng.dtype_of(v) if isinstance(v, (Ext, str))
                             else dtchar(v)) for v in a]))


@npf('arange')
def np_arange(eng, a, kw):
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    else:
        lo, hi, st = a[0], a[1], a[2] if len(a) > 2 else kw.get('step', 1)
    dt = dt_kw(eng, kw.get('dtype'), None)
    cs = [eng.cval(q.a.flat[0] if isinstance(q, Arr) and q.a is not None
                   and q.a.size == 1 else q) for q in (lo, hi, st)]
    if NOC not in cs and not any(c is None for c in cs):
        r = np.arange(*cs)
        if r.size <= LIMIT:
            R = from_np(eng, r)
            if not all(is_raw(q) for q in (lo, hi, st)):
                L = [eng.summ(q) if isinstance(q, Arr) else eng.lift(q)
                     for q in (lo, hi, st)]
                R = with_c(eng, R, eng.sfn('arange', L, R.dt))
                if vnidx(eng) and R.a.ndim == 1:
                    exact(eng, R, lambda j: eng.sbin(
                        '+', L[0], eng.sbin('*', j, L[2])))
            return R if dt in (None, R.dt) else asarray(eng, R, True,
                                                        kw['dtype'])
    L = [eng.summ(q) if isinstance(q, Arr) else eng.lift(q)
         for q in (lo, hi, st)]
    d = promote(*[q.dt for q in L])
    el = eng.sfn('arange', L, dt or d)
    if eng.generic_len and not (isinstance(hi, S) and
                                isinstance(hi.p, tuple)):
        e, x = eng.deps(TupleV([lo, hi, st]))
        return generic(eng, eng.addx(el, x, e), dt or d)
    if lo == 0 and isinstance(hi, S) and isinstance(hi.p, tuple):
        n = hi.p[1]
        return Arr(oarr(list(range(n)), (n,)), 'i', masked=frozenset({0}))
    return Arr(None, dt or d, cell=[el], shp=(None,))


def generic(eng, el, dt):
    """Array of unknown length, analysed at a representative length."""
    n = eng.generic_len
    vn = [i for i, d in enumerate(eng.domains) if d.name == 'vn']
    out = []
    for k in range(n):
        f = el.f
        for i in vn:
            if f[i] is not None:
                f = f[:i] + (eng.domains[i].id(('at', k, f[i])),) + f[i+1:]
        out.append(S(dt, NOC, el.e, el.x, f))
    return Arr(oarr(out, (n,)), dt)


def with_c(eng, R, el):
    """Constant array R whose cells carry the deps and facets of el."""
    vn = [i for i, d in enumerate(eng.domains) if d.name == 'vn']
    out = []
    for k, v in enumerate(R.a.flat):
        f = el.f
        for i in vn:
            if f[i] is not None:
                f = f[:i] + (eng.domains[i].id(('at', k, f[i])),) + f[i+1:]
        out.append(S(R.dt, v if is_raw(v) else v.c, el.e, el.x, f))
    return Arr(oarr(out, R.a.shape), R.dt)


def vnidx(eng):
    return [i for i, d in enumerate(eng.domains) if d.name == 'vn']


def step(eng, name, p, q, n):
    """Element j of a spaced vector as an expression of its end points."""
    def el(j):
        t = j/(n-1)
        if name == 'geomspace':
            return eng.sbin('*', p, eng.sbin('**', eng.sbin('/', q, p), t))
        v = p if not j else q if j == n-1 else eng.sbin(
            '+', p, eng.sbin('*', eng.sbin('-', q, p), t))
        return eng.sbin('**', 10, v) if name == 'logspace' else v
    return el


def exact(eng, R, el):
    """Give each element of R the value number of its own expression."""
    vn = vnidx(eng)
    for j in range(R.a.size):
        c = R.a[j]
        v = eng.lift(el(j))
        f = c.f
        for i in vn:
            f = f[:i] + (v.f[i],) + f[i+1:]
        R.a[j] = S(c.dt, c.c, c.e, c.x, f, c.p)
    return R


def spacer(name):
    def fn(eng, a, kw):
        lo, hi = a[0], a[1]
        n = arg(a, kw, 2, 'num', 50)
        cs = [eng.cval(q) for q in (lo, hi)]
        cn = eng.cint(n)
        R = None
        if cn is not None and NOC not in cs:
            try:
                R = from_np(eng, getattr(np, name)(cs[0], cs[1], cn))
            except (TypeError, ValueError):
                pass
        if R is not None and is_raw(lo) and is_raw(hi):
            return R
        P = eng.arr_of(lo)
        Q = eng.arr_of(hi)
        p, q = eng.summ(P), eng.summ(Q)
        el = eng.sfn(name, [p, q], 'f')
        vn = vnidx(eng) and cn is not None and 1 < cn <= LIMIT and \
            P.a is not None and Q.a is not None and P.a.size == 1 and \
            Q.a.size == 1
        if R is not None:
            R = with_c(eng, R, el)
            return exact(eng, R, step(eng, name, p, q, cn)) if vn else R
        e, x = eng.deps(n)
        el = eng.addx(el, x, e)
        if cn is not None and cn <= LIMIT:
            R = Arr(oarr([el]*cn, (cn,)), 'f')
            return exact(eng, R, step(eng, name, p, q, cn)) if vn else R
        dd = dim1(eng, n) if not (isinstance(n, S) and n.dt == 'f') else \
            (None, False)
        if dd[0] is None and eng.generic_len:
            return generic(eng, el, 'f')
        return build(eng, [dd], el, 'f')
    return fn


for _n in ('linspace', 'logspace', 'geomspace'):
    npf(_n)(spacer(_n))


# ---- shape manipulation
@npf('squeeze')
def np_squeeze(eng, a, kw):
    A = eng.arr_of(a[0])
    ax = arg(a, kw, 1, 'axis')
    if A.a is None:
        shp = None
        if A.shp is not None:
            if ax is not None:
                c = axis_of(eng, ax, len(A.shp))
                shp = tuple(n for i, n in enumerate(A.shp) if i != c)
            elif None in A.shp:
                shp = None
            else:
                shp = tuple(n for n in A.shp if n != 1)
        return Arr(None, A.dt, A.roots, cell=A.cell, shp=shp, cls=A.cls)
    if ax is not None:
        c = axis_of(eng, ax, A.a.ndim)
        if A.a.shape[c] != 1:
            eng.throw('ValueError', 'cannot squeeze')
        keep = [i for i in range(A.a.ndim) if i != c]
        b = np.squeeze(A.a, c)
    else:
        keep = [i for i, n in enumerate(A.a.shape) if n != 1]
        b = np.squeeze(A.a)
    return Arr(b, A.dt, A.roots, cls=A.cls, masked=frozenset(
        keep.index(m) for m in A.masked if m in keep))


@npf('reshape')
def np_reshape(eng, a, kw):
    return reshape_(eng, eng.arr_of(a[0]), arg(a, kw, 1, 'shape',
                    kw.get('newshape')), eng.cval(
                        arg(a, kw, 2, 'order', 'C')))


@npf('ravel')
def np_ravel(eng, a, kw):
    return reshape_(eng, eng.arr_of(a[0]), -1,
                    eng.cval(arg(a, kw, 1, 'order', 'C')))


@npf('transpose', 'moveaxis', 'swapaxes', 'rollaxis', 'flip', 'fliplr',
     'flipud', 'expand_dims', 'roll', 'rot90')
def np_generic_perm(eng, a, kw):
    raise AssertionError


def perm(name):
    def fn(eng, a, kw):
        A = eng.arr_of(a[0])
        rest = []
        for v in list(a[1:]) + list(kw.values()):
            c = eng.const_shape(v) if not is_raw(v) else v
            if c is None and v is not None:
                return Arr(None, A.dt, A.roots, cell=[eng.summ(A)], shp=None)
            rest.append(c if not (isinstance(v, (int,)) or isinstance(
                v, S)) else (c if isinstance(c, int) else c[0]))
        if A.a is None:
            shp = None
            if A.shp is not None and name in ('flip', 'flipud', 'fliplr',
                                              'roll'):
                shp = A.shp
            return Arr(None, A.dt, A.roots, cell=A.cell, shp=shp, cls=A.cls)
        try:
            b = getattr(np, name)(A.a, *rest)
        except ValueError as ex:
            eng.throw('ValueError', str(ex))
        # track masked axes through a marker array
        m = E0
        if A.masked:
            sizes = {A.a.shape[q] for q in A.masked}
            m = frozenset(i for i, n in enumerate(b.shape) if n in sizes)
        return Arr(b, A.dt, A.roots if name != 'roll' else E0, masked=m,
                   cls=A.cls)
    return fn


for _n in ('transpose', 'moveaxis', 'swapaxes', 'rollaxis', 'flip',
           'fliplr', 'flipud', 'expand_dims', 'roll', 'rot90'):
    npf(_n)(perm(_n))


@npf('concatenate')
def np_concat(eng, a, kw):
    items, u = elements(eng, a[0])
    if u is not None:
        s = None
        dts = []
        for p in items + [u]:
            A = eng.arr_of(p)
            dts.append(A.dt)
            s = eng.summ(A) if s is None else eng.join_s(s, eng.summ(A))
        return Arr(None, promote(*dts), cell=[s], shp=(None,))
    return concat(eng, items, arg(a, kw, 1, 'axis', 0))


@npf('hstack')
def np_hstack(eng, a, kw):
    items, u = elements(eng, a[0])
    items = [asarray(eng, v, False, None, 1) for v in items]
    nd = 1
    if items and items[0].a is not None and items[0].a.ndim > 1:
        nd = 2
    return concat(eng, items, 1 if nd > 1 else 0)


@npf('vstack', 'row_stack')
def np_vstack(eng, a, kw):
    items, u = elements(eng, a[0])
    return concat(eng, [asarray(eng, v, False, None, 2) for v in items], 0)


@npf('append')
def np_append(eng, a, kw):
    ax = arg(a, kw, 2, 'axis')
    if ax is None:
        return concat(eng, [reshape_(eng, eng.arr_of(v), -1) for v in a[:2]])
    return concat(eng, a[:2], ax)


@npf('stack')
def np_stack(eng, a, kw):
    items, u = elements(eng, a[0])
    ax = eng.cint(arg(a, kw, 1, 'axis', 0)) or 0
    As = [eng.arr_of(v) for v in items]
    if any(A.a is None for A in As) or u is not None:
        r = eng.from_seq(ListV(items, u))
        if ax and r.shp is not None:
            sh = list(r.shp)
            n = sh.pop(0)
            k = ax % (len(sh)+1)
            sh.insert(k, n)
            r.shp = tuple(sh)
        return r
    try:
        b = np.stack([A.a for A in As], axis=ax)
    except ValueError as ex:
        eng.throw('ValueError', str(ex))
    return Arr(b, promote(*[A.dt for A in As]))


@npf('column_stack')
def np_colstack(eng, a, kw):
    items, u = elements(eng, a[0])
    As = [eng.arr_of(v) for v in items]
    As = [reshape_(eng, A, TupleV([-1, 1])) if len(eng.shape(A) or (0,)) == 1
          else A for A in As]
    return concat(eng, As, 1)


@intr('numpy.r_[]')
def np_r(eng, a, kw):
    it = a[0]
    its = list(it.items) if isinstance(it, TupleV) else [it]
    parts = []
    for v in its:
        if isinstance(v, SliceV):
            st = v.st if v.st is not None else 1
            if eng.cval(st) is not NOC and isinstance(eng.cval(st), complex):
                parts.append(INTR['numpy.linspace'](
                    eng, [v.lo, v.hi, int(abs(eng.cval(st)))], {}))
            else:
                parts.append(np_arange(eng, [v.lo if v.lo is not None else 0,
                                             v.hi, st], {}))
        elif isinstance(v, Alt):
            parts.append(asarray(eng, eng.arr_of(v), False, None, 1))
        else:
            parts.append(asarray(eng, v, False, None, 1))
    return concat(eng, parts)


@npf('tile')
def np_tile(eng, a, kw):
    A = eng.arr_of(a[0])
    reps = arg(a, kw, 1, 'reps')
    ds = dims(eng, reps)
    if A.a is None or ds is None or any(d[0] is None for d in ds):
        return Arr(None, A.dt, cell=[eng.summ(A)], shp=None if ds is None or
                   eng.shape(A) is None else
                   (None,)*max(len(ds), len(eng.shape(A))))
    b = np.tile(A.a, tuple(d[0] for d in ds))
    m = frozenset()
    if A.masked or any(d[1] for d in ds):
        m = frozenset(range(b.ndim))
    return Arr(np.array(b, dtype=object), A.dt, masked=m)


@npf('repeat')
def np_repeat(eng, a, kw):
    A = eng.arr_of(a[0])
    ax = arg(a, kw, 2, 'axis')
    rep = arg(a, kw, 1, 'repeats')
    R = eng.arr_of(rep)
    cs = [dim1(eng, c) for c in R.cells()]
    if A.a is None or R.a is None or any(c[0] is None for c in cs):
        sh = (None,)
        if ax is not None and eng.shape(A) is not None:
            k = axis_of(eng, ax, len(eng.shape(A)))
            sh = tuple(None if i == k else n
                       for i, n in enumerate(eng.shape(A)))
        return Arr(None, A.dt, cell=[eng.summ(A)], shp=sh)
    n = cs[0][0] if len(cs) == 1 else [c[0] for c in cs]
    k = None if ax is None else axis_of(eng, ax, A.a.ndim)
    try:
        b = np.repeat(A.a, n, axis=k)
    except ValueError as ex:
        eng.throw('ValueError', str(ex))
    m = frozenset({k or 0}) if (A.masked or any(c[1] for c in cs)) else E0
    return Arr(b, A.dt, masked=m)


@npf('broadcast_to')
def np_bto(eng, a, kw):
    A = eng.arr_of(a[0])
    ds = dims(eng, a[1])
    if A.a is None or ds is None or any(d[0] is None for d in ds):
        return Arr(None, A.dt, A.roots, cell=[eng.summ(A)],
                   shp=None if ds is None else tuple(d[0] for d in ds))
    try:
        return Arr(np.array(np.broadcast_to(A.a, tuple(d[0] for d in ds))),
                   A.dt, A.roots)
    except ValueError as ex:
        eng.throw('ValueError', str(ex))


@npf('broadcast_arrays')
def np_barr(eng, a, kw):
    As = [eng.arr_of(v) for v in a]
    if any(A.a is None for A in As):
        return ListV([Arr(None, A.dt, A.roots, cell=[eng.summ(A)], shp=None)
                      for A in As])
    try:
        bs = np.broadcast_arrays(*[A.a for A in As])
    except ValueError as ex:
        eng.throw('ValueError', str(ex))
    return ListV([Arr(np.array(b), A.dt, A.roots) for b, A in zip(bs, As)])


@npf('meshgrid')
def np_mesh(eng, a, kw):
    As = [eng.arr_of(v) for v in a]
    if any(A.a is None for A in As):
        return ListV([Arr(None, A.dt, cell=[eng.summ(A)],
                          shp=(None,)*len(As)) for A in As])
    ix = eng.cval(kw.get('indexing', 'xy'))
    return ListV([Arr(np.array(b), A.dt) for b, A in zip(
        np.meshgrid(*[A.a for A in As], indexing=ix), As)])


@npf('outer')
def np_outer(eng, a, kw):
    A = reshape_(eng, eng.arr_of(a[0]), -1)
    B = reshape_(eng, eng.arr_of(a[1]), -1)
    A2 = eng.arr_get(A, TupleV([SliceV(None, None, None), None]))
    return eng.binop('Mult', A2, B)


@npf('dot', 'matmul', 'inner', 'vdot')
def np_dot(eng, a, kw):
    return dot_(eng, eng.arr_of(a[0]), eng.arr_of(a[1]))


@npf('einsum', 'tensordot', 'kron', 'cross', 'convolve', 'correlate')
def np_einsum(eng, a, kw):
    s = None
    dts = []
    for v in a:
        if isinstance(v, str):
            continue
        A = eng.arr_of(v)
        dts.append(A.dt)
        t = eng.summ(A)
        s = t if s is None else eng.sbin('*', s, t)
    s = eng.sbin('+', s, s)
    return Arr(None, promote(*dts), cell=[s], shp=None)


@npf('diff')
def np_diff(eng, a, kw):
    A = eng.arr_of(a[0])
    sh = eng.shape(A)
    if A.a is None:
        r = eng.sbin('-', A.cell[0], A.cell[0])
        return Arr(None, A.dt, cell=[r], shp=None if sh is None else
                   sh[:-1] + (None if sh[-1] is None else sh[-1]-1,))
    ax = arg(a, kw, 2, 'axis', -1)
    k = axis_of(eng, ax, A.a.ndim)
    m = np.moveaxis(A.a, k, -1)
    out = np.empty(m.shape[:-1] + (max(m.shape[-1]-1, 0),), dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = eng.sbin('-', m[i[:-1] + (i[-1]+1,)], m[i])
    return Arr(np.moveaxis(out, -1, k), A.dt, masked=A.masked)


@npf('where')
def np_where(eng, a, kw):
    C = eng.arr_of(a[0])
    if len(a) == 1:
        return nonzero(eng, C)

    def three(c, p, q):
        t, e, x = eng.truth(c)
        if t is True:
            return eng.addx(p, e | x)
        if t is False:
            return eng.addx(q, e | x)
        r = eng.join_s(eng.lift(p), eng.lift(q))
        return eng.addx(r, e | x if eng.track_x else E0)
    A, B = eng.arr_of(a[1]), eng.arr_of(a[2])
    r = eng.emap(three, [C, A, B])
    if A.dt in 'bifc' and B.dt in 'bifc':
        r.dt = promote(A.dt, B.dt)
        eng.retag(r)
    return r


def nonzero(eng, C):
    c = const_np(eng, C)
    if c is not None:
        return TupleV([from_np(eng, i) for i in np.nonzero(c)])
    if C.a is None:
        s = C.cell[0]
        nd = len(C.shp) if C.shp is not None else 1
        el = eng.mk('i', e=s.e, x=s.x)
        return TupleV([Arr(None, 'i', cell=[el], shp=(None,))
                       for _ in range(nd)])
    if C.a.ndim == 1:
        n = C.a.shape[0]
        cells = []
        for i, v in enumerate(C.a.flat):
            t, e, x = eng.truth(v)
            if t is False:
                continue
            cells.append(eng.addx(i, e | x) if eng.track_x else i)
        return TupleV([Arr(oarr(cells, (len(cells),)), 'i',
                           masked=frozenset({0}))])
    s = eng.summ(C)
    el = eng.mk('i', e=s.e, x=s.x)
    return TupleV([Arr(None, 'i', cell=[el], shp=(None,))
                   for _ in range(C.a.ndim)])


@npf('nonzero', 'argwhere', 'flatnonzero')
def np_nz(eng, a, kw):
    return nonzero(eng, eng.arr_of(a[0]))


@npf('flatnonzero')
def np_fnz(eng, a, kw):
    return nonzero(eng, reshape_(eng, eng.arr_of(a[0]), -1)).items[0]


@npf('count_nonzero')
def np_cnz(eng, a, kw):
    return np_sum(eng, eng.arr_of(eng.unop('bool', a[0])))


@npf('select', 'choose', 'piecewise')
def np_select(eng, a, kw):
    return unk(eng, *a, *kw.values())


@npf('shape')
def np_shape(eng, a, kw):
    return eng.getattr(asarray(eng, a[0], False), 'shape')


@npf('size')
def np_size(eng, a, kw):
    A = asarray(eng, a[0], False)
    if len(a) > 1:
        return eng.getitem(eng.getattr(A, 'shape'), a[1])
    return eng.getattr(A, 'size')


@npf('ndim')
def np_ndim(eng, a, kw):
    return eng.getattr(asarray(eng, a[0], False), 'ndim')


@npf('iscomplexobj', 'isrealobj')
def np_isc(eng, a, kw):
    raise AssertionError


def isobj(cplx):
    def fn(eng, a, kw):
        v = a[0]
        dt = v.dt if isinstance(v, (Arr, S)) else eng.arr_of(v).dt \
            if isinstance(v, (ListV, TupleV)) else dtchar(v)
        if dt == '?':
            return unk(eng, dt='b')
        return (dt == 'c') == cplx
    return fn


npf('iscomplexobj')(isobj(True))
npf('isrealobj')(isobj(False))
npf('iscomplex')(lambda eng, a, kw: eng.maybe_scalar(
    eng.emap(lambda p: eng.scmp('NotEq', eng.sun('imag', p), 0),
             [eng.arr_of(a[0])], 'b')))
npf('isreal')(lambda eng, a, kw: eng.maybe_scalar(
    eng.emap(lambda p: eng.scmp('Eq', eng.sun('imag', p), 0),
             [eng.arr_of(a[0])], 'b')))


@npf('isscalar')
def np_isscalar(eng, a, kw):
    if is_scalar(a[0]) or isinstance(a[0], str):
        return True if not isinstance(a[0], S) or a[0].dt in 'bifcs' \
            else eng.mk('b')
    return False


@npf('round', 'around', 'round_')
def np_round(eng, a, kw):
    dec = arg(a, kw, 1, 'decimals', 0)
    v = a[0]
    cd = eng.cval(dec)
    A = eng.arr_of(v)

    def one(p):
        c = eng.cval(p)
        if is_raw(p) and cd is not NOC:
            return np.round(p, cd).item()
        r = eng.sfn('round', [p] if cd is NOC else [p, cd], dtchar(p))
        if c is not NOC and cd is not NOC and isinstance(
                c, (int, float, complex)):
            r.c = np.round(c, cd).item()
        return r
    r = eng.emap(one, [A])
    if A.a is not None and A.a.size == 0:
        r.dt = A.dt
    return eng.maybe_scalar(r)


@npf('clip')
def np_clip(eng, a, kw):
    lo = arg(a, kw, 1, 'a_min', kw.get('min'))
    hi = arg(a, kw, 2, 'a_max', kw.get('max'))
    r = eng.arr_of(a[0])
    if lo is not None:
        r = INTR['numpy.maximum'](eng, [r, lo], {})
    if hi is not None:
        r = INTR['numpy.minimum'](eng, [r, hi], {})
    return r


@npf('unwrap')
def np_unwrap(eng, a, kw):
    A = eng.arr_of(a[0])
    r = alljoin(eng, A, 'f')
    return r


@npf('sort')
def np_sort(eng, a, kw):
    A = eng.arr_of(a[0])
    c = const_np(eng, A)
    if c is not None:
        return from_np(eng, np.sort(c))
    return alljoin(eng, A)


@npf('argsort')
def np_argsort(eng, a, kw):
    A = eng.arr_of(a[0])
    c = const_np(eng, A)
    if c is not None:
        return from_np(eng, np.argsort(c, kind='stable'))
    s = eng.summ(A)
    el = eng.mk('i', e=s.e, x=s.x)
    if A.a is None:
        return Arr(None, 'i', cell=[el], shp=A.shp)
    return Arr(full(A.a.shape, el), 'i', masked=A.masked)


@npf('unique')
def np_unique(eng, a, kw):
    A = reshape_(eng, eng.arr_of(a[0]), -1)
    n = 0
    for k in ('return_index', 'return_inverse', 'return_counts'):
        if eng.truth(kw.get(k, False))[0]:
            n += 1
    s = eng.summ(A)
    s = S(s.dt, NOC, s.e, s.x, s.f)
    if A.a is None:
        u = Arr(None, A.dt, cell=[s], shp=(None,))
    else:
        u = Arr(full(A.a.shape, s), A.dt, masked=frozenset({0}))
    if not n:
        return u
    idx = Arr(full(eng.arr_of(a[0]).a.shape, eng.mk('i', e=E0)), 'i') \
        if eng.arr_of(a[0]).a is not None else \
        Arr(None, 'i', cell=[eng.mk('i')], shp=eng.arr_of(a[0]).shp)
    return TupleV([u] + [idx]*n)


@npf('searchsorted', 'digitize', 'bincount')
def np_ss(eng, a, kw):
    A = eng.arr_of(a[0])
    s = eng.summ(A)
    B = a[1] if len(a) > 1 else a[0]
    r = eng.emap(lambda p: eng.mk('i', e=s.e | eng.lift(p).e,
                                  x=s.x | eng.lift(p).x),
                 [eng.arr_of(B)], 'i')
    return eng.maybe_scalar(r) if is_scalar(B) else r


@npf('interp')
def np_interp(eng, a, kw):
    XA, YA = eng.arr_of(a[1]), eng.arr_of(a[2])
    X, Y = eng.summ(XA), eng.summ(YA)
    r = eng.emap(lambda p: eng.slin('spline', [p, X, Y], [p] + XA.cells(),
                                    YA.cells(), 0, 'f'), [eng.arr_of(a[0])])
    return eng.maybe_scalar(r)


@npf('isin', 'in1d')
def np_isin(eng, a, kw):
    B = a[1]
    r = eng.emap(lambda p: eng.contains(p, B), [eng.arr_of(a[0])], 'b')
    return eng.maybe_scalar(r)


@npf('pad')
def np_pad(eng, a, kw):
    A = eng.arr_of(a[0])
    w = a[1]
    mode = eng.cval(arg(a, kw, 2, 'mode', 'constant'))
    s = eng.summ(A)
    ds = dims(eng, w)
    if A.a is not None and A.a.ndim == 1 and ds is not None and \
            len(ds) == 2 and all(d[0] is not None for d in ds):
        n = A.a.shape[0]

        def edge(v):
            if mode == 'constant':
                return ZERO.get(A.dt, 0.0)
            if mode == 'linear_ramp':
                # between the edge value and zero
                v = eng.lift(v)
                return S(v.dt, NOC, v.e, v.x, v.f)
            if mode == 'edge':
                return v
            return S(s.dt, NOC, s.e, s.x, s.f)
        b = oarr([edge(A.a[0])]*ds[0][0] + list(A.a) +
                 [edge(A.a[-1])]*ds[1][0], (n+ds[0][0]+ds[1][0],))
        return Arr(b, A.dt, masked=A.masked)
    return Arr(None, A.dt, cell=[eng.sbin('+', s, s)], shp=None if
               eng.shape(A) is None else (None,)*len(eng.shape(A)))


@npf('delete', 'insert', 'take', 'take_along_axis', 'compress', 'extract',
     'partition', 'setdiff1d', 'intersect1d', 'union1d', 'trim_zeros')
def np_sel(eng, a, kw):
    A = eng.arr_of(a[0])
    e, x = eng.deps(TupleV(list(a[1:])))
    s = eng.addx(eng.summ(A), x, e)
    return Arr(None, A.dt, cell=[S(s.dt, NOC, s.e, s.x, s.f)], shp=None)


@npf('take')
def np_take(eng, a, kw):
    ax = arg(a, kw, 2, 'axis')
    A = eng.arr_of(a[0])
    if ax is None:
        return eng.getitem(reshape_(eng, A, -1), a[1])
    if A.a is not None:
        k = axis_of(eng, ax, A.a.ndim)
        if k is not None:
            return eng.getitem(A, TupleV([SliceV(None, None, None)]*k +
                                         [a[1]]))
    return np_sel(eng, a, kw)


@npf('ix_')
def np_ix(eng, a, kw):
    n = len(a)
    out = []
    for i, v in enumerate(a):
        A = eng.arr_of(v)
        out.append(reshape_(eng, A, TupleV([1]*i + [-1] + [1]*(n-i-1))))
    return TupleV(out)


@npf('split', 'array_split', 'hsplit', 'vsplit')
def np_split(eng, a, kw):
    A = eng.arr_of(a[0])
    n = eng.cint(a[1])
    if A.a is not None and n is not None:
        ax = eng.cint(arg(a, kw, 2, 'axis', 0)) or 0
        return ListV([Arr(b, A.dt, A.roots) for b in
                      np.array_split(A.a, n, axis=ax)])
    return ListV([], Arr(None, A.dt, A.roots, cell=[eng.summ(A)], shp=None))


@npf('copyto')
def np_copyto(eng, a, kw):
    dst = a[0]
    if isinstance(dst, Arr):
        w = kw.get('where')
        eng.setitem(dst, w if w is not None else TupleV([Ellipsis]), a[1])


@npf('put', 'place', 'putmask', 'fill_diagonal', 'add.at', 'multiply.at')
def np_put(eng, a, kw):
    dst = a[0]
    if isinstance(dst, Arr):
        eng.mutate(dst, 'np.put')
        eng.jarr(dst)
        v = eng.summ(eng.arr_of(a[-1]))
        if dst.a is None:
            dst.cell[0] = eng.join(dst.cell[0], v)
        else:
            for i in np.ndindex(*dst.a.shape):
                dst.a[i] = eng.join(dst.a[i], eng.cast(v, dst.dt))


@npf('nan_to_num')
def np_ntn(eng, a, kw):
    A = eng.arr_of(a[0])
    c = eng.truth(arg(a, kw, 1, 'copy', True))[0]
    r = eng.emap(lambda p: p, [A])
    if c is False and isinstance(a[0], Arr):
        eng.mutate(a[0], 'nan_to_num(copy=False)')
        return a[0]
    return r


@npf('vectorize')
def np_vectorize(eng, a, kw):
    f = a[0]

    def fn(eng, args, kwargs):
        r = eng.emap(lambda *v: eng.call(f, list(v), {}),
                     [eng.arr_of(v) for v in args])
        return r
    return Native(fn, 'vectorize')


@npf('apply_along_axis')
def np_aaa(eng, a, kw):
    r = eng.call(a[0], [a[2]], {})
    return unk(eng, r)


def ctxm(eng, a, kw):
    return InstV(Ext('ctx'), {})


for _n in ('errstate', 'printoptions'):
    INTR['numpy.'+_n] = ctxm


@npf('seterr', 'set_printoptions', 'seterrcall')
def np_seterr(eng, a, kw):
    eng.event('ext-write', 'numpy error state')
    return unk(eng)


@npf('finfo')
def np_finfo(eng, a, kw):
    f = np.finfo(float)
    return InstV(Ext('numpy.finfo_'), {
        'eps': float(f.eps), 'tiny': float(f.tiny), 'max': float(f.max),
        'min': float(f.min), 'resolution': float(f.resolution),
        'smallest_normal': float(f.tiny)})


@npf('iinfo')
def np_iinfo(eng, a, kw):
    return InstV(Ext('numpy.iinfo_'), {'max': 2**63-1, 'min': -2**63})


@intr('numpy.linalg.norm')
@walt
def np_norm(eng, a, kw):
    A = eng.arr_of(a[0])
    ax = arg(a, kw, 2, 'axis')
    if A.rag is not None and eng.cint(ax) == 0:
        A = A.rag
    sq = eng.emap(lambda p: eng.sun('square', eng.sun('abs', p)), [A])
    return eng.unop('sqrt', np_sum(eng, sq, ax))


@intr('numpy.linalg.qr')
def np_qr(eng, a, kw):
    A = eng.arr_of(a[0])
    s = eng.summ(A)
    s = S('f', NOC, s.e, s.x, eng.nof)
    q = Arr(None, 'f', cell=[s], shp=(None, None))
    r = Arr(None, 'f', cell=[s], shp=(None, None))
    return TupleV([q, r])


@intr('numpy.linalg.solve', 'numpy.linalg.lstsq', 'numpy.linalg.inv',
      'numpy.linalg.pinv', 'scipy.linalg.solve', 'scipy.linalg.lu_solve')
def np_solve(eng, a, kw):
    e, x = eng.deps(TupleV(list(a)))
    s = eng.mk('f', e=e, x=x)
    may = Ext('numpy.linalg.LinAlgError')
    if eng.tries:
        t = eng.tries[-1]
        t.raises.append((ExcV(may, (), True), eng.delta(t.mark),
                         eng.pcsince(t.pcdepth)))
    return Arr(None, 'f', cell=[s], shp=None)


for _n in ('random.rand', 'random.randn', 'random.random', 'random.uniform',
           'random.normal', 'random.default_rng', 'random.seed',
           'random.randint', 'random.choice', 'random.permutation'):
    INTR['numpy.'+_n] = pymodel.nondet('numpy.'+_n, '?')


@npf('savetxt', 'save', 'savez', 'savez_compressed')
def np_savetxt(eng, a, kw):
    eng.event('savetxt', '', (list(a), dict(kw)))


@npf('loadtxt', 'genfromtxt', 'load', 'fromfile')
def np_loadtxt(eng, a, kw):
    eng.event('loadtxt', '', (list(a), dict(kw)))
    e, x = eng.deps(TupleV([v for v in a if not isinstance(v, InstV)]))
    dt = dt_kw(eng, kw.get('dtype'), 'f')
    return Arr(None, dt, cell=[eng.mk(dt, e=e | {'FILE'}, x=x)], shp=None)


@intr('numpy.ma.masked_where', 'numpy.ma.masked_array')
def np_ma(eng, a, kw):
    return a[-1]


# ------------------------------------------------------------------- scipy
def sp_const(name):
    try:
        import scipy.special
    except ImportError:
        return lambda *a: float('nan')
    return getattr(scipy.special, name)


def sp1(name, dt='keep'):
    def one(eng, p):
        L = [eng.lift(q) for q in p]
        r = eng.sfn(name, list(p), 'f' if dt == 'f' else (
            'c' if any(dtchar(q) == 'c' for q in p) else 'f'))
        cs = [q.c for q in L]
        if eng.dlf_vals and r.c is NOC and all(c is not NOC and isinstance(
                c, (int, float, complex)) for c in cs):
            try:
                c = sp_const(name)(*cs)
                c = complex(c) if r.dt == 'c' else float(c)
            except (TypeError, ValueError, OverflowError):
                return r
            if c == c:
                # keeps its own identity: no folding of rounded numbers
                return S(r.dt, c, r.e | frozenset({'special'}), r.x, r.f,
                         r.p)
        return r

    def fn(eng, a, kw):
        def go(*v):
            r = eng.emap(lambda *p: one(eng, p), [eng.arr_of(q) for q in v])
            return eng.maybe_scalar(r)
        return eng.alt_map(go, *a)
    return fn


for _n in ('j0', 'j1', 'jv', 'erfc', 'erf', 'erfcx', 'ive', 'kve', 'iv',
           'kv', 'k0', 'k1', 'i0', 'i1', 'loggamma', 'gamma', 'gammaln',
           'factorial', 'jn', 'yv', 'i0e', 'i1e', 'k0e', 'k1e', 'wofz',
           'expit', 'exp1', 'digamma', 'binom', 'comb', 'sinc'):
    INTR['scipy.special.'+_n] = sp1(_n)


def gauss(eng, a, kw):
    n = eng.cint(a[0])
    x, w = eng.mk('f'), eng.mk('f')
    x = S('f', NOC, E0, E0, tuple(d.fn('gauss', [], []) for d in
                                  eng.domains))
    if n is not None:
        if n <= 0:
            eng.throw('ValueError', 'n must be positive')
        if eng.dlf_vals and n <= 60:
            out = []
            for kind, q in enumerate(np.polynomial.legendre.leggauss(n)):
                out.append(Arr(oarr([S('f', float(q[i]), frozenset(
                    {'gauss'}), E0, tuple(
                        d.fn('gauss', [kind, n, i], [])
                        for d in eng.domains)) for i in range(n)], (n,)),
                    'f'))
            return TupleV(out)
        if n <= 60:
            return TupleV([with_c(eng, from_np(eng, q), x) for q in
                           np.polynomial.legendre.leggauss(n)])
        return TupleV([Arr(full((n,), x), 'f'), Arr(full((n,), x), 'f')])
    e, xx = eng.deps(a[0])
    d = dim1(eng, a[0])
    return TupleV([build(eng, [d], x, 'f'), build(eng, [d], x, 'f')])


for _n in ('scipy.special.roots_legendre', 'scipy.special.p_roots',
           'numpy.polynomial.legendre.leggauss'):
    INTR[_n] = gauss


@intr('scipy.integrate.quad')
def sp_quad(eng, a, kw):
    f, lo, hi = a[0], arg(a, kw, 1, 'a'), arg(a, kw, 2, 'b')
    lo = eng.summ(eng.arr_of(lo))
    hi = eng.summ(eng.arr_of(hi))
    pt = eng.sfn('between', [lo, hi], 'f')
    extra = arg(a, kw, 3, 'args', TupleV())
    ex = list(extra.items) if isinstance(extra, TupleV) else [extra]
    n = len(eng.tries)
    res = None

    def run():
        nonlocal res
        r = eng.call(f, [pt] + ex, {})
        return r
    res = run()
    R = eng.arr_of(res)
    s = eng.summ(R)
    val = eng.sfn('quad', [s, pt], 'f')
    e, x = eng.deps(DictV({k: v for k, v in kw.items()}))
    val = eng.addx(val, x, e)
    err = eng.mk('f', e=val.e, x=val.x)
    fo = eng.truth(arg(a, kw, 4, 'full_output', 0))[0]
    if fo:
        info = DictV({'neval': eng.mk('i', e=val.e), 'last': eng.mk('i')},
                     open=eng.mk())
        msg = eng.mk('s', e=frozenset({'QUADWARN'}), p='{}')
        return TupleV([val, err, info], msg)
    eng.event('warn', 'IntegrationWarning', [])
    return TupleV([val, err])


def rep_spline(eng, p, X, Y, r):
    """Representative value of a spline (path class only)."""
    if not eng.dlf_vals or not r.e or r.c is not NOC:
        return r
    try:
        x = [float(eng.lift(q).c) for q in X.cells()]
        y = [float(eng.lift(q).c) for q in Y.cells()]
        v = float(eng.lift(p).c)
    except (TypeError, ValueError):
        return r
    n = len(x)
    if n < 2 or len(y) != n:
        return r
    i = max(0, min(n-2, sum(q <= v for q in x) - 1))
    if x[i+1] == x[i]:
        return r
    c = y[i] + (y[i+1] - y[i])*(v - x[i])/(x[i+1] - x[i])
    return S('f', c, r.e, r.x, r.f, r.p) if c == c else r


def spline(eng, a, kw):
    X = eng.arr_of(arg(a, kw, 0, 'x'))
    Y = eng.arr_of(arg(a, kw, 1, 'y'))
    sx, sy = eng.summ(X), eng.summ(Y)
    if Y.dt == 'c':
        eng.event('discard-imag', 'spline of complex values')

    def ev(eng, args, kwargs):
        def go(v):
            r = eng.emap(lambda p: rep_spline(eng, p, X, Y, eng.slin(
                'spline', [p, sx, sy], [p] + X.cells(), Y.cells(), 0, 'f')),
                [eng.arr_of(v)])
            if isinstance(v, Arr) or isinstance(v, (ListV, TupleV)):
                r.dt = 'f'
                return r
            return eng.maybe_scalar(r)
        return eng.alt_map(go, args[0])
    return InstV(Ext('spline'), {'__call__': Native(ev, 'spline'),
                                 'x': X, 'y': Y})


for _n in ('InterpolatedUnivariateSpline', 'UnivariateSpline', 'interp1d',
           'CubicSpline', 'PchipInterpolator', 'make_interp_spline',
           'Akima1DInterpolator'):
    INTR['scipy.interpolate.'+_n] = spline


def fft(name):
    def fn(eng, a, kw):
        A = eng.arr_of(a[0])
        s = eng.summ(A)
        n = arg(a, kw, 1, 'n')
        dt = 'f' if name in ('rfft', 'irfft') else 'c'
        if name in ('fftshift', 'ifftshift'):
            if A.a is not None and not A.masked:
                return Arr(getattr(np.fft, name)(A.a), A.dt)
            return alljoin(eng, A)
        el = eng.sfn(name, [s], dt)
        if A.a is None:
            return Arr(None, dt, cell=[el], shp=A.shp)
        if name.endswith('shift') and A.a.ndim == 1:
            n = len(A.a)//2
            return Arr(np.roll(A.a, n if name == 'fftshift' else -n), A.dt)
        out = full(A.a.shape, el)
        if A.a.ndim == 1 and any(hasattr(d, 'lin') for d in eng.domains):
            for j in range(out.size):
                out[j] = eng.slin(name, [s], [], A.cells(), j, dt)
        return Arr(out, dt, masked=A.masked)
    return fn


for _m in ('scipy.fftpack.', 'scipy.fft.', 'numpy.fft.'):
    for _n in ('rfft', 'irfft', 'fft', 'ifft', 'fftshift', 'ifftshift'):
        INTR[_m+_n] = fft(_n)


@intr('scipy.optimize.brute', 'scipy.optimize.fmin_powell',
      'scipy.optimize.fmin', 'scipy.optimize.minimize',
      'scipy.optimize.brentq')
def sp_opt(eng, a, kw):
    return unk(eng, *a[1:])


CONST.update({
    'numpy.pi': float(np.pi), 'numpy.e': float(np.e),
    'numpy.inf': float('inf'), 'numpy.nan': float('nan'),
    'numpy.newaxis': None, 'numpy.euler_gamma': float(np.euler_gamma),
    'numpy.True_': True, 'numpy.False_': False,
    'scipy.constants.mu_0': 1.25663706212e-06,
    'scipy.constants.epsilon_0': 8.8541878128e-12,
    'scipy.constants.c': 299792458.0,
    'scipy.constants.speed_of_light': 299792458.0,
    'scipy.constants.pi': float(np.pi),
    'scipy.pi': float(np.pi),
})


# --------------------------------------------------------- array attributes
def A_view(eng, o, a, kw):
    t = a[0] if a else kw.get('type', kw.get('dtype'))
    if t is None:
        return Arr(o.a, o.dt, o.roots, cell=o.cell, shp=o.shp,
                   masked=o.masked, cls=o.cls)
    if isinstance(t, ClassV):
        return Arr(o.a, o.dt, o.roots, cell=o.cell, shp=o.shp,
                   masked=o.masked, cls=t)
    if isinstance(t, Ext) and t.path.endswith('ndarray'):
        return Arr(o.a, o.dt, o.roots, cell=o.cell, shp=o.shp,
                   masked=o.masked)
    return Arr(None, eng.dtype_of(t) or '?', o.roots, cell=[eng.summ(o)],
               shp=None)


def A_astype(eng, o, a, kw):
    dt = eng.dtype_of(arg(a, kw, 0, 'dtype'))
    cp = eng.truth(kw.get('copy', True))[0]
    if dt == o.dt and cp is False:
        return o
    if o.dt == 'c' and dt in ('f', 'i'):
        eng.event('discard-imag', 'astype')
    r = arr_copy(eng, o)
    r.dt = dt if dt in ('b', 'i', 'f', 'c') else (dt or '?')
    if r.dt in 'bifc':
        eng.retag(r)
    return r


def A_reshape(eng, o, a, kw):
    sh = kw.get('shape') if not a else (
        a[0] if len(a) == 1 else TupleV(list(a)))
    return reshape_(eng, o, sh, eng.cval(kw.get('order', 'C')))


def A_flatten(eng, o, a, kw):
    r = reshape_(eng, o, -1, eng.cval(arg(a, kw, 0, 'order', 'C')))
    return arr_copy(eng, r)


def A_red(f):
    def fn(eng, o, a, kw):
        ax = arg(a, kw, 0, 'axis')
        keep = eng.truth(kw.get('keepdims', False))[0] is True
        return f(eng, o, ax, keep)
    return fn


def A_tolist(eng, o, a, kw):
    def rec(x):
        if x.ndim == 0:
            return x[()]
        return ListV([rec(x[i]) if x.ndim > 1 else x[i]
                      for i in range(x.shape[0])])
    if o.a is None:
        return ListV([], o.cell[0])
    if o.masked:
        return ListV([], eng.summ(o))
    return rec(o.a)


def A_item(eng, o, a, kw):
    if a:
        return eng.getitem(reshape_(eng, o, -1), a[0])
    if o.a is not None and o.a.size == 1:
        return o.a.flat[0]
    if o.a is not None and not o.masked:
        eng.throw('ValueError', 'can only convert an array of size 1')
    return eng.summ(o)


def A_fill(eng, o, a, kw):
    eng.setitem(o, TupleV([Ellipsis]), a[0])


def A_sort(eng, o, a, kw):
    eng.mutate(o, '.sort()')
    eng.jarr(o)
    r = np_sort(eng, [o], {})
    if o.a is None:
        o.cell[0] = eng.summ(r)
    else:
        o.a[...] = r.a


def A_tofile(eng, o, a, kw):
    eng.event('tofile', '', (o, list(a), dict(kw)))
    if getattr(eng, 'vfs', None) is not None:
        eng.vfs.tofile(eng, o, a, kw)


def via(name):
    def fn(eng, o, a, kw):
        return INTR['numpy.'+name](eng, [o]+list(a), kw)
    return fn


def A_transpose(eng, o, a, kw):
    if not a:
        return perm('transpose')(eng, [o], {})
    return perm('transpose')(eng, [o, a[0] if len(a) == 1 else
                                   TupleV(list(a))], {})


ARR = {'view': A_view, 'astype': A_astype, 'reshape': A_reshape,
       'flatten': A_flatten, 'ravel': lambda eng, o, a, kw: reshape_(
           eng, o, -1, eng.cval(arg(a, kw, 0, 'order', 'C'))),
       'copy': lambda eng, o, a, kw: arr_copy(eng, o),
       '__copy__': lambda eng, o, a, kw: arr_copy(eng, o),
       'sum': A_red(np_sum), 'prod': A_red(np_prod), 'mean': A_red(np_mean),
       'max': A_red(np_mm('max')), 'min': A_red(np_mm('min')),
       'any': A_red(np_any), 'all': A_red(np_all),
       'cumsum': A_red(np_cumsum), 'cumprod': A_red(np_cumprod),
       'argmax': A_red(np_argmm),
       'argmin': A_red(lambda eng, A, ax, k: np_argmm(eng, A, ax, k,
                                                      'argmin')),
       'conj': via('conj'), 'conjugate': via('conj'), 'dot': via('dot'),
       'squeeze': via('squeeze'), 'repeat': via('repeat'),
       'round': via('round'), 'clip': via('clip'),
       'swapaxes': via('swapaxes'), 'transpose': A_transpose,
       'nonzero': via('nonzero'), 'argsort': via('argsort'),
       'searchsorted': via('searchsorted'), 'take': via('take'),
       'diagonal': via('diagonal'), 'ptp': via('ptp'),
       'tolist': A_tolist, 'item': A_item, 'fill': A_fill, 'sort': A_sort,
       'tofile': A_tofile, 'put': via('put')}


@attrs(Arr)
def arr_attr(eng, o, n, default):
    if o.cls is not None:
        v = o.cls.lookup(n)
        if isinstance(v, FuncV):
            return Bound(v, o)
        if isinstance(v, InstV) and 'fget' in v.attrs:
            return eng.call(v.attrs['fget'], [o], {})
        if v is not None:
            return v
    if n in ARR:
        fn = ARR[n]
        return Native(lambda eng, a, kw: fn(eng, o, a, kw), n)
    if n == 'shape':
        if o.a is not None:
            return TupleV([ub(eng, k) if i in o.masked else k
                           for i, k in enumerate(o.a.shape)])
        if o.shp is None:
            return TupleV((), eng.mk('i'))
        return TupleV([eng.mk('i') if k is None else k for k in o.shp])
    if n == 'size':
        if o.a is not None:
            return ub(eng, o.a.size) if o.masked else o.a.size
        if o.shp is not None and None not in o.shp:
            return int(np.prod(o.shp, dtype=int))
        return eng.mk('i', x=o.cell[0].x if isinstance(o.cell[0], S) else E0)
    if n == 'ndim':
        if o.a is not None:
            return o.a.ndim
        return len(o.shp) if o.shp is not None else eng.mk('i')
    if n == 'dtype':
        return DtypeV(o.dt)
    if n == 'T':
        return perm('transpose')(eng, [o], {})
    if n in ('real', 'imag'):
        if o.dt in 'bif':
            if n == 'real':
                return o
            return build_like(eng, o, 0.0 if o.dt == 'f' else 0)
        r = eng.emap(lambda p: eng.sun(n, p), [o])
        r.roots = o.roots
        if o.dt == 'c':
            r.dt = 'f'
        r.cls = o.cls
        r = PartArr(r, o, n) if o.a is not None else r
        return r
    if n == 'flat':
        return reshape_(eng, o, -1)
    if n == 'base':
        return eng.mk()
    if n == 'flags':
        return InstV(Ext('numpy.flags'), {})
    if n in ('nbytes', 'itemsize'):
        return eng.mk('i')
    if n in ('__array_interface__', 'ctypes', 'data', 'strides'):
        return eng.mk()
    if n in ('__len__', '__contains__', '__getitem__'):
        return pymodel.dunder(o, n)
    if hasattr(np.ndarray, n):
        return Native(lambda eng, a, kw: unk(eng, o, *a), n)
    return miss(eng, o, n, default)


def PartArr(r, o, n):
    return r


def build_like(eng, o, v):
    if o.a is None:
        return Arr(None, o.dt, cell=[v], shp=o.shp)
    return Arr(full(o.a.shape, v), o.dt, masked=o.masked)


@attrs(S)
def s_attr(eng, o, n, default):
    if o.dt == 's' or isinstance(o.c, str):
        if o.c is not NOC and isinstance(o.c, str):
            return pymodel.str_attr(eng, o, n, default)
        return pymodel.str_attr(eng, o, n, default)
    if o.dt in 'bifc':
        r = arr_attr(eng, Arr(oarr(o), o.dt), n, default)
        if isinstance(r, Arr) and r.a is not None and r.a.ndim == 0:
            return r.a[()]
        return r
    if o.c is None:
        return miss(eng, o, n, default)
    if default is not _E._MISSING:
        return eng.join(default, eng.attr_unknown(o, n))
    if n in ('copy', 'view', 'squeeze', 'ravel', 'flatten'):
        return Native(lambda eng, a, kw: o, n)
    if n == 'size' or n == 'ndim':
        return eng.mk('i', e=E0, x=o.x)
    return eng.attr_unknown(o, n)


@attrs(bool, int, float, complex)
def num_attr(eng, o, n, default):
    if n in ('real', 'imag') and not isinstance(o, bool):
        return getattr(o, n)
    if n == 'is_integer':
        return Native(lambda eng, a, kw: float(o).is_integer(), n)
    if n == 'conjugate':
        return Native(lambda eng, a, kw: o.conjugate(), n)
    r = arr_attr(eng, Arr(oarr(o), dtchar(o)), n, default)
    if isinstance(r, Arr) and r.a is not None and r.a.ndim == 0:
        return r.a[()]
    return r


# ------------------------------------------------------------------ libdlf
_LIBDLF = {}


def find_libdlf():
    """{'hankel': {name: [values]}, 'fourier': ...} read from its source."""
    if _LIBDLF:
        return _LIBDLF
    cands = glob.glob('/opt/venv/lib/python3*/site-packages/libdlf') + \
        glob.glob('/usr/lib/python3*/dist-packages/libdlf') + \
        glob.glob('/usr/local/lib/python3*/*-packages/libdlf')
    for ft in ('hankel', 'fourier'):
        _LIBDLF[ft] = {}
        for c in cands:
            f = os.path.join(c, ft + '.py')
            if not os.path.isfile(f):
                continue
            tree = ast.parse(open(f, encoding='utf-8').read())
            for n in tree.body:
                if not isinstance(n, ast.Assign):
                    continue
                t = n.targets[0]
                if isinstance(t, ast.Name) and t.id == '__all__':
                    for k in ast.literal_eval(n.value):
                        _LIBDLF[ft].setdefault(k, None)
                elif isinstance(t, ast.Attribute) and t.attr == 'values':
                    _LIBDLF[ft][t.value.id] = ast.literal_eval(n.value)
            break
        if not _LIBDLF[ft]:
            from .dlfnames import NAMES
            _LIBDLF[ft] = dict(NAMES[ft])
    return _LIBDLF


NPT = 3     # abstract number of filter points


def libdlf_attr(eng, o, n):
    lib = find_libdlf()
    parts = o.path.split('.')
    if len(parts) == 1:
        return Ext('libdlf.'+n) if n in lib else None
    ft = parts[1]
    if len(parts) == 2:
        if n == '__all__':
            return ListV(list(lib[ft]))
        if n == '__dict__':
            return DictV({k: Ext(f'libdlf.{ft}.{k}') for k in lib[ft]})
        return Ext(f'libdlf.{ft}.{n}') if n in lib[ft] else None
    if n == 'values':
        return ListV(list(lib[ft][parts[2]]))
    if n in ('__name__',):
        return parts[2]
    if n == '__doc__':
        return eng.mk('s')
    return None


def libdlf_call(eng, p, a, kw):
    parts = p.split('.')
    lib = find_libdlf()
    if len(parts) == 3 and parts[1] in lib and parts[2] in lib[parts[1]]:
        vals = lib[parts[1]][parts[2]]
        out = np.empty((len(vals)+1, NPT), dtype=object)
        for i in range(len(vals)+1):
            lab = f'dlf:{parts[1]}:{parts[2]}:{"base" if i == 0 else vals[i-1]}'
            for j in range(NPT):
                f = tuple(d.fn('filter', [i, lab, j], [])
                          for d in eng.domains)
                c = NOC
                if eng.dlf_vals and i == 0:
                    c = 10.**(2*j - NPT + 1)
                out[i, j] = S('f', c, frozenset({lab}) if eng.dlf_labels
                              or c is not NOC else E0, E0, f)
        return Arr(out, 'f', frozenset({'glob:libdlf'}))
    return unk(eng, *a)


def np_fallback(eng, p, a, kw):
    eng.unknown_calls[p] = eng.unknown_calls.get(p, 0) + 1
    if p.split('.')[-1] == 'at' and a and isinstance(a[0], Arr):
        np_put(eng, a, kw)
        return None
    return unk(eng, *a, *kw.values())


def other_fallback(eng, p, a, kw):
    eng.unknown_calls[p] = eng.unknown_calls.get(p, 0) + 1
    return unk(eng, *a, *kw.values())


def install(eng):
    eng.intrinsics = INTR
    eng.constants = dict(CONST)
    _E.Engine.attr_table = ATTR
    eng.ext_attrs = {'libdlf': libdlf_attr, 'libdlf.hankel': libdlf_attr,
                     'libdlf.fourier': libdlf_attr}
    lib = find_libdlf()
    for ft in lib:
        for k in lib[ft]:
            eng.ext_attrs[f'libdlf.{ft}.{k}'] = libdlf_attr
    eng.fallbacks = {'numpy': np_fallback, 'scipy': np_fallback,
                     'libdlf': libdlf_call}
    eng.dlf_labels = False
