"""Further NumPy functions, modelled cell by cell."""
import itertools

import numpy as np

from .values import (
    S, Arr, ListV, TupleV, SliceV, E0, NOC, is_raw, is_scalar, promote, oarr)
from . import npmodel as N
from .npmodel import npf, const_np, from_np, axis_of, reshape_, np_sel
from .pymodel import INTR, intr, arg, unk, elements, mm2


def known(*As):
    return all(A.a is not None and not A.masked for A in As)


def smash(eng, *vals):
    s, dts = None, []
    for v in vals:
        A = eng.arr_of(v)
        dts.append(A.dt)
        t = eng.summ(A)
        s = t if s is None else eng.sbin('*', s, t)
    s = eng.sbin('+', s, s)
    return Arr(None, promote(*dts), cell=[s], shp=None)


def consts(eng, *vals):
    """Concrete Python values of the arguments, or None."""
    out = []
    for v in vals:
        if v is None or isinstance(v, (str, bool, int, float)):
            out.append(v)
            continue
        c = eng.cval(v) if isinstance(v, S) else None
        if c is not None and c is not NOC:
            out.append(c)
            continue
        try:
            c = const_np(eng, eng.arr_of(v))
        except Exception:
            return None
        if c is None:
            return None
        out.append(c)
    return out


def isum(eng, terms, dt):
    s = None
    for t in terms:
        s = t if s is None else eng.sbin('+', s, t)
    return N.ZERO.get(dt, 0.0) if s is None else s


def iprod(eng, fs):
    s = None
    for t in fs:
        s = t if s is None else eng.sbin('*', s, t)
    return s


# ------------------------------------------------------- contraction of arrays
@npf('einsum')
def np_einsum(eng, a, kw):
    spec = a[0] if a else None
    if not isinstance(spec, str) or '.' in spec:
        return smash(eng, *[v for v in a if not isinstance(v, str)])
    As = [eng.arr_of(v) for v in a[1:]]
    if not known(*As):
        return smash(eng, *As)
    spec = spec.replace(' ', '')
    ins, _, out = spec.partition('->')
    ins = ins.split(',')
    if '->' not in spec:
        cnt = ''.join(ins)
        out = ''.join(sorted(c for c in set(cnt) if cnt.count(c) == 1))
    size = {}
    for t, A in zip(ins, As):
        if len(t) != A.a.ndim:
            eng.throw('ValueError', 'einsum: subscripts and operands')
        for c, n in zip(t, A.a.shape):
            if size.setdefault(c, n) not in (1, n):
                if n != 1:
                    eng.throw('ValueError', 'einsum: sizes differ')
            size[c] = max(size[c], n)
    red = sorted(set(size) - set(out))
    dt = promote(*[A.dt for A in As])
    shp = tuple(size[c] for c in out)
    if np.prod(shp, dtype=float)*np.prod([size[c] for c in red]) > 2e5:
        return smash(eng, *As)
    res = np.empty(shp, dtype=object)

    def at(A, t, ix):
        return A.a[tuple(ix[c] if n > 1 else 0
                         for c, n in zip(t, A.a.shape))]
    for i in np.ndindex(*shp):
        ix = dict(zip(out, i))
        terms = []
        for j in np.ndindex(*[size[c] for c in red]):
            ix.update(zip(red, j))
            terms.append(iprod(eng, [at(A, t, ix)
                                     for t, A in zip(ins, As)]))
        res[i] = isum(eng, terms, dt)
    return res[()] if res.ndim == 0 else Arr(res, dt)


@npf('tensordot')
def np_tensordot(eng, a, kw):
    A, B = eng.arr_of(a[0]), eng.arr_of(a[1])
    ax = arg(a, kw, 2, 'axes', 2)
    if not known(A, B):
        return smash(eng, A, B)
    n = eng.cint(ax)
    if n is not None and is_scalar(ax):
        p, q = list(range(A.a.ndim-n, A.a.ndim)), list(range(n))
    else:
        its, u = elements(eng, ax)
        if u is not None or len(its) != 2:
            return smash(eng, A, B)
        pq = []
        for v, C in zip(its, (A, B)):
            ks = [v] if is_scalar(v) else elements(eng, v)[0]
            ks = [eng.cint(k) for k in ks]
            if None in ks:
                return smash(eng, A, B)
            pq.append([k % C.a.ndim for k in ks])
        p, q = pq
    la = [chr(97+i) for i in range(A.a.ndim)]
    lb = [chr(65+i) for i in range(B.a.ndim)]
    for i, j in zip(p, q):
        lb[j] = la[i]
    out = ''.join([c for i, c in enumerate(la) if i not in p] +
                  [c for i, c in enumerate(lb) if i not in q])
    return np_einsum(eng, [f"{''.join(la)},{''.join(lb)}->{out}", A, B], {})


@npf('kron')
def np_kron(eng, a, kw):
    A, B = eng.arr_of(a[0]), eng.arr_of(a[1])
    if not known(A, B) or A.a.ndim != 1 or B.a.ndim != 1:
        return smash(eng, A, B)
    o = [eng.sbin('*', p, q) for p in A.a for q in B.a]
    return Arr(oarr(o, (len(o),)), promote(A.dt, B.dt))


def conv(eng, A, B, mode, flip):
    if not known(A, B) or A.a.ndim != 1 or B.a.ndim != 1:
        return smash(eng, A, B)
    x, y = list(A.a), list(B.a)
    if flip:
        y = [eng.unop('conj', q) if B.dt == 'c' else q for q in y[::-1]]
    n, m = len(x), len(y)
    dt = promote(A.dt, B.dt)
    full = [isum(eng, [eng.sbin('*', x[i], y[k-i]) for i in range(n)
                       if 0 <= k-i < m], dt) for k in range(n+m-1)]
    if mode == 'same':
        s = (min(n, m)-1)//2
        full = full[s:s+max(n, m)]
    elif mode == 'valid':
        full = full[min(n, m)-1:max(n, m)]
    elif mode != 'full':
        return smash(eng, A, B)
    return Arr(oarr(full, (len(full),)), dt)


@npf('convolve')
def np_convolve(eng, a, kw):
    return conv(eng, eng.arr_of(a[0]), eng.arr_of(a[1]),
                eng.cval(arg(a, kw, 2, 'mode', 'full')), False)


@npf('correlate')
def np_correlate(eng, a, kw):
    return conv(eng, eng.arr_of(a[0]), eng.arr_of(a[1]),
                eng.cval(arg(a, kw, 2, 'mode', 'valid')), True)


@npf('cross')
def np_cross(eng, a, kw):
    A, B = eng.arr_of(a[0]), eng.arr_of(a[1])
    if not known(A, B) or A.a.shape != (3,) or B.a.shape != (3,):
        return smash(eng, A, B)
    p, q = A.a, B.a
    o = [eng.sbin('-', eng.sbin('*', p[i], q[j]), eng.sbin('*', p[j], q[i]))
         for i, j in ((1, 2), (2, 0), (0, 1))]
    return Arr(oarr(o, (3,)), promote(A.dt, B.dt))


# ------------------------------------------------------------ ufunc methods
def two(name):
    if name in N.BIN:
        return lambda eng, p, q: eng.binop(N.BIN[name], p, q)
    f = INTR['numpy.'+name]
    return lambda eng, p, q: f(eng, [p, q], {})


def outer(name):
    f = two(name)

    def fn(eng, a, kw):
        A, B = eng.arr_of(a[0]), eng.arr_of(a[1])
        if not known(A, B):
            return smash(eng, A, B)
        return f(eng, reshape_(eng, A, TupleV(
            list(A.a.shape) + [1]*B.a.ndim)), B)
    return fn


def red(name):
    f = two(name)

    def fn(eng, a, kw):
        A = eng.arr_of(a[0])
        ax = arg(a, kw, 1, 'axis', 0)
        ini = {'add': 0, 'multiply': 1}.get(name)
        keep = eng.truth(kw.get('keepdims', False))[0] is True
        boo = name.startswith('logical')
        return N.reduce_(eng, A, ax, lambda p, q: f(eng, p, q),
                         'b' if boo else N.sum_dt(A) if name in (
                             'add', 'multiply') else A.dt, keep, ini)
    return fn


def accum(name):
    f = two(name)
    g = N.cum(lambda eng, p, q: f(eng, p, q))

    def fn(eng, a, kw):
        A = eng.arr_of(a[0])
        r = g(eng, A, arg(a, kw, 1, 'axis', 0))
        return r
    return fn


for _n in ('add', 'subtract', 'multiply', 'divide', 'true_divide', 'power',
           'maximum', 'minimum', 'hypot', 'arctan2', 'equal', 'less',
           'greater', 'logical_and', 'logical_or', 'less_equal',
           'greater_equal', 'not_equal', 'floor_divide', 'mod'):
    if _n in N.CMPF:
        _f = (lambda op: lambda eng, a, kw: eng.cmp(op, eng.arr_of(a[0]),
                                                    eng.arr_of(a[1])))
        INTR.setdefault('numpy.'+_n, _f(N.CMPF[_n]))
    npf(_n+'.outer')(outer(_n))
    if _n in ('add', 'multiply', 'maximum', 'minimum', 'logical_and',
              'logical_or'):
        npf(_n+'.reduce')(red(_n))
        if not _n.startswith('logical'):
            npf(_n+'.accumulate')(accum(_n))


@npf('outer')
def np_outer(eng, a, kw):
    A, B = (reshape_(eng, eng.arr_of(v), -1) for v in a[:2])
    if not known(A, B):
        return smash(eng, A, B) if A.a is None or B.a is None else \
            eng.binop('Mult', reshape_(eng, A, TupleV([-1, 1])), B)
    return eng.binop('Mult', reshape_(eng, A, TupleV([-1, 1])), B)


@npf('add.reduceat')
def np_reduceat(eng, a, kw):
    A = eng.arr_of(a[0])
    c = consts(eng, a[1])
    if not known(A) or c is None or A.a.ndim != 1 or len(a) > 2:
        return N.np_sel(eng, a[:1], {})
    ix = [int(i) for i in np.atleast_1d(c[0])] + [A.a.size]
    out = [isum(eng, list(A.a[p:q]) if q > p else [A.a[p]], A.dt)
           for p, q in zip(ix, ix[1:])]
    return Arr(oarr(out, (len(out),)), A.dt)


# ------------------------------------------------ rearrangement of known cells
def rearr(name, zero=False):
    old = INTR.get('numpy.'+name)

    def fn(eng, a, kw):
        A = eng.arr_of(a[0])
        rest = list(a[1:])
        c = consts(eng, *rest, *kw.values())
        if known(A) and c is not None:
            ks = dict(zip(kw, c[len(rest):]))
            try:
                o = getattr(np, name)(A.a, *c[:len(rest)], **ks)
            except (ValueError, IndexError, TypeError) as err:
                eng.throw(type(err).__name__, f'numpy.{name}: {err}')
            o = np.array(o, dtype=object)
            if zero:
                z = N.ZERO.get(A.dt, 0.0)
                f = o.ravel()
                for i, v in enumerate(f):
                    if type(v) is int and v == 0:
                        f[i] = z
                o = f.reshape(o.shape)
            return Arr(o, A.dt)
        if old is not None:
            return old(eng, a, kw)
        s = eng.summ(A)
        return Arr(None, A.dt, cell=[S(s.dt, NOC, s.e, s.x, s.f)], shp=None)
    return npf(name)(fn)


for _n in ('delete',):
    rearr(_n)
for _n in ('diag', 'triu', 'tril', 'diagflat'):
    rearr(_n, True)


@npf('diagonal')
def np_diagonal(eng, a, kw):
    A = eng.arr_of(a[0])
    if known(A) and A.a.ndim == 2 and len(a) == 1 and not kw:
        return Arr(np.diagonal(A.a).copy(), A.dt)
    return N.np_sel(eng, a[:1], {})


@npf('trace')
def np_trace(eng, a, kw):
    A = eng.arr_of(a[0])
    if known(A) and A.a.ndim == 2 and len(a) == 1 and not kw:
        return isum(eng, list(np.diagonal(A.a)), A.dt)
    return eng.summ(A)


@npf('tri')
def np_tri(eng, a, kw):
    c = consts(eng, *a)
    if c is None or kw:
        return unk(eng, *a)
    return from_np(eng, np.tri(*[int(i) for i in c if i is not None]))


def const_fn(name):
    old = INTR.get('numpy.'+name)

    def fn(eng, a, kw):
        c = consts(eng, *[tup(eng, v) for v in a])
        k = consts(eng, *kw.values())
        if c is None or k is None:
            return old(eng, a, kw) if old else unk(eng, *a, *kw.values())
        try:
            o = getattr(np, name)(*[norm(v) for v in c], **dict(zip(kw, k)))
        except (ValueError, IndexError, TypeError) as err:
            eng.throw(type(err).__name__, f'numpy.{name}: {err}')
        if isinstance(o, tuple):
            return TupleV([wrap(eng, v) for v in o])
        return wrap(eng, o)
    return npf(name)(fn)


def tup(eng, v):
    return v


def norm(v):
    if isinstance(v, np.ndarray) and v.dtype.kind in 'iu' and v.ndim == 1:
        return tuple(int(i) for i in v)
    return v


def wrap(eng, o):
    if isinstance(o, np.ndarray) and o.ndim:
        return from_np(eng, o)
    return o.item() if hasattr(o, 'item') else o


for _n in ('triu_indices', 'tril_indices', 'unravel_index',
           'ravel_multi_index', 'diag_indices'):
    const_fn(_n)


@npf('insert')
def np_insert(eng, a, kw):
    A, V = eng.arr_of(a[0]), eng.arr_of(a[2])
    ax = arg(a, kw, 3, 'axis')
    c = consts(eng, a[1])
    if not known(A, V) or c is None or (A.a.ndim != 1 and ax is None):
        return np_sel(eng, [a[0], a[1], a[2]], {})
    k = 0 if ax is None else axis_of(eng, ax, A.a.ndim)
    if k is None:
        return np_sel(eng, [a[0], a[1], a[2]], {})
    try:
        ids = np.arange(A.a.size + V.a.size + 1)
        old = np.empty(A.a.shape, dtype=object)
        old[...] = A.a
        o = np.insert(old, c[0], eng.cast(V.a[()], A.dt) if V.a.ndim == 0
                      else V.a, axis=k)
    except (ValueError, IndexError) as err:
        eng.throw(type(err).__name__, f'numpy.insert: {err}')
    del ids
    r = Arr(o, A.dt)
    eng.retag(r)
    return r


@npf('block')
def np_block(eng, a, kw):
    def nest(v, d):
        if isinstance(v, ListV):
            if v.unk is not None:
                return None
            ps = [nest(i, d) for i in v.items]
            if not ps or any(p is None for p in ps):
                return None
            if isinstance(v.items[0], ListV):
                n = max(2, *[p.a.ndim if p.a is not None else 0 for p in ps])
                ps = [up(p, n) for p in ps]
                return N.concat(eng, ps, -2) if None not in ps else None
            n = max(1, *[p.a.ndim if p.a is not None else 0 for p in ps])
            ps = [up(p, n) for p in ps]
            return N.concat(eng, ps, -1) if None not in ps else None
        return eng.arr_of(v)

    def up(A, n):
        if A.a is None:
            return None
        return reshape_(eng, A, TupleV([1]*(n-A.a.ndim) + list(A.a.shape)))
    r = nest(a[0], 0)
    return unk(eng, *a) if r is None else r


@intr('numpy.c_[]')
def np_c(eng, a, kw):
    it = a[0]
    its = list(it.items) if isinstance(it, TupleV) else [it]
    if any(isinstance(v, SliceV) for v in its):
        its = [INTR['numpy.r_[]'](eng, [v], {}) for v in its]
    return INTR['numpy.column_stack'](eng, [ListV(
        [eng.arr_of(v) for v in its])], {})


# ------------------------------------------------------------------ choices
@npf('select')
def np_select(eng, a, kw):
    cs, u = elements(eng, a[0])
    vs, w = elements(eng, a[1])
    if u is not None or w is not None or len(cs) != len(vs):
        return unk(eng, *a, *kw.values())
    r = arg(a, kw, 2, 'default', 0)
    for c, v in list(zip(cs, vs))[::-1]:
        r = INTR['numpy.where'](eng, [c, v, r], {})
    return r


@npf('choose')
def np_choose(eng, a, kw):
    vs, w = elements(eng, a[1])
    if w is not None or len(a) > 2 or kw:
        return unk(eng, *a, *kw.values())
    r = vs[-1]
    ix = eng.arr_of(a[0])
    for i in range(len(vs)-2, -1, -1):
        r = INTR['numpy.where'](eng, [eng.cmp('Eq', ix, i), vs[i], r], {})
    return r


@npf('piecewise')
def np_piecewise(eng, a, kw):
    cs, u = elements(eng, a[1])
    vs, w = elements(eng, a[2])
    if u is not None or w is not None or len(a) > 3 or kw or \
            len(vs) not in (len(cs), len(cs)+1):
        return unk(eng, *a, *kw.values())
    x = eng.arr_of(a[0])

    def val(v):
        return v if is_scalar(v) or isinstance(v, Arr) else eng.call(
            v, [x], {})
    r = val(vs[-1]) if len(vs) > len(cs) else 0.0
    for c, v in list(zip(cs, vs))[::-1]:
        r = INTR['numpy.where'](eng, [c, val(v), r], {})
    r = eng.arr_of(r)
    return r


# -------------------------------------------------------------- ordered data
@npf('argwhere')
def np_argwhere(eng, a, kw):
    A = eng.arr_of(a[0])
    nz = N.nonzero(eng, A)
    c = [const_np(eng, v) for v in nz.items]
    if all(i is not None for i in c):
        return from_np(eng, np.transpose(c))
    if len(nz.items) == 1 and nz.items[0].a is not None:
        v = nz.items[0]
        return Arr(v.a.reshape(-1, 1), 'i', masked=v.masked)
    return Arr(None, 'i', cell=[eng.summ(v) for v in nz.items][:1],
               shp=(None, len(nz.items)))


def order(eng, A):
    """Concrete order of the cells of a known 1-D array, or None."""
    c = [eng.cval(v) for v in A.a.flat]
    if NOC in c:
        return None
    try:
        return sorted(range(len(c)), key=lambda i: c[i])
    except TypeError:
        return None


_sort = INTR['numpy.sort']


@npf('sort')
def np_sort(eng, a, kw):
    A = eng.arr_of(a[0])
    if known(A) and A.a.ndim == 1 and const_np(eng, A) is None:
        o = order(eng, A)
        if o is not None and not eng.track_x:
            return Arr(A.a[o], A.dt)
    return _sort(eng, a, kw)


_unique = INTR['numpy.unique']


@npf('unique')
def np_unique(eng, a, kw):
    """Exact when the order of the cells is known; equal cells merge only if
    they carry the same facts."""
    A = eng.arr_of(a[0])
    if len(a) > 1 or not known(A) or \
            const_np(eng, A) is not None and not eng.domains or \
            not set(kw) <= {'return_index', 'return_inverse',
                            'return_counts'}:
        return _unique(eng, a, kw)
    flat = Arr(A.a.reshape(-1), A.dt)
    o = order(eng, flat)
    if o is None:
        return _unique(eng, a, kw)
    first, inv, count = [], [0]*len(o), []
    for i in o:
        v = flat.a[i]
        if first and eng.cval(flat.a[first[-1]]) == eng.cval(v):
            u = flat.a[first[-1]]
            if not all(p is not None and q is not None and getattr(
                    p, 'key', p) == getattr(q, 'key', q) for p, q in zip(
                        eng.lift(u).f, eng.lift(v).f)):
                return _unique(eng, a, kw)
            count[-1] += 1
        else:
            first.append(i)
            count.append(1)
        inv[i] = len(first) - 1
    sm = eng.summ(flat) if o else None
    dep = sm.e | sm.x if o and eng.track_x else E0
    out = [Arr(oarr([eng.addx(v, dep) for v in flat.a[first]],
                    (len(first),)), A.dt)]
    for k, v in (('return_index', first),
                 ('return_inverse', inv), ('return_counts', count)):
        v = np.array(v, dtype=int)
        v = v.reshape(A.a.shape) if k == 'return_inverse' else v
        if eng.truth(kw.get(k, False))[0]:
            out.append(from_np(eng, v))
    return out[0] if len(out) == 1 else TupleV(out)


def med(eng, A, axis=None, keep=False):
    if A.a is None:
        return N.np_mean(eng, A, axis, keep)
    m = A.a.reshape(1, -1) if axis is None else np.moveaxis(
        A.a, axis_of(eng, axis, A.a.ndim), -1)
    out = np.empty(m.shape[:-1], dtype=object)
    for i in np.ndindex(*out.shape):
        B = Arr(oarr(list(m[i]), (m.shape[-1],)), A.dt)
        o = order(eng, B)
        n = m.shape[-1]
        if o is None or not n:
            s = eng.summ(B)
            out[i] = S('f', NOC, s.e, s.x, s.f)
        elif n % 2:
            out[i] = eng.cast(B.a[o[n//2]], 'f')
        else:
            out[i] = eng.sbin('/', eng.sbin('+', B.a[o[n//2-1]],
                                            B.a[o[n//2]]), 2)
    if axis is None:
        return out[0]
    return out[()] if out.ndim == 0 else Arr(out, 'f')


N.reg_red('median', med, 'nanmedian')


@npf('searchsorted', 'digitize')
def np_ss(eng, a, kw):
    raise AssertionError


def find(name):
    def fn(eng, a, kw):
        X, B = (a[0], a[1])
        if name == 'searchsorted':
            B, X = X, B
        A, V = eng.arr_of(B), eng.arr_of(X)
        right = arg(a, kw, 2, 'side' if name == 'searchsorted' else 'right',
                    'left' if name == 'searchsorted' else False)
        right = eng.cval(right)
        s = eng.summ(A)
        cs = [eng.cval(v) for v in A.a.flat] if known(A) else [NOC]
        raw = known(A) and all(is_raw(v) for v in A.a.flat)

        def one(p):
            q = eng.lift(p)
            c = eng.cval(p)
            r = eng.mk('i', e=s.e | q.e, x=s.x | q.x)
            if NOC in cs or c is NOC or right is NOC:
                return r
            try:
                if name == 'searchsorted':
                    v = int(np.searchsorted(np.array(cs), c, side=right))
                else:
                    v = int(np.digitize(c, np.array(cs), right))
            except (ValueError, TypeError):
                return r
            if raw and is_raw(p):
                return v
            return eng.mkc(v, s.e | q.e, s.x | q.x)
        if known(V) and not V.a.ndim:
            return one(V.a[()])
        r = eng.emap(one, [V], 'i')
        return eng.maybe_scalar(r) if is_scalar(X) else r
    return fn


for _n in ('searchsorted', 'digitize'):
    npf(_n)(find(_n))


@npf('bincount')
def np_bincount(eng, a, kw):
    A = eng.arr_of(a[0])
    c = const_np(eng, A)
    s = eng.summ(A)
    if c is None or len(a) > 1 or kw:
        return Arr(None, 'i', cell=[eng.mk('i', e=s.e, x=s.x)], shp=(None,))
    return from_np(eng, np.bincount(c))


@npf('average')
def np_average(eng, a, kw):
    w = arg(a, kw, 2, 'weights')
    ax = arg(a, kw, 1, 'axis')
    A = eng.arr_of(a[0])
    if w is None:
        return N.np_mean(eng, A, ax)
    W = eng.arr_of(w)
    if not known(A, W):
        return eng.summ(smash(eng, A, W))
    if W.a.ndim == 1 and A.a.ndim > 1 and ax is not None:
        k = axis_of(eng, ax, A.a.ndim)
        W = reshape_(eng, W, TupleV([-1 if i == k else 1
                                     for i in range(A.a.ndim)]))
    p = eng.arr_of(eng.binop('Mult', A, W))
    W = eng.arr_of(INTR['numpy.broadcast_to'](
        eng, [W, TupleV(list(p.a.shape))], {}))
    return eng.binop('Div', N.np_sum(eng, p, ax), N.np_sum(eng, W, ax))


def var(root):
    def fn(eng, a, kw):
        A = eng.arr_of(a[0])
        ax = arg(a, kw, 1, 'axis')
        dd = eng.cval(kw.get('ddof', 0))
        if not known(A) or ax is not None or dd is NOC:
            return unk(eng, *a, dt='f')
        m = N.np_mean(eng, A)
        d = [eng.sbin('-', v, m) for v in A.a.flat]
        s = isum(eng, [eng.sbin('*', v, v) for v in d], A.dt)
        s = eng.binop('Div', s, A.a.size - int(dd))
        return INTR['numpy.sqrt'](eng, [s], {}) if root else s
    return fn


npf('var', 'nanvar')(var(False))
npf('std', 'nanstd')(var(True))


@npf('trapezoid', 'trapz')
def np_trapezoid(eng, a, kw):
    A = eng.arr_of(a[0])
    x = arg(a, kw, 1, 'x')
    dx = arg(a, kw, 2, 'dx', 1.0)
    if not known(A) or A.a.ndim != 1 or 'axis' in kw or len(a) > 3:
        s = eng.summ(A)
        return eng.sbin('+', s, s)
    X = eng.arr_of(x) if x is not None else None
    if X is not None and not known(X):
        return eng.summ(smash(eng, A, X))
    t = []
    for i in range(A.a.size-1):
        h = dx if X is None else eng.sbin('-', X.a[i+1], X.a[i])
        t.append(eng.sbin('/', eng.sbin('*', h, eng.sbin(
            '+', A.a[i], A.a[i+1])), 2))
    return isum(eng, t, 'f')


@npf('ediff1d')
def np_ediff1d(eng, a, kw):
    A = reshape_(eng, eng.arr_of(a[0]), -1)
    if kw or len(a) > 1:
        return unk(eng, *a, *kw.values())
    return INTR['numpy.diff'](eng, [A], {})


@npf('exp2')
def np_exp2(eng, a, kw):
    return eng.binop('Pow', 2.0, eng.arr_of(a[0]) if not is_scalar(a[0])
                     else a[0])


@npf('polyval')
def np_polyval(eng, a, kw):
    P, x = eng.arr_of(a[0]), a[1]
    if not known(P) or P.a.ndim != 1:
        return smash(eng, P, x)
    r = None
    for c in P.a:
        r = c if r is None else eng.binop('Add', eng.binop(
            'Mult', r, x if is_scalar(x) else eng.arr_of(x)), c)
    return r


@npf('apply_along_axis')
def np_aaa(eng, a, kw):
    f, ax, A = a[0], a[1], eng.arr_of(a[2])
    k = axis_of(eng, ax, A.a.ndim) if known(A) else None
    if k is None:
        return unk(eng, *a)
    m = np.moveaxis(A.a, k, -1)
    res = {}
    for i in np.ndindex(*m.shape[:-1]):
        res[i] = eng.arr_of(eng.call(f, [Arr(oarr(
            list(m[i]), (m.shape[-1],)), A.dt)] + list(a[3:]), kw))
    vs = list(res.values())
    if not vs or not known(*vs) or len({v.a.shape for v in vs}) > 1:
        return unk(eng, *a)
    out = np.empty(m.shape[:-1] + vs[0].a.shape, dtype=object)
    for i, v in res.items():
        out[i] = v.a[()] if v.a.ndim == 0 else v.a
    if vs[0].a.ndim == 1:
        out = np.moveaxis(out, -1, k)
    return Arr(out, promote(*[v.dt for v in vs]))


# ------------------------------------------------------------------- padding
_pad = INTR['numpy.pad']


def pairs(eng, w, nd):
    c = eng.cint(w) if is_scalar(w) else None
    if c is not None:
        return [(c, c)]*nd
    its, u = elements(eng, w)
    if u is not None:
        return None
    if all(is_scalar(i) for i in its):
        ks = [eng.cint(i) for i in its]
        if None in ks:
            return None
        return [(ks[0], ks[-1])]*nd
    out = []
    for v in its:
        if is_scalar(v):
            return None
        ks = [eng.cint(i) for i in elements(eng, v)[0]]
        if None in ks or not ks:
            return None
        out.append((ks[0], ks[-1]))
    if len(out) == 1:
        out *= nd
    return out if len(out) == nd else None


@npf('pad')
def np_pad(eng, a, kw):
    A = eng.arr_of(a[0])
    mode = eng.cval(arg(a, kw, 2, 'mode', 'constant'))
    ps = pairs(eng, arg(a, kw, 1, 'pad_width'), A.a.ndim) if known(A) \
        else None
    extra = {k: v for k, v in kw.items() if k not in ('mode', 'pad_width')}
    cv = extra.pop('constant_values', N.ZERO.get(A.dt, 0.0))
    if ps is None or extra or mode not in (
            'constant', 'edge', 'linear_ramp', 'wrap', 'reflect') or \
            not is_scalar(cv) or any(p < 0 or q < 0 for p, q in ps):
        return _pad(eng, a, kw)
    o = A.a
    for k, (p, q) in enumerate(ps):
        m = np.moveaxis(o, k, 0)
        n = m.shape[0]
        if mode in ('edge', 'wrap', 'reflect') and (p or q) and n:
            ix = np.pad(np.arange(n), (p, q), mode)
            m = m[ix]
        elif p or q:
            out = np.empty((p+n+q,) + m.shape[1:], dtype=object)
            out[p:p+n] = m
            for j in np.ndindex(*m.shape[1:]):
                for i in range(p):
                    out[(i,)+j] = ramp(eng, m[(0,)+j], i, p, mode, cv, A.dt)
                for i in range(q):
                    out[(p+n+i,)+j] = ramp(eng, m[(n-1,)+j], q-1-i, q, mode,
                                           cv, A.dt)
            m = out
        o = np.moveaxis(m, 0, k)
    return Arr(o.copy(), A.dt)


def ramp(eng, v, i, n, mode, cv, dt):
    if mode == 'constant':
        return eng.cast(cv, dt)
    if not i:
        return N.ZERO.get(dt, 0.0)
    return eng.sbin('/', eng.sbin('*', v, i), n)


# -------------------------------------------------------------------- python
def perms(name):
    def fn(eng, a, kw):
        its, u = elements(eng, a[0])
        r = arg(a, kw, 1, 'r')
        n = eng.cint(r) if r is not None else None
        if u is not None or (r is not None and n is None):
            return unk(eng, *a)
        f = getattr(itertools, name)
        ix = f(range(len(its)), n) if n is not None else \
            f(range(len(its))) if name == 'permutations' else []
        return ListV([TupleV([its[k] for k in t]) for t in ix])
    return fn


for _n in ('combinations', 'permutations', 'combinations_with_replacement'):
    intr('itertools.'+_n)(perms(_n))


@intr('itertools.accumulate')
def it_acc(eng, a, kw):
    its, u = elements(eng, a[0])
    f = arg(a, kw, 1, 'func')
    if u is not None or 'initial' in kw:
        return unk(eng, *a)
    out, s = [], None
    for v in its:
        s = v if not out else (eng.binop('Add', s, v) if f is None
                               else eng.call(f, [s, v], {}))
        out.append(s)
    return ListV(out)


@intr('itertools.starmap')
def it_star(eng, a, kw):
    its, u = elements(eng, a[1])
    if u is not None:
        return unk(eng, *a)
    return ListV([eng.call(a[0], elements(eng, v)[0], {}) for v in its])


@intr('itertools.pairwise')
def it_pair(eng, a, kw):
    its, u = elements(eng, a[0])
    if u is not None:
        return unk(eng, *a)
    return ListV([TupleV([p, q]) for p, q in zip(its, its[1:])])


@npf('ndindex')
def np_ndindex(eng, a, kw):
    if len(a) == 1 and not is_scalar(a[0]):
        a, u = elements(eng, a[0])
        if u is not None:
            return unk(eng, u)
    ks = [eng.cint(v) for v in a]
    if None in ks:
        return unk(eng, *a)
    return ListV([TupleV(list(i)) for i in np.ndindex(*ks)])


@npf('ndenumerate')
def np_ndenumerate(eng, a, kw):
    A = eng.arr_of(a[0])
    if not known(A):
        return ListV([], TupleV([TupleV([], eng.mk('i')), eng.summ(A)]))
    return ListV([TupleV([TupleV(list(i)), A.a[i]])
                  for i in np.ndindex(*A.a.shape)])


def ends(name):
    old = INTR['numpy.'+name]

    def fn(eng, a, kw):
        kw = dict(kw)
        ep = eng.truth(arg(a, kw, 3, 'endpoint', True))[0]
        rs = eng.truth(kw.pop('retstep', False))[0]
        kw.pop('endpoint', None)
        kw.pop('dtype', None)
        if rs is not False or ep is None:
            return unk(eng, *a)
        if ep:
            return old(eng, a[:3], kw)
        n = arg(a, kw, 2, 'num', 50)
        r = old(eng, [a[0], a[1], eng.binop('Add', n, 1)], {})
        return eng.getitem(r, SliceV(None, -1, None)) if isinstance(
            r, Arr) else r
    return fn


for _n in ('linspace', 'logspace', 'geomspace'):
    npf(_n)(ends(_n))


@npf('isclose')
def np_isclose(eng, a, kw):
    A, B = eng.arr_of(a[0]), eng.arr_of(a[1])
    rt = eng.cval(arg(a, kw, 2, 'rtol', 1e-5))
    at = eng.cval(arg(a, kw, 3, 'atol', 1e-8))

    def two(p, q):
        cp, cq = eng.cval(p), eng.cval(q)
        c = NOC
        if NOC not in (cp, cq, rt, at):
            try:
                c = bool(np.isclose(cp, cq, rtol=rt, atol=at))
            except TypeError:
                pass
        P, Q = eng.lift(p), eng.lift(q)
        if c is not NOC:
            if not (P.e | Q.e | P.x | Q.x):
                return c
            return eng.mkc(c, P.e | Q.e, P.x | Q.x)
        f = tuple(d.cmp('Eq', P.f[i], Q.f[i], P, Q)
                  for i, d in enumerate(eng.domains))
        return S('b', c, P.e | Q.e, P.x | Q.x, f)
    return eng.maybe_scalar(eng.emap(two, [A, B], 'b'))


def logical(op):
    def two(eng, p, q):
        cp, ep, xp = eng.truth(p)
        cq, eq, xq = eng.truth(q)
        r = None
        if op == 'and':
            r = False if False in (cp, cq) else True if cp and cq else None
        elif op == 'or':
            r = True if True in (cp, cq) else False if \
                cp is False and cq is False else None
        elif cp is not None and cq is not None:
            r = cp != cq
        if r is not None:
            return eng.mkc(r, ep | eq, xp | xq) if ep | eq | xp | xq else r
        return S('b', NOC, ep | eq, xp | xq, eng.nof)

    def fn(eng, a, kw):
        r = eng.emap(lambda p, q: two(eng, p, q),
                     [eng.arr_of(a[0]), eng.arr_of(a[1])], 'b')
        return eng.maybe_scalar(r)
    return fn


for _n in ('and', 'or', 'xor'):
    npf('logical_'+_n)(logical(_n))
