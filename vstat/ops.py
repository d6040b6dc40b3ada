"""Operators, indexing and attribute access on abstract values."""
import builtins
import math
import cmath

import numpy as np

from .values import (
    S, Arr, ListV, SetV, TupleV, DictV, InstV, Alt, FuncV, Bound, ClassV,
    ModV, Ext, Native, DtypeV, SliceV, RangeV, SuperV, ExcV, E0, NOC,
    ABSENT, UNBOUND, is_raw, is_scalar, dtchar, promote, oarr)

_MISSING = object()
INF = float('inf')

OPS = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'FloorDiv': '//',
       'Mod': '%', 'Pow': '**', 'BitAnd': '&', 'BitOr': '|', 'BitXor': '^',
       'LShift': '<<', 'RShift': '>>', 'MatMult': '@'}
CMP = {'Eq', 'NotEq', 'Lt', 'LtE', 'Gt', 'GtE'}


def fold(op, a, b):
    """NumPy-like constant folding; NOC if not foldable."""
    try:
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a * b
        if op == '/':
            if b == 0:
                if isinstance(a, complex) or isinstance(b, complex):
                    return complex('nan')
                if a == 0 or a != a:
                    return float('nan')
                return math.copysign(INF, a)
            return a / b
        if op == '//':
            return a // b
        if op == '%':
            return a % b
        if op == '**':
            if isinstance(b, int) and abs(b) > 4096:
                return NOC
            r = a ** b
            return r
        if op == '&':
            return a & b
        if op == '|':
            return a | b
        if op == '^':
            return a ^ b
        if op == '<<':
            return a << b if b < 4096 else NOC
        if op == '>>':
            return a >> b
    except (OverflowError, ZeroDivisionError):
        return float('nan') if op in '%//' else INF
    except TypeError:
        return NOC
    return NOC


def foldcmp(op, a, b):
    try:
        if op == 'Eq':
            return bool(a == b)
        if op == 'NotEq':
            return bool(a != b)
        if op == 'Lt':
            return bool(a < b)
        if op == 'LtE':
            return bool(a <= b)
        if op == 'Gt':
            return bool(a > b)
        if op == 'GtE':
            return bool(a >= b)
    except TypeError:
        return NOC


class Ops:
    # --------------------------------------------------------------- scalars
    def sbin(self, op, a, b):
        """Scalar binary operator."""
        ra, rb = not isinstance(a, S), not isinstance(b, S)
        if ra and rb:
            c = fold(op, a, b)
            if c is not NOC:
                return c
        A, B = self.lift(a), self.lift(b)
        c = NOC
        if A.c is not NOC and B.c is not NOC:
            c = fold(op, A.c, B.c)
        if A.dt in 'bifc' and B.dt in 'bifc':
            if op in '&|^':
                dt = promote(A.dt, B.dt)
            elif op == '/':
                dt = promote(A.dt, B.dt, 'f')
            elif op == '**':
                dt = promote(A.dt, B.dt, 'i')
            elif op in ('+', '*') and A.dt == B.dt == 'b':
                # numpy bools stay bool, python bools become int
                dt = 'b'
            else:
                dt = promote(A.dt, B.dt)
        elif A.dt == 's' or B.dt == 's':
            dt = 's'
        else:
            dt = '?'
        if c is not NOC and dt == 'b' and not isinstance(c, bool):
            c = bool(c)
        f = tuple(d.bin(op, p, q, A, B) for d, p, q in
                  zip(self.domains, A.f, B.f))
        if c is not NOC and dt == 'b':
            f = tuple(d.const(c) for d in self.domains)
        return S(dt, c, A.e | B.e, A.x | B.x, f)

    def scmp(self, op, a, b):
        ra, rb = not isinstance(a, S), not isinstance(b, S)
        if ra and rb:
            c = foldcmp(op, a, b)
            if c is not NOC:
                return c
            if op in ('Lt', 'LtE', 'Gt', 'GtE'):
                self.throw('TypeError', f'{a!r} {op} {b!r}')
        A, B = self.lift(a), self.lift(b)
        c = NOC
        if A.c is not NOC and B.c is not NOC:
            c = foldcmp(op, A.c, B.c)
        elif op in ('Eq', 'NotEq'):
            # None or strings never equal numbers
            for p, q in ((A, B), (B, A)):
                if (p.c is None or isinstance(p.c, str)) and q.dt in 'bifc':
                    c = op == 'NotEq'
                if p.c is None and q.dt == 's':
                    c = op == 'NotEq'
        elif A is B and A.dt in 'bi' and op in ('LtE', 'GtE'):
            c = True
        f = tuple(d.cmp(op, p, q, A, B) for d, p, q in
                  zip(self.domains, A.f, B.f))
        if c is not NOC:
            f = tuple(d.const(c) for d in self.domains)
        return S('b', c, A.e | B.e, A.x | B.x, f)

    UNDT = {'neg': None, 'pos': None, 'abs': 'abs', 'invert': None,
            'real': 'real', 'imag': 'real', 'conj': None, 'sign': None,
            'not': 'b', 'isfinite': 'b', 'isnan': 'b', 'isinf': 'b',
            'square': None, 'round': None, 'floor': 'real', 'ceil': 'real',
            'angle': 'real', 'int': 'i', 'float': 'f', 'bool': 'b',
            'isclose0': 'b', 'copy': None}

    def sun(self, name, a):
        """Scalar unary function."""
        if not isinstance(a, S):
            c = self.fold_un(name, a)
            if c is not NOC:
                return c
            a = self.lift(a)
        c = NOC
        if a.c is not NOC:
            c = self.fold_un(name, a.c)
        r = self.UNDT.get(name, 'float')
        if r is None:
            dt = a.dt
        elif r == 'abs':
            dt = 'f' if a.dt == 'c' else a.dt
        elif r == 'real':
            dt = 'f' if a.dt in 'fc' else a.dt
        elif r == 'float':
            dt = a.dt if a.dt in 'fc?o' else 'f'
        else:
            dt = r
        if name == 'invert' and a.dt == 'b' and c is not NOC:
            c = not a.c
        if dt == 'b' and c is not NOC:
            return S(dt, c, a.e, a.x, tuple(d.const(c) for d in self.domains))
        f = tuple(d.un(name, p, a) for d, p in zip(self.domains, a.f))
        return S(dt, c, a.e, a.x, f)

    def fold_un(self, name, a):
        try:
            if name == 'neg':
                return -a
            if name == 'pos':
                return a
            if name == 'abs':
                return abs(a)
            if name == 'invert':
                return (not a) if isinstance(a, bool) else ~a
            if name == 'not':
                return not a
            if name in ('real', 'imag', 'conj'):
                if name == 'conj':
                    return a.conjugate()
                r = getattr(a, name)
                return r
            if name == 'sign':
                return type(a)((a > 0) - (a < 0))
            if name == 'square':
                return a*a
            if name == 'isfinite':
                return cmath.isfinite(a)
            if name == 'isnan':
                return cmath.isnan(a)
            if name == 'isinf':
                return cmath.isinf(a)
            if name == 'int':
                return int(a)
            if name == 'float':
                return float(a)
            if name == 'bool':
                return bool(a)
            if name == 'copy':
                return a
            if isinstance(a, complex):
                fn = getattr(cmath, name, None)
                return fn(a) if fn else NOC
            if name == 'sqrt':
                if a < 0:
                    return float('nan')
                return math.sqrt(a)
            if name in ('log', 'log10', 'log2'):
                if a == 0:
                    return -INF
                if a < 0:
                    return float('nan')
                return getattr(math, name)(a)
            if name in ("floor", "ceil", "trunc"):
                return float(getattr(math, name)(a))
            if name == 'round':
                return type(a)(round(a))
            if name == 'log1p' or name == 'expm1':
                return getattr(math, name)(a)
            if name == 'deg2rad':
                return math.radians(a)
            if name == 'rad2deg':
                return math.degrees(a)
            if name == 'arctan':
                return math.atan(a)
            if name == 'arccos':
                return math.acos(a)
            if name == 'arcsin':
                return math.asin(a)
            fn = getattr(math, name, None)
            if fn is None:
                return NOC
            return fn(a)
        except OverflowError:
            return INF
        except (ValueError, TypeError, AttributeError, ZeroDivisionError):
            return NOC

    def sfn(self, name, args, dt='f'):
        """n-ary scalar function through the domains."""
        L = [self.lift(a) for a in args]
        e = x = E0
        for a in L:
            e, x = e | a.e, x | a.x
        f = tuple(d.fn(name, [a.f[i] for a in L], L)
                  for i, d in enumerate(self.domains))
        return S(dt, NOC, e, x, f)

    def slin(self, name, args, keys, ys, j, dt='f'):
        """Like sfn(name, args); domains that follow individual elements see
        a linear map of the values ys with weights given by keys."""
        r = self.sfn(name, args, dt)
        for i, d in enumerate(self.domains):
            if hasattr(d, 'lin'):
                K = [self.lift(q).f[i] for q in keys]
                Y = [self.lift(q).f[i] for q in ys]
                r.f = r.f[:i] + (d.lin(name, K, Y, j, dt),) + r.f[i+1:]
        return r

    # -------------------------------------------------------------- coercion
    def alt_map(self, fn, *vals):
        """Map fn over alternatives of its Alt arguments, join results."""
        idx = [i for i, v in enumerate(vals) if isinstance(v, Alt)]
        if not idx:
            return fn(*vals)
        i = idx[0]
        out = _MISSING
        n = len(self.events)
        err = None
        for o in vals[i].opts:
            if o is ABSENT or o is UNBOUND:
                continue
            try:
                r = self.alt_map(fn, *vals[:i], o, *vals[i+1:])
            except Exception as ex:
                if type(ex).__name__ != 'RaiseSig':
                    raise
                err = ex
                continue
            out = r if out is _MISSING else self.join(out, r)
        if out is _MISSING:
            if err is not None:
                raise err
            return self.mk()
        if err is not None:
            # infeasible alternatives: forget their implicit errors
            self.events[n:] = [v for v in self.events[n:]
                               if v.kind != 'implicit']
        return self.addx(out, vals[i].x)

    def arr_of(self, v, dt=None):
        """View v as an Arr (no copy for Arr)."""
        if isinstance(v, Arr):
            return v
        if is_scalar(v):
            return Arr(oarr(v), dt or dtchar(v))
        if isinstance(v, (ListV, TupleV)):
            return self.from_seq(v)
        if isinstance(v, RangeV):
            cs = [self.cint(q) for q in (v.lo, v.hi, v.st)]
            if None not in cs:
                r = list(range(*cs))
                return Arr(oarr(r, (len(r),)), 'i')
            e, x = self.deps(v)
            return Arr(None, 'i', cell=[self.mk('i', e=e, x=x)], shp=(None,))
        if isinstance(v, Alt):
            out = None
            for o in v.opts:
                if o is None or o is ABSENT or o is UNBOUND:
                    continue
                a = self.arr_of(o)
                out = a if out is None else self.join_arr(out, a)
            if out is not None:
                return out
        if v is None or isinstance(v, str):
            return Arr(oarr(v if isinstance(v, str) else self.mkc(v)), 'o')
        e, x = self.deps(v)
        return Arr(None, '?', frozenset(), cell=[self.mk('?', e=e, x=x)])

    def from_seq(self, v):
        if v.unk is not None:
            s = None
            dt = []
            for o in list(v.items) + [v.unk]:
                a = self.arr_of(o)
                dt.append(a.dt)
                t = self.summ(a)
                s = t if s is None else self.join_s(s, t)
            return Arr(None, promote(*dt), cell=[s], shp=None)
        parts = [self.arr_of(o) for o in v.items]
        if not parts:
            return Arr(np.empty((0,), dtype=object), 'f')
        dt = promote(*[p.dt for p in parts])
        if any(p.smashed for p in parts) or \
                len({p.a.shape for p in parts}) > 1 or \
                any(p.masked for p in parts):
            if all(not p.smashed for p in parts) and \
                    len({p.a.shape for p in parts}) > 1:
                # ragged: numpy raises unless dtype=object
                return Arr(None, 'o', cell=[self.lift_many(parts)],
                           shp=(len(parts),))
            sh = self.shape(parts[0])
            for p in parts[1:]:
                sh = self.join_shape(sh, self.shape(p))
            return Arr(None, dt, cell=[self.lift_many(parts)],
                       shp=None if sh is None else (len(parts),)+sh)
        a = np.empty((len(parts),) + parts[0].a.shape, dtype=object)
        for i, p in enumerate(parts):
            a[i] = p.a if p.a.ndim else p.a[()]
        return Arr(a, dt)

    def lift_many(self, parts):
        s = None
        for p in parts:
            t = self.summ(p)
            s = t if s is None else self.join_s(s, t)
        return s

    def cast(self, v, dt):
        """Scalar cast for storing into an array of kind dt."""
        if dt == '?' or dt == 'o':
            return v
        if isinstance(v, S):
            if v.dt == dt or v.dt not in 'bifc':
                if v.dt in '?o' and dt in 'bifc':
                    return S(dt, NOC, v.e, v.x, v.f)
                return v
            c = v.c
            if c is not NOC:
                c = self.castc(c, dt)
            f = v.f
            if dt == 'i' and v.dt == 'f':
                f = tuple(d.toint(q, c) if hasattr(d, 'toint') else q
                          for d, q in zip(self.domains, f))
            return S(dt, c, v.e, v.x, f)
        return self.castc(v, dt)

    def castc(self, c, dt):
        try:
            if dt == 'b':
                return bool(c)
            if dt == 'i':
                return int(c.real) if isinstance(c, complex) else int(c)
            if dt == 'f':
                return float(c.real) if isinstance(c, complex) else float(c)
            if dt == 'c':
                return complex(c)
        except (TypeError, ValueError, OverflowError):
            pass
        return c

    # ----------------------------------------------------------- elementwise
    def bshape(self, a, b):
        """Broadcast of possibly unknown shapes."""
        if a is None or b is None:
            return None
        n = max(len(a), len(b))
        a = (1,)*(n-len(a)) + tuple(a)
        b = (1,)*(n-len(b)) + tuple(b)
        out = []
        for p, q in zip(a, b):
            if p == 1:
                out.append(q)
            elif q == 1:
                out.append(p)
            elif p is None or q is None:
                out.append(p if q is None else q)
            elif p == q:
                out.append(p)
            else:
                self.event('shape', f'{a} vs {b}')
                self.throw('ValueError', f'operands could not be broadcast '
                           f'together {a} {b}')
        return tuple(out)

    def emap(self, fn, arrs, dt=None):
        """Elementwise map over Arrs; returns fresh Arr."""
        cls = None
        for a in arrs:
            if a.cls is not None:
                cls = a.cls
        conc = [a for a in arrs if a.a is not None]
        sm = [a for a in arrs if a.a is None]
        if sm:
            # a smashed operand against a "masked" one keeps the latter form
            mk = [a for a in conc if a.masked or a.a.size > 0]
            useconc = False
            if mk:
                nd = max(a.a.ndim for a in mk)
                ok = all(a.shp is not None and len(a.shp) <= nd for a in sm)
                if ok:
                    sh = (1,)*0
                    sh = np.broadcast_shapes(*[a.a.shape for a in conc])
                    for a in sm:
                        s2 = (1,)*(nd-len(a.shp)) + tuple(a.shp)
                        for p, q in zip(s2, sh):
                            if p is None and q == 1:
                                ok = False
                            elif isinstance(p, int) and p != 1 and p != q:
                                ok = False
                    masked = any(a.masked for a in mk)
                    useconc = ok and masked
            if useconc:
                arrs = [a if a.a is not None else
                        Arr(oarr(a.cell[0]), a.dt) for a in arrs]
            else:
                sh = ()
                for a in arrs:
                    sh = self.bshape(sh, self.shape(a))
                vals = [self.summ(a) if a.a is None or a.a.size != 1
                        else a.a.flat[0] for a in arrs]
                r = fn(*vals)
                return Arr(None, dt or dtchar(r), cell=[r], shp=sh, cls=cls)
        try:
            bs = np.broadcast_arrays(*[a.a for a in arrs])
        except ValueError:
            if any(a.masked for a in arrs):
                r = fn(*[self.summ(a) for a in arrs])
                return Arr(None, dt or dtchar(r), cell=[r], shp=None, cls=cls)
            sh = [a.a.shape for a in arrs]
            self.event('shape', f'{sh}')
            self.throw('ValueError', 'operands could not be broadcast '
                       f'together with shapes {sh}')
        shape = bs[0].shape
        out = np.empty(shape, dtype=object)
        memo = {}
        kinds = set()
        for idx in np.ndindex(*shape):
            vals = tuple(b[idx] for b in bs)
            k = tuple(map(id, vals))
            r = memo.get(k)
            if r is None:
                r = (fn(*vals), vals)
                memo[k] = r
                kinds.add(dtchar(r[0]))
            out[idx] = r[0]
        if dt is None:
            if kinds:
                dt = kinds.pop() if len(kinds) == 1 else promote(*kinds)
            else:
                dt = promote(*[a.dt for a in arrs])
        masked = E0
        nd = len(shape)
        for a in arrs:
            for m in a.masked:
                masked = masked | {m + nd - a.a.ndim}
        return Arr(out, dt, masked=masked, cls=cls)

    def binop(self, opname, a, b):
        op = OPS[opname]
        if isinstance(a, Alt) or isinstance(b, Alt):
            return self.alt_map(lambda p, q: self.binop(opname, p, q), a, b)
        if is_scalar(a) and is_scalar(b):
            if isinstance(a, S) and a.dt in '?so' and a.dt == 's' or \
                    isinstance(b, S) and b.dt == 's':
                if op == '+':
                    return self.concat_str([a, b])
            return self.sbin(op, a, b)
        if a is None or b is None:
            self.throw('TypeError', f'unsupported operand None {op}')
        if isinstance(a, (str,)) or isinstance(b, (str,)):
            if op == '+' and isinstance(a, (str, S)) and \
                    isinstance(b, (str, S)):
                return self.concat_str([a, b])
            if op == '*':
                ca, cb = self.cval(a), self.cval(b)
                if ca is not NOC and cb is not NOC:
                    return ca * cb
                e, x = self.deps(b if isinstance(a, str) else a)
                return self.mk('s', e=e, x=x, p='{}')
            if op == '%' and isinstance(a, str):
                e, x = self.deps(b)
                return self.mk('s', e=e, x=x, p=a)
            if isinstance(a, str) and isinstance(b, str):
                self.throw('TypeError', 'str op')
            e, x = self.deps(a)
            e2, x2 = self.deps(b)
            if op == '+' and not isinstance(a, S) and not isinstance(b, S):
                self.throw('TypeError', 'str + non-str')
            return self.mk('?', e=e | e2, x=x | x2)
        if isinstance(a, (ListV, TupleV)) and not isinstance(a, SetV) and \
                isinstance(b, (ListV, TupleV)) and op == '+':
            it = list(a.items) + list(b.items)
            unk = self.join_opt(a.unk, b.unk)
            if a.unk is not None:
                it = list(a.items)
                for o in b.items:
                    unk = self.join(unk, o)
            if isinstance(a, ListV):
                return ListV(it, unk, own=self.own_label())
            return TupleV(it, unk)
        if isinstance(a, SetV) and isinstance(b, SetV):
            it = list(a.items)
            if op == '|':
                for o in b.items:
                    if self.truth(self.contains(o, a))[0] is not True:
                        it.append(o)
                return SetV(it, self.join_opt(a.unk, b.unk))
            if op in '-&' and a.unk is None and b.unk is None:
                keep = []
                for o in it:
                    c = self.truth(self.contains(o, b))[0]
                    if c is None:
                        return SetV([], self.lift_many(
                            [self.arr_of(o) for o in it]))
                    if c == (op == '&'):
                        keep.append(o)
                return SetV(keep)
            e, x = self.deps(a)
            e2, x2 = self.deps(b)
            return SetV([], self.mk('?', e=e | e2, x=x | x2))
        if op == '*' and isinstance(a, (ListV, TupleV)) and is_scalar(b):
            n = self.cint(b)
            if n is not None and a.unk is None:
                t = ListV if isinstance(a, ListV) else TupleV
                return t(list(a.items)*max(n, 0))
            u = a.unk
            for o in a.items:
                u = self.join_opt(u, o)
            return ListV([], u) if isinstance(a, ListV) else TupleV([], u)
        if op == '*' and isinstance(b, (ListV, TupleV)) and is_scalar(a):
            return self.binop(opname, b, a)
        if isinstance(a, DictV) and isinstance(b, DictV) and op == '|':
            d = DictV(own=self.own_label())
            self.dict_update(d, a)
            self.dict_update(d, b)
            return d
        if isinstance(a, InstV) and isinstance(a.cls, ClassV):
            m = self.find_attr(a, '__' + {'+': 'add', '-': 'sub', '*': 'mul',
                               '/': 'truediv', '**': 'pow', '%': 'mod',
                               '//': 'floordiv', '@': 'matmul', '&': 'and',
                               '|': 'or', '^': 'xor'}.get(op, 'x') + '__')
            if m is not None:
                return self.call(m, [b], {})
        arrish = (Arr, ListV, TupleV, RangeV)
        if (isinstance(a, Arr) or isinstance(b, Arr)) and \
                isinstance(a, arrish + (S, bool, int, float, complex)) and \
                isinstance(b, arrish + (S, bool, int, float, complex)):
            if op == '@':
                return self.call(Ext('numpy.dot'), [a, b], {})
            A, B = self.arr_of(a), self.arr_of(b)
            r = self.emap(lambda p, q: self.sbin(op, p, q), [A, B])
            # numpy scalars of kind
            r.dt = self.bin_dt(op, A, B, a, b)
            if r.dt in 'fc':
                self.retag(r)
            return self.maybe_scalar(r, a, b)
        e, x = self.deps(a)
        e2, x2 = self.deps(b)
        return self.mk('?', e=e | e2, x=x | x2)

    def retag(self, r):
        """Cells of an array take its dtype."""
        if r.a is None:
            r.cell[0] = self.cast(r.cell[0], r.dt)
            return
        for i in np.ndindex(*r.a.shape):
            v = r.a[i]
            if dtchar(v) != r.dt:
                r.a[i] = self.cast(v, r.dt)

    def bin_dt(self, op, A, B, a=None, b=None):
        da, db = A.dt, B.dt
        if da not in 'bifc' or db not in 'bifc':
            return '?'
        if op == '/':
            return promote(da, db, 'f')
        if op == '**':
            return promote(da, db, 'i')
        if op == '-' and da == db == 'b':
            return 'b'
        if op in ('//', '%'):
            return promote(da, db, 'i')
        return promote(da, db)

    def maybe_scalar(self, r, *ops):
        """0-d results of array arithmetic become scalars."""
        if r.a is not None and r.a.ndim == 0:
            return r.a[()]
        return r

    def iop(self, opname, cur, rhs):
        """In-place operator; returns the new binding (same object for
        mutable containers)."""
        op = OPS[opname]
        if isinstance(cur, Alt):
            outs = []
            for o in cur.opts:
                if o is ABSENT or o is UNBOUND or o is None:
                    continue
                outs.append(self.iop(opname, o, rhs))
            if outs:
                return self.mkalt(outs, cur.x)
            self.throw('TypeError', 'iop on None')
        if isinstance(cur, ListV) and op == '+' and not isinstance(cur, SetV):
            self.mutate(cur, '+=')
            self.jlist(cur)
            for d, v, _x in self.iterate(rhs):
                if d and cur.unk is None:
                    cur.items.append(v)
                else:
                    cur.unk = self.join_opt(cur.unk, v)
            return cur
        if isinstance(cur, DictV) and op == '|':
            self.mutate(cur, '|=')
            self.dict_update(cur, rhs)
            return cur
        if isinstance(cur, Arr):
            self.arr_inplace(cur, lambda c: self.binop(opname, c, rhs),
                             f'{op}=', op, rhs)
            return cur
        return self.binop(opname, cur, rhs)

    def arr_inplace(self, cur, fn, what, op=None, rhs=None):
        res = fn(cur)
        self.mutate(cur, what)
        self.jarr(cur)
        R = self.arr_of(res)
        if R.dt in 'fc?' and cur.dt in 'bif' and R.dt in 'bifc' and \
                promote(R.dt, cur.dt) != cur.dt and not (
                    cur.dt == 'b'):
            self.event('dtype', f'in-place {what} of {R.dt} into {cur.dt} '
                       'array', (cur.dt, R.dt))
            if not (cur.dt == 'i' and R.dt == 'i'):
                self.throw('TypeError', f'cannot cast ufunc output from '
                           f'{R.dt} to {cur.dt}')
        if cur.a is None:
            cur.cell[0] = self.cast(self.summ(R), cur.dt)
            return
        if R.a is None or np.broadcast_shapes(R.a.shape, cur.a.shape) != \
                cur.a.shape:
            if R.a is not None and not R.masked and not cur.masked:
                self.throw('ValueError', 'non-broadcastable output operand')
            s = self.cast(self.summ(R), cur.dt)
            for i in np.ndindex(*cur.a.shape):
                cur.a[i] = s
            return
        src = np.broadcast_to(R.a, cur.a.shape)
        for i in np.ndindex(*cur.a.shape):
            cur.a[i] = self.cast(src[i], cur.dt)

    def cmp(self, op, a, b):
        if isinstance(a, Alt) or isinstance(b, Alt):
            return self.alt_map(lambda p, q: self.cmp(op, p, q), a, b)
        if isinstance(a, (S, bool, int, float, complex, str, type(None),
                          bytes, type(Ellipsis))) and \
                isinstance(b, (S, bool, int, float, complex, str, type(None),
                               bytes, type(Ellipsis))):
            return self.scmp(op, a, b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            other = b if isinstance(a, Arr) else a
            if isinstance(other, (Arr, S, bool, int, float, complex, ListV,
                                  TupleV, RangeV, str)):
                A, B = self.arr_of(a), self.arr_of(b)
                r = self.emap(lambda p, q: self.scmp(op, p, q), [A, B], 'b')
                return self.maybe_scalar(r)
            if other is None:
                if op == 'Eq':
                    return False
                if op == 'NotEq':
                    return True
        neg = op == 'NotEq'
        if op in ('Eq', 'NotEq'):
            if isinstance(a, DtypeV) or isinstance(b, DtypeV):
                r = self.dtype_eq(a, b)
                if r is None:
                    return self.mk('b')
                return r != neg
            if isinstance(a, (ListV, TupleV)) and \
                    isinstance(b, (ListV, TupleV)):
                if isinstance(a, ListV) != isinstance(b, ListV):
                    return neg
                if a.unk is None and b.unk is None:
                    if len(a.items) != len(b.items):
                        return neg
                    if isinstance(a, SetV):
                        e, x = self.deps(a)
                        ka = [self.ckey(i) for i in a.items]
                        kb = [self.ckey(i) for i in b.items]
                        if NOC not in ka and NOC not in kb:
                            return (set(ka) == set(kb)) != neg
                        return self.mk('b', e=e, x=x)
                    unk = False
                    e = x = E0
                    for p, q in zip(a.items, b.items):
                        r = self.cmp('Eq', p, q)
                        if isinstance(r, Arr):
                            unk = True
                            continue
                        c, e1, x1 = self.truth(r)
                        e, x = e | e1, x | x1
                        if c is False:
                            return neg
                        if c is None:
                            unk = True
                    if not unk:
                        return not neg
                    return self.mk('b', e=e, x=x)
            if isinstance(a, Ext) and isinstance(b, Ext):
                return (a.path == b.path) != neg
            r = self.is_(a, b)
            if r is True:
                return not neg
            heap = (ClassV, FuncV, ModV, Ext, DictV, ListV, TupleV, Native)
            sc = (bool, int, float, complex, str, type(None))
            if isinstance(a, heap) and isinstance(b, sc) or \
                    isinstance(b, heap) and isinstance(a, sc):
                return neg
            if isinstance(a, (ClassV, FuncV, Ext)) and \
                    isinstance(b, (ClassV, FuncV, Ext)):
                return neg
        e, x = self.deps(a)
        e2, x2 = self.deps(b)
        return self.mk('b', e=e | e2, x=x | x2)

    def dtype_eq(self, a, b):
        def ch(v):
            if isinstance(v, DtypeV):
                return v.dt
            return self.dtype_of(v)
        p, q = ch(a), ch(b)
        if p in (None, '?') or q in (None, '?'):
            return None
        return p == q

    def dtype_of(self, v):
        """dtype char of a dtype-like value, None if not one."""
        if v is None:
            return None
        if isinstance(v, DtypeV):
            return v.dt
        if isinstance(v, Ext):
            n = v.path.split('.')[-1]
            return {'float': 'f', 'float64': 'f', 'double': 'f',
                    'float32': 'f', 'floating': 'f', 'int': 'i',
                    'int64': 'i', 'int32': 'i', 'integer': 'i', 'intp': 'i',
                    'complex': 'c', 'complex128': 'c', 'cdouble': 'c',
                    'complex64': 'c', 'bool': 'b', 'bool_': 'b',
                    'object': 'o', 'object_': 'o', 'str': 's',
                    'str_': 's', 'longdouble': 'f'}.get(n, '?')
        if isinstance(v, str):
            if v.startswith(('f', '<f', 'd')):
                return 'f'
            if v.startswith(('c', '<c')):
                return 'c'
            if v.startswith(('i', '<i', 'u')):
                return 'i'
            if v.startswith(('b', '?')):
                return 'b'
            if v.startswith(('o', 'O')):
                return 'o'
            return '?'
        if isinstance(v, Alt):
            r = {self.dtype_of(o) for o in v.opts}
            return r.pop() if len(r) == 1 else '?'
        return '?'

    def unop(self, name, v):
        if isinstance(v, Alt):
            return self.alt_map(lambda p: self.unop(name, p), v)
        if is_scalar(v):
            if isinstance(v, bool) and name in ('neg', 'pos'):
                v = int(v)
            return self.sun(name, v)
        if isinstance(v, (Arr, ListV, TupleV, RangeV)):
            A = self.arr_of(v)
            r = self.emap(lambda p: self.sun(name, p), [A])
            if A.a is not None and A.a.size == 0:
                r.dt = A.dt
            return self.maybe_scalar(r)
        if v is None or isinstance(v, str):
            self.throw('TypeError', f'{name} of {v!r}')
        e, x = self.deps(v)
        return self.mk('?', e=e, x=x)

    # --------------------------------------------------------------- getitem
    def getitem(self, o, i):
        if isinstance(o, Alt):
            return self.alt_map(lambda p: self.getitem(p, i), o)
        if isinstance(i, Alt) and not isinstance(o, S):
            return self.alt_map(lambda q: self.getitem(o, q), i)
        if isinstance(o, DictV):
            k = self.ckey(i)
            if k is NOC:
                out = o.open
                for v in o.items.values():
                    out = self.join_opt(out, v)
                if out is None:
                    self.throw('KeyError', 'empty dict')
                e, x = self.deps(i)
                if isinstance(out, Alt):
                    keep = [p for p in out.opts if p is not ABSENT]
                    out = self.mkalt(keep, out.x)
                return self.addx(out, x, e)
            if k in o.items:
                v = o.items[k]
                if isinstance(v, Alt) and ABSENT in v.opts:
                    self.event('maybe-keyerror', repr(k))
                    keep = [p for p in v.opts if p is not ABSENT]
                    return self.mkalt(keep, v.x)
                return v
            if o.open is not None:
                return o.open
            self.throw('KeyError', repr(k))
        if isinstance(o, (ListV, TupleV)):
            return self.seq_get(o, i)
        if isinstance(o, Arr):
            return self.arr_get(o, i)
        if isinstance(o, str):
            return self.str_get(o, i)
        if isinstance(o, RangeV):
            c = self.cint(i)
            cs = [self.cint(q) for q in (o.lo, o.hi, o.st)]
            if c is not None and None not in cs:
                try:
                    return range(*cs)[c]
                except IndexError:
                    self.throw('IndexError', 'range')
            e, x = self.deps(o)
            return self.mk('i', e=e, x=x)
        if isinstance(o, S):
            if o.dt in 'bifc' and o.c is NOC:
                # numpy scalar indexed with None/() etc
                if i is None or isinstance(i, TupleV) and \
                        all(q is None for q in i.items):
                    return self.arr_get(Arr(oarr(o), o.dt), i)
                if isinstance(i, Arr) and i.dt == 'b':
                    return self.arr_get(Arr(oarr(o), o.dt), i)
            if isinstance(o.c, str):
                return self.addx(self.str_get(o.c, i), o.x, o.e)
            e, x = self.deps(i)
            if o.dt == 's':
                return self.mk('s', e=o.e | e, x=o.x | x, p='{}')
            return self.mk('?', e=o.e | e, x=o.x | x)
        if isinstance(o, Ext):
            fn = self.intrinsics.get(o.path + '[]')
            if fn is not None:
                return fn(self, [i], {})
            e, x = self.deps(i)
            return self.mk('?', e=e, x=x)
        if isinstance(o, InstV):
            m = self.find_attr(o, '__getitem__')
            if m is not None:
                return self.call(m, [i], {})
        if o is None or isinstance(o, (bool, int, float, complex)):
            self.throw('TypeError', f'{o!r} is not subscriptable')
        e, x = self.deps(o)
        e2, x2 = self.deps(i)
        return self.mk('?', e=e | e2, x=x | x2)

    def str_get(self, o, i):
        if isinstance(i, SliceV):
            c = self.cslice(i)
            if c is not None:
                return o[c]
            return self.mk('s', p='{}')
        c = self.cint(i)
        if c is not None:
            try:
                return o[c]
            except IndexError:
                self.throw('IndexError', 'string')
        e, x = self.deps(i)
        return self.mk('s', e=e, x=x, p='{}')

    def cslice(self, s):
        out = []
        for v in (s.lo, s.hi, s.st):
            if v is None:
                out.append(None)
                continue
            c = self.cint(v)
            if c is None:
                if isinstance(v, S) and v.c is None:
                    out.append(None)
                    continue
                return None
            out.append(c)
        return slice(*out)

    def seq_get(self, o, i):
        t = type(o)
        if isinstance(i, SliceV):
            c = self.cslice(i)
            if c is not None and o.unk is None:
                it = list(o.items)[c]
                return TupleV(it) if t is TupleV else ListV(
                    it, own=self.own_label())
            u = o.unk
            for v in o.items:
                u = self.join_opt(u, v)
            if u is None:
                return TupleV() if t is TupleV else ListV()
            return TupleV((), u) if t is TupleV else ListV((), u)
        if isinstance(i, Arr):
            # list indexed by 0-d integer array
            if i.a is not None and i.a.ndim == 0:
                i = i.a[()]
        c = self.cint(i)
        n = len(o.items)
        if c is not None:
            if o.unk is None:
                if -n <= c < n:
                    return o.items[c]
                self.event('oob', f'index {c} of sequence of length {n}')
                self.throw('IndexError', f'{c} of {n}')
            if 0 <= c < n:
                return o.items[c]
        if c is None and isinstance(i, (float, str, TupleV)) or \
                isinstance(i, S) and i.dt == 'f':
            self.throw('TypeError', 'sequence indices must be integers')
        out = o.unk
        for v in o.items:
            out = self.join_opt(out, v)
        if out is None:
            self.throw('IndexError', 'empty sequence')
        e, x = self.deps(i)
        return self.addx(out, x, e) if c is None else out

    # ---- arrays
    def norm_index(self, arr, i):
        """List of index items: slice | int | None | Ellipsis |
        ('mask', Arr) | ('fancy', Arr) | ('unk', scalar)."""
        its = list(i.items) if isinstance(i, TupleV) else [i]
        out = []
        for q in its:
            if isinstance(q, ListV):
                q = self.arr_of(q)
            if isinstance(q, Alt):
                q = self.lift_alt(q)
            if isinstance(q, SliceV):
                c = self.cslice(q)
                out.append(c if c is not None else ('uslice', q))
            elif q is None or (isinstance(q, S) and q.c is None and
                               q.dt == 'o'):
                out.append(None)
            elif q is Ellipsis:
                out.append(Ellipsis)
            elif isinstance(q, bool) or isinstance(q, S) and q.dt == 'b':
                out.append(('bool', q))
            elif isinstance(q, Arr):
                if q.a is not None and q.a.ndim == 0 and q.dt == 'i':
                    c = self.cint(q.a[()])
                    out.append(c if c is not None else
                               ('unk', self.lift(q.a[()])))
                elif q.dt == 'b':
                    out.append(('mask', q))
                else:
                    out.append(('fancy', q))
            else:
                c = self.cint(q)
                if c is not None:
                    out.append(c)
                elif isinstance(q, (float, str)):
                    self.throw('IndexError', f'invalid index {q!r}')
                else:
                    out.append(('unk', self.lift(q)))
        return out

    def expand_ellipsis(self, its, nd):
        n = 0
        for q in its:
            if q is None or q is Ellipsis:
                continue
            if isinstance(q, tuple) and q[0] == 'mask' and \
                    q[1].a is not None:
                n += q[1].a.ndim
            elif isinstance(q, tuple) and q[0] == 'bool':
                continue
            else:
                n += 1
        if Ellipsis in [q for q in its if q is Ellipsis]:
            k = [j for j, q in enumerate(its) if q is Ellipsis][0]
            its = its[:k] + [slice(None)]*(nd-n) + [
                q for q in its[k+1:] if q is not Ellipsis]
        else:
            its = its + [slice(None)]*(nd-n)
        if n > nd:
            self.event('oob', f'too many indices for {nd}-d array')
            self.throw('IndexError', 'too many indices')
        return its

    def arr_get(self, o, i):
        its = self.norm_index(o, i)
        if o.a is None:
            return self.smashed_get(o, its)
        nd = o.a.ndim
        its = self.expand_ellipsis(its, nd)
        simple = all(not isinstance(q, tuple) for q in its)
        if simple:
            self.check_bounds(o, its)
            v = o.a[tuple(its)]
            if not isinstance(v, np.ndarray):
                return v if not (isinstance(v, np.generic)) else v.item()
            if all(isinstance(q, (int, np.integer)) for q in its):
                return v[()] if v.ndim == 0 else v
            masked = self.masked_after(o, its)
            return Arr(v, o.dt, o.roots, masked=masked, cls=o.cls)
        return self.adv_get(o, its)

    def masked_after(self, o, its):
        if not o.masked:
            return E0
        out = set()
        ax = 0
        od = 0
        for q in its:
            if q is None:
                od += 1
                continue
            if isinstance(q, slice):
                if ax in o.masked:
                    out.add(od)
                od += 1
            ax += 1
        return frozenset(out)

    def check_bounds(self, o, its):
        ax = 0
        for q in its:
            if q is None:
                continue
            if isinstance(q, (int, np.integer)):
                n = o.a.shape[ax]
                if not -n <= q < n:
                    self.event('oob', f'index {q} out of bounds for axis '
                               f'{ax} with size {n}', (q, n))
                    self.throw('IndexError', f'{q} of {n}')
                if q < 0:
                    self.event('negindex', f'index {q} axis {ax}', (q, n))
            ax += 1

    def adv_get(self, o, its):
        """Advanced / partly unknown indexing."""
        e = x = E0
        conv = []
        masked = set()
        smash = False
        ax = 0
        for q in its:
            if isinstance(q, tuple):
                k, v = q
                if k == 'mask':
                    cells = v.cells()
                    cs = [self.cval(c) for c in cells]
                    if v.a is not None and not v.masked and \
                            all(isinstance(c, bool) for c in cs):
                        m = np.array(cs, dtype=bool).reshape(v.a.shape)
                        if m.shape != o.a.shape[ax:ax+m.ndim]:
                            self.event('oob', f'boolean index shape {m.shape}'
                                       f' for {o.a.shape}')
                            self.throw('IndexError', 'boolean index shape')
                        conv.append(m)
                        ax += m.ndim
                        continue
                    s = self.summ(v)
                    x = x | s.e | s.x
                    if v.a is None:
                        smash = True
                        ax += 1
                        conv.append(slice(None))
                        continue
                    if v.a.shape != o.a.shape[ax:ax+v.a.ndim] and \
                            not v.masked:
                        self.throw('IndexError', 'boolean index shape')
                    if v.a.ndim > 1:
                        smash = True
                        ax += v.a.ndim
                        conv += [slice(None)]*v.a.ndim
                        continue
                    conv.append(('m', ax))
                    ax += 1
                    continue
                if k == 'fancy':
                    if v.a is not None and all(
                            self.cint(c) is not None for c in v.cells()):
                        f = np.array([self.cint(c) for c in v.cells()],
                                     dtype=int).reshape(v.a.shape)
                        n = o.a.shape[ax]
                        bad = [int(b) for b in f.flat if not -n <= b < n]
                        if bad and not v.masked:
                            self.event('oob', f'index {bad[0]} out of bounds '
                                       f'for axis {ax} with size {n}')
                            self.throw('IndexError', f'{bad[0]} of {n}')
                        if bad:
                            smash = True
                            conv.append(slice(None))
                        else:
                            conv.append(f)
                            if v.masked:
                                masked.add(('f', len(conv)-1))
                        ax += 1
                        continue
                    s = self.summ(v)
                    e, x = e | s.e, x | s.x
                    smash = True
                    ax += 1
                    conv.append(slice(None))
                    continue
                if k == 'unk':
                    # unknown integer: join along the axis
                    e, x = e | v.e, x | v.x
                    conv.append(('u', ax))
                    ax += 1
                    continue
                if k == 'uslice':
                    for p in (v.lo, v.hi, v.st):
                        if p is not None:
                            a_, b_ = self.deps(p)
                            e, x = e | a_, x | b_
                    smash = True
                    conv.append(slice(None))
                    ax += 1
                    continue
                if k == 'bool':
                    smash = True
                    a_, b_ = self.deps(v)
                    x = x | a_ | b_
                    continue
            conv.append(q)
            if q is not None:
                ax += 1
        if smash:
            plain = tuple(q if isinstance(q, int) else slice(None)
                          for q in conv if q is not None)
            sub = o.a[plain]
            A = Arr(sub if isinstance(sub, np.ndarray) else oarr(sub), o.dt)
            if A.a.size == 0:
                s = self.mk(o.dt)
            else:
                s = self.summ(A)
            s = self.addx(s, x, e)
            nd = None
            if not any(isinstance(q, np.ndarray) and q.ndim != 1
                       for q in conv):
                nd = len([q for q in conv if not isinstance(q, int) and
                          not (isinstance(q, tuple) and q[0] == 'u')])
            return Arr(None, o.dt, E0, cell=[s],
                       shp=None if nd is None else (None,)*nd, cls=o.cls)
        unk_axes = [j for j, q in enumerate(conv)
                    if isinstance(q, tuple) and q[0] == 'u']
        if unk_axes:
            # enumerate candidates on unknown integer axes and join
            j = unk_axes[0]
            n = o.a.shape[conv[j][1]]
            if n == 0:
                self.throw('IndexError', 'empty axis')
            out = None
            for c in range(n):
                it2 = [q if not (isinstance(q, tuple) and q[0] == 'u')
                       else ('unk', self.mk('i')) for q in conv]
                it2 = [('mask', self.maskof(o, q[1])) if isinstance(q, tuple)
                       and q[0] == 'm' else q for q in it2]
                it2 = [('fancy', Arr(self.to_o(q), 'i')) if isinstance(
                    q, np.ndarray) and q.dtype != bool else q for q in it2]
                it2 = [('mask', Arr(self.to_o(q), 'b')) if isinstance(
                    q, np.ndarray) else q for q in it2]
                it2[j] = c
                simple = all(not isinstance(q, tuple) for q in it2)
                if simple:
                    v = o.a[tuple(it2)]
                    if isinstance(v, np.ndarray):
                        v = Arr(v, o.dt, o.roots, cls=o.cls)
                else:
                    v = self.adv_get(o, it2)
                out = v if out is None else self.join(out, v)
            if isinstance(out, Arr):
                if e or x:
                    out = self.arr_addx(out, x, e)
                return out
            return self.addx(out, x, e)
        # masks with unknown content: keep length, flag as masked
        nfan = sum(isinstance(q, np.ndarray) for q in conv)
        it2 = []
        od = 0
        for q in conv:
            if isinstance(q, tuple) and q[0] == 'm':
                masked.add(od)
                it2.append(slice(None))
                od += 1
            else:
                it2.append(q)
                if isinstance(q, np.ndarray):
                    od += 1
                elif not isinstance(q, int):
                    od += 1
        try:
            v = o.a[tuple(it2)]
        except IndexError as ex:
            self.event('oob', str(ex))
            self.throw('IndexError', str(ex))
        if not isinstance(v, np.ndarray):
            return self.addx(v, x, e)
        mm = set()
        for m in masked:
            if isinstance(m, tuple):
                if nfan == 1:
                    mm.add(min(m[1], max(v.ndim-1, 0)))
            else:
                mm.add(m)
        if o.masked and not nfan:
            mm |= self.masked_after(o, it2)
        v = np.array(v, dtype=object, copy=True)
        r = Arr(v, o.dt, E0, masked=frozenset(mm), cls=o.cls)
        if x and self.track_x:
            r = self.arr_addx(r, x, E0)
        return r

    def maskof(self, o, ax):
        n = o.a.shape[ax]
        return Arr(oarr([self.mk('b') for _ in range(n)], (n,)), 'b')

    def to_o(self, a):
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            out[i] = a[i].item()
        return out

    def arr_addx(self, a, x, e=E0):
        if not x and not e:
            return a
        if a.a is None:
            return Arr(None, a.dt, a.roots, cell=[self.addx(a.cell[0], x, e)],
                       shp=a.shp, cls=a.cls)
        out = np.empty(a.a.shape, dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = self.addx(a.a[i], x, e)
        return Arr(out, a.dt, a.roots, masked=a.masked, cls=a.cls)

    def smashed_get(self, o, its):
        s = o.cell[0]
        x = e = E0
        newaxes = 0
        sh = list(o.shp) if o.shp is not None else None
        out = []
        ax = 0
        view = True
        scalar_axes = 0
        if sh is not None and any(q is Ellipsis for q in its):
            its = self.expand_ellipsis(its, len(sh))
        for q in its:
            if q is None:
                out.append(1)
                newaxes += 1
                continue
            if q is Ellipsis:
                sh = None
                continue
            d = sh[ax] if sh is not None and ax < len(sh) else None
            ax += 1
            if isinstance(q, slice):
                if isinstance(d, int):
                    out.append(len(range(*q.indices(d))))
                else:
                    out.append(d if q == slice(None) or (
                        q.start is None and q.stop is None) else None)
                continue
            if isinstance(q, tuple):
                k, v = q
                if k == 'unk':
                    e, x = e | v.e, x | v.x
                    scalar_axes += 1
                    continue
                if k == 'uslice':
                    out.append(None)
                    continue
                view = False
                if k in ('mask', 'fancy'):
                    t = self.summ(v)
                    x = x | t.e | t.x
                    if k == 'mask':
                        nd = len(self.shape(v)) if self.shape(v) else 1
                        ax += nd-1
                        out.append(None)
                    else:
                        vs = self.shape(v)
                        out += list(vs) if vs is not None else [None]
                continue
            scalar_axes += 1
            if isinstance(d, int) and not -d <= q < d:
                self.event('oob', f'index {q} out of bounds, size {d}')
                self.throw('IndexError', f'{q}')
        if sh is None:
            rs = None
            full_scalar = False
            if o.shp is None and its and all(
                    not isinstance(q, slice) and q is not None and
                    q is not Ellipsis and not (isinstance(q, tuple) and
                                               q[0] != 'unk')
                    for q in its):
                # unknown rank: element or subarray: treat as array-or-scalar
                full_scalar = False
                rs = None
        else:
            rs = out + sh[ax:]
            full_scalar = len(rs) == 0
        if full_scalar:
            return self.addx(s, x, e)
        if view and not x and not e:
            return Arr(None, o.dt, o.roots, cell=o.cell,
                       shp=None if rs is None else tuple(rs), cls=o.cls)
        return Arr(None, o.dt, o.roots if view else E0,
                   cell=[self.addx(s, x, e)],
                   shp=None if rs is None else tuple(rs), cls=o.cls)

    # --------------------------------------------------------------- setitem
    def setitem(self, o, i, v, aug=False):
        if isinstance(o, Alt):
            for p in o.opts:
                if p is None or p is ABSENT or p is UNBOUND:
                    continue
                self.setitem(p, i, v, aug)
            return
        if isinstance(o, DictV):
            self.mutate(o, f'[{self.ckey(i)!r}] =')
            self.dict_put(o, i, v)
            self.escape(o, v)
            return
        if isinstance(o, ListV):
            if aug and isinstance(v, (Arr, ListV, DictV)) and \
                    any(v is q for q in o.items):
                return
            self.mutate(o, '[..] =')
            self.jlist(o)
            self.escape(o, v)
            if isinstance(i, SliceV):
                c = self.cslice(i)
                if c is not None and isinstance(v, (ListV, TupleV)) and \
                        v.unk is None and o.unk is None:
                    it = list(o.items)
                    it[c] = list(v.items)
                    o.items = it
                else:
                    for _, q, _x in self.iterate(v):
                        o.unk = self.join_opt(o.unk, q)
                return
            c = self.cint(i)
            n = len(o.items)
            if c is not None:
                if -n <= c < n:
                    o.items[c] = v
                    return
                if o.unk is None:
                    self.event('oob', f'list index {c} of {n}')
                    self.throw('IndexError', f'{c} of {n}')
                o.unk = self.join(o.unk, v)
                return
            e, x = self.deps(i)
            o.items = [self.join(q, v, x) for q in o.items]
            if o.unk is not None:
                o.unk = self.join(o.unk, v)
            return
        if isinstance(o, Arr):
            self.arr_set(o, i, v, aug)
            return
        if isinstance(o, TupleV):
            if aug and any(v is q for q in o.items):
                return
            self.throw('TypeError', 'tuple does not support item assignment')
        if isinstance(o, InstV):
            m = self.find_attr(o, '__setitem__')
            if m is not None:
                self.call(m, [i, v], {})
                return
        if isinstance(o, Ext):
            self.event('ext-write', f'{o.path}[...]', v)
            return
        if is_raw(o):
            self.throw('TypeError', f'{o!r} does not support assignment')
        self.event('setitem-unknown', '')

    def arr_set(self, o, i, v, aug=False):
        its = self.norm_index(o, i)
        if isinstance(v, Alt):
            v = self.lift_alt(v) if not any(
                isinstance(q, Arr) for q in v.opts) else self.arr_of(v)
        if not aug:
            self.mutate(o, '[..] =')
        else:
            self.mutate(o, '[..] op=')
        V = self.arr_of(v)
        if o.dt in 'bif' and V.dt == 'c':
            self.event('dtype', f'complex stored into {o.dt} array',
                       (o.dt, V.dt))
            if V.a is not None and V.a.ndim == 0 or aug:
                self.throw('TypeError', 'complex into real')
        self.jarr(o)
        if o.a is None:
            s = self.cast(self.summ(V) if V.a is None or V.a.size
                          else o.cell[0], o.dt)
            full_ = all(q == slice(None) or q is Ellipsis for q in its
                        if not isinstance(q, tuple)) and \
                all(not isinstance(q, tuple) for q in its)
            if full_:
                o.cell[0] = s
            else:
                o.cell[0] = self.join(o.cell[0], s)
            return
        its = self.expand_ellipsis(its, o.a.ndim)
        simple = all(not isinstance(q, tuple) for q in its)
        if simple:
            self.check_bounds(o, its)
            tgt = o.a[tuple(its)]
            if not isinstance(tgt, np.ndarray):
                if V.a is not None and V.a.size == 1:
                    val = V.a.flat[0]
                else:
                    if V.a is not None and not V.masked:
                        self.throw('ValueError', 'setting an array element '
                                   'with a sequence')
                    val = self.summ(V)
                o.a[tuple(its)] = self.cast(val, o.dt)
                return
            if V.a is None or V.masked:
                s = self.cast(self.summ(V), o.dt)
                for k in np.ndindex(*tgt.shape):
                    tgt[k] = s
                return
            try:
                src = np.broadcast_to(V.a, tgt.shape)
            except ValueError:
                # numpy allows leading 1-axes in the source
                vv = V.a
                while vv.ndim > tgt.ndim and vv.shape[0] == 1:
                    vv = vv[0]
                try:
                    src = np.broadcast_to(vv, tgt.shape)
                except ValueError:
                    self.event('shape', f'set {V.a.shape} into {tgt.shape}')
                    self.throw('ValueError', 'could not broadcast input array'
                               f' from shape {V.a.shape} into {tgt.shape}')
            src = src.copy()
            for k in np.ndindex(*tgt.shape):
                tgt[k] = self.cast(src[k], o.dt)
            return
        # index grid for constant parts; unknown parts are weak
        weak = False
        e = x = E0
        conv = []
        maskcells = {}
        ax = 0
        for q in its:
            if isinstance(q, tuple):
                k, w = q
                if k == 'mask':
                    cs = [self.cval(c) for c in w.cells()]
                    if w.a is not None and not w.masked and \
                            all(isinstance(c, bool) for c in cs):
                        m = np.array(cs, dtype=bool).reshape(w.a.shape)
                        if m.shape != o.a.shape[ax:ax+m.ndim]:
                            self.throw('IndexError', 'boolean index shape')
                        conv.append(m)
                        ax += m.ndim
                        continue
                    nd = w.a.ndim if w.a is not None else 1
                    if w.a is not None:
                        if w.a.shape != o.a.shape[ax:ax+nd] and \
                                not w.masked:
                            self.throw('IndexError', 'boolean index shape')
                        if w.a.shape == o.a.shape[ax:ax+nd]:
                            maskcells[ax] = w
                    t = self.summ(w)
                    if w.a is None or w.a.shape != o.a.shape[ax:ax+nd]:
                        x = x | t.e | t.x
                    conv += [slice(None)]*nd
                    weak = True
                    ax += nd
                    continue
                if k == 'fancy':
                    if w.a is not None and all(
                            self.cint(c) is not None for c in w.cells()):
                        f = np.array([self.cint(c) for c in w.cells()],
                                     dtype=int).reshape(w.a.shape)
                        n = o.a.shape[ax]
                        if any(not -n <= b < n for b in f.flat):
                            if not w.masked:
                                self.event('oob', 'index out of bounds '
                                           f'axis {ax} size {n}')
                                self.throw('IndexError', 'fancy')
                            f = f[(f < n) & (f >= -n)]
                        conv.append(f)
                        if w.masked:
                            weak = True
                        ax += 1
                        continue
                    t = self.summ(w)
                    e, x = e | t.e, x | t.x
                    conv.append(slice(None))
                    weak = True
                    ax += 1
                    continue
                if k == 'unk':
                    e, x = e | w.e, x | w.x
                    conv.append(slice(None))
                    weak = True
                    ax += 1
                    continue
                if k == 'uslice':
                    conv.append(slice(None))
                    weak = True
                    ax += 1
                    continue
                if k == 'bool':
                    weak = True
                    continue
            conv.append(q)
            if q is not None:
                ax += 1
        conv = [q for q in conv if q is not None]
        idx = np.empty(o.a.shape, dtype=object)
        for k in np.ndindex(*o.a.shape):
            idx[k] = k
        try:
            sel = idx[tuple(conv)]
        except IndexError as ex:
            self.event('oob', str(ex))
            self.throw('IndexError', str(ex))
        if not isinstance(sel, np.ndarray):
            t = np.empty((), dtype=object)
            t[()] = sel
            sel = t
        aligned = None
        if V.a is not None:
            try:
                aligned = np.broadcast_to(V.a, sel.shape)
            except ValueError:
                if not weak and not V.masked:
                    self.event('shape', f'set {V.a.shape} into {sel.shape}')
                    self.throw('ValueError', 'shape mismatch in assignment')
                aligned = None
        s = None
        for k in np.ndindex(*sel.shape):
            tk = sel[k]
            if aligned is not None:
                nv = aligned[k]
            else:
                if s is None:
                    s = self.summ(V)
                nv = s
            nv = self.cast(nv, o.dt)
            if weak:
                old = o.a[tk]
                mx = x
                strong = False
                if maskcells:
                    for mx_ax, w in maskcells.items():
                        mc = w.a[tk[mx_ax:mx_ax+w.a.ndim]]
                        cv = self.cval(mc)
                        if cv is False:
                            strong = None
                            break
                        if cv is not True:
                            m_ = self.lift(mc)
                            mx = mx | m_.e | m_.x
                    if strong is None:
                        continue
                nv = self.join(old, nv)
                nv = self.addx(nv, mx if self.track_x else E0, e)
            o.a[tk] = nv

    def delitem(self, o, i):
        if isinstance(o, DictV):
            self.mutate(o, 'del []')
            k = self.ckey(i)
            if k is not NOC and k in o.items:
                self.jdel(o.items, k)
            elif k is not NOC and o.open is None:
                self.throw('KeyError', repr(k))
            return
        if isinstance(o, ListV):
            self.mutate(o, 'del []')
            c = self.cint(i)
            if c is not None and o.unk is None and \
                    -len(o.items) <= c < len(o.items):
                self.jlist(o)
                it = list(o.items)
                del it[c]
                o.items = it
            return
        self.event('unsupported', 'del item')

    # ------------------------------------------------------------ isinstance
    def isinstance_(self, o, ty):
        if isinstance(ty, (TupleV, ListV)):
            rs = [self.isinstance_(o, t) for t in ty.items]
            if True in rs:
                return True
            return None if None in rs else False
        if isinstance(o, Alt):
            rs = {self.isinstance_(p, ty) for p in o.opts
                  if p is not ABSENT and p is not UNBOUND}
            return rs.pop() if len(rs) == 1 else None
        if isinstance(ty, ClassV):
            if isinstance(o, InstV):
                if isinstance(o.cls, ClassV):
                    return ty in o.cls.mro()
                return None if o.open is not None else False
            if isinstance(o, Arr):
                if o.cls is not None:
                    return ty in o.cls.mro()
                return False
            if isinstance(o, ExcV):
                return isinstance(o.cls, ClassV) and ty in o.cls.mro()
            if isinstance(o, S) and o.c is NOC and o.dt in '?o':
                return None
            return False
        if not isinstance(ty, Ext):
            return None
        n = ty.path
        short = n.split('.')[-1]
        if isinstance(o, S):
            if o.c is not NOC and not isinstance(o.c, str) and \
                    o.dt not in 'bifc':
                o = o.c
            elif o.dt == '?' or o.dt == 'o':
                return None
            elif o.dt == 's':
                return short in ('str', 'object')
            else:
                # python or numpy scalar of known kind
                if short in ('str', 'dict', 'list', 'tuple', 'set', 'bytes',
                             'ndarray', 'DigitalFilter', 'Callable'):
                    return False
                kinds = {'bool': 'b', 'bool_': 'b', 'int': 'bi',
                         'integer': 'i', 'float': 'f', 'floating': 'f',
                         'complex': 'c', 'complexfloating': 'c',
                         'float64': 'f', 'complex128': 'c', 'int64': 'i',
                         'number': 'ifc', 'generic': 'bifc',
                         'Number': 'bifc', 'Real': 'bif',
                         'Integral': 'bi'}
                if o.p == 'np32' and short in ('float', 'complex', 'float64',
                                               'complex128'):
                    return False
                if o.p in ('np', 'np32', 'py') and short in kinds:
                    np_ = n.startswith('numpy.') and short != 'bool'
                    if n.startswith('numbers.') or short in (
                            'float', 'complex') and o.p == 'np':
                        return o.dt in kinds[short]
                    return (o.p != 'py') == np_ and o.dt in kinds[short]
                if short in kinds:
                    return None if o.dt in kinds[short] else False
                return None
        if is_raw(o):
            t = getattr(builtins, short, None)
            if n.startswith('builtins.') and isinstance(t, type):
                return isinstance(o, t)
            if short in ('ndarray', 'integer', 'floating', 'bool_',
                         'generic', 'complexfloating'):
                return False
            if short in ('Number',):
                return isinstance(o, (int, float, complex))
            if short in ('Real',):
                return isinstance(o, (int, float))
            if short in ('Integral',):
                return isinstance(o, int)
            if short in ('Mapping', 'MutableMapping', 'Callable'):
                return False
            if short in ('Iterable', 'Sequence'):
                return isinstance(o, str)
            return None
        if isinstance(o, Arr):
            if short == 'ndarray':
                return True
            if n.startswith('builtins.'):
                return short == 'object'
            if short in ('Iterable', 'Sized'):
                return True
            return False if short in (
                'Sequence', 'Mapping', 'integer', 'floating', 'bool_',
                'number', 'complexfloating') else None
        table = ((DictV, ('dict', 'Mapping', 'MutableMapping', 'Iterable')),
                 (SetV, ('set', 'Iterable', 'Set')),
                 (ListV, ('list', 'Iterable', 'Sequence')),
                 (TupleV, ('tuple', 'Iterable', 'Sequence')),
                 (RangeV, ('range', 'Iterable', 'Sequence')))
        for cl, nm in table:
            if isinstance(o, cl):
                return short in nm or short == 'object'
        if isinstance(o, (FuncV, Bound, Native)):
            return short in ('FunctionType', 'Callable', 'object')
        if isinstance(o, InstV):
            if o.cls == ty:
                return True
            if n.startswith('builtins.') and short != 'object' and \
                    isinstance(o.cls, ClassV):
                return any(c == ty for c in o.cls.mro())
            if short == 'ndarray' and isinstance(o.cls, ClassV):
                return any(isinstance(c, Ext) and c.path == n
                           for c in o.cls.mro())
            if isinstance(o.cls, ClassV):
                return any(c == ty for c in o.cls.mro())
            return None
        if isinstance(o, ExcV):
            return self.exc_match(o, ty)
        if isinstance(o, ClassV):
            return short == 'type'
        if isinstance(o, (DtypeV, SliceV)):
            return short in ('dtype', 'slice')
        return None
