"""Facet domains carried by every abstract scalar.

A facet value of None means "unknown"; CONFLICT means that two different,
definite facets met where only one can be right (the witness event says
where).
"""
from fractions import Fraction as Fr
import math

from .values import S, NOC, is_raw


class _Tag:
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


POLY = _Tag('any')          # zero / infinity / nan: fits every unit
LIT = _Tag('number')        # bare literal (dimensionless, lenient in joins)
CONFLICT = _Tag('conflict')


def _near(a, b, tol=1e-6):
    return abs(a - b) <= tol*abs(b)


class Base:
    name = 'base'
    eng = None

    def ev(self, kind, msg):
        self.eng.event(f'{self.name}-{kind}', msg)

    def const(self, v):
        return None

    def bin(self, op, a, b, A, B):
        return None

    def cmp(self, op, a, b, A, B):
        return None

    def un(self, name, a, A):
        return None

    def fn(self, name, fs, L):
        return None

    def join(self, a, b, A, B):
        return a if a == b else None


# ------------------------------------------------------------------- units
class U:
    """Immutable unit: exponents by base name; optional log flag."""
    __slots__ = ('d', 'lg', '_h')

    def __init__(self, d, lg=False):
        self.d = tuple(sorted((k, Fr(v)) for k, v in dict(d).items() if v))
        self.lg = lg
        self._h = hash((self.d, lg))

    def __eq__(self, o):
        return isinstance(o, U) and self.d == o.d and self.lg == o.lg

    def __hash__(self):
        return self._h

    def __repr__(self):
        s = '·'.join(k if v == 1 else f'{k}^{v}' for k, v in self.d) or '1'
        return f'log({s})' if self.lg else s

    def mul(self, o, s=1):
        d = dict(self.d)
        for k, v in o.d:
            d[k] = d.get(k, 0) + s*v
        return U(d)

    def pow(self, n):
        return U({k: v*n for k, v in self.d})


ONE = U({})
DIMLESS_IN = {'exp', 'sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'expm1',
              'log1p', 'arcsin', 'arccos', 'arctan', 'arcsinh', 'arccosh',
              'arctanh', 'deg2rad', 'rad2deg', 'radians', 'degrees', 'exp2'}
KEEP = {'neg', 'pos', 'abs', 'real', 'imag', 'conj', 'copy', 'float', 'int',
        'round', 'floor', 'ceil', 'trunc', 'rint', 'fabs'}
BESS = {'j0', 'j1', 'jv', 'jn', 'erfc', 'erf', 'erfcx', 'ive', 'kve', 'iv',
        'kv', 'k0', 'k1', 'i0', 'i1', 'loggamma', 'gamma', 'gammaln', 'yv',
        'i0e', 'i1e', 'k0e', 'k1e', 'exp1', 'wofz'}
FFT = {'fft', 'ifft', 'rfft', 'irfft', 'fftshift', 'ifftshift'}


class Units(Base):
    """Dimensional analysis.  `consts`: list of (value, U)."""
    name = 'unit'

    def __init__(self, consts=(), strict=True):
        self.consts = list(consts)
        self.strict = strict
        self.obl = 0

    def const(self, v):
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return LIT if isinstance(v, bool) else None
        if isinstance(v, (int, float, complex)):
            if v == 0 or v != v or (not isinstance(v, complex) and
                                    math.isinf(v)):
                return POLY
            if not isinstance(v, complex):
                for c, u in self.consts:
                    if _near(v, c):
                        return u
            return LIT
        return None

    @staticmethod
    def asu(a):
        return ONE if a is LIT else a

    def bin(self, op, a, b, A, B):
        if a is CONFLICT or b is CONFLICT:
            return CONFLICT
        if op in '+-':
            if a is None or b is None:
                return None
            self.obl += 1
            if a is POLY:
                return b
            if b is POLY:
                return a
            if a is LIT and b is LIT:
                return LIT
            a, b = self.asu(a), self.asu(b)
            if a.lg or b.lg:
                if a.lg and b.lg:
                    if op == '-' and a == b:
                        return ONE
                    if op == '+':
                        return U(U(a.d).mul(U(b.d)).d, True)
                    return U(U(a.d).mul(U(b.d), -1).d, True)
                return a if a.lg else b     # log(u) + number: scaled u
            if a != b:
                self.ev('mismatch', f'[{a}] {op} [{b}]')
                return CONFLICT
            return a
        if op == '*':
            if a is None or b is None:
                return None
            if a is POLY or b is POLY:
                return POLY
            if a is LIT and b is LIT:
                return LIT
            a, b = self.asu(a), self.asu(b)
            if a.lg or b.lg:
                return None
            return a.mul(b)
        if op in ('/', '//'):
            if a is None or b is None:
                return None
            if a is POLY or b is POLY:
                return POLY
            if a is LIT and b is LIT:
                return LIT
            a, b = self.asu(a), self.asu(b)
            if a.lg or b.lg:
                return None
            return a.mul(b, -1)
        if op == '**':
            n = B.c
            if a is POLY:
                return POLY
            if a is LIT and n is not NOC:
                return LIT
            if isinstance(b, U) and b.lg and A.c == 10:
                return U(b.d)
            if isinstance(n, (int, float)) and not isinstance(n, bool) and \
                    isinstance(a, U) and not a.lg and n == n and \
                    abs(n) < 1e6:
                return a.pow(Fr(n).limit_denominator(64))
            if a is LIT:
                if isinstance(b, U) and b.d and not b.lg:
                    self.ev('mismatch', f'number ** [{b}]')
                    return CONFLICT
                return LIT if b is LIT else (ONE if b == ONE else None)
            if a == ONE:
                return ONE
            return None
        if op == '%':
            return a
        if op in '&|^':
            return LIT
        return None

    def cmp(self, op, a, b, A, B):
        if isinstance(a, U) and isinstance(b, U) and a != b and \
                not a.lg and not b.lg and a is not ONE and b is not ONE and \
                a.d and b.d:
            self.obl += 1
            if self.strict:
                self.ev('mismatch', f'comparison [{a}] {op} [{b}]')
        return LIT

    def need1(self, what, a):
        if a is None or a is POLY or a is LIT or a is CONFLICT:
            return
        self.obl += 1
        if a.d and not a.lg:
            self.ev('mismatch', f'{what}([{a}])')

    def un(self, name, a, A):
        if name in KEEP:
            return a
        if name in ('invert', 'not', 'isfinite', 'isnan', 'isinf', 'sign',
                    'isclose0', 'bool', 'angle', 'isreal'):
            return LIT if a is not None else None
        if a is CONFLICT:
            return CONFLICT
        if name in ('sqrt', 'square', 'cbrt', 'reciprocal'):
            n = {'sqrt': Fr(1, 2), 'square': Fr(2), 'cbrt': Fr(1, 3),
                 'reciprocal': Fr(-1)}[name]
            if a is POLY or a is LIT:
                return a
            return a.pow(n) if isinstance(a, U) and not a.lg else None
        if name in ('log', 'log10', 'log2'):
            if a is LIT:
                return LIT
            if a is POLY:
                return POLY
            return U(a.d, True) if isinstance(a, U) and not a.lg else None
        if name in DIMLESS_IN:
            if name == 'exp' and isinstance(a, U) and a.lg:
                return U(a.d)
            self.need1(name, a)
            return LIT if a in (LIT, POLY) else (ONE if a is not None
                                                 else None)
        return None

    def fn(self, name, fs, L):
        if CONFLICT in fs:
            return CONFLICT
        if name in ('gauss', 'filter'):
            return ONE if name == 'filter' else LIT
        if name in BESS:
            for q in fs:
                self.need1(name, q)
            return ONE
        if name in FFT:
            return fs[0]
        if name in ('round', ):
            return fs[0]
        if name == 'quad':
            return self.bin('*', fs[0], fs[1], L[0], L[1])
        if name == 'spline':
            self.same(name, fs[0], fs[1])
            return fs[2]
        if name in ('max', 'min', 'maximum', 'minimum', 'fmax', 'fmin',
                    'between', 'linspace', 'geomspace', 'arange', 'hypot',
                    'interp'):
            out = fs[0]
            for i in range(1, len(fs)):
                out = self.join(out, fs[i], L[0], L[i])
            return out
        if name == 'logspace':
            out = self.join(fs[0], fs[1], L[0], L[1])
            return U(out.d) if isinstance(out, U) and out.lg else (
                LIT if out in (LIT, POLY) else out)
        if name == 'arctan2':
            self.same(name, fs[0], fs[1])
            return ONE
        return None

    def same(self, name, a, b):
        if isinstance(a, U) and isinstance(b, U):
            self.obl += 1
            if a != b and a.lg == b.lg:
                self.ev('mismatch', f'{name}([{a}], [{b}])')

    def join(self, a, b, A, B):
        if a == b:
            return a
        if a is CONFLICT or b is CONFLICT:
            return CONFLICT
        if a is None or b is None:
            # a literal default next to an unknown stays unknown
            return None
        if a is POLY:
            return b
        if b is POLY:
            return a
        if a is LIT:
            return b
        if b is LIT:
            return a
        self.ev('joinmix', f'[{a}] / [{b}]')
        return CONFLICT


# -------------------------------------------------------------- translation
class Trans(Base):
    """v(x+t) = v(x) + w*t.  Facet = weight w (Fraction), POLY, CONFLICT."""
    name = 'trans'

    def __init__(self, name='trans'):
        self.name = name
        self.obl = 0

    def const(self, v):
        if isinstance(v, (int, float, complex)) and not isinstance(v, bool):
            if v != v or (not isinstance(v, complex) and math.isinf(v)):
                return POLY
        return Fr(0)

    def bad(self, msg):
        self.ev('absolute', msg)
        return CONFLICT

    def bin(self, op, a, b, A, B):
        if a is CONFLICT or b is CONFLICT:
            return CONFLICT
        if a is None or b is None:
            return None
        if a is POLY or b is POLY:
            return POLY
        self.obl += 1 if (a or b) else 0
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            if not a and not b:
                return Fr(0)
            for p, Q in ((a, B), (b, A)):
                if p and isinstance(Q.c, (int, float)) and \
                        not (b if p is a else a):
                    return p*Fr(Q.c).limit_denominator(10**6)
            return self.bad('product of an absolute coordinate')
        if op == '/':
            if not a and not b:
                return Fr(0)
            if a and not b and isinstance(B.c, (int, float)) and B.c:
                return a/Fr(B.c).limit_denominator(10**6)
            return self.bad('quotient of an absolute coordinate')
        if not a and not b:
            return Fr(0)
        return self.bad(f'{op} of an absolute coordinate')

    def cmp(self, op, a, b, A, B):
        if isinstance(a, Fr) and isinstance(b, Fr) and a != b:
            self.ev('absolute', f'comparison {op} of an absolute coordinate '
                    'with a translation-invariant value')
        return Fr(0)

    def un(self, name, a, A):
        if a is None or a is CONFLICT or a is POLY:
            return a
        if name in ('copy', 'real', 'float', 'pos'):
            return a
        if name == 'neg':
            return -a
        if name in ('imag', 'isnan', 'isfinite', 'isinf', 'isreal'):
            return Fr(0)
        if not a:
            return Fr(0)
        if name in ('round', 'int', 'floor', 'ceil', 'rint', 'trunc'):
            return a       # up to the rounding grid
        return self.bad(f'{name}() of an absolute coordinate')

    def fn(self, name, fs, L):
        if CONFLICT in fs:
            return CONFLICT
        if not fs:
            return Fr(0)
        if None in fs:
            return None
        ws = {q for q in fs if q is not POLY}
        if name in ('max', 'min', 'maximum', 'minimum', 'fmax', 'fmin',
                    'between', 'linspace', 'round'):
            if name == 'round':
                return fs[0]
            if len(ws) > 1:
                return self.bad(f'{name}() mixes absolute and relative')
            return ws.pop() if ws else POLY
        if ws <= {Fr(0)}:
            return Fr(0)
        if name == 'spline' and fs[0] == fs[1]:
            return fs[2]
        return self.bad(f'{name}() of an absolute coordinate')

    def join(self, a, b, A, B):
        if a == b:
            return a
        if a is CONFLICT or b is CONFLICT:
            return CONFLICT
        if a is None or b is None:
            return None
        if a is POLY:
            return b
        if b is POLY:
            return a
        self.ev('joinmix', f'weight {a} / {b}')
        return CONFLICT


# ------------------------------------------------------------------- parity
EVEN, ODD = (1, 0), (-1, 0)


class Parity(Base):
    """Behaviour under a mirror: v -> s*v + q*pi/2, facet (s, q)."""
    name = 'parity'

    def __init__(self, name='parity'):
        self.name = name
        self.obl = 0

    def const(self, v):
        if isinstance(v, (int, float, complex)) and not isinstance(v, bool):
            if v == 0:
                return POLY
        return EVEN

    def quarter(self, X):
        """X is an even constant multiple k of pi/4 -> 2*k/... else None."""
        if isinstance(X.c, (int, float)) and X.c is not NOC:
            k = X.c/(math.pi/4)
            if abs(k - round(k)) < 1e-9:
                return round(k)
        return None

    def bin(self, op, a, b, A, B):
        if a is CONFLICT or b is CONFLICT:
            return CONFLICT
        if a is None or b is None:
            return None
        if op in '+-':
            self.obl += 1
            if a is POLY:
                return self.un('neg', b, B) if op == '-' else b
            if b is POLY:
                return a
            if a[0] == b[0]:
                return (a[0], a[1] + b[1] if op == '+' else a[1] - b[1])
            sg = 1 if op == '+' else -1
            if b == EVEN and self.quarter(B) is not None:
                return (a[0], a[1] + sg*self.quarter(B))
            if a == EVEN and self.quarter(A) is not None:
                # c -+ v  ->  c +- s v +- q: mirrored = s*(c +- v) + 2c +-q
                return (b[0], self.quarter(A) + sg*b[1])
            self.ev('mix', f'sum of an even and an odd quantity')
            return CONFLICT
        if op in ('*', '/'):
            if a is POLY or b is POLY:
                return POLY
            if a[1] == 0 and b[1] == 0:
                return (a[0]*b[0], 0)
            for p, q, Q in ((a, b, B), (b, a, A)):
                if q == EVEN and isinstance(Q.c, (int, float)) and \
                        float(Q.c).is_integer() and op == '*':
                    return (p[0], p[1]*int(Q.c))
                if p is b and op == '/':
                    break
            return None
        if op == '**':
            if a is POLY:
                return POLY
            n = B.c
            if a == EVEN and b == EVEN:
                return EVEN
            if isinstance(n, (int, float)) and float(n).is_integer() and \
                    a[1] == 0:
                return (a[0]**int(abs(n)), 0)
            return None
        if op in '%//':
            return EVEN if a == EVEN and b == EVEN else None
        if op in '&|^':
            return EVEN
        return None

    def cmp(self, op, a, b, A, B):
        return EVEN

    def un(self, name, a, A):
        if a is CONFLICT:
            return CONFLICT
        if a is None or a is POLY:
            if a is POLY and name in ('cos', 'exp', 'cosh'):
                return EVEN
            return a
        if name in ('copy', 'real', 'imag', 'conj', 'float', 'pos', 'round',
                    'rint'):
            return a
        if name == 'neg':
            return (a[0], -a[1])
        if name in ('abs', 'fabs', 'square'):
            return EVEN if a[1] == 0 else None
        if name in ('cos', 'sin'):
            if a[1] % 2:
                return None
            sg = -1 if (a[1]//2) % 2 else 1
            return (sg, 0) if name == 'cos' else (sg*a[0], 0)
        if name in ('deg2rad', 'rad2deg', 'radians', 'degrees'):
            return a if a[1] == 0 else None
        if name in ('sinh', 'tanh', 'tan', 'arctan', 'arcsinh', 'arcsin',
                    'sign', 'cbrt'):
            return a if a[1] == 0 else None
        if name in ('isfinite', 'isnan', 'isinf', 'not', 'invert', 'bool'):
            return EVEN
        if a == EVEN:
            return EVEN
        if name == 'cosh':
            return EVEN if a[1] == 0 else None
        return None

    def fn(self, name, fs, L):
        if not fs:
            return EVEN
        if CONFLICT in fs:
            return CONFLICT
        if None in fs:
            return None
        P = [EVEN if q is POLY else q for q in fs]
        if name == 'arctan2':
            y, x = P
            if fs[0] is POLY and fs[1] is POLY:
                return None
            if y[1] or x[1]:
                return None
            yo = y[0] if fs[0] is not POLY else -1   # 0 is odd and even
            xo = x[0]
            if fs[0] is POLY:
                # along the axis: y = 0 before and after
                yo = -1 if xo == 1 else 1
            if yo == -1 and xo == 1:
                return ODD
            if yo == 1 and xo == 1:
                return EVEN
            if yo == 1 and xo == -1:
                return (-1, 2)
            return (1, 2)
        if name == 'hypot':
            return EVEN
        if name in ('max', 'min', 'maximum', 'minimum', 'between',
                    'linspace', 'arange', 'logspace'):
            return EVEN if all(q == EVEN for q in P) else None
        if name == 'quad':
            return self.bin('*', fs[0], EVEN, L[0], L[0])
        if name == 'spline':
            return fs[2]
        if name in FFT:
            return fs[0]
        if all(q == EVEN for q in P):
            return EVEN
        return None

    def join(self, a, b, A, B):
        if a == b:
            return a
        if a is CONFLICT or b is CONFLICT:
            return CONFLICT
        if a is None or b is None:
            return None
        if a is POLY:
            return b
        if b is POLY:
            return a
        self.ev('joinmix', f'{a} / {b}')
        return CONFLICT


__all__ = ['POLY', 'LIT', 'CONFLICT', 'U', 'ONE', 'Units', 'Trans', 'Parity',
           'EVEN', 'ODD', 'S', 'is_raw']
