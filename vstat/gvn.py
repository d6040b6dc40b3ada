"""Value numbering modulo a field/exponential theory.

Global value numbering with hashed canonical forms (random interpretation,
Gulwani & Necula, POPL 2003).  Every abstract scalar carries the value number
of the *expression* that defines it: a pair (real, imaginary) of residues in a
prime field, so that expressions that are equal by the field axioms get the
same number however they are written, plus a second residue modulo the order
of the exponential so that exp/cos/sin obey their addition theorems.  Other
functions (square roots, Bessel functions, logarithms, table look-ups) are
uninterpreted up to the identities listed below.  Two merging definitions give
a phi number, which is marked imprecise: differing imprecise numbers decide
nothing.
"""
import hashlib
import math
from fractions import Fraction as Fr

from .values import NOC
from .domains import Base

Q = 1152921504606850151        # Q % 8 == 7; 2, 3, 5, 7, 11, 13 are squares
P = 100807351962266576816902441  # P = 8mQ+1, m odd; 8th powers: as above
PODD = (P - 1)//8
QODD = (Q*Q - 1)//16           # odd
H = 26561349233242559339861932   # order Q
W8 = 88486295991822963909508201  # order 8
AE, AR = 7234987239487239, 982374982374987
IU = pow(W8, 2, P)             # square root of -1
HALF = pow(2, -1, P)


def hsh(*key):
    d = hashlib.blake2b(repr(key).encode(), digest_size=24).digest()
    return (int.from_bytes(d[:12], 'big') % P,
            int.from_bytes(d[12:], 'big') % Q)


# 8th powers play the role of positive numbers: their roots are unique there
SPI_P = pow(hsh('sqrtpi')[0], 8, P)
SPI_Q = pow(hsh('sqrtpi')[1], 2, Q)
PI_P, PI_Q = SPI_P*SPI_P % P, SPI_Q*SPI_Q % Q
SQ2_P = (W8 + pow(W8, -1, P)) % P
IRR = []                       # (float, (p, q)) irrational bases


def inv(x, m):
    return pow(x, -1, m)


def frac(f):
    f = Fr(f)
    return (f.numerator*inv(f.denominator % P, P) % P,
            f.numerator*inv(f.denominator % Q, Q) % Q)


def _mkirr():
    for n in (1, -1, 2, -2, 3, -3):
        IRR.append((math.pi**n, (pow(PI_P, n, P), pow(PI_Q, n, Q)), n))
    spp, spq = SPI_P, SPI_Q
    IRR.append((math.sqrt(math.pi), (spp, spq), None))
    IRR.append((1/math.sqrt(math.pi), (inv(spp, P), inv(spq, Q)), None))
    IRR.append((math.sqrt(2), (SQ2_P, hsh('sqrt2')[1]), None))
    IRR.append((math.sqrt(3), hsh('sqrt3'), None))
    for n in (10, 2):
        a, b = pow(hsh('ln', n)[0], 8, P), pow(hsh('ln', n)[1], 2, Q)
        IRR.append((math.log(n), (a, b), None))
        IRR.append((1/math.log(n), (inv(a, P), inv(b, Q)), None))


_mkirr()


_TS = {}


def mulq(x, y):
    return ((x[0]*y[0] - x[1]*y[1]) % Q, (x[0]*y[1] + x[1]*y[0]) % Q)


def powq(x, n):
    r = (1, 0)
    while n:
        if n & 1:
            r = mulq(r, x)
        x = mulq(x, x)
        n >>= 1
    return r


def tonelli(n):
    """Canonical square root of n modulo P, or None."""
    if n == 0:
        return 0
    if n in _TS:
        return _TS[n]
    r = None
    if pow(n, PODD, P) == 1:
        r = pow(n, (PODD + 1)//2, P)
    elif pow(n, (P-1)//2, P) == 1:
        q, s = P-1, 0
        while q % 2 == 0:
            q, s = q//2, s+1
        z = 2
        while pow(z, (P-1)//2, P) != P-1:
            z += 1
        m, c, t, r = s, pow(z, q, P), pow(n, q, P), pow(n, (q+1)//2, P)
        while t != 1:
            i, w = 0, t
            while w != 1:
                w, i = w*w % P, i+1
            b = pow(c, 1 << (m-i-1), P)
            m, c, t, r = i, b*b % P, t*b*b % P, r*b % P
        r = min(r, P-r)
    _TS[n] = r
    return r


def small(v, nmax=5000, dmax=1440, tol=2e-15):
    if not math.isfinite(v):
        return None
    f = Fr(v).limit_denominator(dmax)
    if f and abs(f.numerator) <= nmax and abs(v - float(f)) <= \
            tol*abs(v)*4:
        return f
    return None


class V:
    """Value number."""
    __slots__ = ('a', 'b', 'c', 'd', 'cr', 'r', 'k', 'tag', 'inf', 'sg',
                 'imp')

    def __init__(self, a, b=0, c=0, d=0, ang=None, tag=None, inf=0, sg=0,
                 imp=False):
        self.a, self.b, self.c, self.d = a, b, c, d
        if ang is None:
            self.cr, self.r, self.k = c, Fr(0), Fr(0)
        else:
            self.cr, self.r, self.k = ang
        self.tag, self.inf, self.sg, self.imp = tag, inf, sg, imp

    @property
    def key(self):
        return (self.a, self.b) if not self.inf else ('inf', self.inf)

    def __eq__(self, o):
        return isinstance(o, V) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    @property
    def zero(self):
        return not (self.inf or self.imp or self.a or self.b)

    def __repr__(self):
        if self.inf:
            return 'inf'
        s = f'#{self.a % 100003:05d}'
        if self.b:
            s += f'+{self.b % 100003:05d}j'
        return s + ('~' if self.imp else '')


ZERO = V(0)
EVENF = {'cos', 'cosh', 'abs', 'j0', 'square', 'fabs', 'i0', 'i0e'}
ODDF = {'arctan', 'arcsin', 'arcsinh', 'sign', 'cbrt', 'j1', 'erf', 'i1',
        'arctanh', 'i1e'}


def same(x, y):
    """True/False if decided, None otherwise."""
    if x is None or y is None:
        return None
    if x.imp or y.imp:
        return None
    if x.key == y.key:
        return True
    return None if x.inf or y.inf else False


class GVN(Base):
    name = 'vn'

    def __init__(self):
        self.cc = {}
        self.sq = {}
        self.trig = {}         # (cos, sin) of known inverse functions
        self.explog = None     # logarithms of exponentials, if recorded
        self.qr = False        # use square roots in the field if they exist
        self.nonres = 0
        self.ang = {}           # known polar angles

    # -- sources
    def leaf(self, name, dt='f', sg=0):
        a, c = hsh('leaf', name)
        if dt == 'c':
            b, d = hsh('leaf-imag', name)
            return V(a, b, c, d, sg=sg)
        return V(a, 0, c, 0, sg=sg)

    def opq(self, key, args=(), dt='f', sg=0):
        k = ('op', key, tuple(q.key for q in args))
        a, c = hsh(k)
        imp = any(q.imp for q in args)
        if dt == 'c':
            b, d = hsh(k, 'i')
            return V(a, b, c, d, sg=sg, imp=imp)
        return V(a, 0, c, 0, sg=sg, imp=imp)

    def id(self, key):
        """('at', k, facet): k-th element of a generic vector."""
        return self.opq(('at', key[1]), [key[2]],
                        'c' if key[2].b else 'f', key[2].sg)

    def const(self, v):
        try:
            r = self.cc.get((type(v), v))
        except TypeError:
            return None
        if r is None:
            r = self.cc[(type(v), v)] = self._const(v)
        return r

    def _const(self, v):
        if isinstance(v, bool):
            v = int(v)
        if v is None or isinstance(v, str):
            return self.opq(('o', v))
        if isinstance(v, int):
            return V(v % P, 0, v % Q, 0, (0, Fr(v), Fr(0)),
                     sg=(v > 0) - (v < 0))
        if isinstance(v, complex):
            x, y = self._const(v.real), self._const(v.imag)
            if x is None or y is None:
                return None
            if x.inf or y.inf:
                return None
            return V(x.a, y.a, x.c, y.c, sg=x.sg)
        if not isinstance(v, float):
            return None
        if v != v:
            return None
        if math.isinf(v):
            return V(0, inf=1 if v > 0 else -1, sg=1 if v > 0 else -1)
        if v == 0 or 1e-18 < abs(v) < 3e-16:
            return ZERO
        sg = 1 if v > 0 else -1
        if abs(v - float(f'{v:.12g}')) <= 1e-15*abs(v):
            f = Fr(f'{v:.12g}')
            a, c = frac(f)
            return V(a, 0, c, 0, (0, f, Fr(0)), sg=sg)
        f = small(v)
        if f is not None:
            a, c = frac(f)
            return V(a, 0, c, 0, (0, f, Fr(0)), sg=sg)
        for base, (p, q), n in IRR:
            f = small(v/base)
            if f is not None:
                fa, fc = frac(f)
                ang = (0, Fr(0), 4*f) if n == 1 else None
                return V(fa*p % P, 0, fc*q % Q, 0, ang, sg=sg)
        # power of ten away from a simple value
        e = math.floor(math.log10(abs(v)))
        if abs(e) < 200 and e:
            for base, (p, q), n in IRR:
                f = small(v/base/10.**e)
                if f is not None:
                    fa, fc = frac(f*Fr(10)**e)
                    return V(fa*p % P, 0, fc*q % Q, 0, sg=sg)
        f = Fr(f'{v:.12g}')
        a, c = frac(f)
        return V(a, 0, c, 0, (0, f, Fr(0)), ('approx',), sg=sg)

    # -- arithmetic
    def fold_ang(self, v):
        """Angle lane as one exponent residue."""
        if not v.r and not v.k:
            return v.cr
        return (v.cr + frac(v.r)[1] + frac(v.k/4)[1]*PI_Q) % Q

    def neg(self, x):
        if x.inf:
            return V(0, inf=-x.inf if x.inf != 2 else 2, sg=-x.sg, imp=x.imp)
        t = x.tag
        if t and t[0] == 'root':
            t = ('root', t[1], self.neg(t[2]), t[3], t[4])
        else:
            t = None
        return V(-x.a % P, -x.b % P, -x.c % Q, -x.d % Q,
                 (-x.cr % Q, -x.r, -x.k), t, sg=-x.sg, imp=x.imp)

    def add(self, x, y):
        if x.inf or y.inf:
            if x.inf and y.inf and x.inf != y.inf:
                return None
            return x if x.inf else y
        if x.zero:
            return y
        if y.zero:
            return x
        t = None
        if x.tag and y.tag and x.tag[0] == y.tag[0] == 'root' and \
                x.tag[3].key == y.tag[3].key:
            t = ('root', x.tag[1], self.add(x.tag[2], y.tag[2]), x.tag[3],
                 x.tag[4])
        return V((x.a+y.a) % P, (x.b+y.b) % P, (x.c+y.c) % Q,
                 (x.d+y.d) % Q,
                 ((x.cr+y.cr) % Q, x.r+y.r, x.k+y.k), t,
                 sg=x.sg if x.sg == y.sg else 0, imp=x.imp or y.imp)

    @staticmethod
    def rat(x):
        """x as a rational constant, or None."""
        if x.b or x.cr or x.k or x.inf or x.imp:
            return None
        if frac(x.r)[0] != x.a:
            return None
        return x.r

    def mul(self, x, y):
        if x.inf or y.inf:
            if x.zero or y.zero:
                return None
            if x.key[:1] == (0,) or y.key[:1] == (0,):
                return None
            s = x.sg*y.sg
            return V(0, inf=s or 2, sg=s, imp=x.imp or y.imp)
        if x.zero or y.zero:
            return ZERO
        imp = x.imp or y.imp
        rx = x.tag if x.tag and x.tag[0] == 'root' else None
        ry = y.tag if y.tag and y.tag[0] == 'root' else None
        if rx or ry:
            r = self.rmul(x, y, rx, ry)
            if r is not None:
                return r
        return self.mul0(x, y, imp)

    def rmul(self, x, y, rx, ry):
        """Product with at least one factor m*sqrt(t)."""
        if rx and ry:
            if rx[3].key == ry[3].key:
                return self.mul(self.mul(rx[2], ry[2]), rx[1])
            if self.has(rx[2], ry[3]):
                m = self.mul(rx[2], y)
                return self.mul(m, rx[3])
            if self.has(ry[2], rx[3]):
                m = self.mul(ry[2], x)
                return self.mul(m, ry[3])
            if rx[4] > 3:
                return None
            m = self.mul(rx[2], y)
            rt = rx
        elif rx:
            m, rt = self.mul(rx[2], y), rx
        else:
            m, rt = self.mul(ry[2], x), ry
        if m is None or m.inf:
            return None
        r = self.mul0(x, y, x.imp or y.imp)
        n = m.tag[4] + 1 if m.tag and m.tag[0] == 'root' else 1
        r.tag = ('root', rt[1], m, rt[3], n)
        r.sg = x.sg*y.sg if not (x.b and y.b) else 0
        return r

    @staticmethod
    def has(m, root):
        while m.tag and m.tag[0] == 'root':
            if m.tag[3].key == root.key:
                return True
            m = m.tag[2]
        return False

    def mul0(self, x, y, imp):
        a = (x.a*y.a - x.b*y.b) % P
        b = (x.a*y.b + x.b*y.a) % P
        c = (x.c*y.c - x.d*y.d) % Q
        d = (x.c*y.d + x.d*y.c) % Q
        ang = None
        if not b and not x.b:
            for m, o in ((x, y), (y, x)):
                f = self.rat(m)
                if f is not None:
                    mq = frac(f)[1]
                    ang = (o.cr*mq % Q, o.r*f, o.k*f)
                    break
                if not m.cr and not m.r and m.k and m.a == \
                        frac(m.k/4)[0]*PI_P % P:
                    # multiple of pi times (core + r + ...)
                    if not o.k:
                        pq = frac(m.k/4)[1]*PI_Q % Q
                        ang = (o.cr*pq % Q, Fr(0), m.k*o.r)
                        break
        # sign of the real part
        sg = x.sg*y.sg if not (x.b and y.b) else 0
        return V(a, b, c, d, ang, sg=sg, imp=imp)

    def recip(self, y):
        if y.inf:
            return ZERO
        if y.zero or not (y.a or y.b):
            return None
        n, m = (y.a*y.a + y.b*y.b) % P, (y.c*y.c + y.d*y.d) % Q
        if not n:
            return None
        n = inv(n, P)
        if not m:
            c, d = hsh('recip', y.key)[1], 0
        else:
            m = inv(m, Q)
            c, d = y.c*m % Q, -y.d*m % Q
        f = self.rat(y)
        ang = (0, 1/f, Fr(0)) if f else None
        t = None
        if y.tag and y.tag[0] == 'root':
            # 1/(m sqrt(t)): the residue is the inverse, the tag says
            # (1/(m t)) sqrt(t)
            q = self.recip(self.mul(y.tag[2], y.tag[1]))
            t = q and ('root', y.tag[1], q, y.tag[3], y.tag[4])
        return V(y.a*n % P, -y.b*n % P, c, d, ang, t,
                 sg=y.sg, imp=y.imp)

    def div(self, x, y):
        if y.inf:
            return None if x.inf else ZERO
        if not (x.inf or x.imp or y.imp or y.zero):
            if x.key == y.key:
                return self.const(1)
            if x.key == self.neg(y).key:
                return self.const(-1)
        r = self.recip(y)
        return None if r is None else self.mul(x, r)

    def ipow(self, x, n):
        if n == 0:
            return self.const(1)
        if n < 0:
            x = self.recip(x)
            n = -n
            if x is None:
                return None
        out = None
        while n:
            if n & 1:
                out = x if out is None else self.mul(out, x)
            n >>= 1
            if n:
                x = self.mul(x, x)
            if x is None:
                return None
        return out

    def bin(self, op, x, y, A, B):
        if A.c is not NOC and B.c is not NOC and not (A.e or B.e):
            from .ops import fold
            c = fold(op, A.c, B.c)
            if c is not NOC and isinstance(c, (bool, int, float, complex)):
                r = self.const(c)
                if x is None or y is None or r is None or not r.tag or \
                        op not in ('+', '-', '*', '/', '**') or r.tag[0] != 'approx':
                    return r
        if x is None or y is None:
            return None
        if op == '+':
            return self.add(x, y)
        if op == '-':
            return self.add(x, self.neg(y))
        if op == '*':
            r = self.mul(x, y)
            if x.key == y.key:
                self.square(x, r, A)
            return r
        if op == '/':
            return self.div(x, y)
        if op == '**':
            n = self.rat(y)
            if n is not None:
                if n.denominator == 1 and abs(n) < 200:
                    r = self.ipow(x, int(n))
                    if n == 2:
                        self.square(x, r, A)
                    return r
                if n.denominator == 2 and abs(n) < 40:
                    r = self.sqrt(x, A.dt)
                    return r and self.ipow(r, int(2*n))
                if n.denominator == 3 and abs(n) < 40:
                    return self.ipow(self.opq('cbrt', [x], A.dt), int(3*n))
            b = self.rat(x)
            lg = None
            if b is not None and b > 0:
                lg = self.const(math.log(b))
                if y.tag and y.tag[0] == 'log' and y.tag[2] == b:
                    return y.tag[1]
            else:
                lg = self.un('log', x, A)
            m = lg and self.mul(lg, y)
            return m and self.exp(m)
        if op in '&|^':
            x, y = sorted((x, y), key=lambda q: q.key)
        return self.opq(op, [x, y])

    def cmp(self, op, x, y, A, B):
        if x is None or y is None:
            return None
        if op in ('Gt', 'GtE'):
            op = 'Lt' if op == 'Gt' else 'LtE'
            x, y = y, x
        if op in ('Eq', 'NotEq'):
            x, y = sorted((x, y), key=lambda q: repr(q.key))
        return self.opq(op, [x, y])

    # -- functions
    def sqrt(self, x, dt='f'):
        if x.inf:
            return V(0, inf=1, sg=1)
        f = self.rat(x)
        if f is not None and f >= 0:
            return self.const(math.sqrt(f))
        if x.key in self.sq:
            return self.sq[x.key]
        if self.qr:
            r = self.root(x)
            if r is not None:
                return r
            self.nonres += 1
        r = self.opq('sqrt', [x], 'c' if (dt == 'c' or x.b) else 'f', 1)
        r.tag = ('root', x, self.const(1), r, 1)
        return r

    def root(self, x):
        """Square root of the residue pair, if it exists in the field."""
        i2 = inv(2*IU % P, P)
        u, v = (x.a + IU*x.b) % P, (x.a - IU*x.b) % P
        ru = tonelli(u)
        rv = ru if not x.b else tonelli(v)
        if ru is None or rv is None:
            return None
        c, d = self.rootq(x)
        return V((ru + rv)*HALF % P, (ru - rv)*i2 % P, c, d, sg=1,
                 imp=x.imp)

    @staticmethod
    def rootq(x):
        """Square root of the exponent residue; multiplicative on squares."""
        if not x.d and not x.b:
            if pow(x.c, (Q-1)//2, Q) in (0, 1):
                return pow(x.c, (Q+1)//4, Q), 0
        else:
            r = mulq((1, 0), (x.c, x.d))
            if powq(r, QODD) == (1, 0):
                return powq(r, (QODD + 1)//2)
        return hsh('sqrtq', x.key)[1], (hsh('sqrtqi', x.key)[1] if x.b
                                        else 0)

    def square(self, x, r, A):
        """Remember r = x**2 if the sign of x is known."""
        if r is None or x.b or x.inf or r.imp:
            return
        s = x.sg or self.csg(A)
        if s:
            self.sq[r.key] = x if s > 0 else self.neg(x)

    def rot(self, e, k=Fr(0)):
        """cos, sin residues of the angle with exponent residue e."""
        if k and k.denominator != 1:
            e = (e + frac(k/4)[1]*PI_Q) % Q
            k = Fr(0)
        rho = pow(H, e*AR % Q, P)
        if k:
            rho = rho*pow(W8, int(k) % 8, P) % P
        ri = inv(rho, P)
        return ((rho + ri)*HALF % P, (rho - ri)*HALF*inv(IU, P) % P)

    def cs(self, x):
        """(cos, sin) of a real value."""
        t = self.trig and self.trig.get(self.base(x).key)
        if t:
            return self.turn(t, x.k) if x.k else t
        e = (x.cr + (frac(x.r)[1] if x.r else 0)) % Q
        c, s = self.rot(e, x.k)
        return (V(c, 0, self.oddq(c), 0, imp=x.imp),
                V(s, 0, self.oddq(s), 0, imp=x.imp))

    @staticmethod
    def oddq(a):
        """Exponent residue of a trigonometric value; odd in a."""
        if not a:
            return 0
        if a == 1 or a == P-1:
            return 1 if a == 1 else Q-1
        n = -a % P
        return hsh('trig', a)[1] if a < n else -hsh('trig', n)[1] % Q

    def exp(self, x):
        if x.inf:
            if x.inf == 1:
                return V(0, inf=1, sg=1)
            return ZERO if x.inf == -1 else None
        if x.zero:
            return self.const(1)
        if x.tag and x.tag[0] == 'log' and x.tag[2] == 'e':
            return x.tag[1]
        m = pow(H, x.c*AE % Q, P)
        if not x.b:
            r = V(m, 0, hsh('expq', m)[1], 0, sg=1, imp=x.imp)
            if self.explog is not None:
                self.explog.setdefault(r.key, x)
            return r
        c, s = self.rot(x.d)
        q = hsh('expq', m)[1] if x.a or x.c else 1
        return V(m*c % P, m*s % P, q*self.oddq(c) % Q, q*self.oddq(s) % Q,
                 imp=x.imp)

    def un(self, name, x, A):
        if x is None:
            return None
        if name in ('copy', 'pos', 'float'):
            return x
        if name == 'neg':
            return self.neg(x)
        if name == 'square':
            r = self.ipow(x, 2)
            self.square(x, r, A)
            return r
        if name == 'reciprocal':
            return self.recip(x)
        if name == 'sqrt':
            return self.sqrt(x, A.dt)
        if name in ('real', 'imag'):
            if x.inf:
                return x
            t = self.part(name, x, A)
            if name == 'real':
                return V(x.a, 0, x.c, 0, (x.cr, x.r, x.k), tag=t, sg=x.sg,
                         imp=x.imp)
            return V(x.b, 0, x.d, 0, tag=t, imp=x.imp) if x.b else ZERO
        if name == 'conj':
            return V(x.a, -x.b % P, x.c, -x.d % Q, (x.cr, x.r, x.k),
                     tag=self.part(name, x, A), sg=x.sg, imp=x.imp)
        if name in ('abs', 'fabs'):
            if x.inf:
                return V(0, inf=1, sg=1)
            if x.zero:
                return ZERO
            if not x.b:
                s = x.sg
                if not s and isinstance(A.c, (int, float)) and \
                        A.c is not NOC:
                    s = (A.c > 0) - (A.c < 0)
                    if A.c == 0 and not A.e:
                        return ZERO
                if s > 0:
                    return x
                if s < 0:
                    return self.neg(x)
                x = self.can(x)[0]
                return self.opq('abs', [x], 'f', 1)
            n2 = V((x.a*x.a + x.b*x.b) % P, 0, (x.c*x.c + x.d*x.d) % Q, 0,
                   imp=x.imp)
            return self.sqrt(n2)
        if name == 'exp':
            return self.exp(x)
        if name == 'expm1':
            return self.add(self.exp(x), self.const(-1))
        if name == 'exp2':
            return self.bin('**', self.const(2), x, A, A)
        if name in ('cos', 'sin', 'tan') and not x.b and not x.inf:
            c, s = self.cs(x)
            return c if name == 'cos' else s if name == 'sin' else \
                self.div(s, c)
        if name in ('cosh', 'sinh', 'tanh') and not x.inf:
            p, n = self.exp(x), self.exp(self.neg(x))
            h = self.const(.5)
            c = self.mul(h, self.add(p, n))
            s = self.mul(h, self.add(p, self.neg(n)))
            return c if name == 'cosh' else s if name == 'sinh' else \
                self.div(s, c)
        if name in ('deg2rad', 'radians'):
            return self.mul(x, self.const(math.pi/180))
        if name in ('rad2deg', 'degrees'):
            return self.mul(x, self.const(180/math.pi))
        if name in ('log', 'log10', 'log2', 'log1p'):
            if name == 'log1p':
                x = self.add(x, self.const(1))
                name = 'log'
            f = self.rat(x)
            if f == 1:
                return ZERO
            base = {'log': 'e', 'log10': 10, 'log2': 2}[name]
            if f is not None and f > 0:
                r = self.const(math.log(f))
            else:
                r = self.explog and self.explog.get(x.key)
                r = r or self.opq('log', [x], A.dt)
            if r is None:
                return None
            if base != 'e':
                r = self.div(r, self.const(math.log(base)))
            r = V(r.a, r.b, r.c, r.d, (r.cr, r.r, r.k), ('log', x, base),
                  0, 0, r.imp)
            return r
        if name == 'arctan' and not x.b:
            return self.atan2(x, self.const(1))
        if name in ('isfinite', 'isnan', 'isinf', 'not', 'invert', 'bool',
                    'isreal'):
            return self.opq(name, [x])
        if name == 'arccos':
            r = self.un('arcsin', x, A)
            return self.add(self.const(math.pi/2), self.neg(r))
        if name == 'sign' and not x.b:
            s = 0 if x.zero else x.sg or self.csg(A)
            if s or x.zero:
                return self.const(s)
        if name == 'arcsin':
            f = self.rat(x) if not x.inf else None
            if f in (0, 1, -1):
                return self.const(int(f)*math.pi/2)
        if name in EVENF or name in ODDF:
            x, s = self.can(x)
            r = self.opq(name, [x], A.dt if A.dt == 'c' else 'f')
            if name in ODDF and s < 0:
                r, x = self.neg(r), self.neg(x)
            return self.setasin(r, x) if name == 'arcsin' else r
        if name == 'angle':
            return self.atan2(V(x.b, 0, x.d), V(x.a, 0, x.c))
        if name in ('rint', 'round'):
            return self.fn('round', [x], [A])
        if name in ('int', 'floor', 'ceil', 'trunc'):
            f = self.rat(x) if not x.inf else None
            if f is not None and f.denominator == 1:
                return x
            return self.opq('int' if name == 'trunc' else name, [x])
        return self.opq(('un', name), [x], 'c' if x.b else 'f')

    def can(self, x):
        """Canonical representative of {x, -x} and the sign used."""
        n = self.neg(x)
        if (x.a, x.b) == (0, 0):
            return x, 1
        return (x, 1) if (x.a, x.b) < (n.a, n.b) else (n, -1)

    def polar(self, off, th):
        """(off cos(th), off sin(th)); off > 0 and th become their polar
        coordinates."""
        c, s = self.cs(th)
        x, y = self.mul(off, c), self.mul(off, s)
        self.sq[self.mul(off, off).key] = off
        self.ang[y.key, x.key] = th
        self.ang[self.neg(y).key, self.neg(x).key] = self.add(
            th, self.const(math.pi))
        return x, y

    def atan2(self, y, x, sy=0, sx=0):
        """Angle modulo 2 pi; signs only from the operands."""
        if (y.key, x.key) in self.ang:
            return self.ang[y.key, x.key]
        if y.inf or x.inf or y.b or x.b:
            return self.opq('arctan2', [y, x])
        imp = y.imp or x.imp
        sx = sx or x.sg
        sy = sy or y.sg
        if y.zero:
            if sx < 0:
                return self.const(math.pi)
            return ZERO
        if x.zero:
            if not sy:
                return self.opq('arctan2', [y, x])
            return self.const(sy*math.pi/2)
        if not sx or not sy:
            t = self.div(y, x)
            r = self.opq('arctan2', [t, self.opq('sg', [
                x if not sx else self.const(sx)])])
            return self.settrig(r, x, y)
        # |y|, |x|
        ay = y if sy > 0 else self.neg(y)
        ax = x if sx > 0 else self.neg(x)
        t = self.div(ay, ax)
        u = self.recip(t)
        swap = u.a < t.a
        th = self.opq('atan', [u if swap else t], 'f', 1)
        if t.a == 1:
            th = self.const(math.pi/4)
        elif swap:
            th = self.add(self.const(math.pi/2), self.neg(th))
        if sx < 0:
            th = self.add(self.const(math.pi), self.neg(th))
        if sy < 0:
            th = self.neg(th)
        th.imp = th.imp or imp
        if t.a != 1:
            self.settrig(th, x, y)
        return th

    def settrig(self, th, x, y):
        """cos and sin of the polar angle th of (x, y)."""
        h = self.sqrt(self.add(self.mul(x, x), self.mul(y, y)))
        return self.known(th, self.div(x, h), self.div(y, h))

    def base(self, x):
        """x without its multiple of pi/4."""
        if not x.k:
            return x
        return self.add(x, self.const(-float(x.k)*math.pi/4))

    def turn(self, cs, k):
        """(cos, sin) of an angle turned by k*pi/4."""
        c, s = cs
        p, q = self.rot(0, k)
        p = V(p, 0, self.oddq(p), 0)
        q = V(q, 0, self.oddq(q), 0)
        m, n = self.mul, self.neg
        return (self.add(m(c, p), n(m(s, q))), self.add(m(s, p), m(c, q)))

    def known(self, th, c, s):
        """Register cos(th) = c, sin(th) = s, and those of its multiples."""
        if c is None or s is None:
            return th
        b = self.base(th)
        if b.key in self.trig or b.zero:
            return th
        if th.k:
            c, s = self.turn((c, s), -th.k)
        d = self.add(self.mul(c, c), self.neg(self.mul(s, s)))
        e = self.mul(self.const(2), self.mul(s, c))
        self.trig[b.key] = c, s
        self.trig[self.neg(b).key] = c, self.neg(s)
        b = self.mul(b, self.const(2))
        self.trig[b.key] = d, e
        self.trig[self.neg(b).key] = d, self.neg(e)
        return th

    def part(self, name, x, A):
        """Tag of the real or imaginary part or the conjugate."""
        t = x.tag
        if not x.b:
            return t
        if t and t[0] == 'root' and not (t[3].b or t[1].b):
            return ('root', t[1], self.un(name, t[2], A), *t[3:])
        return None

    def setasin(self, r, x):
        """sin(arcsin(x)) and cos(arcsin(x))."""
        t = x.tag
        if t and t[0] == 'root':
            # x = m*sqrt(u): cos = sqrt(1/u - m*m)*sqrt(u)
            q = self.add(self.const(1), self.neg(self.mul(x, x)))
            q = self.mul(q, t[1])
            c = self.div(self.sqrt(q), t[3]) if q is not None else None
        else:
            c = self.sqrt(self.add(self.const(1), self.neg(self.mul(x, x))))
        return self.known(r, c, x)

    @staticmethod
    def csg(L):
        if isinstance(L.c, (int, float)) and L.c is not NOC:
            return (L.c > 0) - (L.c < 0)
        return 0

    def fn(self, name, fs, L):
        if name == 'filter':
            return self.opq(('filter',) + tuple(fs))
        if name == 'gauss':
            return self.gauss(*fs) if fs else self.opq(('gauss',))
        if not fs:
            return self.opq(('fn', name))
        if None in fs:
            return None
        if name == 'hypot':
            return self.sqrt(self.add(self.ipow(fs[0], 2),
                                      self.ipow(fs[1], 2)))
        if name == 'arctan2':
            return self.atan2(fs[0], fs[1], self.csg(L[0]), self.csg(L[1]))
        if name in ('max', 'min', 'maximum', 'minimum', 'fmax', 'fmin'):
            nm = 'max' if 'max' in name else 'min'
            cs = [q.c for q in L]
            if all(isinstance(c, (int, float)) and c is not NOC and c == c
                   for c in cs):
                return fs[cs.index((max if nm == 'max' else min)(cs))]
            u = sorted(set(fs), key=lambda q: repr(q.key))
            return u[0] if len(u) == 1 else self.opq(nm, u)
        if name in ('j0', 'j1'):
            x, s = self.can(fs[0])
            r = self.opq(('bes', 0 if name == 'j0' else 1), [x])
            return self.neg(r) if name == 'j1' and s < 0 else r
        if name in ('jv', 'jn'):
            n = self.rat(fs[0])
            if n in (0, 1):
                return self.fn(f'j{int(n)}', fs[1:], L[1:])
            return self.opq(('bes', str(n)), fs[1:])
        if name in ('ive', 'kve', 'iv', 'kv'):
            n = self.rat(fs[0])
            if name[0] == 'i' and fs[1].zero and n is not None and n >= 0:
                return self.const(int(n == 0))
            if n is not None and n.denominator == 1 and n > 1 and \
                    not fs[1].zero:
                # f(n) = f(n-2) -+ 2(n-1)/x f(n-1)
                k = self.const(int(2*(n-1)))
                a, b = (self.fn(name, [self.const(int(n-i)), fs[1]], L)
                        for i in (2, 1))
                b = self.mul(self.div(k, fs[1]), b)
                return self.add(a, b if name[0] == 'k' else self.neg(b))
            return self.opq((name, str(n)), fs[1:], L[1].dt)
        if name in ('i0', 'i1', 'k0', 'k1'):
            return self.opq((name[0]+'v', name[1]), fs, L[0].dt)
        if name in ('i0e', 'i1e', 'k0e', 'k1e'):
            return self.opq((name[0]+'ve', name[1]), fs, L[0].dt)
        if name == 'quad':
            return self.mul(fs[0], self.opq('quadw', fs[1:]))
        if name == 'factorial':
            n = self.rat(fs[0])
            if n is not None and n.denominator == 1 and 0 <= n < 60:
                return self.const(math.factorial(int(n)))
        if name in ('fft', 'ifft', 'rfft', 'irfft'):
            return self.lin(name, [], fs, 0)
        if name == 'spline':
            return self.mul(fs[2], self.opq('splinew', fs[:2]))
        if name == 'round':
            f = self.rat(fs[0]) if not fs[0].inf else None
            d = self.rat(fs[1]) if len(fs) > 1 else Fr(0)
            if f is not None and f.denominator == 1 or d is not None and \
                    d >= 3:
                return fs[0]      # grid rounding: ignored (see DESIGN.md)
            x, s = self.can(fs[0])
            r = self.opq(('round', str(d)), [x])
            return r if s > 0 else self.neg(r)
        return self.opq(('fn', name), fs, 'c' if any(
            q.dt == 'c' for q in L) else 'f')

    def toint(self, x, c):
        """Truncation; sizes are those of the representative numbers."""
        if x is None:
            return None
        return self.const(c) if isinstance(c, int) else self.opq('int', [x])

    def gauss(self, kind, n, i):
        """i-th node (kind 0) or weight (kind 1), symmetric about zero."""
        j = min(i, n-1-i)
        if kind:
            return self.const(2) if n == 1 else self.opq(
                ('gaussw', n, j), sg=1)
        if 2*i == n-1:
            return ZERO
        v = self.opq(('gaussx', n, j), sg=1)
        return v if i > j else self.neg(v)

    def lin(self, name, keys, ys, j, dt='f'):
        """Linear map of ys with uninterpreted weights."""
        out = ZERO
        if None in keys or None in ys:
            return None
        imp = any(k.imp for k in keys)
        for i, y in enumerate(ys):
            w = self.opq(('lin', name, j, i, len(ys)), keys, dt)
            out = self.add(out, self.mul(y, w))
            if out is None:
                return None
        if imp and not out.imp:
            out = V(out.a, out.b, out.c, out.d, imp=True)
        return out

    def join(self, x, y, A, B):
        if x is None or y is None:
            return None
        if x.key == y.key:
            return x if not y.imp else y
        if x.inf or y.inf:
            return None
        k = set()
        for q in (x, y):
            k |= set(q.tag[1]) if q.tag and q.tag[0] == 'phi' else {q.key}
        k = tuple(sorted(k))
        cplx = x.b or y.b
        a, c = hsh('phi', k)
        b, d = hsh('phi', k, 'i') if cplx else (0, 0)
        return V(a, b, c, d, tag=('phi', k),
                 sg=x.sg if x.sg == y.sg else 0, imp=True)

    def show(self, v):
        return repr(v)


__all__ = ['GVN', 'V', 'same', 'ZERO']
