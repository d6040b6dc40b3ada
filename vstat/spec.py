"""Reference field of a dipole in a layered VTI medium, as value numbers.

Independent of the code under analysis: Maxwell's equations are split into the
two polarisations, each a transmission line along z (voltage and current are
the tangential field components, hence continuous across interfaces); input
impedances are propagated from the outer half-spaces to the source, the source
jump conditions are solved, and the fields are propagated to the receiver.
"""
from .gvn import ZERO

PI = 3.141592653589793


def constants():
    """Accepted representations of (mu_0, epsilon_0)."""
    a, b = X(4e-7)*X(PI), X(1.25663706212e-06)
    c2 = X(299792458)*X(299792458)
    for mu, f in ((a, 4e-7*PI), (b, 1.25663706212e-06)):
        yield mu, X(1/(f*299792458*299792458))
        yield mu, 1/(mu*c2)
        yield mu, X(8.8541878128e-12)
        yield mu, X(8.854187817e-12)


class X:
    """Value number with operators."""
    g = None
    __slots__ = ('v',)

    def __init__(self, v):
        if isinstance(v, X):
            v = v.v
        elif isinstance(v, (int, float, complex)):
            v = X.g.const(v)
        self.v = v

    def _b(self, f, o, sw=False):
        o = X(o)
        a, b = (o.v, self.v) if sw else (self.v, o.v)
        return X(None if a is None or b is None else f(a, b))

    def __add__(self, o):
        return self._b(X.g.add, o)
    __radd__ = __add__

    def __mul__(self, o):
        return self._b(X.g.mul, o)
    __rmul__ = __mul__

    def __neg__(self):
        return X(X.g.neg(self.v))

    def __sub__(self, o):
        return self + (-X(o))

    def __rsub__(self, o):
        return X(o) + (-self)

    def __truediv__(self, o):
        return self._b(X.g.div, o)

    def __rtruediv__(self, o):
        return self._b(X.g.div, o, True)

    def exp(self):
        return X(X.g.exp(self.v))

    def sqrt(self):
        return X(X.g.sqrt(self.v))

    def cosh(self):
        return (self.exp() + (-self).exp())/2

    def sinh(self):
        return (self.exp() - (-self).exp())/2

    def cs(self):
        c, s = X.g.cs(self.v)
        return X(c), X(s)


class Line:
    """Transmission line of one polarisation."""

    def __init__(self, d, gam, Z, zs, ls):
        self.d, self.gam, self.Z = d, gam, Z      # d[i]: top of layer i (i>0)
        self.zs, self.ls = zs, ls
        n = len(gam)
        # impedance looking down at the bottom of layer ls, up at its top
        zd = None
        for i in range(n-1, ls, -1):
            zd = Z[i] if zd is None else self.zin(i, zd, d[i+1]-d[i])
        zu = None
        for i in range(0, ls):
            zu = Z[i] if zu is None else self.zin(i, zu, d[i+1]-d[i])
        self.dn = Z[ls] if zd is None else self.zin(ls, zd, d[ls+1]-zs)
        self.up = Z[ls] if zu is None else self.zin(ls, zu, zs-d[ls])

    def zin(self, i, zl, h):
        x = self.gam[i]*h
        c, s, Z = x.cosh(), x.sinh(), self.Z[i]
        return Z*(zl*c + Z*s)/(Z*c + zl*s)

    def solve(self, v, i):
        """(V, I) just above and just below the source."""
        a = v/(self.dn + self.up)
        V0, I0 = (-(self.up*a), a), (self.dn*a, a)
        b = i/(1/self.dn + 1/self.up)
        return ((V0[0]+b, V0[1]-b/self.up), (I0[0]+b, I0[1]+b/self.dn))

    def at(self, v, i, zr, lr, below):
        up, dn = self.solve(v, i)
        V, I = dn if below else up
        z, l = self.zs, self.ls
        while l != lr:
            if below:
                nz, nl = self.d[l+1], l+1
            else:
                nz, nl = self.d[l], l-1
            V, I = self.step(V, I, l, nz - z)
            z, l = nz, nl
        return self.step(V, I, l, zr - z)

    def step(self, V, I, l, h):
        x = self.gam[l]*h
        c, s, Z = x.cosh(), x.sinh(), self.Z[l]
        return V*c - Z*I*s, I*c - V*s/Z


def medium(res, aniso, eH, eV, mH, mV, s, mu0, eps0):
    """eta, zeta for the Laplace parameter s."""
    return dict(eH=1/res + s*eps0*eH, eV=1/(res*aniso*aniso) + s*eps0*eV,
                zH=s*mu0*mH, zV=s*mu0*mV)


def hv(k):
    return (k-1) % 3 + 1


def spectral(ab, lay, d, zs, ls, zr, lr, k, rel):
    """{('c'|'s', n): coefficient} of the 2-D spectrum in the angle of k.

    rel: 1 receiver below, -1 above, 0 same depth (mean of both sides).
    """
    if rel == 0:
        a = spectral(ab, lay, d, zs, ls, zr, lr, k, 1)
        b = spectral(ab, lay, d, zs, ls, zr, lr, k, -1)
        return {q: (a[q] + b[q])/2 for q in a}
    J = X(1j)
    tmg = [(L['eH']*L['zH'] + k*k*L['eH']/L['eV']).sqrt() for L in lay]
    teg = [(L['eH']*L['zH'] + k*k*L['zH']/L['zV']).sqrt() for L in lay]
    tm = Line(d, tmg, [g/L['eH'] for g, L in zip(tmg, lay)], zs, ls)
    te = Line(d, teg, [L['zH']/g for g, L in zip(teg, lay)], zs, ls)
    S, R = lay[ls], lay[lr]
    src, rec = hv(ab % 10), hv(ab//10)
    msrc, mrec = ab % 10 > 3, ab//10 > 3
    o = X(0)
    below = rel > 0
    # source along L, T or z: (v, i) of the TM and of the TE line
    if msrc:
        drive = {'L': ((o, o), (X(1), o)), 'T': ((X(-1), o), (o, o)),
                 'z': ((o, o), (o, -(J*k)/S['zV']))}
    else:
        drive = {'L': ((o, X(-1)), (o, o)), 'T': ((o, o), (o, X(-1))),
                 'z': ((J*k/S['eV'], o), (o, o))}

    def fields(p):
        a, b = drive[p]
        VM, IM = tm.at(*a, zr, lr, below) if p != ('x',) else (o, o)
        VE, IE = te.at(*b, zr, lr, below)
        if mrec:
            return {'L': -IE, 'T': IM, 'z': J*k*VE/R['zV']}
        return {'L': VM, 'T': VE, 'z': -(J*k)*IM/R['eV']}
    # L = (c, s), T = (-s, c)
    comp = {1: [('L', 'c', 1), ('T', 's', -1)],
            2: [('L', 's', 1), ('T', 'c', 1)], 3: [('z', '1', 1)]}
    out = {('c', 0): o, ('c', 1): o, ('s', 1): o, ('c', 2): o, ('s', 2): o}
    for p, f, sg in comp[src]:
        F = fields(p)
        for q, h, sh in comp[rec]:
            v = F[q]*(sg*sh)
            fh = ''.join(sorted(f+h)).replace('1', '')
            if fh == '':
                out['c', 0] += v
            elif len(fh) == 1:
                out[fh, 1] += v
            elif fh == 'cs':
                out['s', 2] += v/2
            else:
                out['c', 0] += v/2
                out['c', 2] += v/2*(1 if fh == 'cc' else -1)
    return out


def hankel(sp, k, off, cth, sth):
    """(kernel of J0, kernel of J1) of the inverse transform."""
    J = X(1j)
    c2, s2 = cth*cth - sth*sth, 2*cth*sth
    pi2 = 2*X(PI)
    a2 = sp['c', 2]*c2 + sp['s', 2]*s2
    a1 = sp['c', 1]*cth + sp['s', 1]*sth
    p0 = (sp['c', 0] + a2)*k/pi2
    p1 = (-(J*a1)*k - 2*a2/off)/pi2
    return p0, p1




# ------------------------------------------------------------- full space
class Jet:
    """Second-order Taylor polynomial in (x, y, z)."""
    __slots__ = ('v', 'd', 'h')

    def __init__(self, v, d=None, h=None):
        o = X(0)
        self.v = X(v)
        self.d = d or [o]*3
        self.h = h or [[o]*3 for _ in range(3)]

    @staticmethod
    def var(v, i):
        return Jet(v, [X(int(i == k)) for k in range(3)])

    def __add__(self, o):
        o = o if isinstance(o, Jet) else Jet(o)
        return Jet(self.v + o.v, [a + b for a, b in zip(self.d, o.d)],
                   [[a + b for a, b in zip(p, q)]
                    for p, q in zip(self.h, o.h)])
    __radd__ = __add__

    def __mul__(self, o):
        o = o if isinstance(o, Jet) else Jet(o)
        d = [self.v*b + a*o.v for a, b in zip(self.d, o.d)]
        h = [[self.v*o.h[i][j] + self.d[i]*o.d[j] + self.d[j]*o.d[i] +
              self.h[i][j]*o.v for j in range(3)] for i in range(3)]
        return Jet(self.v*o.v, d, h)
    __rmul__ = __mul__

    def __neg__(self):
        return self*X(-1)

    def __sub__(self, o):
        return self + (-o if isinstance(o, Jet) else -X(o))

    def fn(self, f, f1, f2):
        """Composition with a function given f, f', f'' at the value."""
        return Jet(f, [f1*a for a in self.d],
                   [[f2*self.d[i]*self.d[j] + f1*self.h[i][j]
                     for j in range(3)] for i in range(3)])

    def exp(self):
        e = self.v.exp()
        return self.fn(e, e, e)

    def inv(self):
        r = 1/self.v
        return self.fn(r, -(r*r), 2*r*r*r)

    def sqrt(self, s=None):
        s = s if s is not None else self.v.sqrt()
        return self.fn(s, 1/(2*s), -1/(4*s*self.v))

    def __truediv__(self, o):
        if isinstance(o, Jet):
            return self*o.inv()
        return self*(1/X(o))


def scalar(x, y, z, q, gam):
    """(S, W_x, W_y): S <-> exp(-Gamma|z|)/(2 Gamma), -Lap_h W = S.

    q: ratio of horizontal to vertical parameter; gam: sqrt(zeta eta).
    """
    x, y, z = Jet.var(x, 0), Jet.var(y, 1), Jet.var(z, 2)
    r2 = x*x + y*y
    R = (r2 + z*z*q).sqrt()
    lam = q.sqrt()
    e = (R*(-gam)).exp()/(4*X(PI)*lam)
    F = e/gam/r2
    return e/R, x*F, y*F


def fullspace(ab, x, y, z, L):
    """Field of a unit dipole in a homogeneous VTI full space."""
    src, rec = hv(ab % 10), hv(ab//10)
    ms, mr = ab % 10 > 3, ab//10 > 3
    eH, eV, zH, zV = L['eH'], L['eV'], L['zH'], L['zV']
    if ms == mr:
        if ms:
            eH, eV, zH, zV = zH, zV, eH, eV
        sign = 1
    else:
        if mr:
            eH, eV, zH, zV = zH, zV, eH, eV
        sign = -1 if mr else 1
    S, Sx, Sy = scalar(x, y, z, eH/eV, (zH*eV).sqrt())
    T, Tx, Ty = scalar(x, y, z, zH/zV, (eH*zV).sqrt())
    k = (rec, src)
    if ms == mr:
        if k == (1, 1):
            r = zH*Sx.d[0] + S.h[0][0]/eV + zH*Ty.d[1]
        elif k == (2, 2):
            r = zH*Sy.d[1] + S.h[1][1]/eV + zH*Tx.d[0]
        elif k in ((1, 2), (2, 1)):
            r = zH*Sx.d[1] + S.h[0][1]/eV - zH*Tx.d[1]
        elif k == (3, 3):
            r = -(eH/(eV*eV))*(S.h[0][0] + S.h[1][1])
        else:
            i = 0 if 1 in k else 1
            r = S.h[i][2]/eV
    elif k == (1, 1):
        r = Sx.h[1][2] - Tx.h[1][2]
    elif k == (2, 2):
        r = Tx.h[1][2] - Sx.h[1][2]
    elif k == (1, 2):
        r = -(Sx.h[0][2]) - Ty.h[1][2]
    elif k == (2, 1):
        r = Sy.h[1][2] + Tx.h[0][2]
    elif k == (1, 3):
        r = -(zH/zV*T.d[1])
    elif k == (2, 3):
        r = zH/zV*T.d[0]
    elif k == (3, 1):
        r = eH/eV*S.d[1]
    elif k == (3, 2):
        r = -(eH/eV*S.d[0])
    else:
        r = X(0)
    return r*sign

__all__ = ['X', 'PI', 'constants', 'medium', 'Line', 'spectral', 'hankel', 'hv',
           'Jet', 'scalar', 'fullspace']
