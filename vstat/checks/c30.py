"""The analytical solutions are the closed-form solutions they claim to be.

'fs': field of a dipole in a homogeneous VTI full space (all 36 pairs);
'dfs', 'dhs', 'dsplit', 'dtetm': diffusive half-space below air, frequency,
Laplace, impulse, switch-on and switch-off responses; both against closed
forms obtained here by differentiating scalar potentials.
"""
import math
from fractions import Fraction as Fr
from ..rel import *
from ..gvn import P, Q, IU, hsh, powq, QODD, inv, frac
from ..spec import X, Jet, PI, constants, fullspace

LEVEL = 'other'
ASSUME = []
HALF = inv(2, P)
PAIRS = [11, 12, 21, 22, 13, 23, 31, 32, 33]
SOL = ('dfs', 'dhs', 'dsplit', 'dtetm')
FN = 'empymod.model.analytical'


def check(ctx):
    ctx.rule('analytical solution = closed form, by value number')
    r = Rel(ctx)
    X.g = r.g
    full(ctx, r)
    half(ctx, r)
    half(ctx, r, True)
    survey(ctx, r)
    r.done()


# ------------------------------------------- numbers with unique square roots
def rpos(name):
    """Positive number: its roots exist and are multiplicative."""
    a, c = hsh('pos', name)
    return X(V(pow(a, 8, P), 0, pow(c, 2, Q), 0, sg=1))


def cpos(name):
    """Complex number with the same property."""
    a, c = hsh('pos', name)
    b, d = hsh('pos', name, 'i')
    u, v = pow(a, 8, P), pow(b, 8, P)
    c, d = powq((c, d), 16)
    return X(V((u + v)*HALF % P, (u - v)*inv(2*IU, P) % P, c, d))


def ispos(x):
    v = x.v
    u, w = (v.a + IU*v.b) % P, (v.a - IU*v.b) % P
    if pow(u, (P-1)//8, P) != 1 or pow(w, (P-1)//8, P) != 1:
        return False
    if v.b:
        return powq((v.c, v.d), QODD) == (1, 0)
    return pow(v.c, (Q-1)//2, Q) == 1


def find(make, *conds):
    """First of make(0), make(1).. for which all conditions are positive."""
    for i in range(10**6):
        x = make(i)
        if all(ispos(c(x)) for c in conds):
            return x
    raise AssertionError


def angle(name):
    """(cos, sin) of a generic angle with c*c + s*s = 1."""
    m = X(X.g.leaf(name))
    d = 1/(1 + m*m)
    return (1 - m*m)*d, 2*m*d


class At:
    """Named inputs with given value numbers."""

    def __init__(self, r):
        self.r = r

    def __call__(self, name, x, c):
        return self.r.w.num(name, c=c, vn=x.v)


# -------------------------------------------------------------- full space
def full(ctx, r):
    g, at = r.g, At(r)
    g.qr = True
    mu0, eps0 = next(iter(constants()))
    for mn, lap, above in (('frequency', False, False),
                           ('frequency', False, True),
                           ('Laplace', True, False)):
        pos = rpos if lap else cpos
        k = (mn, above)
        off, dz = rpos(('off', k)), rpos(('dz', k))
        if above:
            dz = -dz
        ct, st = angle(('ang', k))
        eH, zH = pos(('eH', k)), pos(('zH', k))
        eV = find(lambda i: pos(('eV', k, i)),
                  lambda v: off*off + dz*dz*eH/v)
        zV = find(lambda i: pos(('zV', k, i)),
                  lambda v: off*off + dz*dz*zH/v)
        L = dict(eH=eH, eV=eV, zH=zH, zV=zV)
        f = X(g.leaf(('freq', k)))
        s = f if lap else 2j*X(PI)*f
        res, an = X(g.leaf('res')), X(g.leaf('aniso'))
        sx, sy, sz = (X(g.leaf(q)) for q in ('sx', 'sy', 'sz'))
        x, y = off*ct, off*st
        src = [at('sx', sx, 10.), at('sy', sy, -20.), at('sz', sz, 250.)]
        rec = [at('rx', sx + x, 150.), at('ry', sy + y, 40.),
               at('rz', sz + dz, 300. if not above else -100.)]
        out = None
        for mu0, eps0 in constants():
            kw = dict(res=at('res', res, 2.), aniso=at('aniso', an, 1.3),
                      epermH=at('epermH', (eH - 1/res)/(s*eps0), 3.),
                      epermV=at('epermV', (eV - 1/(res*an*an))/(s*eps0), 4.),
                      mpermH=at('mpermH', zH/(s*mu0), 1.2),
                      mpermV=at('mpermV', zV/(s*mu0), 1.4),
                      freqtime=at('freq', -f if lap else f,
                                  -1. if lap else 1.))
            args = dict(src=r.L(*src), rec=r.L(*rec), verb=0, **kw)
            # the pair of constants the code uses
            v = r.call(FN, ab=33, **args)
            ref = fullspace(33, x, y, dz, L)
            if v.ok and same(r.fs(v.value)[0], ref.v):
                break
        for ab in ABS:
            if not ctx.mine():
                continue
            v = r.call(FN, ab=ab, **args)
            r.eq(f'fs:{mn}:{ab}', v, [fullspace(ab, x, y, dz, L).v],
                 f"analytical('fs', ab={ab}, {mn} domain) is not the field of "
                 'a dipole in a homogeneous full space', FN)
    g.qr = False


# -------------------------------------------------------------- half-space
class Wave:
    """C sigma**m exp(-sigma u) and its derivatives; sigma = sqrt(s)."""

    def __init__(self, C, u, m):
        self.C, self.u, self.m = C, u, m

    def d(self, i, f=1):
        C, u, m = self.C, self.u, self.m
        return {m: C.d[i]*f, m+1: -(u.d[i]*C.v)*f}

    def h(self, i, j, f=1):
        C, u, m = self.C, self.u, self.m
        return {m: C.h[i][j]*f, m+1: -(u.d[i]*C.d[j] + u.d[j]*C.d[i] +
                                       u.h[i][j]*C.v)*f,
                m+2: u.d[i]*u.d[j]*C.v*f}


def plus(*ds):
    out = {}
    for d in ds:
        for m, v in d.items():
            out[m] = out[m] + v if m in out else v
    return out


def shift(d, n, f):
    """f*sigma**n times d."""
    return {m+n: v*f for m, v in d.items()}


class Half:
    """Closed forms of the diffusive VTI half-space."""

    def __init__(self, x, y, zs, zr, above, rho, lam, mu):
        self.x, self.y, self.rho, self.lam, self.mu = x, y, rho, lam, mu
        self.dz, self.hp = zr - zs, zr + zs
        self.eV = 1/(rho*lam*lam)

    def waves(self, z, q, eta):
        """(S, Wx, Wy) as in spec.scalar."""
        x, y, z = Jet.var(self.x, 0), Jet.var(self.y, 1), Jet.var(z, 2)
        r2 = x*x + y*y
        R = (r2 + z*z*q).sqrt()
        g = (self.mu*eta).sqrt()
        c = 1/(4*X(PI)*q.sqrt())
        F = r2.inv()*(c/g)
        u = R*g
        return (Wave(R.inv()*c, u, 0), Wave(x*F, u, -1), Wave(y*F, u, -1),
                u.v)

    def tm(self, ab, z):
        S, Wx, Wy, u = self.waves(z, self.lam*self.lam, self.eV)
        i, j = ab//10-1, ab % 10-1
        e, mu = 1/self.eV, self.mu
        if ab == 33:
            f = -(1/self.rho*e*e)
            return plus(S.h(0, 0, f), S.h(1, 1, f)), u
        if i == 2 or j == 2:
            return S.h(min(i, j), 2, e), u
        W = (Wx, Wy)[i]
        return plus(shift(W.d(j), 2, mu), S.h(i, j, e)), u

    def te(self, ab, z, reflect):
        T, Wx, Wy, u = self.waves(z, X(1), 1/self.rho)
        if ab % 10 == 3 or ab//10 == 3:
            return {}, u
        i, j, s = {11: (1, 1, 1), 22: (0, 0, 1)}.get(ab, (0, 1, -1))
        t = shift((Wx, Wy)[i].d(j), 2, self.mu*s)
        if reflect:
            t = plus(t, T.h(i, j, 2*self.rho*s))
        return t, u

    def parts(self, ab, F):
        """direct TE, TM, reflected TE, TM with sigma**m exp -> F(m, u)."""
        sg = -1 if ab in (13, 23, 33) else 1
        out = []
        for (d, u), s in ((self.te(ab, self.dz, False), 1),
                          (self.tm(ab, self.dz), 1),
                          (self.te(ab, self.hp, True), 1),
                          (self.tm(ab, self.hp), sg)):
            v = X(0)
            for m in sorted(d):
                v = v + d[m]*F(m, u)*s
            out.append(v)
        return out

    def yy(self, ab, A):
        """-rho dd A: the component of the airwave."""
        if ab % 10 == 3 or ab//10 == 3:
            return X(0)
        i, j, s = {11: (1, 1, -1), 22: (0, 0, -1)}.get(ab, (0, 1, 1))
        return A.h[i][j]*self.rho*s

    def air(self, ab, s, real):
        x, y, h = Jet.var(self.x, 0), Jet.var(self.y, 1), self.hp
        R = (x*x + y*y + h*h).sqrt()
        a, b = (R + (-h))*X(.5), (R + h)*X(.5)
        gam = (s*self.mu/self.rho).sqrt()
        p, q = a*gam, b*gam
        g = X.g
        I0, I1 = (X(g.opq(('ive', str(n)), [p.v.v], 'f' if real else 'c'))
                  for n in (0, 1))
        K0, K1 = (X(g.opq(('kve', str(n)), [q.v.v], 'f' if real else 'c'))
                  for n in (0, 1))
        u, v = p.v, q.v
        jI0 = p.fn(I0, I1, I0 - I1/u)
        jI1 = p.fn(I1, I0 - I1/u, I1 - I0/u + 2*I1/(u*u))
        jK0 = q.fn(K0, -K1, K0 + K1/v)
        jK1 = q.fn(K1, -K0 - K1/v, K1 + K0/v + 2*K1/(v*v))
        re, im = parts(gam)
        E = (-(re*h)).exp()
        if not real:
            E = E*(-1j*parts(v)[1]).exp()
        A = (a*jI1*jK0 + b*jI0*jK1)*R.inv()*(gam/(2*X(PI)))
        return self.yy(ab, A)*E

    def airt(self, ab, t):
        """Impulse response of the airwave."""
        x, y, h = Jet.var(self.x, 0), Jet.var(self.y, 1), self.hp
        w = (x*x + y*y)*(self.mu/(8*self.rho*t))
        g = X.g
        I0, I1 = (X(g.opq(('ive', str(n)), [w.v.v], 'f')) for n in (0, 1))
        u = w.v
        e = w.fn(I0, I1 - I0, 2*I0 - 2*I1 - I1/u)
        f = self.mu*h/(2*self.rho*t)/(4*X(PI)*t)
        return self.yy(ab, e*(f*(-(self.mu*h*h/(4*self.rho*t))).exp()))


class AxisW:
    """Derivatives of W_k on the axis, where their angular parts cancel
    between the modes: what remains is the mean over the directions."""

    def __init__(self, k, c):
        self.k, self.c = k, c

    def d(self, i, f=1):
        return {0: self.c*f} if i == self.k else {}


class Axis(Half):
    """The same below or above the source: x = y = 0."""

    def waves(self, z, q, eta):
        v = z
        x, y, z = Jet.var(X(0), 0), Jet.var(X(0), 1), Jet.var(z, 2)
        R = (x*x + y*y + z*z*q).sqrt()
        g = (self.mu*eta).sqrt()
        c = 1/(4*X(PI)*q.sqrt())
        w = -(c/(2*q*(v*v*q).sqrt()))*q
        u = R*g
        return (Wave(R.inv()*c, u, 0), AxisW(0, w), AxisW(1, w), u.v)

    def air(self, ab, s, real):
        x, y, h = Jet.var(X(0), 0), Jet.var(X(0), 1), self.hp
        R = (x*x + y*y + h*h).sqrt()
        a, b = (R + (-h))*X(.5), (R + h)*X(.5)
        gam = (s*self.mu/self.rho).sqrt()
        p, q = a*gam, b*gam
        K0, K1 = (X(X.g.opq(('kve', str(n)), [q.v.v], 'f' if real else 'c'))
                  for n in (0, 1))
        v = q.v
        jI0 = p.fn(X(1), X(0), X(.5))
        jI1 = p.fn(X(0), X(.5), X(0))
        jK0 = q.fn(K0, -K1, K0 + K1/v)
        jK1 = q.fn(K1, -K0 - K1/v, K1 + K0/v + 2*K1/(v*v))
        re, im = parts(gam)
        E = (-(re*h)).exp()
        if not real:
            E = E*(-1j*parts(v)[1]).exp()
        A = (a*jI1*jK0 + b*jI0*jK1)*R.inv()*(gam/(2*X(PI)))
        return self.yy(ab, A)*E

    def airt(self, ab, t):
        x, y, h = Jet.var(X(0), 0), Jet.var(X(0), 1), self.hp
        w = (x*x + y*y)*(self.mu/(8*self.rho*t))
        e = w.fn(X(1), X(-1), X(1.5))
        f = self.mu*h/(2*self.rho*t)/(4*X(PI)*t)
        return self.yy(ab, e*(f*(-(self.mu*h*h/(4*self.rho*t))).exp()))


def parts(x):
    v = x.v
    return (X(V(v.a, 0, v.c, 0)), X(V(v.b, 0, v.d, 0)))


def stehfest(k, K=16):
    """Coefficients of Gaver and Stehfest."""
    f = math.factorial
    s = sum(Fr(n**(K//2)*f(2*n), f(n)*f(n-1)*f(k-n)*f(2*n-k)*f(K//2-n))
            for n in range((k+1)//2, min(k, K//2)+1))
    return s*(-1)**(k+K//2)


def exact(s):
    a, c = frac(s)
    return X(V(a, 0, c, 0, (0, s, Fr(0))))


def half(ctx, r, axis=False):
    g, at = r.g, At(r)
    g.qr = True
    mu = X(4e-7)*X(PI)
    for above in (False, True):
        if axis:
            r.call('empymod.utils.set_minimum', min_off=0.)
        o = X(0) if axis else rpos(('hoff', above))
        dist = lambda v: o*o + v*v
        hp = find(lambda i: rpos(('hp', above, i)), dist)
        hm = find(lambda i: rpos(('hm', above, i)), dist)
        lam = find(lambda i: rpos(('lam', above, i)),
                   lambda v: dist(hp*v), lambda v: dist(hm*v))
        rho = rpos(('rho', above))
        zs, zr = (hp - hm)/2, (hp + hm)/2
        if above:
            zs, zr = zr, zs
        ct, st = angle(('hang', above))
        x, y = o*ct, o*st
        sx, sy = X(g.leaf('sx')), X(g.leaf('sy'))
        H = (Axis if axis else Half)(x, y, zs, zr, above, rho, lam, mu)
        cz = (100., 300.) if not above else (300., 100.)
        geo = dict(src=r.L(at('sx', sx, 10.), at('sy', sy, -20.),
                           at('zs', zs, cz[0])),
                   rec=r.L(at('rx', sx + x, 10. if axis else 150.),
                           at('ry', sy + y, -20. if axis else 40.),
                           at('zr', zr, cz[1])),
                   res=at('rho', rho, 2.), aniso=at('lam', lam, 1.3),
                   epermH=r.N('epermH', 80.), epermV=r.N('epermV', 20.),
                   mpermH=r.N('mpermH', 3.), verb=0)
        for dom in ('frequency', 'Laplace', 0, 1, -1):
            if dom in ('frequency', 'Laplace'):
                lap = dom == 'Laplace'
                s = (rpos if lap else cpos)(('s', above))
                ft = at('freq', -s, -1.) if lap else at(
                    'freq', s/(2j*X(PI)), 1.)
                kw = dict(freqtime=ft)
                sg = s.sqrt()

                def F(m, u):
                    return pw(sg, m)*(-(sg*u)).exp()

                def air(ab):
                    return H.air(ab, s, lap)
            else:
                t = rpos(('t', above))
                kw = dict(freqtime=at('t', t, 1.), signal=dom)
            for ab in PAIRS:
                if not ctx.mine():
                    continue
                if dom in ('frequency', 'Laplace'):
                    ref = H.parts(ab, F) + [air(ab)]
                elif dom == 0:
                    ref = H.parts(ab, lambda m, u: impulse(m, u, t)) + [
                        H.airt(ab, t)]
                elif dom == 1:
                    # exact or rounded coefficients
                    v = r.call(FN, solution='dhs', ab=ab, **geo, **kw)
                    for coef in (lambda q: X(float(q)), exact):
                        ref = step(H, ab, t, coef)
                        if v.ok and same(r.fs(v.value)[0],
                                         sum(ref[1:], ref[0]).v):
                            break
                else:
                    # difference to the switch-on response at 1e4 s
                    o = [r.call(FN, solution='dtetm', ab=ab, signal=1,
                                freqtime=q, **geo)
                         for q in (1e4, kw['freqtime'])]
                    if not (o[0].ok and o[1].ok):
                        ctx.undec(f'switch-on {ab}')
                        continue
                    ref = [X(p) - X(q) for p, q in
                           zip(*(r.fs(q.value) for q in o))]
                a, b, c, d, e = ref
                want = dict(dtetm=ref, dsplit=[a + b, c + d, e],
                            dhs=[a + b + c + d + e], dfs=[a + b])
                for sol in SOL:
                    if axis and sol == 'dtetm':
                        continue    # only the sum of the modes is unique
                    v = r.call(FN, solution=sol, ab=ab, **geo, **kw)
                    r.eq(f'{sol}:{dom}:{ab}'+':axis'*axis, v,
                         [w.v for w in want[sol]],
                         f"analytical('{sol}', ab={ab}, "
                         f'{dom if isinstance(dom, str) else ""}'
                         f'{"signal=%d" % dom if dom in (0, 1, -1) else ""}'
                         ') is not the closed form of the half-space'
                         + ' on the axis'*axis, FN)
    if axis:
        r.call('empymod.utils.set_minimum', min_off=1e-3)
    g.qr = False


def pw(x, m):
    if m < 0:
        return 1/pw(x, -m)
    r = X(1)
    for _ in range(m):
        r = r*x
    return r


def impulse(m, u, t):
    T = u/2
    tau = T*T
    F0 = (tau/(X(PI)*t*t*t)).sqrt()*(-(tau/t)).exp()
    return [F0, (tau/t - X(.5))/T*F0, (tau/t - X(1.5))/t*F0][m]


def step(H, ab, t, coef):
    def F(m, u):
        T = u/2
        if m == 0:
            return X(X.g.opq(('fn', 'erfc'), [(T*T/t).sqrt().v]))
        F1 = (-(T*T/t)).exp()/(X(PI)*t).sqrt()
        return F1 if m == 1 else F1*T/t

    out = H.parts(ab, F)
    air = X(0)
    if ab not in (13, 23, 31, 32, 33):
        for k in range(1, 17):
            s = X(k*math.log(2))/t
            air = air + coef(stehfest(k))*H.air(ab, s, True)/k
    return out + [air]


# ------------------------------------------------------------------ layout
def survey(ctx, r):
    N = r.N
    S = [[N('sx', 10.), N('sy', -20.), N('sz', 250.)],
         [N('sx2', 30.), N('sy2', -40.), N('sz', 250.)]]
    R = [[N('rx', 150.), N('ry', 40.), N('rz', 300.)],
         [N('rx2', -150.), N('ry2', 240.), N('rz', 300.)],
         [N('rx3', 350.), N('ry3', 140.), N('rz', 300.)]]
    T = [N('t1', 1.), N('t2', 3.)]
    kw = dict(res=N('res', 2.), aniso=N('aniso', 1.3), verb=0)
    for sol, sig in [('fs', None)] + [(s, q) for s in SOL
                                      for q in (None, 0, 1, -1)]:
        for ab in (11, 12, 33, 31) + ((42, 45, 15) if sol == 'fs' else ()):
            for ns, nr in ((1, 3), (2, 1), (2, 2)):
                if not ctx.mine():
                    continue
                o = dict(solution=sol, ab=ab, **kw)
                if sig is not None:
                    o['signal'] = sig
                v = r.call(FN, src=r.L(*[r.w.arr([p[i] for p in S[:ns]])
                                      for i in range(2)], S[0][2]),
                           rec=r.L(*[r.w.arr([p[i] for p in R[:nr]])
                                     for i in range(2)], R[0][2]),
                           freqtime=r.w.arr(T), squeeze=False, **o)
                n = dict(dsplit=3, dtetm=5).get(sol, 1)
                want = [[] for _ in range(n)]
                bad = None
                for t in T:
                    for j in range(nr):
                        for i in range(ns):
                            q = r.call(FN, src=r.L(*S[i]), rec=r.L(*R[j]),
                                       freqtime=t, **o)
                            bad = bad or (q if not q.ok else None)
                            if q.ok:
                                for k, c in enumerate(r.fs(q.value)):
                                    want[k].append(c)
                if bad:
                    ctx.undec(f'single {sol} {ab} {sig}: '
                              f'{exc_name(bad.exc)}')
                    continue
                r.eq(f'survey:{sol}:{sig}:{ab}:{ns}x{nr}', v,
                     sum(want, []), f"analytical('{sol}', ab={ab}, signal="
                     f'{sig}): entries for {ns} sources and {nr} receivers '
                     'are not the single responses', FN)
