"""Every Hankel transform evaluates the same wavenumber integral.

The kernels J0, J1, J0b returned by kernel.wavenumber are recorded in the
abstract run.  For each method the value number of the field is compared with
that of its discretisation of

   int  J0 J0(lr) + f(angle) (J0b J0(lr) + J1 J1(lr) [/r])  dl

(digital filters: standard, lagged, splined; quadrature with extrapolation;
adaptive quadrature), where [/r] applies to the components with J2.
"""
from ..rel import *
from ..spec import X
import numpy as np

LEVEL = 'other'
ASSUME = ['cubic splines are linear in the data (weights uninterpreted)',
          'quadrature routines: value = weight * integrand at a point of the '
          'interval']
J2 = (11, 12, 21, 22, 14, 24, 15, 25)
W = 'empymod.transform.'


class Recorder:
    def __init__(self, r):
        self.r = r
        self.ker, self.pts, self.qwe, self.ang, self.quad = [], [], [], [], []
        r.eng.ret_hook = self.ret
        r.eng.call_hook = self.called

    def clear(self):
        for q in (self.ker, self.pts, self.qwe, self.ang, self.quad):
            del q[:]

    def ret(self, eng, f, v, val):
        m = (f.module.name, f.name)
        a = [v.get(p.arg) for p in f.node.args.args] if hasattr(
            f.node, 'args') else []
        if m == ('empymod.kernel', 'wavenumber') and len(a) > 10:
            self.ker.append((eng.arr_of(a[9]), [
                None if q is None else eng.arr_of(q) for q in val.items],
                a[10]))
        elif m == ('empymod.transform', 'get_dlf_points'):
            self.pts.append([eng.arr_of(q) for q in val.items])
        elif m == ('empymod.kernel', 'angle_factor'):
            self.ang.append(eng.arr_of(val))

    def called(self, eng, f, args, kw):
        if (f.module.name, f.name) == ('empymod.transform', 'qwe') and \
                not kw and len(args) > 4:
            self.qwe.append(args)
        if (f.module.name, f.name) == ('empymod.transform', 'quad') and \
                not kw and len(args) > 9 and isinstance(args[9], DictV):
            self.quad.append((args[9].items.get('a'),
                              args[9].items.get('b')))
        return None


def check(ctx):
    ctx.rule('field = discretised integral of the kernels, same assembly for '
             'every method')
    r = Rel(ctx)
    X.g = r.g
    rec = Recorder(r)
    m = dict(depth=r.depth(3), res=r.L(*[r.N(f'res{i}', c) for i, c in
                                         enumerate((20., .3, 1.))]))
    geos = [('one receiver', 1, False), ('receivers in line', 3, True),
            ('receivers at several angles', 3, False)]
    for gn, n, line in geos:
        for ht, over in (('dlf', {}), ('dlf', dict(pts_per_dec=-1)),
                         ('dlf', dict(pts_per_dec=1)), ('qwe', {}),
                         ('qwe', dict(pts_per_dec=1, diff_quad=1e300)),
                         ('qwe', dict(pts_per_dec=1, diff_quad=-1.)),
                         ('quad', {})):
            for nf in (1, 2) if ht == 'dlf' and (
                    n == 1 or not ctx.quick) else (1,):
                for ab in ABS:
                    for lap in (False, True):
                        if lap and (ctx.quick and (ab+n) % 3 or nf == 2):
                            continue
                        if ctx.quick and n == 1 and ht == 'dlf' and \
                                over and ab % 2:
                            continue
                        if ctx.mine():
                            case(ctx, r, rec, m, ab, ht, over, gn, n, line,
                                 nf, lap)
    r.eng.ret_hook = r.eng.call_hook = None
    qwe(ctx, r)
    r.done()


def case(ctx, r, rec, m, ab, ht, over, gn, n, line, nf, lap):
    N = r.N
    rx = [N(f'rx{i}', 150. + 80*i) for i in range(n)]
    ry = [0. if line else N(f'ry{i}', 40. + 5*i*i) for i in range(n)]
    sy = 0. if line else N('sy', -20.)
    sx = 0. if line else N('sx', 10.)
    var = ':'.join(f'{k}={v}' for k, v in over.items())
    key = f'{ht}:{var}:{gn}:{ab}:{nf}:{lap}'
    what = (f'{ht}({var}), ab={ab}, {gn}, {nf} frequencies'
            f'{", Laplace" if lap else ""}')
    fr = [N(f'freq{i}', (1. + i)*(-1 if lap else 1)) for i in range(nf)]
    rec.clear()
    kw = ht_kw(ht, **over)
    res = r.call('empymod.model.dipole', src=r.L(sx, sy, N('sz', 250.)),
                 rec=r.L(r.w.arr(rx) if n > 1 else rx[0], r.w.arr(ry)
                         if n > 1 else ry[0], N('rz', 300.)),
                 freqtime=r.w.arr(fr), ab=ab, verb=0, squeeze=False, **m,
                 **kw)
    where = f'{W}hankel_{ht}'
    if not res.ok:
        if res.dead or getattr(res.exc, 'imprecise', False):
            ctx.undec(f'{key}: {exc_name(res.exc)}')
        else:
            ctx.violation(key, f'{what}: raises {exc_name(res.exc)}', where)
        return
    val = res.value
    if not isinstance(val, Arr) or val.a is None or val.a.shape != (nf, n, 1):
        ctx.undec(f'{key}: shape')
        return
    got = [[r.f(val.a[i, j, 0]) for j in range(n)] for i in range(nf)]
    if ab in (36, 63):
        r.eq(key, [q for p in got for q in p], [r.f(0.)]*(n*nf),
             f'{what}: not zero', where)
        return
    if not rec.ker or len(rec.ang) != 1 or rec.ang[0].a is None:
        ctx.undec(f'{key}: kernel not called as expected')
        return
    off = [X(r.f(r.eng.sun('sqrt', r.add(
        r.mul(r.sub(x, sx), r.sub(x, sx)),
        r.mul(r.sub(y, sy), r.sub(y, sy)))))) for x, y in zip(rx, ry)]
    ang = [X(r.f(q)) for q in np.broadcast_to(rec.ang[0].a.ravel(), (n,))]
    # the component as calculated (source and receiver may be exchanged)
    abc = {int(r.eng.lift(k[2]).c) for k in rec.ker}
    if len(abc) != 1:
        ctx.undec(f'{key}: ab')
        return
    P = Problem(r, rec, off, ang, abc.pop(), n, nf, kw, key, what, where)
    fn = dict(dlf=P.dlf, quad=P.quad, qwe=P.qwe)[ht]
    try:
        ref = fn()
    except Skip as e:
        ctx.undec(f'{key}: {e}')
        return
    if ref is not None:
        r.eq(key, [q for p in got for q in p], [q.v for p in ref for q in p],
             f'{what}: the field is not the transform of the kernels', where)


class Skip(Exception):
    pass


class Problem:
    def __init__(self, r, rec, off, ang, ab, n, nf, kw, key, what, where):
        (self.r, self.rec, self.off, self.ang, self.ab, self.n, self.nf,
         self.key, self.what, self.where) = (r, rec, off, ang, ab, n, nf, key,
                                             what, where)
        self.kw = kw['htarg'].items

    def J(self, n, x):
        return X(self.r.g.fn(f'j{n}', [x.v], [self.r.eng.mk('f')]))

    def total(self, i, j0, j1, j0b, r0):
        """Sum of the parts for offset number i (r0: divisor of J2)."""
        out = X(0)
        if j1 is not None:
            out = j1/r0 if self.ab in J2 else j1
        if j0b is not None:
            out = out + j0b
        out = out*self.ang[i]
        if j0 is not None:
            out = out + j0
        return out

    def kernels(self, k=0, dims=3):
        lam, P, _ = self.rec.ker[k]
        if lam.a is None or any(p is not None and p.a is None for p in P):
            raise Skip('kernel shape')
        return lam.a, [None if p is None else p.a for p in P]

    def cell(self, a, i, k, j):
        if a is None:
            return None
        if a.ndim != 3:
            raise Skip('kernel dimensions')
        return X(self.r.f(a[i, min(k, a.shape[1]-1), j]))

    def spline(self, grid, vals, x):
        """Interpolated (grid, vals in logarithmic abscissa) at x."""
        g = self.r.g
        lg = [g.un('log', q.v, self.r.eng.mk('f')) for q in grid]
        xx = g.un('log', x.v, self.r.eng.mk('f'))
        return X(g.lin('spline', [xx] + lg, [v.v for v in vals], 0, 'f'))

    # -- digital filters
    def filter(self):
        f = self.r.w.call('empymod.filters.Hankel').value
        f = self.r.eng.getattr(f, 'key_201_2009')
        g = [[X(self.r.f(c)) for c in cells(self.r.eng.getattr(f, q))]
             for q in ('base', 'j0', 'j1')]
        return g

    def dlf(self):
        nk = len(self.rec.ker)
        if nk not in (1, self.nf):
            raise Skip('several kernel calls')
        b, w0, w1 = self.filter()
        nb, ppd = len(b), self.kw['pts_per_dec']
        out = []
        for i in range(self.nf):
            lam, P = self.kernels(i if nk > 1 else 0)
            row = self.row(lam, P, 0 if nk > 1 else i, b, w0, w1, nb, ppd)
            if row is None:
                return None
            out.append(row)
        return out

    def row(self, lam, P, i, b, w0, w1, nb, ppd):
        r, n = self.r, self.n
        row = []
        if ppd == 0:
            for k in range(n):
                for j in range(nb):
                    if r.eq(self.key, [r.f(lam[k, j])],
                            [(b[j]/self.off[k]).v],
                            f'{self.what}: wavenumbers are not base/'
                            'offset', self.where) is False:
                        return None
                v = [None if p is None else sum(
                    (self.cell(p, i, k, j)*w[j] for j in range(nb)),
                    X(0)) for p, w in zip(P, (w0, w1, w0))]
                row.append(self.total(k, *v, self.off[k])/self.off[k])
        elif ppd > 0:
            grid = [X(r.f(q)) for q in lam[0]]
            for k in range(n):
                v = [None if p is None else sum((self.spline(
                    grid, [self.cell(p, i, 0, q) for q in range(
                        len(grid))], b[j]/self.off[k])*w[j]
                    for j in range(nb)), X(0)) for p, w in zip(
                        P, (w0, w1, w0))]
                row.append(self.total(k, *v, self.off[k])/self.off[k])
        else:
            if not self.rec.pts or self.rec.pts[0][1].a is None:
                raise Skip('interpolation points')
            ip = [X(r.f(q)) for q in self.rec.pts[0][1].a.ravel()]
            if lam.shape[1] < len(ip) + nb - 1:
                raise Skip('lagged grid')
            ip = ip[::-1]
            for k in range(n):
                vals = []
                for q in range(len(ip)):
                    s = len(ip) - 1 - q
                    v = [None if p is None else sum((self.cell(
                        p, i, 0, s+j)*w[j] for j in range(nb)), X(0))
                        for p, w in zip(P, (w0, w1, w0))]
                    vals.append(self.total(k, *v, ip[q]))
                row.append(self.spline(ip, vals, self.off[k])/self.off[k])
        return row

    # -- quadratures
    def splined(self):
        lam, P = self.kernels()
        grid = [X(self.r.f(q)) for q in lam[0]]

        def at(x):
            return [None if p is None else self.spline(grid, [self.cell(
                p, 0, 0, q) for q in range(len(grid))], x) for p in P]
        return at

    def integrand(self, at, k, x):
        """Integrand for offset k at wavenumber x."""
        j0, j1, j0b = at(x)
        z = x*self.off[k]
        b0, b1 = self.J(0, z), self.J(1, z)
        return self.total(k, *[None if p is None else p*b for p, b in zip(
            (j0, j1, j0b), (b0, b1, b0))], self.off[k])

    def adaptive(self, a, b):
        r = self.r
        a, b = [r.eng.summ(r.eng.arr_of(q)) for q in (a, b)]
        pt = X(r.f(r.eng.sfn('between', [a, b], 'f')))
        return pt, X(r.g.opq('quadw', [pt.v]))

    def quad(self):
        at, out = self.splined(), []
        for k in range(self.n):
            # default limits (or the given ones) are those of the grid
            a = self.kw.get('a', 1e-6)
            b = self.kw.get('b', .1)
            pt, w = self.adaptive(a, b)
            out.append(self.integrand(at, k, pt)*w)
        return [out]

    def qwe(self):
        r = self.r
        if 'diff_quad' in self.kw and self.kw['diff_quad'] < 0:
            return self.viaquad()
        if len(self.rec.qwe) != 1:
            raise Skip('qwe not called once')
        a = self.rec.qwe[0]
        inp, iv = a[3], r.eng.arr_of(a[4])
        spl = self.kw['pts_per_dec'] != 0
        if iv.a is None or iv.a.shape[0] != self.n:
            raise Skip('intervals')
        nq = self.kw['nquad']
        gx = [X(r.g.gauss(0, nq, i)) for i in range(nq)]
        gw = [X(r.g.gauss(1, nq, i)) for i in range(nq)]
        ni = iv.a.shape[1] - 1
        at = self.splined() if spl else None
        for i in range(ni):
            if spl:
                A = r.eng.arr_of(inp)
                if A.a is None:
                    raise Skip('kernel of qwe')
                got = [r.f(A.a[k, i]) for k in range(self.n)]
            else:
                del self.rec.ker[:]
                v = r.w.call(inp, i, a[5], a[6], a[7])
                if not v.ok or not self.rec.ker:
                    raise Skip('kernel of qwe: ' + exc_name(v.exc))
                got = r.fs(v.value)
                lam, P = self.kernels()
            ref = []
            for k in range(self.n):
                x0, x1 = X(r.f(iv.a[k, i])), X(r.f(iv.a[k, i+1]))
                tot = X(0)
                for q in range(nq):
                    x = (x1 - x0)/2*(gx[q] + 1) + x0
                    if spl:
                        t = self.integrand(at, k, x)
                    else:
                        if r.eq(self.key, [r.f(lam[k, q])], [x.v],
                                f'{self.what}: the wavenumbers are not the '
                                'quadrature points of the interval',
                                self.where) is False:
                            return None
                        t = self.integrand(lambda x: [self.cell(
                            p, 0, k, q) for p in P], k, x)
                    tot = tot + t*gw[q]
                ref.append(tot.v)
            if r.eq(f'{self.key}:{i}', got, ref, f'{self.what}: interval {i} '
                    'is not the quadrature of the kernels', self.where) is \
                    False:
                return None
        return None

    def viaquad(self):
        at, out = self.splined(), []
        if len(self.rec.quad) != self.n:
            raise Skip('limits of the quadrature')
        for k, (a, b) in enumerate(self.rec.quad):
            pt, w = self.adaptive(a, b)
            out.append(self.integrand(at, k, pt)*w)
        return [out]


def qwe(ctx, r):
    """The extrapolation is the epsilon algorithm on the partial sums."""
    for name, c in (('convergent', (1., .3, .1, .03, .01)),
                    ('alternating', (1., -.5, .3, -.2, .14)),
                    ('divergent', (1., 2., 5., 1., 7.))):
        for n in (3, 4, 5):
            for rt in (1e-12, .2, 3.):
                if not ctx.mine():
                    continue
                leaf = [r.N(f'{name}{i}', c[i]) for i in range(n)]
                iv = [r.N(f'x{i}', float(i+1)) for i in range(n+1)]
                res = r.call(
                    'empymod.transform.qwe', rt, 0., n,
                    Arr(oarr(leaf, (1, n)), 'f'), Arr(oarr(iv, (1, n+1)),
                                                      'f'))
                key = f'extrapolation:{name}:{n}:{rt}'
                if not res.ok:
                    ctx.undec(f'{key}: {exc_name(res.exc)}')
                    continue
                fl = [(X(r.f(q)), v) for q, v in zip(leaf, c)]
                t = []
                for i, (q, v) in enumerate(fl):
                    t.append((q*(X(r.f(iv[i+1])) - X(r.f(iv[i])))/2, v/2))
                ref = wynn(t, rt)
                r.eq(key, res.value.items[0], [ref.v],
                     f'qwe ({name} series of {n} intervals, rtol={rt}) is '
                     'not the epsilon algorithm on the partial sums',
                     'empymod.transform.qwe')


def wynn(t, rt):
    """Epsilon algorithm; terms are pairs (value number, number)."""
    def add(a, b):
        return a[0] + b[0], a[1] + b[1]

    def sub(a, b):
        return a[0] - b[0], a[1] - b[1]

    def inv(a):
        return X(1)/a[0], 1/a[1]
    zero = (X(0), 0.)
    S, ext = [zero], []
    for i in range(1, len(t)):
        S.append(add(S[i-1], t[i]))
        aux2 = zero
        for k in range(i, 0, -1):
            aux1, aux2 = aux2, S[k-1]
            S[k-1] = add(aux1, inv(sub(S[k], aux2)))
        ext.append(add(S[i % 2], t[0]))
        if i > 1 and abs((ext[-1][1] - ext[-2][1])/ext[-1][1]) < rt:
            break
    return ext[-1][0]
