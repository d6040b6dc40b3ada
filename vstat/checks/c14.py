"""Every Fourier transform evaluates the documented discrete transform.

For symbolic spectra the value number of the transient is compared with that
of the discretised integral of the method: filter sums (standard, lagged,
splined), quadrature per interval plus extrapolation, adaptive quadrature, the
logarithmic FFT with the coefficients U_mu(q + 2 pi i m/L), and the FFT of the
Hermitian spectrum.
"""
from ..rel import *
from ..spec import X
from .. import npmodel
import itertools
import math

LEVEL = 'other'
ASSUME = ['cubic splines and FFTs are linear in the data (weights '
          'uninterpreted)',
          'quadrature routines: value = weight * integrand at a point of the '
          'interval']
PI = math.pi


class Skip(Exception):
    pass


def check(ctx):
    ctx.rule('transient = discretised Fourier integral of the method')
    r = Rel(ctx)
    X.g = r.g
    rec = Rec(r)
    r.g.explog = {}
    cases = [('dlf', {}), ('dlf', dict(pts_per_dec=-1)),
             ('dlf', dict(pts_per_dec=1)),
             ('qwe', dict(diff_quad=BIG, maxint=3)),
             ('qwe', dict(diff_quad=BIG, maxint=4, nquad=3)),
             ('fft', {}), ('fft', dict(pts_per_dec=1)),
             ('fft', dict(nfreq=4)), ('fft', dict(nfreq=3, ntot=8))]
    cases += [('fftlog', dict(pts_per_dec=p, q=q, add_dec=[0, 0]))
              for p in (4, 5, 6, 7) for q in (0, .3, -.7, 1, -1)]
    for ft, over in cases:
        for sig in (0, 1, -1):
            for nt in (1, 2, 3) if ft != 'fftlog' else (2,):
                masks = [None]
                if ft == 'qwe':  # which times are done with QWE, not QUAD
                    masks = list(itertools.product((True, False), repeat=nt))
                for mask in masks:
                    if not ctx.mine():
                        continue
                    try:
                        case(ctx, r, rec, ft, over, sig, nt, mask)
                    except Skip as e:
                        ctx.undec(f'{ft}:{over}:{sig}:{nt}:{mask}: {e}')
    rec.stop()
    r.done()


class Rec:
    def __init__(self, r):
        self.r, self.qwe, self.pts, self.quad, self.ifft = r, [], [], [], []
        self.qret = []
        r.eng.call_hook, r.eng.ret_hook = self.called, self.ret
        self.decide = Decide(r.eng)
        self.old = {}
        for n in ('scipy.integrate.quad', 'scipy.fftpack.ifft',
                  'scipy.fft.ifft', 'numpy.fft.ifft'):
            self.old[n] = npmodel.INTR[n]
            npmodel.INTR[n] = self.wrap(n, npmodel.INTR[n])

    def wrap(self, n, f):
        def g(eng, a, kw):
            o = f(eng, a, kw)
            (self.quad if n.endswith('quad') else self.ifft).append((a, kw,
                                                                     o))
            return o
        return g

    def stop(self):
        self.decide.stop()
        npmodel.INTR.update(self.old)
        self.r.eng.call_hook = self.r.eng.ret_hook = None

    def clear(self):
        for q in (self.qwe, self.qret, self.pts, self.quad, self.ifft):
            del q[:]
        self.decide.num = 0

    def ret(self, eng, f, v, val):
        if (f.module.name, f.name) == ('empymod.transform',
                                       'get_dlf_points'):
            self.pts.append([eng.arr_of(q) for q in val.items])
        if (f.module.name, f.name) == ('empymod.transform', 'qwe'):
            self.qret.append(eng.arr_of(val.items[0]))

    def called(self, eng, f, args, kw):
        if (f.module.name, f.name) == ('empymod.transform', 'qwe') and \
                not kw and len(args) > 4:
            self.qwe.append(args)
        return None


def case(ctx, r, rec, ft, over, sig, nt, mask=None):
    where = f'empymod.transform.fourier_{ft}'
    tl = [r.N(f't{i}', c) for i, c in zip(range(nt), (1., 30., 40.))]
    time = r.w.arr(tl)
    kw = ft_kw(ft, **over)
    rec.decide.set(mask, over.get('maxint', 1))
    key = f'{ft}:' + ':'.join(f'{k}={v}' for k, v in over.items()) + \
        f':{sig}:{nt}'
    what = f'{ft}({over}), signal={sig}, {nt} times'
    if mask:
        key += ':' + ''.join('FT'[m] for m in mask)
        what += f', QWE (not QUAD): {mask}'
    o = r.call('empymod.utils.check_time', time, sig, kw['ft'], kw['ftarg'],
               0, new=True)
    if not o.ok:
        raise Skip(exc_name(o.exc))
    a = o.value.items
    args = dict(kw['ftarg'].items)
    args['_'] = dict(a[3].items)
    F = r.eng.arr_of(a[1])
    if F.a is None:
        raise Skip('frequencies')
    fr = [X(r.f(c)) for c in F.a.ravel()]
    rec.clear()
    sp = [r.add(r.N(f're{i}', 3.+i), r.mul(1j, r.N(f'im{i}', -2.-.3*i)))
          for i in range(len(fr))]
    res = r.call('empymod.model.tem', Arr(oarr(sp, (len(sp), 1)), 'c'),
                 r.w.arr([1.]), a[1], a[0], sig, a[2], a[3])
    if not res.ok:
        raise Skip(exc_name(res.exc))
    E = [X(r.f(q)) for q in sp]
    if sig:
        E = [e*sig/(X(2j)*PI*f) for e, f in zip(E, fr)]
    use = 'cos' if sig < 0 else 'sin'
    P = Prob(r, rec, E, fr, [X(r.f(t)) for t in tl], use, args, key, what,
             where)
    ref = getattr(P, ft)(res)
    if ref is not None:
        r.eq(key, res.value.items[0], [(q*2/PI).v for q in ref],
             f'{what}: the transient is not the documented transform', where)


class Prob:
    def __init__(self, r, rec, E, fr, t, use, args, key, what, where):
        (self.r, self.rec, self.E, self.fr, self.t, self.use, self.args,
         self.key, self.what, self.where) = (r, rec, E, fr, t, use, args, key,
                                             what, where)
        self.K = r.eng.mk('f')

    def part(self, x):
        g = self.r.g
        if self.use == 'sin':
            return -X(g.un('imag', x.v, None))
        return X(g.un('real', x.v, None))

    def fn(self, n, x):
        return X(self.r.g.un(n, x.v, self.K))

    def spline(self, grid, vals, x, log=True):
        lg = [self.fn('log', q) if log else q for q in [x] + grid]
        return X(self.r.g.lin('spline', [q.v for q in lg],
                              [v.v for v in vals], 0, 'f'))

    def sc(self, x):
        c, s = self.r.g.cs(x.v)
        return X(s if self.use == 'sin' else c)

    def filt(self):
        f = self.r.w.call('empymod.filters.Fourier').value
        f = self.r.eng.getattr(f, 'key_201_2012')
        return [[X(self.r.f(c)) for c in cells(self.r.eng.getattr(f, n))]
                for n in ('base', self.use)]

    # ------------------------------------------------------------ filters
    def dlf(self, res):
        b, w = self.filt()
        nb, ppd = len(b), self.args['pts_per_dec']
        v = [self.part(e) for e in self.E]
        om = [f*2*PI for f in self.fr]
        out = []
        if ppd == 0:
            for i, t in enumerate(self.t):
                for j in range(nb):
                    if self.r.eq(self.key, [om[i*nb+j].v], [(b[j]/t).v],
                                 f'{self.what}: the frequencies are not '
                                 'base/time', self.where) is False:
                        return None
                out.append(sum((v[i*nb+j]*w[j] for j in range(nb)), X(0))/t)
        elif ppd > 0:
            for t in self.t:
                out.append(sum((self.spline(om, v, b[j]/t)*w[j]
                                for j in range(nb)), X(0))/t)
        else:
            if not self.rec.pts or self.rec.pts[-1][1].a is None:
                raise Skip('interpolation points')
            ip = [X(self.r.f(q)) for q in self.rec.pts[-1][1].a.ravel()]
            n = len(ip)
            if len(om) < n + nb - 1:
                raise Skip('lagged grid')
            G = [sum((v[k+j]*w[j] for j in range(nb)), X(0))
                 for k in range(n)]
            out = [self.spline(ip[::-1], G[::-1], t)/t for t in self.t]
        return out

    # --------------------------------------------------------- quadrature
    def integrand(self, x, xt):
        om = [f*2*PI for f in self.fr]
        v = self.spline(om, [self.part(e) for e in self.E], x)
        return v*self.sc(xt)

    def zero(self, i):
        if i == 0:
            return 1e-20
        return i*PI - (PI/2 if self.use == 'cos' else 0)

    def qwe(self, res):
        r, rec = self.r, self.rec
        tq = [t for t, m in zip(self.t, rec.decide.mask) if m]
        tn = [t for t, m in zip(self.t, rec.decide.mask) if not m]
        if len(rec.quad) != len(tn):
            raise Skip('quadrature calls')
        out = [None]*len(self.t)
        for t, (a, kw, o) in zip(tn, rec.quad):
            lo, hi = [r.eng.summ(r.eng.arr_of(q)) for q in (
                npmodel.arg(a, kw, 1, 'a'), npmodel.arg(a, kw, 2, 'b'))]
            for q, z, n in ((lo, 0, 'lower'), (hi, -1, 'upper')):
                ref = X(self.zero(z if z == 0 else self.args['maxint']))/t
                if r.eq(f'{self.key}:{n}', [r.f(q)], [ref.v], f'{self.what}: '
                        f'{n} limit of the adaptive quadrature',
                        self.where) is False:
                    return None
            pt = X(r.f(r.eng.sfn('between', [lo, hi], 'f')))
            out[self.t.index(t)] = self.integrand(pt, pt*t) * \
                X(r.g.opq('quadw', [pt.v]))
        if not tq:
            return out
        if len(rec.qwe) != 1:
            raise Skip('qwe not called once')
        a = rec.qwe[0]
        inp, iv = r.eng.arr_of(a[3]), r.eng.arr_of(a[4])
        if inp.a is None or iv.a is None or len(iv.a) != len(tq):
            raise Skip('input of qwe')
        nq = self.args['nquad']
        gx = [X(r.g.gauss(0, nq, i)) for i in range(nq)]
        gw = [X(r.g.gauss(1, nq, i)) for i in range(nq)]
        for k, t in enumerate(tq):
            for i in range(iv.a.shape[1] - 1):
                # xi = omega t between the zeros of sine or cosine
                x0, x1 = self.zero(i), self.zero(i+1)
                tot = X(0)
                for q in range(nq):
                    x = (gx[q] + 1)*((x1 - x0)/2) + x0
                    tot = tot + self.integrand(x/t, x)*gw[q]
                if r.eq(f'{self.key}:{i}', [r.f(inp.a[k, i])], [tot.v],
                        f'{self.what}: interval {i} is not the quadrature of '
                        'the spectrum', self.where) is False:
                    return None
            # the intervals end at the zeros of sine or cosine
            for i in range(iv.a.shape[1]):
                if r.eq(f'{self.key}:ends', [r.f(iv.a[k, i])],
                        [(X(self.zero(i))/t).v], f'{self.what}: the intervals '
                        'do not end at the zeros of the oscillating function',
                        self.where) is False:
                    return None
        got = rec.qret[-1]
        if len(rec.qret) != 1 or got.a is None or len(got.a) != len(tq):
            raise Skip('output of qwe')
        for t, c in zip(tq, got.a):
            out[self.t.index(t)] = X(r.f(c))
        return out

    # ------------------------------------------------------------- fftlog
    def fftlog(self, res):
        r, g, X_ = self.r, self.r.g, X
        n = len(self.fr)
        mu = .5 if self.use == 'sin' else -.5
        q = float(self.args['q'])
        tc = [X(r.f(c)) for c in cells(self.args['_']['tcalc'])]
        dl, kr, rk = [X(r.f(self.args['_'][k]))
                      for k in ('dlnr', 'kr', 'rk')]
        om = [f*2*PI for f in self.fr]
        if len(tc) != n or n < 2:
            raise Skip('size of the grids')
        rel = [('the times are not the reciprocal grid kr/omega',
                [om[j]*tc[n-1-j] for j in range(n)], [kr]*n),
               ('the frequencies are not spaced by dlnr',
                om[1:], [w*self.ex(dl) for w in om[:-1]]),
               ('rk is not pi/2 rc/kc', [rk]*n,
                [om[j]/tc[j]*(PI/2) for j in range(n)])]
        for m, p, z in rel:
            if r.eq(f'{self.key}:{m[:20]}', [x.v for x in p],
                    [x.v for x in z], f'{self.what}: {m}',
                    self.where) is False:
                return None
        v = [self.part(e) for e in self.E]
        jc = (n + 1)/2.
        v = [x*self.ex(dl*(-(q - .5)*(j + 1 - jc))) for j, x in enumerate(v)]
        a = [X(c) for c in self.linear('rfft', v)]
        # coefficients c_m = (a[2m-1] + i a[2m]) times U_mu(q + 2 pi i m/L)
        out = list(a)
        for m in range(0, n//2 + 1):
            if m == 0:
                if q:
                    out[0] = a[0]*self.U(0, q, mu, kr, dl, n)[0]
                continue
            u, w = self.U(m, q, mu, kr, dl, n)
            if 2*m == n:
                out[-1] = a[-1]*u
            else:
                out[2*m-1] = a[2*m-1]*u - a[2*m]*w
                out[2*m] = a[2*m-1]*w + a[2*m]*u
        b = [X(c) for c in self.linear('irfft', out)][::-1]
        lk = self.fn('log', kr)
        lr = self.fn('log', rk)
        b = [x*self.ex(-(dl*((q + .5)*(j + 1 - jc)) + lk*q - lr/2))
             for j, x in enumerate(b)]
        return [self.spline(tc, b, t) for t in self.t]

    def ex(self, x):
        return X(self.r.g.exp(x.v))

    def linear(self, name, vals):
        """Outputs of the abstract (I)FFT of vals."""
        A = Arr(oarr([S('f', NOC, E0, E0, (v.v,)) for v in vals],
                     (len(vals),)), 'f')
        o = npmodel.INTR['scipy.fftpack.'+name](self.r.eng, [A], {})
        return [c.f[0] for c in o.a]

    def lg(self, re, im):
        """Real and imaginary part of loggamma(re + i im)."""
        e = self.r.eng
        z = S('c', NOC, E0, E0, ((X(re) + X(1j)*im).v,))
        w = e.sfn('loggamma', [z], 'c')
        return (X(self.r.g.un('real', w.f[0], None)),
                X(self.r.g.un('imag', w.f[0], None)))

    def U(self, m, q, mu, kr, dl, n):
        """Real and imaginary part of kr^(-2iy) U_mu(q + 2iy)."""
        y = X(float(m))*PI/(X(float(n))*dl)
        p = self.lg((mu + 1 + q)/2, y)
        s = self.lg((mu + 1 - q)/2, y)
        ln2 = self.fn('log', X(2.)) if False else X(math.log(2.))
        l2k = self.fn('log', X(2.)/kr)
        arg = l2k*y*2 + p[1] + s[1]
        c, d = self.r.g.cs(arg.v)
        amp = X(1)
        if q:
            amp = self.ex(ln2*q + p[0] - s[0])
        return X(c)*amp, X(d)*amp

    # ---------------------------------------------------------------- fft
    def fft(self, res):
        r = self.r
        nf, nt = self.args['nfreq'], self.args['ntot']
        df = X(.002)
        fr = [df*float(i+1) for i in range(nf)]
        E = self.E
        if self.args.get('pts_per_dec'):
            g = r.g
            re = [X(g.un('real', e.v, None)) for e in E]
            im = [X(g.un('imag', e.v, None)) for e in E]
            E = [self.spline(self.fr, re, f) + X(1j)*self.spline(
                self.fr, im, f) for f in fr]
        if len(self.rec.ifft) != 1:
            raise Skip('inverse FFT not called once')
        A = r.eng.arr_of(self.rec.ifft[0][0][0])
        if A.a is None:
            raise Skip('input of the inverse FFT')
        got = [X(r.f(c)) for c in A.a.ravel()]
        nt = len(got)//2
        # up to nfreq the spectrum itself at k*df, Hermitian
        for k in range(1, min(nf, nt-1)+1):
            for i, w, nm in ((k, E[k-1], 'positive'), (
                    2*nt-k, X(r.g.un('conj', E[k-1].v, None)), 'negative')):
                if nm == 'positive' and k + 1 < min(nf, nt-1) and \
                        got[k].v.key != E[k+1].v.key:
                    nm = 'other'
                if r.eq(f'fft:arrangement:{nm}', [got[i].v], [w.v],
                        f'{self.what}: element {i} of the input of the '
                        f'inverse FFT is not the spectrum at the {nm} '
                        f'frequency {k}*dfreq', self.where) is False:
                    return self.tail(res, nt, df)
        return self.tail(res, nt, df)

    def tail(self, res, nt, df):
        r, g = self.r, self.r.g
        o = [X(g.un('real', c.f[0], None)) for c in r.eng.arr_of(
            self.rec.ifft[0][2]).a.ravel()]
        st = [q*df*2.*float(nt) for q in o]
        st = st[nt:] + st[:nt]
        dt = X(1)/(df*2.*float(nt))
        ax = [dt*float(i - nt) for i in range(2*nt)]
        return [self.spline(ax, st, t, False)/2*PI for t in self.t]
