"""Relational checks: value numbers of two abstract calls are compared."""
from .scen import *
from .values import *
from .gvn import GVN, V, same, ZERO
from .ops import *          # noqa

EE = [r*10+s for r in (1, 2, 3) for s in (1, 2, 3)]
MM = [r*10+s for r in (4, 5, 6) for s in (4, 5, 6)]
EM = [r*10+s for r in (1, 2, 3) for s in (4, 5, 6)]
ME = [r*10+s for r in (4, 5, 6) for s in (1, 2, 3)]


class Rel:
    """World with value numbering and named symbolic inputs."""

    def __init__(self, ctx, modules=(), domains=(), **kw):
        self.ctx = ctx
        self.g = GVN()
        kw.setdefault('dlf_vals', True)
        self.w = World(ctx.repo, [self.g] + list(domains), modules=modules,
                       **kw)
        self.eng = self.w.eng
        self.names = {}
        self.seen = set()

    # -- symbolic inputs
    def N(self, name, c=NOC, dt='f'):
        """Symbolic number `name`; c selects the path class."""
        return self.w.num(name, c=c, dt=dt)

    def L(self, *items):
        return ListV(list(items))

    def op(self, op, a, b):
        return self.eng.sbin(op, a, b)

    def neg(self, a):
        return self.eng.sun('neg', a)

    def add(self, a, b):
        return self.op('+', a, b)

    def sub(self, a, b):
        return self.op('-', a, b)

    def mul(self, a, b):
        return self.op('*', a, b)

    def f(self, v):
        """Value number of a scalar."""
        return self.eng.lift(v).f[0]

    def fs(self, v):
        return [self.f(c) if isinstance(c, S) or is_raw(c) else None
                for c in cells(v)]

    # -- models
    def depth(self, n, c=(0., 1000., 1500., 1800.), down=True, pre='d'):
        return self.L(*[self.N(f'{pre}{i}', c[i]) for i in range(n-1)])

    def par(self, name, n, c, step=0.):
        return self.L(*[self.N(f'{name}{i}', c + step*i) for i in range(n)])

    def model(self, n=3, full=True, vti=True):
        """Layered model with n layers, everything symbolic."""
        m = dict(depth=self.depth(n),
                 res=self.L(*[self.N(f'res{i}', v) for i, v in zip(
                     range(n), (20., .3, 1., 5., 2.))]))
        if vti:
            m['aniso'] = self.par('aniso', n, 1.1, .2)
        if full:
            m['epermH'] = self.par('epermH', n, 1., .3)
            m['epermV'] = self.par('epermV', n, 1.1, .4)
            m['mpermH'] = self.par('mpermH', n, 1., .2)
            m['mpermV'] = self.par('mpermV', n, 1.1, .3)
        return m

    def dipole(self, ab, src, rec, m, freq=None, ht='dlf', fn=None, **k):
        kw = dict(src=self.L(*src), rec=self.L(*rec), ab=ab,
                  freqtime=freq if freq is not None else self.N('freq', 1.),
                  verb=0, **m, **ht_kw(ht))
        kw.update(k)
        return self.call(fn or 'empymod.model.dipole', **kw)

    def call(self, fn, *a, **kw):
        r = self.w.call(fn, *a, **kw)
        self.ctx.scenarios += 1
        return r

    # -- obligations
    def eq(self, key, x, y, what, where, sign=1):
        """x == sign*y, cell by cell; x, y: results or values."""
        ctx = self.ctx
        vals = []
        for r in (x, y):
            if isinstance(r, Result):
                if not r.ok:
                    vals.append(r)
                    continue
                r = r.value
            if isinstance(r, (list, tuple)) and all(
                    q is None or isinstance(q, V) for q in r):
                vals.append(list(r))
            else:
                vals.append(self.fs(r))
        p, q = vals
        bad = [v for v in vals if isinstance(v, Result)]
        if bad:
            if len(bad) == 1 and bad[0].exc is not None and \
                    not bad[0].dead and not getattr(
                        bad[0].exc, 'imprecise', False):
                ctx.violation(key, f'{what}: one side raises '
                              f'{exc_name(bad[0].exc)}', where)
            else:
                ctx.undec(f'{key}: {exc_name(bad[0].exc)}')
            return None
        if len(p) != len(q):
            ctx.violation(key, f'{what}: {len(p)} vs {len(q)} values', where)
            return False
        if not p:
            ctx.undec(f'{key}: no values')
            return None
        out = True
        for a, b in zip(p, q):
            if b is not None and sign != 1:
                b = self.g.neg(b)
            r = same(a, b)
            if r is None:
                ctx.undec(f'{key}: no decided value number')
                out = None if out is True else out
            elif r:
                ctx.ok()
            else:
                ctx.violation(key, what, where)
                return False
        return out

    def holds(self, key, cond, what, where):
        if cond is None:
            self.ctx.undec(key)
        elif cond:
            self.ctx.ok()
        else:
            self.ctx.violation(key, what, where)
        return cond

    def done(self):
        self.ctx.covered(self.eng)


__all__ = [n for n in dir() if not n.startswith('__')]


# ------------------------------------------------------- geometry templates
class Geo:
    """Symbolic survey: named coordinates with representative values."""

    def __init__(self, r):
        self.r = r
        N = r.N
        self.src = [N('sx', 10.), N('sy', -20.), N('sz', 250.)]
        self.rec = [N('rx', 150.), N('ry', 40.), N('rz', 300.)]
        self.fsrc = [N('f1', 10.), N('f2', 22.), N('f3', -20.),
                     N('f4', 25.), N('f5', 250.), N('f6', 270.)]
        self.frec = [N('g1', 110.), N('g2', 122.), N('g3', -24.),
                     N('g4', -45.), N('g5', 310.), N('g6', 330.)]
        self.sa, self.sd = N('sazm', 20.), N('sdip', 30.)
        self.ra, self.rd = N('razm', -50.), N('rdip', 15.)


def bip(r, src, rec, m, **k):
    """bipole call; src/rec: lists of 5 (or 6) numbers."""
    kw = dict(src=r.L(*src), rec=r.L(*rec), verb=0, **m)
    if 'freqtime' not in k:
        kw['freqtime'] = r.N('freq', 1.)
    if 'ht' not in k:
        kw.update(ht_kw('dlf'))
    kw.update(k)
    return r.call('empymod.model.bipole', **kw)


BIG = 10**9


class Decide:
    """Decide the comparisons with the marker BIG as `mask` says.

    Used for choices which depend on values no skeleton can know (QWE or QUAD
    per time or offset); `per` comparisons belong to each element of mask."""

    def __init__(self, eng):
        self.eng, self.mask, self.num, self.per = eng, None, 0, 1
        self.orig = eng.scmp
        eng.scmp = self.scmp

    def scmp(self, op, a, b):
        if self.mask:
            for q, s in ((b, 0), (a, 1)):
                c = q.c if isinstance(q, S) else q
                if op in ('Lt', 'LtE', 'Gt', 'GtE') and isinstance(
                        c, (int, float)) and c == BIG:
                    n, self.num = self.num, self.num + 1
                    v = self.mask[n // self.per % len(self.mask)]
                    return v == ((op[0] == 'L') != bool(s))
        return self.orig(op, a, b)

    def set(self, mask, per=1):
        self.mask, self.per, self.num = mask, per, 0

    def stop(self):
        del self.eng.scmp


class Maps:
    """A geometric symmetry: how it maps positions, directions, models.

    pos(r, x, y, z) -> new coordinates; vec: image of the unit vectors as
    signed axis, e.g. {1: 1, 2: -2, 3: 3}; azm/dip: maps of the angles.
    """

    def __init__(self, name, pos, vec, azm, dip, det, model=None):
        self.name, self.pos, self.vec = name, pos, vec
        self.azm, self.dip, self.det, self.model = azm, dip, det, model

    def comp(self, k):
        """Component k (1-6) -> (k', sign)."""
        v = self.vec[k if k < 4 else k-3]
        s = 1 if v > 0 else -1
        if k > 3:
            return abs(v)+3, s*self.det
        return abs(v), s

    def ab(self, ab):
        p, s = self.comp(ab//10)
        q, t = self.comp(ab % 10)
        return p*10+q, s*t

    def point(self, r, p):
        return list(self.pos(r, *p))

    def finite(self, r, p):
        a = self.pos(r, p[0], p[2], p[4])
        b = self.pos(r, p[1], p[3], p[5])
        return [a[0], b[0], a[1], b[1], a[2], b[2]]


def symmetry(ctx, r, M, models, zz, quick, analytic=True):
    """All obligations `field of the mapped problem == mapped field`."""
    g = Geo(r)
    for mn, m in models:
        m2 = M.model(r, m) if M.model else m
        for zn, zs, zr in zz:
            src = g.src[:2] + [r.N('sz'+zn, zs)]
            rec = g.rec[:2] + [r.N('rz'+zn, zr)]
            for ab in ABS:
                if not ctx.mine():
                    continue
                ab2, s = M.ab(ab)
                a = r.dipole(ab, src, rec, m)
                b = r.dipole(ab2, M.point(r, src), M.point(r, rec), m2)
                r.eq(f'dipole:{M.name}:{ab}', b, a, f'dipole(ab={ab}) in '
                     f'{mn} is not {M.name}-equivariant ({zn})',
                     'empymod.model.dipole', s)
        for kind in ('pp', 'fp', 'pf', 'ff'):
            for ms, mr in ((False, False), (True, False), (False, True),
                           (True, True)):
                if not ctx.mine():
                    continue
                out = []
                for mapped in (False, True):
                    c = []
                    for k, p, f, a, d in ((kind[0], g.src, g.fsrc, g.sa,
                                           g.sd),
                                          (kind[1], g.rec, g.frec, g.ra,
                                           g.rd)):
                        if k == 'p':
                            q = M.point(r, p) if mapped else list(p)
                            q += [M.azm(r, a), M.dip(r, d)] if mapped else \
                                [a, d]
                        else:
                            q = M.finite(r, f) if mapped else f
                        c.append(q)
                    out.append(bip(r, *c, m2 if mapped else m, msrc=ms,
                                   mrec=mr, srcpts=2, recpts=3))
                r.eq(f'bipole:{M.name}:{kind}:{ms}:{mr}', out[1], out[0],
                     f'bipole ({kind}, msrc={ms}, mrec={mr}) in {mn} is not '
                     f'{M.name}-equivariant', 'empymod.model.bipole',
                     (M.det if ms else 1)*(M.det if mr else 1))
    if analytic:
        for sol in ('fs', 'dfs', 'dhs', 'dsplit', 'dtetm'):
            for ab in (ABS if sol == 'fs' else EE):
                if not ctx.mine():
                    continue
                ab2, s = M.ab(ab)
                o = []
                for q, p in ((ab, lambda v: v),
                             (ab2, lambda v: M.point(r, v))):
                    o.append(r.call(
                        'empymod.model.analytical', src=r.L(*p(g.src)),
                        rec=r.L(*p(g.rec)), res=r.N('res', 2.),
                        aniso=r.N('aniso', 1.3), freqtime=r.N('freq', 1.),
                        solution=sol, ab=q, verb=0))
                r.eq(f'analytical:{sol}:{M.name}:{ab}', o[1], o[0],
                     f'analytical({sol}, ab={ab}) is not {M.name}-'
                     'equivariant', 'empymod.model.analytical', s)


ZZ = [('same', 250., 300.), ('below', 250., 1200.), ('above', 1200., -40.)]


def models(r, ctx):
    out = [('a 3-layer VTI model', r.model(3))]
    if not ctx.quick:
        out += [('a 2-layer model', r.model(2, False, False)),
                ('a 4-layer VTI model', r.model(4))]
    return out


__all__ = [n for n in dir() if not n.startswith('__')]
