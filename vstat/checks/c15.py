"""Vectorised surveys equal the same computations done one by one.

Each cell of the (nfreqtime, nrec, nsrc) result of a call with several
frequencies, receivers and sources is compared, by value number, with the
call for that frequency, receiver and source alone.
"""
from ..rel import *
import numpy as np

LEVEL = 'other'
ASSUME = ['standard digital filter or quadrature: transforms that '
          'interpolate over the survey are approximations and not compared']


class Survey:
    """ns sources and nr receivers with same or distinct depths."""

    def __init__(self, r, tag, n, samez, finite, scalar=()):
        self.r, self.n, self.finite = r, n, finite
        base = dict(s=(10., -20., 250.), r=(150., 40., 300.))[tag]
        N, self.p = r.N, []
        for i in range(n):
            c = [N(f'{tag}{"0" if v in scalar else i}{v}', q + 7.*k*(
                0 if v in scalar else i))
                for k, (v, q) in enumerate(zip('xy', base[:2]), 1)]
            j = 0 if samez else i
            z = N(f'{tag}{j}z', base[2] + 780.*j)
            if finite:
                d = [N(f'{tag}{i}d{v}', q + 3*i) for v, q in zip('xy', (
                    12., 25.))]
                dz = N(f'{tag}{j}dz', 20. + 2*j)
                self.p.append([c[0], r.add(c[0], d[0]), c[1],
                               r.add(c[1], d[1]), z, r.add(z, dz)])
            else:
                k = 0 if 'ang' in scalar else i
                self.p.append(c + [z, N(f'{tag}{k}a', 20. + 33*k),
                                   N(f'{tag}{k}d', 30. - 11*k)])
        self.samez = samez
        self.scalar = scalar

    def all(self, m=None):
        """Argument for the whole survey (m: first m entries only)."""
        out = []
        for k in range(m or len(self.p[0])):
            v = [p[k] for p in self.p]
            if self.n == 1 or len({id(q) for q in v}) == 1 or len(
                    {self.r.f(q).key for q in v}) == 1:
                out.append(v[0])
            else:
                out.append(self.r.w.arr(v))
        return self.r.L(*out)


def cell(res, i, j, k, n):
    """Value number at [i, j, k] of a result with shape n (not squeezed)."""
    a = res.value
    if not isinstance(a, Arr) or a.a is None or tuple(a.a.shape) != tuple(n):
        return None
    return a.a[i, j, k]


def compare(r, key, what, big, one, n, where):
    """big: result of the whole survey; one(i, j, k): single computations."""
    ctx = r.ctx
    if not big.ok:
        if big.dead or getattr(big.exc, 'imprecise', False):
            ctx.undec(f'{key}: {exc_name(big.exc)}')
        else:
            s = one(0, 0, 0)
            if s.ok:
                ctx.violation(key, f'{what}: raises {exc_name(big.exc)}',
                              where)
            else:
                ctx.undec(f'{key}: {exc_name(big.exc)}')
        return
    v = big.value
    if isinstance(v, Arr) and v.a is not None and \
            tuple(v.a.shape) != tuple(n):
        ctx.violation(key, f'{what}: shape {tuple(v.a.shape)} instead of '
                      f'(nfreqtime, nrec, nsrc) = {tuple(n)}', where)
        return
    for i in range(n[0]):
        for j in range(n[1]):
            for k in range(n[2]):
                if ctx.quick and n[1]*n[2] > 1 and (i + j + k) % 2 == 0:
                    continue    # quick: every other entry
                c = cell(big, i, j, k, n)
                if c is None:
                    ctx.undec(key)
                    return
                if not r.eq(key, [r.f(c)], one(i, j, k), f'{what}: entry '
                            f'[{i}, {j}, {k}] is not the response of '
                            f'frequency {i}, receiver {j}, source {k} alone',
                            where):
                    return


def parts_of(v):
    if isinstance(v, Arr):
        return None if v.a is None else [
            Arr(q if isinstance(q, np.ndarray) else oarr(q), v.dt)
            for q in v.a]
    return getattr(v, 'items', None)


def check(ctx):
    ctx.rule('result[i, j, k] = response of frequency i, receiver j, '
             'source k alone')
    r = Rel(ctx)
    m = r.model(3)
    fr = [r.N('freq', 1.), r.N('freq2', 3.)]
    bipoles(ctx, r, m, fr)
    dipoles(ctx, r, m, fr)
    others(ctx, r, m, fr)
    r.done()


def bipoles(ctx, r, m, fr):
    memo = {}

    def single(s, q, f, **k):
        key = (tuple(r.f(v).key for v in s), tuple(r.f(v).key for v in q),
               f, repr(sorted(k.items(), key=lambda t: t[0])))
        if key not in memo:
            memo[key] = bip(r, s, q, m, freqtime=fr[f], **k)
        return memo[key]
    cases = []
    for ns, nr in ((2, 2), (3, 2), (2, 3), (1, 3), (3, 1), (2, 1), (1, 2)):
        for zs in (True, False) if ns > 1 else (True,):
            for zr in (True, False) if nr > 1 else (True,):
                for kind in ('pp', 'fp', 'pf', 'ff'):
                    cases.append((ns, nr, zs, zr, kind))
    for ns, nr, zs, zr, kind in cases:
        if ctx.quick and ns + nr != 4 and kind[0] != kind[1]:
            continue
        for nf in (1, 2):
            if nf == 2 and (ns + nr > 4 or kind[0] != kind[1]):
                continue
            for var in ({}, dict(strength=True), dict(msrc='b', mrec='j'),
                        dict(pts=3), dict(scalar=True), dict(loop='off'),
                        dict(loop='freq')):
                if var and ctx.quick and (
                        (ns, nr) != (2, 2) or kind[0] != kind[1] or
                        zs != zr or nf > 1):
                    continue
                if 'pts' in var and (kind == 'pp' or nf == 2):
                    continue
                if 'scalar' in var and kind != 'pp':
                    continue
                if not ctx.mine():
                    continue
                sc = ('y', 'ang') if 'scalar' in var else ()
                S_ = Survey(r, 's', ns, zs, kind[0] == 'f', sc)
                Q_ = Survey(r, 'r', nr, zr, kind[1] == 'f', sc)
                kw = {k: v for k, v in var.items() if k in ('msrc', 'mrec')}
                if 'strength' in var:
                    kw['strength'] = r.N('I', 5.)
                if 'pts' in var:
                    kw.update(srcpts=3, recpts=3)
                bk = dict(kw)
                if 'loop' in var:
                    bk['loop'] = var['loop']
                big = r.call('empymod.model.bipole', src=S_.all(),
                             rec=Q_.all(), freqtime=r.w.arr(fr[:nf]),
                             verb=0, squeeze=False, **m, **ht_kw('dlf'),
                             **bk)
                compare(r, f'bipole:{ns}:{nr}:{zs}:{zr}:{kind}:{nf}:'
                        f'{"".join(var)}', f'bipole ({kind}, {ns} sources '
                        f'{"at one depth" if zs else "at several depths"}, '
                        f'{nr} receivers '
                        f'{"at one depth" if zr else "at several depths"}, '
                        f'{var})', big, lambda i, j, k: single(
                            S_.p[k], Q_.p[j], i, **kw), (nf, nr, ns),
                        'empymod.model.bipole')


def dipoles(ctx, r, m, fr):
    for ht in ('dlf', 'quad', 'qwe'):
        for ns, nr, nf in ((2, 2, 2), (3, 2, 1), (1, 3, 2), (2, 1, 1)):
            for ab in ABS if ht == 'dlf' else (11, 33, 45, 62):
                for loop in (None, 'freq', 'off'):
                    if (loop and ns + nr > 4) or ab in (36, 63):
                        continue
                    if ctx.quick and (ht != 'dlf' and ns*nr*nf != 8 or
                                      ab % 10 == 2 and loop):
                        continue
                    if ctx.quick and ht == 'dlf' and (ab + ns + nf) % 3:
                        continue
                    if not ctx.mine():
                        continue
                    S_ = Survey(r, 's', ns, True, False)
                    Q_ = Survey(r, 'r', nr, True, False)
                    big = r.call('empymod.model.dipole', src=S_.all(3),
                                 rec=Q_.all(3), ab=ab, verb=0,
                                 freqtime=r.w.arr(fr[:nf]), squeeze=False,
                                 loop=loop, **m, **ht_kw(ht))
                    compare(r, f'dipole:{ht}:{ns}:{nr}:{nf}:{ab}:{loop}',
                            f'dipole ({ns} sources, {nr} receivers, {nf} '
                            f'frequencies, ht={ht}, loop={loop}, ab={ab})',
                            big, lambda i, j, k: r.dipole(
                                ab, S_.p[k][:3], Q_.p[j][:3], m, freq=fr[i],
                                ht=ht), (nf, nr, ns), 'empymod.model.dipole')


def others(ctx, r, m, fr):
    S_ = Survey(r, 's', 2, True, False)
    Q_ = Survey(r, 'r', 3, True, False)
    # analytical solutions
    for sol in ('fs', 'dfs', 'dhs', 'dsplit', 'dtetm'):
        for sig in (None, 0, 1, -1):
            if sol == 'fs' and sig is not None:
                continue
            for ab in (11, 12, 31, 23, 33, 22) if not ctx.quick else (
                    11, 12, 31, 33):
                if not ctx.mine():
                    continue
                kw = dict(res=r.N('res', 2.), aniso=r.N('aniso', 1.3),
                          solution=sol, ab=ab, verb=0, signal=sig)
                if sol != 'fs':
                    # diffusive approximation: no displacement currents
                    kw.update(epermH=r.L(0.), epermV=r.L(0.))

                done = {}

                def run(s, q, f, **k):
                    return r.call('empymod.model.analytical', src=s, rec=q,
                                  freqtime=f, **kw, **k)

                def alone(i, j, k, S_=S_, Q_=Q_, run=run, done=done):
                    if (i, j, k) not in done:
                        done[i, j, k] = run(r.L(*S_.p[k][:3]),
                                            r.L(*Q_.p[j][:3]), fr[i])
                    return done[i, j, k]
                key = f'analytical:{sol}:{sig}:{ab}'
                what = f'analytical({sol}, signal={sig}, ab={ab})'
                big = run(S_.all(3), Q_.all(3), r.w.arr(fr), squeeze=False)
                split = sol in ('dsplit', 'dtetm')
                if split and big.ok:
                    its = parts_of(big.value)
                    if its is None:
                        ctx.undec(key)
                        continue
                    for n in range(len(its)):
                        def one(i, j, k):
                            o = alone(i, j, k)
                            return Result(parts_of(o.value)[n], None, False,
                                          []) if o.ok else o
                        compare(r, f'{key}:{n}', f'{what}, part {n}',
                                Result(its[n], None, False, []), one,
                                (2, 3, 2), 'empymod.model.analytical')
                    continue
                compare(r, key, what, big, alone, (2, 3, 2),
                        'empymod.model.analytical')
    # time domain, standard filter
    tm = [r.N('t1', 1.), r.N('t2', 3.)]
    for sig in (0, 1, -1):
        for ab in (11, 52):
            for loop in (None, 'freq', 'off'):
                if not ctx.mine():
                    continue
                Q2 = Survey(r, 'r', 2, True, False)
                big = r.call('empymod.model.dipole', src=S_.all(3),
                             rec=Q2.all(3), ab=ab, verb=0, signal=sig,
                             freqtime=r.w.arr(tm), squeeze=False, loop=loop,
                             **m, **ht_kw('dlf'), **ft_kw('dlf'))
                compare(r, f'time:{sig}:{ab}:{loop}', 'dipole in the time '
                        f'domain (signal={sig}, ab={ab}, loop={loop})', big,
                        lambda i, j, k: r.dipole(
                            ab, S_.p[k][:3], Q2.p[j][:3], m, freq=tm[i],
                            signal=sig, **ft_kw('dlf')), (2, 2, 2),
                        'empymod.model.tem')
    # wavenumber domain: (nfreq, nrec*nsrc, nwavenumber)
    wn = [r.N('kappa', .01), r.N('kappa2', .03)]
    for ab in ABS if not ctx.quick else (11, 13, 31, 33, 14, 24, 61, 46, 66):
        if not ctx.mine():
            continue

        def kd(s, q, f, k):
            return r.call('empymod.model.dipole_k', src=s, rec=q, freq=f,
                          wavenumber=k, ab=ab, verb=0, **m)
        Q2 = Survey(r, 'r', 2, True, False)
        both = kd(S_.all(3), Q2.all(3), r.w.arr(fr), r.w.arr(wn))
        memo = {}
        for p in (0, 1):
            big = part_of(both, p)
            if big is None:
                ctx.undec(f'dipole_k:{ab}')
                continue
            sh = tuple(big.a.shape)
            if not r.holds(f'dipole_k:{ab}', sh == (2, 4, 2),
                           f'dipole_k(ab={ab}): shape {sh}',
                           'empymod.model.dipole_k'):
                continue
            for i, j, k, n in ((a, b, c, d) for a in (0, 1) for b in (0, 1)
                               for c in (0, 1) for d in (0, 1)):
                if (i, j, k, n) not in memo:
                    memo[i, j, k, n] = kd(
                        r.L(*S_.p[k][:3]), r.L(*Q2.p[j][:3]), fr[i],
                        r.w.arr([wn[n]]))
                o = part_of(memo[i, j, k, n], p)
                if o is None:
                    ctx.undec(f'dipole_k:{ab}')
                    break
                if not r.eq(f'dipole_k:{ab}', [r.f(big.a[i, 2*k+j, n])], o,
                            f'dipole_k(ab={ab}): frequency {i}, receiver '
                            f'{j}, source {k}, wavenumber {n} is not the '
                            'one computed alone', 'empymod.model.dipole_k'):
                    break


def part_of(res, p):
    if not res.ok:
        return None
    v = res.value.items[p]
    v = v if isinstance(v, Arr) else Arr(oarr(v))
    return v if v.a is not None else None
