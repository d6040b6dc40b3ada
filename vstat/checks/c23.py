"""Source-receiver reciprocity.

Two abstract runs with source and receiver exchanged (positions and
components) are compared by value number, for all 36 source-receiver
components, all orders of the layers that contain them, and fully symbolic
coordinates, frequency and layer parameters.  At the kernel level the same is
decided for the wavenumber-domain kernels in models with one to four layers.
"""
from ..rel import *

LEVEL = 'other'
ASSUME = ['value numbers: equal expressions modulo field axioms, exp/cos/sin '
          'addition theorems; other functions uninterpreted']

POS = {'A': (10., -20.), 'B': (150., 40.)}
ZS = {'A': 250., 'B': 300., 'C': 1200., 'D': -40.}


def swap(ab):
    return ab % 10*10 + ab//10


def sgn(ab):
    return 1 if (ab//10 > 3) == (ab % 10 > 3) else -1


def dipole_level(ctx, r, zz, **k):
    m = r.model(3)
    P = {i: [r.N(i+'x', p[0]), r.N(i+'y', p[1])] for i, p in POS.items()}
    Z = {i: r.N('z'+i, v) for i, v in ZS.items()}
    for zs, zr in zz:
        for ab in ABS:
            if not ctx.mine():
                continue
            a = r.dipole(ab, P['A']+[Z[zs]], P['B']+[Z[zr]], m, **k)
            b = r.dipole(swap(ab), P['B']+[Z[zr]], P['A']+[Z[zs]], m, **k)
            r.eq(f'dipole:{ab}', a, b, f'dipole(ab={ab}) is not reciprocal '
                 f'to ab={swap(ab)} (layers of src/rec: {zs}/{zr})',
                 'empymod.model.dipole', sgn(ab))


def bipole_level(ctx, r):
    m = r.model(3)
    A = [r.N('Ax', 10.), r.N('Ay', -20.), r.N('zA', 250.),
         r.N('azA', 20.), r.N('diA', 30.)]
    B = [r.N('Bx', 150.), r.N('By', 40.), r.N('zC', 1200.),
         r.N('azB', -50.), r.N('diB', 15.)]
    fA = [r.N('a1', 10.), r.N('a2', 20.), r.N('a3', -20.), r.N('a4', 25.),
          r.N('a5', 250.), r.N('a6', 270.)]
    fB = [r.N('b1', 110.), r.N('b2', 120.), r.N('b3', -24.), r.N('b4', -25.),
          r.N('b5', 1250.), r.N('b6', 1270.)]
    F = r.N('freq', 1.)
    for nm, p, q in (('point', A, B), ('finite', fA, fB), ('mixed', fA, B)):
        for ms in (False, True):
            for mr in (False, True):
                if not ctx.mine():
                    continue
                k = dict(freqtime=F, verb=0, **m, **ht_kw('dlf'))
                x = r.call('empymod.model.bipole', src=r.L(*p), rec=r.L(*q),
                           msrc=ms, mrec=mr, srcpts=2, recpts=2, **k)
                y = r.call('empymod.model.bipole', src=r.L(*q), rec=r.L(*p),
                           msrc=mr, mrec=ms, srcpts=2, recpts=2, **k)
                r.eq(f'bipole:{nm}:{ms}:{mr}', x, y, f'bipole ({nm}, msrc='
                     f'{ms}, mrec={mr}) is not reciprocal',
                     'empymod.model.bipole', 1 if ms == mr else -1)


def kernel_level(ctx, r):
    dep = [-INF, 0., 1000., 1500.]
    mid = [-40., 250., 1200., 1700.]
    for n in (1, 2, 3, 4):
        C = {p: Arr(oarr([r.N(f'{p}{i}', dt='c') for i in range(n)], (1, n)),
                    'c') for p in ('etaH', 'etaV', 'zetaH', 'zetaV')}
        D = r.w.arr([-INF] + [r.N(f'd{i}', v) for i, v in
                              enumerate(dep[1:n])])
        lam = Arr(oarr([r.N('lam')], (1, 1)), 'f')
        for l1 in range(n):
            for l2 in range(l1, n):
                za, zb = r.N('za', mid[l1]), r.N('zb', mid[l2]+60.)
                for ab in ABS:
                    if ab in (36, 63) or not ctx.mine():
                        continue
                    # the two lateral kernels of a horizontal pair differ
                    # only in sign of the odd (first-order) part
                    a = r.call('empymod.kernel.greenfct', zsrc=za, zrec=zb,
                               lsrc=l1, lrec=l2, depth=D, lambd=lam,
                               xdirect=False, **abk(ab), **C)
                    b = r.call('empymod.kernel.greenfct', zsrc=zb, zrec=za,
                               lsrc=l2, lrec=l1, depth=D, lambd=lam,
                               xdirect=False, **abk(swap(ab)), **C)
                    either(r, f'greenfct:{ab}', a, b,
                           f'wavenumber-domain Green function of ab={ab} is '
                           f'not reciprocal (layers {l1}/{l2} of {n})',
                           'empymod.kernel.greenfct')


def abk(ab):
    """Internal configuration of a component pair (via the public check)."""
    ms, mr = ab % 10 > 3, ab//10 > 3
    if ms and mr:
        ab = (ab//10-3)*10 + ab % 10 - 3
    elif mr:
        ab = ab % 10*10 + ab//10
    return dict(ab=ab, msrc=ms, mrec=mr)


def either(r, key, a, b, what, where):
    """Equal up to one overall sign per mode."""
    if not (a.ok and b.ok):
        r.ctx.undec(key)
        return
    x, y = r.fs(a.value), r.fs(b.value)
    for p, q in zip(x, y):
        s = same(p, q)
        if s is False and same(p, r.g.neg(q)):
            s = True
        r.holds(key, s, what, where)


def check(ctx):
    ctx.rule('G_ab(A,B) = +-G_ba(B,A) by value number, dipole level')
    ctx.rule('the same for arbitrarily oriented and finite bipoles')
    ctx.rule('kernels symmetric up to sign for 1-4 layers')
    r = Rel(ctx)
    zz = [('A', 'B'), ('B', 'C'), ('C', 'D'), ('D', 'B')]
    if not ctx.quick:
        zz += [('B', 'A'), ('D', 'D'), ('C', 'C'), ('D', 'C'), ('C', 'A')]
    dipole_level(ctx, r, zz)
    for xd in ((True,) if ctx.quick else (True, None)):
        dipole_level(ctx, r, [('A', 'B')], xdirect=xd)
    bipole_level(ctx, r)
    kernel_level(ctx, r)
    r.done()
