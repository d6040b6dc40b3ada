"""An arbitrary waveform is the sum over its segments.

For a waveform with nodes n_i and amplitudes I_i the response at time t is

    sum_i -dI_i/dn_i (a_i - b_i)/2 sum_q w_q s((a_i + b_i)/2 - x_q (a_i-b_i)/2)

with a_i = t - n_i and b_i = max(t - n_{i+1}, 0), over the segments that start
before t, where s is the response to the chosen signal and (x_q, w_q) is the
Gauss-Legendre rule.  The response of the routine for the waveform is compared,
by value number, with that sum over the routine's own responses s at these
times, for abstract nodes, amplitudes and times.
"""
from ..rel import *
import numpy as np

LEVEL = 'other'
M = 'empymod.model.'
ASSUME = ['Gauss-Legendre roots and weights of scipy',
          'comparison for transforms where each time is independent '
          '(standard DLF, QWE without interpolation)']


def check(ctx):
    ctx.rule('waveform response = quadrature of the segments')
    ctx.rule('waveform survey = each dipole alone; before the waveform: error')
    r = Rel(ctx)
    nodes = {'ramp': (0., 1.), 'box': (-3.13, -1., 2.27, 4.51),
             'late': (2.11, 3., 10.), 'flat': (0., 1.17, 2.31, 3., 5.83)}
    ampl = {'ramp': ('a', 'b'), 'box': (0., 'a', 'a', 0.),
            'late': ('a', 'b', 'c'), 'flat': ('a', 'a', 'b', 'b', 'c')}
    times = {'after': (12.,), 'order': (30., 11., 17.), 'within': (.53, 2.71),
             'node': (3., 20., 4.72), 'end': (10., ), 'double': (15., 15., 1.37)}
    for w in nodes:
        for t in times:
            for sig in (None, 0, 1, -1):
                for nq in (None, 1, 2):
                    if nq != 2 and t != 'order':
                        continue
                    if not ctx.mine():
                        continue
                    case(ctx, r, w, t, nodes[w], ampl[w], times[t], sig, nq)
    for fn in ('bipole', 'loop', 'dipole'):
        for shape in ('rec', 'src', 'both'):
            if ctx.mine():
                survey(ctx, r, fn, shape)
    for t in ((1.,), (.5, 1.5)):
        if ctx.mine():
            before(ctx, r, t)
    r.done()


AMP = dict(a=3., b=7., c=4.)


def wave(r, ns, amps, sig, nq, arr=True):
    n = [r.N(f'n{i}', c) if c else 0. for i, c in enumerate(ns)]
    a = [r.N('I'+v, AMP[v]) if v else 0. for v in amps]
    mk = (lambda v: r.w.arr(v)) if arr else (lambda v: r.L(*v))
    d = {'nodes': mk(n), 'amplitudes': mk(a)}
    if sig is not None:
        d['signal'] = sig
    if nq is not None:
        d['nquad'] = nq
    return n, a, DictV(d)


def base(r, **k):
    g = Geo(r)
    m = dict(depth=r.L(), res=r.N('res0', 2.), xdirect=True)
    b = dict(src=r.L(*g.src), rec=r.L(*g.rec), verb=0, ft='dlf',
             ftarg=DictV({'pts_per_dec': 0}), squeeze=False, **m)
    b.update(k)
    return b


def case(ctx, r, w, tn, ns, amps, ts, sig, nq):
    fn = M+'dipole'
    key = f'{w}:{tn}:{sig}:{nq}'
    arr = tn != 'double'
    n, a, d = wave(r, ns, amps, sig, nq, arr)
    # a time at a node is that node
    t = [n[ns.index(c)] if c in ns else r.N(f't{c:g}', c) for c in ts]
    q = nq or 3
    xs, ws = gauss(r, q)
    terms, want = [], []
    for i, c in enumerate(ts):
        mine = []
        for j in range(len(ns)-1):
            if amps[j] == amps[j+1] or not ns[j] < c:
                continue
            ta = r.sub(t[i], n[j])
            tb = r.sub(t[i], n[j+1]) if ns[j+1] <= c else 0.
            half = r.op('/', r.sub(ta, tb), 2.)
            mid = r.op('/', r.add(ta, tb), 2.)
            slope = r.op('/', r.sub(a[j+1], a[j]), r.sub(n[j+1], n[j]))
            for x, wq in zip(xs, ws):
                at = r.sub(mid, r.mul(half, x))
                mine.append((len(want), r.mul(r.mul(half, slope), wq)))
                want.append(at)
        terms.append(mine)
    got = r.call(fn, freqtime=r.L(*t), signal=d, **base(r))
    if not want:
        return r.holds(key, got.exc is not None, f'{key}: no error although '
                       'all times are before the waveform', fn)
    ref = r.call(fn, freqtime=r.L(*want), signal=sig or 0, **base(r))
    if not ref.ok or not isinstance(ref.value, Arr) or ref.value.a is None:
        return ctx.undec(f'{key}: {exc_name(ref.exc)}')
    s = list(ref.value.a.reshape(-1))
    out = []
    for m in terms:
        v = 0.
        for k, c in m:
            v = r.sub(v, r.mul(c, s[k]))
        out.append(v)
    r.eq(key, got, r.w.arr(out), f'{w} waveform, times {tn}, signal={sig}, '
         f'nquad={nq}: the response is not the sum over the segments', fn)


def gauss(r, n):
    from ..npmodel import INTR
    o = INTR['scipy.special.roots_legendre'](r.eng, [n], {})
    return [list(v.a.reshape(-1)) for v in o.items]


def survey(ctx, r, name, shape):
    """Every receiver-source pair has the waveform response of its own."""
    fn = M+name
    g = Geo(r)
    n, a, d = wave(r, (0., 1., 4.), ('a', 'b', 'c'), 1, 2)
    t = r.L(r.N('ta', 7.), r.N('tb', 11.))
    S_, R_ = [list(g.src)], [list(g.rec)]
    if shape in ('src', 'both'):
        S_.append([r.N('sx2', 31.), r.N('sy2', -50.), g.src[2]])
    if shape in ('rec', 'both'):
        R_ += [[r.N(f'rx{i}', 100.*i), r.N(f'ry{i}', 70.+i), g.rec[2]]
               for i in (2, 3)]
    ang = name != 'dipole'
    def pos(v, e):
        c = [r.L(*[q[i] for q in v]) if len(v) > 1 else v[0][i]
             for i in range(2)]
        return r.L(*c, v[0][2], *(e if ang else ()))
    ea, eb = (g.sa, g.sd), (g.ra, g.rd)
    got = r.call(fn, freqtime=t, signal=d, **base(
        r, src=pos(S_, ea), rec=pos(R_, eb)))
    if not got.ok or not isinstance(got.value, Arr) or got.value.a is None:
        return ctx.undec(f'{name}:{shape}: {exc_name(got.exc)}')
    r.holds(f'{name}:{shape}:shape', r.eng.shape(got.value) == (
        2, len(R_), len(S_)), f'{name}: waveform response has shape '
        f'{r.eng.shape(got.value)}', fn)
    if got.value.a.shape != (2, len(R_), len(S_)):
        return
    for i, v in enumerate(R_):
        for j, u in enumerate(S_):
            one = r.call(fn, freqtime=t, signal=wave(
                r, (0., 1., 4.), ('a', 'b', 'c'), 1, 2)[2], **base(
                    r, src=pos([u], ea), rec=pos([v], eb)))
            r.eq(f'{name}:{shape}:{i}:{j}', r.w.arr(list(
                got.value.a[:, i, j])), one, f'{name}: waveform response of '
                'one pair in a survey differs from the pair alone', fn)


def before(ctx, r, ts):
    fn = M+'dipole'
    t = r.L(*[r.N('n0' if c == 2 else f't{c:g}', c) for c in ts])
    d = wave(r, (2., 3.), ('a', 'b'), 0, 2)[2]
    s = r.call(fn, freqtime=t, signal=d, **base(r))
    if s.exc is not None and getattr(s.exc, 'imprecise', False):
        return ctx.undec(f'before: {exc_name(s.exc)}')
    r.holds(f'before:{ts}', s.exc is not None, 'no error although all times '
            'are before the waveform', fn)
