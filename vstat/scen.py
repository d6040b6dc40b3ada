"""Scenario builder: abstract inputs for empymod's public routines."""
import os

import numpy as np

from .engine import Engine, RaiseSig, Dead, AnalysisError
from .values import (S, Arr, ListV, TupleV, DictV, InstV, Alt, Obj, E0, NOC,
                     ABSENT, UNBOUND, oarr, is_raw)
from .domains import Units, Trans, Parity, LIT, EVEN, U
from .gvn import GVN, V, same
from fractions import Fraction as Fr

ABS = [10*r+s for r in range(1, 7) for s in range(1, 7)]
INF = float('inf')


class Result:
    """Outcome of one abstract call."""

    def __init__(self, value, exc, dead, events):
        self.value, self.exc, self.dead, self.events = (value, exc, dead,
                                                        events)

    @property
    def ok(self):
        return self.exc is None and not self.dead

    def kinds(self, *ks):
        return [e for e in self.events if e.kind in ks]


class Imprecise:
    """The analysis could not follow the code (decides nothing)."""
    imprecise = True

    def __init__(self, ex):
        self.cls = f'analysis:{type(ex).__name__}:{ex}'.split('\n')[0][:80]


class World:
    """One engine with helpers to build inputs and make abstract calls."""

    def __init__(self, repo, domains=(), dlf_labels=False, modules=(),
                 dlf_vals=False,
                 generic=3):
        self.eng = Engine(repo, domains)
        self.eng.total_steps = 0
        self.eng.generic_len = generic
        self.eng.dlf_labels = dlf_labels
        self.eng.dlf_vals = dlf_vals
        self.eng.load('empymod')
        for m in modules:
            self.eng.load(m)
        self.doms = {d.name: i for i, d in enumerate(self.eng.domains)}
        self.ncalls = 0

    # -- values
    def facets(self, c=NOC, name=None, dt='f', **fk):
        out = []
        for d in self.eng.domains:
            if d.name in fk:
                out.append(fk[d.name])
            elif d.name == 'vn':
                if name is not None:
                    out.append(d.leaf(name, dt))
                else:
                    out.append(d.const(c) if c is not NOC else None)
            elif isinstance(d, Trans):
                out.append(Fr(0))
            elif isinstance(d, Parity):
                out.append(EVEN)
            elif c is not NOC:
                out.append(d.const(c))
            else:
                out.append(LIT if isinstance(d, Units) else None)
        return tuple(out)

    def num(self, label=None, c=NOC, dt='f', x=E0, **fk):
        e = E0 if label is None else frozenset(
            [label] if isinstance(label, str) else label)
        nm = fk.pop('name', label if isinstance(label, str) else None)
        return S(dt, c, e, x, self.facets(c, nm, dt, **fk))

    def arr(self, vals, shape=None, dt='f', own=None):
        vals = list(vals)
        return Arr(oarr(vals, shape if shape is not None else (len(vals),)),
                   dt, frozenset() if own is None else frozenset({own}))

    def lst(self, *items, own=None):
        return ListV(list(items), own=own)

    def dct(self, own=None, **items):
        return DictV(items, own=own)

    # -- calls
    def get(self, dotted):
        return self.eng.get(dotted)

    def call(self, fn, *args, **kw):
        eng = self.eng
        n = len(eng.events)
        eng.steps = 0
        self.ncalls += 1
        exc, dead, val = None, False, None
        nfr, npc, ntr = len(eng.frames), len(eng.pc), len(eng.tries)
        cd, ph = eng.cond_depth, eng.phase
        try:
            f = self.eng.get(fn) if isinstance(fn, str) else fn
            val = eng.call(f, list(args), kw)
        except (KeyError, AttributeError, TypeError, ValueError, IndexError,
                AnalysisError, RecursionError, AssertionError,
                ArithmeticError, NotImplementedError) as ex:
            if os.environ.get('VSTAT_DEBUG'):
                raise
            exc = Imprecise(ex)
        except RaiseSig as r:
            exc = r.exc
        except Dead:
            dead = True
        finally:
            del eng.frames[nfr:]
            del eng.pc[npc:]
            del eng.tries[ntr:]
            eng.cond_depth, eng.phase = cd, ph
            eng.total_steps += eng.steps
        ev = eng.events[n:]
        del eng.events[n:]
        return Result(val, exc, dead, ev)


def cells(v):
    """All abstract scalars in a value (flattened)."""
    out = []
    st = [v]
    while st:
        q = st.pop()
        if isinstance(q, Arr):
            out += [c for c in q.cells()]
        elif isinstance(q, (ListV, TupleV)):
            st += list(q.items)
            if q.unk is not None:
                st.append(q.unk)
        elif isinstance(q, DictV):
            st += list(q.items.values())
        elif isinstance(q, Alt):
            st += [o for o in q.opts if o not in (ABSENT, UNBOUND)]
        elif isinstance(q, InstV):
            st += list(q.attrs.values())
        else:
            out.append(q)
    return out


def exc_name(exc):
    c = getattr(exc, 'cls', exc)
    if isinstance(exc, Imprecise):
        return c
    return getattr(c, 'path', getattr(c, 'name', str(c))).split('.')[-1]


HT = {
    'dlf': dict(pts_per_dec=0),
    'qwe': dict(nquad=2, maxint=3, pts_per_dec=0),
    'qwespl': dict(nquad=2, maxint=3, pts_per_dec=1),
    'quad': dict(pts_per_dec=1, limit=5),
}
FT = {
    'dlf': dict(pts_per_dec=0),
    'dlflag': dict(pts_per_dec=-1),
    'dlfspl': dict(pts_per_dec=1),
    'qwe': dict(nquad=2, maxint=3, pts_per_dec=1),
    'fftlog': dict(pts_per_dec=1, add_dec=[0, 0]),
    'fft': dict(nfreq=3, ntot=4),
    'fftspl': dict(nfreq=3, ntot=4, pts_per_dec=1),
}


def base_name(n):
    for s in ('lag', 'spl'):
        if n.endswith(s):
            return n[:-3]
    return n


def dictv(d, own=None):
    return DictV({k: (ListV(v) if isinstance(v, list) else v)
                  for k, v in d.items()}, own=own)


def ht_kw(ht, **over):
    return {'ht': base_name(ht), 'htarg': dictv({**HT[ht], **over})}


def ft_kw(ft, **over):
    return {'ft': base_name(ft), 'ftarg': dictv({**FT[ft], **over})}


__all__ = [n for n in dir() if not n.startswith('__')]
