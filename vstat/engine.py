"""Abstract interpreter for the Python/NumPy subset used by empymod.

Nothing of the analysed package is imported or executed: modules are parsed
from /repo and their syntax trees are interpreted over abstract values.
Unknown branches are forked and joined; unknown constructs become "unknown".
"""
import ast
import builtins
import os

import numpy as np

from .values import (
    S, Arr, ListV, SetV, TupleV, DictV, InstV, Alt, FuncV, Bound, ClassV,
    ModV, Ext, Native, DtypeV, SliceV, RangeV, SuperV, ExcV, Obj, E0, NOC,
    ABSENT, UNBOUND, is_raw, is_scalar, dtchar, promote, oarr, full)
from .ops import Ops


class AnalysisError(Exception):
    """The analysis itself cannot proceed (anchor vanished, budget...)."""


class Dead(Exception):
    """This abstract path cannot continue."""


class ReturnSig(Exception):
    def __init__(self, value):
        self.value = value


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class RaiseSig(Exception):
    def __init__(self, exc):
        self.exc = exc


class Event:
    __slots__ = ('kind', 'mod', 'func', 'line', 'detail', 'data', 'x', 'cond')

    def __init__(self, kind, mod, func, line, detail='', data=None, x=E0,
                 cond=False):
        self.kind = kind
        self.mod = mod
        self.func = func
        self.line = line
        self.detail = detail
        self.data = data
        self.x = x
        self.cond = cond

    def where(self):
        return f'{self.mod}:{self.func}:{self.line}'

    def __repr__(self):
        return f'<{self.kind} {self.where()} {self.detail}>'


class Frame:
    __slots__ = ('vars', 'func', 'module', 'parent', 'locals', 'mark',
                 'pending', 'globals', 'nonlocals', 'loops', 'name', 'cls',
                 'pcdepth')

    def __init__(self, func, module, parent, name):
        self.vars = {}
        self.func = func
        self.module = module
        self.parent = parent
        self.locals = None
        self.pending = []
        self.globals = set()
        self.nonlocals = set()
        self.loops = []
        self.name = name
        self.mark = 0
        self.cls = None
        self.pcdepth = 0


class LoopCtx:
    __slots__ = ('mark', 'breaks', 'conts', 'pcdepth')

    def __init__(self, mark, pcdepth):
        self.mark = mark
        self.breaks = []
        self.conts = []
        self.pcdepth = pcdepth


class TryCtx:
    __slots__ = ('mark', 'raises', 'names', 'pcdepth')

    def __init__(self, mark, names, pcdepth):
        self.mark = mark
        self.raises = []
        self.names = names
        self.pcdepth = pcdepth


_MISSING = object()


def local_names(node):
    """Names bound in a function body (Python scoping)."""
    names, glob, nonl = set(), set(), set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    body = node.body if isinstance(node.body, list) else [node.body]

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef,
                          ast.AsyncFunctionDef)):
            names.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            # walrus inside only
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    names.add(m.target.id)
            return
        if isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx,
                                                    (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split('.')[0])
        for c in ast.iter_child_nodes(n):
            visit(c)
    for b in body:
        visit(b)
    return names - glob - nonl, glob, nonl


class Engine(Ops):
    MAXSTEPS = 6_000_000
    MAXDEPTH = 80

    def __init__(self, repo, domains=(), package='empymod'):
        self.repo = repo
        self.package = package
        self.domains = list(domains)
        for d in self.domains:
            d.eng = self
        self.nd = len(self.domains)
        self.nof = (None,)*self.nd
        self.modules = {}
        self.events = []
        self.log = []
        self.epoch = 0
        self.aepoch = {}
        self.pc = []            # control-dependence label sets
        self.tries = []
        self.frames = []
        self.node = None
        self.steps = 0
        self.mutations = 0
        self.phase = None       # 'import:<mod>' while executing module bodies
        self.callstats = {}
        self.stmts = set()
        self.intrinsics = {}
        self.constants = {}
        self.call_hook = None   # fn(eng, func, args, kwargs) -> value|None
        self.ext_overrides = {}
        self.track_x = True
        self.cond_depth = 0
        self.unknown_calls = {}
        self.generic_len = None
        from . import npmodel, npmore  # noqa
        npmodel.install(self)

    # ------------------------------------------------------------------ util
    def event(self, kind, detail='', data=None):
        fr = self.frames[-1] if self.frames else None
        mod = fr.module.name if fr else '?'
        fn = fr.name if fr else '?'
        line = getattr(self.node, 'lineno', 0)
        ev = Event(kind, mod, fn, line, detail, data, self.pcx(),
                   self.cond_depth > 0)
        self.events.append(ev)
        return ev

    def pcx(self):
        if not self.pc:
            return E0
        out = E0
        for p in self.pc:
            out = out | p
        return out

    def mk(self, dt='?', c=NOC, e=E0, x=E0, f=None, p=None):
        return S(dt, c, e, x, f or self.nof, p)

    def lift(self, v):
        if isinstance(v, S):
            if v.f is None:
                v.f = self.nof
            return v
        if is_raw(v):
            return S(dtchar(v), v, E0, E0,
                     tuple(d.const(v) for d in self.domains))
        if isinstance(v, Arr):
            return self.summ(v)
        if isinstance(v, Alt):
            return self.lift_alt(v)
        e, x = self.deps(v)
        return S('o', NOC, e, x, self.nof)

    def lift_alt(self, v):
        out = None
        for o in v.opts:
            if o is ABSENT or o is UNBOUND:
                continue
            s = self.lift(o)
            out = s if out is None else self.join_s(out, s)
        if out is None:
            out = self.mk()
        return self.addx(out, v.x)

    def addx(self, v, x, e=E0):
        """Add control deps x and data deps e to a value (shallow copies)."""
        if not x and not e:
            return v
        if isinstance(v, S):
            if x <= v.x and e <= v.e:
                return v
            return S(v.dt, v.c, v.e | e, v.x | x, v.f, v.p)
        if isinstance(v, (bool, int, float, complex, str)):
            s = self.lift(v)
            return S(s.dt, s.c, s.e | e, s.x | x, s.f)
        if isinstance(v, Alt):
            return Alt([self.addx(o, x, e) for o in v.opts], v.x | x | e)
        if isinstance(v, TupleV):
            return TupleV([self.addx(o, x, e) for o in v.items], v.unk)
        return v

    def deps(self, v, seen=None):
        """(e, x) of all scalars reachable in v."""
        if isinstance(v, S):
            return v.e, v.x
        if is_raw(v) or v is ABSENT or v is UNBOUND:
            return E0, E0
        if seen is None:
            seen = set()
        if id(v) in seen:
            return E0, E0
        seen.add(id(v))
        its = None
        e = x = E0
        if isinstance(v, Arr):
            its = v.cells()
        elif isinstance(v, (ListV, TupleV)):
            its = list(v.items)
            if v.unk is not None:
                its.append(v.unk)
        elif isinstance(v, DictV):
            its = list(v.items.values())
            if v.open is not None:
                its.append(v.open)
        elif isinstance(v, InstV):
            its = list(v.attrs.values())
            if v.open is not None:
                its.append(v.open)
        elif isinstance(v, Alt):
            its = v.opts
            x = v.x
        elif isinstance(v, Ext):
            return v.e, E0
        elif isinstance(v, Bound):
            its = [v.self]
        elif isinstance(v, FuncV):
            its = []
            if v.frame is not None and isinstance(v.frame, Frame):
                free = {n.id for n in ast.walk(v.node)
                        if isinstance(n, ast.Name)}
                fr = v.frame
                while fr is not None:
                    its += [fr.vars[k] for k in free if k in fr.vars]
                    fr = fr.parent
        elif isinstance(v, SliceV):
            its = [v.lo, v.hi, v.st]
        elif isinstance(v, RangeV):
            its = [v.lo, v.hi, v.st]
        if its:
            for i in its:
                a, b = self.deps(i, seen)
                e = e | a
                x = x | b
        return e, x

    def roots(self, v, seen=None):
        """Owner labels of memory reachable from v."""
        out = set()
        if isinstance(v, Arr):
            return set(v.roots)
        if is_raw(v) or isinstance(v, S):
            return out
        if seen is None:
            seen = set()
        if id(v) in seen:
            return out
        seen.add(id(v))
        if isinstance(v, Obj) and v.own:
            out.add(v.own)
        its = []
        if isinstance(v, (ListV, TupleV)):
            its = list(v.items)
            if v.unk is not None:
                its.append(v.unk)
        elif isinstance(v, DictV):
            its = list(v.items.values())
            if v.open is not None:
                its.append(v.open)
        elif isinstance(v, InstV):
            its = list(v.attrs.values())
        elif isinstance(v, Alt):
            its = v.opts
        for i in its:
            out |= self.roots(i, seen)
        return out

    def summ(self, v):
        """Join of all cells of an array as one scalar."""
        cells = v.cells()
        if not cells:
            return self.mk(v.dt if v.dt else '?')
        if len(cells) == 1:
            return self.lift(cells[0])
        out = self.lift(cells[0])
        seen = {id(cells[0])}
        for c in cells[1:]:
            if id(c) in seen:
                continue
            seen.add(id(c))
            out = self.join_s(out, self.lift(c))
        return out

    # --------------------------------------------------------------- journal
    def mark(self):
        self.epoch += 1
        return len(self.log)

    def jset(self, d, k, v):
        """Journaled dict item write."""
        self.log.append((0, d, k, d.get(k, _MISSING)))
        d[k] = v

    def jdel(self, d, k):
        self.log.append((0, d, k, d.get(k, _MISSING)))
        d.pop(k, None)

    def jlist(self, l):
        self.log.append((1, l, None, (list(l.items), l.unk)))

    def jattr(self, o, k, v):
        self.log.append((2, o, k, getattr(o, k)))
        setattr(o, k, v)

    def jarr(self, arr):
        """Log the buffer behind an Arr before a write."""
        if arr.a is None:
            self.log.append((4, arr.cell, None, arr.cell[0]))
            return
        b = arr.a
        while b.base is not None:
            b = b.base
        if self.aepoch.get(id(b), (-1,))[0] == self.epoch:
            return
        self.aepoch[id(b)] = (self.epoch, b)
        self.log.append((3, b, None, b.copy()))

    def _cur(self, ent):
        t, o, k, _ = ent
        if t == 0:
            return o.get(k, _MISSING)
        if t == 1:
            return (list(o.items), o.unk)
        if t == 2:
            return getattr(o, k)
        if t == 3:
            return o.copy()
        return o[0]

    def _put(self, t, o, k, v):
        if t == 0:
            if v is _MISSING:
                o.pop(k, None)
            else:
                o[k] = v
        elif t == 1:
            o.items = list(v[0])
            o.unk = v[1]
        elif t == 2:
            setattr(o, k, v)
        elif t == 3:
            o[...] = v
        else:
            o[0] = v

    def delta(self, m):
        """{key: (entry, old, new)} of everything written since mark m."""
        out = {}
        for ent in self.log[m:]:
            key = (ent[0], id(ent[1]), ent[2])
            if key not in out:
                out[key] = (ent, ent[3], self._cur(ent))
        return out

    def undo(self, m):
        while len(self.log) > m:
            t, o, k, old = self.log.pop()
            self._put(t, o, k, old)
        self.epoch += 1

    def apply_join(self, deltas, m, xs):
        """State is at mark m (undone).  Write the join of several deltas.
        xs: control labels added to joined (changed) values."""
        keys = {}
        for d in deltas:
            for k, v in d.items():
                keys.setdefault(k, v)
        self.epoch += 1
        for key, (ent, old, _) in keys.items():
            t, o, k, _o = ent
            vals = []
            for d in deltas:
                vals.append(d[key][2] if key in d else old)
            new = self._join_loc(t, vals, xs)
            # log then write
            if t == 0:
                self.log.append((0, o, k, o.get(k, _MISSING)))
            elif t == 1:
                self.log.append((1, o, None, (list(o.items), o.unk)))
            elif t == 2:
                self.log.append((2, o, k, getattr(o, k)))
            elif t == 3:
                self.log.append((3, o, None, o.copy()))
            else:
                self.log.append((4, o, None, o[0]))
            self._put(t, o, k, new)
        self.epoch += 1

    def _join_loc(self, t, vals, xs):
        if len(vals) == 1:
            return vals[0]
        if t in (0, 2):
            out = vals[0]
            for v in vals[1:]:
                if out is _MISSING and v is _MISSING:
                    continue
                a = UNBOUND if out is _MISSING else out
                b = UNBOUND if v is _MISSING else v
                out = self.join(a, b, xs)
            return out
        if t == 1:
            out = vals[0]
            for v in vals[1:]:
                if len(out[0]) == len(v[0]):
                    it = [self.join(a, b, xs) for a, b in zip(out[0], v[0])]
                    unk = self.join_opt(out[1], v[1], xs)
                else:
                    n = min(len(out[0]), len(v[0]))
                    it = [self.join(a, b, xs)
                          for a, b in zip(out[0][:n], v[0][:n])]
                    unk = self.join_opt(out[1], v[1], xs)
                    for r in out[0][n:] + v[0][n:]:
                        unk = self.join_opt(unk, r, xs)
                out = (it, unk)
            return out
        if t == 3:
            out = vals[0].copy()
            for v in vals[1:]:
                for i in np.ndindex(*out.shape):
                    a, b = out[i], v[i]
                    if a is not b:
                        out[i] = self.join(a, b, xs)
            return out
        out = vals[0]
        for v in vals[1:]:
            if v is not out:
                out = self.join(out, v, xs)
        return out

    def join_opt(self, a, b, xs=E0):
        if a is None:
            return b
        if b is None:
            return a
        return self.join(a, b, xs)

    # ------------------------------------------------------------------ join
    def same_const(self, a, b):
        return type(a) is type(b) and (a == b or (a != a and b != b))

    def join(self, a, b, xs=E0):
        if a is b:
            return a
        if is_raw(a) and is_raw(b) and self.same_const(a, b):
            return a
        if isinstance(a, Alt) or isinstance(b, Alt):
            oa = a.opts if isinstance(a, Alt) else [a]
            ob = b.opts if isinstance(b, Alt) else [b]
            x = (a.x if isinstance(a, Alt) else E0) | (
                b.x if isinstance(b, Alt) else E0)
            return self.mkalt(oa + ob, x | xs)
        sa, sb = is_scalar(a), is_scalar(b)
        if sa and sb:
            r = self.join_s(self.lift(a), self.lift(b))
            return self.addx(r, xs)
        if isinstance(a, str) and isinstance(b, str):
            return self.mkalt([a, b], xs)
        if isinstance(a, (str, S)) and isinstance(b, (str, S)):
            r = self.join_s(self.lift(a), self.lift(b))
            return self.addx(r, xs)
        if isinstance(a, Arr) and isinstance(b, Arr):
            return self.join_arr(a, b, xs)
        if isinstance(a, TupleV) and isinstance(b, TupleV) and \
                len(a.items) == len(b.items):
            return TupleV([self.join(p, q, xs)
                           for p, q in zip(a.items, b.items)],
                          self.join_opt(a.unk, b.unk, xs))
        if isinstance(a, Ext) and isinstance(b, Ext) and a.path == b.path:
            return Ext(a.path, a.e | b.e)
        if isinstance(a, DtypeV) and isinstance(b, DtypeV):
            return a if a.dt == b.dt else DtypeV('?')
        if isinstance(a, SliceV) and isinstance(b, SliceV):
            return SliceV(self.join(a.lo, b.lo, xs), self.join(a.hi, b.hi, xs),
                          self.join(a.st, b.st, xs))
        if isinstance(a, Bound) and isinstance(b, Bound) and \
                a.func is b.func and a.self is b.self:
            return a
        if isinstance(a, FuncV) and isinstance(b, FuncV) and \
                a.node is b.node and a.frame is b.frame:
            return a
        return self.mkalt([a, b], xs)

    def mkalt(self, opts, x=E0):
        out = []
        for o in opts:
            for i, p in enumerate(out):
                if o is p:
                    break
                if is_raw(o) and is_raw(p) and self.same_const(o, p):
                    break
                if is_scalar(o) and is_scalar(p) and not (
                        isinstance(o, bool) or isinstance(p, bool)):
                    out[i] = self.join_s(self.lift(p), self.lift(o))
                    break
                if isinstance(o, Arr) and isinstance(p, Arr):
                    out[i] = self.join_arr(p, o, x)
                    break
                if isinstance(o, S) and isinstance(p, S):
                    out[i] = self.join_s(p, o)
                    break
                if isinstance(o, TupleV) and isinstance(p, TupleV) and \
                        len(o.items) == len(p.items):
                    out[i] = self.join(p, o, x)
                    break
                if isinstance(o, Ext) and isinstance(p, Ext) and o == p:
                    break
                if isinstance(o, ListV) and isinstance(p, ListV) and \
                        type(o) is type(p) and len(o.items) == len(p.items) \
                        and o.own is None and p.own is None and False:
                    break
            else:
                out.append(o)
        if len(out) == 1:
            return self.addx(out[0], x)
        if len(out) > 8:
            e, xx = E0, x
            for o in out:
                a, b = self.deps(o)
                e, xx = e | a, xx | b
            return self.mk('?', e=e, x=xx)
        return Alt(out, x)

    def join_s(self, a, b):
        if a is b:
            return a
        c = NOC
        if a.c is not NOC and b.c is not NOC and self.same_const(a.c, b.c):
            c = a.c
        dt = a.dt if a.dt == b.dt else (
            promote(a.dt, b.dt) if a.dt in 'bifc' and b.dt in 'bifc' else '?')
        f = tuple(d.join(p, q, a, b)
                  for d, p, q in zip(self.domains, a.f, b.f))
        p = a.p if a.p == b.p else None
        return S(dt, c, a.e | b.e, a.x | b.x, f, p)

    def join_arr(self, a, b, xs=E0):
        dt = a.dt if a.dt == b.dt else promote(a.dt, b.dt)
        roots = a.roots | b.roots
        cls = a.cls if a.cls is b.cls else None
        if a.a is not None and b.a is not None and a.a.shape == b.a.shape:
            if a.a is b.a:
                return a
            out = np.empty(a.a.shape, dtype=object)
            for i in np.ndindex(*out.shape):
                p, q = a.a[i], b.a[i]
                out[i] = p if p is q else self.join(p, q, xs)
            return Arr(out, dt, roots, masked=a.masked | b.masked, cls=cls)
        s = None
        for arr in (a, b):
            if arr.a is not None and arr.a.size == 0:
                continue
            t = self.summ(arr)
            s = t if s is None else self.join_s(s, t)
        if s is None:
            s = self.mk(dt)
        s = self.addx(s, xs)
        return Arr(None, dt, roots, cell=[s],
                   shp=self.join_shape(self.shape(a), self.shape(b)), cls=cls)

    def shape(self, arr):
        if arr.a is not None:
            return tuple(None if i in arr.masked else n
                         for i, n in enumerate(arr.a.shape))
        return arr.shp

    def join_shape(self, a, b):
        if a is None or b is None or len(a) != len(b):
            return None
        return tuple(p if p == q else None for p, q in zip(a, b))

    # --------------------------------------------------------------- forking
    def fork(self, xs, thunks, value=False):
        """Run thunks from the same state; join.  Returns joined value if
        `value`.  Abrupt endings are stored with their targets."""
        m = self.mark()
        deltas, vals = [], []
        self.cond_depth += 1
        try:
            for th in thunks:
                self.pc.append(xs)
                npc = len(self.pc)
                nfr = len(self.frames)
                ntr = len(self.tries)
                fr = self.frames[-1] if self.frames else None
                nlp = len(fr.loops) if fr else 0
                try:
                    v = th()
                    deltas.append(self.delta(m))
                    vals.append(v)
                except ReturnSig as r:
                    fr.pending.append((r.value, self.delta(fr.mark),
                                       self.pcsince(fr.pcdepth)))
                except BreakSig:
                    lp = fr.loops[-1]
                    lp.breaks.append((self.delta(lp.mark),
                                      self.pcsince(lp.pcdepth)))
                except ContinueSig:
                    lp = fr.loops[-1]
                    lp.conts.append((self.delta(lp.mark),
                                     self.pcsince(lp.pcdepth)))
                except RaiseSig as r:
                    self.on_raise(r.exc)
                except Dead:
                    pass
                finally:
                    del self.pc[npc-1:]
                    del self.frames[nfr:]
                    del self.tries[ntr:]
                    if fr:
                        del fr.loops[nlp:]
                self.undo(m)
        finally:
            self.cond_depth -= 1
        if not deltas:
            raise Dead()
        xx = xs if (len(deltas) > 1 and self.track_x) else E0
        self.apply_join(deltas, m, xx)
        if value:
            out = vals[0]
            for v in vals[1:]:
                out = self.join(out, v, xx)
            return out

    def pcsince(self, n):
        out = E0
        for p in self.pc[n:]:
            out = out | p
        return out

    def on_raise(self, exc):
        """A raise on a forked path: hand to the innermost try, else record."""
        if self.tries:
            t = self.tries[-1]
            t.raises.append((exc, self.delta(t.mark),
                             self.pcsince(t.pcdepth)))
        else:
            self.event('raise', self.exc_name(exc), exc)

    def exc_name(self, exc):
        c = exc.cls
        if isinstance(c, Ext):
            return c.path.split('.')[-1]
        if isinstance(c, ClassV):
            return c.name
        return '?'

    def throw(self, name, msg='', implicit=True):
        exc = ExcV(Ext('builtins.'+name), (msg,), implicit)
        if implicit:
            self.event('implicit', name, msg)
        raise RaiseSig(exc)

    # --------------------------------------------------------------- modules
    def modfile(self, name):
        rel = name.replace('.', '/')
        for p in (rel + '.py', rel + '/__init__.py'):
            f = os.path.join(self.repo, p)
            if os.path.isfile(f):
                return f
        return None

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        f = self.modfile(name)
        if f is None:
            raise AnalysisError(f'module {name} not found under {self.repo}')
        with open(f, encoding='utf-8') as fh:
            src = fh.read()
        try:
            tree = ast.parse(src, f)
        except SyntaxError as e:
            raise AnalysisError(f'cannot parse {f}: {e}')
        mod = ModV(name, f, tree)
        self.modules[name] = mod
        mod.vars['__name__'] = name
        mod.vars['__file__'] = f
        mod.vars['__doc__'] = None
        fr = Frame(None, mod, None, '<module>')
        fr.vars = mod.vars
        fr.mark = len(self.log)
        sphase, snode = self.phase, self.node
        self.phase = 'import:' + name
        self.frames.append(fr)
        spc, self.pc = self.pc, []
        st, self.tries = self.tries, []
        scd, self.cond_depth = self.cond_depth, 0
        try:
            self.block(tree.body)
        except RaiseSig as r:
            raise AnalysisError(f'import of {name} raises {r.exc} at '
                                f'{getattr(self.node, "lineno", 0)}')
        except Dead:
            raise AnalysisError(f'import of {name} does not complete')
        finally:
            self.frames.pop()
            self.phase, self.node = sphase, snode
            self.pc, self.tries = spc, st
            self.cond_depth = scd
        return mod

    def get(self, dotted):
        """Value of 'empymod.model.bipole' style name."""
        parts = dotted.split('.')
        for n in range(len(parts), 0, -1):
            mn = '.'.join(parts[:n])
            if self.modfile(mn):
                v = self.load(mn)
                for p in parts[n:]:
                    v = self.getattr(v, p)
                return v
        raise AnalysisError(f'{dotted} not found')

    def anchor(self, dotted):
        """Like get, but a missing name is an analysis error."""
        try:
            v = self.get(dotted)
        except RaiseSig:
            raise AnalysisError(f'anchor {dotted} vanished')
        return v

    def own_label(self):
        return self.phase if self.phase else None

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def tick(self):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise AnalysisError('step budget exceeded')

    def stmt(self, s):
        self.tick()
        self.node = s
        fr = self.frames[-1]
        self.stmts.add((fr.module.name, s.lineno))
        getattr(self, 's_' + type(s).__name__, self.s_unknown)(s)

    def s_unknown(self, s):
        self.event('unsupported', type(s).__name__)

    def s_Expr(self, s):
        self.ev(s.value)

    def s_Pass(self, s):
        pass

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.name_load(t.id)
            rhs = self.ev(s.value)
            self.node = s
            self.assign(t, self.iop(op, cur, rhs))
        elif isinstance(t, ast.Subscript):
            obj = self.ev(t.value)
            idx = self.ev_index(t.slice)
            cur = self.getitem(obj, idx)
            rhs = self.ev(s.value)
            self.node = s
            new = self.iop(op, cur, rhs)
            self.setitem(obj, idx, new, aug=True)
        elif isinstance(t, ast.Attribute):
            obj = self.ev(t.value)
            cur = self.getattr(obj, t.attr)
            rhs = self.ev(s.value)
            self.node = s
            new = self.iop(op, cur, rhs)
            self.setattr(obj, t.attr, new, aug=cur is new)
        else:
            self.event('unsupported', 'augtarget')

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.jdel(self.frames[-1].vars, t.id)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value), self.ev_index(t.slice))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value)
                self.mutate(o, f'del .{t.attr}')
                if isinstance(o, InstV):
                    self.jdel(o.attrs, t.attr)

    def s_Return(self, s):
        v = None if s.value is None else self.ev(s.value)
        raise ReturnSig(v)

    def s_Break(self, s):
        raise BreakSig()

    def s_Continue(self, s):
        raise ContinueSig()

    def s_Global(self, s):
        pass

    s_Nonlocal = s_Global

    def s_Assert(self, s):
        c, e, x = self.truth(self.ev(s.test))
        if c is False:
            self.throw('AssertionError', implicit=False)
        if c is None:
            self.assume(s.test, True)

    def s_Import(self, s):
        for al in s.names:
            nm = al.asname or al.name.split('.')[0]
            tgt = al.name if al.asname else al.name.split('.')[0]
            if tgt.split('.')[0] == self.package:
                v = self.load(tgt)
                if not al.asname:
                    self.load(al.name)
            else:
                v = Ext(tgt)
            self.name_store(nm, v)

    def s_ImportFrom(self, s):
        base = s.module or ''
        if s.level:
            cur = self.frames[-1].module
            pk = cur.name.split('.')
            if not cur.path.endswith('__init__.py'):
                pk = pk[:-1]
            pk = pk[:len(pk)-(s.level-1)] if s.level > 1 else pk
            base = '.'.join(pk + ([s.module] if s.module else []))
        for al in s.names:
            nm = al.asname or al.name
            if base.split('.')[0] == self.package:
                full_ = base + '.' + al.name
                if al.name == '*':
                    m = self.load(base)
                    names = m.vars.get('__all__')
                    if isinstance(names, ListV):
                        for n in names.items:
                            if n in m.vars:
                                self.name_store(n, m.vars[n])
                    continue
                if self.modfile(base) is None:
                    self.throw('ImportError', base)
                mod = self.modules.get(base)
                if mod is not None and al.name in mod.vars:
                    v = mod.vars[al.name]
                elif self.modfile(full_):
                    v = self.load(full_)
                else:
                    m = self.load(base)
                    if al.name in m.vars:
                        v = m.vars[al.name]
                    else:
                        self.throw('ImportError', full_)
            else:
                v = Ext(base + '.' + al.name)
                if v.path in self.constants:
                    v = self.constants[v.path]
            self.name_store(nm, v)

    def s_FunctionDef(self, s):
        fn = self.make_func(s, s.name)
        v = fn
        for d in reversed(s.decorator_list):
            dec = self.ev(d)
            self.node = s
            v = self.decorate(dec, v)
        self.name_store(s.name, v)

    def decorate(self, dec, fn):
        if isinstance(dec, (FuncV, Native, Bound, ClassV)):
            return self.call(dec, [fn], {})
        if isinstance(dec, InstV):
            if not isinstance(dec.cls, ClassV):
                return fn       # e.g. np.errstate(...) used as decorator
            return self.call(dec, [fn], {})
        if isinstance(dec, Ext):
            if dec.path in ('builtins.property', 'builtins.staticmethod',
                            'builtins.classmethod') or \
                    dec.path.endswith('cached_property'):
                i = InstV(dec, {'fget': fn})
                return i
            if dec.path.split('.')[-1] in ('lru_cache', 'cache') or \
                    dec.path.startswith('functools.lru_cache'):
                if isinstance(fn, FuncV):
                    fn.attrs['__cached__'] = True
                    self.event('cached-function', fn.name)
                return fn
            return fn           # numba.njit etc: identity
        return fn

    def make_func(self, node, name):
        fr = self.frames[-1]
        fn = FuncV(node, fr if fr.func is not None or fr.cls else None,
                   fr.module, name)
        fn.own = self.own_label()
        if fr.func is not None:
            fn.name = fr.name + '.' + name
        elif fr.cls:
            fn.name = fr.cls + '.' + name
        a = node.args
        fn.defaults = [self.ev(d) for d in a.defaults]
        fn.kwdefaults = {k.arg: self.ev(d) for k, d in
                         zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        for d in fn.defaults + list(fn.kwdefaults.values()):
            if isinstance(d, Obj) and d.own is None:
                d.own = 'default:' + fn.name
        fn.local_names, fn.globals_, fn.nonlocals = local_names(node)
        fn.isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom))
                       for n in ast.walk(node)) if not isinstance(
                           node, ast.Lambda) else False
        return fn

    def s_ClassDef(self, s):
        bases = [self.ev(b) for b in s.bases]
        fr = self.frames[-1]
        nf = Frame(None, fr.module, fr if fr.func else None, s.name)
        nf.cls = s.name
        nf.mark = len(self.log)
        self.frames.append(nf)
        try:
            self.block(s.body)
        finally:
            self.frames.pop()
        cls = ClassV(s.name, bases, nf.vars, fr.module)
        cls.own = self.own_label()
        for v in nf.vars.values():
            if isinstance(v, FuncV):
                v.cls = cls
                if v.frame is nf:
                    v.frame = nf.parent
            elif isinstance(v, InstV) and isinstance(
                    v.attrs.get('fget'), FuncV):
                v.attrs['fget'].cls = cls
        val = cls
        for d in reversed(s.decorator_list):
            self.ev(d)
        self.name_store(s.name, val)

    def s_If(self, s):
        tv = self.ev(s.test)
        self.node = s
        c, e, x = self.truth(tv)
        if c is True:
            self.block(s.body)
        elif c is False:
            self.block(s.orelse)
        else:
            def b1():
                self.assume(s.test, True)
                self.block(s.body)

            def b2():
                self.assume(s.test, False)
                self.block(s.orelse)
            self.fork(e | x, [b1, b2])

    # refinement of names holding alternatives
    def assume(self, test, pos):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.assume(test.operand, not pos)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) and pos or \
                    isinstance(test.op, ast.Or) and not pos:
                for v in test.values:
                    self.assume(v, pos)
            return
        pred = None
        tgt = None
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            op = test.ops[0]
            r = test.comparators[0]
            if isinstance(op, (ast.Is, ast.IsNot)) and \
                    isinstance(r, ast.Constant) and r.value is None:
                want = isinstance(op, ast.Is) == pos
                tgt = test.left

                def pred(o):
                    return (o is None) == want
            elif isinstance(op, (ast.Eq, ast.NotEq, ast.In, ast.NotIn)):
                tgt = test.left
                neg = isinstance(op, (ast.NotEq, ast.NotIn))
                try:
                    n = len(self.events)
                    rv = self.ev(r)
                    del self.events[n:]
                except (RaiseSig, Dead):
                    return

                def pred(o):
                    if not is_raw(o):
                        return True
                    try:
                        if isinstance(op, (ast.In, ast.NotIn)):
                            q = self.truth(self.contains(o, rv))[0]
                        else:
                            q = self.truth(self.cmp('Eq', o, rv))[0]
                    except (RaiseSig, Dead):
                        return True
                    if q is None:
                        return True
                    return (q != neg) == pos
        elif isinstance(test, (ast.Name, ast.Subscript, ast.Attribute)):
            tgt = test

            def pred(o):
                t = self.truth(o)[0]
                return t is None or t == pos
        elif isinstance(test, ast.Call) and isinstance(test.func, ast.Name) \
                and test.func.id in ('isinstance', 'callable') and test.args:
            tgt = test.args[0]
            fn = test.func.id
            ty = None
            if fn == 'isinstance' and len(test.args) == 2:
                ty = self.ev(test.args[1])

            def pred(o):
                if fn == 'isinstance':
                    r = self.isinstance_(o, ty)
                else:
                    r = self.is_callable(o)
                return r is None or r == pos
        if pred is None:
            return
        if isinstance(tgt, ast.NamedExpr):
            tgt = tgt.target
        if isinstance(tgt, ast.Name):
            fr = self.frames[-1]
            v = fr.vars.get(tgt.id)
            if isinstance(v, Alt):
                keep = [o for o in v.opts if pred(o)]
                if not keep:
                    raise Dead()
                if len(keep) < len(v.opts):
                    self.jset(fr.vars, tgt.id, keep[0] if len(keep) == 1
                              else Alt(keep, v.x))
        elif isinstance(tgt, ast.Subscript) and \
                isinstance(tgt.slice, ast.Constant):
            try:
                n = len(self.events)
                o = self.ev(tgt.value)
                del self.events[n:]
            except (RaiseSig, Dead):
                return
            k = tgt.slice.value
            if isinstance(o, DictV) and isinstance(o.items.get(k), Alt):
                v = o.items[k]
                keep = [p for p in v.opts if pred(p)]
                if not keep:
                    raise Dead()
                if len(keep) < len(v.opts):
                    self.jset(o.items, k, keep[0] if len(keep) == 1
                              else Alt(keep, v.x))
        elif isinstance(tgt, ast.Attribute):
            try:
                n = len(self.events)
                o = self.ev(tgt.value)
                del self.events[n:]
            except (RaiseSig, Dead):
                return
            if isinstance(o, InstV) and isinstance(o.attrs.get(tgt.attr),
                                                   Alt):
                v = o.attrs[tgt.attr]
                keep = [p for p in v.opts if pred(p)]
                if not keep:
                    raise Dead()
                if len(keep) < len(v.opts):
                    self.jset(o.attrs, tgt.attr, keep[0] if len(keep) == 1
                              else Alt(keep, v.x))

    # ----------------------------------------------------------------- loops
    def run_loop(self, s, iters, els):
        """iters: generator of (definite: bool, setup: thunk, xs)."""
        fr = self.frames[-1]
        lp = LoopCtx(self.mark(), len(self.pc))
        fr.loops.append(lp)
        depth = len(fr.loops)
        broke = False
        dead = False
        try:
            for definite, setup, xs in iters:
                self.tick()
                if definite:
                    try:
                        setup()
                        self.body_once(s, lp)
                    except BreakSig:
                        broke = True
                        break
                    except Dead:
                        dead = True
                        break
                else:
                    def run():
                        setup()
                        self.body_once(s, lp)
                    n = len(lp.breaks)
                    try:
                        self.fork(xs, [run, lambda: None])
                    except Dead:
                        dead = True
                        break
                    assert len(fr.loops) == depth
        finally:
            pass
        if not broke and not dead:
            del fr.loops[depth-1:]
            if els:
                try:
                    self.block(els)
                except Dead:
                    dead = True
        else:
            del fr.loops[depth-1:]
        if lp.breaks:
            ds = [d for d, _ in lp.breaks]
            xs = E0
            for _, x in lp.breaks:
                xs = xs | x
            if not dead:
                ds.append(self.delta(lp.mark))
            self.undo(lp.mark)
            self.apply_join(ds, lp.mark, xs if self.track_x else E0)
        elif dead:
            raise Dead()

    def body_once(self, s, lp):
        """One iteration; joins `continue` paths at its end."""
        m = self.mark()
        sv_mark, sv_conts = lp.mark, lp.conts
        lp.conts = []
        ok = True
        try:
            self.block(s.body)
        except ContinueSig:
            pass
        except Dead:
            ok = False
        conts, lp.conts = lp.conts, sv_conts
        if conts:
            # deltas of continues are relative to lp.mark
            ds = [d for d, _ in conts]
            xs = E0
            for _, x in conts:
                xs = xs | x
            if ok:
                ds.append(self.delta(lp.mark))
            self.undo(lp.mark)
            self.apply_join(ds, lp.mark, xs if self.track_x else E0)
        elif not ok:
            raise Dead()
        del m, sv_mark

    def s_For(self, s):
        it = self.ev(s.iter)
        self.node = s
        self.run_loop(s, self.iterate_(s, it), s.orelse)

    def iterate_(self, s, it):
        for definite, v, xs in self.iterate(it):
            yield (definite, (lambda v=v: self.assign(s.target, v)), xs)

    def iterate(self, it):
        """Yield (definite, element, ctrl-deps)."""
        if isinstance(it, Alt):
            opts = [o for o in it.opts if o is not ABSENT
                    and o is not UNBOUND and o is not None]
            if len(opts) == 1:
                yield from self.iterate(opts[0])
                return
            e, x = self.deps(it)
            el = None
            for o in opts:
                for _, v, _x in self.iterate(o):
                    el = v if el is None else self.join(el, v)
            if el is not None:
                for _ in range(2):
                    yield False, el, e | x
            return
        if isinstance(it, RangeV):
            cs = [self.cint(v) for v in (it.lo, it.hi, it.st)]
            if all(c is not None for c in cs) and cs[2] != 0:
                n = len(range(*cs))
                if n > 3000:
                    e, x = self.deps(it)
                    for _ in range(2):
                        yield False, self.mk('i', e=e, x=x), e | x
                    return
                e, x = self.deps(it)
                for i in range(*cs):
                    yield True, i, E0
                return
            e, x = self.deps(it)
            # bounds partly known: at least nothing
            el = self.mk('i', e=e, x=x)
            for _ in range(2):
                yield False, el, e | x
            return
        if isinstance(it, (ListV, TupleV)):
            for v in list(it.items):
                yield True, v, E0
            if it.unk is not None:
                e, x = self.deps(it.unk)
                for _ in range(2):
                    yield False, it.unk, E0
            return
        if isinstance(it, DictV):
            for k, v in list(it.items.items()):
                if isinstance(v, Alt) and ABSENT in v.opts:
                    yield False, k, v.x
                else:
                    yield True, k, E0
            if it.open is not None:
                for _ in range(2):
                    yield False, self.mk('s'), E0
            return
        if isinstance(it, str):
            for ch in it:
                yield True, ch, E0
            return
        if isinstance(it, Arr):
            if it.a is not None and it.a.ndim > 0:
                n = it.a.shape[0]
                for i in range(n):
                    v = self.getitem(it, i)
                    if 0 in it.masked:
                        e, x = self.deps(v)
                        yield False, v, e | x
                    else:
                        yield True, v, E0
                return
            if it.a is not None:
                self.throw('TypeError', 'iteration over a 0-d array')
            sh = it.shp
            if sh is not None and len(sh) == 1:
                v = it.cell[0]
            elif sh is not None and len(sh) > 1:
                v = Arr(None, it.dt, it.roots, cell=it.cell, shp=sh[1:])
            else:
                v = it.cell[0]
            if sh is not None and sh and isinstance(sh[0], int):
                if sh[0] <= 400:
                    for _ in range(sh[0]):
                        yield True, v, E0
                    return
            e, x = self.deps(v)
            for _ in range(2):
                yield False, v, E0
            return
        if isinstance(it, InstV):
            meth = self.find_attr(it, '__iter__')
            if meth is not None:
                yield from self.iterate(self.call(meth, [], {}))
                return
            if 'vf' in it.attrs:
                for line in self.vfs.step(it):
                    yield True, line, E0
                return
            if '__iter_el__' in it.attrs:
                for _ in range(2):
                    yield False, it.attrs['__iter_el__'], E0
                return
        if it is None or isinstance(it, (bool, int, float)):
            self.throw('TypeError', 'not iterable')
        e, x = self.deps(it)
        el = self.mk('?', e=e, x=x)
        for _ in range(2):
            yield False, el, e | x

    def s_While(self, s):
        def gen():
            n = 0
            unk = 0
            while True:
                c, e, x = self.truth(self.ev(s.test))
                if c is False:
                    return
                if c is True:
                    n += 1
                    if n > 400:
                        return
                    yield True, (lambda: None), E0
                else:
                    unk += 1
                    if unk > 3:
                        return
                    yield False, (lambda: self.assume(s.test, True)), e | x
        self.run_loop(s, gen(), s.orelse)

    def s_With(self, s):
        exits = []
        for it in s.items:
            v = self.ev(it.context_expr)
            if isinstance(v, InstV) and isinstance(v.cls, ClassV):
                en = self.find_attr(v, '__enter__')
                ex = self.find_attr(v, '__exit__')
                r = self.call(en, [], {}) if en is not None else v
                exits.append(ex)
            elif isinstance(v, InstV):
                r = v
                if v.attrs.get('__kind__') == 'file':
                    exits.append(('file', v))
                if v.attrs.get('__kind__') == 'suppress':
                    pass
            else:
                r = v
            if it.optional_vars is not None:
                self.assign(it.optional_vars, r)
        self.block(s.body)
        for ex in exits:
            if isinstance(ex, tuple):
                self.event('close', '', ex[1])
            elif ex is not None:
                self.call(ex, [None, None, None], {})

    def s_Raise(self, s):
        if s.exc is None:
            fr = self.frames[-1]
            cur = fr.vars.get('__exc__')
            raise RaiseSig(cur if isinstance(cur, ExcV)
                           else ExcV(Ext('builtins.Exception')))
        v = self.ev(s.exc)
        if s.cause is not None:
            self.ev(s.cause)
        if isinstance(v, ExcV):
            exc = v
        elif isinstance(v, (Ext, ClassV)):
            exc = ExcV(v)
        else:
            exc = ExcV(Ext('builtins.Exception'))
        if isinstance(s.exc, ast.Call):
            exc.implicit = False
        self.node = s
        raise RaiseSig(exc)

    def exc_match(self, exc, ty):
        """True/False/None: does except-clause type `ty` catch exc."""
        if isinstance(ty, TupleV):
            rs = [self.exc_match(exc, t) for t in ty.items]
            if True in rs:
                return True
            return None if None in rs else False

        def names(c):
            if isinstance(c, ClassV):
                out = []
                for b in c.mro():
                    out += [b] if isinstance(b, ClassV) else names(b)
                return out
            if isinstance(c, Ext):
                b = getattr(builtins, c.path.split('.')[-1], None)
                if isinstance(b, type):
                    return [Ext('builtins.'+k.__name__) for k in b.__mro__]
                return [c, Ext('builtins.Exception'),
                        Ext('builtins.BaseException')]
            return []
        if isinstance(ty, (ClassV, Ext)):
            ns = names(exc.cls)
            tt = ty
            if isinstance(ty, Ext):
                b = getattr(builtins, ty.path.split('.')[-1], None)
                if isinstance(b, type):
                    tt = Ext('builtins.'+b.__name__)
            return tt in ns
        return None

    def s_Try(self, s):
        m = self.mark()
        tc = TryCtx(m, None, len(self.pc))
        self.tries.append(tc)
        nt = len(self.tries)
        outs = []       # list of deltas for normal completion
        exc_def = None
        sig = None
        try:
            self.block(s.body)
            normal = True
        except RaiseSig as r:
            normal = False
            exc_def = r.exc
            self.exc_loc = self.node
        except (ReturnSig, BreakSig, ContinueSig) as q:
            normal = False
            sig = q
        except Dead:
            normal = False
        finally:
            del self.tries[nt-1:]
        raises = list(tc.raises)
        if exc_def is not None:
            if not raises:
                # single definite raise: run handler in current state
                return self.handle(s, exc_def)
            raises.append((exc_def, self.delta(m), E0))
        if not raises:
            if sig is not None:
                self.block(s.finalbody)
                raise sig
            if not normal:
                raise Dead()
            self.block(s.orelse)
            self.block(s.finalbody)
            return
        # several outcomes: join handlers
        xs = E0
        for _, _, x in raises:
            xs = xs | x
        base_delta = self.delta(m) if (normal or sig is not None) else None
        self.undo(m)
        thunks = []
        if normal or sig is not None:
            def norm():
                self.apply_join([base_delta], m, E0)
                if sig is not None:
                    raise sig
                self.block(s.orelse)
            thunks.append(norm)
        for exc, d, x in raises:
            def th(exc=exc, d=d):
                self.apply_join([d], m, E0)
                self.handle(s, exc, fin=False)
            thunks.append(th)
        self.fork(xs, thunks)
        self.block(s.finalbody)

    def handle(self, s, exc, fin=True):
        for h in s.handlers:
            r = True if h.type is None else self.exc_match(
                exc, self.ev(h.type))
            if r is False:
                continue
            fr = self.frames[-1]
            if h.name:
                self.name_store(h.name, exc)
            self.jset(fr.vars, '__exc__', exc)
            self.event('caught', self.exc_name(exc), exc)
            self.block(h.body)
            if fin:
                self.block(s.finalbody)
            return
        if fin:
            self.block(s.finalbody)
        raise RaiseSig(exc)

    s_TryStar = s_Try

    def s_Match(self, s):
        self.event('unsupported', 'match')

    # ----------------------------------------------------------------- names
    def name_load(self, n):
        fr = self.frames[-1]
        f = fr
        first = True
        while f is not None:
            if n in f.vars:
                v = f.vars[n]
                if v is UNBOUND:
                    self.event('unbound', n)
                    self.throw('UnboundLocalError', n)
                if isinstance(v, Alt) and UNBOUND in v.opts:
                    self.event('maybe-unbound', n, data=v.x)
                    keep = [o for o in v.opts if o is not UNBOUND]
                    v = keep[0] if len(keep) == 1 else Alt(keep, v.x)
                return v
            if first and f.locals is not None and n in f.locals:
                self.event('unbound', n)
                self.throw('UnboundLocalError', n)
            if not first and f.locals is not None and n in f.locals:
                self.event('unbound', n)
                self.throw('NameError', n)
            first = False
            f = f.parent
        m = fr.module
        if n in m.vars:
            v = m.vars[n]
            if isinstance(v, Alt) and UNBOUND in v.opts:
                keep = [o for o in v.opts if o is not UNBOUND]
                v = keep[0] if len(keep) == 1 else Alt(keep, v.x)
            if fr.func is not None and self.global_read is not None:
                self.global_read(m.name, n)
            return v
        return self.builtin(n)

    global_read = None

    def builtin(self, n):
        p = 'builtins.' + n
        if p in self.constants:
            return self.constants[p]
        if hasattr(builtins, n):
            return Ext(p)
        self.event('unbound', n)
        self.throw('NameError', n)

    def name_store(self, n, v):
        fr = self.frames[-1]
        if n in fr.globals or fr.func is not None and n in fr.func.globals_:
            self.event('global-write', f'{fr.module.name}.{n}', v)
            self.jset(fr.module.vars, n, v)
            return
        if fr.func is not None and n in fr.func.nonlocals:
            f = fr.parent
            while f is not None:
                if n in f.vars or (f.locals and n in f.locals):
                    self.jset(f.vars, n, v)
                    return
                f = f.parent
        self.jset(fr.vars, n, v)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.name_store(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, t.elts)
            for a, b in zip(t.elts, vals):
                self.assign(a.value if isinstance(a, ast.Starred) else a, b)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value), self.ev_index(t.slice), v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        else:
            self.event('unsupported', 'target')

    def unpack(self, v, elts):
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if isinstance(v, Alt):
            rows = []
            for o in v.opts:
                if o is None or o is ABSENT or o is UNBOUND:
                    continue
                try:
                    rows.append(self.unpack(o, elts))
                except RaiseSig:
                    continue
            if not rows:
                self.throw('TypeError', 'cannot unpack')
            out = rows[0]
            for r in rows[1:]:
                out = [self.join(a, b, v.x) for a, b in zip(out, r)]
            return out
        items = None
        if isinstance(v, (ListV, TupleV)) and v.unk is None:
            items = list(v.items)
        elif isinstance(v, Arr) and v.a is not None and v.a.ndim > 0 and \
                0 not in v.masked:
            items = [self.getitem(v, i) for i in range(v.a.shape[0])]
        elif isinstance(v, DictV) and v.open is None:
            items = list(v.items)
        elif isinstance(v, str):
            items = list(v)
        elif isinstance(v, RangeV):
            cs = [self.cint(q) for q in (v.lo, v.hi, v.st)]
            if None not in cs:
                items = list(range(*cs))
        if items is None:
            if v is None or isinstance(v, (int, float)):
                self.throw('TypeError', 'cannot unpack')
            if isinstance(v, (ListV, TupleV)):
                e, x = self.deps(v)
                el = v.unk
            elif isinstance(v, Arr):
                el = None
                for _, q, _x in self.iterate(v):
                    el = q
            else:
                e, x = self.deps(v)
                el = self.mk('?', e=e, x=x)
            return [el for _ in elts]
        if star:
            i = star[0]
            k = n - 1
            if len(items) < k:
                self.throw('ValueError', 'unpack')
            tail = n - i - 1
            mid = items[i:len(items)-tail]
            return items[:i] + [ListV(mid)] + (items[len(items)-tail:]
                                               if tail else [])
        if len(items) != n:
            self.throw('ValueError',
                       f'unpack {len(items)} values into {n} names')
        return items

    # ----------------------------------------------------------- expressions
    def ev(self, n):
        self.tick()
        if isinstance(n, ast.Constant):
            return n.value
        prev = self.node
        if hasattr(n, 'lineno'):
            self.node = n
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            self.event('unsupported', type(n).__name__)
            return self.mk()
        v = m(n)
        self.node = prev
        return v

    def e_Name(self, n):
        return self.name_load(n.id)

    def e_NamedExpr(self, n):
        v = self.ev(n.value)
        self.assign(n.target, v)
        return v

    def e_Tuple(self, n):
        return TupleV(self.seq(n.elts))

    def e_List(self, n):
        return ListV(self.seq(n.elts), own=self.own_label())

    def e_Set(self, n):
        return SetV(self.seq(n.elts), own=self.own_label())

    def seq(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value)
                for d, el, _x in self.iterate(v):
                    out.append(el)
            else:
                out.append(self.ev(e))
        return out

    def e_Dict(self, n):
        d = DictV(own=self.own_label())
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.ev(v)
                self.dict_update(d, o)
            else:
                kv = self.ev(k)
                vv = self.ev(v)
                self.dict_put(d, kv, vv)
        return d

    def ckey(self, k):
        """Constant hashable form of a key, or NOC."""
        if is_raw(k):
            return k
        if isinstance(k, S) and k.c is not NOC:
            return k.c
        if isinstance(k, TupleV) and k.unk is None:
            ks = [self.ckey(i) for i in k.items]
            if any(i is NOC for i in ks):
                return NOC
            return ('__t__',) + tuple(ks)
        if isinstance(k, (Ext, ClassV, FuncV)):
            return k
        return NOC

    def dict_put(self, d, k, v):
        ck = self.ckey(k)
        if ck is NOC:
            self.log.append((2, d, 'open', d.open))
            d.open = v if d.open is None else self.join(d.open, v)
            # may overwrite any known key
            for kk in list(d.items):
                self.jset(d.items, kk, self.join(d.items[kk], v))
            if isinstance(k, Alt):
                for o in k.opts:
                    c = self.ckey(o)
                    if c is not NOC and c not in d.items:
                        self.jset(d.items, c, Alt([ABSENT, v]))
        else:
            self.jset(d.items, ck, v)

    def dict_update(self, d, o):
        if isinstance(o, Alt):
            for p in o.opts:
                if isinstance(p, DictV):
                    self.dict_update(d, p)
            return
        if isinstance(o, DictV):
            for k, v in list(o.items.items()):
                if isinstance(v, Alt) and ABSENT in v.opts:
                    old = d.items.get(k, ABSENT)
                    rest = [p for p in v.opts if p is not ABSENT]
                    self.jset(d.items, k, self.mkalt([old]+rest, v.x))
                else:
                    self.jset(d.items, k, v)
            if o.open is not None:
                self.jattr(d, 'open', o.open if d.open is None
                           else self.join(d.open, o.open))
                for k in list(d.items):
                    if k not in o.items:
                        self.jset(d.items, k, self.join(d.items[k], o.open))
            return
        e, x = self.deps(o)
        if isinstance(o, (ListV, TupleV)):
            for p in o.items:
                if isinstance(p, (TupleV, ListV)) and len(p.items) == 2:
                    self.dict_put(d, p.items[0], p.items[1])
            return
        self.jattr(d, 'open', self.mk('?', e=e, x=x))

    def e_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(self.ev(v))
        return self.concat_str(parts)

    def e_FormattedValue(self, n):
        v = self.ev(n.value)
        if n.format_spec is not None:
            self.ev(n.format_spec)
        s = self.to_str(v)
        if isinstance(s, str) and n.format_spec is not None:
            try:
                fs = n.format_spec.values
                if len(fs) == 1 and isinstance(fs[0], ast.Constant) and \
                        is_raw(v):
                    return format(v, fs[0].value)
            except Exception:
                pass
            return self.mk('s', p='{}')
        return s

    def to_str(self, v):
        if isinstance(v, str):
            return v
        if is_raw(v):
            return str(v)
        if getattr(self, 'vfs', None) is not None:
            try:
                return self.vfs.numtext(v)
            except ValueError:
                pass
        if isinstance(v, S) and v.c is not NOC and v.dt == 's':
            return v
        if isinstance(v, S) and v.dt == 's' and v.p:
            return v
        if isinstance(v, Alt) and all(isinstance(o, str) for o in v.opts):
            return v
        e, x = self.deps(v)
        return self.mk('s', e=e, x=x, p='{}')

    def concat_str(self, parts):
        alts = [i for i, p in enumerate(parts) if isinstance(p, Alt)]
        if len(alts) == 1 and all(isinstance(o, str)
                                  for o in parts[alts[0]].opts):
            i = alts[0]
            return self.mkalt([self.concat_str(parts[:i] + [o] + parts[i+1:])
                               for o in parts[i].opts], parts[i].x)
        parts = [self.to_str(p) for p in parts]
        if all(isinstance(p, str) for p in parts):
            return ''.join(parts)
        e = x = E0
        pat = ''
        const = True
        cc = ''
        for p in parts:
            a, b = self.deps(p)
            e, x = e | a, x | b
            if isinstance(p, str):
                pat += p
                cc += p
            elif isinstance(p, S) and p.c is not NOC:
                pat += str(p.c)
                cc += str(p.c)
            else:
                const = False
                pat += (p.p if isinstance(p, S) and p.p else '{}')
        return self.mk('s', c=cc if const else NOC, e=e, x=x, p=pat)

    def e_Lambda(self, n):
        return self.make_func(n, '<lambda>')

    def e_IfExp(self, n):
        c, e, x = self.truth(self.ev(n.test))
        if c is True:
            return self.ev(n.body)
        if c is False:
            return self.ev(n.orelse)

        def t1():
            self.assume(n.test, True)
            return self.ev(n.body)

        def t2():
            self.assume(n.test, False)
            return self.ev(n.orelse)
        return self.fork(e | x, [t1, t2], value=True)

    def e_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)

        def rec(vals):
            v = self.ev(vals[0])
            if len(vals) == 1:
                return v
            c, e, x = self.truth(v)
            if c is not None:
                if c == isand:
                    r = rec(vals[1:])
                    return r
                return v

            def stop():
                self.assume(vals[0], not isand)
                # value is v restricted to its falsy/truthy part
                if isinstance(v, Alt):
                    keep = [o for o in v.opts
                            if self.truth(o)[0] in (None, not isand)]
                    return self.mkalt(keep, v.x) if keep else v
                if isinstance(v, S) and v.dt == 'b':
                    return S('b', not isand, v.e, v.x,
                             tuple(d.const(not isand) for d in self.domains))
                return v

            def go():
                self.assume(vals[0], isand)
                return rec(vals[1:])
            return self.addx(self.fork(e | x, [go, stop], value=True), x, E0)
        r = rec(n.values)
        if isinstance(r, S) and r.dt == 'b' or isinstance(r, Alt):
            # boolean results carry data deps of all operands through x
            pass
        return r

    def e_UnaryOp(self, n):
        v = self.ev(n.operand)
        self.node = n
        op = type(n.op).__name__
        if op == 'Not':
            c, e, x = self.truth(v)
            if c is not None:
                if e or x:
                    return self.mkc(not c, e, x)
                return not c
            f = self.facet_un('not', self.lift(v) if not isinstance(
                v, (Arr,)) else self.summ(v))
            return self.mk('b', e=e, x=x, f=f)
        return self.unop({'USub': 'neg', 'UAdd': 'pos',
                          'Invert': 'invert'}[op], v)

    def mkc(self, c, e=E0, x=E0):
        return S(dtchar(c), c, e, x, tuple(d.const(c) for d in self.domains))

    def facet_un(self, name, s):
        return tuple(d.un(name, f, s) for d, f in zip(self.domains, s.f))

    def e_BinOp(self, n):
        a = self.ev(n.left)
        b = self.ev(n.right)
        self.node = n
        return self.binop(type(n.op).__name__, a, b)

    def e_Compare(self, n):
        left = self.ev(n.left)
        res = None
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r)
            self.node = n
            v = self.compare(type(op).__name__, left, right)
            left = right
            if res is None:
                res = v
            else:
                c, e, x = self.truth(res)
                if c is False:
                    return res
                if c is True:
                    res = v
                else:
                    c2, e2, x2 = self.truth(v)
                    if c2 is False:
                        res = v
                    else:
                        res = self.mk('b', e=e | e2, x=x | x2)
            if len(n.ops) > 1 and self.truth(res)[0] is False:
                return res
        return res

    def compare(self, op, a, b):
        if op in ('Is', 'IsNot'):
            r = self.is_(a, b)
            if r is None:
                e, x = self.deps(a)
                e2, x2 = self.deps(b)
                return self.mk('b', e=E0, x=(a.x if isinstance(a, Alt)
                                             else E0) | x2 | (
                    b.x if isinstance(b, Alt) else E0))
            return r if op == 'Is' else not r
        if op in ('In', 'NotIn'):
            r = self.contains(a, b)
            if op == 'NotIn':
                c, e, x = self.truth(r)
                if c is None:
                    return self.mk('b', e=e, x=x)
                return (not c) if not (e or x) else self.mkc(not c, e, x)
            return r
        return self.cmp(op, a, b)

    def is_(self, a, b):
        if isinstance(a, Alt) or isinstance(b, Alt):
            oa = a.opts if isinstance(a, Alt) else [a]
            ob = b.opts if isinstance(b, Alt) else [b]
            rs = {self.is_(p, q) for p in oa for q in ob}
            return rs.pop() if len(rs) == 1 else None
        for p, q in ((a, b), (b, a)):
            if p is None:
                if q is None:
                    return True
                if isinstance(q, S):
                    if q.c is not NOC:
                        return q.c is None
                    return None if q.dt in '?o' else False
                return False
            if p is True or p is False:
                if isinstance(q, bool):
                    return p is q
                if isinstance(q, S):
                    if q.c is not NOC:
                        return q.c is p
                    return None if q.dt in '?ob' else False
                return False
        if a is b:
            return True
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a.path == b.path
        if isinstance(a, (InstV, ListV, DictV, FuncV, ClassV, Arr, TupleV)) \
                and isinstance(b, (InstV, ListV, DictV, FuncV, ClassV, Arr,
                                   TupleV, Ext)):
            return False
        if is_raw(a) and is_raw(b):
            return type(a) is type(b) and a == b
        return None

    def contains(self, a, b):
        if isinstance(b, Alt):
            rs = []
            for o in b.opts:
                if o is None or o is ABSENT:
                    continue
                rs.append(self.truth(self.contains(a, o)))
            cs = {r[0] for r in rs}
            e = x = E0
            for r in rs:
                e, x = e | r[1], x | r[2]
            if len(cs) == 1 and None not in cs:
                return cs.pop()
            return self.mk('b', e=e, x=x | b.x)
        if isinstance(b, DictV):
            k = self.ckey(a)
            if k is NOC:
                if not b.items and b.open is None:
                    return False
                e, x = self.deps(a)
                return self.mk('b', e=e, x=x)
            if k in b.items:
                v = b.items[k]
                if isinstance(v, Alt) and ABSENT in v.opts:
                    e, x = self.deps(v)
                    return self.mk('b', e=E0, x=v.x)
                return True
            if b.open is None:
                return False
            e, x = self.deps(b.open)
            return self.mk('b', e=e, x=x)
        if isinstance(b, str):
            if isinstance(a, str):
                return a in b
            if isinstance(a, S) and a.c is not NOC and isinstance(a.c, str):
                return self.mkc(a.c in b, a.e, a.x)
            e, x = self.deps(a)
            return self.mk('b', e=e, x=x)
        if isinstance(b, (ListV, TupleV)):
            anyunk = b.unk is not None
            e, x = E0, E0
            for o in b.items:
                r = self.cmp('Eq', a, o)
                c, e1, x1 = self.truth(r)
                if c is True:
                    ea, xa = self.deps(a)
                    return True if not (ea or xa) else self.mkc(True, ea, xa)
                if c is None:
                    anyunk = True
                e, x = e | e1, x | x1
            if anyunk:
                return self.mk('b', e=e, x=x)
            ea, xa = self.deps(a)
            return False if not (ea or xa) else self.mkc(False, ea, xa)
        if isinstance(b, RangeV):
            cs = [self.cint(v) for v in (b.lo, b.hi, b.st)]
            ca = self.cint(a)
            if None not in cs and ca is not None:
                return ca in range(*cs)
        if isinstance(b, Arr):
            r = self.cmp('Eq', a, b)
            return self.call(Ext('numpy.any'), [r], {})
        if isinstance(b, InstV):
            m = self.find_attr(b, '__contains__')
            if m is not None:
                return self.call(m, [a], {})
        e, x = self.deps(a)
        e2, x2 = self.deps(b)
        return self.mk('b', e=e | e2, x=x | x2)

    def e_Attribute(self, n):
        o = self.ev(n.value)
        self.node = n
        return self.getattr(o, n.attr)

    def e_Subscript(self, n):
        o = self.ev(n.value)
        i = self.ev_index(n.slice)
        self.node = n
        return self.getitem(o, i)

    def ev_index(self, n):
        return self.ev(n)

    def e_Slice(self, n):
        return SliceV(None if n.lower is None else self.ev(n.lower),
                      None if n.upper is None else self.ev(n.upper),
                      None if n.step is None else self.ev(n.step))

    def e_Starred(self, n):
        return self.ev(n.value)

    def e_Await(self, n):
        return self.ev(n.value)

    def e_Yield(self, n):
        fr = self.frames[-1]
        v = None if n.value is None else self.ev(n.value)
        acc = fr.vars.get('__yield__')
        if isinstance(acc, ListV):
            self.jlist(acc)
            if self.cond_depth > fr.vars.get('__yd__', 0) or fr.loops:
                acc.items.append(v)
            else:
                acc.items.append(v)
        return None

    def comp(self, n, leaf):
        fr = self.frames[-1]
        saved = {}
        names = set()
        for g in n.generators:
            for t in ast.walk(g.target):
                if isinstance(t, ast.Name):
                    names.add(t.id)
        for k in names:
            saved[k] = fr.vars.get(k, _MISSING)

        def rec(gi, definite):
            if gi == len(n.generators):
                leaf(definite)
                return
            g = n.generators[gi]
            for d, v, xs in self.iterate(self.ev(g.iter)):
                def run(d=d, v=v):
                    self.assign_local(g.target, v)
                    ok = definite and d
                    for cond in g.ifs:
                        c, e, x = self.truth(self.ev(cond))
                        if c is False:
                            return
                        if c is None:
                            ok = False
                            self.assume(cond, True)
                    rec(gi+1, ok)
                run()
        rec(0, True)
        for k, v in saved.items():
            if v is _MISSING:
                self.jdel(fr.vars, k)
            else:
                self.jset(fr.vars, k, v)

    def assign_local(self, t, v):
        if isinstance(t, ast.Name):
            self.jset(self.frames[-1].vars, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for a, b in zip(t.elts, self.unpack(v, t.elts)):
                self.assign_local(a.value if isinstance(a, ast.Starred)
                                  else a, b)

    def e_ListComp(self, n):
        items, unk = [], [None]

        def leaf(d):
            v = self.ev(n.elt)
            if d and unk[0] is None:
                items.append(v)
            else:
                unk[0] = self.join_opt(unk[0], v)
        self.comp(n, leaf)
        return ListV(items, unk[0], own=self.own_label())

    def e_GeneratorExp(self, n):
        return self.e_ListComp(n)

    def e_SetComp(self, n):
        r = self.e_ListComp(n)
        return SetV(r.items, r.unk, own=r.own)

    def e_DictComp(self, n):
        d = DictV(own=self.own_label())

        def leaf(df):
            k, v = self.ev(n.key), self.ev(n.value)
            if df:
                self.dict_put(d, k, v)
            else:
                ck = self.ckey(k)
                if ck is NOC:
                    self.dict_put(d, k, v)
                else:
                    self.jset(d.items, ck, self.mkalt(
                        [d.items.get(ck, ABSENT), v]))
        self.comp(n, leaf)
        return d

    def e_Call(self, n):
        f = self.ev(n.func)
        args, kwargs, kwopen = [], {}, None
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                for _d, el, _x in self.iterate(v):
                    args.append(el)
            else:
                args.append(self.ev(a))
        for k in n.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                if isinstance(v, Alt):
                    vs = [o for o in v.opts if isinstance(o, DictV)]
                    v = vs[0] if vs else v
                if isinstance(v, DictV):
                    for kk, vv in v.items.items():
                        if isinstance(kk, str):
                            if kk in kwargs:
                                self.throw('TypeError', 'multiple values '
                                           f'for keyword {kk}')
                            kwargs[kk] = vv
                    if v.open is not None:
                        kwopen = v.open
                else:
                    e, x = self.deps(v)
                    kwopen = self.mk('?', e=e, x=x)
            else:
                kwargs[k.arg] = v
        self.node = n
        if kwopen is not None:
            kwargs = KwOpen(kwargs, kwopen)
        return self.call(f, args, kwargs)

    # ----------------------------------------------------------------- calls
    def call(self, f, args, kwargs):
        if isinstance(f, Alt):
            opts = [o for o in f.opts if o is not None and o is not ABSENT
                    and o is not UNBOUND]
            if len(opts) == 1:
                return self.call(opts[0], args, kwargs)
            if not opts:
                self.throw('TypeError', 'not callable')
            return self.fork(f.x, [
                (lambda o=o: self.call(o, args, kwargs)) for o in opts],
                value=True)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Bound):
            return self.call(f.func, [f.self] + list(args), kwargs)
        if isinstance(f, Native):
            return f.fn(self, list(args), kwargs)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Ext):
            return self.call_ext(f, list(args), kwargs)
        if isinstance(f, DtypeV):
            return self.call_ext(Ext('numpy.asarray_scalar'),
                                 list(args) + [f], {})
        if isinstance(f, InstV):
            if '__call__' in f.attrs:
                return self.call(f.attrs['__call__'], args, kwargs)
            m = self.find_attr(f, '__call__')
            if m is not None:
                return self.call(m, args, kwargs)
        if is_raw(f) or isinstance(f, (Arr, ListV, TupleV, DictV)):
            self.throw('TypeError', f'{f!r} not callable')
        return self.unknown_result(f, args, kwargs)

    def unknown_result(self, f, args, kwargs):
        e, x = self.deps(f)
        for a in list(args) + list(kwargs.values()):
            a1, b1 = self.deps(a)
            e, x = e | a1, x | b1
        return self.mk('?', e=e, x=x)

    def call_ext(self, f, args, kwargs):
        p = f.path
        ov = self.ext_overrides.get(p)
        if ov is not None:
            return ov(self, args, kwargs)
        fn = self.intrinsics.get(p)
        if fn is not None:
            return fn(self, args, kwargs)
        # exceptions
        b = getattr(builtins, p.split('.')[-1], None) \
            if p.startswith('builtins.') else None
        if isinstance(b, type) and issubclass(b, BaseException):
            x = E0
            return ExcV(f, tuple(args), x=x)
        pre = p.rsplit('.', 1)[0]
        fb = self.fallbacks.get(p.split('.')[0])
        del pre
        if fb is not None:
            return fb(self, p, args, kwargs)
        self.unknown_calls[p] = self.unknown_calls.get(p, 0) + 1
        r = self.unknown_result(f, args, kwargs)
        return r

    fallbacks = {}

    def bind(self, f, args, kwargs):
        a = f.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        vars_ = {}
        nargs = len(args)
        kw = dict(kwargs)
        opn = getattr(kwargs, 'open', None)
        for i, n in enumerate(names):
            if i < nargs:
                vars_[n] = args[i]
                if n in kw:
                    self.throw('TypeError',
                               f'{f.name}() got multiple values for {n}')
            elif n in kw:
                vars_[n] = kw.pop(n)
            else:
                j = i - (len(names) - len(f.defaults))
                if j >= 0:
                    vars_[n] = f.defaults[j]
                    if opn is not None:
                        vars_[n] = self.join(f.defaults[j], opn)
                elif opn is not None:
                    vars_[n] = opn
                else:
                    self.throw('TypeError',
                               f'{f.name}() missing argument {n}')
        if nargs > len(names):
            if a.vararg:
                vars_[a.vararg.arg] = TupleV(args[len(names):])
            else:
                self.throw('TypeError', f'{f.name}() takes {len(names)} '
                           f'positional arguments, {nargs} given')
        elif a.vararg:
            vars_[a.vararg.arg] = TupleV(())
        for k in a.kwonlyargs:
            if k.arg in kw:
                vars_[k.arg] = kw.pop(k.arg)
            elif k.arg in f.kwdefaults:
                vars_[k.arg] = f.kwdefaults[k.arg]
            else:
                self.throw('TypeError', f'{f.name}() missing {k.arg}')
        for n in list(kw):
            v = kw[n]
            if isinstance(v, Alt) and ABSENT in v.opts and a.kwarg is None:
                pass
        if a.kwarg:
            vars_[a.kwarg.arg] = DictV(kw, open=opn)
        elif kw:
            self.throw('TypeError',
                       f'{f.name}() got unexpected keyword {sorted(kw)}')
        # possibly-absent values: default joined
        for i, n in enumerate(names):
            v = vars_.get(n)
            if isinstance(v, Alt) and ABSENT in v.opts:
                keep = [o for o in v.opts if o is not ABSENT]
                j = i - (len(names) - len(f.defaults))
                if j >= 0:
                    keep.append(f.defaults[j])
                vars_[n] = self.mkalt(keep, v.x)
        return vars_

    def call_func(self, f, args, kwargs):
        if len(self.frames) > self.MAXDEPTH:
            self.event('recursion', f.name)
            return self.unknown_result(f, args, kwargs)
        if self.call_hook is not None:
            r = self.call_hook(self, f, args, kwargs)
            if r is not None:
                return r[0]
        key = (f.module.name, f.name)
        self.callstats[key] = self.callstats.get(key, 0) + 1
        vars_ = self.bind(f, args, kwargs)
        fr = Frame(f, f.module, f.frame, f.name)
        fr.vars = vars_
        fr.locals = f.local_names
        fr.globals = f.globals_
        fr.nonlocals = f.nonlocals
        m = self.mark()
        fr.mark = m
        fr.pcdepth = len(self.pc)
        node = self.node
        nfr = len(self.frames)
        self.frames.append(fr)
        sphase, self.phase = self.phase, (
            self.phase if self.phase else None)
        val = None
        alive = True
        if f.isgen:
            fr.vars['__yield__'] = ListV()
        try:
            if isinstance(f.node, ast.Lambda):
                val = self.ev(f.node.body)
            else:
                self.block(f.node.body)
        except ReturnSig as r:
            val = r.value
        except Dead:
            alive = False
        except RaiseSig:
            if fr.pending:
                # some paths returned, the remaining path definitely raises
                import sys
                self.on_raise(sys.exc_info()[1].exc)
                alive = False
            else:
                del self.frames[nfr:]
                self.phase = sphase
                raise
        finally:
            self.phase = sphase
        del self.frames[nfr:]
        self.node = node
        if fr.pending:
            outs = list(fr.pending)
            xs = E0
            for _, _, x in outs:
                xs = xs | x
            deltas = [d for _, d, _ in outs]
            vals = [v for v, _, _ in outs]
            if alive:
                deltas.append(self.delta(m))
                vals.append(val)
            self.undo(m)
            xx = xs if self.track_x else E0
            self.apply_join(deltas, m, xx if len(deltas) > 1 else E0)
            val = vals[0]
            for v in vals[1:]:
                val = self.join(val, v, xx)
        elif not alive:
            raise Dead()
        if f.isgen:
            return fr.vars['__yield__']
        if self.ret_hook is not None:
            self.ret_hook(self, f, vars_, val)
        return val

    ret_hook = None

    def instantiate(self, cls, args, kwargs):
        new = cls.lookup('__new__')
        ext = [c for c in cls.mro() if isinstance(c, Ext)]
        if isinstance(new, FuncV):
            o = self.call_func(new, [cls] + list(args), kwargs)
            return o
        for c in ext:
            if c.path in ('builtins.Exception', 'builtins.ValueError',
                          'builtins.TypeError', 'builtins.RuntimeError'):
                return ExcV(cls, tuple(args))
        inst = InstV(cls, own=self.own_label())
        init = cls.lookup('__init__')
        if any(c.path not in ('builtins.object',) for c in ext):
            inst.open = self.mk()
        if isinstance(init, FuncV):
            self.call_func(init, [inst] + list(args), kwargs)
        return inst

    # ------------------------------------------------------------ attributes
    def find_attr(self, o, name):
        """Bound class attribute of an instance, or None."""
        if isinstance(o, InstV) and isinstance(o.cls, ClassV):
            v = o.cls.lookup(name)
            if isinstance(v, FuncV):
                return Bound(v, o)
            return v
        return None

    def getattr(self, o, name, default=_MISSING):
        fn = self.attr_table.get(type(o))
        if fn is not None:
            return fn(self, o, name, default)
        return self.attr_unknown(o, name)

    attr_table = {}

    def attr_unknown(self, o, name):
        e, x = self.deps(o)
        return self.mk('?', e=e, x=x)

    def setattr(self, o, name, v, aug=False):
        if isinstance(o, Alt):
            for p in o.opts:
                if isinstance(p, InstV):
                    self.setattr(p, name, v)
            return
        if isinstance(o, InstV):
            self.mutate(o, f'.{name} =')
            self.jset(o.attrs, name, v)
            self.escape(o, v)
            return
        if isinstance(o, ModV):
            self.event('global-write', f'{o.name}.{name}', v)
            self.jset(o.vars, name, v)
            return
        if isinstance(o, ClassV):
            self.event('state-write', f'class {o.name}.{name}', o)
            self.jset(o.attrs, name, v)
            return
        if isinstance(o, FuncV):
            if not self.phase:
                self.event('state-write', f'function {o.name}.{name}', o)
            self.jset(o.attrs, name, v)
            return
        if isinstance(o, Arr):
            if name in ('real', 'imag'):
                tgt = self.getattr(o, name)
                self.setitem(tgt, SliceV(None, None, None), v)
                return
            self.mutate(o, f'.{name} =')
            if name == 'shape' and o.a is not None:
                sh = self.const_shape(v)
                if sh is not None:
                    o.a = o.a.reshape(sh)
                else:
                    o.cell, o.shp = [self.summ(o)], None
                    o.a = None
            return
        if isinstance(o, Ext):
            self.event('ext-write', f'{o.path}.{name}', v)
            return
        self.event('setattr-unknown', name)

    def const_shape(self, v):
        if isinstance(v, (TupleV, ListV)) and v.unk is None:
            cs = [self.cint(i) for i in v.items]
            return None if None in cs else tuple(cs)
        c = self.cint(v)
        return None if c is None else (c,)

    def mutate(self, o, what):
        """Record a mutation of heap object/array o with its owner labels."""
        self.mutations += 1
        if self.phase and not isinstance(o, Arr):
            return
        labels = set(o.roots) if isinstance(o, Arr) else (
            {o.own} if o.own else set())
        if labels:
            self.event('mutate', what, frozenset(labels))

    def escape(self, container, v):
        """v becomes reachable from a container with an owner label."""
        own = getattr(container, 'own', None)
        if not own or not (own.startswith('import:') or
                           own.startswith('glob:') or
                           own.startswith('default:')):
            return
        if self.phase:
            return
        self.mark_own(v, 'glob:' + own.split(':', 1)[1])

    def mark_own(self, v, label, seen=None):
        if seen is None:
            seen = set()
        if id(v) in seen:
            return
        seen.add(id(v))
        if isinstance(v, Arr):
            self.jattr(v, 'roots', v.roots | {label})
        elif isinstance(v, Obj):
            if v.own is None:
                self.jattr(v, 'own', label)
            its = []
            if isinstance(v, ListV):
                its = v.items
            elif isinstance(v, DictV):
                its = list(v.items.values())
            elif isinstance(v, InstV):
                its = list(v.attrs.values())
            for i in its:
                self.mark_own(i, label, seen)
        elif isinstance(v, (TupleV, Alt)):
            for i in (v.items if isinstance(v, TupleV) else v.opts):
                self.mark_own(i, label, seen)

    # ----------------------------------------------------------------- truth
    def truth(self, v):
        """(True/False/None, e, x)"""
        if is_raw(v):
            return bool(v), E0, E0
        if isinstance(v, S):
            if v.c is not NOC:
                try:
                    return bool(v.c), v.e, v.x
                except Exception:
                    pass
            return None, v.e, v.x
        if isinstance(v, Alt):
            e, x = E0, v.x
            cs = set()
            for o in v.opts:
                if o is ABSENT or o is UNBOUND:
                    continue
                c, a, b = self.truth(o)
                cs.add(c)
                if c is None:
                    e, x = e | a, x | b
                else:
                    x = x | b
            if len(cs) == 1:
                return cs.pop(), e, x
            return None, e, x
        if isinstance(v, (ListV, TupleV)):
            if v.items:
                return True, E0, E0
            if v.unk is None:
                return False, E0, E0
            e, x = self.deps(v.unk)
            return None, e, x
        if isinstance(v, DictV):
            if any(not (isinstance(q, Alt) and ABSENT in q.opts)
                   for q in v.items.values()):
                return True, E0, E0
            if not v.items and v.open is None:
                return False, E0, E0
            e, x = self.deps(v)
            return None, e, x
        if isinstance(v, Arr):
            if v.a is not None and v.a.size == 1:
                return self.truth(v.a.flat[0])
            if v.a is not None and v.a.size == 0:
                return False, E0, E0
            if v.a is not None and v.a.size > 1 and not v.masked:
                self.throw('ValueError', 'truth value of an array')
            s = self.summ(v)
            return None, s.e, s.x
        if isinstance(v, RangeV):
            cs = [self.cint(q) for q in (v.lo, v.hi, v.st)]
            if None not in cs:
                return len(range(*cs)) > 0, E0, E0
            e, x = self.deps(v)
            return None, e, x
        if isinstance(v, (FuncV, ClassV, ModV, Native, Bound, Ext, DtypeV,
                          ExcV)):
            return True, E0, E0
        if isinstance(v, InstV):
            if isinstance(v.cls, ClassV):
                m = self.find_attr(v, '__bool__') or self.find_attr(
                    v, '__len__')
                if m is not None:
                    return self.truth(self.call(m, [], {}))
                if v.open is None:
                    return True, E0, E0
            e, x = self.deps(v)
            return None, e, x
        e, x = self.deps(v)
        return None, e, x

    def cint(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, S):
            if v.c is not NOC and isinstance(v.c, (int,)):
                return int(v.c)
            if v.c is not NOC and isinstance(v.c, np.integer):
                return int(v.c)
            return None
        if isinstance(v, Arr) and v.a is not None and v.a.size == 1 and \
                v.a.ndim == 0:
            return self.cint(v.a.flat[0])
        if isinstance(v, np.integer):
            return int(v)
        return None

    def cval(self, v):
        """Constant python value or NOC."""
        if is_raw(v):
            return v
        if isinstance(v, S):
            return v.c
        if isinstance(v, Arr) and v.a is not None and v.a.ndim == 0:
            return self.cval(v.a[()])
        return NOC

    def is_callable(self, o):
        if isinstance(o, (FuncV, Bound, Native, ClassV, Ext)):
            return True
        if isinstance(o, InstV):
            if '__call__' in o.attrs:
                return True
            return self.find_attr(o, '__call__') is not None or (
                None if o.open is not None else False)
        if isinstance(o, S):
            if o.dt in 'bifcs' or o.c is not NOC:
                return False
            return None
        if isinstance(o, Alt):
            rs = {self.is_callable(p) for p in o.opts}
            return rs.pop() if len(rs) == 1 else None
        return False


class KwOpen(dict):
    """kwargs with unknown further keywords."""

    def __init__(self, d, opn):
        super().__init__(d)
        self.open = opn
