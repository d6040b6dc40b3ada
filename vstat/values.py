"""Abstract values of the interpreter.

Raw Python constants (int, float, complex, bool, str, bytes, None, Ellipsis,
slice-less) stand for themselves.  Everything else is one of the classes below.
NumPy object arrays are used purely as *containers of abstract scalars*: they
give exact shape/view/indexing semantics to the abstract arrays.
"""
import numpy as np

E0 = frozenset()


class _NoC:
    __slots__ = ()

    def __repr__(self):
        return '<?>'


NOC = _NoC()


class S:
    """Abstract scalar (also the universal unknown, dt='?').

    dt : 'b','i','f','c' numeric kind, 's' string, 'o' object, '?' unknown
    c  : constant value or NOC
    e  : labels this value may depend on by data flow
    x  : labels this value may depend on by control flow
    f  : tuple of facet values, aligned with engine.domains (None = unknown)
    p  : payload (e.g. pattern of a partially known string)
    """
    __slots__ = ('dt', 'c', 'e', 'x', 'f', 'p')

    def __init__(self, dt='?', c=NOC, e=E0, x=E0, f=None, p=None):
        self.dt = dt
        self.c = c
        self.e = e
        self.x = x
        self.f = f
        self.p = p

    def __repr__(self):
        s = f'S<{self.dt}'
        if self.c is not NOC:
            s += f' {self.c!r}'
        if self.e:
            s += ' e=' + ','.join(sorted(map(str, self.e)))
        if self.x:
            s += ' x=' + ','.join(sorted(map(str, self.x)))
        if self.f and any(v is not None for v in self.f):
            s += f' {self.f}'
        return s + '>'


class Arr:
    """Abstract array.  `a` object ndarray of scalars (raw or S), or None when
    the shape is unknown ("smashed"): then cell=[scalar], shp=tuple|None."""
    __slots__ = ('a', 'cell', 'shp', 'dt', 'roots', 'masked', 'cls', 'scalar0',
                 'rag')

    def __init__(self, a=None, dt='?', roots=E0, cell=None, shp=None,
                 masked=E0, cls=None):
        self.rag = None
        self.a = a
        self.cell = cell
        self.shp = shp
        self.dt = dt
        self.roots = roots
        self.masked = masked     # axes whose length is only an upper bound
        self.cls = cls
        self.scalar0 = False

    @property
    def smashed(self):
        return self.a is None

    def cells(self):
        if self.a is None:
            return [self.cell[0]]
        return list(self.a.flat)

    def __repr__(self):
        if self.a is None:
            return f'Arr<smashed {self.shp} {self.dt} {self.cell[0]}>'
        return f'Arr<{self.a.shape} {self.dt} {list(self.a.flat)[:3]}..>'


class Obj:
    """Base of heap objects with an owner label (None = local)."""
    own = None


class ListV(Obj):
    __slots__ = ('items', 'unk', 'own')

    def __init__(self, items=(), unk=None, own=None):
        self.items = list(items)
        self.unk = unk     # if not None: abstract element of unknown tail
        self.own = own

    def __repr__(self):
        return f'ListV{self.items}{"+..." if self.unk is not None else ""}'


class SetV(ListV):
    __slots__ = ()


class TupleV:
    __slots__ = ('items', 'unk')

    def __init__(self, items=(), unk=None):
        self.items = tuple(items)
        self.unk = unk

    def __repr__(self):
        return f'TupleV{self.items}'


ABSENT = type('ABSENT', (), {'__repr__': lambda s: 'ABSENT'})()
UNBOUND = type('UNBOUND', (), {'__repr__': lambda s: 'UNBOUND'})()


class DictV(Obj):
    """items: const key -> value (value may be Alt incl. ABSENT);
    open: value for unknown other keys or None."""
    __slots__ = ('items', 'open', 'own')

    def __init__(self, items=(), open=None, own=None):
        self.items = dict(items)
        self.open = open
        self.own = own

    def __repr__(self):
        return f'DictV{self.items}{"+..." if self.open is not None else ""}'


class InstV(Obj):
    __slots__ = ('cls', 'attrs', 'own', 'open')

    def __init__(self, cls, attrs=None, own=None, open=None):
        self.cls = cls
        self.attrs = {} if attrs is None else attrs
        self.own = own
        self.open = open

    def __repr__(self):
        return f'InstV<{getattr(self.cls, "name", self.cls)} {list(self.attrs)}>'


class Alt:
    """Finite set of alternatives of different kinds."""
    __slots__ = ('opts', 'x')

    def __init__(self, opts, x=E0):
        self.opts = list(opts)
        self.x = x

    def __repr__(self):
        return f'Alt{self.opts}'


class FuncV:
    __slots__ = ('node', 'frame', 'module', 'name', 'defaults', 'kwdefaults',
                 'attrs', 'own', 'cls', 'local_names', 'globals_', 'nonlocals',
                 'isgen')

    def __init__(self, node, frame, module, name):
        self.node = node
        self.frame = frame
        self.module = module
        self.name = name
        self.defaults = []
        self.kwdefaults = {}
        self.attrs = {}
        self.own = None
        self.cls = None

    def __repr__(self):
        return f'FuncV<{self.module.name}.{self.name}>'


class Bound:
    __slots__ = ('func', 'self')

    def __init__(self, func, self_):
        self.func = func
        self.self = self_

    def __repr__(self):
        return f'Bound<{self.func} {type(self.self).__name__}>'


class ClassV:
    __slots__ = ('name', 'bases', 'attrs', 'module', 'own')

    def __init__(self, name, bases, attrs, module):
        self.name = name
        self.bases = bases
        self.attrs = attrs
        self.module = module
        self.own = None

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                out += [c for c in b.mro() if c not in out]
            else:
                out.append(b)
        return out

    def lookup(self, name):
        for c in self.mro():
            if isinstance(c, ClassV) and name in c.attrs:
                return c.attrs[name]
        return None

    def __repr__(self):
        return f'ClassV<{self.name}>'


class ModV:
    __slots__ = ('name', 'path', 'tree', 'vars', 'own', 'globals_written')

    def __init__(self, name, path, tree):
        self.name = name
        self.path = path
        self.tree = tree
        self.vars = {}
        self.own = None

    def __repr__(self):
        return f'ModV<{self.name}>'


class Ext:
    """Something outside the analysed package, by dotted path."""
    __slots__ = ('path', 'e')

    def __init__(self, path, e=E0):
        self.path = path
        self.e = e

    def __repr__(self):
        return f'Ext<{self.path}>'

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(self.path)


class Native:
    """A Python-implemented callable: fn(eng, args, kwargs)."""
    __slots__ = ('fn', 'name')

    def __init__(self, fn, name='native'):
        self.fn = fn
        self.name = name

    def __repr__(self):
        return f'Native<{self.name}>'


class DtypeV:
    __slots__ = ('dt', 'src')

    def __init__(self, dt, src=None):
        self.dt = dt
        self.src = src

    def __repr__(self):
        return f'dtype({self.dt})'


class SliceV:
    __slots__ = ('lo', 'hi', 'st')

    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st

    def __repr__(self):
        return f'slice({self.lo},{self.hi},{self.st})'


class RangeV:
    __slots__ = ('lo', 'hi', 'st')

    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st


class SuperV:
    __slots__ = ('cls', 'self')

    def __init__(self, cls, self_):
        self.cls, self.self = cls, self_


class ExcV:
    """Exception instance (cls: Ext('builtins.X') or ClassV)."""
    __slots__ = ('cls', 'args', 'implicit', 'x')

    def __init__(self, cls, args=(), implicit=False, x=E0):
        self.cls, self.args, self.implicit, self.x = cls, args, implicit, x

    def __repr__(self):
        return f'ExcV<{self.cls} {self.args}>'


RAW = (bool, int, float, complex, str, bytes, type(None), type(Ellipsis))


def is_raw(v):
    return isinstance(v, RAW)


def is_scalar(v):
    return isinstance(v, S) or isinstance(v, (bool, int, float, complex))


def dtchar(v):
    if isinstance(v, bool):
        return 'b'
    if isinstance(v, int):
        return 'i'
    if isinstance(v, float):
        return 'f'
    if isinstance(v, complex):
        return 'c'
    if isinstance(v, str):
        return 's'
    if isinstance(v, (S, Arr, DtypeV)):
        return v.dt
    return 'o'


_ORD = {'b': 0, 'i': 1, 'f': 2, 'c': 3}


def promote(*dts):
    m = 0
    for d in dts:
        if d not in _ORD:
            return '?'
        m = max(m, _ORD[d])
    return 'bifc'[m]


def oarr(x, shape=None):
    """Object array from scalar or flat list + shape."""
    if shape is None:
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    a = np.empty(len(x), dtype=object)
    for i, v in enumerate(x):
        a[i] = v
    return a.reshape(shape)


def full(shape, v):
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*a.shape):
        a[i] = v
    return a
