"""Abstract files and number texts.

Files are texts in a dictionary owned by the analysis (the real file system is
never touched).  A symbolic number is written as a *marker*: a number with 17
significant digits that is tied to its value number.  Text operations (format,
join, split, parse) then work on plain text, and a text that is read back is
the symbolic number only if every digit survived.
"""
import argparse
import io
import json
import posixpath
import random
import re

from .values import (NOC, S, Arr, ListV, TupleV, DictV, InstV, ClassV, Ext,
                     Native, DtypeV, is_raw)
from .pymodel import elements, arg
from . import npmodel

CWD = '/work/dir'
LOCALE = 'ascii'            # default text encoding of the modelled machine
ZONE = 'Mitteleurop\u00e4ische Zeit'


class VFS:
    def __init__(self, eng):
        self.eng = eng
        self.files = {}      # path -> bytes
        self.log = []        # ('w'|'r'|'mkdir', path)
        self.num = {}        # marker -> S
        self.mark = {}       # value number key -> marker
        self.out = []        # printed values
        eng.vfs = self
        o = eng.ext_overrides
        o['builtins.open'] = o['io.open'] = o['codecs.open'] = self.open
        o['json.dump'] = self.jdump
        o['json.dumps'] = self.jdumps
        o['json.load'] = self.jload
        o['json.loads'] = self.jloads
        o['json.JSONEncoder.default'] = self.jdefault
        o['numpy.savetxt'] = self.savetxt
        o['numpy.loadtxt'] = o['numpy.genfromtxt'] = self.loadtxt
        o['numpy.fromfile'] = self.fromfile
        o['numpy.fromstring'] = self.fromstring
        o['time.strftime'] = lambda e, a, k: f'Mon Jan 01 00:00:00 2024 {ZONE}'
        o['os.makedirs'] = o['os.mkdir'] = self.mkdir
        o['builtins.float'] = self.parse(o.get('builtins.float'), 'float')
        o['builtins.int'] = self.parse(o.get('builtins.int'), 'int')
        o['builtins.complex'] = self.parse(o.get('builtins.complex'),
                                           'complex')
        o['builtins.print'] = self.print
        for n in ('abspath', 'realpath', 'normpath', 'dirname', 'basename',
                  'splitext', 'isfile', 'exists', 'isdir', 'join',
                  'expanduser', 'isabs'):
            o['os.path.'+n] = self.ospath(n)
        for n in ('split', 'findall', 'sub', 'match', 'search', 'fullmatch'):
            o['re.'+n] = self.regex(n)

    # ---------------------------------------------------------- text helpers
    def text(self, v):
        """Concrete text of a value, or None."""
        if isinstance(v, str):
            return v
        if isinstance(v, S) and isinstance(v.c, str):
            return v.c
        return None

    def s(self, v):
        t = self.text(v)
        if t is None:
            raise ValueError(f'text not concrete: {v!r}')
        return t

    def ospath(self, n):
        eng = self.eng
        old = eng.intrinsics.get('os.path.'+n)

        def fn(eng, a, kw):
            ts = [self.text(v) for v in a]
            if None in ts:
                return old(eng, a, kw)
            if n == 'isfile':
                return self.path(ts[0]) in self.files
            if n in ('exists', 'isdir'):
                p = self.path(ts[0])
                return p in self.files or any(
                    f.startswith(p.rstrip('/')+'/') for f in self.files)
            if n in ('abspath', 'realpath'):
                return self.path(ts[0])
            r = getattr(posixpath, n)(*ts)
            return TupleV(list(r)) if isinstance(r, tuple) else r
        return fn

    def path(self, p):
        return posixpath.normpath(posixpath.join(CWD, p))

    def regex(self, n):
        old = self.eng.intrinsics.get('re.'+n)

        def fn(eng, a, kw):
            ts = [self.text(v) for v in a]
            if None in ts and n != 'sub' or kw:
                if old is None:
                    raise ValueError('re.'+n)
                return old(eng, a, kw)
            r = getattr(re, n)(*ts)
            if isinstance(r, list):
                return ListV([TupleV(list(q)) if isinstance(q, tuple) else q
                              for q in r])
            if isinstance(r, re.Match):
                m = InstV(Ext('re.Match'), {})
                m.attrs['group'] = Native(
                    lambda eng, a, kw: r.group(*a), 'group')
                m.attrs['groups'] = Native(
                    lambda eng, a, kw: TupleV(list(r.groups())), 'groups')
                return m
            return r
        return fn

    def mkdir(self, eng, a, kw):
        self.log.append(('mkdir', self.path(self.s(a[0]))))

    def print(self, eng, a, kw):
        self.out.append(list(a))
        eng.event('print', str(a[0])[:60] if a else '', list(a))
        f = kw.get('file')
        if isinstance(f, InstV) and 'vf' in f.attrs:
            end = kw.get('end', '\n')
            self.write(f, ' '.join(self.numtext(v) for v in a) + end)

    # ------------------------------------------------------- number markers
    def marker(self, v):
        """Python float/int standing for the scalar v."""
        if is_raw(v):
            return v
        if v.c is not NOC and (v.f is None or v.f[0] is None):
            return v.c
        f = v.f[0] if v.f else None
        if f is None:
            raise ValueError('number without value number')
        key = (f.key, v.dt)
        m = self.mark.get(key)
        if m is None:
            rnd = random.Random(repr(key))
            if v.dt == 'i':
                m = rnd.randrange(10**14, 10**15)
            else:
                m = rnd.uniform(1., 9.)*10.**rnd.randrange(-9, 9)
            self.mark[key] = m
            self.num[m] = v
        return m

    def pair(self, v):
        """(real, imag) markers of a complex scalar."""
        eng = self.eng
        if is_raw(v):
            return complex(v).real, complex(v).imag
        return (self.marker(eng.sun('real', v)),
                self.marker(eng.sun('imag', v)))

    def back(self, x):
        """Scalar of a parsed Python number."""
        if isinstance(x, bool) or x != x:
            return x
        v = self.num.get(x)
        if v is None and x < 0:
            v = self.num.get(-x)
            if v is not None:
                return self.eng.sun('neg', v)
        if v is None:
            return x
        if isinstance(x, float) and v.dt == 'i':
            return self.eng.sun('float', v)
        return S(v.dt, v.c, v.e, v.x, v.f)

    def cplx(self, re_, im):
        eng = self.eng
        if is_raw(re_) and is_raw(im):
            return complex(re_, im)
        return eng.sbin('+', eng.lift(re_), eng.sbin(
            '*', eng.lift(1j), eng.lift(im)))

    def numtext(self, v):
        """Text of a value as by str()."""
        eng = self.eng
        t = self.text(v)
        if t is not None:
            return t
        if is_raw(v):
            return str(v)
        if isinstance(v, S) and v.dt in 'if':
            return repr(self.marker(v))
        if isinstance(v, S) and v.dt == 'c':
            r, i = self.pair(v)
            return str(complex(r, i))
        if isinstance(v, (TupleV, ListV)) and v.unk is None:
            q = [self.reprtext(i) for i in v.items]
            if isinstance(v, ListV):
                return '[' + ', '.join(q) + ']'
            return '(' + ', '.join(q) + (',)' if len(q) == 1 else ')')
        if isinstance(v, DtypeV):
            return self.s(eng.getattr(v, 'name'))
        raise ValueError(f'no text for {v!r}')

    def reprtext(self, v):
        return repr(v) if isinstance(v, str) else self.numtext(v)

    def parse(self, old, n):
        eng = self.eng
        old = old or eng.intrinsics['builtins.'+n]

        def fn(eng, a, kw):
            t = self.text(a[0]) if a else None
            if t is not None and len(a) == 1:
                try:
                    if n == 'int':
                        return self.back(int(t))
                    if n == 'float':
                        return self.back(float(t))
                    return self.ctext(t)
                except ValueError as ex:
                    eng.throw('ValueError', str(ex))
            r = old(eng, a, kw)
            if isinstance(r, S) and r.p in ('np', 'np32', 'py'):
                r = S(r.dt, r.c, r.e, r.x, r.f)
            return r
        return fn

    def ctext(self, t):
        c = complex(t.strip().replace('+-', '-'))
        return self.cplx(self.back(c.real), self.back(c.imag))

    # ------------------------------------------------------------------ files
    def open(self, eng, a, kw):
        mode = self.s(arg(a, kw, 1, 'mode', 'r'))
        enc = arg(a, kw, 3, 'encoding', None)
        p = self.path(self.s(a[0]))
        f = InstV(Ext('builtins.file'), {
            '__kind__': 'file', 'path': a[0], 'mode': mode, 'vf': p,
            'encoding': enc, 'name': a[0]})
        eng.event('open', mode, f)
        f.attrs['pos'] = 0
        f.attrs['enc'] = self.text(enc) or LOCALE
        if 'r' in mode and '+' not in mode:
            self.log.append(('r', p))
            if p not in self.files:
                eng.throw('FileNotFoundError', p)
            try:
                f.attrs['data'] = self.files[p].decode(f.attrs['enc'])
            except UnicodeDecodeError:
                eng.throw('UnicodeDecodeError', p)
        else:
            self.log.append(('w', p))
            if 'x' in mode and p in self.files:
                eng.throw('FileExistsError', p)
            if 'a' not in mode and 'r' not in mode:
                self.files[p] = b''
            self.files.setdefault(p, b'')
            f.attrs['data'] = None
        return f

    def write(self, f, t):
        if f.attrs['data'] is not None:
            self.eng.throw('OSError', 'not writable')
        try:
            self.files[f.attrs['vf']] += t.encode(f.attrs['enc'])
        except UnicodeEncodeError:
            self.eng.throw('UnicodeEncodeError', f.attrs['vf'])

    def lines(self, f):
        d = f.attrs['data']
        if d is None:
            self.eng.throw('OSError', 'not readable')
        out = re.findall('[^\n]*\n|[^\n]+', d[f.attrs['pos']:])
        f.attrs['pos'] = len(d)
        return out

    def step(self, f):
        d = f.attrs['data']
        if d is None:
            self.eng.throw('OSError', 'not readable')
        while f.attrs['pos'] < len(d):
            m = re.compile('[^\n]*\n|[^\n]+').match(d, f.attrs['pos'])
            f.attrs['pos'] = m.end()
            yield m.group()

    def attr(self, f, n):
        def wr(eng, a, kw):
            eng.event('fwrite', n, (f, list(a)))
            its = [a[0]] if n == 'write' else elements(eng, a[0])[0]
            for v in its:
                self.write(f, self.s(v))
            return len(a)

        def rd(eng, a, kw):
            eng.event('fread', n, (f, list(a)))
            d = f.attrs['data']
            if n == 'readline':
                return next(self.step(f), '')
            q = d[f.attrs['pos']:]
            f.attrs['pos'] = len(d)
            return q

        def rdl(eng, a, kw):
            eng.event('fread', n, (f, list(a)))
            return ListV(self.lines(f))
        if n in ('write', 'writelines'):
            return Native(wr, n)
        if n in ('read', 'readline'):
            return Native(rd, n)
        if n in ('readlines', '__iter__'):
            return Native(rdl, n)
        if n in ('close', 'flush'):
            return Native(lambda eng, a, kw: eng.event('close', '', f)
                          and None, n)
        raise ValueError('file.'+n)

    # ------------------------------------------------------------------- json
    def py(self, v, enc, depth=0):
        """Python data of an abstract value as json sees it."""
        eng = self.eng
        if depth > 50:
            eng.throw('ValueError', 'Circular reference detected')
        t = self.text(v)
        if t is not None:
            return t
        if v is None or isinstance(v, (bool, int, float)):
            return v
        if isinstance(v, DictV) and v.open is None:
            return {k: self.py(q, enc, depth+1) for k, q in v.items.items()}
        if isinstance(v, (ListV, TupleV)) and v.unk is None:
            return [self.py(q, enc, depth+1) for q in v.items]
        if isinstance(v, S) and v.dt in 'fi' and \
                (v.p != 'np' if v.dt == 'i' else v.p != 'np32'):
            return self.marker(v)
        if isinstance(v, S) and v.dt == 'b' and v.c is not NOC and \
                v.p != 'np':
            return bool(v.c)
        if isinstance(enc, InstV):
            r = eng.call(eng.getattr(enc, 'default'), [v], {})
            return self.py(r, enc, depth+1)
        eng.throw('TypeError', 'Object is not JSON serializable')

    def jdefault(self, eng, a, kw):
        eng.throw('TypeError', 'Object is not JSON serializable')

    def _dumps(self, eng, v, kw):
        cls = kw.get('cls')
        enc = InstV(cls, {}) if isinstance(cls, ClassV) else None
        k = {n: (eng.cval(q)) for n, q in kw.items()
             if n not in ('cls', 'default')}
        if 'default' in kw:
            enc = InstV(Ext('enc'), {'default': kw['default']})
        if NOC in k.values():
            raise ValueError('json option')
        try:
            return json.dumps(self.py(v, enc), **k)
        except (TypeError, ValueError) as ex:
            eng.throw(type(ex).__name__, str(ex))

    def jdumps(self, eng, a, kw):
        eng.event('json-dumps', '', (list(a), dict(kw)))
        return self._dumps(eng, a[0], kw)

    def jdump(self, eng, a, kw):
        eng.event('json-dump', '', (list(a), dict(kw)))
        self.write(a[1], self._dumps(eng, a[0], kw))

    def jloads(self, eng, a, kw):
        eng.event('json-load', '', (list(a), dict(kw)))
        try:
            d = json.loads(self.s(a[0]))
        except json.JSONDecodeError as ex:
            eng.throw('ValueError', str(ex))
        return self.ab(d)

    def jload(self, eng, a, kw):
        return self.jloads(eng, [''.join(self.lines(a[0]))], kw)

    def ab(self, d):
        if isinstance(d, dict):
            return DictV({k: self.ab(v) for k, v in d.items()})
        if isinstance(d, list):
            return ListV([self.ab(v) for v in d])
        if isinstance(d, (int, float)) and not isinstance(d, bool):
            return self.back(d)
        return d

    # ------------------------------------------------------------------ numpy
    def savetxt(self, eng, a, kw):
        k = dict(fname=None, X=None, fmt='%.18e', delimiter=' ',
                 newline='\n', header='', footer='', comments='# ',
                 encoding=None)
        for n, v in zip(k, a):
            k[n] = v
        k.update(kw)
        eng.event('savetxt', '', (list(a), dict(kw)))
        f, X = k.pop('fname'), k.pop('X')
        if not isinstance(f, InstV):
            f = self.open(eng, [f, 'w'], {'encoding': k['encoding'] or
                                          'latin1'})
        k = {n: None if v is None else
             [self.s(i) for i in elements(eng, v)[0]]
             if isinstance(v, (ListV, TupleV)) else self.s(v)
             for n, v in k.items() if n != 'encoding'}
        X = npmodel.asarray(eng, X, False)
        if X.a is None or X.a.ndim not in (1, 2):
            raise ValueError('savetxt shape')
        A = X.a if X.a.ndim == 2 else X.a.reshape(-1, 1)
        nc = A.shape[1]
        cx = X.dt == 'c'
        fmt, dl = k['fmt'], k['delimiter']
        if isinstance(fmt, list):
            if len(fmt) != nc:
                eng.throw('AttributeError', 'fmt has wrong shape')
            fm = dl.join(fmt)
        else:
            n = fmt.count('%')
            if n == 1:
                fm = dl.join([f' ({fmt}+{fmt}j)' if cx else fmt]*nc)
            elif n != (2*nc if cx else nc):
                eng.throw('ValueError', f'fmt has wrong number of % formats')
            else:
                fm = fmt
        nl = k['newline']
        if k['header']:
            self.write(f, k['comments'] + k['header'].replace(
                '\n', '\n'+k['comments']) + nl)
        for row in A:
            q = []
            for v in row:
                q += self.pair(v) if cx else [self.marker(v)]
            try:
                t = fm % tuple(q)
            except TypeError:
                eng.throw('TypeError', 'Mismatch between array and format')
            self.write(f, (t + nl).replace('+-', '-') if cx else t + nl)
        if k['footer']:
            self.write(f, k['comments'] + k['footer'] + nl)

    def source(self, v, enc=None):
        if isinstance(v, InstV):
            return self.lines(v)
        f = self.open(self.eng, [v, 'r'], {'encoding': enc or LOCALE})
        return self.lines(f)

    def loadtxt(self, eng, a, kw):
        k = dict(fname=None, dtype=None, comments='#', delimiter=None,
                 converters=None, skiprows=0, usecols=None, unpack=False,
                 ndmin=0, encoding=None)
        for n, v in zip(k, a):
            k[n] = v
        k.update(kw)
        eng.event('loadtxt', '', (list(a), dict(kw)))
        dt = npmodel.dt_kw(eng, k['dtype'], 'f')
        cm, dl = k['comments'], k['delimiter']
        cm = [] if cm is None else [self.s(cm)] if not isinstance(
            cm, (ListV, TupleV)) else [self.s(c) for c in cm.items]
        rows = []
        for i, line in enumerate(self.source(
                k['fname'], k['encoding'] and self.s(k['encoding']))):
            if i < eng.cval(k['skiprows']):
                continue
            for c in cm:
                line = line.split(c)[0]
            line = line.strip('\r\n')
            if not line.strip():
                continue
            q = line.split(None if dl is None else self.s(dl))
            try:
                rows.append([self.ctext(t.strip().strip('()')) if dt == 'c'
                             else self.back(float(t)) for t in q])
            except ValueError as ex:
                eng.throw('ValueError', str(ex))
        n = {len(r) for r in rows}
        if len(n) > 1:
            eng.throw('ValueError', 'the number of columns changed')
        A = np_obj(rows, (len(rows), n.pop() if n else 0))
        if k['usecols'] is not None or k['converters'] is not None:
            raise ValueError('loadtxt option')
        nd = eng.cval(k['ndmin'])
        if nd < 2:
            A = A.squeeze()
            A = A.reshape((1,)) if A.ndim < nd else A
        if eng.truth(k['unpack'])[0]:
            A = A.T
        return Arr(A, dt)

    def numbers(self, t, sep):
        q = [i for i in (t.split(sep) if sep.strip() else t.split())
             if i.strip()]
        out = []
        for i in q:
            try:
                out.append(self.back(float(i)))
            except ValueError:
                break
        return Arr(np_obj([out], (1, len(out)))[0], 'f')

    def fromfile(self, eng, a, kw):
        eng.event('loadtxt', '', (list(a), dict(kw)))
        sep = self.s(arg(a, kw, 3, 'sep', ''))
        if not sep:
            raise ValueError('binary fromfile')
        return self.numbers(''.join(self.source(a[0])), sep)

    def fromstring(self, eng, a, kw):
        return self.numbers(self.s(a[0]), self.s(kw.get('sep', ' ')))

    def tofile(self, eng, o, a, kw):
        f = a[0]
        sep = self.s(arg(a, kw, 1, 'sep', ''))
        fm = self.s(arg(a, kw, 2, 'format', '%s'))
        if not sep:
            raise ValueError('binary tofile')
        if not isinstance(f, InstV):
            f = self.open(eng, [f, 'w'], {})
        self.write(f, sep.join((fm % self.marker(v)) if fm != '%s' else
                               repr(self.marker(v)) for v in o.a.flat))


def np_obj(rows, shape):
    A = npmodel.np.empty(shape, dtype=object)
    for i, r in enumerate(rows):
        for j, v in enumerate(r):
            A[i, j] = v
    return A


# -------------------------------------------------------------------- argparse
class Cli:
    """argparse with the real parser, built from the calls in the source."""

    def __init__(self, eng):
        self.eng = eng
        eng.ext_overrides['argparse.ArgumentParser'] = self.parser

    def conv(self, v):
        if isinstance(v, (ListV, TupleV)):
            return [self.conv(i) for i in v.items]
        if isinstance(v, Ext) and v.path.startswith('builtins.'):
            return {'str': str, 'int': int, 'float': float,
                    'bool': bool}[v.path.split('.')[1]]
        c = self.eng.cval(v)
        if c is NOC:
            raise ValueError('argparse option')
        return c

    def parser(self, eng, a, kw):
        p = argparse.ArgumentParser(**{k: self.conv(v) for k, v in kw.items()
                                       if k not in ('formatter_class',)})
        o = InstV(Ext('argparse.ArgumentParser'), {})
        o.attrs['description'] = kw.get('description')
        return self.wrap(p, o)

    def wrap(self, p, o):
        def add(eng, a, kw):
            p.add_argument(*[self.conv(v) for v in a],
                           **{k: self.conv(v) for k, v in kw.items()})

        def parse(eng, a, kw):
            v = a[0] if a else kw.get('args')
            if v is None:
                v = eng.sys_argv
            args = [self.conv(i) for i in elements(eng, v)[0]]
            import contextlib
            try:
                with contextlib.redirect_stderr(io.StringIO()), \
                        contextlib.redirect_stdout(io.StringIO()):
                    n = p.parse_args(args)
            except SystemExit:
                eng.throw('SystemExit', 'argparse')
            return InstV(Ext('argparse.Namespace'), {
                k: ListV(q) if isinstance(q, list) else q
                for k, q in vars(n).items()})

        def group(eng, a, kw):
            return self.wrap(p.add_mutually_exclusive_group()
                             if not a and not kw else p,
                             InstV(Ext('argparse.Group'), {}))
        o.attrs['add_argument'] = Native(add, 'add_argument')
        o.attrs['parse_args'] = Native(parse, 'parse_args')
        o.attrs['add_mutually_exclusive_group'] = Native(group, 'group')
        o.attrs['add_argument_group'] = Native(group, 'group')
        return o
