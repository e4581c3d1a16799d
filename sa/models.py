"""Abstract third party modules (ngsolve, numpy, pathlib, logging, ...)."""
from __future__ import annotations
import ast
import importlib
import importlib.util
import sys
from fractions import Fraction
import math as hmath

from . import alg, netgen_model, interp as _i
from .interp import apis
from .alg import E, num, sym, add, sub, mul, div, fn, ifpos, ZERO, ONE
from .interp import (IClass, IObj, IFunc, Bound, HostFn, PropertyV, ClassMethodV, StaticMethodV, PartialV, IModule,
                     IGen, Model, SymStr, PyEx, Unsupported, MISSING, join_str)
from .fields import (Num, const_sign, Cf, Param, Gf, Proxy, Space, Bits, DiffSym, Integrals, Form, Vec, VTemp, Mat, Mesh, Region,
                     Flag, MeshPoint, NgMesh, Elem, cf_of, to_e, mknum, as_float, vec_inner, ext_call, prod, dot,
                     simplify_const, VExpr, int_const, whole_part)


class Opaque(Model):
    """named thing of a third party library without further semantics"""

    def __init__(self, name):
        self.name = name
        self.tname = name
        self.attrs = {}

    def __repr__(self):
        return f"<{self.name}>"

    def getattr(self, it, name):
        if name not in self.attrs:
            if name.startswith('__') and name not in ('__name__', '__doc__', '__class__'):
                it.throw('AttributeError', name)
            self.attrs[name] = Opaque(f"{self.name}.{name}")
        return self.attrs[name]

    def setattr(self, it, name, v):
        it.events.append(('opaque.set', self.name, name, v))
        self.attrs[name] = v

    def call(self, it, args, kw):
        it.events.append(('opaque.call', self.name, args, kw))
        return Opaque(self.name + '()')

    def getitem(self, it, k):
        return Opaque(self.name + '[]')

    def setitem(self, it, k, v):
        it.events.append(('opaque.setitem', self.name, k, v))

    def binop(self, it, op, other, swapped):
        return Opaque(self.name + '.op')

    def unary(self, it, op):
        return Opaque(self.name + '.op')

    def iter(self, it):
        raise Unsupported(f"iteration over {self.name} [{it.where()}]")

    def length(self, it):
        return fresh_int('len')

    def truth(self, it):
        return it.decide(('truth', self.name), [True, False])

    def compare(self, it, op, other, swapped):
        if op is ast.Eq:
            return self is other
        if op is ast.NotEq:
            return self is not other
        return it.decide(('cmp', self.name, op.__name__, repr(other)), [True, False])

    def contains(self, it, x):
        return it.decide(('in', repr(x), self.name), [True, False])

    def isinstance(self, it, cls):
        return False


class Unmodelled(Opaque):
    """function, class or module without abstract semantics"""

    def call(self, it, args, kw):
        raise Unsupported(f"{self.name} [{it.where()}]")

    def getattr(self, it, name):
        if name.startswith('__'):
            it.throw('AttributeError', name)
        if name not in self.attrs:
            self.attrs[name] = Unmodelled(f"{self.name}.{name}")
        return self.attrs[name]

    def binop(self, it, op, other, swapped):
        if op is ast.BitOr:
            return self
        raise Unsupported(f"{self.name} [{it.where()}]")

    def unary(self, it, op):
        raise Unsupported(f"{self.name} [{it.where()}]")

    def setattr(self, it, name, v):
        raise Unsupported(f"{self.name} [{it.where()}]")

    truth = contains = length = setitem = None


def _no(self, it, *a):
    raise Unsupported(f"{self.name} [{it.where()}]")


Unmodelled.length = Unmodelled.setitem = Unmodelled.contains = _no
Unmodelled.truth = lambda self, it: True

_fresh = [0]


def fresh_int(name, pos=False):
    _fresh[0] += 1
    s = f"{name}#{_fresh[0]}"
    alg.declare(s, 'pos' if pos else 'real')
    return Num(sym(s), True)


def reset_run(it):
    it.names_ = {}
    _fresh[0] = 0
    Log.reset()
    it.files = {}


def num_of_str(it, s):
    return Num(sym(f"float({s!r})"))


def sym_round(it, x, n):
    e = to_e(x)
    if e is None:
        it.throw('TypeError', 'round')
    return Num(fn('round', e, to_e(n) if n is not None else ZERO), n is None)


class SymRange(Model):
    tname = 'range'

    def __init__(self, a):
        self.start, self.stop, self.step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)

    def __repr__(self):
        return f"range({self.start!r},{self.stop!r},{self.step!r})"

    def iter(self, it):
        h = getattr(it, 'range_hook', None)
        if h is not None:
            return iter(h(it, self))
        raise Unsupported(f"loop over {self!r} [{it.where()}]")


def symbolic_range(it, a):
    return SymRange(a)


def symbolic_index(it, o, k):
    if isinstance(k, Num):
        return it.getitem(o, int_const(it, k))
    it.throw('TypeError', 'indices must be integers')


def as_class(it, v):
    if isinstance(v, IClass):
        return v
    if isinstance(v, Opaque):
        c = getattr(v, 'asclass', None)
        if c is None:
            c = v.asclass = IClass(v.name.split('.')[-1], [it.object_cls], {}, 'external')
        return c
    return None


def bind_stubs(it, ns):
    it.stub_cls = {k: v for k, v in ns.items() if isinstance(v, IClass)}
    t = it.ext['typing'].ns
    for k in ('MutableMapping', 'Mapping'):
        t[k] = ns[k]
        it.ext['collections.abc'].ns[k] = ns[k]
    it.ext['collections'].ns['UserDict'] = ns['UserDict']
    it.ext['collections'].ns['abc'] = it.ext['collections.abc']
    t['Generic'] = ns['Generic']
    t['Protocol'] = ns['Generic']
    t['NamedTuple'] = ns['NamedTuple']
    it.ext['abc'].ns['ABC'] = ns['ABC']
    it.ext['enum'].ns.update({k: ns[k] for k in ('Enum', 'IntEnum', 'StrEnum') if k in ns})
    it.builtin_cls['list'].ns.setdefault('__class_getitem__', HostFn('cgi', lambda it, k: None))
    # virtual subclassing of the abc's
    def seq_check(it, v):
        v = it.unnative(v)
        return isinstance(v, (list, tuple, str, range, bytes, SymStr))

    def map_check(it, v):
        if isinstance(v, dict):
            return True
        return None
    ns['MutableMapping'].check = map_check
    ns['Mapping'].check = lambda it, v: True if isinstance(v, dict) else None
    SEQ = IClass('Sequence', [it.object_cls], {}, 'abc', check=seq_check)
    MSEQ = IClass('MutableSequence', [SEQ], {}, 'abc', check=lambda it, v: isinstance(v, list))

    def iter_check(it, v):
        if isinstance(v, IObj):
            return v.cls.lookup('__iter__') is not MISSING or isinstance(v.native, Cf)
        return isinstance(v, (list, tuple, str, dict, set, frozenset, range, IGen, Cf)) or hasattr(v, '__iter__')
    ITE = IClass('Iterable', [it.object_cls], {}, 'abc', check=iter_check)
    GEN = IClass('Generator', [it.object_cls], {}, 'abc', check=lambda it, v: isinstance(v, IGen))
    ITR = IClass('Iterator', [it.object_cls], {}, 'abc', check=lambda it, v: isinstance(v, IGen))
    CAL = IClass('Callable', [it.object_cls], {}, 'abc', check=lambda it, v: it.builtins['callable'].fn(it, v))
    SET = IClass('Set', [it.object_cls], {}, 'abc', check=lambda it, v: isinstance(v, (set, frozenset)))
    for m in (t, it.ext['collections.abc'].ns):
        m.update({'Sequence': SEQ, 'MutableSequence': MSEQ, 'Iterable': ITE, 'Generator': GEN, 'Iterator': ITR,
                  'Callable': CAL, 'Collection': ITE, 'Set': SET, 'Sized': ITE, 'Container': ITE})
    it.abc = {'Sequence': SEQ, 'Iterable': ITE}


def annotation(it, f, i):
    """class the i-th parameter of f is annotated with"""
    a = f.node.args
    n = (a.posonlyargs + a.args)[i].annotation
    if isinstance(n, ast.Constant) and isinstance(n.value, str):
        n = ast.parse(n.value, mode='eval').body
    return it.eval(n, f.env)


def bind_std(it, std):
    import itertools
    it.ext['os.path'].ns['join'] = std['ospath_join']
    it.nt_cls = std['_tuple']


def make_enum(it, c):
    kinds = {b.name for b in c.mro}
    text = 'StrEnum' in kinds or 'str' in kinds
    plain = text or 'IntEnum' in kinds or 'int' in kinds
    members = {}
    last = 0
    for k, v in list(c.ns.items()):
        if k.startswith('_') or isinstance(v, (IFunc, PropertyV, ClassMethodV, StaticMethodV)):
            continue
        if isinstance(v, Opaque) and v.name == 'enum.auto()':
            v = k.lower() if text else last + 1
        if isinstance(v, int):
            last = v
        o = IObj(c)
        if plain:
            o.native = v
        o.d.update({'name': k, 'value': v, '_value_': v, '_name_': k})
        c.ns[k] = o
        members[k] = o
    c.ns['__members__'] = members


def make_namedtuple(it, c):
    f = list(c.ns.get('__annotations__', {}))
    c.ns['_fields'] = tuple(f)
    c.ns['__match_args__'] = tuple(f)
    c.bases = [it.nt_cls if b.name == 'NamedTuple' else b for b in c.bases]
    c.mro = _i.c3(c)


def getitem_enum(it, c, k):
    pass


# ------------------------------------------------------------------ logging

LEVELS = ('CRITICAL', 'FATAL', 'ERROR', 'WARN', 'WARNING', 'INFO', 'DEBUG', 'NOTSET')


class Logger(Model):
    tname = 'Logger'

    def __init__(self, name):
        self.name = name
        self.handlers = []
        self.level = None

    def __repr__(self):
        return f"<Logger {self.name}>"

    def getattr(self, it, name):
        if name in ('debug', 'info', 'warning', 'error', 'critical', 'exception', 'log', 'warn'):
            return HostFn(name, lambda it, *a, **k: it.events.append(('log', name, self.name, a)))
        if name == 'setLevel':
            def sl(it, lv):
                if isinstance(lv, str) and lv not in LEVELS:
                    it.throw('ValueError', f"Unknown level: {lv!r}")
                if not isinstance(lv, (str, int)) and not (isinstance(lv, Num) and lv.integer):
                    it.throw('TypeError', f"Level not an integer or a valid string: {lv!r}")
                self.level = lv
            return HostFn(name, sl)
        if name == 'addHandler':
            def ah(it, h):
                if h not in self.handlers:
                    self.handlers.append(h)
                it.events.append(('log.addhandler', self.name, h))
            return HostFn(name, ah)
        if name == 'removeHandler':
            def rh(it, h):
                if h in self.handlers:
                    self.handlers.remove(h)
                it.events.append(('log.removehandler', self.name, h))
            return HostFn(name, rh)
        if name == 'handlers':
            return self.handlers
        if name in ('level', 'name'):
            return getattr(self, name)
        if name == 'isEnabledFor':
            def ief(it, lv):
                rank = {'CRITICAL': 50, 'FATAL': 50, 'ERROR': 40, 'WARN': 30, 'WARNING': 30, 'INFO': 20, 'DEBUG': 10, 'NOTSET': 0}
                own = rank.get(self.level, self.level)
                if isinstance(own, int) and own and isinstance(lv, int):
                    return lv >= own
                return it.decide(('logger', name, lv), [True, False])
            return HostFn(name, ief)
        if name == 'hasHandlers':
            return HostFn(name, lambda it, *a: it.decide(('logger', name), [True, False]))
        if name == 'propagate':
            return True
        return super().getattr(it, name)

    def setattr(self, it, name, v):
        self.__dict__['_' + name] = v


class Handler(Model):
    tname = 'Handler'

    def __init__(self, kind, args):
        self.kind, self.args = kind, args
        self.closed = False
        self.formatter = None

    def __repr__(self):
        return f"<{self.kind} {self.args}>"

    def getattr(self, it, name):
        if name == 'close':
            def close(it):
                self.closed = True
                it.events.append(('handler.close', self))
            return HostFn(name, close)
        if name in ('flush',):
            return HostFn(name, lambda it: None)
        if name == 'formatter':
            return self.formatter
        if name in ('setFormatter', 'setLevel'):
            return HostFn(name, lambda it, f: self.__dict__.__setitem__('formatter' if name == 'setFormatter' else 'lvl', f))
        return super().getattr(it, name)


class Formatter(Model):
    tname = 'Formatter'

    def __init__(self, args, kw):
        self.args, self.kw = args, kw

    def __repr__(self):
        return f"Formatter{self.args!r}{self.kw or ''}"


class Log:
    loggers = {}

    @staticmethod
    def get(it, name='root'):
        return Log.loggers.setdefault(name, Logger(name))

    @staticmethod
    def reset():
        for l in Log.loggers.values():
            l.handlers = []
            l.level = None


# ------------------------------------------------------------------ paths & files

class PathM(Model):
    """pathlib.Path with literal / symbolic components"""
    tname = 'PosixPath'

    def __init__(self, parts, absolute):
        self.parts = tuple(parts)       # str | SymStr
        self.absolute = absolute

    def text(self):
        out = []
        for i, p in enumerate(self.parts):
            if i:
                out.append('/')
            out.append(p)
        s = SymStr.make((['/'] if self.absolute else []) + out) if out else ('/' if self.absolute else '.')
        return s

    def __repr__(self):
        return f"Path({self.text()!r})"

    def key(self):
        return (self.absolute,) + tuple(p if isinstance(p, str) else p.key() for p in self.parts)

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, PathM) and o.key() == self.key()

    def same(self, o):
        return self is o

    def cls(self, it):
        return it.models_cls['Path']

    def isinstance(self, it, cls):
        return self.cls(it).issub(cls)

    def fmt(self, it, spec):
        return self.text()

    @staticmethod
    def make(it, args):
        r = PathM((), False)
        for a in args:
            r = r.join(it, a)
        return r

    def join(self, it, a):
        a = it.unnative(a)
        if isinstance(a, PathM):
            return a if a.absolute else PathM(self.parts + a.parts, self.absolute)
        if isinstance(a, str):
            if a.startswith('/'):
                return PathM([p for p in a.split('/') if p and p != '.'], True)
            return PathM(self.parts + tuple(p for p in a.split('/') if p and p != '.'), self.absolute)
        if isinstance(a, SymStr):
            segs = [[]]
            for p in a.parts:
                if isinstance(p, str):
                    bits = p.split('/')
                    segs[-1].append(bits[0])
                    for b in bits[1:]:
                        segs.append([b])
                else:
                    segs[-1].append(p)
            ps = [SymStr.make(s) for s in segs]
            if ps and ps[0] == '' and len(ps) > 1:
                return PathM([p for p in ps if p != ''], True)
            return PathM(self.parts + tuple(p for p in ps if p != ''), self.absolute)
        it.throw('TypeError', f"argument should be a str or an os.PathLike object, not {it.class_of(a).name}")

    def binop(self, it, op, other, swapped):
        if op is ast.Div:
            if swapped:
                return PathM.make(it, [other, self])
            return self.join(it, other)
        if op is ast.Add:
            it.throw('TypeError', 'unsupported operand PosixPath +')
        return NotImplemented

    def compare(self, it, op, other, swapped):
        if op in (ast.Eq, ast.NotEq):
            return (isinstance(other, PathM) and other.key() == self.key()) == (op is ast.Eq)
        return NotImplemented

    def getattr(self, it, name):
        last = self.parts[-1] if self.parts else ''
        if name == 'name':
            return last
        if name == 'parent':
            return PathM(self.parts[:-1], self.absolute)
        if name == 'parents':
            return tuple(PathM(self.parts[:i], self.absolute) for i in range(len(self.parts) - 1, -1, -1))
        if name == 'parts':
            return (('/',) if self.absolute else ()) + self.parts
        if name in ('stem', 'suffix') and isinstance(last, str):
            st, dot_, sf = last.rpartition('.')
            return (st if st else last) if name == 'stem' else (dot_ + sf if st else '')
        f = {
            'is_absolute': lambda it: self.absolute,
            'joinpath': lambda it, *a: self._joinall(it, a),
            'exists': lambda it: it.decide(('exists', repr(self)), [True, False]),
            'is_dir': lambda it: it.decide(('isdir', repr(self)), [True, False]),
            'is_file': lambda it: it.decide(('isfile', repr(self)), [True, False]),
            'mkdir': lambda it, *a, **k: ext_call(it, 'path.mkdir', self, a, k),
            'unlink': lambda it, *a, **k: ext_call(it, 'path.unlink', self, a, k),
            'touch': lambda it, *a, **k: ext_call(it, 'path.touch', self, a, k),
            'resolve': lambda it, *a: self if self.absolute else PathM(('<cwd>',) + self.parts, True),
            'absolute': lambda it: self if self.absolute else PathM(('<cwd>',) + self.parts, True),
            'open': lambda it, mode='r', *a, **k: open_file(it, self, mode),
            'glob': lambda it, p: self._glob(it, p),
            'iterdir': lambda it: self._glob(it, '*'),
            'is_relative_to': lambda it, o: self._rel(it, o) is not None,
            'relative_to': lambda it, o: self._relative(it, o),
            'with_suffix': lambda it, s: PathM(self.parts[:-1] + (self._stem(it) + s,), self.absolute),
            'with_name': lambda it, s: PathM(self.parts[:-1] + (s,), self.absolute),
            'as_posix': lambda it: self.text(),
            'write_text': lambda it, s, *a: ext_call(it, 'file.write', self, (s,), {}),
            'read_text': lambda it, *a: SymStr([('content', self)]),
            '__str__': lambda it: self.text(),
            '__fspath__': lambda it: self.text(),
        }.get(name)
        if f is not None:
            return HostFn(name, f)
        return super().getattr(it, name)

    def _stem(self, it):
        last = self.parts[-1]
        if isinstance(last, str) and '.' in last[1:]:
            return last.rpartition('.')[0]
        return last

    def _joinall(self, it, a):
        r = self
        for x in a:
            r = r.join(it, x)
        return r

    def _rel(self, it, o):
        o = o if isinstance(o, PathM) else PathM.make(it, [o])
        n = len(o.parts)
        if o.absolute == self.absolute and self.key()[1:n + 1] == o.key()[1:]:
            return PathM(self.parts[n:], False)
        return None

    def _relative(self, it, o):
        r = self._rel(it, o)
        if r is None:
            it.throw('ValueError', f"{self!r} is not in the subpath of {o!r}")
        return r

    def _glob(self, it, p):
        return IGen(iter([PathM(self.parts + ('glob0',), self.absolute), PathM(self.parts + ('glob1',), self.absolute)]), 'glob')


class File(Model):
    tname = 'TextIOWrapper'

    def __init__(self, path, mode, n):
        self.path, self.mode, self.n = path, mode, n
        self.closed = False
        self.rows = []

    def __repr__(self):
        return f"<file {self.path!r} {self.mode}>"

    def enter(self, it):
        return self

    def exit(self, it, exc):
        self.close(it)

    def close(self, it):
        self.closed = True
        it.events.append(('file.close', self))

    def getattr(self, it, name):
        f = {'close': lambda it: self.close(it),
             'flush': lambda it: None,
             'write': lambda it, s: self._write(it, s),
             'writelines': lambda it, xs: [self._write(it, s) for s in it.iterate(xs)] and None,
             'read': lambda it, *a: SymStr([('content', repr(self.path))]),
             }.get(name)
        if f:
            return HostFn(name, f)
        if name == 'closed':
            return self.closed
        if name == 'name':
            return self.path
        return super().getattr(it, name)

    def _write(self, it, s):
        if self.closed:
            it.throw('ValueError', 'I/O operation on closed file.')
        self.rows.append(s)
        return ext_call(it, 'file.write', self, (s,), {})


def open_file(it, path, mode='r', *a, **k):
    ext_call(it, 'file.open?', path, (mode,), {})
    f = File(path if isinstance(path, PathM) else PathM.make(it, [path]), mode, len(it.events))
    it.events.append(('file.open', f))
    return f


class CsvWriter(Model):
    tname = '_csv.writer'

    def __init__(self, file):
        self.file = file

    def getattr(self, it, name):
        if name == 'writerow':
            def wr(it, row):
                if self.file.closed:
                    it.throw('ValueError', 'I/O operation on closed file.')
                row = it.to_list(row)
                self.file.rows.append(row)
                return ext_call(it, 'csv.row', self.file, (row,), {})
            return HostFn(name, wr)
        if name == 'writerows':
            return HostFn(name, lambda it, rows: [self.getattr(it, 'writerow').fn(it, r) for r in it.iterate(rows)] and None)
        return super().getattr(it, name)


class Vtk(Model):
    tname = 'VTKOutput'

    def __init__(self, kw):
        self.kw = kw

    def getattr(self, it, name):
        if name == 'Do':
            return HostFn(name, lambda it, time=-1, *a, **k: ext_call(it, 'vtk.do', self, (time,), k))
        return super().getattr(it, name)


# ------------------------------------------------------------------ numpy arrays

class Arr(Model):
    """one dimensional array of abstract numbers (segments of known or symbolic length)"""
    tname = 'ndarray'

    def __init__(self, items, tag=None):
        self.items = list(items)
        self.tag = tag

    def __repr__(self):
        return f"array({self.items!r})"

    def cls(self, it):
        return it.models_cls['ndarray']

    def iter(self, it):
        return iter(self.items)

    def length(self, it):
        return len(self.items)

    def getitem(self, it, k):
        if isinstance(k, slice):
            return Arr(self.items[k])
        return it.getitem(self.items, k)

    def binop(self, it, op, other, swapped):
        if isinstance(other, Arr):
            if len(other.items) != len(self.items):
                it.throw('ValueError', 'operands could not be broadcast together')
            xs = zip(other.items, self.items) if swapped else zip(self.items, other.items)
            return Arr([it.binop(op, a, b) for a, b in xs])
        if isinstance(other, (int, float, Num)):
            return Arr([it.binop(op, other, a) if swapped else it.binop(op, a, other) for a in self.items])
        return NotImplemented

    def getattr(self, it, name):
        if name in ('shape',):
            return (len(self.items),)
        if name == 'size':
            return len(self.items)
        if name == 'tolist':
            return HostFn(name, lambda it: list(self.items))
        return super().getattr(it, name)


def arr_of(it, v):
    v = it.unnative(v)
    if isinstance(v, Arr):
        return v
    if isinstance(v, (int, float, Num)):
        return Arr([v])
    return Arr(it.to_list(v))


# ------------------------------------------------------------------ module tables

def H(name, f):
    return HostFn(name, f)


def make_modules(it):
    it.names_ = {}

    def names_next(k):
        it.names_[k] = it.names_.get(k, 0) + 1
        return it.names_[k] - 1
    it.names_next = names_next
    it.files = {}
    obj = it.object_cls
    M = {}
    C = it.models_cls = {}

    def module(name, ns, resolver=None):
        if resolver is None and name.split('.')[0] in sys.stdlib_module_names:
            resolver = unknown_resolver(name)
        m = IModule(name, ns, external=True, resolver=resolver)
        M[name] = m
        return m

    def cls(name, base=obj, ctor=None, mod='ngsolve', ns=None, check=None):
        c = IClass(name, [base] if not isinstance(base, (list, tuple)) else list(base), ns or {}, mod, ctor=ctor, check=check)
        C[name] = c
        return c

    def opaque_resolver(prefix):
        def r(it, name):
            if name.startswith('__'):
                return None
            return Opaque(f"{prefix}.{name}")
        return r

    def unknown_resolver(prefix, known=True):
        """a name of the standard library (or numpy) without a model: using it is undecided, a name it lacks is an error"""
        def r(it, name):
            if name.startswith('__'):
                return None
            q = f"{prefix}.{name}"
            if 'module ' + prefix in apis():
                return Unmodelled(q) if name in apis()['module ' + prefix] else None
            if known:
                v = getattr(importlib.import_module(prefix), name, MISSING)
                if v is MISSING:
                    return None
                if isinstance(v, (int, float, str)) and type(v) in (int, float, str, bool):
                    return v
            return Unmodelled(q)
        return r

    # --- ngsolve classes
    cls('NgException', it.builtin_cls['RuntimeError'])
    CFc = cls('CF', ctor=lambda it, c, a, k: ctor_cf(it, a, k))
    CFc.name = 'CoefficientFunction'
    Pc = cls('Parameter', CFc, ctor=lambda it, c, a, k: ctor_param(it, a, k))

    def p_repr(it, o):
        return SymStr([('param', o)])
    Pc.ns['__repr__'] = HostFn('__repr__', p_repr)
    cls('ProxyFunction', CFc)
    cls('GridFunction', CFc, ctor=lambda it, c, a, k: ctor_gf(it, a, k))
    cls('FESpace', ctor=lambda it, c, a, k: Space('FESpace', a[0] if a else None, k))
    for n in ('L2', 'VectorL2', 'FacetFESpace', 'H1', 'VectorH1', 'HDiv', 'HCurl', 'VectorFacetFESpace', 'HDivDiv',
              'NumberSpace', 'TangentialFacetFESpace', 'NormalFacetFESpace', 'SurfaceL2', 'HDivSurface'):
        cls(n, C['FESpace'], ctor=lambda it, c, a, k, n=n: ctor_space(it, c, n, a, k))
    cls('ProductSpace', C['FESpace'], ctor=lambda it, c, a, k: Space('product', a[0].mesh, components=list(a)))
    for n, kind in (('Compress', 'compress'), ('Periodic', 'periodic'), ('Discontinuous', 'discontinuous')):
        def wrap(it, c, a, k, kind=kind):
            fes = a[0] if a else k.get('fespace')
            if not isinstance(fes, Space):
                it.throw('TypeError', f"{kind}(): not a space")
            s = Space(kind, fes.mesh, fes.flags, base=fes, components=fes.components)
            s.active = a[1] if len(a) > 1 else k.get('active_dofs')
            if not fes.root().updated:
                it.events.append(('fes.stale', fes, kind))
            it.events.append(('fes.' + kind, s, s.active))
            return s
        c = cls(n, C['FESpace'], ctor=wrap)
        C[kind] = c
    cls('DifferentialSymbol')
    cls('SumOfIntegrals')
    C['Integral'] = C['SumOfIntegrals']
    for n in ('BilinearForm', 'LinearForm'):
        def form(it, c, a, k, n=n):
            k = dict(k)
            sp = a[0] if a else k.pop('space', k.pop('trialspace', None))
            if isinstance(sp, Integrals):
                f = Form(n, None, k, it.names_next('form'))
                f.terms.append(sp)
                return f
            f = Form(n, sp, k, it.names_next('form'))
            it.events.append(('form.new', f))
            return f
        cls(n, ctor=form)
    cls('BaseVector')
    cls('BitArray', ctor=lambda it, c, a, k: Bits(('bits', repr(a))))
    cls('Mesh', ctor=lambda it, c, a, k: a[0] if a and isinstance(a[0], Mesh) else MeshFrom(it, a))
    cls('Region', ctor=lambda it, c, a, k: Region(*a))
    cls('TaskManager', ctor=lambda it, c, a, k: Ctx('TaskManager'))
    cls('NodeId', ctor=lambda it, c, a, k: ('NodeId', *a))
    cls('VTKOutput', ctor=lambda it, c, a, k: ctor_vtk(it, a, k))
    cls('ndarray', mod='numpy')
    cls('Path', mod='pathlib', ctor=lambda it, c, a, k: PathM.make(it, a))
    C['Path'].ns['cwd'] = StaticMethodV(H('cwd', lambda it: PathM(('<cwd>',), True)))
    C['Path'].ns['home'] = StaticMethodV(H('home', lambda it: PathM(('<home>',), True)))

    Ncls = cls('Number', mod='numbers', check=lambda it, v: isinstance(it.unnative(v), (int, float, complex, Num)))
    for n in ('Real', 'Integral', 'Rational', 'Complex'):
        cls(n, Ncls, mod='numbers', check=(lambda it, v: isinstance(v, int) or isinstance(v, Num) and v.integer)
            if n in ('Integral', 'Rational') else (lambda it, v: isinstance(v, (int, float, Num))))

    # --- ngsolve functions
    def unary(name, hostf=None, spelled=None):
        def f(it, x):
            x = it.unnative(x)
            if isinstance(x, Cf):
                e = [fn(name, v) for v in x.e]
                return Cf(e, x.dims, x.zero and name in ('sqrt', 'sin', 'tan', 'atan', 'sinh', 'asin'))
            if isinstance(x, float) and x != x:
                return x
            e = to_e(x)
            if e is None:
                it.throw('TypeError', f"{name}() argument {it.class_of(x).name}")
            return mknum(fn(name, e))
        return H(spelled or name, f)

    def ifpos_(it, c, a, b):
        cc, aa, bb = cf_of(it, c), cf_of(it, a), cf_of(it, b)
        if len(cc.e) != 1:
            it.throw(C['NgException'], 'Dimension of first component in IfPos must be 1!')
        if len(aa.e) != len(bb.e):
            it.throw(C['NgException'], f"In IfPos: dim(cf_then) == {aa.dims} != dim(cf_else) == {bb.dims}")
        return Cf([ifpos(cc.e[0], x, y) for x, y in zip(aa.e, bb.e)], aa.dims, aa.zero and bb.zero)

    def inner(it, a, b, **k):
        a, b = it.unnative(a), it.unnative(b)
        if isinstance(a, (Vec, VTemp)):
            return vec_inner(it, a, b)
        a, b = cf_of(it, a), cf_of(it, b)
        if len(a.e) != len(b.e):
            it.throw(C['NgException'], "InnerProduct: dimensions don't fit")
        return Cf([dot(a.e, b.e)], (), a.zero or b.zero)

    def outer(it, a, b):
        a, b = cf_of(it, a), cf_of(it, b)
        return Cf([mul(x, y) for x in a.e for y in b.e], (len(a.e), len(b.e)), a.zero or b.zero)

    def Id(it, n):
        n = int_const(it, n)
        return Cf([ONE if i == j else ZERO for i in range(n) for j in range(n)], (n, n))

    def grad(it, u):
        u = it.unnative(u)
        if not isinstance(u, (Gf, Proxy)):
            it.throw('TypeError', f"cannot form grad of {u!r}")
        d = u.space.mesh.dim
        es = []
        for c in u.e:
            for k in range(d):
                es.append(alg.declare(f"d{'xyz'[k]}({c.args[0]})"))
        if not u.dims:
            return Cf(es, (d,))
        return Cf(es, (len(u.e), d))

    def div_(it, u):
        g = grad(it, u)
        if len(u.dims) == 2 and u.dims[1] == u.space.mesh.dim:
            d = u.dims[1]
            # the derivative of component (i, j) along x_k is entry (i*d + j)*d + k
            rows = []
            for i in range(u.dims[0]):
                r = ZERO
                for j in range(d):
                    r = add(r, g.e[(i * d + j) * d + j])
                rows.append(r)
            return Cf(rows, (u.dims[0], 1))
        if len(g.dims) == 2 and g.dims[0] == g.dims[1]:
            r = ZERO
            for i in range(g.dims[0]):
                r = add(r, g.e[i * g.dims[0] + i])
            return Cf([r])
        # row-wise divergence of matrix valued proxies
        it.unsupported('div of a non-vector')

    def square(it, m, what):
        m = cf_of(it, m)
        if len(m.dims) != 2 or m.dims[0] != m.dims[1]:
            it.throw(C['NgException'], f'{what} of non-square matrix called')
        return m

    def trace(it, m):
        m = square(it, m, 'Trace')
        return Cf([_sum([m.e[i * m.dims[0] + i] for i in range(m.dims[0])])], (), m.zero)

    def deviator(it, m):
        t = trace(it, m)
        n = it.getitem(it.getattr(m, 'dims'), 0)
        return it.binop(ast.Sub, m, it.binop(ast.Mult, it.binop(ast.Mult, it.binop(ast.Div, 1, n), t), Id(it, n)))

    def ngsum(it, xs, start=None):
        xs = it.to_list(xs)
        if start is None:
            if not xs:
                return 0
            start, *xs = xs
        for x in xs:
            start = it.binop(ast.Add, start, x)
        return start

    def cof(it, m):
        m = square(it, m, 'Cofactor')
        n = m.dims[0]
        if n > 3:
            it.unsupported('Cof of a large matrix')
        out = []
        for i in range(n):
            for j in range(n):
                minor = [m.e[a * n + b] for a in range(n) if a != i for b in range(n) if b != j]
                d = det(it, Cf(minor, (n - 1, n - 1))).e[0] if n > 1 else ONE
                out.append(d if (i + j) % 2 == 0 else alg.neg(d))
        return Cf(out, (n, n))

    def inv(it, m):
        m = square(it, m, 'Inverse')
        d = det(it, m).e[0]
        c = cof(it, m)
        n = m.dims[0]
        return Cf([div(c.e[j * n + i], d) for i in range(n) for j in range(n)], (n, n))

    def cross(it, a, b):
        a, b = cf_of(it, a), cf_of(it, b)
        if a.dims != (3,) or b.dims != (3,):
            it.throw(C['NgException'], 'first factor of cross product does not have dim=3')
        a, b = a.e, b.e
        return Cf([sub(mul(a[(i + 1) % 3], b[(i + 2) % 3]), mul(a[(i + 2) % 3], b[(i + 1) % 3])) for i in range(3)], (3,))

    def zerocf(it, shape=()):
        d = tuple(int_const(it, n) for n in it.iterate(shape)) if not isinstance(shape, int) else (shape,)
        return Cf([ZERO] * hmath.prod(d), d, True)

    def ngpow(it, a, b):
        a, b = it.unnative(a), it.unnative(b)
        if isinstance(a, Cf) or isinstance(b, Cf):
            return it.binop(ast.Pow, a if isinstance(a, Cf) else cf_of(it, a), b)
        return it.binop(ast.Pow, a, b)

    def det(it, m):
        m = square(it, m, 'Det')
        n = m.dims[0]

        def rec(rows, cols):
            if not rows:
                return ONE
            r = ZERO
            for j, c in enumerate(cols):
                t = mul(m.e[rows[0] * n + c], rec(rows[1:], cols[:j] + cols[j + 1:]))
                r = add(r, t) if j % 2 == 0 else sub(r, t)
            return r
        return Cf([rec(list(range(n)), list(range(n)))])

    def integrate(it, cf, mesh=None, VOL_or_BND=None, order=5, definedon=None, **k):
        c = it.unnative(cf)
        if isinstance(c, Integrals):
            return ext_call(it, 'integrate', c, (mesh,), k) or Num(alg.declare_sym(f"int{len(it.events)}") if False else sym('integral'))
        c = cf_of(it, c)
        it.events.append(('integrate', c, mesh, order, definedon, k))
        d = definedon.names() if isinstance(definedon, Region) else definedon
        vals = [Num(fn('int', x, alg.declare(f"over:{d!r}:{order!r}"))) for x in c.e]
        if len(vals) == 1 and not c.dims:
            return vals[0]
        return Arr(vals, 'vector')

    class SceneV(Opaque):
        def getattr(self, it, name):
            if name == 'Redraw':
                return H(name, lambda it, *a, **k: it.events.append(('scene.redraw', self)))
            return super().getattr(it, name)

    def draw(it, *a, **k):
        it.events.append(('draw', a, k))
        name = k.get('name', a[2] if len(a) > 2 else '')
        off = getattr(it, 'no_gui', False)
        if off is True or off and name in off:
            return None
        return SceneV(f"scene {name}")

    def bfv(it, cf):
        c = cf_of(it, cf)
        return Cf([fn('bfv', x) for x in c.e], c.dims, c.zero)

    class SpecialCf(Model):
        tname = 'specialcf'

        def getattr(self, it, name):
            if name == 'normal':
                return H(name, lambda it, d: Cf([alg.declare(f"n{i}") for i in range(int_const(it, d))], (int_const(it, d),)))
            if name == 'tangential':
                return H(name, lambda it, d, *a: Cf([alg.declare(f"t{i}") for i in range(int_const(it, d))], (int_const(it, d),)))
            if name == 'mesh_size':
                return Cf([alg.declare('meshsize', 'pos')])
            return super().getattr(it, name)

    x, y, z = (Cf([alg.declare(n)]) for n in ('x', 'y', 'z'))
    it.xyz = (x, y, z)
    ng = {
        'CF': CFc, 'CoefficientFunction': CFc, 'Parameter': Pc, 'GridFunction': C['GridFunction'],
        'x': x, 'y': y, 'z': z, 'pi': hmath.pi, 'specialcf': SpecialCf(),
        'IfPos': H('IfPos', ifpos_), 'InnerProduct': H('InnerProduct', inner), 'OuterProduct': H('OuterProduct', outer),
        'Id': H('Id', Id), 'grad': H('grad', grad), 'Grad': H('Grad', grad), 'div': H('div', div_), 'Det': H('Det', det),
        'Trace': H('Trace', trace), 'Cross': H('Cross', cross), 'ZeroCF': H('ZeroCF', zerocf), 'pow': H('pow', ngpow),
        'Trans': H('Trans', lambda it, m: it.getattr(m, 'trans')),
        'Sym': H('Sym', lambda it, m: it.binop(ast.Mult, 0.5, it.binop(ast.Add, m, it.getattr(m, 'trans')))),
        'Deviator': H('Deviator', deviator), 'sum': H('sum', ngsum),
        'Normalize': H('Normalize', lambda it, v: it.binop(ast.Div, v, it.call(ng['Norm'], [v]))),
        'Skew': H('Skew', lambda it, m: it.binop(ast.Mult, 0.5, it.binop(ast.Sub, m, it.getattr(m, 'trans')))),
        'Norm': H('Norm', lambda it, v: Cf([alg.sqrt(dot(v.e, v.e))])),
        'Inv': H('Inv', inv), 'Cof': H('Cof', cof),
        'dx': DiffSym('VOL'), 'ds': DiffSym('BND'), 'VOL': Flag('VOL'), 'BND': Flag('BND'), 'BBND': Flag('BBND'),
        'ELEMENT': Flag('ELEMENT'), 'FACET': Flag('FACET'), 'VERTEX': Flag('VERTEX'), 'EDGE': Flag('EDGE'), 'FACE': Flag('FACE'),
        'ORDER_POLICY': Enum({n: Flag(n) for n in ('CONSTANT', 'VARIABLE', 'NODE_TYPE', 'OLDSTYLE')}),
        'Integrate': H('Integrate', integrate), 'BoundaryFromVolumeCF': H('BoundaryFromVolumeCF', bfv),
        'Interpolate': H('Interpolate', lambda it, cf, space, **k: Cf([fn('interp', e, sym(repr(space))) for e in cf_of(it, cf).e], cf_of(it, cf).dims)),
        'Redraw': H('Redraw', lambda it, *a, **k: it.events.append(('redraw', a))),
        'Draw': H('Draw', draw),
        'unit_square': Opaque('unit_square'), 'unit_cube': Opaque('unit_cube'),
        'Conj': H('Conj', lambda it, v: v),
        'SetNumThreads': H('SetNumThreads', lambda it, n: None),
        'Vector': H('Vector', lambda it, *a: it.unsupported('Vector')),
    }
    for n in ('exp', 'log', 'sin', 'cos', 'tan', 'atan', 'sqrt', 'sinh', 'cosh', 'acos', 'asin', 'floor', 'ceil', 'erf'):
        ng[n] = unary(n)
    ng['atan2'] = H('atan2', lambda it, a, b: Cf([fn('atan2', cf_of(it, a).e[0], cf_of(it, b).e[0])]))
    for k in ('L2', 'VectorL2', 'FacetFESpace', 'H1', 'VectorH1', 'HDiv', 'HCurl', 'VectorFacetFESpace', 'FESpace',
              'ProductSpace', 'Compress', 'Periodic', 'Discontinuous', 'BilinearForm', 'LinearForm', 'BaseVector',
              'BitArray', 'Mesh', 'Region', 'TaskManager', 'NodeId', 'VTKOutput', 'NumberSpace', 'NgException', 'SurfaceL2'):
        ng[k] = C[k]
    comp = module('ngsolve.comp', {k: C[k] for k in ('SumOfIntegrals', 'ProxyFunction', 'DifferentialSymbol', 'FESpace',
                                                     'GridFunction', 'Mesh', 'Region', 'BilinearForm', 'LinearForm', 'ProductSpace', 'L2', 'VectorL2')},
                  unknown_resolver('ngsolve.comp'))
    ng['comp'] = comp
    webgui = module('ngsolve.webgui', {'Draw': ng['Draw']}, unknown_resolver('ngsolve.webgui'))
    ng['webgui'] = webgui
    fem = module('ngsolve.fem', {'CoefficientFunction': CFc, 'Parameter': Pc, 'CF': CFc}, unknown_resolver('ngsolve.fem'))
    ng['fem'] = fem
    for m in (comp, fem):
        for k in apis().get('module ' + m.name, ()):
            if k in ng and not k.startswith('_'):
                m.ns.setdefault(k, ng[k])
    module('ngsolve', ng, unknown_resolver('ngsolve'))

    # --- numpy
    def arange(it, *a, **k):
        a = [it.unnative(x) for x in a]
        if any(isinstance(x, Model) for x in a):
            it.unsupported('arange over symbolic numbers')
        if all(isinstance(x, int) for x in a):
            return Arr(list(range(*a)))
        start, stop, step = (0.0, a[0], 1.0) if len(a) == 1 else (*a, 1.0)[:3]
        return Arr([start + i * step for i in range(max(0, hmath.ceil((stop - start) / step)))])

    def linspace(it, a, b, n=50, **k):
        if isinstance(n, Model):
            it.unsupported('linspace')
        h = it.binop(ast.Div, it.binop(ast.Sub, b, a), n - 1)
        return Arr([it.binop(ast.Add, a, it.binop(ast.Mult, i, h)) for i in range(n)])

    def np_sqrt(it, v):
        v = it.unnative(v)
        if isinstance(v, Arr):
            return Arr([ng['sqrt'].fn(it, q) for q in v.items])
        if isinstance(v, Cf):
            it.throw('TypeError', 'loop of ufunc does not support argument of type CoefficientFunction')
        return ng['sqrt'].fn(it, v)

    def concat(it, xs, **k):
        out = []
        for a in it.iterate(xs):
            a = it.unnative(a)
            if not isinstance(a, (Arr, list, tuple)):
                it.throw('ValueError', 'zero-dimensional arrays cannot be concatenated')
            out.extend(a.items if isinstance(a, Arr) else a)
        return Arr(out)

    def np_array(it, v, *a, **k):
        v = it.unnative(v)
        if isinstance(v, (int, float, Num)):
            # numpy.array(scalar) is zero-dimensional
            return Arr0(v)
        return arr_of(it, v)
    npns = {'ndarray': C['ndarray'], 'array': H('array', np_array), 'asarray': H('asarray', np_array),
            'linspace': H('linspace', linspace), 'sqrt': H('sqrt', np_sqrt), 'concatenate': H('concatenate', concat),
            'atleast_1d': H('atleast_1d', lambda it, v: arr_of(it, v.v if isinstance(v, Arr0) else v)),
            'hstack': H('hstack', lambda it, xs: Arr([q for a in it.iterate(xs) for q in arr_of(it, a.v if isinstance(a, Arr0) else a).items])),
            'flip': H('flip', lambda it, v: Arr(list(reversed(arr_of(it, v).items)))),
            'diff': H('diff', lambda it, v: Arr([it.binop(ast.Sub, b, a) for a, b in zip(v.items, v.items[1:])])),
            'abs': H('abs', lambda it, v: it.builtins['abs'].fn(it, v)),
            'isnan': H('isnan', lambda it, v: isnan(it, v)), 'pi': hmath.pi, 'inf': float('inf'), 'nan': float('nan'),
            'arange': H('arange', arange),
            'zeros': H('zeros', lambda it, n, *a: Arr([0.0] * n)), 'float64': it.builtin_cls['float']}
    for n in ('exp', 'log', 'sin', 'cos', 'tan'):
        npns[n] = ng[n]

    def exact_float(it, r):
        if not isinstance(r, Num):
            return float(r)
        r = Num(r.e, False)
        r.exact = True
        return r

    def np_whole(how):
        def f(it, v, *a, **k):
            v = it.unnative(v)
            if isinstance(v, Arr):
                return Arr([f(it, q, *a) for q in v.items])
            if how == 'round':
                r = it.builtins['round'].fn(it, v, *a)
                return r if a and a[0] else exact_float(it, r)
            if isinstance(v, Num):
                return exact_float(it, whole_part(it, how, v.e, not v.integer))
            return float(getattr(hmath, how)(v))
        return H(how, f)
    for n in ('floor', 'ceil', 'trunc'):
        npns[n] = np_whole(n)
    npns['rint'] = npns['round'] = npns['around'] = np_whole('round')

    def np_pick(name):
        def f(it, a, b):
            a, b = it.unnative(a), it.unnative(b)
            if isinstance(a, Arr) or isinstance(b, Arr):
                it.unsupported(f'numpy.{name} of arrays')
            return it.call(it.builtins['max' if name == 'maximum' else 'min'], [a, b])
        return H(name, f)
    npns['maximum'], npns['minimum'] = np_pick('maximum'), np_pick('minimum')
    npns['ones'] = H('ones', lambda it, n, *a, **k: Arr([1.0] * n))
    npns['full'] = H('full', lambda it, n, v, *a, **k: Arr([v] * n))
    npns['append'] = H('append', lambda it, a, b: concat(it, [arr_of(it, a), arr_of(it, b)]))
    npns['isfinite'] = H('isfinite', lambda it, v: not isnan(it, v))
    npns['isclose'] = H('isclose', lambda it, a, b, **k: it.truth(it.compare(ast.Eq, a, b)))
    def np_items(it, v):
        v = it.unnative(v)
        if isinstance(v, Arr0):
            v = v.v
        if isinstance(v, (int, float, Num)):
            return [v]
        if isinstance(v, Arr):
            return list(v.items)
        if isinstance(v, (list, tuple)) and not any(isinstance(it.unnative(x), (Model, list, tuple)) and not isinstance(it.unnative(x), Num) for x in v):
            return list(v)
        it.unsupported('numpy reduction of a non-vector')

    def reduction(name):
        def f(it, v, *a, **k):
            if a or k:
                it.unsupported(f'numpy.{name} with an axis')
            xs = np_items(it, v)
            if name == 'norm':
                return norm_of(it, xs)
            if name in ('max', 'min'):
                return it.call(it.builtins[name], [xs])
            if name == 'mean':
                return it.binop(ast.Div, it.call(it.builtins['sum'], [xs]), len(xs))
            if name == 'prod':
                r = 1
                for x in xs:
                    r = it.binop(ast.Mult, r, x)
                return r
            return it.call(it.builtins['sum'], [xs])
        return H(name, f)
    for n in ('sum', 'prod', 'max', 'min', 'mean'):
        npns[n] = reduction(n)
    npns['amax'], npns['amin'] = npns['max'], npns['min']

    def np_dot(it, a, b):
        xs, ys = np_items(it, a), np_items(it, b)
        if len(xs) != len(ys):
            it.throw('ValueError', 'shapes not aligned')
        r = 0
        for x, y in zip(xs, ys):
            r = it.binop(ast.Add, r, it.binop(ast.Mult, x, y))
        return r
    npns['dot'] = npns['inner'] = H('dot', np_dot)
    npns['hypot'] = H('hypot', lambda it, a, b: norm_of(it, [a, b]))
    npns['radians'] = npns['deg2rad'] = H('radians', lambda it, v: it.binop(ast.Div, it.binop(ast.Mult, v, hmath.pi), 180))
    npns['degrees'] = npns['rad2deg'] = H('degrees', lambda it, v: it.binop(ast.Div, it.binop(ast.Mult, v, 180), hmath.pi))
    npns['power'] = H('power', lambda it, a, b: it.binop(ast.Pow, a, b))
    npns['square'] = H('square', lambda it, a: it.binop(ast.Mult, a, a))
    npns['log10'] = H('log10', lambda it, v: it.call(mns['log10'], [v]))
    for n, o in (('add', ast.Add), ('subtract', ast.Sub), ('multiply', ast.Mult), ('divide', ast.Div)):
        npns[n] = H(n, lambda it, a, b, o=o: it.binop(o, a, b))
    npns['linalg'] = module('numpy.linalg', {'norm': reduction('norm')}, unknown_resolver('numpy.linalg', False))
    module('numpy', npns, unknown_resolver('numpy', False))

    def isnan(it, v):
        v = it.unnative(v)
        if isinstance(v, (int, float)):
            return v != v
        if isinstance(v, Num):
            if simplify_const(v.e) is not None:
                return False
            if const_sign(v.e) is not None:
                return False
            return it.decide(('isnan', alg.show(v.e)), [False, True])
        it.throw('TypeError', 'must be real number')

    # --- stdlib
    mns = {n: ng[n] for n in ('exp', 'log', 'sin', 'cos', 'tan', 'atan', 'sqrt', 'sinh', 'cosh', 'acos', 'asin', 'atan2')}

    def m_floor(name):
        def f(it, v):
            e = to_e(v)
            c = simplify_const(e)
            if c is not None:
                return getattr(hmath, name)(c)
            return whole_part(it, name, e)
        return H(name, f)
    def concrete(name):
        def f(it, *a, **k):
            a = [it.unnative(x) for x in a]
            if k or any(isinstance(x, Model) for x in a):
                it.unsupported(f'math.{name} of symbolic numbers')
            try:
                return getattr(hmath, name)(*a)
            except (ValueError, TypeError, OverflowError) as e:
                it.throw(type(e).__name__, str(e))
        return H(name, f)
    for n in ('log2', 'log1p', 'expm1', 'tanh', 'asinh', 'acosh', 'atanh', 'fmod', 'erf', 'gamma', 'comb', 'perm', 'factorial', 'lcm', 'cbrt', 'frexp', 'ldexp',
              'modf', 'nextafter', 'ulp', 'remainder', 'copysign'):
        mns[n] = concrete(n)

    def norm_of(it, xs):
        r = ZERO
        for x in xs:
            e = to_e(it.unnative(x))
            r = add(r, mul(e, e))
        return mknum(alg.sqrt(r))
    mns['dist'] = H('dist', lambda it, p, q: norm_of(it, [it.binop(ast.Sub, a, b) for a, b in zip(it.to_list(p), it.to_list(q))]))
    mns['radians'] = H('radians', lambda it, v: it.binop(ast.Div, it.binop(ast.Mult, v, hmath.pi), 180))
    mns['degrees'] = H('degrees', lambda it, v: it.binop(ast.Div, it.binop(ast.Mult, v, 180), hmath.pi))
    mns['fsum'] = H('fsum', lambda it, xs: it.binop(ast.Add, 0.0, it.call(it.builtins['sum'], [xs])))
    mns['sumprod'] = H('sumprod', lambda it, p, q: it.call(it.builtins['sum'], [[it.binop(ast.Mult, a, b) for a, b in zip(it.to_list(p), it.to_list(q))]]))
    mns['pow'] = H('pow', lambda it, a, b: it.binop(ast.Pow, it.binop(ast.Mult, 1.0, a), b))

    def whole_trunc(it, v):
        v = it.unnative(v)
        return int(v) if isinstance(v, (int, float)) else it.call(it.builtins['int'], [v])
    mns['trunc'] = H('trunc', whole_trunc)
    mns.update({'pi': hmath.pi, 'e': hmath.e, 'inf': hmath.inf, 'nan': hmath.nan, 'isnan': H('isnan', isnan),
                'isfinite': H('isfinite', lambda it, v: not isnan(it, v)), 'isinf': H('isinf', lambda it, v: isinstance(v, float) and hmath.isinf(v)),
                'floor': m_floor('floor'), 'ceil': m_floor('ceil'), 'fabs': H('fabs', lambda it, v: it.builtins['abs'].fn(it, v)),
                'isclose': H('isclose', lambda it, a, b, **k: hmath.isclose(a, b, **k) if isinstance(a, (int, float)) and isinstance(b, (int, float)) else it.truth(it.compare(ast.Eq, a, b))),
                'gcd': H('gcd', lambda it, *a: hmath.gcd(*a)), 'isqrt': H('isqrt', lambda it, a: hmath.isqrt(a)),
                'hypot': H('hypot', lambda it, *a: norm_of(it, a)),
                'prod': H('prod', lambda it, xs, *, start=1: _prod(it, xs, start)),
                'log10': H('log10', lambda it, v: hmath.log10(v) if isinstance(v, (int, float)) and v > 0 and hmath.log10(v).is_integer() else mknum(div(fn('log', to_e(v)), fn('log', num(10)))))})
    module('math', mns)
    module('builtins', it.builtins)
    module('numbers', {n: C[n] for n in ('Number', 'Real', 'Integral', 'Rational', 'Complex')})
    module('logging', {
        'getLogger': H('getLogger', Log.get), 'INFO': 20, 'DEBUG': 10, 'WARNING': 30, 'ERROR': 40, 'CRITICAL': 50, 'NOTSET': 0,
        'getLevelName': H('getLevelName', lambda it, l: {10: 'DEBUG', 20: 'INFO', 30: 'WARNING', 40: 'ERROR', 50: 'CRITICAL', 0: 'NOTSET'}.get(l, f"Level {l}") if isinstance(l, int) else l),
        'Formatter': H('Formatter', lambda it, *a, **k: Formatter(a, k)),
        'StreamHandler': H('StreamHandler', lambda it, *a: mkhandler(it, 'StreamHandler', a)),
        'FileHandler': H('FileHandler', lambda it, *a, **k: mkhandler(it, 'FileHandler', a)),
        'NullHandler': H('NullHandler', lambda it: Handler('NullHandler', ())),
        'basicConfig': H('basicConfig', lambda it, **k: None),
        'Logger': IClass('Logger', [obj], {}, 'logging')}, opaque_resolver('logging'))

    def mkhandler(it, kind, a):
        h = Handler(kind, a)
        it.events.append(('handler.new', h))
        return h
    idf = H('identity', lambda it, f, *a: f)
    module('typing', {'TYPE_CHECKING': False, 'overload': idf, 'final': idf, 'no_type_check': idf, 'runtime_checkable': idf,
                      'cast': H('cast', lambda it, t, v: v), 'Any': Opaque('typing.Any'),
                      'TypeVar': H('TypeVar', lambda it, n, *a, **k: Opaque('TypeVar.' + n)),
                      'get_type_hints': H('get_type_hints', lambda it, o: {}),
                      'override': idf, 'NoReturn': None}, opaque_resolver('typing'))

    def wraps(it, f, *a, **k):
        def deco(it, g):
            if isinstance(g, IFunc) and isinstance(f, IFunc):
                g.name = f.name
                g.d['__wrapped__'] = f
                g.d['__doc__'] = f.info.doc
                g.d.update({k: v for k, v in f.d.items() if k not in g.d})
                g.d['__name__'] = f.name
            return g
        return H('wraps', deco)

    def reduce(it, f, xs, *init):
        xs = it.to_list(xs)
        r = init[0] if init else xs.pop(0)
        for v in xs:
            r = it.call(f, [r, v])
        return r

    def lru(it, *a, **k):
        if a and isinstance(a[0], IFunc):
            return memo(it, a[0])
        return H('lru_cache', lambda it, f: memo(it, f))

    def memo(it, f):
        cache = {}
        f.d['cache'] = cache       # module-lifetime state, visible to snapshot()

        def call(it, *a, **k):
            key = tuple(cache_key(x) for x in a) + tuple((n, cache_key(v)) for n, v in sorted(k.items()))
            if key not in cache:
                cache[key] = it.call(f, list(a), k)
            return cache[key]
        h = IFuncProxy(f, call)
        return h
    module('functools', {'wraps': H('wraps', wraps), 'partial': H('partial', lambda it, f, *a, **k: PartialV(f, a, k)),
                         'partialmethod': H('partialmethod', lambda it, f, *a, **k: PartialV(f, a, k, True)),
                         'reduce': H('reduce', reduce), 'lru_cache': H('lru_cache', lru), 'cache': H('cache', memo),
                         'cached_property': H('cached_property', lambda it, f: PropertyV(f, cached=True)),
                         'cmp_to_key': H('cmp_to_key', lambda it, f: it.unsupported('cmp_to_key'))})

    module('pathlib', {'Path': C['Path'], 'PurePath': C['Path'], 'PosixPath': C['Path']}, opaque_resolver('pathlib'))

    def p_dump(it, o, f, *a, **k):
        if isinstance(f, File):
            f.rows.append(o)
            if f.closed:
                it.throw('ValueError', 'write to closed file')
        ext_call(it, 'pickle.dump', f, (o,), k)
    module('pickle', {'dump': H('dump', p_dump), 'load': H('load', lambda it, f: (it.events.append(('pickle.load', f)), Opaque('pickled'))[1]),
                      'DEFAULT_PROTOCOL': 4, 'HIGHEST_PROTOCOL': 5, 'dumps': H('dumps', lambda it, o, *a: Opaque('bytes'))}, opaque_resolver('pickle'))
    module('csv', {'writer': H('writer', lambda it, f, *a, **k: CsvWriter(f))}, opaque_resolver('csv'))
    module('json', {'dump': H('dump', lambda it, o, f, **k: ext_call(it, 'json.dump', f, (o,), k)),
                    'dumps': H('dumps', lambda it, o, **k: SymStr([('json', repr(o))]))}, opaque_resolver('json'))
    module('yaml', {'dump': H('dump', lambda it, o, f=None, **k: ext_call(it, 'yaml.dump', f, (o,), k))}, opaque_resolver('yaml'))
    module('time', {'sleep': H('sleep', lambda it, s: it.events.append(('sleep', s))),
                    'time': H('time', lambda it: fresh_int('now', True)), 'perf_counter': H('perf_counter', lambda it: fresh_int('now', True))})
    module('datetime', {'datetime': Opaque('datetime')}, opaque_resolver('datetime'))

    def defaultdict(it, c, a, k):
        f = a[0] if a else None

        class DD(dict):
            def __missing__(self, key):
                if f is None:
                    raise KeyError(key)
                self[key] = it.call(f, [])
                return self[key]
        d = DD()
        for src in a[1:]:
            d.update(src)
        return d
    module('collections', {'defaultdict': IClass('defaultdict', [it.builtin_cls['dict']], {}, 'collections', ctor=defaultdict),
                           'OrderedDict': it.builtin_cls['dict'],
                           'Counter': H('Counter', lambda it, xs=(): _counter(it, xs))})
    module('collections.abc', {})

    def chain(it, *xs):
        def g():
            for s in xs:
                yield from it.iterate(s)
        return IGen(g(), 'chain')

    def chained(it, xs):
        def g():
            for s in it.iterate(xs):
                yield from it.iterate(s)
        return IGen(g(), 'chain')

    def pairs(it, xs):
        def g():
            last = MISSING
            for x in it.iterate(xs):
                if last is not MISSING:
                    yield last, x
                last = x
        return IGen(g(), 'pairwise')

    def islice(it, xs, *a):
        import itertools
        return IGen(itertools.islice(it.iterate(xs), *a), 'islice')

    def product(it, *xs, repeat=1):
        import itertools
        return IGen(itertools.product(*[it.to_list(v) for v in xs], repeat=repeat), 'product')
    cm = IClass('chain', [obj], {'from_iterable': StaticMethodV(H('from_iterable', lambda it, xs: chained(it, xs)))},
                'itertools', ctor=lambda it, c, a, k: chain(it, *a))
    import itertools as _it
    module('itertools', {'chain': cm, 'islice': H('islice', islice), 'product': H('product', product),
                         'count': H('count', lambda it, start=0, step=1: IGen(_counting(it, start, step), 'count')),
                         'repeat': H('repeat', lambda it, object, times=None: IGen(_it.repeat(object) if times is None else _it.repeat(object, times), 'repeat')),
                         'combinations': H('combinations', lambda it, iterable, r: IGen(_it.combinations(it.to_list(iterable), r), 'comb')),
                         'permutations': H('permutations', lambda it, iterable, r=None: IGen(_it.permutations(it.to_list(iterable), r), 'perm')),
                         'pairwise': H('pairwise', pairs),
                         'zip_longest': H('zip_longest', lambda it, *xs, fillvalue=None: IGen(_it.zip_longest(*[it.to_list(v) for v in xs], fillvalue=fillvalue), 'zl')),
                         'accumulate': H('accumulate', lambda it, iterable, func=None, *, initial=MISSING: IGen(_accum(it, iterable, func, initial), 'acc'))})

    def op(o):
        return H(o.__name__, lambda it, a, b: it.binop(o, a, b))
    module('operator', {'add': op(ast.Add), 'sub': op(ast.Sub), 'mul': op(ast.Mult), 'truediv': op(ast.Div), 'pow': op(ast.Pow),
                        'or_': op(ast.BitOr), 'and_': op(ast.BitAnd), 'matmul': op(ast.MatMult),
                        'itemgetter': H('itemgetter', lambda it, *k: H('ig', lambda it, o: it.getitem(o, k[0]) if len(k) == 1 else tuple(it.getitem(o, q) for q in k))),
                        'methodcaller': H('methodcaller', lambda it, n, *a, **k: H('mc', lambda it, o: it.call(it.getattr(o, n), list(a), k))),
                        'eq': H('eq', lambda it, a, b: it.compare(ast.Eq, a, b)),
                        'lt': H('lt', lambda it, a, b: it.compare(ast.Lt, a, b)),
                        'gt': H('gt', lambda it, a, b: it.compare(ast.Gt, a, b)),
                        'contains': H('contains', lambda it, a, b: it.contains(a, b)),
                        'getitem': H('getitem', lambda it, a, b: it.getitem(a, b))})
    module('contextlib', {'contextmanager': H('contextmanager', lambda it, f: ctxmgr(f)),
                          'suppress': H('suppress', lambda it, *t: Suppress(t)),
                          'ExitStack': H('ExitStack', lambda it: ExitStackM()),
                          'nullcontext': H('nullcontext', lambda it, v=None: Ctx('null', v)),
                          'closing': H('closing', lambda it, o: Closing(o))})

    def copy_(it, o):
        if isinstance(o, (list, dict, set)):
            return type(o)(o)
        if isinstance(o, IObj):
            n = IObj(o.cls)
            n.d = dict(o.d)
            n.native = o.native
            return n
        return o

    def deepcopy_(it, o, memo=None):
        memo = {} if memo is None else memo
        if id(o) in memo:
            return memo[id(o)]
        if isinstance(o, list):
            r = memo[id(o)] = []
            r.extend(deepcopy_(it, q, memo) for q in o)
            return r
        if isinstance(o, dict):
            r = memo[id(o)] = {}
            r.update({k: deepcopy_(it, v, memo) for k, v in o.items()})
            return r
        if isinstance(o, tuple):
            return tuple(deepcopy_(it, q, memo) for q in o)
        if isinstance(o, IObj):
            n = memo[id(o)] = IObj(o.cls)
            n.d = deepcopy_(it, o.d, memo)
            n.native = o.native
            return n
        return o
    module('copy', {'copy': H('copy', copy_), 'deepcopy': H('deepcopy', deepcopy_)})
    module('dataclasses', {'dataclass': H('dataclass', dataclass_), 'field': H('field', lambda it, **k: FieldSpec(k)),
                           'asdict': H('asdict', lambda it, o: dict(o.d))})
    module('enum', {'auto': H('auto', lambda it: Opaque('enum.auto()'))})
    def abstract_(it, f):
        if isinstance(f, IFunc):
            f.d['__isabstractmethod__'] = True
        return f
    module('abc', {'abstractmethod': H('abstractmethod', abstract_), 'ABCMeta': IClass('ABCMeta', [it.type_cls], {}, 'abc')})
    import re as _re

    def re_fn(n):
        def f(it, *a, **k):
            if it.is_ground(a) and it.is_ground(k):
                r = getattr(_re, n)(*a, **k)
                if isinstance(r, (str, list, type(None))):
                    return r
                return Host(r)
            it.unsupported('re on symbolic text')
        return H(n, f)
    module('re', {n: re_fn(n) for n in ('match', 'search', 'sub', 'split', 'fullmatch', 'findall', 'compile', 'escape', 'subn', 'finditer')})
    module('sys', {'stdout': Opaque('stdout'), 'maxsize': 2**63 - 1, 'float_info': Opaque('float_info')}, opaque_resolver('sys'))
    def host_path(n):
        import os
        return H(n, lambda it, *a: getattr(os.path, n)(*a) if it.is_ground(a) else it.unsupported('os.path of abstract text'))
    osp = module('os.path', {n: host_path(n) for n in ('basename', 'dirname', 'splitext', 'split', 'normpath', 'isabs')}, unknown_resolver('os.path'))
    module('os', {'path': osp, 'makedirs': H('makedirs', lambda it, p, **k: ext_call(it, 'path.mkdir', p, (), k))}, unknown_resolver('os'))
    module('warnings', {'warn': H('warn', lambda it, *a, **k: it.events.append(('log', 'warn', 'warnings', a)))}, opaque_resolver('warnings'))
    module('types', {'MappingProxyType': H('mpt', lambda it, d: d)})
    module('weakref', {'WeakKeyDictionary': H('wkd', lambda it: {}), 'WeakValueDictionary': H('wvd', lambda it: {}), 'ref': H('ref', lambda it, o: H('deref', lambda it: o))})
    module('string', {}, opaque_resolver('string'))
    module('inspect', {}, opaque_resolver('inspect'))
    module('textwrap', {'dedent': H('dedent', lambda it, s: s)})
    def read_csv(it, path, *a, **k):
        r = Opaque('dataframe')
        it.events.append(('read_csv', path, a, k, r))
        return r
    module('pandas', {'read_csv': H('read_csv', read_csv)}, opaque_resolver('pandas'))
    for n in ('netgen', 'netgen.occ', 'netgen.meshing', 'netgen.csg', 'netgen.geom2d', 'matplotlib', 'matplotlib.pyplot', 'scipy'):
        module(n, {}, opaque_resolver(n))
    for n, k, v in netgen_model.modules():
        M[n].ns[k] = v
    return M


def external_module(it, name):
    if name.split('.')[0] in ('netgen', 'matplotlib', 'scipy', 'pandas', 'ngsolve'):
        return IModule(name, {}, True, lambda it, n: None if n.startswith('__') else Opaque(f"{name}.{n}"))
    if name.split('.')[0] in sys.stdlib_module_names or name.split('.')[0] in ('numpy', 'typing_extensions'):
        if name.split('.')[0] in sys.stdlib_module_names and importlib.util.find_spec(name) is None:
            return None
        return IModule(name, {}, True, lambda it, n: None if n.startswith('__') else Unmodelled(f"{name}.{n}"))
    return None


class Arr0(Model):
    tname = 'ndarray0'

    def __init__(self, v):
        self.v = v

    def cls(self, it):
        return it.models_cls['ndarray']


class Host(Model):
    def __init__(self, o):
        self.o = o

    def getattr(self, it, name):
        v = getattr(self.o, name, MISSING)
        if v is MISSING:
            it.throw('AttributeError', name)
        def call(it, *a, **k):
            if not (it.is_ground(a) and it.is_ground(k)):
                it.unsupported(f'{type(self.o).__name__}.{name} of abstract values')
            r = v(*a, **k)
            return r if isinstance(r, (str, int, float, bool, tuple, list, dict, type(None))) else Host(r)
        return HostFn(name, call) if callable(v) else v


class IFuncProxy(HostFn):
    def __init__(self, f, call):
        super().__init__(f.name, call)
        self.f = f


def cache_key(x):
    if isinstance(x, (int, float, str, tuple, type(None), bool)):
        return x
    if isinstance(x, IObj):
        return ('o', x.serial)
    return ('id', id(x), repr(x)[:40])


class FieldSpec(Model):
    def __init__(self, k):
        self.k = k


def dataclass_(it, c=None, **opts):
    if c is None:
        return HostFn('dataclass', lambda it, c: dataclass_(it, c, **opts))
    fields = []
    for k in reversed(c.mro):
        for n in k.ns.get('__annotations__', {}):
            if n not in fields:
                fields.append(n)

    def init(it, self_, *a, **k):
        vals = dict(zip(fields, a))
        vals.update(k)
        for n in fields:
            if n in vals:
                v = vals[n]
            else:
                v = c.lookup(n)
                if isinstance(v, FieldSpec):
                    v = it.call(v.k['default_factory'], []) if 'default_factory' in v.k else v.k.get('default')
                elif v is MISSING:
                    it.throw('TypeError', f"missing argument {n}")
            it.obj_setattr(self_, n, v)
        pi = c.lookup('__post_init__')
        if pi is not MISSING:
            it.call(Bound(pi, self_), [])
    def eq(it, a, b):
        if not (isinstance(b, IObj) and b.cls is a.cls):
            return NotImplemented
        return all(it.truth(it.compare(ast.Eq, it.getattr(a, n), it.getattr(b, n))) for n in fields)
    if opts.get('eq', True) is True and '__eq__' not in c.ns:
        c.ns['__eq__'] = HostFn('__eq__', eq)
        c.ns['__eq__'].user = True
    if opts.get('frozen') is True:
        def frozen(it, o, n, v):
            it.throw('AttributeError', f"cannot assign to field '{n}'")
        c.ns['__setattr__'] = HostFn('__setattr__', frozen)
        c.ns['__setattr__'].user = True
    if '__init__' not in c.ns or opts.get('init', True) is True:
        c.ns['__init__'] = HostFn('__init__', init)
    c.ns['__match_args__'] = tuple(fields)
    return c


class Ctx(Model):
    def __init__(self, name, v=None):
        self.tname = name
        self.v = v

    def enter(self, it):
        return self if self.v is None else self.v

    def getattr(self, it, name):
        if name in ('__enter__', '__exit__'):
            return HostFn(name, lambda it, *a: None)
        return super().getattr(it, name)


class Suppress(Model):
    def __init__(self, t):
        self.t = t

    def exit(self, it, exc):
        return exc is not None and any(exc.value.cls.issub(c) for c in self.t)


class Closing(Model):
    def __init__(self, o):
        self.o = o

    def enter(self, it):
        return self.o

    def exit(self, it, exc):
        it.call(it.getattr(self.o, 'close'), [])


class ExitStackM(Model):
    tname = 'ExitStack'

    def __init__(self):
        self.cbs = []

    def getattr(self, it, name):
        if name == 'callback':
            return HostFn(name, lambda it, f, *a, **k: self.cbs.append((f, a, k)))
        if name == 'enter_context':
            def ec(it, m):
                v = it.cm_enter(m)
                self.cbs.append((HostFn('exit', lambda it, m=m: it.cm_exit(m, None)), (), {}))
                return v
            return HostFn(name, ec)
        if name == 'close':
            return HostFn(name, lambda it: self.exit(it, None))
        if name == 'pop_all':
            def pa(it):
                n = ExitStackM()
                n.cbs, self.cbs = self.cbs, []
                return n
            return HostFn(name, pa)
        return super().getattr(it, name)

    def exit(self, it, exc):
        pend = exc
        while self.cbs:
            f, a, k = self.cbs.pop()
            try:
                it.call(f, list(a), k)
            except PyEx as e:
                pend = e
        if pend is not None and pend is not exc:
            raise pend


def ctxmgr(f):
    def call(it, *a, **k):
        return GenCtx(it.call(f, list(a), k))
    return HostFn(getattr(f, 'name', 'ctx'), call)


class GenCtx(Model):
    def __init__(self, g):
        self.g = g

    def enter(self, it):
        return next(self.g.gen)

    def exit(self, it, exc):
        try:
            if exc is None:
                next(self.g.gen)
            else:
                # the exception surfaces at the yield
                self.g.gen.throw(exc)
        except StopIteration:
            return exc is not None
        return False


class Enum(Model):
    def __init__(self, d):
        self.d = d

    def getattr(self, it, name):
        if name in self.d:
            return self.d[name]
        return super().getattr(it, name)


def _sum(es):
    r = ZERO
    for e in es:
        r = add(r, e)
    return r


def _prod(it, xs, start=1):
    r = start
    for x in it.iterate(xs):
        r = it.binop(ast.Mult, r, x)
    return r


def _counter(it, xs):
    d = {}
    for x in it.iterate(xs):
        d[x] = d.get(x, 0) + 1
    return d


def _accum(it, xs, f, initial):
    r = initial
    if r is not MISSING:
        yield r
    for x in it.iterate(xs):
        r = x if r is MISSING else it.binop(ast.Add, r, x) if f is None else it.call(f, [r, x])
        yield r


def _counting(it, start, step):
    while True:
        yield start
        start = it.binop(ast.Add, start, step)


def ctor_cf(it, a, k):
    k = dict(k)
    v = a[0] if a else k.pop('val', k.pop('coef', None))
    dims = a[1] if len(a) > 1 else k.pop('dims', None)
    r = cf_of(it, v, dims)
    if r is it.unnative(v):
        return Cf(r.e, r.dims, r.zero)
    return r


def ctor_param(it, a, k):
    v = it.unnative(a[0] if a else k['value'])
    if not isinstance(v, (int, float, Num)):
        it.throw('TypeError', f"Parameter(): incompatible constructor arguments: {v!r}")
    p = Param(as_float(v), it.names_next('param'))
    it.params = getattr(it, 'params', {})
    it.params[p.name] = p
    it.events.append(('param.new', p))
    return p


def ctor_gf(it, a, k):
    sp = a[0] if a else k.get('space')
    if not isinstance(sp, Space):
        it.throw('TypeError', 'GridFunction(): incompatible arguments')
    name = a[1] if len(a) > 1 else k.get('name')
    g = Gf(it, sp, name)
    it.events.append(('gf.new', g))
    return g


def ctor_space(it, c, n, a, k):
    mesh = a[0] if a else k.get('mesh')
    if not isinstance(mesh, Mesh):
        it.throw('TypeError', f"{n}(): incompatible arguments")
    s = Space(n, mesh, {kk: v for kk, v in k.items() if kk != 'mesh'})
    it.events.append(('fes.new', s))
    return s


def ctor_vtk(it, a, k):
    k = dict(k)
    if a:
        k['ma'] = a[0]
    v = Vtk(k)
    ext_call(it, 'vtk.new', v, (), k)
    return v


def MeshFrom(it, a):
    m = Mesh(name='ngmesh')
    if a and isinstance(a[0], netgen_model.BuiltMesh):
        m.built = a[0]
    return m
