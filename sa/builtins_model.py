"""Abstract semantics of Python's builtins."""
from __future__ import annotations
import ast
import functools
import math

from .interp import (IClass, IObj, IFunc, Bound, HostFn, PropertyV, ClassMethodV, StaticMethodV, PartialV,
                     IModule, IGen, Model, SymStr, PyEx, Unsupported, MISSING, HOSTEXC, PLAIN, _DICTVIEWS,
                     join_str, SuperV)
import builtins as hb

_HOST_ERR = (TypeError, ValueError, KeyError, IndexError, AttributeError, ZeroDivisionError, OverflowError,
             RuntimeError)


def guard(it, f, *a, **k):
    try:
        return f(*a, **k)
    except _HOST_ERR as e:
        it.throw(type(e).__name__, *e.args)


def make_builtins(it):
    B = {}
    obj = it.object_cls
    C = it.builtin_cls

    def cls(name, base=obj, ctor=None, ns=None, check=None):
        c = IClass(name, [base], ns or {}, 'builtins', check=check, ctor=ctor)
        C[name] = c
        B[name] = c
        return c

    # --- exceptions
    for n in sorted(HOSTEXC, key=lambda n: len(getattr(hb, n).__mro__)):
        h = getattr(hb, n)
        base = h.__mro__[1].__name__
        cls(n, C.get(base, obj))
    B['IOError'] = B['EnvironmentError'] = C['OSError']
    C['IOError'] = C['OSError']

    # --- plain types
    def c_int(it, c, a, k):
        if not a:
            return 0
        x = it.unnative(a[0])
        if isinstance(x, Model):
            f = getattr(x, 'to_int', None)
            if f:
                return f(it)
            if isinstance(x, SymStr):
                return it.models.fresh_int('int(' + repr(x) + ')')
            it.unsupported(f"int({x!r})")
        if isinstance(x, IObj):
            f = x.cls.lookup('__int__')
            if f is MISSING:
                it.throw('TypeError', 'int() argument must be a number')
            return it.call(Bound(f, x), [])
        return guard(it, int, x, *a[1:], **k)

    def c_float(it, c, a, k):
        if not a:
            return 0.0
        x = it.unnative(a[0])
        if isinstance(x, Model):
            f = getattr(x, 'to_float', None)
            if f:
                return f(it)
            if isinstance(x, SymStr):
                return it.models.num_of_str(it, x)
            it.throw('TypeError', f"float() argument must be a string or a real number, not '{it.class_of(x).name}'")
        if isinstance(x, IObj):
            f = x.cls.lookup('__float__')
            if f is MISSING:
                it.throw('TypeError', 'float() argument must be a number')
            return it.call(Bound(f, x), [])
        return guard(it, float, x)

    def c_bool(it, c, a, k):
        return it.truth(a[0]) if a else False

    def c_str(it, c, a, k):
        return it.str_(a[0]) if a else ""

    def c_list(it, c, a, k):
        return it.to_list(a[0]) if a else []

    def c_tuple(it, c, a, k):
        return tuple(it.iterate(a[0])) if a else ()

    def c_set(it, c, a, k):
        return set(it.iterate(a[0])) if a else set()

    def c_frozenset(it, c, a, k):
        return frozenset(it.iterate(a[0])) if a else frozenset()

    def c_dict(it, c, a, k):
        d = {}
        dict_update(it, d, *a, **k)
        return d

    def c_complex(it, c, a, k):
        return guard(it, complex, *a)

    def c_range(it, c, a, k):
        a = [it.unnative(x) for x in a]
        if any(isinstance(x, Model) for x in a):
            return it.models.symbolic_range(it, a)
        return guard(it, range, *a)

    def c_slice(it, c, a, k):
        return slice(*a)

    intc = cls('int', ctor=c_int)
    cls('bool', intc, ctor=c_bool)
    cls('float', ctor=c_float)
    cls('complex', ctor=c_complex)
    cls('str', ctor=c_str)
    cls('bytes', ctor=lambda it, c, a, k: guard(it, bytes, *a))
    cls('tuple', ctor=c_tuple)
    cls('list', ctor=c_list)
    cls('dict', ctor=c_dict)
    cls('set', ctor=c_set)
    cls('frozenset', ctor=c_frozenset)
    cls('range', ctor=c_range)
    cls('slice', ctor=c_slice)
    C['NoneType'] = IClass('NoneType', [obj], {}, 'builtins')
    C['function'] = IClass('function', [obj], {}, 'builtins')
    C['generator'] = IClass('generator', [obj], {}, 'builtins')
    C['module'] = IClass('module', [obj], {}, 'builtins')
    C['dictview'] = IClass('dictview', [obj], {}, 'builtins')

    def c_property(it, c, a, k):
        p = list(a) + [None] * 4
        return PropertyV(k.get('fget', p[0]), k.get('fset', p[1]), k.get('fdel', p[2]))

    cls('property', ctor=c_property)
    cls('classmethod', ctor=lambda it, c, a, k: ClassMethodV(a[0]))
    cls('staticmethod', ctor=lambda it, c, a, k: StaticMethodV(a[0]))
    B['object'] = obj
    B['type'] = it.type_cls

    # --- functions
    def bi(f, name=None):
        n = name or f.__name__.rstrip('_')
        B[n] = HostFn(n, f)
        return f

    @bi
    def isinstance_(it, v, t):
        return it.isinstance_(v, t)

    @bi
    def issubclass_(it, c, t):
        if isinstance(t, tuple):
            return any(issubclass_(it, c, x) for x in t)
        if isinstance(c, Model):
            c = it.models.as_class(it, c)
        if isinstance(t, Model):
            t = it.models.as_class(it, t)
        if not isinstance(c, IClass):
            it.throw('TypeError', 'issubclass() arg 1 must be a class')
        return c.issub(t)

    @bi
    def getattr_(it, o, n, *d):
        if isinstance(n, SymStr):
            it.unsupported(f"getattr with symbolic name {n!r}")
        return it.getattr(o, n, *d)

    @bi
    def setattr_(it, o, n, v):
        if isinstance(n, SymStr):
            it.unsupported(f"setattr with symbolic name {n!r}")
        return it.setattr(o, n, v)

    @bi
    def delattr_(it, o, n):
        return it.delattr(o, n)

    @bi
    def hasattr_(it, o, n):
        try:
            it.getattr(o, n)
            return True
        except PyEx as ex:
            if ex.value.cls.issub(C['AttributeError']):
                return False
            raise

    @bi
    def vars_(it, o):
        if isinstance(o, IObj):
            return o.d
        if isinstance(o, (IClass, IModule)):
            return o.ns
        it.unsupported(f"vars({o!r})")

    @bi
    def dir_(it, o):
        if isinstance(o, IClass):
            return sorted({k for c in o.mro for k in c.ns})
        if isinstance(o, IObj):
            return sorted(set(o.d) | {k for c in o.cls.mro for k in c.ns})
        it.unsupported(f"dir({o!r})")

    @bi
    def len_(it, o):
        return it.length(o)

    @bi
    def enumerate_(it, iterable, start=0):
        def g():
            i = start
            for x in it.iterate(iterable):
                yield (i, x)
                i = it.binop(ast.Add, i, 1)
        return IGen(g(), 'enumerate')

    @bi
    def zip_(it, *xs, strict=False):
        def g():
            its = [it.iterate(x) for x in xs]
            if not its:
                return
            while True:
                row = []
                for j, i in enumerate(its):
                    try:
                        row.append(next(i))
                    except StopIteration:
                        if strict:
                            if j or any(next(q, MISSING) is not MISSING for q in its[1:]):
                                it.throw('ValueError', 'zip() arguments have different lengths')
                        return
                yield tuple(row)
        return IGen(g(), 'zip')

    @bi
    def map_(it, f, *xs):
        def g():
            for r in B['zip'].fn(it, *xs):
                yield it.call(f, list(r))
        return IGen(g(), 'map')

    @bi
    def filter_(it, f, xs):
        def g():
            for x in it.iterate(xs):
                if it.truth(x if f is None else it.call(f, [x])):
                    yield x
        return IGen(g(), 'filter')

    def keyed(it, key):
        kf = (lambda x: x) if key is None else (lambda x: it.call(key, [x]))

        def cmp(a, b):
            if it.truth(it.compare(ast.Lt, a, b)):
                return -1
            if it.truth(it.compare(ast.Lt, b, a)):
                return 1
            return 0
        ck = functools.cmp_to_key(cmp)
        return lambda x: ck(kf(x))

    @bi
    def sorted_(it, xs, key=None, reverse=False):
        return sorted(it.to_list(xs), key=keyed(it, key), reverse=it.truth(reverse))
    it.keyed = keyed

    @bi
    def reversed_(it, xs):
        if isinstance(xs, IObj) and xs.cls.lookup('__reversed__') is not MISSING:
            return it.call(it.getattr(xs, '__reversed__'), [])
        if isinstance(xs, IGen):
            it.throw('TypeError', "'generator' object is not reversible")
        return IGen(iter(list(reversed(it.to_list(xs)))), 'reversed')

    @bi
    def sum_(it, xs, start=0):
        r = start
        for x in it.iterate(xs):
            r = it.binop(ast.Add, r, x)
        return r

    @bi
    def any_(it, xs):
        for x in it.iterate(xs):
            if it.truth(x):
                return True
        return False

    @bi
    def all_(it, xs):
        for x in it.iterate(xs):
            if not it.truth(x):
                return False
        return True

    def extremum(name, op):
        def f(it, *xs, key=None, default=MISSING):
            items = it.to_list(xs[0]) if len(xs) == 1 else list(xs)
            if not items:
                if default is MISSING:
                    it.throw('ValueError', f"{name}() arg is an empty sequence")
                return default
            r = items[0]
            kr = r if key is None else it.call(key, [r])
            for x in items[1:]:
                kx = x if key is None else it.call(key, [x])
                if it.truth(it.compare(op, kx, kr)):
                    r, kr = x, kx
            return r
        B[name] = HostFn(name, f)
    extremum('max', ast.Gt)
    extremum('min', ast.Lt)

    @bi
    def abs_(it, x):
        x = it.unnative(x)
        if isinstance(x, Model):
            f = getattr(x, 'abs', None)
            if f is None:
                it.throw('TypeError', f"bad operand type for abs(): '{it.class_of(x).name}'")
            return f(it)
        return guard(it, abs, x)

    @bi
    def round_(it, number, ndigits=None):
        x, n = number, ndigits
        x = it.unnative(x)
        if isinstance(x, Model) or isinstance(n, Model):
            f = getattr(x, 'round', None)
            if f is None:
                return it.models.sym_round(it, x, n)
            return f(it, n)
        return guard(it, round, x, n) if n is not None else guard(it, round, x)

    @bi
    def divmod_(it, a, b):
        return (it.binop(ast.FloorDiv, a, b), it.binop(ast.Mod, a, b))

    @bi
    def pow_(it, base, exp, mod=None):
        if mod is not None:
            return guard(it, pow, base, exp, mod)
        return it.binop(ast.Pow, base, exp)

    @bi
    def iter_(it, x, *end):
        if end:
            def until():
                while True:
                    v = it.call(x, [])
                    if it.eq(v, end[0]):
                        return
                    yield v
            return IGen(until(), 'callable_iterator')
        i = it.iterate(x)
        return i if isinstance(i, IGen) else IGen(i, 'iter')

    @bi
    def next_(it, g, *d):
        if isinstance(g, IObj):
            return it.call(it.getattr(g, '__next__'), [])
        try:
            return next(g)
        except StopIteration as s:
            if d:
                return d[0]
            it.throw('StopIteration', s.value)
        except TypeError:
            it.throw('TypeError', f"'{it.class_of(g).name}' object is not an iterator")

    @bi
    def print_(it, *a, **k):
        it.events.append(('print', a, k))

    @bi
    def repr_(it, x):
        return it.repr_(x)

    @bi
    def format_(it, x, spec=''):
        return it.format_(x, spec)

    @bi
    def id_(it, x):
        if isinstance(x, IObj):
            return 10**6 + 16 * x.serial
        return 10**9 + id(x)

    @bi
    def hash_(it, x):
        if isinstance(x, IObj):
            f = x.cls.lookup('__hash__')
            if f is not MISSING and isinstance(f, IFunc):
                return it.call(Bound(f, x), [])
        return guard(it, hash, it.key_(x))

    @bi
    def callable_(it, x):
        if isinstance(x, (IFunc, Bound, HostFn, PartialV, IClass)):
            return True
        if isinstance(x, IObj):
            return x.cls.lookup('__call__') is not MISSING or (x.native is not None and callable_(it, x.native))
        return bool(isinstance(x, Model) and getattr(x, 'iscallable', False))

    @bi
    def open_(it, *a, **k):
        return it.models.open_file(it, *a, **k)

    @bi
    def chr_(it, x):
        return guard(it, chr, x)

    @bi
    def hex_(it, x):
        return guard(it, hex, x)

    @bi
    def bin_(it, x):
        return guard(it, bin, x)

    @bi
    def oct_(it, x):
        return guard(it, oct, x)

    @bi
    def locals_(it):
        it.unsupported('locals()')

    @bi
    def eval_(it, *a):
        it.unsupported('eval()')

    @bi
    def exec_(it, *a):
        it.unsupported('exec()')

    @bi
    def compile_(it, *a):
        it.unsupported('compile()')

    @bi
    def ord_(it, x):
        return guard(it, ord, x)

    @bi
    def globals_(it):
        return it.modules[it.stack[-1].module].ns

    @bi
    def input_(it, *a):
        it.unsupported('input()')

    @bi
    def super_(it, cls, obj):
        return SuperV(cls, obj)

    @bi
    def __import___(it, name, *a):
        return it.import_module(name)
    B['NotImplemented'] = NotImplemented
    B['Ellipsis'] = Ellipsis
    B['__debug__'] = True
    B['__name__'] = 'builtins'
    return B


def dict_update(it, d, *a, **k):
    for src in a:
        src = it.unnative(src) if isinstance(src, IObj) and src.cls.lookup('keys') is MISSING else src
        if isinstance(src, dict):
            d.update(src)
        elif isinstance(src, IObj):
            for kk in it.mapping_keys(src):
                d[kk] = it.getitem(src, kk)
        else:
            for p in it.iterate(src):
                kk, v = it.to_list(p)
                d[kk] = v
    d.update(k)


_LIST = ('append', 'insert', 'clear', 'copy', 'reverse')
_DICT = ('items', 'keys', 'values', 'copy', 'clear', 'popitem')


def host_getattr(it, o, name):
    if isinstance(o, str):
        if name == 'join':
            return HostFn('join', lambda it, xs: join_str(it, o, it.to_list(xs)))
        if name == 'format':
            def fmt(it, *a, **k):
                if it.is_ground(a) and it.is_ground(k):
                    return guard(it, o.format, *a, **k)
                return SymStr([('format', o, a, tuple(k.items()))])
            return HostFn('format', fmt)
        if hasattr(str, name) and not name.startswith('__'):
            def m(it, *a, **k):
                if not it.is_ground(a) or not it.is_ground(k):
                    if any(isinstance(x, SymStr) for x in a):
                        if name in ('startswith', 'endswith'):
                            return it.decide(('str' + name, o, repr(a)), [False, True])
                        if name in ('replace',):
                            return SymStr([('m', name, o, a)])
                return guard(it, getattr(o, name), *a, **k)
            return HostFn(name, m)
    elif isinstance(o, list):
        if name in _LIST:
            return HostFn(name, lambda it, *a: guard(it, getattr(o, name), *a))
        if name == 'extend':
            return HostFn(name, lambda it, xs: o.extend(it.to_list(xs)))
        if name == 'pop':
            return HostFn(name, lambda it, *a: guard(it, o.pop, *a))
        if name == 'sort':
            def sort(it, key=None, reverse=False):
                o.sort(key=it.keyed(it, key), reverse=it.truth(reverse))
            return HostFn(name, sort)
        if name in ('remove', 'index'):
            def f(it, x, *a):
                for i, y in enumerate(o):
                    if y is x or it.eq(y, x):
                        if name == 'remove':
                            del o[i]
                            return None
                        return i
                it.throw('ValueError', f"{x!r} is not in list")
            return HostFn(name, f)
        if name == 'count':
            return HostFn(name, lambda it, x: sum(1 for y in o if y is x or it.eq(y, x)))
    elif isinstance(o, tuple):
        if name in ('index', 'count'):
            return HostFn(name, lambda it, x: host_getattr(it, list(o), name).fn(it, x))
    elif isinstance(o, dict):
        if name in _DICT:
            return HostFn(name, lambda it: guard(it, getattr(o, name)))
        if name == 'get':
            return HostFn(name, lambda it, k, d=None: guard(it, o.get, it.key_(k), d))
        if name == 'move_to_end':
            def mte(it, k, last=True):
                if k not in o:
                    it.throw('KeyError', k)
                v = o.pop(k)
                if it.truth(last):
                    o[k] = v
                else:
                    rest = dict(o)
                    o.clear()
                    o[k] = v
                    o.update(rest)
            return HostFn(name, mte)
        if name == 'pop':
            def pop(it, k, *d):
                k = it.key_(k)
                if k in o:
                    return o.pop(k)
                if d:
                    return d[0]
                it.throw('KeyError', k)
            return HostFn(name, pop)
        if name == 'setdefault':
            return HostFn(name, lambda it, k, d=None: guard(it, o.setdefault, it.key_(k), d))
        if name == 'update':
            return HostFn(name, lambda it, *a, **k: dict_update(it, o, *a, **k))
        if name == '__contains__':
            return HostFn(name, lambda it, k: it.key_(k) in o)
        if name == '__getitem__':
            return HostFn(name, lambda it, k: it.getitem(o, k))
        if name == '__setitem__':
            return HostFn(name, lambda it, k, v: it.setitem(o, k, v))
    elif isinstance(o, (set, frozenset)):
        if hasattr(o, name) and not name.startswith('__'):
            def m(it, *a):
                a2 = []
                for x in a:
                    a2.append(x if isinstance(x, (set, frozenset)) or name in ('add', 'remove', 'discard')
                              else set(it.iterate(x)))
                return guard(it, getattr(o, name), *a2)
            return HostFn(name, m)
    elif isinstance(o, _DICTVIEWS):
        if name in ('isdisjoint',):
            return HostFn(name, lambda it, x: guard(it, o.isdisjoint, x))
    elif isinstance(o, (int, float, complex)):
        if name in ('real', 'imag', 'numerator', 'denominator') and hasattr(o, name):
            return getattr(o, name)
        if hasattr(o, name) and not name.startswith('__'):
            return HostFn(name, lambda it, *a: guard(it, getattr(o, name), *a))
    elif isinstance(o, slice) and name in ('start', 'stop', 'step', 'indices'):
        v = getattr(o, name)
        return HostFn(name, lambda it, n: v(n)) if name == 'indices' else v
    elif isinstance(o, range) and name in ('start', 'stop', 'step', 'index', 'count'):
        v = getattr(o, name)
        return HostFn(name, lambda it, *a: guard(it, v, *a)) if callable(v) else v
    elif isinstance(o, bytes) and hasattr(bytes, name):
        return HostFn(name, lambda it, *a: guard(it, getattr(o, name), *a))
    if name == '__doc__':
        return None
    if name in ('__len__', '__iter__', '__getitem__', '__contains__'):
        if hasattr(o, name):
            return HostFn(name, lambda it, *a: {'__len__': it.length, '__iter__': it.iterate,
                                                '__getitem__': it.getitem, '__contains__': it.contains}[name](o, *a))
    if name == '__repr__' or name == '__str__':
        return HostFn(name, lambda it: it.repr_(o) if name == '__repr__' else it.str_(o))
    it.throw('AttributeError', f"'{it.class_of(o).name}' object has no attribute '{name}'")


def class_attr(it, c, name):
    """attribute of a builtin class accessed on the class"""
    if name == '__setattr__':
        return HostFn(name, lambda it, o, n, v: it.obj_setattr(o, n, v))
    if name == '__getattribute__':
        return HostFn(name, lambda it, o, n: it.obj_getattr(o, n))
    if name == '__delattr__':
        return HostFn(name, lambda it, o, n: it.delattr(o, n, raw=True))
    if name == '__new__':
        return HostFn(name, lambda it, k, *a, **kw: IObj(k))
    if name == '__init__':
        return HostFn(name, lambda it, o, *a, **kw: None)
    if name in ('__repr__', '__str__'):
        return HostFn(name, lambda it, o: SymStr([('repr', o)]))
    if name == '__init_subclass__':
        return HostFn(name, lambda it, **k: None)
    if name == 'fromkeys' and c.name == 'dict':
        return HostFn(name, lambda it, ks, v=None: {k: v for k in it.iterate(ks)})
    host = {'str': str, 'list': list, 'dict': dict, 'set': set, 'int': int, 'float': float, 'tuple': tuple}
    for k in c.mro:
        h = host.get(k.name) if k.module == 'builtins' else None
        if h is not None and hasattr(h, name):
            return HostFn(name, lambda it, o, *a, **kw: it.call(host_getattr(it, it.unnative(o), name), list(a), kw))
    return None
