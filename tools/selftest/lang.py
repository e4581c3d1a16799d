from __future__ import annotations
import abc
import collections
import contextlib
import copy
import csv
import dataclasses
import enum
import functools
import itertools
import logging
import math
import numbers
import operator
import os
import re
import types
import typing
from collections import OrderedDict, defaultdict, deque, ChainMap, Counter, namedtuple
from collections.abc import Iterable, Sequence, Mapping, MutableMapping
from contextlib import contextmanager, suppress, nullcontext, ExitStack, closing
from functools import partial, reduce, lru_cache, cached_property, wraps, singledispatch
from itertools import chain, product, zip_longest, accumulate, islice, count, repeat, combinations, permutations, takewhile, dropwhile, groupby, starmap, tee, cycle, pairwise
from operator import itemgetter, attrgetter, methodcaller, mul, add
from pathlib import Path
from typing import NamedTuple, Optional, Any


def t_chain(): return list(chain([1], (2, 3), {4: 5}))
def t_chainfi(): return list(chain.from_iterable([[1], [2]]))
def t_product(): return list(product('ab', [1, 2])), list(product([0, 1], repeat=2))
def t_ziplong(): return list(zip_longest([1, 2], [3], fillvalue=0))
def t_accum(): return list(accumulate([1, 2, 3])), list(accumulate([1, 2, 3], operator.mul))
def t_islice(): return list(islice(count(3), 2)), list(islice([1, 2, 3, 4], 1, None, 2))
def t_repeat(): return list(repeat(1, 3))
def t_comb(): return list(combinations('abc', 2)), list(permutations([1, 2]))
def t_takewhile(): return list(takewhile(lambda x: x < 3, [1, 2, 3, 1])), list(dropwhile(lambda x: x < 3, [1, 2, 3, 1]))
def t_groupby(): return [(k, list(g)) for k, g in groupby([1, 1, 2])]
def t_starmap(): return list(starmap(pow, [(2, 3), (3, 2)]))
def t_pairwise(): return list(pairwise([1, 2, 3]))
def t_reduce(): return reduce(lambda a, b: a + b, [1, 2, 3]), reduce(operator.mul, [2, 3], 4)
def t_partial():
    def f(a, b, c=0): return a, b, c
    return partial(f, 1, c=2)(3), partial(f, 1).args
def t_opget():
    class A: x = 3
    return itemgetter(1)([1, 2]), attrgetter('x')(A()), methodcaller('upper')('a'), itemgetter(0, 1)([4, 5])
def t_ops(): return operator.add(1, 2), operator.neg(3), operator.truediv(1, 2), operator.contains([1], 1), operator.eq(1, 1), operator.not_(0), operator.itemgetter('a')({'a': 1})
def t_defaultdict():
    d = defaultdict(list); d['a'].append(1); d['b']
    return dict(d), 'c' in d
def t_counter(): return dict(Counter('aab'))
def t_deque():
    d = deque([1, 2]); d.append(3); d.appendleft(0); d.pop(); d.popleft()
    return list(d)
def t_od(): 
    d = OrderedDict(); d['a'] = 1; d['b'] = 2; d.move_to_end('a')
    return list(d.items())
def t_namedtuple():
    P = namedtuple('P', 'x y'); p = P(1, y=2)
    return p.x, p[1], p._replace(x=3).x, tuple(p), p._asdict()
def t_typednt():
    class P(NamedTuple):
        x: int
        y: int = 2
    p = P(1); a, b = p
    return a, b, p == (1, 2)
def t_dataclass():
    @dataclasses.dataclass
    class D:
        a: int
        b: list = dataclasses.field(default_factory=list)
        c: int = 3
    d = D(1); d.b.append(2)
    return d.a, d.b, d.c, D(1) == D(1), dataclasses.asdict(d)
def t_cm():
    log = []
    @contextmanager
    def cm(x):
        log.append('in')
        try:
            yield x
        finally:
            log.append('out')
    try:
        with cm(1) as a, cm(2) as b:
            log.append(a + b)
            raise ValueError
    except ValueError:
        log.append('caught')
    return log
def t_suppress():
    with suppress(KeyError, ValueError):
        {}['a']
    with nullcontext(3) as x: pass
    return x
def t_exitstack():
    log = []
    with ExitStack() as s:
        s.callback(log.append, 1)
        s.callback(lambda: log.append(2))
        log.append(0)
    return log
def t_cached():
    class A:
        n = 0
        @cached_property
        def x(self):
            A.n += 1
            return 5
    a = A()
    return a.x, a.x, A.n
def t_lru():
    c = []
    @lru_cache(maxsize=None)
    def f(x): c.append(x); return x
    f(1); f(1)
    return c
def t_cache():
    c = []
    @functools.cache
    def f(x): c.append(x); return x
    f(1); f(1)
    return c
def t_wraps():
    def deco(f):
        @wraps(f)
        def g(*a, **k): return f(*a, **k) + 1
        return g
    @deco
    def h(x): "doc"; return x
    return h(1), h.__name__, h.__doc__
def t_singledispatch():
    @singledispatch
    def f(x): return 'o'
    @f.register
    def _(x: int): return 'i'
    @f.register(str)
    def _(x): return 's'
    return f(1), f('a'), f(1.)
def t_match1():
    def f(x):
        match x:
            case 0 | 1: return 'small'
            case int(): return 'int'
            case [a, *rest]: return a, rest
            case {'k': v, **kw}: return v, kw
            case str() as s if s: return s
            case None: return 'none'
            case _: return 'other'
    return [f(x) for x in (0, 5, [1, 2, 3], {'k': 1, 'z': 2}, 'ab', '', None, 1.5)]
def t_match2():
    class P:
        __match_args__ = ('x', 'y')
        def __init__(s, x, y): s.x, s.y = x, y
    match P(1, 2):
        case P(1, y=b): return b
def t_starargs():
    def f(a, /, b, *c, d=1, **e): return a, b, c, d, e
    return f(1, *[2, 3], d=4, **{'z': 5})
def t_unpack():
    a, (b, *c), d = 1, (2, 3, 4), 5
    *x, y = [1, 2, 3]
    return a, b, c, d, x, y, [*range(2), *'ab'], {**{'a': 1}, 'b': 2}
def t_walrus():
    if (n := len([1, 2])) > 1: return n
def t_nonlocal():
    x = 0
    def f():
        nonlocal x
        x += 1
    f(); f()
    return x
def t_gen():
    def g():
        try:
            x = yield 1
            yield x
        except ValueError:
            yield 'v'
        finally:
            pass
    a = g(); r = [next(a), a.send(5)]
    b = g(); next(b); r.append(b.throw(ValueError)); b.close()
    return r
def t_yieldfrom():
    def g():
        r = yield from h()
        yield r
    def h():
        yield 1
        return 2
    return list(g())
def t_genexp(): return sum(x for x in range(4) if x % 2), any(x > 2 for x in [1, 2]), all([])
def t_forelse():
    r = []
    for x in [1, 2]:
        if x == 3: break
    else: r.append('e')
    while True:
        break
    else: r.append('n')
    return r
def t_try():
    r = []
    try:
        try: 1 / 0
        except ZeroDivisionError as e: raise KeyError('x') from e
        else: r.append('else')
        finally: r.append('f')
    except (KeyError, ValueError) as e: r.append(type(e).__name__); r.append(type(e.__cause__).__name__)
    return r
def t_retfin():
    r = []
    def f():
        for i in range(3):
            try:
                if i == 1: return i
                continue
            finally: r.append(i)
    return f(), r
def t_class():
    class A:
        x = 1
        def __init__(self, y=2): self.y = y
        @property
        def z(self): return self.y
        @z.setter
        def z(self, v): self.y = v
        @classmethod
        def c(cls, v): return cls(v)
        @staticmethod
        def s(v): return v
        def __eq__(self, o): return self.y == o.y
        def __hash__(self): return hash(self.y)
        def __repr__(self): return f"A({self.y!r})"
        def __call__(self, k): return k
        def __len__(self): return 3
        def __getitem__(self, i): return i
        def __contains__(self, i): return i == 1
        def __iter__(self): return iter([1, 2])
        def __bool__(self): return False
        def __add__(self, o): return A(self.y + 1)
        def __radd__(self, o): return 'r'
        def __neg__(self): return A(-self.y)
        def __lt__(self, o): return True
        def __getattr__(self, n):
            if n.startswith('q'): return n
            raise AttributeError(n)
    a = A(); a.z = 5
    return a.z, A.c(3).y, a.s(4), a == A(5), repr(a), a(1), len(a), a[7], 1 in a, list(a), bool(a), (a + 1).y, 1 + a, (-a).y, a < a, a.qq, hasattr(a, 'nn'), {a: 1}[A(5)], str(a)
def t_inherit():
    log = []
    class A:
        def __init_subclass__(cls, tag=None, **k): super().__init_subclass__(**k); log.append((cls.__name__, tag))
        def f(self): return 'A'
    class B(A, tag=1):
        def f(self): return 'B' + super().f()
    class C(A):
        def f(self): return 'C' + super().f()
    class D(B, C): pass
    return D().f(), log, [c.__name__ for c in D.__mro__], issubclass(D, A), D.__bases__[0].__name__, D.__name__, [c.__name__ for c in A.__subclasses__()]
def t_abc():
    class A(abc.ABC):
        @abc.abstractmethod
        def f(self): ...
    class B(A):
        def f(self): return 1
    try: A()
    except TypeError: r = 'T'
    return r, B().f()
def t_descr():
    class D:
        def __set_name__(self, o, n): self.n = n
        def __get__(self, o, t=None): return self if o is None else o.__dict__.get(self.n, 'dflt')
        def __set__(self, o, v): o.__dict__[self.n] = v
        def __delete__(self, o): del o.__dict__[self.n]
    class A: x = D()
    a = A(); r = [a.x]; a.x = 2; r.append(a.x); del a.x; r.append(a.x); r.append(A.x.n)
    return r
def t_meta():
    class M(type):
        def __call__(cls, *a): o = super().__call__(*a); o.tag = 'm'; return o
        def __iter__(cls): return iter([1])
    class A(metaclass=M): pass
    return A().tag, list(A)
def t_enum():
    class E(enum.Enum):
        A = 1
        B = 'b'
    class S(enum.StrEnum):
        X = 'x'
    class I(enum.IntEnum):
        ONE = 1
    return E.A.value, E('b').name, [e.name for e in E], S.X == 'x', I.ONE + 1, E['A'] is E.A, E.A in E, S('x') is S.X
def t_slots():
    class A:
        __slots__ = ('x',)
        def __init__(self): self.x = 1
    return A().x
def t_str(): return 'a,b'.split(','), ' a '.strip(), 'x'.join(['a', 'b']), 'abc'.replace('b', ''), 'ab'.upper(), 'a.b.c'.rsplit('.', 1), 'a=b'.partition('='), 'abc'.find('c'), 'a'.ljust(3), 'ab'.startswith(('a', 'c')), 'ab'.removeprefix('a'), '%d %s %.2f' % (1, 'a', 2.), f"{3.14159:.2f} {1:>4} {'a':<3}| {5:03d} {2.5!r} {'x'!r:>5}", 'A'.lower().isidentifier(), 'a b'.title(), '12'.isdigit(), 'abc'[::-1], 'a' * 3, 'x' in 'xy', 'aXb'.casefold(), 'ab'.zfill(4), 'a\nb'.splitlines(), 'abc'.index('b'), 'aab'.count('a'), '{:>5}|{x}'.format(1, x=2), 'ab'.endswith('b'), 'ab'.center(6, '*')
def t_list():
    a = [3, 1, 2]; a.sort(); b = a.copy(); b.insert(0, 9); b.remove(9); b.extend([5]); b.reverse(); b += [1]; del b[0]; b[0:1] = [7, 8]
    return a, b, a.index(2), a.count(1), sorted(a, key=lambda x: -x), a[-1], a[::2], [1] * 2, a.pop(), a.pop(0), sorted('ba', reverse=True), max(a, default=None), min([3, 1], key=lambda x: -x), list(reversed(a))
def t_dict():
    d = {'a': 1, 'b': 2}
    d.update(c=3); d |= {'d': 4}; x = d.pop('a'); y = d.setdefault('e', 5); z = d.get('zz', 0); e = {k: v for k, v in d.items() if v > 2}; q = dict(zip('ab', [1, 2])); r = d | {'a': 0}; p = d.popitem(); w = list(d.keys() & {'b'}); u = dict.fromkeys('ab', 0); d.clear(); s = next(iter(q)); del q['a']
    return x, y, z, e, q, r, p, w, u, d, s, list(reversed({'x': 1, 'y': 2})), {'a': 1} == {'a': 1}, d.pop('k', None)
def t_set():
    a = {1, 2}; b = frozenset([2, 3]); a.add(5); a.discard(9); a.update([7])
    return sorted(a | b), a & b, sorted(a - b), sorted(a ^ b), a <= a, {1}.issubset(a), a.isdisjoint({99}), {x % 2 for x in [1, 2, 3]}, set(), sorted(a.union([1], [8])), a.intersection([1]), sorted(a.difference([1]))
def t_num(): return 7 // 2, -7 // 2, 7 % 3, 2 ** 10, 1e-3, round(2.567, 2), abs(-1), divmod(7, 2), int('3'), int(2.9), float('1.5'), pow(2, 3), math.sqrt(4), math.pi > 3, math.floor(2.5), math.ceil(2.1), math.isclose(1, 1 + 1e-12), math.isnan(float('nan')), math.inf > 1, math.prod([2, 3]), 1 < 2 < 3, not 0, 5 & 4, 1 | 2, 1 << 2, ~1, True + 1, round(2.5), float.is_integer(2.), (2.5).is_integer(), isinstance(True, int), math.hypot(3, 4), math.log10(1000), math.gcd(4, 6), sum([1., 2.]), complex(1, 0).real, 0.1 + 0.2 == 0.3
def t_builtins(): return list(map(lambda x, y: x + y, [1], [2])), list(filter(None, [0, 1])), list(zip([1, 2], 'ab')), list(enumerate('ab', 1)), callable(len), isinstance(1, (int, str)), type(1) is int, getattr(1, 'zz', 5), id(None) == id(None), bool([]), tuple('ab'), ord('a'), chr(98), hex(255), bin(5), repr('a'), iter([1]).__next__(), list(range(5, 0, -2)), len(range(3)), 2 in range(3), range(3)[1], next(iter([]), 'd'), hash('a') == hash('a'), isinstance(int, type), str(1.0), str(None), repr([1, 'a']), bytes(2), vars(types.SimpleNamespace(a=1)), slice(1, 2).start, print.__name__, list(zip([1], [2], strict=True)), [*iter(lambda c=iter([1, 2, 0]): next(c), 0)]
def t_simplens():
    n = types.SimpleNamespace(a=1); n.b = 2
    return n.a, n.b
def t_mapping(): return dict(types.MappingProxyType({'a': 1})), ChainMap({'a': 1}, {'a': 2, 'b': 3})['b'], isinstance({}, Mapping), isinstance([], Sequence), isinstance([], Iterable), isinstance('a', Sequence), isinstance(1, numbers.Number), isinstance(1., numbers.Real)
def t_del():
    x = 1
    del x
    try: x
    except NameError: return 'N'
def t_copy(): a = [[1]]; return copy.copy(a)[0] is a[0], copy.deepcopy(a)[0] is a[0]
def t_re(): return re.match(r'(\w)(\d)', 'a1').groups(), re.sub('a', 'b', 'aa'), bool(re.fullmatch('a.*', 'abc')), re.split(r'\|', 'a|b'), re.compile('b').search('abc').start(), re.findall(r'\d', 'a1b2'), re.escape('a.b')
def t_path(): p = Path('a') / 'b.txt'; return str(p), p.name, p.stem, p.suffix, str(p.parent), str(p.with_suffix('.x')), p.parts, str(p.joinpath('c')), p == Path('a/b.txt'), str(p.with_name('q')), p.is_absolute(), os.path.join('a', 'b'), str(Path('a', 'b'))
def t_lambda(): return (lambda *a, k=1, **kw: (a, k, kw))(1, 2, z=3)
def t_closure():
    fs = [lambda i=i: i for i in range(3)]; gs = [lambda: i for i in range(3)]
    return [f() for f in fs], [g() for g in gs]
def t_globalvar():
    global ZZ
    ZZ = 5
    return ZZ
def t_assert():
    try:
        assert 1 == 2, 'msg'
    except AssertionError as e: return str(e)
def t_exc():
    class E(ValueError):
        def __init__(self, m, c): super().__init__(m); self.c = c
    try: raise E('m', 3)
    except ValueError as e: return str(e), e.args, e.c, isinstance(e, E), repr(e) 
def t_excgroup():
    try: raise ExceptionGroup('g', [ValueError(1)])
    except* ValueError as e: return_ = 1
    return return_
def t_with():
    log = []
    class C:
        def __enter__(self): log.append('e'); return self
        def __exit__(self, t, v, tb): log.append(t and t.__name__); return True
    with C() as c: raise KeyError
    return log
def t_closing():
    class C:
        closed = False
        def close(self): self.closed = True
    c = C()
    with closing(c): pass
    return c.closed
def t_typ(): return typing.cast(int, 3), typing.TYPE_CHECKING, Optional[int] is not None
def t_getset():
    class A: pass
    a = A(); setattr(a, 'x', 1); r = getattr(a, 'x'), hasattr(a, 'y'), vars(a), a.__dict__, a.__class__.__name__; delattr(a, 'x')
    return r[:2], a.__dict__, type(a)().__class__ is A, type('X', (A,), {'k': 1}).k
def t_aug():
    d = {'a': [1]}; d['a'] += [2]; x = [0]; x[0] += 5; x[0] **= 2; x[0] //= 2; x[0] %= 5; t = (1,); t += (2,)
    return d, x, t
def t_chaincmp(): a = b = [1]; return a is b, 1 == 1.0 == True, None is None, [1, 2] < [1, 3], (1, 'a') == (1, 'a')
def t_cond(): return 1 if [] else 2, [] or 'x', 0 and 1, None or {}, not None
def t_sorted(): return sorted({'b': 1, 'a': 2}.items(), key=itemgetter(1)), sorted([(2, 'a'), (1, 'b')])
def t_nestedcomp(): return [(i, j) for i in range(2) for j in range(i)], [[j for j in range(i)] for i in range(3)], {i: [k for k in range(i) if k] for i in range(2)}
def t_seqdel():
    a = list(range(6)); del a[::2]; a[1:] = []
    return a
def t_intpool(): return int is type(3), float(3) == 3, str(3) + 'a', '3' * 2
def t_format(): return format(3.14159, '.3f'), f'{1e-5:g}', f'{12345.678:,.1f}', f'{"a":>{4}}', f'{3=}', '{0[a]} {1.real}'.format({'a': 1}, 2), f"{1:{'>' + str(3)}}"
def t_iterproto():
    class It:
        def __init__(self): self.i = 0
        def __iter__(self): return self
        def __next__(self):
            self.i += 1
            if self.i > 3: raise StopIteration
            return self.i
    return list(It()), sum(It()), max(It()), [*It()], tuple(x for x in It())
def t_propdel():
    class A:
        def _g(self): return 1
        def _s(self, v): self.v = v
        x = property(_g, _s)
    a = A(); a.x = 4
    return a.x, a.v, A.x.fget(a), isinstance(A.__dict__['x'], property)
def t_newm():
    class S:
        inst = None
        def __new__(cls, *a):
            if cls.inst is None: cls.inst = super().__new__(cls)
            return cls.inst
    return S() is S()
def t_setattr():
    class A:
        def __setattr__(self, k, v): object.__setattr__(self, k, v * 2)
        def __delattr__(self, k): object.__setattr__(self, k, 'del')
    a = A(); a.x = 2; r = a.x; del a.x
    return r, a.x
def t_getattribute():
    class A:
        def __getattribute__(self, k): return k if k == 'zz' else object.__getattribute__(self, k)
    a = A(); a.x = 1
    return a.zz, a.x
def t_mmapping():
    class M(MutableMapping):
        def __init__(self): self.d = {}
        def __getitem__(self, k): return self.d[k]
        def __setitem__(self, k, v): self.d[k] = v
        def __delitem__(self, k): del self.d[k]
        def __iter__(self): return iter(self.d)
        def __len__(self): return len(self.d)
    m = M(); m['a'] = 1; m.update(b=2)
    return dict(m), m.get('z'), m.pop('a'), list(m.items()), 'b' in m, m.setdefault('q', 3), list(m.values()), m == {'b': 2, 'q': 3}
def t_userdict():
    class U(collections.UserDict): pass
    u = U({'a': 1}, b=2); u['c'] = 3
    return u.data, 'a' in u, dict(u), u.pop('a'), len(u), list(u), u.get('c')
def t_dictsub():
    class D(dict):
        def __getattr__(self, k): return self[k]
        def __missing__(self, k): return 'miss'
    d = D(a=1)
    return d.a, d['zz'], isinstance(d, dict), {**d}, len(d)
def t_listsub():
    class L(list):
        def first(self): return self[0]
    l = L([1, 2]); l.append(3)
    return l.first(), len(l), list(l), l == [1, 2, 3]
def t_strsub():
    class S(str): pass
    return S('a') == 'a', S('ab').upper(), isinstance(S('a'), str), {S('a'): 1}['a']
def t_tupleiter(): 
    t = (1, 2, 3)
    (a, b), c = t[:2], t[2]
    return a, b, c, t.index(2), t.count(1), t + (4,), hash(t) == hash((1, 2, 3))
def t_annot():
    x: int = 3
    y: 'list[int]'
    return x
def t_posonly():
    def f(a, b=2, /, *, c): return a + b + c
    try: f(1, b=3, c=1)
    except TypeError: r = 'T'
    return f(1, c=1), r
def t_exitreturn():
    def f():
        with suppress(ValueError):
            return 3
    return f()
def t_logging():
    l = logging.getLogger('zz'); l.setLevel(logging.INFO); l.info('x')
    return l.name, l.level == logging.INFO, l.isEnabledFor(logging.DEBUG)
def t_excelse():
    try: int('x')
    except ValueError: pass
    else: return 1
    try: [][0]
    except IndexError: pass
    try: {}['a']
    except LookupError as e: return repr(e), e.args[0]
def t_recur():
    def f(n): return 1 if n == 0 else n * f(n - 1)
    return f(5)
def t_boolint(): return sum([True, True]), [10, 20][True], int(True), True == 1, str(True)
def t_star_assign():
    first, *mid, last = range(5)
    return first, mid, last
def t_sl():
    s = slice(None, None, -1)
    return [1, 2, 3][s], s.indices(3)
def t_inst_dict():
    class A:
        def __init__(self, **kw): self.__dict__.update(kw)
    return A(x=1).x
def t_classvars():
    class A:
        reg = {}
        def add(self, k): self.reg[k] = 1
    A().add('a'); A().add('b')
    return A.reg
def t_map_multi(): return list(map(str, [1, 2])), dict(map(lambda kv: (kv[1], kv[0]), {'a': 1}.items())), sum(map(len, ['a', 'bb']))
def t_minmaxkey(): return max('abc', key=ord), min(3, 1, 2), max([1], [2]), min({'a': 2, 'b': 1}, key={'a': 2, 'b': 1}.get)
def t_any_gen_short():
    log = []
    def f(x): log.append(x); return x
    any(f(x) for x in [0, 1, 2])
    return log
def t_is_float(): return isinstance(1.0, float), float('inf') == math.inf, -float('inf') < 0, float('nan') != float('nan')
def t_method_ref():
    class A:
        def f(self, x): return x
    a = A(); g = a.f
    return g(1), A.f(a, 2), g.__self__ is a, g.__name__, g.__func__ is A.f
def t_docstr():
    class A:
        "doc"
        def f(self): "fd"
    return A.__doc__, A.f.__doc__, A.__qualname__.endswith('A'), A.__module__.endswith('zz')
def t_super_prop():
    class A:
        @property
        def x(self): return 1
    class B(A):
        @property
        def x(self): return super().x + 1
    return B().x
def t_class_getitem():
    class A:
        def __class_getitem__(cls, k): return k
    return A[int] is int, list[int] is not None
def t_async_not(): return None
def t_strjoin_gen(): return '|'.join(str(x) for x in range(3)), ','.join(map(str, (1, 2))), '|'.join({'a': 1, 'b': 2})
def t_del_item():
    d = {'a': 1, 'b': 2}
    for k in list(d):
        if k == 'a': del d[k]
    return d
def t_try_cont():
    r = []
    for x in ['1', 'a', '2']:
        try: v = int(x)
        except ValueError: continue
        r.append(v)
    return r
def t_int_fmt(): return f"{7:+d}", f"{-3.0:.1e}", f"{0.1:.17g}", f"{1e20}", str(1e16), repr(0.1), f"{3.0}", str(123456789.123)
def t_round(): return round(0.1 + 0.2, 10), round(1.25, 1), round(5), round(-1.5), round(12345, -2)


# keywords of the built-in functions and lazily consumed iterators
def t_kw001(): return round(2.345, ndigits=2)
def t_kw002(): return round(number=2.5)
def t_kw003(): return pow(2, 5, 7)
def t_kw004(): return pow(base=2, exp=5)
def t_kw005(): return pow(2, 5, mod=7)
def t_kw006(): return list(enumerate(iterable='ab', start=2))
def t_kw007(): return sum([1, 2], start=3)
def t_kw008(): return sorted([3, 1, 2], reverse=True, key=lambda v: -v)
def t_kw009(): return max([1, 2], key=lambda v: -v, default=3)
def t_kw010(): return min([], default=4)
def t_kw011(): return max(3, 4, key=lambda v: -v)
def t_kw012(): return int('ff', base=16)
def t_kw013(): return 'a b  c'.split(maxsplit=1)
def t_kw014(): return 'a,b,c'.split(sep=',', maxsplit=1)
def t_kw015(): return 'a,b,c'.rsplit(sep=',', maxsplit=1)
def t_kw016(): return list((itertools.count(start=2, step=3).__next__() for _ in range(1)))
def t_kw017(): return list(itertools.repeat(object=3, times=2))
def t_kw018(): return list(itertools.accumulate([1, 2, 3], operator.mul, initial=2))
def t_kw019(): return list(itertools.accumulate([1, 2, 3], func=operator.mul))
def t_kw020(): return list(itertools.zip_longest([1, 2], [3], fillvalue=0))
def t_kw021(): return [tuple(g) for k, g in itertools.groupby([1, 1, 2], key=lambda v: v)]
def t_kw022(): return list(itertools.product([1, 2], repeat=2))
def t_kw023(): return list(itertools.combinations([1, 2, 3], r=2))
def t_kw024(): return list(itertools.permutations([1, 2, 3], r=2))
def t_kw025(): return list(zip(itertools.count(), 'ab'))
def t_kw026(): return list(map(lambda a, b: (a, b), 'ab', itertools.repeat(1)))
def t_kw027(): return dict(zip('ab', map(int, itertools.repeat('3'))))
def t_kw028(): return next(iter([5]))
def t_kw029(): return next(filter(None, [0, 3]))
def t_kw030(): return next((v for v in itertools.count(1) if v % 7 == 0))
def t_kw031(): return list(itertools.takewhile(lambda v: v < 3, itertools.count()))
def t_kw032(): return list(itertools.islice(itertools.count(), 2, 8, 3))
def t_kw033(): return list(itertools.islice(itertools.cycle('ab'), 5))
def t_kw034(): return list(itertools.chain.from_iterable(['ab', 'c']))
def t_kw035(): return next(itertools.chain.from_iterable(([i] for i in itertools.count())))
def t_kw036(): return list(itertools.islice((p for p in itertools.pairwise(itertools.count())), 2))
def t_kw037(): return list(itertools.islice(itertools.accumulate(itertools.count()), 4))
def t_kw038(): return functools.reduce(operator.add, [1, 2, 3], 10)
def t_kw039(): return operator.attrgetter('real')(3)
def t_kw040(): return operator.itemgetter(1, 0)('ab')
def t_kw041(): return math.isclose(1, 1 + 1e-12, rel_tol=1e-09, abs_tol=0)
def t_kw042(): return math.prod([2, 3], start=2)
def t_kw043(): return math.fsum([0.1, 0.2])
def t_kw044(): return math.copysign(2, -1)
def t_kw045(): return list(collections.deque([1, 2, 3], maxlen=2))
def t_kw046(): return list(collections.deque((v for v in range(5)), maxlen=0))
def t_kw047(): return getattr(3, 'nope', None)
def t_kw048(): return ' x '.strip().center(5, '*')
def t_kw049(): return 'abc'.replace('b', 'x', 1)
def t_kw050(): return 'abc'.encode(encoding='utf-8').decode()
def t_kw051(): return '{a}-{0}'.format(1, a=2)
def t_kw052(): return '%s-%03d' % ('a', 4)
def t_kw053(): return 'a-b'.partition('-')
def t_kw054(): return 'abc'.startswith(('x', 'a'))
def t_kw055(): return 'abc'.removesuffix('c')
def t_kw056(): return '\n'.join(['a']).splitlines(keepends=True)
def t_kw057(): return list(zip([1], [2], strict=True))
def t_kw058(): return [*reversed({'a': 1, 'b': 2})]
def t_kw059():
    out = []
    out.append(dict.fromkeys('ab', 0))
    d = {'a': 1}
    d |= {'b': 2}
    out.append(d)
    out.append({**d} | {'c': 3})
    out.append(d.setdefault('z', 9))
    out.append(d.pop('q', None))
    out.append(d.popitem())
    return out
def t_kw060():
    out = []
    out.append({1, 2} ^ {2, 3})
    out.append(frozenset([1]) | {2})
    s = {1}
    s.update([2], [3])
    out.append(s)
    s.discard(7)
    out.append(s.issubset([1, 2, 3, 4]))
    out.append({1, 2}.symmetric_difference([2]))
    return out
def t_kw061():
    out = []
    l = [3, 1]
    l.sort(reverse=True, key=abs)
    out.append(l)
    l.insert(0, 9)
    l.extend((x for x in (1, 2)))
    out.append(l.index(1))
    out.append(l.count(1))
    l.reverse()
    out.append(l)
    del l[1:3]
    out.append(l)
    l[0:1] = [7, 8]
    out.append(l)
    out.append(l * 2)
    out.append(l[::-1])
    return out
def t_kw062(): return all([])
def t_kw063(): return any((x > 2 for x in [1, 3]))
def t_kw064(): return divmod(7, 2)
def t_kw065(): return slice(1, 2).start
def t_kw066(): return isinstance(True, int)
def t_kw067(): return isinstance(3, int | str)
def t_kw068(): return type(3).__name__
def t_kw069(): return list(range(10))[slice(None, None, 3)]
def t_kw070(): return range(5)[-1]
def t_kw071(): return len(range(0, 10, 3))
def t_kw072(): return 3 in range(5)
def t_kw073(): return str.join(',', 'ab')
def t_kw074(): return list(map(str.upper, 'ab'))
def t_kw075(): return dict(a=1, **{'b': 2})
def t_kw076(): return list({'a': 1}.items())
def t_kw077():
    out = []
    a, *b, c = range(5)
    out.append((a, b, c))
    out.append((lambda *a, k=1, **kw: (a, k, kw))(1, 2, k=3, z=4))
    return out
def t_kw078():
    out = []
    with contextlib.suppress(KeyError):
        {}['a']
    return out
def t_kw079():
    out = []
    cnt = collections.Counter('abca')
    out.append(cnt.most_common(1))
    out.append(cnt['q'])
    dd = collections.defaultdict(list)
    dd['a'].append(1)
    out.append(dict(dd))
    od = collections.OrderedDict(a=1)
    od.move_to_end('a')
    out.append(list(od))
    cm = collections.ChainMap({'a': 1}, {'a': 2, 'b': 3})
    out.append((cm['a'], cm['b'], len(cm)))
    return out
def t_kw080():
    out = []
    P = collections.namedtuple('P', 'x y', defaults=[3])
    p = P(x=1)
    out.append(p._replace(y=4))
    out.append(p._asdict())
    out.append(p == (1, 3))
    return out
def t_kw081(): return functools.partial(int, base=2)('101')
def t_kw082(): return [*map(functools.partial(round, ndigits=1), [1.26])]
def t_kw083():
    out = []
    match {'k': [1, 2, 3]}:
        case {'k': [x, *r]} if x:
            out.append((x, r))
    return out
def t_kw084():
    out = []
    i = 0
    while (i := (i + 1)) < 4:
        pass
    else:
        out.append(i)
    return out
def t_kw085():
    out = []
    try:
        try:
            raise ValueError('a')
        except ValueError as e:
            raise KeyError('b') from e
    except KeyError as e:
        out.append((type(e.__cause__).__name__, e.args))
    finally:
        out.append('fin')
    return out
def t_kw086(): return f'{3.14159:.2f} {'a'!r:>5} {2:=+d} {12345:,} {0.5:%}'
def t_kw087(): return bool(float('nan') != float('nan'))
def t_kw088(): return any(map(math.isnan, [float('nan')]))
def t_kw089(): return list(filter(lambda kv: kv[1], {'a': 0, 'b': 1}.items()))
def t_kw090(): return sorted({'b': 1, 'a': 2}.items(), key=operator.itemgetter(1), reverse=True)
def t_kw091(): return tuple(itertools.starmap(pow, [(2, 3)]))
def t_kw092(): return callable(int)
def t_kw093(): return vars(type('T', (), {'a': 1}))['a']
