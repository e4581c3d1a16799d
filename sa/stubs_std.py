# Interpreted stand-ins for functions and classes of the standard library (never imported by the analyser itself).
# BIND maps a module to the names it takes from here.


def takewhile(predicate, iterable):
    for x in iterable:
        if not predicate(x):
            break
        yield x


def dropwhile(predicate, iterable):
    dropping = True
    for x in iterable:
        if dropping and predicate(x):
            continue
        dropping = False
        yield x


def filterfalse(predicate, iterable):
    for x in iterable:
        if not (predicate(x) if predicate is not None else x):
            yield x


def starmap(function, iterable):
    for args in iterable:
        yield function(*args)


def compress(data, selectors):
    for d, s in zip(data, selectors):
        if s:
            yield d


def cycle(iterable):
    saved = list(iterable)
    while saved:
        for x in saved:
            yield x


def tee(iterable, n=2):
    saved = list(iterable)
    return tuple([iter(saved) for _ in range(n)])


def batched(iterable, n):
    batch = []
    for x in iterable:
        batch.append(x)
        if len(batch) == n:
            yield tuple(batch)
            batch = []
    if batch:
        yield tuple(batch)


def groupby(iterable, key=None):
    group, last, first = [], None, True
    for x in iterable:
        k = x if key is None else key(x)
        if first or k != last:
            if not first:
                yield last, iter(group)
            group, last, first = [], k, False
        group.append(x)
    if not first:
        yield last, iter(group)


def singledispatch(func):
    registry = {object: func}

    def find(cls):
        for c in cls.__mro__:
            if c in registry:
                return registry[c]
        return func

    def wrapper(*args, **kw):
        return find(type(args[0]))(*args, **kw)

    def register(cls, f=None):
        if f is None:
            if isinstance(cls, type):
                return lambda f: register(cls, f)
            f = cls
            cls = __annotation__(f, 0)
        registry[cls] = f
        return f
    wrapper.register = register
    wrapper.dispatch = find
    wrapper.registry = registry
    wrapper.__name__ = func.__name__
    return wrapper


def total_ordering(cls):
    names = [n for n in ('__lt__', '__le__', '__gt__', '__ge__') if n in cls.__dict__]
    if '__lt__' in names:
        missing = {'__gt__': lambda a, b: not (a < b or a == b), '__le__': lambda a, b: a < b or a == b, '__ge__': lambda a, b: not a < b}
    elif '__le__' in names:
        missing = {'__ge__': lambda a, b: not a <= b or a == b, '__lt__': lambda a, b: a <= b and not a == b, '__gt__': lambda a, b: not a <= b}
    elif '__gt__' in names:
        missing = {'__lt__': lambda a, b: not (a > b or a == b), '__ge__': lambda a, b: a > b or a == b, '__le__': lambda a, b: not a > b}
    else:
        missing = {'__le__': lambda a, b: not a >= b or a == b, '__gt__': lambda a, b: a >= b and not a == b, '__lt__': lambda a, b: not a >= b}
    for n, f in missing.items():
        if n not in names:
            setattr(cls, n, f)
    return cls


def not_(a):
    return not a


def truth(a):
    return bool(a)


def is_(a, b):
    return a is b


def is_not(a, b):
    return a is not b


def le(a, b):
    return a <= b


def ge(a, b):
    return a >= b


def ne(a, b):
    return a != b


def mod(a, b):
    return a % b


def floordiv(a, b):
    return a // b


def xor(a, b):
    return a ^ b


def neg(a):
    return -a


def pos(a):
    return +a


def abs_(a):
    return abs(a)


def invert(a):
    return ~a


def concat(a, b):
    return a + b


def setitem(a, k, v):
    a[k] = v


def delitem(a, k):
    del a[k]


def iadd(a, b):
    a += b
    return a


class attrgetter:
    def __init__(self, *names):
        self.names = names

    def _one(self, obj, name):
        for n in name.split('.'):
            obj = getattr(obj, n)
        return obj

    def __call__(self, obj):
        if len(self.names) == 1:
            return self._one(obj, self.names[0])
        return tuple([self._one(obj, n) for n in self.names])


class SimpleNamespace:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __eq__(self, other):
        return isinstance(other, SimpleNamespace) and self.__dict__ == other.__dict__


class Counter(dict):
    def __init__(self, iterable=(), **kw):
        super().__init__()
        self.update(iterable, **kw)

    def __missing__(self, key):
        return 0

    def update(self, iterable=(), **kw):
        if hasattr(iterable, 'keys'):
            for k in iterable:
                self[k] = self[k] + iterable[k]
        else:
            for k in iterable:
                self[k] = self[k] + 1
        for k in kw:
            self[k] = self[k] + kw[k]

    def most_common(self, n=None):
        r = sorted(self.items(), key=lambda kv: kv[1], reverse=True)
        return r if n is None else r[:n]

    def elements(self):
        return [k for k, n in self.items() for _ in range(n)]

    def total(self):
        return sum(self.values())


class ChainMap:
    def __init__(self, *maps):
        self.maps = list(maps) or [{}]

    def __getitem__(self, key):
        for m in self.maps:
            if key in m:
                return m[key]
        raise KeyError(key)

    def __setitem__(self, key, value):
        self.maps[0][key] = value

    def __delitem__(self, key):
        del self.maps[0][key]

    def _merged(self):
        d = {}
        for m in reversed(self.maps):
            d.update(m)
        return d

    def __iter__(self):
        return iter(self._merged())

    def __len__(self):
        return len(self._merged())

    def __contains__(self, key):
        return any([key in m for m in self.maps])

    def get(self, key, default=None):
        return self[key] if key in self else default

    def keys(self):
        return self._merged().keys()

    def values(self):
        return self._merged().values()

    def items(self):
        return self._merged().items()

    def new_child(self, m=None):
        return ChainMap({} if m is None else m, *self.maps)


class deque:
    def __init__(self, iterable=(), maxlen=None):
        self._items = []
        self.maxlen = maxlen
        self.extend(iterable)

    def append(self, x):
        self._items.append(x)
        if self.maxlen is not None and len(self._items) > self.maxlen:
            del self._items[0]

    def appendleft(self, x):
        self._items.insert(0, x)
        if self.maxlen is not None and len(self._items) > self.maxlen:
            del self._items[-1]

    def extend(self, xs):
        for x in xs:
            self.append(x)

    def extendleft(self, xs):
        for x in xs:
            self.appendleft(x)

    def pop(self):
        return self._items.pop()

    def popleft(self):
        return self._items.pop(0)

    def clear(self):
        self._items.clear()

    def rotate(self, n=1):
        for _ in range(n % max(len(self._items), 1)):
            self._items.insert(0, self._items.pop())

    def copy(self):
        return deque(self._items, self.maxlen)

    def remove(self, x):
        self._items.remove(x)

    def index(self, x):
        return self._items.index(x)

    def count(self, x):
        return self._items.count(x)

    def reverse(self):
        self._items.reverse()

    def __len__(self):
        return len(self._items)

    def __iter__(self):
        return iter(self._items)

    def __reversed__(self):
        return reversed(self._items)

    def __getitem__(self, i):
        return self._items[i]

    def __setitem__(self, i, v):
        self._items[i] = v

    def __contains__(self, x):
        return x in self._items

    def __eq__(self, other):
        return isinstance(other, deque) and self._items == other._items


class _tuple:
    def __init__(self, *args, **kw):
        if len(args) > len(self._fields):
            raise TypeError(f"expected {len(self._fields)} arguments, got {len(args)}")
        for n, v in zip(self._fields, args):
            self.__dict__[n] = v
        for n in self._fields[len(args):]:
            if n in kw:
                self.__dict__[n] = kw.pop(n)
            elif hasattr(type(self), n):
                self.__dict__[n] = getattr(type(self), n)
            else:
                raise TypeError(f"missing required argument: '{n}'")
        if kw:
            raise TypeError("unexpected keyword arguments")

    def __repr__(self):
        return f"{type(self).__name__}({', '.join([f'{n}={self.__dict__[n]!r}' for n in self._fields])})"

    def _values(self):
        return tuple([self.__dict__[n] for n in self._fields])

    def __iter__(self):
        return iter(self._values())

    def __getitem__(self, i):
        return self._values()[i]

    def __len__(self):
        return len(self._fields)

    def __contains__(self, x):
        return x in self._values()

    def __eq__(self, other):
        return self._values() == (other._values() if isinstance(other, _tuple) else other)

    def __lt__(self, other):
        return self._values() < (other._values() if isinstance(other, _tuple) else other)

    def __add__(self, other):
        return self._values() + tuple(other)

    def __hash__(self):
        return hash(self._values())

    def __setattr__(self, name, value):
        raise AttributeError("can't set attribute")

    def _asdict(self):
        return {n: self.__dict__[n] for n in self._fields}

    def _replace(self, **kw):
        return type(self)(**{**self._asdict(), **kw})

    def index(self, x):
        return self._values().index(x)

    def count(self, x):
        return self._values().count(x)


def namedtuple(typename, field_names, *, rename=False, defaults=None, module=None):
    if isinstance(field_names, str):
        field_names = field_names.replace(',', ' ').split()
    field_names = tuple(field_names)
    ns = {'_fields': field_names, '__match_args__': field_names}
    if defaults:
        ns.update(zip(field_names[-len(defaults):], defaults))
    cls = type(typename, (_tuple,), ns)
    cls._make = lambda xs: cls(*xs)
    return cls


def dc_replace(obj, **kw):
    return type(obj)(**{**{n: getattr(obj, n) for n in type(obj).__match_args__}, **kw})


def dc_astuple(obj):
    return tuple([getattr(obj, n) for n in type(obj).__match_args__])


def ospath_join(a, *rest):
    for b in rest:
        b = str(b)
        a = b if b.startswith('/') else (a + b if str(a).endswith('/') or not a else f"{a}/{b}")
    return a


BIND = {'itertools': {n: n for n in ('takewhile', 'dropwhile', 'filterfalse', 'starmap', 'compress', 'cycle', 'tee', 'batched', 'groupby')},
        'functools': {'singledispatch': 'singledispatch', 'total_ordering': 'total_ordering'},
        'operator': {**{n: n for n in ('not_', 'truth', 'is_', 'is_not', 'le', 'ge', 'ne', 'mod', 'floordiv', 'xor', 'neg', 'pos', 'invert',
                                       'concat', 'setitem', 'delitem', 'iadd', 'attrgetter')}, 'abs': 'abs_', 'inv': 'invert'},
        'types': {'SimpleNamespace': 'SimpleNamespace'},
        'dataclasses': {'replace': 'dc_replace', 'astuple': 'dc_astuple'},
        'collections': {'Counter': 'Counter', 'ChainMap': 'ChainMap', 'deque': 'deque', 'namedtuple': 'namedtuple'}}
