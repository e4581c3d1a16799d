# Interpreted stand-ins for standard library base classes (never imported by the analyser itself).


class Generic:
    def __init_subclass__(cls, **kw):
        pass

    def __class_getitem__(cls, item):
        return cls


class ABC:
    pass


class Mapping(Generic):

    def get(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            return default

    def __contains__(self, key):
        try:
            self[key]
        except KeyError:
            return False
        else:
            return True

    def keys(self):
        return [k for k in self]

    def items(self):
        return [(k, self[k]) for k in self]

    def values(self):
        return [self[k] for k in self]

    def __eq__(self, other):
        if not hasattr(other, 'items'):
            return NotImplemented
        return dict(self.items()) == dict(other.items())

    __hash__ = None


class MutableMapping(Mapping):

    __marker = object()

    def pop(self, key, *default):
        try:
            value = self[key]
        except KeyError:
            if not default:
                raise
            return default[0]
        else:
            del self[key]
            return value

    def popitem(self):
        for key in self:
            value = self[key]
            del self[key]
            return key, value
        raise KeyError('popitem')

    def clear(self):
        for key in [k for k in self]:
            del self[key]

    def update(self, other=(), /, **kwds):
        if isinstance(other, Mapping):
            for key in other:
                self[key] = other[key]
        elif hasattr(other, "keys"):
            for key in other.keys():
                self[key] = other[key]
        else:
            for key, value in other:
                self[key] = value
        for key, value in kwds.items():
            self[key] = value

    def setdefault(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            self[key] = default
        return default


class UserDict(MutableMapping):

    def __init__(self, dict=None, /, **kwargs):
        self.data = {}
        if dict is not None:
            self.update(dict)
        if kwargs:
            self.update(kwargs)

    def __len__(self):
        return len(self.data)

    def __getitem__(self, key):
        if key in self.data:
            return self.data[key]
        if hasattr(self.__class__, "__missing__"):
            return self.__class__.__missing__(self, key)
        raise KeyError(key)

    def __setitem__(self, key, item):
        self.data[key] = item

    def __delitem__(self, key):
        del self.data[key]

    def __iter__(self):
        return iter(self.data)

    def __contains__(self, key):
        return key in self.data

    def get(self, key, default=None):
        if key in self:
            return self[key]
        return default

    def copy(self):
        c = self.__class__.__new__(self.__class__)
        c.__dict__.update(self.__dict__)
        c.data = self.data.copy()
        return c

    def __repr__(self):
        return repr(self.data)


class Enum:
    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return self.name


class IntEnum(Enum):
    pass


class StrEnum(Enum):
    pass


class NamedTuple:
    def __init__(self, *args, **kw):
        for n, v in zip(self._fields, args):
            setattr(self, n, v)
        for n, v in kw.items():
            setattr(self, n, v)

    def __iter__(self):
        return iter([getattr(self, n) for n in self._fields])

    def __getitem__(self, i):
        return [getattr(self, n) for n in self._fields][i]

    def __len__(self):
        return len(self._fields)
