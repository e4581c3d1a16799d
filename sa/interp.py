"""Abstract interpreter over the syntax tree of the package under analysis.

Nothing of the package (nor of NGSolve / numpy) is imported or executed: every module is parsed from the
working tree and its statements are given an abstract semantics.  Scalars live in the algebraic domain of
`alg`, third party objects are `Model` values (see models.py), everything that is a compile-time constant is
propagated.  A test the domain cannot decide splits the analysis (trace partitioning): `explore` enumerates
the outcomes of such tests, and the same abstract test always gets the same outcome inside one partition.
"""
from __future__ import annotations
import ast
import builtins as hb
import itertools
import operator
import sys
from pathlib import Path as HPath

from . import alg
from .alg import E

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    """the analysis met a construct it has no abstract semantics for"""


class Cut(Exception):
    """analysis budget of one partition exhausted"""


class PyEx(Exception):
    """an exception of the analysed program"""

    def __init__(self, value, where=None):
        self.value = value
        self.where = where

    def __str__(self):
        return f"{self.value.cls.name}{tuple(self.value.d.get('args', ()))} at {self.where}"


CUR: "Interp" = None


# ------------------------------------------------------------------ values

class IClass:
    def __init__(self, name, bases, ns, module=None, check=None, ctor=None, host=None):
        self.name = name
        self.bases = list(bases)
        self.ns = ns
        self.module = module
        self.check = check
        self.ctor = ctor
        self.host = host
        self.mro = c3(self)
        self.qualname = name
        self.node = None
        self.meta = None
        self.subs = []

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name]
        return MISSING

    def find(self, name):
        for c in self.mro:
            if name in c.ns:
                return c
        return None

    def issub(self, other):
        return other in self.mro

    def __repr__(self):
        return f"<class '{self.name}'>"


def c3(cls):
    def merge(seqs):
        res = []
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                raise Unsupported("inconsistent MRO")
            res.append(h)
            seqs = [[x for x in s if x is not h] for s in seqs]
            seqs = [s for s in seqs if s]
        return res
    return [cls] + merge([b.mro for b in cls.bases] + [cls.bases])


class _Missing:
    def __repr__(self):
        return '<missing>'


MISSING = _Missing()


class IObj:
    """instance of an interpreted (or stub) class"""
    _n = 0

    def __init__(self, cls):
        self.cls = cls
        self.d = {}
        self.native = None
        IObj._n += 1
        self.serial = IObj._n

    # host containers delegate to the interpreted protocol
    def __hash__(self):
        h = self.cls.lookup('__hash__')
        if h is MISSING or isinstance(h, HostFn) or h is None:
            return self.serial
        return CUR.call(Bound(h, self), [])

    def __eq__(self, o):
        if self is o:
            return True
        f = self.cls.lookup('__eq__')
        if f is MISSING or isinstance(f, HostFn):
            return False
        r = CUR.call(Bound(f, self), [o])
        return r is not NotImplemented and CUR.truth(r)

    def __ne__(self, o):
        return not self == o

    def __iter__(self):
        return CUR.iterate(self)

    def __lt__(self, o):
        return CUR.truth(CUR.compare(ast.Lt, self, o))

    def __repr__(self):
        return f"<{self.cls.name} object>"


class IFunc:
    def __init__(self, name, node, env, defaults, kwdefaults, module, qualname):
        self.name = name
        self.node = node
        self.env = env
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.module = module
        self.qualname = qualname
        self.owner = None
        self.d = {}
        self.info = func_info(node)

    def __repr__(self):
        return f"<function {self.qualname}>"

    def __call__(self, *a, **k):      # host code (sorted(key=...), itertools, ...)
        return CUR.call(self, list(a), k)


class Bound:
    def __init__(self, func, self_):
        self.func = func
        self.self = self_

    def __repr__(self):
        return f"<bound {self.func}>"

    def __call__(self, *a, **k):
        return CUR.call(self, list(a), k)

    def __eq__(self, o):
        return isinstance(o, Bound) and o.func is self.func and o.self is self.self

    def __hash__(self):
        return hash(id(self.func))


class HostFn:
    user = False        # stands for a method a user class defines

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return f"<hostfn {self.name}>"

    def __call__(self, *a, **k):
        return self.fn(CUR, *a, **k)


class PropertyV:
    def __init__(self, fget=None, fset=None, fdel=None, cached=False):
        self.fget, self.fset, self.fdel, self.cached = fget, fset, fdel, cached


class ClassMethodV:
    def __init__(self, f):
        self.f = f


class StaticMethodV:
    def __init__(self, f):
        self.f = f


class PartialV:
    def __init__(self, f, args, kw, method=False):
        self.f, self.args, self.kw, self.method = f, list(args), dict(kw), method

    def __call__(self, *a, **k):
        return CUR.call(self, list(a), k)


class IModule:
    def __init__(self, name, ns, external=False, resolver=None):
        self.name = name
        self.ns = ns
        self.external = external
        self.resolver = resolver

    def __repr__(self):
        return f"<module {self.name}>"


class IGen:
    def __init__(self, gen, name):
        self.gen = gen
        self.name = name
        self.done = False

    def __iter__(self):
        return self

    def __next__(self):
        try:
            return next(self.gen)
        except StopIteration:
            self.done = True
            raise

    def close(self):
        if not self.done:
            self.done = True
            self.gen.close()


class SuperV:
    def __init__(self, start, obj):
        self.start, self.obj = start, obj


_apis = {}


def apis():
    """attribute names of the third party classes (recorded from the installed libraries)"""
    if not _apis:
        import json
        d = json.loads((HPath(__file__).parent / 'apis.json').read_text())
        _apis.update({'module ' + k: frozenset(v) for k, v in d.pop('modules').items()})
        _apis.update({k: frozenset(v) for k, v in d.items()})
    return _apis


class Model:
    """abstract third party value"""
    tname = 'object'

    def getattr(self, it, name):
        # an attribute the library has but no model exists for leaves the partition undecided
        if name in apis().get(self.tname, ()):
            raise Unsupported(f"unmodelled attribute {self.tname}.{name}")
        it.throw('AttributeError', f"'{self.tname}' object has no attribute '{name}'")

    def setattr(self, it, name, v):
        raise Unsupported(f"attribute store on {self!r}.{name}")

    def delattr(self, it, name):
        raise Unsupported(f"attribute delete on {self!r}.{name}")

    def binop(self, it, op, other, swapped):
        return NotImplemented

    def unary(self, it, op):
        raise Unsupported(f"unary {op} on {self!r}")

    def call(self, it, args, kw):
        it.throw('TypeError', f"'{self.tname}' object is not callable")

    def getitem(self, it, k):
        it.throw('TypeError', f"'{self.tname}' object is not subscriptable")

    def setitem(self, it, k, v):
        it.throw('TypeError', f"'{self.tname}' object does not support item assignment")

    def delitem(self, it, k):
        it.throw('TypeError', f"'{self.tname}' object does not support item deletion")

    def iter(self, it):
        it.throw('TypeError', f"'{self.tname}' object is not iterable")

    def length(self, it):
        it.throw('TypeError', f"object of type '{self.tname}' has no len()")

    def truth(self, it):
        return True

    def compare(self, it, op, other, swapped):
        return NotImplemented

    def contains(self, it, x):
        raise Unsupported(f"membership in {self!r}")

    def isinstance(self, it, cls):
        return None

    def cls(self, it):
        return it.object_cls

    def enter(self, it):
        return self

    def exit(self, it, exc):
        return None

    def fmt(self, it, spec):
        return None


class SymStr(Model):
    """string with symbolic parts"""
    tname = 'str'

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, SymStr):
                out.extend(p.parts)
            elif isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p == '' and isinstance(p, str):
                pass
            else:
                out.append(p)
        # merge
        m = []
        for p in out:
            if isinstance(p, str) and m and isinstance(m[-1], str):
                m[-1] += p
            else:
                m.append(p)
        self.parts = tuple(m)

    @staticmethod
    def make(parts):
        s = SymStr(parts)
        if all(isinstance(p, str) for p in s.parts):
            return "".join(s.parts)
        return s

    def __repr__(self):
        return "".join(p if isinstance(p, str) else "{" + part_name(p) + "}" for p in self.parts)

    def key(self):
        return tuple(p if isinstance(p, str) else ('part', part_name(p)) for p in self.parts)

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, SymStr) and o.key() == self.key()

    def cls(self, it):
        return it.builtin_cls['str']

    def isinstance(self, it, cls):
        return cls is it.builtin_cls['str'] or cls is it.object_cls

    def truth(self, it):
        return True

    def binop(self, it, op, other, swapped):
        if op is ast.Add and isinstance(other, (str, SymStr)):
            return SymStr.make([other, self] if swapped else [self, other])
        if op is ast.Mod and swapped:
            return SymStr([('fmt', other, self)])
        return NotImplemented

    def compare(self, it, op, other, swapped):
        if op in (ast.Eq, ast.NotEq):
            if isinstance(other, SymStr) and other.key() == self.key():
                return op is ast.Eq
            if isinstance(other, (str, SymStr)):
                r = it.decide(('streq', repr(self), repr(other)), [False, True])
                return r if op is ast.Eq else not r
            return op is ast.NotEq
        return NotImplemented

    def contains(self, it, x):
        if isinstance(x, str) and any(isinstance(p, str) and x in p for p in self.parts):
            return True
        return it.decide(('strin', repr(x), repr(self)), [False, True])

    def getattr(self, it, name):
        if name in ('strip', 'rstrip', 'lstrip', 'lower', 'upper', 'capitalize', 'title'):
            return HostFn(name, lambda it, *a: SymStr([('m', name, self, a)]))
        if name == 'format':
            return HostFn(name, lambda it, *a, **k: SymStr([('format', self, a, tuple(k.items()))]))
        if name == 'replace':
            return HostFn(name, lambda it, *a: SymStr([('m', name, self, a)]))
        if name in ('startswith', 'endswith', 'isdigit', 'isidentifier'):
            return HostFn(name, lambda it, *a: it.decide(('str' + name, repr(self), repr(a)), [False, True]))
        if name == 'split':
            def split(it, sep=None, maxsplit=-1):
                out = [[]]
                for p in self.parts:
                    if isinstance(p, str) and sep is not None:
                        bits = p.split(sep)
                        out[-1].append(bits[0])
                        for b in bits[1:]:
                            out.append([b])
                    else:
                        out[-1].append(p)
                return [SymStr.make(o) for o in out]
            return HostFn(name, split)
        if name == 'join':
            return HostFn(name, lambda it, xs: join_str(it, self, it.to_list(xs)))
        if name == 'encode':
            return HostFn(name, lambda it, *a: self)
        return super().getattr(it, name)

    def length(self, it):
        return it.models.fresh_int('strlen', pos=True)

    def getitem(self, it, k):
        return SymStr([('idx', self, k)])

    def iter(self, it):
        raise Unsupported("iteration over a symbolic string")


def part_name(p):
    if isinstance(p, tuple):
        return "(" + ",".join(part_name(x) for x in p) + ")"
    if isinstance(p, IObj):
        return f"{p.cls.name}#{p.serial}"
    if isinstance(p, (IFunc, IClass)):
        return p.name
    return repr(p)


def join_str(it, sep, items):
    parts = []
    for i, x in enumerate(items):
        if not isinstance(x, (str, SymStr)):
            it.throw('TypeError', f"sequence item {i}: expected str instance, {it.class_of(x).name} found")
        if i:
            parts.append(sep)
        parts.append(x)
    return SymStr.make(parts) if parts else ""


PLAIN = (int, float, complex, str, bytes, tuple, list, dict, set, frozenset, range, slice, type(None),
         type(Ellipsis), type(NotImplemented))

_DICTVIEWS = (type({}.keys()), type({}.values()), type({}.items()))

# ------------------------------------------------------------------ static per-function facts

_finfo: dict = {}


class FuncInfo:
    __slots__ = ('locals', 'globals', 'nonlocals', 'is_gen', 'doc', 'simple', 'first')


def _scan(nodes, info):
    """names bound in this scope; not descending into nested scopes"""
    stack = list(nodes)
    while stack:
        n = stack.pop()
        t = type(n)
        if t in (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef):
            info.locals.add(n.name)
            stack.extend(n.decorator_list)
            continue
        if t is ast.Lambda:
            continue
        if t in (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp):
            # walrus targets inside comprehensions bind in this scope; yields are not allowed there
            for w in ast.walk(n):
                if type(w) is ast.NamedExpr:
                    info.locals.add(w.target.id)
            continue
        if t in (ast.Yield, ast.YieldFrom):
            info.is_gen = True
        elif t is ast.Name and isinstance(n.ctx, (ast.Store, ast.Del)):
            info.locals.add(n.id)
        elif t is ast.Global:
            info.globals.update(n.names)
        elif t is ast.Nonlocal:
            info.nonlocals.update(n.names)
        elif t in (ast.Import, ast.ImportFrom):
            for a in n.names:
                info.locals.add((a.asname or a.name).split('.')[0])
        elif t is ast.ExceptHandler and n.name:
            info.locals.add(n.name)
        elif t in (ast.MatchAs, ast.MatchStar) and n.name:
            info.locals.add(n.name)
        elif t is ast.MatchMapping and n.rest:
            info.locals.add(n.rest)
        stack.extend(ast.iter_child_nodes(n))


def func_info(node):
    i = _finfo.get(id(node))
    if i is not None and i[0] is node:
        return i[1]
    info = FuncInfo()
    info.locals, info.globals, info.nonlocals, info.is_gen = set(), set(), set(), False
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        info.locals.add(x.arg)
    if a.vararg:
        info.locals.add(a.vararg.arg)
    if a.kwarg:
        info.locals.add(a.kwarg.arg)
    if isinstance(node, ast.Lambda):
        _scan([node.body], info)
        info.doc = None
    else:
        _scan(node.body, info)
        info.doc = ast.get_docstring(node, clean=False)
    info.locals -= info.globals | info.nonlocals
    pos = a.posonlyargs + a.args
    info.simple = None if a.vararg or a.kwarg or a.kwonlyargs else [p.arg for p in pos]
    info.first = pos[0].arg if pos else None
    _finfo[id(node)] = (node, info)
    return info


class Env:
    __slots__ = ('vars', 'parent', 'glob', 'info', 'kind', 'func', 'self0', 'cls')

    def __init__(self, parent, glob, kind, info=None, func=None):
        self.vars = {}
        self.parent = parent
        self.glob = glob
        self.kind = kind
        self.info = info
        self.func = func
        self.self0 = None
        self.cls = None


class Frame:
    __slots__ = ('func', 'node', 'module')

    def __init__(self, func, node, module):
        self.func, self.node, self.module = func, node, module


RET, BRK, CNT = 'ret', 'brk', 'cnt'

_binops = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
           ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow,
           ast.BitOr: operator.or_, ast.BitAnd: operator.and_, ast.BitXor: operator.xor,
           ast.LShift: operator.lshift, ast.RShift: operator.rshift, ast.MatMult: operator.matmul}
_dunder = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.FloorDiv: 'floordiv',
           ast.Mod: 'mod', ast.Pow: 'pow', ast.BitOr: 'or', ast.BitAnd: 'and', ast.BitXor: 'xor',
           ast.LShift: 'lshift', ast.RShift: 'rshift', ast.MatMult: 'matmul'}
_cmps = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge,
         ast.Eq: operator.eq, ast.NotEq: operator.ne}
_cmpd = {ast.Lt: '__lt__', ast.LtE: '__le__', ast.Gt: '__gt__', ast.GtE: '__ge__', ast.Eq: '__eq__',
         ast.NotEq: '__ne__'}
_cmpswap = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE, ast.Eq: ast.Eq,
            ast.NotEq: ast.NotEq}

HOSTEXC = ('BaseException', 'Exception', 'ArithmeticError', 'AssertionError', 'AttributeError', 'BufferError',
           'EOFError', 'ImportError', 'IndexError', 'KeyError', 'KeyboardInterrupt', 'LookupError', 'MemoryError',
           'ModuleNotFoundError', 'NameError', 'NotImplementedError', 'OSError', 'FileNotFoundError',
           'FileExistsError', 'PermissionError', 'NotADirectoryError', 'IsADirectoryError', 'TimeoutError',
           'OverflowError', 'RecursionError', 'RuntimeError', 'StopIteration', 'SyntaxError', 'SystemExit',
           'TypeError', 'UnboundLocalError', 'UnicodeDecodeError', 'UnicodeError', 'ValueError',
           'ZeroDivisionError', 'GeneratorExit', 'Warning', 'UserWarning', 'DeprecationWarning', 'FloatingPointError',
           'FutureWarning', 'RuntimeWarning')


class Interp:
    def __init__(self, root='/repo', package='dream', limits=None):
        global CUR
        CUR = self
        self.root = HPath(root)
        self.package = package
        self.modules = {}
        self.sources = {}
        self.stack: list[Frame] = []
        self.steps = 0
        self.max_steps = 3_000_000
        self.max_depth = 220
        self.oracle = []
        self.taken = []
        self.memo_dec = {}
        self.events = []
        self.visited = set()          # (module, qualname) of interpreted functions
        self.trail = {}               # the same for the current run, most recent last, with line numbers
        self.returns = []             # (module, qualname, lineno) of executed returns (latest last)
        self.ext_hook = None
        self.assume = None
        self.loop_limit = 4000
        self.object_cls = IClass('object', [], {})
        self.type_cls = IClass('type', [self.object_cls], {})
        self.builtin_cls = {}
        self.stubs_loaded = False
        from . import builtins_model, models
        self.bm = builtins_model
        self.models = models
        self.builtins = builtins_model.make_builtins(self)
        self.ext = models.make_modules(self)
        self.load_stubs()

    # ------------------------------------------------------------ errors & decisions

    def throw(self, name, *args):
        cls = self.builtin_cls[name] if isinstance(name, str) else name
        o = IObj(cls)
        o.d['args'] = tuple(args)
        raise PyEx(o, self.where())

    def where(self):
        for f in reversed(self.stack):
            if not f.module.startswith('stub:'):
                ln = getattr(f.node, 'lineno', 0)
                return f"{self.relfile(f.module)}:{ln} in {f.func}"
        return "?"

    def path_taken(self, n=10):
        """the last functions of the package called in the current run, most recent first"""
        own = [(m, q, ln) for (m, q), ln in self.trail.items() if m.startswith('dream.') and m != 'dream.config' and '<' not in q.rsplit('.', 1)[-1]]
        own = own or [(m, q, ln) for (m, q), ln in self.trail.items() if m.startswith('dream')]
        return ' <- '.join(f"{self.relfile(m)}:{ln} {q}" for m, q, ln in reversed(own[-n:]))

    def relfile(self, module):
        p = self.sources.get(module)
        return str(p.relative_to(self.root)) if p is not None and self.root in p.parents else module

    def unsupported(self, msg):
        raise Unsupported(f"{msg} [{self.where()}]")

    def decide(self, key, options):
        """outcome of a test the domain leaves open; fixed per key within one partition"""
        k = key
        if k in self.memo_dec:
            return self.memo_dec[k]
        if self.assume is not None:
            v = self.assume(key, options)
            if v is not None:
                return v
        i = len(self.taken)
        if i < len(self.oracle):
            c = self.oracle[i]
        else:
            c = 0
        if i > 400:
            raise Cut("too many splits")
        v = options[c]
        self.taken.append((k, options, c))
        self.memo_dec[k] = v
        return v

    def fork(self, label, options):
        """a split that is not memoised (every occurrence is a new one)"""
        n = sum(1 for k, _, _ in self.taken if k[0] == 'fork' and k[1] == label)
        return self.decide(('fork', label, n), options)

    # ------------------------------------------------------------ module loading

    def modpath(self, name):
        rel = name.split('.')
        base = self.root.joinpath(*rel)
        if base.is_dir() and (base / '__init__.py').exists():
            return base / '__init__.py'
        p = base.with_suffix('.py')
        return p if p.exists() else None

    def load_stubs(self):
        p = HPath(__file__).parent / 'stubs.py'
        ns = {'__name__': 'stub:stubs'}
        self.exec_module('stub:stubs', p, ns)
        self.stub_ns = ns
        self.models.bind_stubs(self, ns)
        p = HPath(__file__).parent / 'stubs_std.py'
        std = {'__name__': 'stub:std', '__annotation__': HostFn('annotation', self.models.annotation)}
        self.exec_module('stub:std', p, std)
        ns['std'] = IModule('stub:std', std)
        for m, names in std['BIND'].items():
            self.ext[m].ns.update({k: std[v] for k, v in names.items()})
        self.models.bind_std(self, std)

    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.ext:
            return self.ext[name]
        if name.split('.')[0] == self.package:
            if '.' in name:
                parent = self.import_module(name.rsplit('.', 1)[0])
            p = self.modpath(name)
            if p is None:
                self.throw('ModuleNotFoundError', f"No module named '{name}'")
            m = IModule(name, {'__name__': name, '__file__': str(p), '__package__': name})
            self.modules[name] = m
            self.sources[name] = p
            self.exec_module(name, p, m.ns)
            if '.' in name:
                parent.ns[name.rsplit('.', 1)[1]] = m
            return m
        m = self.models.external_module(self, name)
        if m is None:
            self.throw('ModuleNotFoundError', f"No module named '{name}'")
        self.ext[name] = m
        return m

    def exec_module(self, name, path, ns):
        tree = ast.parse(path.read_text(), str(path))
        env = Env(None, ns, 'module')
        env.vars = ns
        self.stack.append(Frame('<module>', tree, name))
        try:
            self.run_block(tree.body, env)
        finally:
            self.stack.pop()

    # ------------------------------------------------------------ statements

    def run_block(self, body, env):
        return self.plain_block(body, env)

    def exec_block(self, body, env):
        for st in body:
            r = yield from self.exec_stmt(st, env)
            if r is not None:
                return r
        return None

    def stray(self):
        self.unsupported("yield outside generator")

    def tick(self, node):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Cut("step budget")
        if self.stack:
            self.stack[-1].node = node

    def exec_stmt(self, st, env):
        self.tick(st)
        t = type(st)
        if t is ast.Expr:
            v = st.value
            if isinstance(v, ast.Yield):
                yield (self.eval(v.value, env) if v.value is not None else None)
            elif isinstance(v, ast.YieldFrom):
                yield from self.eval_yield(v, env)
            else:
                self.eval(v, env)
        elif t is ast.Assign or t is ast.AnnAssign:
            if st.value is None:
                return None
            if isinstance(st.value, (ast.Yield, ast.YieldFrom)):
                val = yield from self.eval_yield(st.value, env)
            else:
                val = self.eval(st.value, env)
            for tgt in (st.targets if t is ast.Assign else [st.target]):
                self.assign(tgt, val, env)
        elif t is ast.AugAssign:
            self.augassign(st, env)
        elif t is ast.Return:
            if isinstance(st.value, (ast.Yield, ast.YieldFrom)):
                v = yield from self.eval_yield(st.value, env)
            else:
                v = self.eval(st.value, env) if st.value is not None else None
            f = self.stack[-1]
            self.returns.append((f.module, f.func, st.lineno))
            return (RET, v)
        elif t is ast.If:
            if self.truth(self.eval(st.test, env)):
                return (yield from self.exec_block(st.body, env))
            return (yield from self.exec_block(st.orelse, env))
        elif t is ast.For:
            return (yield from self.exec_for(st, env))
        elif t is ast.While:
            n = 0
            while True:
                if not self.truth(self.eval(st.test, env)):
                    return (yield from self.exec_block(st.orelse, env))
                n += 1
                if n > self.loop_limit:
                    raise Cut(f"loop bound at {self.where()}")
                r = yield from self.exec_block(st.body, env)
                if r == BRK:
                    return None
                if r is not None and r != CNT:
                    return r
        elif t is ast.Break:
            return BRK
        elif t is ast.Continue:
            return CNT
        elif t is ast.Pass:
            pass
        elif t is ast.Raise:
            self.exec_raise(st, env)
        elif t is ast.Try:
            return (yield from self.exec_try(st, env))
        elif t is ast.With:
            return (yield from self.exec_with(st.items, st.body, env))
        elif t is ast.FunctionDef:
            self.exec_funcdef(st, env)
        elif t is ast.ClassDef:
            self.exec_classdef(st, env)
        elif t is ast.Import:
            for a in st.names:
                m = self.import_module(a.name)
                if a.asname:
                    self.store_name(a.asname, m, env)
                else:
                    top = a.name.split('.')[0]
                    self.store_name(top, self.import_module(top), env)
        elif t is ast.ImportFrom:
            self.exec_importfrom(st, env)
        elif t is ast.Assert:
            if not self.truth(self.eval(st.test, env)):
                self.throw('AssertionError', self.eval(st.msg, env) if st.msg else '')
        elif t is ast.Delete:
            for tgt in st.targets:
                self.delete(tgt, env)
        elif t is ast.Match:
            subj = self.eval(st.subject, env)
            for case in st.cases:
                b = {}
                if self.match(case.pattern, subj, env, b):
                    for k, v in b.items():
                        self.store_name(k, v, env)
                    if case.guard is None or self.truth(self.eval(case.guard, env)):
                        return (yield from self.exec_block(case.body, env))
        elif t in (ast.Global, ast.Nonlocal):
            pass
        else:
            self.unsupported(f"statement {t.__name__}")
        return None

    # plain_*: the same statements outside generators, derived from these methods below

    def eval_yield(self, node, env):
        if isinstance(node, ast.Yield):
            s = yield (self.eval(node.value, env) if node.value is not None else None)
            return s
        src = self.eval(node.value, env)
        if isinstance(src, IGen):
            r = yield from src.gen
            return r
        for x in self.iterate(src):
            yield x
        return None

    def exec_for(self, st, env):
        n = 0
        itv = self.iterate(self.eval(st.iter, env))
        brk = False
        while True:
            try:
                x = next(itv)
            except StopIteration:
                break
            n += 1
            if n > self.loop_limit:
                raise Cut(f"loop bound at {self.where()}")
            self.tick(st)
            self.assign(st.target, x, env)
            r = yield from self.exec_block(st.body, env)
            if r == BRK:
                brk = True
                break
            if r is not None and r != CNT:
                return r
        if not brk:
            return (yield from self.exec_block(st.orelse, env))
        return None

    def exec_raise(self, st, env):
        if st.exc is None:
            if not self.handling:
                self.throw('RuntimeError', 'No active exception to reraise')
            raise self.handling[-1]
        v = self.eval(st.exc, env)
        if isinstance(v, IClass):
            v = self.call(v, [])
        if not isinstance(v, IObj) or not v.cls.issub(self.builtin_cls['BaseException']):
            self.throw('TypeError', 'exceptions must derive from BaseException')
        if st.cause is not None:
            v.d['__cause__'] = self.eval(st.cause, env)
        raise PyEx(v, self.where())

    handling: list = []

    def exc_matches(self, value, typ):
        if isinstance(typ, tuple):
            return any(self.exc_matches(value, t) for t in typ)
        return isinstance(typ, IClass) and value.cls.issub(typ)

    def exec_try(self, st, env):
        try:
            try:
                r = yield from self.exec_block(st.body, env)
            except PyEx as ex:
                depth = len(self.stack)
                for h in st.handlers:
                    if h.type is None or self.exc_matches(ex.value, self.eval(h.type, env)):
                        if h.name:
                            self.store_name(h.name, ex.value, env)
                        self.handling.append(ex)
                        try:
                            r = yield from self.exec_block(h.body, env)
                        finally:
                            self.handling.pop()
                            if h.name:
                                env.vars.pop(h.name, None)
                        break
                else:
                    raise
            else:
                if r is None:
                    r = yield from self.exec_block(st.orelse, env)
        except (Unsupported, Cut):
            raise
        except GeneratorExit:
            # generator closed: run finally without yielding
            if st.finalbody:
                self.run_block(st.finalbody, env)
            raise
        except PyEx:
            if st.finalbody:
                r2 = yield from self.exec_block(st.finalbody, env)
                if r2 is not None:
                    return r2
            raise
        if st.finalbody:
            r2 = yield from self.exec_block(st.finalbody, env)
            if r2 is not None:
                return r2
        return r

    def exec_with(self, items, body, env):
        if not items:
            return (yield from self.exec_block(body, env))
        item = items[0]
        mgr = self.eval(item.context_expr, env)
        val = self.cm_enter(mgr)
        if item.optional_vars is not None:
            self.assign(item.optional_vars, val, env)
        try:
            r = yield from self.exec_with(items[1:], body, env)
        except PyEx as ex:
            if self.truth(self.cm_exit(mgr, ex)):
                return None
            raise
        except GeneratorExit:
            o = IObj(self.builtin_cls['GeneratorExit'])
            o.d['args'] = ()
            self.cm_exit(mgr, PyEx(o, self.where()))
            raise
        self.cm_exit(mgr, None)
        return r

    def cm_enter(self, m):
        if isinstance(m, Model):
            return m.enter(self)
        f = self.class_of(m).lookup('__enter__')
        if f is MISSING:
            self.throw('TypeError', f"'{self.class_of(m).name}' object does not support the context manager protocol")
        return self.call(Bound(f, m), [])

    def cm_exit(self, m, ex):
        if isinstance(m, Model):
            return m.exit(self, ex)
        f = self.class_of(m).lookup('__exit__')
        if f is MISSING:
            self.throw('TypeError', 'no __exit__')
        a = [None, None, None] if ex is None else [ex.value.cls, ex.value, None]
        return self.call(Bound(f, m), a)

    def exec_importfrom(self, st, env):
        name = st.module or ''
        if st.level:
            pkg = env.glob['__name__']
            mod = self.modules.get(pkg)
            parts = pkg.split('.')
            is_pkg = mod is not None and str(mod.ns.get('__file__', '')).endswith('__init__.py')
            if not is_pkg:
                parts = parts[:-1]
            if st.level > 1:
                parts = parts[:-(st.level - 1)]
            name = '.'.join(parts + ([name] if name else []))
        if name == '__future__':
            return
        m = self.import_module(name)
        for a in st.names:
            if a.name == '*':
                names = m.ns.get('__all__') or [k for k in m.ns if not k.startswith('_')]
                for k in names:
                    self.store_name(k, m.ns[k], env)
                continue
            try:
                v = self.getattr(m, a.name)
            except PyEx as ex:
                if ex.value.cls.name != 'AttributeError':
                    raise
                try:
                    v = self.import_module(f"{name}.{a.name}")
                except PyEx:
                    self.throw('ImportError', f"cannot import name '{a.name}' from '{name}'")
            self.store_name(a.asname or a.name, v, env)

    def exec_funcdef(self, st, env):
        f = self.make_func(st, env, st.name)
        for d in reversed(st.decorator_list):
            f = self.call(self.eval(d, env), [f])
        self.store_name(st.name, f, env)

    def make_func(self, node, env, name):
        a = node.args
        defaults = [self.eval(d, env) for d in a.defaults]
        kwd = {p.arg: self.eval(d, env) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        q = self.qual(env, name)
        # class bodies are not enclosing scopes for functions
        e = env
        while e is not None and e.kind == 'class':
            e = e.parent
        f = IFunc(name, node, e, defaults, kwd, env.glob['__name__'], q)
        return f

    def qual(self, env, name):
        parts = [name]
        e = env
        while e is not None and e.kind != 'module':
            if e.kind == 'class':
                parts.insert(0, e.cls)
            elif e.kind == 'func':
                parts.insert(0, e.func.qualname + '.<locals>')
                break
            e = e.parent
        return '.'.join(parts)

    def exec_classdef(self, st, env):
        bases = []
        for b in st.bases:
            v = self.eval(b, env)
            bases.append(v)
        kw = {k.arg: self.eval(k.value, env) for k in st.keywords if k.arg}
        e = Env(env, env.glob, 'class')
        e.cls = st.name
        e.vars = {'__module__': env.glob['__name__'], '__qualname__': st.name}
        doc = ast.get_docstring(st, clean=False)
        e.vars['__doc__'] = doc
        ann = {}
        for s in st.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                ann[s.target.id] = ast.unparse(s.annotation)
        if ann:
            e.vars['__annotations__'] = ann
        self.run_block(st.body, e)
        c = self.make_class(st.name, bases, e.vars, env.glob['__name__'], kw, st)
        for d in reversed(st.decorator_list):
            c = self.call(self.eval(d, env), [c])
        self.store_name(st.name, c, env)

    def make_class(self, name, bases, ns, module, kw, node=None):
        rb = []
        for b in bases:
            if not isinstance(b, IClass):
                b2 = self.models.as_class(self, b)
                if b2 is None:
                    self.unsupported(f"base class {b!r}")
                b = b2
            if b not in rb:
                rb.append(b)
        # typing.Generic & friends contribute nothing when another base is present
        if not rb:
            rb = [self.object_cls]
        if len(rb) > 1:
            rb = [b for b in rb if b is not self.object_cls] or [self.object_cls]
        c = IClass(name, rb, ns, module)
        c.node = node
        for b in rb:
            b.subs.append(c)
        meta = kw.pop('metaclass', None) or next((b.meta for b in c.mro[1:] if b.meta is not None), None)
        if meta is not None and meta is not self.type_cls:
            if not isinstance(meta, IClass):
                self.unsupported('metaclass')
            c.meta = meta
            if meta.lookup('__new__') is not MISSING or meta.lookup('__prepare__') is not MISSING:
                self.unsupported('metaclass with __new__')
        for v in list(ns.values()):
            f = v.f if isinstance(v, (ClassMethodV, StaticMethodV)) else v
            for g in ((f.fget, f.fset) if isinstance(f, PropertyV) else (f,)):
                if isinstance(g, IFunc) and g.owner is None:
                    g.owner = c
        for k in ('__init_subclass__', '__class_getitem__'):
            if isinstance(ns.get(k), IFunc):
                ns[k] = ClassMethodV(ns[k])
        for k, v in list(ns.items()):
            if isinstance(v, IObj):
                s = v.cls.lookup('__set_name__')
                if s is not MISSING:
                    self.call(Bound(s, v), [c, k])
            elif isinstance(v, PropertyV) and v.cached:
                v.name = k
        for b in c.mro[1:]:
            if '__init_subclass__' in b.ns:
                f = b.ns['__init_subclass__']
                f = f.f if isinstance(f, ClassMethodV) else f
                self.call(Bound(f, c), [], kw)
                kw = {}
                break
        if kw:
            self.throw('TypeError', f"{name}.__init_subclass__() takes no keyword arguments")
        if c.meta is not None and isinstance(c.meta.lookup('__init__'), IFunc):
            self.call(c.meta.lookup('__init__'), [c, name, tuple(rb), ns])
        if any(b.name == 'Enum' and b.module == 'stub:stubs' for b in c.mro[1:]):
            self.models.make_enum(self, c)
        if any(b.name == 'NamedTuple' and b.module == 'stub:stubs' for b in c.mro[1:]):
            self.models.make_namedtuple(self, c)
        return c

    # ------------------------------------------------------------ names & targets

    def load_name(self, name, env):
        e = env
        first = True
        while e is not None:
            if e.kind == 'class' and not first:
                e = e.parent
                continue
            if e.kind == 'func' and name in e.info.globals:
                break
            if name in e.vars:
                return e.vars[name]
            if e.kind == 'func' and name in e.info.locals:
                if e is env or self._comp_of(env, e):
                    self.throw('UnboundLocalError',
                               f"cannot access local variable '{name}' where it is not associated with a value")
                self.throw('NameError', f"cannot access free variable '{name}'")
            first = first and e.kind in ('comp',)
            e = e.parent
        if name in env.glob:
            return env.glob[name]
        if name in self.builtins:
            return self.builtins[name]
        self.throw('NameError', f"name '{name}' is not defined")

    @staticmethod
    def _comp_of(env, e):
        while env is not None and env.kind == 'comp':
            env = env.parent
        return env is e

    def store_name(self, name, v, env):
        if env.kind == 'func':
            if name in env.info.globals:
                env.glob[name] = v
                return
            if name in env.info.nonlocals:
                e = env.parent
                while e is not None and not (e.kind == 'func' and name in e.info.locals):
                    e = e.parent
                if e is None:
                    self.unsupported(f"nonlocal {name}")
                e.vars[name] = v
                return
        env.vars[name] = v

    def assign(self, tgt, v, env):
        t = type(tgt)
        if t is ast.Name:
            self.store_name(tgt.id, v, env)
        elif t in (ast.Tuple, ast.List):
            vals = list(self.iterate(v))
            star = [i for i, x in enumerate(tgt.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                after = len(tgt.elts) - i - 1
                if len(vals) < len(tgt.elts) - 1:
                    self.throw('ValueError', 'not enough values to unpack')
                for x, y in zip(tgt.elts[:i], vals[:i]):
                    self.assign(x, y, env)
                self.assign(tgt.elts[i].value, vals[i:len(vals) - after], env)
                if after:
                    for x, y in zip(tgt.elts[i + 1:], vals[-after:]):
                        self.assign(x, y, env)
            else:
                if len(vals) != len(tgt.elts):
                    self.throw('ValueError', f"unpacking {len(vals)} values into {len(tgt.elts)} targets")
                for x, y in zip(tgt.elts, vals):
                    self.assign(x, y, env)
        elif t is ast.Attribute:
            self.setattr(self.eval(tgt.value, env), self.mangle(tgt.attr), v)
        elif t is ast.Subscript:
            self.setitem(self.eval(tgt.value, env), self.eval(tgt.slice, env), v)
        elif t is ast.Starred:
            self.assign(tgt.value, v, env)
        else:
            self.unsupported(f"assignment to {t.__name__}")

    def mangle(self, name):
        return name

    def delete(self, tgt, env):
        t = type(tgt)
        if t is ast.Name:
            if tgt.id not in env.vars:
                self.throw('UnboundLocalError', tgt.id)
            del env.vars[tgt.id]
        elif t is ast.Attribute:
            self.delattr(self.eval(tgt.value, env), tgt.attr)
        elif t is ast.Subscript:
            self.delitem(self.eval(tgt.value, env), self.eval(tgt.slice, env))
        elif t in (ast.Tuple, ast.List):
            for x in tgt.elts:
                self.delete(x, env)
        else:
            self.unsupported("del")

    def augassign(self, st, env):
        op = type(st.op)
        tgt = st.target
        if isinstance(tgt, ast.Name):
            cur = self.load_name(tgt.id, env)
            self.store_name(tgt.id, self.inplace(op, cur, self.eval(st.value, env)), env)
        elif isinstance(tgt, ast.Attribute):
            o = self.eval(tgt.value, env)
            cur = self.getattr(o, tgt.attr)
            self.setattr(o, tgt.attr, self.inplace(op, cur, self.eval(st.value, env)))
        elif isinstance(tgt, ast.Subscript):
            o = self.eval(tgt.value, env)
            k = self.eval(tgt.slice, env)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.inplace(op, cur, self.eval(st.value, env)))
        else:
            self.unsupported("augmented assignment target")

    def inplace(self, op, a, b):
        if isinstance(a, list) and op is ast.Add:
            a.extend(self.iterate(b))
            return a
        if isinstance(a, (set, dict)) and op is ast.BitOr and isinstance(b, (set, dict, frozenset)):
            a |= b
            return a
        if isinstance(a, set) and op in (ast.Sub, ast.BitAnd) and isinstance(b, (set, frozenset)):
            if op is ast.Sub:
                a -= b
            else:
                a &= b
            return a
        if isinstance(a, Model):
            f = getattr(a, 'inplace', None)
            if f is not None:
                r = f(self, op, b)
                if r is not NotImplemented:
                    return r
        elif isinstance(a, IObj):
            f = a.cls.lookup(f"__i{_dunder[op]}__")
            if f is not MISSING:
                r = self.call(Bound(f, a), [b])
                if r is not NotImplemented:
                    return r
        return self.binop(op, a, b)

    # ------------------------------------------------------------ expressions

    def eval(self, n, env):
        t = type(n)
        if t is ast.Constant:
            return n.value
        if t is ast.Name:
            v = env.vars.get(n.id, MISSING)
            return v if v is not MISSING else self.load_name(n.id, env)
        m = EVAL.get(t)
        if m is None:
            self.unsupported(f"expression {t.__name__}")
        return m(self, n, env)

    def ev_Constant(self, n, env):
        return n.value

    def ev_Name(self, n, env):
        return self.load_name(n.id, env)

    def ev_Attribute(self, n, env):
        o = self.eval(n.value, env)
        if self.stack:
            self.stack[-1].node = n
        return self.getattr(o, n.attr)

    def ev_Subscript(self, n, env):
        o = self.eval(n.value, env)
        k = self.eval(n.slice, env)
        if self.stack:
            self.stack[-1].node = n
        return self.getitem(o, k)

    def ev_Slice(self, n, env):
        f = lambda x: None if x is None else self.eval(x, env)
        return slice(f(n.lower), f(n.upper), f(n.step))

    def ev_Tuple(self, n, env):
        return tuple(self.elts(n.elts, env))

    def ev_List(self, n, env):
        return self.elts(n.elts, env)

    def ev_Set(self, n, env):
        return {self.key_(x) for x in self.elts(n.elts, env)}

    def elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, env)))
            else:
                out.append(self.eval(x, env))
        return out

    def ev_Dict(self, n, env):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                src = self.eval(v, env)
                for kk in self.mapping_keys(src):
                    d[kk] = self.getitem(src, kk)
            else:
                kk = self.key_(self.eval(k, env))
                d[kk] = self.eval(v, env)
        return d

    def mapping_keys(self, m):
        if isinstance(m, dict):
            return list(m)
        return list(self.iterate(self.call(self.getattr(m, 'keys'), [])))

    def ev_BinOp(self, n, env):
        a = self.eval(n.left, env)
        b = self.eval(n.right, env)
        if self.stack:
            self.stack[-1].node = n
        return self.binop(type(n.op), a, b)

    def ev_UnaryOp(self, n, env):
        v = self.eval(n.operand, env)
        t = type(n.op)
        if t is ast.Not:
            return not self.truth(v)
        if isinstance(v, IObj) and v.native is not None:
            v = v.native
        if isinstance(v, Model):
            return v.unary(self, t)
        if isinstance(v, IObj):
            f = v.cls.lookup({ast.USub: '__neg__', ast.UAdd: '__pos__', ast.Invert: '__invert__'}[t])
            if f is MISSING:
                self.throw('TypeError', 'bad operand type for unary')
            return self.call(Bound(f, v), [])
        try:
            return {ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}[t](v)
        except TypeError as e:
            self.throw('TypeError', str(e))

    def ev_BoolOp(self, n, env):
        v = None
        for x in n.values:
            v = self.eval(x, env)
            tv = self.truth(v)
            if isinstance(n.op, ast.And) and not tv:
                return v
            if isinstance(n.op, ast.Or) and tv:
                return v
        return v

    def ev_Compare(self, n, env):
        a = self.eval(n.left, env)
        for i, (op, r) in enumerate(zip(n.ops, n.comparators)):
            b = self.eval(r, env)
            if self.stack:
                self.stack[-1].node = n
            v = self.compare(type(op), a, b)
            if i == len(n.ops) - 1:
                return v
            if not self.truth(v):
                return v
            a = b

    def ev_IfExp(self, n, env):
        return self.eval(n.body if self.truth(self.eval(n.test, env)) else n.orelse, env)

    def ev_NamedExpr(self, n, env):
        v = self.eval(n.value, env)
        e = env
        while e.kind == 'comp':
            e = e.parent
        self.store_name(n.target.id, v, e)
        return v

    def ev_Lambda(self, n, env):
        return self.make_func(n, env, '<lambda>')

    def ev_Starred(self, n, env):
        self.unsupported("starred")

    def ev_JoinedStr(self, n, env):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(self.ev_FormattedValue(v, env))
        return SymStr.make(parts) if parts else ""

    def ev_FormattedValue(self, n, env):
        v = self.eval(n.value, env)
        spec = self.eval(n.format_spec, env) if n.format_spec is not None else ''
        if n.conversion == 114:
            v = self.repr_(v)
        elif n.conversion == 115:
            v = self.str_(v)
        return self.format_(v, spec)

    def format_(self, v, spec=''):
        if isinstance(v, (str, SymStr)) and not spec:
            return v
        if isinstance(v, PLAIN) and self.is_ground(v) and isinstance(spec, str):
            try:
                return format(v, spec)
            except (TypeError, ValueError) as e:
                self.throw(type(e).__name__, str(e))
        if isinstance(v, Model):
            r = v.fmt(self, spec)
            if r is not None:
                return r
        if isinstance(v, IObj):
            if not spec:
                return self.str_(v)
        return SymStr([('v', v, spec) if spec else v if not isinstance(v, (str, SymStr, tuple)) else ('v', v)])

    def is_ground(self, v):
        if isinstance(v, (tuple, list, set, frozenset)):
            return all(self.is_ground(x) for x in v)
        if isinstance(v, dict):
            return all(self.is_ground(x) for x in v) and all(self.is_ground(x) for x in v.values())
        return isinstance(v, PLAIN)

    def str_(self, v):
        if isinstance(v, (str, SymStr)):
            return v
        if isinstance(v, PLAIN) and self.is_ground(v):
            return str(v)
        if isinstance(v, Model):
            r = v.fmt(self, '')
            if r is not None:
                return r
        if isinstance(v, IObj):
            for d in ('__str__', '__repr__'):
                f = v.cls.lookup(d)
                if f is not MISSING and not isinstance(f, HostFn):
                    return self.call(Bound(f, v), [])
            if v.cls.issub(self.builtin_cls['BaseException']):
                a = v.d.get('args', ())
                return self.str_(a[0]) if len(a) == 1 else SymStr([('v', a)]) if a else ''
        return SymStr([v if not isinstance(v, tuple) else ('v', v)])

    def repr_(self, v):
        if isinstance(v, PLAIN) and self.is_ground(v):
            return repr(v)
        if isinstance(v, IObj):
            f = v.cls.lookup('__repr__')
            if f is not MISSING and not isinstance(f, HostFn):
                return self.call(Bound(f, v), [])
            if v.cls.issub(self.builtin_cls['BaseException']):
                a = v.d.get('args', ())
                return SymStr.make([v.cls.name + '('] + [x for i, q in enumerate(a) for x in ([', '] if i else []) + [self.repr_(q)]] + [')'])
        if isinstance(v, (list, tuple)):
            o, c = ('[', ']') if isinstance(v, list) else ('(', ',)' if len(v) == 1 else ')')
            return SymStr.make([o] + [x for i, q in enumerate(v) for x in ([', '] if i else []) + [self.repr_(q)]] + [c])
        return SymStr([('repr', v)])

    # comprehensions -------------------------------------------------------

    def comp_iter(self, gens, env, leaf):
        def rec(i, env):
            if i == len(gens):
                yield leaf(env)
                return
            g = gens[i]
            src = self.eval(g.iter, env) if i else first
            for x in self.iterate(src):
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Cut("step budget")
                self.assign(g.target, x, env)
                if all(self.truth(self.eval(c, env)) for c in g.ifs):
                    yield from rec(i + 1, env)
        first = self.eval(gens[0].iter, env)
        e = Env(env, env.glob, 'comp')
        return rec(0, e)

    def ev_ListComp(self, n, env):
        return list(self.comp_iter(n.generators, env, lambda e: self.eval(n.elt, e)))

    def ev_SetComp(self, n, env):
        return set(self.comp_iter(n.generators, env, lambda e: self.key_(self.eval(n.elt, e))))

    def ev_GeneratorExp(self, n, env):
        return IGen(self.comp_iter(n.generators, env, lambda e: self.eval(n.elt, e)), '<genexpr>')

    def ev_DictComp(self, n, env):
        return dict(self.comp_iter(n.generators, env, lambda e: (self.key_(self.eval(n.key, e)), self.eval(n.value, e))))

    # calls ------------------------------------------------------------------

    def ev_Call(self, n, env):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            s = self.zero_super(env)
            if s is not None:
                return s
        if isinstance(n.func, ast.Name) and n.func.id == 'locals' and not n.args:
            return dict(env.vars)
        f = self.eval(n.func, env)
        args = self.elts(n.args, env)
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                src = self.eval(k.value, env)
                for kk in self.mapping_keys(src):
                    if kk in kw:
                        self.throw('TypeError', f"multiple values for keyword argument '{kk}'")
                    if not isinstance(kk, str):
                        self.throw('TypeError', "keywords must be strings")
                    kw[kk] = self.getitem(src, kk)
            else:
                kw[k.arg] = self.eval(k.value, env)
        self.tick(n)
        r = self.call(f, args, kw)
        if self.stack:
            self.stack[-1].node = n
        return r

    def zero_super(self, env):
        e = env
        while e is not None and not (e.kind == 'func' and e.func.owner is not None):
            e = e.parent
        if e is None:
            return None
        return SuperV(e.func.owner, e.self0)

    def call(self, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, IFunc):
            return self.call_func(f, args, kw)
        if isinstance(f, Bound):
            if isinstance(f.func, IFunc):
                return self.call_func(f.func, [f.self, *args], kw)
            return self.call(f.func, [f.self, *args], kw)
        if isinstance(f, HostFn):
            try:
                return f.fn(self, *args, **kw)
            except TypeError as e:
                tb = e.__traceback__
                depth = 0
                while tb is not None:
                    tb = tb.tb_next
                    depth += 1
                if depth <= 1:          # arity mismatch of the modelled callable
                    self.throw('TypeError', f"{f.name}: {e}")
                raise
        if isinstance(f, IClass):
            if f.meta is not None and isinstance(f.meta.lookup('__call__'), IFunc):
                return self.call(f.meta.lookup('__call__'), [f, *args], kw)
            return self.instantiate(f, args, kw)
        if isinstance(f, PartialV):
            return self.call(f.f, f.args + list(args), {**f.kw, **kw})
        if isinstance(f, Model):
            return f.call(self, args, kw)
        if isinstance(f, IObj):
            c = f.cls.lookup('__call__')
            if c is MISSING and f.native is not None:
                return self.call(f.native, args, kw)
            if c is MISSING:
                self.throw('TypeError', f"'{f.cls.name}' object is not callable")
            return self.call(Bound(c, f), args, kw)
        if isinstance(f, StaticMethodV):
            return self.call(f.f, args, kw)
        if isinstance(f, PLAIN):
            self.throw('TypeError', f"'{type(f).__name__}' object is not callable")
        self.unsupported(f"call of {f!r}")

    def bind(self, f, args, kw):
        simple = f.info.simple
        if simple is not None and not kw and len(args) == len(simple):
            return dict(zip(simple, args))
        a = f.node.args
        vars = {}
        pos = a.posonlyargs + a.args
        nm = f.qualname
        if len(args) > len(pos) and not a.vararg:
            self.throw('TypeError', f"{nm}() takes {len(pos)} positional arguments but {len(args)} were given")
        for p, v in zip(pos, args):
            vars[p.arg] = v
        if a.vararg:
            vars[a.vararg.arg] = tuple(args[len(pos):])
        kw = dict(kw)
        extra = {}
        posonly = {p.arg for p in a.posonlyargs}
        names = {p.arg for p in a.args + a.kwonlyargs}
        for k, v in kw.items():
            if k in names:
                if k in vars:
                    self.throw('TypeError', f"{nm}() got multiple values for argument '{k}'")
                vars[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                self.throw('TypeError', f"{nm}() got an unexpected keyword argument '{k}'")
        if a.kwarg:
            vars[a.kwarg.arg] = extra
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if p.arg not in vars:
                j = i - (len(pos) - nd)
                if j < 0:
                    self.throw('TypeError', f"{nm}() missing required positional argument: '{p.arg}'")
                vars[p.arg] = f.defaults[j]
        for p in a.kwonlyargs:
            if p.arg not in vars:
                if p.arg not in f.kwdefaults:
                    self.throw('TypeError', f"{nm}() missing required keyword-only argument: '{p.arg}'")
                vars[p.arg] = f.kwdefaults[p.arg]
        return vars

    def call_func(self, f, args, kw):
        vars = self.bind(f, args, kw)
        env = Env(f.env, f.env.glob if f.env else self.modules[f.module].ns, 'func', f.info, f)
        env.vars = vars
        env.self0 = vars[f.info.first] if f.info.first is not None else None
        k = (f.module, f.qualname)
        self.visited.add(k)
        self.trail.pop(k, None)
        self.trail[k] = f.node.lineno
        if isinstance(f.node, ast.Lambda):
            self.push(f)
            try:
                return self.eval(f.node.body, env)
            finally:
                self.stack.pop()
        if f.info.is_gen:
            return IGen(self.gen_body(f, env), f.qualname)
        self.push(f)
        try:
            r = self.run_block(f.node.body, env)
        finally:
            self.stack.pop()
        if r is None:
            return None
        return r[1]

    def push(self, f):
        if len(self.stack) > self.max_depth:
            self.throw('RecursionError', 'maximum recursion depth exceeded')
        self.stack.append(Frame(f.qualname, f.node, f.module))

    def gen_body(self, f, env):
        """suspended frames leave the call stack"""
        g = self.exec_block(f.node.body, env)
        frame = Frame(f.qualname, f.node, f.module)
        send = None
        try:
            while True:
                if len(self.stack) > self.max_depth:
                    self.throw('RecursionError', 'maximum recursion depth exceeded')
                self.stack.append(frame)
                try:
                    v = g.send(send)
                except StopIteration as s:
                    return s.value[1] if s.value else None
                finally:
                    self.stack.remove(frame) if frame in self.stack else None
                while True:
                    try:
                        send = yield v
                        break
                    except PyEx as ex:      # thrown in by the caller: surfaces at the yield
                        self.stack.append(frame)
                        try:
                            v = g.throw(ex)
                        except StopIteration as s:
                            return s.value[1] if s.value else None
                        finally:
                            self.stack.remove(frame) if frame in self.stack else None
        except GeneratorExit:
            self.stack.append(frame)
            try:
                g.close()
            finally:
                self.stack.remove(frame)
            raise

    def instantiate(self, cls, args, kw):
        if cls is self.type_cls:
            if len(args) == 1:
                return self.class_of(args[0])
            return self.make_class(args[0], self.to_list(args[1]), dict(args[2]), self.stack[-1].module, dict(kw))
        new = cls.lookup('__new__')
        mem = cls.ns.get('__members__')
        if mem is not None and len(args) == 1:
            for o in mem.values():
                if o is args[0] or self.truth(self.compare(ast.Eq, o.d['value'], args[0])):
                    return o
            self.throw('ValueError', f"{args[0]!r} is not a valid {cls.name}")
        ab = self.abstract_of(cls)
        if ab:
            self.throw('TypeError', f"Can't instantiate abstract class {cls.name} with abstract method {ab[0]}")
        for c in cls.mro:
            if c.ctor is not None:
                if c is cls or (cls.lookup('__init__') is MISSING or isinstance(cls.lookup('__init__'), HostFn)):
                    if c is cls:
                        return c.ctor(self, cls, args, kw)
                    o = IObj(cls)
                    o.native = c.ctor(self, c, args, kw)
                    return o
                break
        if isinstance(new, (IFunc, StaticMethodV)):
            o = self.call(new, [cls, *args], kw)
            if not (isinstance(o, IObj) and o.cls.issub(cls)):
                return o
        else:
            o = IObj(cls)
        if cls.issub(self.builtin_cls['BaseException']):
            o.d['args'] = tuple(args)
        init = cls.lookup('__init__')
        if init is not MISSING:
            self.call(Bound(init, o), args, kw)
        elif (args or kw) and not isinstance(new, (IFunc, StaticMethodV)) and \
                not cls.issub(self.builtin_cls['BaseException']):
            self.throw('TypeError', f"{cls.name}() takes no arguments")
        return o

    def abstract_of(self, cls):
        if not any(b.name == 'ABC' and b.module == 'stub:stubs' or b.meta is not None and b.meta.name == 'ABCMeta' for b in cls.mro):
            return []
        r = cls.__dict__.get('abstract')
        if r is None:
            r = []
            for n in {n for b in cls.mro for n in b.ns}:
                v = cls.lookup(n)
                f = v.f if isinstance(v, (ClassMethodV, StaticMethodV)) else v.fget if isinstance(v, PropertyV) else v
                if isinstance(f, IFunc) and f.d.get('__isabstractmethod__') is True:
                    r.append(n)
            cls.abstract = sorted(r)
        return r

    # ------------------------------------------------------------ types

    def class_of(self, v):
        if isinstance(v, IObj):
            return v.cls
        if isinstance(v, IClass):
            return v.meta or self.type_cls
        if isinstance(v, Model):
            return v.cls(self)
        b = self.builtin_cls
        for t, name in ((bool, 'bool'), (int, 'int'), (float, 'float'), (complex, 'complex'), (str, 'str'),
                        (bytes, 'bytes'), (tuple, 'tuple'), (list, 'list'), (dict, 'dict'), (set, 'set'),
                        (frozenset, 'frozenset'), (range, 'range'), (slice, 'slice'), (type(None), 'NoneType')):
            if isinstance(v, t):
                return b[name]
        if isinstance(v, (IFunc, HostFn, Bound, PartialV)):
            return b['function']
        if isinstance(v, PropertyV):
            return b['property']
        if isinstance(v, ClassMethodV):
            return b['classmethod']
        if isinstance(v, StaticMethodV):
            return b['staticmethod']
        if isinstance(v, IGen):
            return b['generator']
        if isinstance(v, IModule):
            return b['module']
        if isinstance(v, _DICTVIEWS):
            return b['dictview']
        return self.object_cls

    def isinstance_(self, v, t):
        if isinstance(t, tuple):
            return any(self.isinstance_(v, x) for x in t)
        if isinstance(t, Model):
            c = self.models.as_class(self, t)
            if c is None:
                self.unsupported(f"isinstance against {t!r}")
            t = c
        if not isinstance(t, IClass):
            if t is None:
                return v is None
            self.throw('TypeError', 'isinstance() arg 2 must be a type')
        if t is self.object_cls:
            return True
        if isinstance(v, Model):
            r = v.isinstance(self, t)
            if r is not None:
                return r
        if t.check is not None:
            r = t.check(self, v)
            if r is not None:
                if r or not isinstance(v, IObj):
                    return r
        return self.class_of(v).issub(t)

    # ------------------------------------------------------------ attributes

    def getattr(self, o, name, default=MISSING):
        try:
            return self._getattr(o, name)
        except PyEx as ex:
            if default is not MISSING and ex.value.cls.issub(self.builtin_cls['AttributeError']):
                return default
            raise

    def _getattr(self, o, name):
        if isinstance(o, IObj):
            g = o.cls.lookup('__getattribute__')
            if g is not MISSING and isinstance(g, IFunc):
                return self.call_func(g, [o, name], {})
            return self.obj_getattr(o, name)
        if isinstance(o, IClass):
            return self.cls_getattr(o, name)
        if isinstance(o, IModule):
            if name in o.ns:
                return o.ns[name]
            if o.resolver is not None:
                v = o.resolver(self, name)
                if v is not None:
                    o.ns[name] = v
                    return v
            if name == '__name__':
                return o.name
            self.throw('AttributeError', f"module '{o.name}' has no attribute '{name}'")
        if isinstance(o, SuperV):
            return self.super_getattr(o, name)
        if isinstance(o, Model):
            if name == '__class__':
                return o.cls(self)
            return o.getattr(self, name)
        if isinstance(o, (IFunc, HostFn, PartialV)):
            if isinstance(o, IFunc) and name in o.d:
                return o.d[name]
            if name == '__name__':
                return o.name
            if name == '__qualname__':
                return o.qualname if isinstance(o, IFunc) else o.name
            if name == '__doc__':
                return o.info.doc if isinstance(o, IFunc) else None
            if name == '__module__':
                return o.module if isinstance(o, IFunc) else None
            if name == '__dict__' and isinstance(o, IFunc):
                return o.d
            if name == '__get__':
                return HostFn('__get__', lambda it, obj, cls=None: o if obj is None else Bound(o, obj))
            if isinstance(o, PartialV) and name in ('func', 'args', 'keywords'):
                return {'func': o.f, 'args': tuple(o.args), 'keywords': o.kw}[name]
            if name == '__wrapped__' or True:
                self.throw('AttributeError', f"function has no attribute '{name}'")
        if isinstance(o, Bound):
            if name == '__self__':
                return o.self
            if name == '__func__':
                return o.func
            return self._getattr(o.func, name)
        if isinstance(o, PropertyV):
            if name in ('fget', 'fset', 'fdel'):
                return getattr(o, name)
            if name == 'setter':
                return HostFn('setter', lambda it, f: PropertyV(o.fget, f, o.fdel))
            if name == 'getter':
                return HostFn('getter', lambda it, f: PropertyV(f, o.fset, o.fdel))
            if name == 'deleter':
                return HostFn('deleter', lambda it, f: PropertyV(o.fget, o.fset, f))
            if name == '__doc__':
                return self._getattr(o.fget, '__doc__')
        if isinstance(o, (ClassMethodV, StaticMethodV)) and name in ('__func__', '__wrapped__'):
            return o.f
        if isinstance(o, IGen):
            if name in ('close', 'send', '__next__', '__iter__', 'throw'):
                return HostFn(name, lambda it, *a: self.gen_method(o, name, a))
            self.throw('AttributeError', f"'generator' object has no attribute '{name}'")
        if name == '__class__':
            return self.class_of(o)
        return self.bm.host_getattr(self, o, name)

    def gen_method(self, g, name, a):
        if name == 'close':
            return g.close()
        if name == '__iter__':
            return g
        try:
            if name == '__next__':
                return next(g.gen)
            if name == 'send':
                return g.gen.send(a[0])
        except StopIteration as s:
            g.done = True
            self.throw('StopIteration', s.value)
        ex = a[1] if len(a) > 1 and a[1] is not None else a[0]
        if isinstance(ex, IClass):
            ex = self.instantiate(ex, [], {})
        try:
            return g.gen.throw(PyEx(ex, self.where()))
        except StopIteration as s:
            self.throw('StopIteration', s.value)

    def descr_get(self, v, obj, cls):
        """binding of class attribute v"""
        if isinstance(v, IFunc):
            return Bound(v, obj) if obj is not None else v
        if isinstance(v, HostFn):
            return Bound(v, obj) if obj is not None else v
        if isinstance(v, ClassMethodV):
            return Bound(v.f, cls)
        if isinstance(v, StaticMethodV):
            return v.f
        if isinstance(v, PropertyV):
            if obj is None:
                return v
            if v.fget is None:
                self.throw('AttributeError', 'unreadable attribute')
            if v.cached:
                key = getattr(v, 'name', v.fget.name)
                if key not in obj.d:
                    obj.d[key] = self.call(v.fget, [obj])
                return obj.d[key]
            return self.call(v.fget, [obj])
        if isinstance(v, PartialV) and v.method and obj is not None:
            return PartialV(Bound(v.f, obj), v.args, v.kw)
        if isinstance(v, IObj):
            g = v.cls.lookup('__get__')
            if g is not MISSING:
                return self.call(Bound(g, v), [obj, cls])
        return v

    def is_data_descr(self, v):
        if isinstance(v, PropertyV):
            return not v.cached
        return isinstance(v, IObj) and (v.cls.lookup('__set__') is not MISSING
                                        or v.cls.lookup('__delete__') is not MISSING)

    def obj_getattr(self, o, name):
        v = o.cls.lookup(name)
        if v is not MISSING and self.is_data_descr(v):
            return self.descr_get(v, o, o.cls)
        if name in o.d:
            return o.d[name]
        if v is not MISSING:
            return self.descr_get(v, o, o.cls)
        if name == '__class__':
            return o.cls
        if name == '__dict__':
            return o.d
        ga = o.cls.lookup('__getattr__')
        if o.native is not None:
            try:
                return self._getattr(o.native, name)
            except PyEx as ex:
                if ga is MISSING or ex.value.cls.name != 'AttributeError':
                    raise
        if ga is not MISSING:
            return self.call(Bound(ga, o), [name])
        if name == 'args' and o.cls.issub(self.builtin_cls['BaseException']):
            return o.d.get('args', ())
        if name == '__doc__':
            return None
        if name == '__annotations__':
            return {}
        self.throw('AttributeError', f"'{o.cls.name}' object has no attribute '{name}'")

    def cls_getattr(self, c, name):
        v = c.lookup(name)
        if v is not MISSING:
            return self.descr_get(v, None, c)
        if name in ('__name__', '__qualname__'):
            return c.name
        if name == '__mro__':
            return tuple(c.mro)
        if name == '__bases__':
            return tuple(c.bases)
        if name == '__dict__':
            return c.ns
        if name == '__class__':
            return self.type_cls
        if name == '__subclasses__':
            return HostFn(name, lambda it: list(c.subs))
        if name == '__module__':
            return c.module
        if name == '__doc__':
            return None
        if name == 'mro':
            return HostFn('mro', lambda it: list(c.mro))
        if c.meta is not None:
            v = c.meta.lookup(name)
            if v is not MISSING:
                return self.descr_get(v, c, c.meta)
        h = self.bm.class_attr(self, c, name)
        if h is not None:
            return h
        if c.meta is not None and c.meta.lookup('__getattr__') is not MISSING:
            return self.call(Bound(c.meta.lookup('__getattr__'), c), [name])
        self.throw('AttributeError', f"type object '{c.name}' has no attribute '{name}'")

    def super_getattr(self, s, name):
        o = s.obj
        cls = o if isinstance(o, IClass) else self.class_of(o)
        mro = cls.mro
        if isinstance(o, IClass) and s.start not in mro and o.meta is not None:
            cls = o.meta
            mro = cls.mro
            if name == '__call__':
                return HostFn(name, lambda it, *a, **k: it.instantiate(o, list(a), k))
        i = mro.index(s.start)
        for c in mro[i + 1:]:
            if name in c.ns:
                return self.descr_get(c.ns[name], None if isinstance(o, IClass) else o, cls)
            if c.ctor is not None and name == '__init__' and isinstance(o, IObj):
                def init(it, *a, c=c, **k):
                    o.native = c.ctor(it, c, list(a), k)
                return HostFn('__init__', init)
        if name == '__init_subclass__':
            return HostFn(name, lambda it, **k: None if not k else it.throw('TypeError', 'no keyword arguments'))
        if name == '__init__':
            if cls.issub(self.builtin_cls['BaseException']):
                return HostFn(name, lambda it, *a: o.d.__setitem__('args', a))
            def oinit(it, *a, **k):
                if a or k:
                    it.throw('TypeError', 'object.__init__() takes exactly one argument (the instance to initialize)')
            return HostFn(name, oinit)
        if name == '__new__':
            return HostFn(name, lambda it, c, *a, **k: IObj(c))
        h = self.object_method(o, name)
        if h is not None:
            return h
        self.throw('AttributeError', f"'super' object has no attribute '{name}'")

    def object_method(self, o, name):
        if name == '__setattr__':
            return HostFn(name, lambda it, n, v: it.obj_setattr(o, n, v))
        if name == '__getattribute__':
            return HostFn(name, lambda it, n: it.obj_getattr(o, n))
        if name == '__delattr__':
            return HostFn(name, lambda it, n: it.delattr(o, n, raw=True))
        if name == '__repr__' or name == '__str__':
            return HostFn(name, lambda it: SymStr([('repr', o)]))
        if name == '__hash__':
            return HostFn(name, lambda it: o.serial)
        if name == '__eq__':
            return HostFn(name, lambda it, x: True if x is o else NotImplemented)
        if name == '__del__':
            return None
        return None

    def setattr(self, o, name, v):
        if isinstance(o, IObj):
            sa = o.cls.lookup('__setattr__')
            if sa is not MISSING and (isinstance(sa, IFunc) or getattr(sa, 'user', False)):
                return self.call(Bound(sa, o), [name, v])
            return self.obj_setattr(o, name, v)
        if isinstance(o, IClass):
            o.ns[name] = v
            return
        if isinstance(o, IModule):
            o.ns[name] = v
            return
        if isinstance(o, Model):
            return o.setattr(self, name, v)
        if isinstance(o, IFunc):
            o.d[name] = v
            return
        self.throw('AttributeError', f"'{self.class_of(o).name}' object attribute '{name}' is read-only")

    def obj_setattr(self, o, name, v):
        d = o.cls.lookup(name)
        if isinstance(d, PropertyV) and not d.cached:
            if d.fset is None:
                self.throw('AttributeError', f"property '{name}' of '{o.cls.name}' object has no setter")
            self.call(d.fset, [o, v])
            return
        if isinstance(d, IObj):
            s = d.cls.lookup('__set__')
            if s is not MISSING:
                self.call(Bound(s, d), [o, v])
                return
        o.d[name] = v

    def delattr(self, o, name, raw=False):
        if isinstance(o, IObj):
            da = o.cls.lookup('__delattr__')
            if not raw and da is not MISSING and isinstance(da, IFunc):
                self.call(Bound(da, o), [name])
                return
            d = o.cls.lookup(name)
            if isinstance(d, IObj):
                s = d.cls.lookup('__delete__')
                if s is not MISSING:
                    self.call(Bound(s, d), [o])
                    return
            if isinstance(d, PropertyV) and d.fdel is not None:
                self.call(d.fdel, [o])
                return
            if name not in o.d:
                self.throw('AttributeError', name)
            del o.d[name]
            return
        if isinstance(o, IClass):
            if name not in o.ns:
                self.throw('AttributeError', name)
            del o.ns[name]
            return
        if isinstance(o, Model):
            return o.delattr(self, name)
        self.unsupported(f"del attribute of {o!r}")

    # ------------------------------------------------------------ items, iteration, truth

    def unnative(self, o):
        if isinstance(o, IObj) and o.native is not None:
            return o.native
        return o

    def key_(self, k):
        """members of str / int enumerations and instances of str subclasses are found as the plain value"""
        if isinstance(k, IObj) and isinstance(k.native, (str, int)) and not isinstance(k.cls.lookup('__hash__'), IFunc):
            return k.native
        return k

    def getitem(self, o, k):
        if isinstance(o, IObj):
            f = o.cls.lookup('__getitem__')
            if f is not MISSING:
                return self.call(Bound(f, o), [k])
            ms = o.cls.lookup('__missing__')
            if ms is not MISSING and isinstance(o.native, dict) and self.key_(k) not in o.native:
                return self.call(Bound(ms, o), [k])
            o = self.unnative(o)
        if isinstance(o, Model):
            return o.getitem(self, k)
        if isinstance(o, IClass):
            if k.__class__ is str and '__members__' in o.ns:
                if k not in o.ns['__members__']:
                    self.throw('KeyError', k)
                return o.ns['__members__'][k]
            if o.meta is not None and o.meta.lookup('__getitem__') is not MISSING:
                return self.call(Bound(o.meta.lookup('__getitem__'), o), [k])
            f = o.lookup('__class_getitem__')
            if isinstance(f, ClassMethodV):
                return self.call(Bound(f.f, o), [k])
            g = getattr(o, 'getitem', None)
            if g is not None:
                return g(self, k)
            return o
        if isinstance(o, (list, tuple, str, range, bytes)):
            if isinstance(k, Model):
                r = self.models.symbolic_index(self, o, k)
                return r
            if isinstance(k, IObj):
                f = k.cls.lookup('__index__')
                if f is not MISSING:
                    k = self.call(Bound(f, k), [])
            try:
                return o[k]
            except (IndexError, TypeError, ValueError) as e:
                self.throw(type(e).__name__, str(e))
        if isinstance(o, dict):
            k = self.key_(k)
            try:
                return o[k]
            except KeyError:
                m = getattr(o, 'sa_default', None)
                self.throw('KeyError', k)
            except TypeError as e:
                self.throw('TypeError', str(e))
        if o is None or isinstance(o, PLAIN) or isinstance(o, (IFunc, Bound, IGen)):
            self.throw('TypeError', f"'{self.class_of(o).name}' object is not subscriptable")
        self.unsupported(f"subscript of {o!r}")

    def setitem(self, o, k, v):
        if isinstance(o, IObj):
            f = o.cls.lookup('__setitem__')
            if f is not MISSING:
                self.call(Bound(f, o), [k, v])
                return
            o = self.unnative(o)
        if isinstance(o, Model):
            return o.setitem(self, k, v)
        if isinstance(o, (list, dict)):
            k = self.key_(k)
            try:
                o[k] = v
            except (IndexError, TypeError, ValueError) as e:
                self.throw(type(e).__name__, str(e))
            return
        self.throw('TypeError', f"'{self.class_of(o).name}' object does not support item assignment")

    def delitem(self, o, k):
        if isinstance(o, IObj):
            f = o.cls.lookup('__delitem__')
            if f is not MISSING:
                self.call(Bound(f, o), [k])
                return
        if isinstance(o, Model):
            return o.delitem(self, k)
        o, k = self.unnative(o), self.key_(k)
        try:
            del o[k]
        except (IndexError, TypeError, KeyError) as e:
            self.throw(type(e).__name__, *e.args)

    def iterate(self, v):
        """host iterator over an abstract iterable"""
        if isinstance(v, (list,)):
            return iter(v)
        if isinstance(v, dict):
            return self.dict_iter(v)
        if isinstance(v, (tuple, str, set, frozenset, range, bytes) + _DICTVIEWS):
            return iter(v)
        if isinstance(v, IGen):
            return v
        if isinstance(v, IObj):
            f = v.cls.lookup('__iter__')
            if f is not MISSING:
                r = self.call(Bound(f, v), [])
                nx = r.cls.lookup('__next__') if isinstance(r, IObj) else MISSING
                return self._next_iter(r, nx) if nx is not MISSING else self.iterate(r)
            if v.native is not None:
                return self.iterate(v.native)
            nx = v.cls.lookup('__next__')
            if nx is not MISSING:
                return self._next_iter(v, nx)
            if v.cls.lookup('__getitem__') is not MISSING:
                return self._getitem_iter(v)
            self.throw('TypeError', f"'{v.cls.name}' object is not iterable")
        if isinstance(v, Model):
            return iter(v.iter(self))
        if isinstance(v, IClass):
            m = v.ns.get('__members__')
            if m is not None:
                return iter(list(m.values()))
            if v.meta is not None and v.meta.lookup('__iter__') is not MISSING:
                return self.iterate(self.call(Bound(v.meta.lookup('__iter__'), v), []))
            self.throw('TypeError', f"'type' object is not iterable")
        if v is None or isinstance(v, (int, float, IFunc, Bound, IModule)):
            self.throw('TypeError', f"'{self.class_of(v).name}' object is not iterable")
        if hasattr(v, '__next__'):
            return v
        if hasattr(v, '__iter__'):
            return iter(v)
        self.unsupported(f"iteration over {v!r}")

    def dict_iter(self, d):
        try:
            for k in d:
                yield k
        except RuntimeError as e:
            self.throw('RuntimeError', str(e))

    def _next_iter(self, v, nx):
        while True:
            try:
                x = self.call(Bound(nx, v), [])
            except PyEx as ex:
                if ex.value.cls.name == 'StopIteration':
                    return
                raise
            yield x

    def _getitem_iter(self, v):
        i = 0
        while True:
            try:
                x = self.getitem(v, i)
            except PyEx as ex:
                if ex.value.cls.name == 'IndexError':
                    return
                raise
            yield x
            i += 1

    def to_list(self, v):
        return list(self.iterate(v))

    def truth(self, v):
        if v is None or isinstance(v, (bool, int, float, str, tuple, list, dict, set, frozenset, range, bytes,
                                       complex) + _DICTVIEWS):
            return bool(v)
        if isinstance(v, IObj):
            f = v.cls.lookup('__bool__')
            if f is not MISSING:
                return self.truth(self.call(Bound(f, v), []))
            f = v.cls.lookup('__len__')
            if f is not MISSING:
                return self.truth(self.call(Bound(f, v), []))
            return True
        if isinstance(v, Model):
            return v.truth(self)
        return True

    def length(self, v):
        if isinstance(v, IObj):
            f = v.cls.lookup('__len__')
            if f is not MISSING:
                return self.call(Bound(f, v), [])
            v = self.unnative(v)
        if isinstance(v, Model):
            return v.length(self)
        try:
            return len(v)
        except TypeError:
            self.throw('TypeError', f"object of type '{self.class_of(v).name}' has no len()")

    def contains(self, c, x):
        if isinstance(c, IObj):
            f = c.cls.lookup('__contains__')
            if f is not MISSING:
                return self.truth(self.call(Bound(f, c), [x]))
            return any(self.eq(x, y) for y in self.iterate(c))
        if isinstance(c, Model):
            return c.contains(self, x)
        if isinstance(c, (list, tuple)):
            return any(y is x or self.eq(x, y) for y in c)
        if isinstance(c, str) and not isinstance(x, str):
            if isinstance(x, SymStr):
                return self.decide(('strin', repr(x), c), [False, True])
            self.throw('TypeError', "'in <string>' requires string as left operand")
        if isinstance(c, IClass) and c.meta is None and '__members__' in c.ns:
            return any(m is x for m in c.ns['__members__'].values())
        if isinstance(c, (dict, set, frozenset)):
            x = self.key_(x)
        if isinstance(c, (IGen,)) or not hasattr(c, '__contains__'):
            return any(self.eq(x, y) for y in self.iterate(c))
        if isinstance(x, SymStr) and isinstance(c, (dict, set, frozenset) + _DICTVIEWS):
            if x in c:
                return True
            return any(self.eq(x, y) for y in list(c))
        try:
            return x in c
        except TypeError as e:
            self.throw('TypeError', str(e))

    def eq(self, a, b):
        return self.truth(self.compare(ast.Eq, a, b))

    # ------------------------------------------------------------ operators

    def binop(self, op, a, b):
        a, b = self._operand(a, op, b, False), self._operand(b, op, a, True)
        if isinstance(a, Model) or isinstance(b, Model):
            if isinstance(a, Model):
                r = a.binop(self, op, b, False)
                if r is not NotImplemented:
                    return r
            if isinstance(b, Model):
                r = b.binop(self, op, a, True)
                if r is not NotImplemented:
                    return r
        if isinstance(a, IObj):
            f = a.cls.lookup(f"__{_dunder[op]}__")
            if f is not MISSING:
                r = self.call(Bound(f, a), [b])
                if r is not NotImplemented:
                    return r
        if isinstance(b, IObj):
            f = b.cls.lookup(f"__r{_dunder[op]}__")
            if f is not MISSING:
                r = self.call(Bound(f, b), [a])
                if r is not NotImplemented:
                    return r
        if isinstance(a, PLAIN + _DICTVIEWS) and isinstance(b, PLAIN + _DICTVIEWS):
            try:
                if op is ast.Pow and isinstance(a, int) and isinstance(b, int) and abs(b) > 10000:
                    self.unsupported("huge power")
                return _binops[op](a, b)
            except (TypeError, ValueError, ZeroDivisionError, OverflowError) as e:
                self.throw(type(e).__name__, str(e))
        if op is ast.BitOr and (isinstance(a, IClass) or isinstance(b, IClass)):
            return tuple(x for y in (a, b) for x in (y if isinstance(y, tuple) else (y,)))
        if isinstance(a, Model) and getattr(a, 'strict', True) is False or isinstance(b, Model) and getattr(b, 'strict', True) is False:
            self.unsupported(f"{op.__name__} on {a!r}, {b!r}")
        self.throw('TypeError', f"unsupported operand type(s) for {op.__name__}: "
                                f"'{self.class_of(a).name}' and '{self.class_of(b).name}'")

    def _operand(self, x, op, other, swapped):
        if isinstance(x, IObj) and x.native is not None:
            if x.cls.lookup(f"__{'r' if swapped else ''}{_dunder[op]}__") is MISSING:
                return x.native
        return x

    def compare(self, op, a, b):
        if op is ast.Is:
            return self.is_(a, b)
        if op is ast.IsNot:
            return not self.is_(a, b)
        if op is ast.In:
            return self.contains(b, a)
        if op is ast.NotIn:
            return not self.contains(b, a)
        if op in (ast.Eq, ast.NotEq) and a is b and not isinstance(a, (float, Model)):
            if not (isinstance(a, IObj) and isinstance(a.cls.lookup(_cmpd[op]), IFunc)):
                return op is ast.Eq
        if isinstance(a, IObj):
            f = a.cls.lookup(_cmpd[op])
            if f is not MISSING and (not isinstance(f, HostFn) or f.user):
                r = self.call(Bound(f, a), [b])
                if r is not NotImplemented:
                    return r
            elif op is ast.NotEq and (isinstance(a.cls.lookup('__eq__'), IFunc) or getattr(a.cls.lookup('__eq__'), 'user', False)):
                r = self.call(Bound(a.cls.lookup('__eq__'), a), [b])
                if r is not NotImplemented:
                    return not self.truth(r)
        if isinstance(b, IObj):
            f = b.cls.lookup(_cmpd[_cmpswap[op]])
            if f is not MISSING and (not isinstance(f, HostFn) or f.user):
                r = self.call(Bound(f, b), [a])
                if r is not NotImplemented:
                    return r
        a, b = self.unnative(a), self.unnative(b)
        if isinstance(a, Model):
            r = a.compare(self, op, b, False)
            if r is not NotImplemented:
                return r
        if isinstance(b, Model):
            r = b.compare(self, _cmpswap[op], a, True)
            if r is not NotImplemented:
                return r
        if op in (ast.Eq, ast.NotEq) and isinstance(a, (tuple, list)) and type(a) is type(b) and not self.is_ground((a, b)):
            r = len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
            return r if op is ast.Eq else not r
        if isinstance(a, PLAIN + _DICTVIEWS) and isinstance(b, PLAIN + _DICTVIEWS):
            try:
                return _cmps[op](a, b)
            except TypeError as e:
                self.throw('TypeError', str(e))
        if op is ast.Eq:
            return a is b or (isinstance(a, Bound) and a == b)
        if op is ast.NotEq:
            return not (a is b or (isinstance(a, Bound) and a == b))
        self.throw('TypeError', f"'{op.__name__}' not supported between instances of "
                                f"'{self.class_of(a).name}' and '{self.class_of(b).name}'")

    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, (bool, type(None))) or isinstance(b, (bool, type(None))):
            return False
        if isinstance(a, (int, str)) and isinstance(b, (int, str)):
            return type(a) is type(b) and a == b
        if isinstance(a, Model) and isinstance(b, Model):
            same = getattr(a, 'same', None)
            return bool(same and same(b))
        return False

    # ------------------------------------------------------------ match

    def match(self, p, v, env, b):
        t = type(p)
        if t is ast.MatchAs:
            if p.pattern is not None and not self.match(p.pattern, v, env, b):
                return False
            if p.name:
                b[p.name] = v
            return True
        if t is ast.MatchValue:
            return self.eq(v, self.eval(p.value, env))
        if t is ast.MatchSingleton:
            return v is p.value
        if t is ast.MatchOr:
            return any(self.match(q, v, env, b) for q in p.patterns)
        if t is ast.MatchSequence:
            if not isinstance(v, (list, tuple)):
                return False
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if not star:
                return len(v) == len(p.patterns) and all(self.match(q, x, env, b) for q, x in zip(p.patterns, v))
            i = star[0]
            after = len(p.patterns) - i - 1
            if len(v) < len(p.patterns) - 1:
                return False
            if not all(self.match(q, x, env, b) for q, x in zip(p.patterns[:i], v[:i])):
                return False
            if p.patterns[i].name:
                b[p.patterns[i].name] = list(v[i:len(v) - after])
            return all(self.match(q, x, env, b) for q, x in zip(p.patterns[i + 1:], v[len(v) - after:]))
        if t is ast.MatchClass:
            c = self.eval(p.cls, env)
            if not self.isinstance_(v, c):
                return False
            if p.patterns:
                if isinstance(c, IClass) and c.name in ('int', 'float', 'str', 'bool', 'list', 'tuple', 'dict') and len(p.patterns) == 1:
                    return self.match(p.patterns[0], v, env, b)
                ma = c.lookup('__match_args__')
                if ma is MISSING:
                    self.throw('TypeError', 'positional sub-patterns not accepted')
                for nme, q in zip(ma, p.patterns):
                    if not self.match(q, self.getattr(v, nme), env, b):
                        return False
            for a, q in zip(p.kwd_attrs, p.kwd_patterns):
                x = self.getattr(v, a, None)
                if x is None and self.getattr(v, a, MISSING if False else None) is None:
                    return False
                if not self.match(q, x, env, b):
                    return False
            return True
        if t is ast.MatchMapping:
            if not (isinstance(v, dict) or isinstance(v, IObj)):
                return False
            used = []
            for k, q in zip(p.keys, p.patterns):
                kk = self.eval(k, env)
                if not self.contains(v, kk):
                    return False
                used.append(kk)
                if not self.match(q, self.getitem(v, kk), env, b):
                    return False
            if p.rest:
                b[p.rest] = {k: self.getitem(v, k) for k in self.mapping_keys(v) if k not in used}
            return True
        self.unsupported(f"pattern {t.__name__}")

    # ------------------------------------------------------------ partitions

    def snapshot(self):
        """remember the module-lifetime state (class tables, registries, module variables)"""
        self._snap = []
        seen = set()
        stack = [m.ns for m in self.modules.values()] + [self.stub_ns] + [m.ns for m in self.ext.values()]
        while stack:
            o = stack.pop()
            if id(o) in seen:
                continue
            seen.add(id(o))
            if isinstance(o, dict):
                self._snap.append((o, dict(o)))
                stack.extend(x for x in o.values())
            elif isinstance(o, list):
                self._snap.append((o, list(o)))
                stack.extend(o)
            elif isinstance(o, set):
                self._snap.append((o, set(o)))
            elif isinstance(o, tuple):
                stack.extend(o)
            elif isinstance(o, IClass):
                stack.append(o.ns)
                stack.append(o.subs)
                stack.extend(o.bases)
            elif isinstance(o, IObj):
                stack.append(o.d)
                if isinstance(o.native, Model):
                    stack.append(o.native)
            elif isinstance(o, IFunc):
                stack.append(o.d)
                stack.extend(o.defaults)
                e = o.env
                while e is not None:
                    stack.append(e.vars)
                    e = e.parent
            elif isinstance(o, Model):
                d = getattr(o, '__dict__', None)
                if d is not None:
                    stack.append(d)
            elif isinstance(o, (ClassMethodV, StaticMethodV)):
                stack.append(o.f)
            elif isinstance(o, PropertyV):
                stack.extend(x for x in (o.fget, o.fset) if x)
            elif isinstance(o, Bound):
                stack.append(o.func)
                stack.append(o.self)
        self._serial0 = IObj._n
        self._names = {}
        return len(self._snap)

    def restore(self):
        for o, c in self._snap:
            if type(o) is list:
                o[:] = c
            else:
                o.clear()
                o.update(c)

    def changed(self):
        """module-lifetime containers that differ from the snapshot"""
        out = []
        for o, c in self._snap:
            if isinstance(o, dict):
                for k in set(o) | set(c):
                    if o.get(k, MISSING) is not c.get(k, MISSING):
                        out.append((o, k, c.get(k, MISSING), o.get(k, MISSING)))
            elif isinstance(o, list):
                if len(o) != len(c) or any(x is not y for x, y in zip(o, c)):
                    out.append((o, None, c, list(o)))
            elif o != c:
                out.append((o, None, c, set(o)))
        return out

    def reset_run(self):
        global CUR
        CUR = self
        self.restore()
        self.stack = []
        self.trail = {}
        self.steps = 0
        self.taken = []
        self.memo_dec = {}
        self.events = []
        self.returns = []
        self.handling = []
        self.ext_hook = None
        self.assume = None
        IObj._n = self._serial0
        self.models.reset_run(self)

    def explore(self, fn, max_paths=512):
        """run `fn(interp)` in every partition; yields Outcome objects"""
        todo = [[]]
        n = 0
        outs = []
        while todo:
            prefix = todo.pop()
            self.reset_run()
            self.oracle = prefix
            out = Outcome()
            try:
                out.value = fn(self)
            except PyEx as ex:
                out.exc = ex
            except Cut as ex:
                out.cut = str(ex)
            out.taken = list(self.taken)
            out.events = self.events
            out.returns = list(self.returns)
            outs.append(out)
            n += 1
            if n >= max_paths and todo:
                raise Unsupported(f"more than {max_paths} partitions")
            for i in range(len(self.taken) - 1, len(prefix) - 1, -1):
                k, options, c = self.taken[i]
                base = [t[2] for t in self.taken[:i]]
                for alt in range(len(options) - 1, c, -1):
                    todo.append(base + [alt])
        return outs

    def run1(self, fn):
        """run `fn` in a single partition (decisions default to their first option)"""
        outs = self.explore(fn)
        if len(outs) != 1:
            raise Unsupported(f"expected a single partition, got {len(outs)}: {[t[0] for t in outs[0].taken]}")
        o = outs[0]
        if o.exc is not None:
            raise o.exc
        if o.cut:
            raise Unsupported(o.cut)
        return o.value


EVAL = {t: getattr(Interp, 'ev_' + t.__name__) for t in vars(ast).values()
        if isinstance(t, type) and hasattr(Interp, 'ev_' + t.__name__)}


def _plain():
    """execution of statements outside generators: the exec_* methods with every `yield from self.exec_x(...)`
    replaced by the call itself (a yield cannot occur there)"""
    names = ('exec_block', 'exec_stmt', 'exec_for', 'exec_try', 'exec_with')

    class Strip(ast.NodeTransformer):
        def visit_YieldFrom(self, n):
            self.generic_visit(n)
            if isinstance(n.value, ast.Call) and getattr(n.value.func, 'attr', '').startswith('plain_'):
                return n.value
            return ast.copy_location(ast.Call(ast.Attribute(ast.Name('self', ast.Load()), 'stray', ast.Load()), [], []), n)

        def visit_Yield(self, n):
            return ast.copy_location(ast.Call(ast.Attribute(ast.Name('self', ast.Load()), 'stray', ast.Load()), [], []), n)

        def visit_Attribute(self, n):
            self.generic_visit(n)
            if n.attr in names:
                n.attr = 'plain_' + n.attr[5:]
            return n

        def visit_FunctionDef(self, n):
            n.name = 'plain_' + n.name[5:]
            self.generic_visit(n)
            return n

    tree = ast.parse(HPath(__file__).read_text())
    cls = next(n for n in tree.body if isinstance(n, ast.ClassDef) and n.name == 'Interp')
    fns = [Strip().visit(n) for n in cls.body if isinstance(n, ast.FunctionDef) and n.name in names]
    mod = ast.fix_missing_locations(ast.Module(fns, []))
    ns = {}
    exec(compile(mod, __file__, 'exec'), globals(), ns)
    for k, f in ns.items():
        setattr(Interp, k, f)


_plain()


class Outcome:
    def __init__(self):
        self.value = None
        self.exc = None
        self.cut = None
        self.taken = []
        self.events = []
        self.returns = []

    @property
    def excname(self):
        return self.exc.value.cls.name if self.exc else None

    def decisions(self):
        return {k: opts[c] for k, opts, c in self.taken}
