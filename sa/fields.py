"""Abstract values for coefficient functions, numbers, parameters, spaces, grid functions and forms.

The operator semantics (dimension checks, `vec*vec` is an inner product, zero propagation, which operations
raise) were calibrated against the NGSolve release the package is built with; see DESIGN.md.
"""
from __future__ import annotations
import ast
import decimal
import re
from fractions import Fraction
import math

from . import alg
from .alg import E, num, sym, add, sub, mul, div, power, fn, ifpos, ZERO, ONE, tofrac
from .interp import (IClass, IObj, HostFn, Model, SymStr, PyEx, Unsupported, MISSING, IGen, Bound, IFunc)


def prod(xs):
    r = 1
    for x in xs:
        r *= x
    return r


# ---------------------------------------------------------------- scalar sign facts

def sign(e, memo=None):
    """'+' (>0), '-' (<0), '0', 'p' (>=0), 'n' (<=0) or None"""
    if memo is None:
        memo = {}
    if e in memo:
        return memo[e]
    op, a = e.op, e.args
    r = None
    if op == 'num':
        r = '+' if a[0] > 0 else '-' if a[0] < 0 else '0'
    elif op == 'sym':
        d, lo, hi = alg.domain(a[0])
        if lo is not None and lo >= 0:
            r = '+'
        elif d == 'pos':
            r = '+'
    elif op == 'add':
        s, t = sign(a[0], memo), sign(a[1], memo)
        if s == '0':
            r = t
        elif t == '0':
            r = s
        elif s and t and s in '+p' and t in '+p':
            r = '+' if '+' in (s, t) else 'p'
        elif s and t and s in '-n' and t in '-n':
            r = '-' if '-' in (s, t) else 'n'
    elif op in ('mul', 'div'):
        s, t = sign(a[0], memo), sign(a[1], memo)
        if a[0] is a[1]:
            r = '+' if s in ('+', '-') else 'p'
        elif s == '0' or (t == '0' and op == 'mul'):
            r = '0'
        elif s and t:
            n = (s in '-n') != (t in '-n')
            strict = s in '+-' and t in '+-'
            r = ('-' if strict else 'n') if n else ('+' if strict else 'p')
    elif op == 'pow':
        s = sign(a[0], memo)
        if s == '+':
            r = '+'
        elif alg.isnum(a[1]) and a[1].args[0].denominator == 1 and a[1].args[0] % 2 == 0:
            r = '+' if s == '-' else 'p'
        elif alg.isnum(a[1]) and a[1].args[0].denominator == 2:
            r = 'p'
    elif op == 'fn':
        if a[0] == 'exp':
            r = '+'
    elif op == 'ifpos':
        s, t = sign(a[1], memo), sign(a[2], memo)
        if s == t:
            r = s
    memo[e] = r
    return r


def simplify_const(e):
    """exact rational value of a constant expression, or None"""
    if e.op == 'num':
        return e.args[0]
    if alg.syms(e):
        return None
    if e.op == 'pow' and alg.isnum(e.args[0]) and alg.isnum(e.args[1]) and e.args[1].args[0] == Fraction(1, 2):
        v = e.args[0].args[0]
        if v >= 0:
            n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator:
                return Fraction(n, d)
    try:
        return alg.Cell(alg.Point(1)).const(e)
    except Exception:
        return None


def mknum(e, integer=False):
    v = e.args[0] if e.op == 'num' else simplify_const(e)
    if v is not None:
        if integer and v.denominator == 1:
            return int(v)
        f = float(v)
        if tofrac(f) == v:
            return f
        e = num(v)
    return Num(e, integer)


class Num(Model):
    """python number with an abstract value"""
    tname = 'float'
    strict = True
    exact = False       # a float known to be a whole number

    def __init__(self, e, integer=False):
        self.e = e
        self.integer = integer

    def __repr__(self):
        return f"num({alg.brief(self.e, 80)})"

    def __hash__(self):
        return hash(self.e)

    def __eq__(self, o):
        return isinstance(o, Num) and o.e is self.e

    def cls(self, it):
        return it.builtin_cls['int' if self.integer else 'float']

    def isinstance(self, it, cls):
        if cls.name == 'Number' or cls.name in ('Real', 'Complex'):
            return True
        if cls is it.builtin_cls['float']:
            return not self.integer
        if cls is it.builtin_cls['int'] or cls.name == 'Integral':
            return self.integer
        return False

    def same(self, o):
        return isinstance(o, Num) and o.e is self.e

    def binop(self, it, op, other, swapped):
        if isinstance(other, Cf) or isinstance(other, Model) and not isinstance(other, Num):
            return NotImplemented
        o = to_e(other)
        if o is None:
            return NotImplemented
        a, b = (o, self.e) if swapped else (self.e, o)
        oi = isinstance(other, int) or isinstance(other, Num) and other.integer
        integer = self.integer and oi
        if op is ast.Add:
            r = add(a, b)
        elif op is ast.Sub:
            r = sub(a, b)
        elif op is ast.Mult:
            r = mul(a, b)
        elif op is ast.Div:
            if sign(b) == '0':
                it.throw('ZeroDivisionError', 'division by zero')
            r, integer = div(a, b), False
        elif op is ast.Pow:
            r = power(a, b)
        elif op is ast.FloorDiv:
            r = whole_part(it, 'floor', div(a, b), not integer).e
        elif op is ast.Mod:
            r = sub(a, mul(b, whole_part(it, 'floor', div(a, b), not integer).e))
        else:
            return NotImplemented
        return mknum(r, integer)

    def unary(self, it, op):
        if op is ast.USub:
            return mknum(alg.neg(self.e), self.integer)
        if op is ast.UAdd:
            return self
        it.throw('TypeError', 'bad operand type for unary')

    def abs(self, it):
        s = sign(self.e)
        if s and s in '+p0':
            return self
        if s and s in '-n':
            return mknum(alg.neg(self.e), self.integer)
        return mknum(ifpos(self.e, self.e, alg.neg(self.e)), self.integer)

    def round(self, it, n):
        if n is None:
            if self.integer:
                return self
            r = integral_parts(self.e)
            if r and r[1] == Fraction(1, 2):
                it.events.append(('float.whole', 'round', self.e))
            elif r:
                return Num(add(r[0], num(1 if r[1] > Fraction(1, 2) else 0)), True)
            return Num(fn('round', self.e), True)
        return Num(fn('round', self.e, to_e(n) or sym(f"digit:{n!r}")), self.integer)

    def to_int(self, it):
        if self.integer:
            return self
        v = simplify_const(self.e)
        if v is not None:
            return int(v)
        if not alg.syms(self.e):
            try:
                return int(alg.evalf(self.e, {}))
            except alg.AlgError:
                pass
        return whole_part(it, 'trunc', self.e, not self.exact)

    def to_float(self, it):
        return Num(self.e, False) if self.integer else self

    def truth(self, it):
        return not it.truth(self.compare(it, ast.Eq, 0, False))

    def compare(self, it, op, other, swapped):
        if isinstance(other, Cf):
            return op is ast.NotEq if op in (ast.Eq, ast.NotEq) else NotImplemented
        o = to_e(other)
        if o is None:
            if op in (ast.Eq, ast.NotEq):
                return op is ast.NotEq
            return NotImplemented
        return compare_e(it, op, self.e, o)

    def fmt(self, it, spec):
        return SymStr([('v', self, spec)])

    def getattr(self, it, name):
        if name == 'real':
            return self
        if name == 'imag':
            return 0
        if name == 'is_integer':
            return HostFn(name, lambda it: True if self.integer else it.decide(('isint', self.e.id), [False, True]))
        return super().getattr(it, name)


def integral(e):
    """e as an integer combination of integer symbols, where it is one"""
    r = integral_parts(e)
    return r[0] if r and r[1] == 0 else None


def integral_parts(e):
    """(integer combination of integer symbols, fraction in [0, 1)) which e is the sum of, where it is"""
    xs = [s for s in sorted(alg.syms(e)) if s in INTEGERS]
    if not xs:
        return None
    zero = {sym(s): num(0) for s in xs}
    try:
        cell = alg.Cell(alg.Point('int'))
        c0 = cell.const(alg.subst(e, zero))
        if c0 is None:
            return None
        c0 = alg.tofrac(c0)
        whole = c0.numerator // c0.denominator
        r = num(whole)
        for s in xs:
            k = cell.const(sub(alg.subst(e, {**zero, sym(s): num(1)}), num(c0)))
            if k is None or alg.tofrac(k).denominator != 1:
                return None
            r = add(r, mul(num(alg.tofrac(k)), sym(s)))
        return (r, c0 - whole) if alg.prove_equal(e, add(r, num(c0 - whole))).ok else None
    except Exception:
        return None


def whole_part(it, how, e, inexact=True):
    """trunc, floor or ceil of a number; the result for a floating point value which is a whole number only up to
    rounding is recorded as an event"""
    r = integral_parts(e)
    if r is None:
        return Num(fn(how, e), True)
    w, frac = r
    if frac == 0 and inexact:
        it.events.append(('float.whole', how, e))
    if frac and (how == 'ceil' or how == 'trunc' and sign(e) in ('-', 'n')):
        w = add(w, num(1))
    return Num(w, True)


INTEGERS = set()    # names of symbols standing for integers
SIGNS = {}       # decision key -> the expression whose sign it decides


def compare_e(it, op, a, b):
    """value of a relation between abstract scalars; split when the domain leaves it open"""
    d = sub(a, b)
    v = simplify_const(d)
    if v is None and alg.syms(d):
        try:
            v = alg.Cell(alg.Point(1)).const(d)
        except Exception:
            v = None
    if v is not None:
        s = '+' if v > 0 else '-' if v < 0 else '0'
    else:
        s = sign(d) or _flip(sign(sub(b, a))) or const_sign(d) or poly_sign(d)
        if s is None:
            f = getattr(it, 'facts', None)
            if f:
                s = f(d)
    res = {ast.Gt: {'+': True, '-': False, '0': False, 'n': False},
           ast.GtE: {'+': True, '-': False, '0': True, 'p': True},
           ast.Lt: {'+': False, '-': True, '0': False, 'p': False},
           ast.LtE: {'+': False, '-': True, '0': True, 'n': True},
           ast.Eq: {'+': False, '-': False, '0': True},
           ast.NotEq: {'+': True, '-': True, '0': False}}[op]
    if s in res:
        return res[s]
    # canonical key: sign of d
    if op in (ast.Eq, ast.NotEq):
        key = ('sgn0', alg.show(d))
        SIGNS[key] = d
        r = it.decide(key, [False, True])
        return r if op is ast.Eq else not r
    if op in (ast.Gt, ast.LtE):
        neg = op is ast.LtE
    else:
        d, neg = sub(b, a), op is ast.GtE
    k = ('pos', alg.show(d))
    SIGNS[k] = d
    r = it.decide(k, [True, False])
    return (not r) if neg else r


def const_sign(d):
    """sign of a constant with roots that is far enough from zero to be told apart, or None"""
    if alg.syms(d):
        return None
    with decimal.localcontext() as ctx:
        ctx.prec = 80
        def ev(e):
            op, a = e.op, e.args
            if op == 'num':
                return decimal.Decimal(a[0].numerator) / a[0].denominator
            if op == 'pow' and alg.isnum(a[1]):
                q = a[1].args[0]
                b = ev(a[0])
                if q.denominator == 2 and b >= 0:
                    return b.sqrt() ** q.numerator
                if q.denominator == 1 and b != 0:
                    return b ** q.numerator
                raise ValueError
            x, y = ev(a[0]), ev(a[1])
            if op == 'add':
                return x + y
            if op == 'mul':
                return x * y
            if op == 'div' and y != 0:
                return x / y
            raise ValueError
        try:
            v = ev(d)
        except (ValueError, TypeError, IndexError, AttributeError, decimal.DecimalException):
            return None
    if abs(v) < decimal.Decimal('1e-40'):
        return None
    return '+' if v > 0 else '-'


def poly_sign(d):
    """sign of a rational function whose expanded numerator and denominators have coefficients of one sign
    in positive symbols"""
    if alg.has_piecewise(d):
        return None
    try:
        cell = alg.Cell(alg.Point('sign'))
        r = cell.nf(d)
    except Exception:
        return None

    def of(p):
        s = None
        for m, c in p.items():
            for g, k in m:
                e = cell.gens.get(g)
                if e is None or sign(e) != '+':
                    if k.denominator != 1 or k % 2 or e is None:
                        return None
            t = '+' if c > 0 else '-'
            if s not in (None, t):
                return None
            s = t
        return s
    s = of(r.n)
    if s is None:
        return None
    for q, k in r.d.values():
        t = of(q)
        if t is None:
            return None
        if t == '-' and k % 2:
            s = _flip(s)
    # even powers of signed symbols may vanish
    return s if all(sign(e) == '+' for e in cell.gens.values()) else {'+': 'p', '-': 'n'}[s]


def _flip(s):
    return {'+': '-', '-': '+', 'p': 'n', 'n': 'p', '0': '0', None: None}[s]


def to_e(v):
    if isinstance(v, IObj):
        v = v.native
    if isinstance(v, Num):
        return v.e
    if isinstance(v, bool) or isinstance(v, (int, float)):
        try:
            return num(tofrac(v))
        except alg.AlgError:
            return sym(repr(v))
    return None


# ---------------------------------------------------------------- coefficient functions

class Cf(Model):
    tname = 'ngsolve.fem.CoefficientFunction'

    def __init__(self, e, dims=(), zero=False):
        self.e = tuple(e)
        self.dims = tuple(dims)
        assert len(self.e) == prod(self.dims), (len(self.e), self.dims)
        self.zero = zero

    def __repr__(self):
        s = ", ".join(alg.brief(x, 60) for x in self.e[:3]) + (", ..." if len(self.e) > 3 else "")
        return f"CF{list(self.dims)}({s})"

    def cls(self, it):
        return it.models_cls['CF']

    def isinstance(self, it, cls):
        return self.cls(it).issub(cls)

    def same(self, o):
        return self is o

    @property
    def scalar(self):
        return not self.dims

    def entries(self):
        return self.e

    def fmt(self, it, spec):
        if self.zero:
            return 'ZeroCoefficientFunction'
        return SymStr([('cf', self)]) if False else f"coef expression {id(self) % 9973}"

    def getattr(self, it, name):
        if name == 'dims':
            return self.dims
        if name == 'dim':
            return len(self.e)
        if name == 'shape':
            return self.dims
        if name == 'is_complex':
            return False
        if name == 'real':
            return self
        if name == 'imag':
            return Cf([ZERO] * len(self.e), self.dims, True)
        if name == 'ExtendDimension':
            def extend(it, dims, pos=None, stride=None):
                dims = tuple(int_const(it, d) for d in it.iterate(dims))
                if stride is not None or len(dims) != len(self.dims):
                    it.unsupported('ExtendDimension')
                pos = tuple(int_const(it, d) for d in it.iterate(pos)) if pos is not None else (0,) * len(dims)
                if any(o + n > m for o, n, m in zip(pos, self.dims, dims)):
                    it.throw(it.models_cls['NgException'], 'ExtendDimension: out of range')
                es = [ZERO] * prod(dims)
                for i, x in enumerate(self.e):
                    j, r = 0, i
                    ix = []
                    for n in reversed(self.dims):
                        ix.insert(0, r % n)
                        r //= n
                    for k, o, m in zip(ix, pos, dims):
                        j = j * m + k + o
                    es[j] = x
                return Cf(es, dims, self.zero)
            return HostFn('ExtendDimension', extend)
        if name in ('trans', 'TensorTranspose'):
            if len(self.dims) != 2:
                it.throw(it.models_cls['NgException'], 'Transpose of non-matrix called')
            n, m = self.dims
            return Cf([self.e[j * m + i] for i in range(m) for j in range(n)], (m, n), self.zero)
        if name == 'Diff':
            def diff(it, var, direction=None):
                v = cf_of(it, var)
                if len(v.e) != 1 or v.e[0].op != 'sym':
                    it.unsupported('Diff with respect to a compound expression')
                r = [alg.diff(x, v.e[0]) for x in self.e]
                if direction is not None:
                    d = cf_of(it, direction).e[0]
                    r = [mul(x, d) for x in r]
                return Cf(r, self.dims, all(x is ZERO for x in r))
            return HostFn('Diff', diff)
        if name == 'Compile':
            return HostFn('Compile', lambda it, *a, **k: self)
        if name == 'Reshape':
            def reshape(it, dims):
                d = tuple(it.iterate(dims)) if not isinstance(dims, int) else (dims,)
                if prod(d) != len(self.e):
                    it.throw(it.models_cls['NgException'], 'Reshape: dims do not fit')
                return Cf(self.e, d, self.zero)
            return HostFn('Reshape', reshape)
        if name == 'Other':
            return HostFn('Other', lambda it, bnd=None: Cf([other_side(x) for x in self.e], self.dims))
        if name in ('MakeVariable', 'Freeze'):
            return HostFn(name, lambda it: self)
        return super().getattr(it, name)

    def setattr(self, it, name, v):
        self.__dict__.setdefault('attrs', {})[name] = v

    def getitem(self, it, k):
        k = tuple(int_const(it, x) for x in k) if isinstance(k, tuple) else int_const(it, k)
        if isinstance(k, int):
            if k < 0 or k >= len(self.e):
                it.throw('IndexError', '')
            return Cf([self.e[k]], (), self.zero)
        ks = k if isinstance(k, tuple) else (k,)
        ks = list(ks)
        if Ellipsis in ks:
            i = ks.index(Ellipsis)
            ks[i:i + 1] = [slice(None)] * (len(self.dims) - len(ks) + 1)
        if isinstance(k, slice) and len(self.dims) != 1:
            it.throw('IndexError', '')
        if len(ks) != len(self.dims):
            it.throw(it.models_cls['NgException'], "Too few indices or slices. Maybe use an ellipse '...'")
        idx = []
        outd = []
        for n, s in zip(self.dims, ks):
            if isinstance(s, slice):
                r = list(range(*s.indices(n)))
                outd.append(len(r))
                idx.append(r)
            else:
                if s < 0 or s >= n:
                    it.throw('IndexError', '')
                idx.append([s])
        out = [()]
        for r in idx:
            out = [t + (i,) for t in out for i in r]
        stride = []
        p = 1
        for n in reversed(self.dims):
            stride.insert(0, p)
            p *= n
        return Cf([self.e[sum(i * s for i, s in zip(t, stride))] for t in out], outd, self.zero)

    def iter(self, it):
        for i in range(len(self.e)):
            yield Cf([self.e[i]], (), self.zero)

    def length(self, it):
        it.throw('TypeError', "object of type 'ngsolve.fem.CoefficientFunction' has no len()")

    def call(self, it, args, kw):
        it.events.append(('cfcall', self, args))
        pt = sym('pt' + ''.join(repr(a.args) if isinstance(a, MeshPoint) else repr(a) for a in args))
        if self.scalar:
            return Num(fn('at', self.e[0], pt))
        return tuple(Num(fn('at', x, pt)) for x in self.e)

    def unary(self, it, op):
        if op is ast.USub:
            return Cf([alg.neg(x) for x in self.e], self.dims, self.zero)
        if op is ast.UAdd:
            it.throw('TypeError', 'bad operand type for unary +')
        it.throw('TypeError', 'bad operand type for unary')

    def binop(self, it, op, other, swapped):
        if isinstance(other, (DiffSym,)):
            if op is ast.Mult:
                return Integrals([(ONE, self, other)])
            return NotImplemented
        if isinstance(other, Model) and not isinstance(other, (Cf, Num)):
            return NotImplemented
        isnumber = not isinstance(other, Cf)
        if isnumber:
            if isinstance(other, bool) or not (isinstance(other, (int, float, Num))):
                if isinstance(other, bool):
                    other = int(other)
                elif isinstance(other, tuple) and other and op in (ast.Add, ast.Sub, ast.Mult, ast.Div):
                    # a tuple converts implicitly
                    return self.binop(it, op, cf_of(it, other), swapped)
                else:
                    return NotImplemented
            o = Cf([to_e(other)], ())
        else:
            o = other
        a, b = (o, self) if swapped else (self, o)
        az = a.zero
        bz = b.zero
        bad = lambda: it.throw(it.models_cls['NgException'],
                               f"Dimensions don't match, op = {op.__name__} dims1 = {a.dims}, dims2 = {b.dims}")
        if op in (ast.Add, ast.Sub):
            if a.dims != b.dims:
                bad()
            f = add if op is ast.Add else sub
            return Cf([f(x, y) for x, y in zip(a.e, b.e)], a.dims, az and bz)
        if op is ast.Mult:
            z = az or bz or (isnumber and to_e(other) is ZERO)
            return mult(it, a, b, z, bad)
        if op is ast.Div:
            if not b.scalar:
                if a.dims != b.dims:
                    bad()
                return Cf([div(x, y) for x, y in zip(a.e, b.e)], a.dims, az)
            if alg.isnum(b.e[0], 0):
                if isnumber:
                    it.throw('ZeroDivisionError', 'float division by zero')
                return Cf([fn('nan')] * len(a.e), a.dims)
            return Cf([div(x, b.e[0]) for x in a.e], a.dims, az)
        if op is ast.Pow:
            if not a.scalar and b.scalar and alg.isnum(b.e[0], 2) and isnumber:
                return mult(it, a, a, az, bad)
            if not a.scalar or not b.scalar:
                bad()
            return Cf([power(a.e[0], b.e[0])], (), az)
        return NotImplemented

    def compare(self, it, op, other, swapped):
        if op is ast.Eq:
            return self is other
        if op is ast.NotEq:
            return self is not other
        it.throw('TypeError', f"'{op.__name__}' not supported between instances of CoefficientFunction")


def int_const(it, x):
    if isinstance(x, Num):
        v = simplify_const(x.e)
        if v is not None and v.denominator == 1:
            return int(v)
        it.unsupported(f"symbolic index {x!r}")
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, float):
        it.throw('TypeError', 'index must be an integer')
    if isinstance(x, (int, slice)) or x is Ellipsis:
        return x
    it.throw('TypeError', f'invalid index {x!r}')


def dot(xs, ys):
    r = ZERO
    for x, y in zip(xs, ys):
        r = add(r, mul(x, y))
    return r


def mult(it, a, b, z, bad):
    if a.scalar:
        return Cf([mul(a.e[0], y) for y in b.e], b.dims, z)
    if b.scalar:
        return Cf([mul(x, b.e[0]) for x in a.e], a.dims, z)
    if len(a.dims) == 1 and len(b.dims) == 1:
        if a.dims != b.dims:
            bad()
        return Cf([dot(a.e, b.e)], (), z)
    if len(a.dims) == 2 and len(b.dims) == 1:
        n, m = a.dims
        if m != b.dims[0]:
            bad()
        return Cf([dot(a.e[i * m:(i + 1) * m], b.e) for i in range(n)], (n,), z)
    if len(a.dims) == 2 and len(b.dims) == 2:
        n, m = a.dims
        m2, k = b.dims
        if m != m2:
            it.throw(it.models_cls['NgException'], f"Matrix dimensions don't fit: {a.dims}, {b.dims}")
        return Cf([dot([a.e[i * m + l] for l in range(m)], [b.e[l * k + j] for l in range(m)])
                   for i in range(n) for j in range(k)], (n, k), z)
    bad()


def other_side(e):
    return alg.transform(e, lambda s: alg.declare('other:' + s.args[0], *alg.domain(s.args[0]))
                         if s.op == 'sym' and not s.args[0].startswith('param') else s)


def cf_of(it, v, dims=None):
    """ngs.CF(v)"""
    if isinstance(v, IObj) and v.native is not None:
        v = v.native
    if isinstance(v, Cf):
        if dims is not None:
            return reshape(it, v.e, dims, v.zero)
        return v
    if isinstance(v, (int, float, Num)):
        e = to_e(v)
        if dims is not None:
            return reshape(it, [e], dims, e is ZERO)
        return Cf([e], (), e is ZERO)
    if isinstance(v, list) and dims is None:
        # one function per domain
        it.unsupported('CoefficientFunction from a list')
    if isinstance(v, (tuple, list)) or isinstance(v, IGen):
        es = []
        parts = [cf_of(it, x) for x in v]
        for p in parts:
            es.extend(p.e)
        zero = all(p.zero for p in parts)
        if dims is not None:
            return reshape(it, es, dims, zero)
        if len(parts) == 1 and parts[0].scalar:
            return Cf(es, (), zero)
        return Cf(es, (len(es),), zero)
    if isinstance(v, (str, SymStr)):
        it.throw('ValueError', f'Cannot make CoefficientFunction from {v!r}')
    if isinstance(v, dict):
        it.unsupported('CoefficientFunction from a dictionary')
    it.throw('TypeError', f"Cannot make CoefficientFunction from {v!r}")


def reshape(it, es, dims, zero):
    dims = tuple(int_const(it, d) for d in it.iterate(dims)) if not isinstance(dims, int) else (dims,)
    if prod(dims) != len(es):
        it.throw(it.models_cls['NgException'], 'dims does not fit to dimension of CoefficientFunction')
    return Cf(es, dims, zero)


class Param(Cf):
    """ngs.Parameter: a live scalar; `val` is its current value"""
    tname = 'Parameter'
    serial = 0

    def __init__(self, val, n):
        self.name = f"param:{n}"
        alg.declare(self.name, 'real')
        super().__init__([sym(self.name)], ())
        self.val = val

    def __repr__(self):
        return f"Parameter({self.val!r})"

    def cls(self, it):
        return it.models_cls['Parameter']

    def getattr(self, it, name):
        if name == 'Get':
            return HostFn('Get', lambda it: self.val)
        if name == 'Set':
            def set_(it, v):
                v = it.unnative(v)
                if not isinstance(v, (int, float, Num)):
                    it.throw('TypeError', f"Set(): incompatible function arguments: {v!r}")
                self.val = as_float(v)
                it.events.append(('param.set', self, self.val))
            return HostFn('Set', set_)
        return super().getattr(it, name)


def as_float(v):
    if isinstance(v, Num):
        return Num(v.e, False)
    return float(v)


class Gf(Cf):
    """GridFunction"""
    tname = 'GridFunction'

    def __init__(self, it, space, name=None, prefix=None, comp=None):
        self.space = space
        self.name = name
        n = it.names_next('gf') if prefix is None else None
        self.prefix = prefix or f"gf{n}"
        es, dims = field_symbols(self.prefix, space)
        super().__init__(es, dims)
        self.vec = Vec(self.prefix, VExpr.atom(self.prefix + '.0'))
        self.components_ = None
        self.parent = comp
        it.events.append(('gf.new', self))

    def __repr__(self):
        return f"GridFunction({self.prefix} in {self.space!r})"

    def cls(self, it):
        return it.models_cls['GridFunction']

    def getattr(self, it, name):
        if name == 'space':
            return self.space
        if name == 'vec':
            return self.vec
        if name == 'name':
            return self.name
        if name == 'dim':
            return len(self.e)
        if name == 'components':
            if self.components_ is None:
                comps = self.space.components or []
                self.components_ = tuple(Gf(it, s, self.name, f"{self.prefix}.{i}", self)
                                         for i, s in enumerate(comps))
            return self.components_
        if name == 'Set':
            def set_(it, cf, VOL_or_BND=None, definedon=None, **k):
                c = cf_of(it, cf)
                if len(c.e) != len(self.e):
                    it.throw(it.models_cls['NgException'], 'GridFunction.Set: dimension mismatch')
                it.events.append(('gf.set', self, c, definedon, k))
                self.vec.value = VExpr.atom(f"{self.prefix}.set{it.names_next('set')}")
            return HostFn('Set', set_)
        if name in ('Save', 'Load'):
            return HostFn(name, lambda it, *a, **k: ext_call(it, 'gf.' + name.lower(), self, a, k))
        if name == 'Update':
            return HostFn(name, lambda it: it.events.append(('gf.update', self)))
        return super().getattr(it, name)


class Proxy(Cf):
    tname = 'ProxyFunction'

    def __init__(self, prefix, space, es=None, dims=None):
        self.space = space
        self.prefix = prefix
        if es is None:
            es, dims = field_symbols(prefix, space)
        super().__init__(es, dims)

    def cls(self, it):
        return it.models_cls['ProxyFunction']

    def getattr(self, it, name):
        if name == 'space':
            return self.space
        return super().getattr(it, name)


def field_symbols(prefix, space):
    n, dims = space.valdim()
    if n is None:
        return [sym(prefix)], ()
    if not dims:
        return [alg.declare(prefix)], ()
    return [alg.declare(f"{prefix}[{i}]") for i in range(n)], dims


class Space(Model):
    tname = 'FESpace'

    def __init__(self, kind, mesh, flags=None, base=None, components=None, power=None):
        self.kind = kind
        self.mesh = mesh
        self.flags = dict(flags or {})
        self.base = base
        self.components = components
        self.power = power
        self.orders = []        # SetOrder calls
        self.updated = True
        self.history = []

    def __repr__(self):
        if self.kind == 'product':
            return "(" + " x ".join(repr(c) for c in self.components) + ")"
        if self.kind == 'power':
            return f"{self.base!r}**{self.power}"
        if self.base is not None:
            return f"{self.kind}({self.base!r})"
        return f"{self.kind}(order={self.flags.get('order')})"

    def root(self):
        s = self
        while s.base is not None:
            s = s.base
        return s

    def cls(self, it):
        return it.models_cls.get({'product': 'ProductSpace', 'power': 'ProductSpace'}.get(self.kind, self.kind))

    def valdim(self):
        """(number of components, dims) of its functions"""
        if self.kind in ('compress', 'periodic', 'discontinuous'):
            return self.base.valdim()
        if self.kind == 'power':
            n, d = self.base.valdim()
            if d:
                return self.power * n, (self.power, n)
            return self.power * (n or 1), (self.power * (n or 1),)
        if self.kind == 'product':
            n = sum((c.valdim()[0] or 1) for c in self.components)
            return n, (n,)
        if self.kind in ('VectorL2', 'VectorH1', 'HDiv', 'HCurl', 'VectorFacetFESpace'):
            return self.mesh.dim, (self.mesh.dim,)
        d = self.flags.get('dim', 1)
        if isinstance(d, int) and d > 1:
            return d, (d,)
        return 1, ()

    def binop(self, it, op, other, swapped):
        if op is ast.Mult and isinstance(other, Space):
            a, b = (other, self) if swapped else (self, other)
            ca = a.components if a.kind == 'product' else [a]
            return Space('product', a.mesh, components=[*ca, b])
        if op is ast.Pow and isinstance(other, int) and not swapped:
            return Space('power', self.mesh, base=self, power=other, components=[self] * other)
        return NotImplemented

    def getattr(self, it, name):
        if name in ('TrialFunction', 'TestFunction', 'TnT'):
            def mk(it, which):
                if not self.root().updated:
                    it.events.append(('fes.stale', self, 'trial and test functions'))
                tag = {'TrialFunction': 'u', 'TestFunction': 'v'}[which]
                if self.kind == 'product':
                    return [Proxy(f"{tag}{i}", c) for i, c in enumerate(self.components)]
                return Proxy(tag, self)
            if name == 'TnT':
                return HostFn(name, lambda it: (mk(it, 'TrialFunction'), mk(it, 'TestFunction')))
            return HostFn(name, lambda it: mk(it, name))
        if name == 'components':
            return tuple(self.components or ())
        if name == 'mesh':
            return self.mesh
        if name == 'globalorder':
            r = self.root()
            return r.flags.get('order', 1)
        if name == 'flags':
            return {k: v for k, v in self.flags.items() if k != 'order_policy'}
        if name == 'dim':
            return self.valdim()[0] or 1
        if name == 'ndof':
            return it.models.fresh_int('ndof', pos=True)
        if name == 'SetOrder':
            def so(it, node, order):
                self.orders.append((node, order))
                self.updated = False
                it.events.append(('fes.setorder', self, node, order))
            return HostFn(name, so)
        if name in ('UpdateDofTables', 'Update', 'FinalizeUpdate'):
            def up(it):
                self.updated = True
                it.events.append(('fes.update', self))
            return HostFn(name, up)
        if name == 'GetDofs':
            def dofs(it, r):
                if not self.root().updated:
                    it.events.append(('fes.stale', self, 'dofs of a region'))
                return Bits(('dofs', self, r.desc() if isinstance(r, Region) else repr(r)))
            return HostFn(name, dofs)
        if name == 'FreeDofs':
            return HostFn(name, lambda it, c=False: Bits(('freedofs', self, c)))
        if name == 'Order':
            return HostFn(name, lambda it, *a: it.models.fresh_int('order', pos=True))
        if name == 'type':
            return self.kind
        return super().getattr(it, name)

    def setattr(self, it, name, v):
        self.__dict__[name] = v


class Bits(Model):
    """BitArray as an expression"""
    tname = 'BitArray'

    def __init__(self, t):
        self.t = t
        self.writes = []

    def __repr__(self):
        return f"BitArray{self.t!r}"

    def cls(self, it):
        return it.models_cls['BitArray']

    def unary(self, it, op):
        if op is ast.Invert:
            return Bits(('not', self.snap()))
        it.throw('TypeError', 'bad operand')

    def snap(self):
        return (self.t, tuple(self.writes)) if self.writes else self.t

    def binop(self, it, op, other, swapped):
        if isinstance(other, Bits) and op in (ast.BitOr, ast.BitAnd, ast.BitXor):
            return Bits((op.__name__, self.snap(), other.snap()))
        return NotImplemented

    def inplace(self, it, op, other):
        if isinstance(other, Bits):
            self.t = (op.__name__, self.snap(), other.snap())
            self.writes = []
            return self
        return NotImplemented

    def setitem(self, it, k, v):
        k = (('slice',) + tuple(repr_idx(x) for x in (k.start, k.stop, k.step))) if isinstance(k, slice) else repr_idx(k)
        self.writes.append((k, v))

    def getattr(self, it, name):
        if name == 'Set':
            return HostFn(name, lambda it, i=None: self.writes.append(('all' if i is None else i, True)))
        if name == 'Clear':
            return HostFn(name, lambda it, i=None: self.writes.append(('all' if i is None else i, False)))
        return super().getattr(it, name)


def repr_idx(x):
    return x if isinstance(x, (int, type(None), str)) else repr(x)


# ---------------------------------------------------------------- integrals & forms

class DiffSym(Model):
    tname = 'DifferentialSymbol'

    def __init__(self, vb, opts=None):
        self.vb = vb
        self.opts = dict(opts or {})

    def __repr__(self):
        return f"d{'x' if self.vb == 'VOL' else 's'}({self.opts})"

    def cls(self, it):
        return it.models_cls['DifferentialSymbol']

    def call(self, it, args, kw):
        o = dict(self.opts)
        names = ['definedon']
        for n, v in zip(names, args):
            o[n] = v
        for k, v in kw.items():
            if k not in ('definedon', 'element_boundary', 'element_vb', 'skeleton', 'bonus_intorder',
                         'intrules', 'deformation', 'definedonelements'):
                it.throw('TypeError', f"unexpected keyword '{k}' for DifferentialSymbol")
            o[k] = v
        return DiffSym(self.vb, o)

    def getattr(self, it, name):
        return super().getattr(it, name)

    def region(self):
        """(kind, pattern) the integral ranges over"""
        d = self.opts.get('definedon')
        eb = it_truth(self.opts.get('element_boundary')) or it_vb(self.opts.get('element_vb')) == 'BND'
        pat = None
        if isinstance(d, Region):
            pat = d.pattern
            vb = d.vb
        elif isinstance(d, str):
            pat, vb = d, self.vb
        elif d is None:
            vb = self.vb
        else:
            pat, vb = repr(d), self.vb
        return (self.vb, 'element_boundary' if eb else 'skeleton' if it_truth(self.opts.get('skeleton')) else '', pat)

    def binop(self, it, op, other, swapped):
        if op is ast.Mult and not isinstance(other, Cf):
            c = to_e(other)
            if c is not None:
                return Integrals([(ONE, Cf([c], ()), self)])
        return NotImplemented


def it_truth(v):
    return bool(v)


def it_vb(v):
    return getattr(v, 'name', v)


class Integrals(Model):
    tname = 'SumOfIntegrals'

    def __init__(self, terms):
        self.terms = list(terms)       # (coef, Cf, DiffSym)
        self.compiled = None

    def __repr__(self):
        return f"SumOfIntegrals({len(self.terms)})"

    def cls(self, it):
        return it.models_cls['SumOfIntegrals']

    def binop(self, it, op, other, swapped):
        if isinstance(other, Integrals) and op in (ast.Add, ast.Sub):
            a, b = (other, self) if swapped else (self, other)
            bt = b.terms if op is ast.Add else [(alg.neg(c), f, d) for c, f, d in b.terms]
            return Integrals(a.terms + bt)
        e = to_e(other)
        if e is not None and op is ast.Mult:
            return Integrals([(mul(e, c), f, d) for c, f, d in self.terms])
        if isinstance(other, Param) and op is ast.Mult:
            return Integrals([(mul(other.e[0], c), f, d) for c, f, d in self.terms])
        if other == 0 and op is ast.Add and isinstance(other, int):
            return self
        return NotImplemented

    def unary(self, it, op):
        if op is ast.USub:
            return Integrals([(alg.neg(c), f, d) for c, f, d in self.terms])
        return self

    def getattr(self, it, name):
        if name == 'Compile':
            def comp(it, realcompile=False, wait=False, keep_files=False, **k):
                r = Integrals(self.terms)
                r.compiled = (realcompile, wait, keep_files)
                r.origin = getattr(self, 'origin', self)
                return r
            return HostFn(name, comp)
        if name == 'Diff':
            it.unsupported('SumOfIntegrals.Diff')
        return super().getattr(it, name)

    def collect(self):
        """{(vb, part, pattern): E} summed scalar integrands"""
        out = {}
        for c, f, d in self.terms:
            k = d.region()
            out[k] = add(out.get(k, ZERO), mul(c, f.e[0]))
        return out


class VExpr:
    """formal linear combination of (operator word, vector atom)"""

    def __init__(self, t):
        self.t = {k: v for k, v in t.items() if v is not ZERO}

    @staticmethod
    def atom(name):
        return VExpr({((), name): ONE})

    def scale(self, e):
        return VExpr({k: mul(e, v) for k, v in self.t.items()})

    def plus(self, o, s=ONE):
        r = dict(self.t)
        for k, v in o.t.items():
            r[k] = add(r.get(k, ZERO), mul(s, v))
        return VExpr(r)

    def apply(self, word):
        return VExpr({(tuple(word) + k[0], k[1]): v for k, v in self.t.items()})

    def key(self):
        return tuple(sorted((k[0], str(k[1]), alg.show(v)) for k, v in self.t.items()))

    def __repr__(self):
        return " + ".join(f"{alg.show(v)}*{'.'.join(map(str, k[0]))}{'.' if k[0] else ''}{k[1]}"
                          for k, v in self.t.items()) or '0'


class Vec(Model):
    tname = 'BaseVector'

    def __init__(self, name, value, parent=None):
        self.name = name
        self.value = value
        self.parts = []          # (selected dofs or 'all', value) in order of writing

    def __repr__(self):
        return f"vec<{self.name}>={self.value!r}"

    def cls(self, it):
        return it.models_cls['BaseVector']

    def getattr(self, it, name):
        if name == 'data':
            return self
        if name == 'CreateVector':
            def cv(it, copy=False):
                n = it.names_next('vec')
                return Vec(f"tmp{n}", self.value if copy else VExpr.atom(f"uninit{n}"))
            return HostFn(name, cv)
        if name == 'Copy':
            return HostFn(name, lambda it: Vec('copy', self.value))
        if name in ('size', 'local_vec'):
            return self if name == 'local_vec' else it.models.fresh_int('vsize', pos=True)
        if name == 'FV':
            return HostFn(name, lambda it: self)
        if name == 'NumPy':
            return HostFn(name, lambda it: self)
        if name == 'SetZero':
            return HostFn(name, lambda it: self.write(it, VExpr({})))
        if name in ('Norm', 'InnerProduct'):
            return HostFn(name, lambda it, *a: vec_inner(it, self, a[0] if a else self))
        return super().getattr(it, name)

    def write(self, it, v):
        self.value = v
        self.parts = [('all', v)]
        it.events.append(('vec.write', self, v))

    def setattr(self, it, name, v):
        if name == 'data':
            e = vexpr(it, v)
            if e is None:
                it.throw('TypeError', f"cannot assign {v!r} to vector data")
            if v is self and getattr(self, '_just', False):
                return
            self.write(it, e)
            return
        raise Unsupported(f"vector attribute {name}")

    def inplace(self, it, op, other):
        e = vexpr(it, other)
        if e is not None and op in (ast.Add, ast.Sub):
            self.write(it, self.value.plus(e, ONE if op is ast.Add else num(-1)))
            return self
        c = to_e(other)
        if c is not None and op in (ast.Mult, ast.Div):
            self.write(it, self.value.scale(c if op is ast.Mult else div(ONE, c)))
            return self
        return NotImplemented

    def setitem(self, it, k, v):
        if isinstance(k, slice) and k == slice(None):
            e = vexpr(it, v)
            if e is None and to_e(v) is not None:
                e = VExpr({((), 'ones'): to_e(v)}) if to_e(v) is not ZERO else VExpr({})
            self.write(it, e)
            return
        c = to_e(v)
        if isinstance(k, Bits) and c is not None:
            self.parts = self.parts + [(k.snap(), VExpr({((), 'ones'): c}))]
            it.events.append(('vec.write_at', self, k, c))
            return
        it.unsupported('partial vector write')

    def binop(self, it, op, other, swapped):
        return vbinop(it, VTemp(self.value), op, other, swapped)

    def unary(self, it, op):
        return VTemp(self.value.scale(num(-1)))


class VTemp(Model):
    tname = 'DynamicVectorExpression'

    def __init__(self, value):
        self.value = value

    def binop(self, it, op, other, swapped):
        return vbinop(it, self, op, other, swapped)

    def unary(self, it, op):
        return VTemp(self.value.scale(num(-1)))

    def getattr(self, it, name):
        if name == 'Evaluate':
            return HostFn(name, lambda it: Vec('tmp', self.value))
        return super().getattr(it, name)


def vexpr(it, v):
    if isinstance(v, (Vec, VTemp)):
        return v.value
    if isinstance(v, Gf):
        return None
    return None


def vbinop(it, a, op, other, swapped):
    o = vexpr(it, other)
    if o is not None and op in (ast.Add, ast.Sub):
        x, y = (o, a.value) if swapped else (a.value, o)
        return VTemp(x.plus(y, ONE if op is ast.Add else num(-1)))
    c = to_e(other)
    if isinstance(other, Param):
        c = to_e(other.val)
    if c is not None and op is ast.Mult:
        return VTemp(a.value.scale(c))
    if c is not None and op is ast.Div and not swapped:
        return VTemp(a.value.scale(div(ONE, c)))
    return NotImplemented


def vec_inner(it, a, b):
    x, y = vexpr(it, a), vexpr(it, b)
    it.events.append(('vec.inner', a, b))
    script = getattr(it, 'inner_script', None)
    if script is not None:
        return script(x, y)
    name = f"<{x!r},{y!r}>"
    alg.declare(name)
    return Num(sym(name))


class Mat(Model):
    tname = 'BaseMatrix'

    def __init__(self, word):
        self.word = tuple(word)

    def __repr__(self):
        return f"Mat{self.word}"

    def getattr(self, it, name):
        if name == 'Inverse':
            def inv(it, freedofs=None, inverse=None):
                it.events.append(('mat.inverse', self, freedofs, inverse))
                f = freedofs.t if isinstance(freedofs, Bits) else freedofs
                return Mat((('inv', self.word, repr(f)),))
            return HostFn(name, inv)
        if name in ('T', 'trans'):
            return Mat((('T', self.word),))
        if name in ('height', 'width'):
            return it.models.fresh_int(name, pos=True)
        return super().getattr(it, name)

    def binop(self, it, op, other, swapped):
        if op is ast.Mult and not swapped:
            v = vexpr(it, other)
            if v is not None:
                return VTemp(v.apply(self.word))
            if isinstance(other, Mat):
                return Mat(self.word + other.word)
        if op in (ast.Add, ast.Sub) and isinstance(other, Mat):
            a, b = (other, self) if swapped else (self, other)
            return Mat(((op.__name__, a.word, b.word),))
        return NotImplemented


class Form(Model):
    """BilinearForm / LinearForm"""

    def __init__(self, kind, space, opts, n):
        self.kind = kind
        self.tname = kind
        self.space = space
        self.opts = opts
        self.terms = []
        self.n = n
        self.vecm = Vec(f"{kind}{n}.vec", VExpr({}) if kind == 'LinearForm' else VExpr({}))
        self.linearized_at = None

    def __repr__(self):
        return f"{self.kind}#{self.n}"

    def cls(self, it):
        return it.models_cls[self.kind]

    def inplace(self, it, op, other):
        if op is ast.Add and isinstance(other, Integrals):
            self.terms.append(other)
            it.events.append(('form.add', self, other))
            return self
        it.throw('TypeError', f"unsupported operand for {self.kind} +=: {other!r}")

    def getattr(self, it, name):
        bl = self.kind == 'BilinearForm'
        if name == 'condense' and bl:
            return self.opts.get('condense', False)
        if name == 'space':
            return self.space
        if name == 'Assemble':
            def asm(it):
                it.events.append(('form.assemble', self))
                if not bl:
                    self.vecm.value = VExpr.atom(f"{self!r}.f")
                return self
            return HostFn(name, asm)
        if name == 'vec' and not bl:
            return self.vecm
        if bl and name == 'mat':
            return Mat(((repr(self), 'mat', self.linearized_at),))
        if bl and name in ('harmonic_extension', 'harmonic_extension_trans', 'inner_solve', 'inner_matrix'):
            return Mat(((name, self.linearized_at),))
        if bl and name == 'Apply':
            def ap(it, x, y):
                if not isinstance(x, Vec) or not isinstance(y, Vec):
                    it.throw('TypeError', 'Apply() arguments')
                y.write(it, VExpr.atom(f"A({x.value!r})"))
                it.events.append(('blf.apply', self, x, y))
            return HostFn(name, ap)
        if bl and name == 'AssembleLinearization':
            def al(it, x, *a, **k):
                self.linearized_at = repr(x.value)
                it.events.append(('blf.linearize', self, x))
            return HostFn(name, al)
        return super().getattr(it, name)


class Region(Model):
    tname = 'Region'

    def __init__(self, mesh, vb, pattern):
        self.mesh, self.vb, self.pattern = mesh, vb, pattern

    def __repr__(self):
        return f"{self.vb}({self.pattern!r})"

    def desc(self):
        return (self.vb, self.pattern)

    def names(self):
        """canonical description: the regions of the mesh the pattern matches"""
        allof = getattr(self.mesh, 'materials' if self.vb == 'VOL' else 'boundaries', ())
        if not isinstance(self.pattern, str):
            return self.desc()
        return (self.vb, '|'.join(n for n in allof if re.fullmatch(self.pattern, n)))

    def cls(self, it):
        return it.models_cls['Region']

    def getattr(self, it, name):
        if name == 'Elements':
            def els(it):
                allof = getattr(self.mesh, 'materials' if self.vb == 'VOL' else 'boundaries', ())
                if isinstance(self.pattern, str):
                    names = [n for n in allof if re.fullmatch(self.pattern, n)]
                else:
                    names = [self.pattern]
                return [Elem(f"{n}:el{i}", n, self.vb) for n in names for i in range(2)]
            return HostFn(name, els)
        if name == 'Boundaries':
            return HostFn(name, lambda it: Region(self.mesh, 'BND', ('bndof', self.pattern)))
        if name == 'VB':
            return HostFn(name, lambda it: Flag(self.vb))
        if name == 'mesh':
            return self.mesh
        return super().getattr(it, name)

    def binop(self, it, op, other, swapped):
        if isinstance(other, Region):
            return Region(self.mesh, self.vb, (op.__name__, self.pattern, other.pattern))
        return NotImplemented

    def unary(self, it, op):
        return Region(self.mesh, self.vb, ('not', self.pattern))


class Elem(Model):
    tname = 'Ngs_Element'

    def __init__(self, nr, mat, vb):
        self.nr, self.mat, self.vb = nr, mat, vb

    def __repr__(self):
        return f"<{self.nr}>"

    def getattr(self, it, name):
        if name == 'nr':
            return self.nr
        if name == 'mat':
            return self.mat
        if name == 'vertices' and self.vb == 'BND':
            i = int(self.nr[-1])
            return ((self.mat, i), (self.mat, i + 1))
        return super().getattr(it, name)


class Flag(Model):
    """enumeration constant of the library"""
    tname = 'enum'

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name

    def __hash__(self):
        return hash(self.name)

    def __eq__(self, o):
        return isinstance(o, Flag) and o.name == self.name

    def same(self, o):
        return self == o

    def compare(self, it, op, other, swapped):
        if op in (ast.Eq, ast.NotEq):
            return (self == other) == (op is ast.Eq)
        return NotImplemented

    def call(self, it, args, kw):
        return (self.name, *args)


class Mesh(Model):
    tname = 'Mesh'

    def __init__(self, dim=2, boundaries=(), materials=('default',), periodic=False, name='mesh', mappings=None):
        self.dim = dim
        self.boundaries = tuple(boundaries)
        self.materials = tuple(materials)
        self.periodic = periodic
        self.name = name
        self.attrs = {}
        self.deformation = None

    def __repr__(self):
        return f"<{self.name}>"

    def cls(self, it):
        return it.models_cls['Mesh']

    def setattr(self, it, name, v):
        self.attrs[name] = v

    def getattr(self, it, name):
        if name in self.attrs:
            return self.attrs[name]
        if name == 'dim':
            return self.dim
        if name == 'ngmesh':
            return NgMesh(self)
        if name == 'ne':
            return 2 * len(self.materials)
        simple = {'GetBoundaries': lambda it: tuple(self.boundaries),
                  'GetMaterials': lambda it: tuple(self.materials),
                  'GetBBoundaries': lambda it: (),
                  'GetPeriodicNodePairs': lambda it, k=None: [((0, 1), 0)] if self.periodic else [],
                  'Boundaries': lambda it, p: Region(self, 'BND', p if isinstance(p, str) else '|'.join(it.iterate(p)) if not isinstance(p, Model) else p),
                  'Materials': lambda it, p: Region(self, 'VOL', p if isinstance(p, str) else '|'.join(it.iterate(p)) if not isinstance(p, Model) else p),
                  'BBoundaries': lambda it, p: Region(self, 'BBND', p),
                  'SetDeformation': lambda it, g: it.events.append(('mesh.setdeformation', self, g)),
                  'UnsetDeformation': lambda it: it.events.append(('mesh.unsetdeformation', self)),
                  'Curve': lambda it, o: self,
                  'Elements': lambda it, vb=None: [Elem(f"{m}:el{i}", m, 'VOL') for m in self.materials for i in range(2)],
                  'BoundaryCF': lambda it, d, default=0: region_cf(it, self, 'BND', d, default),
                  'MaterialCF': lambda it, d, default=0: region_cf(it, self, 'VOL', d, default),
                  }
        if name in simple:
            return HostFn(name, simple[name])
        return super().getattr(it, name)

    def call(self, it, args, kw):
        return MeshPoint(self, args, kw)

    def getitem(self, it, k):
        if isinstance(k, tuple) and len(k) == 2 and k[0] in self.boundaries:
            return MeshVertex((float(self.boundaries.index(k[0])), float(k[1])))
        raise Unsupported(f"mesh entity {k!r}")


class MeshPoint(Model):
    tname = 'MeshPoint'

    def __init__(self, mesh, args, kw):
        self.mesh, self.args, self.kw = mesh, tuple(args), dict(kw)

    def __repr__(self):
        return f"{self.mesh!r}{self.args}"


class MeshVertex(Model):
    tname = 'MeshNode'

    def __init__(self, point):
        self.point = point

    def getattr(self, it, name):
        if name == 'point':
            return self.point
        raise Unsupported(f"mesh vertex attribute {name}")


class NgMesh(Model):
    tname = 'netgen.Mesh'

    def __init__(self, mesh):
        self.mesh = mesh

    def getattr(self, it, name):
        if name == 'Save':
            return HostFn(name, lambda it, p: ext_call(it, 'ngmesh.save', self.mesh, (p,), {}))
        return super().getattr(it, name)


def region_cf(it, mesh, vb, d, default):
    items = d if isinstance(d, dict) else {k: it.getitem(d, k) for k in it.mapping_keys(d)}
    cfs = {k: cf_of(it, v) for k, v in items.items()}
    n = max([len(c.e) for c in cfs.values()] or [1])
    dims = next((c.dims for c in cfs.values() if len(c.e) == n), ())
    out = []
    for i in range(n):
        e = cf_of(it, default).e
        r = e[i] if len(e) == n else e[0]
        for k, c in cfs.items():
            for nm in k.split('|'):
                s = alg.declare(f"ind:{vb}:{nm}", 'real')
                r = add(mul(s, c.e[i] if len(c.e) == n else c.e[0]), mul(sub(ONE, s), r))
        out.append(r)
    return Cf(out, dims)


def ext_call(it, kind, obj, args, kw):
    """call with an external effect; may fail in an exceptional partition"""
    it.events.append((kind, obj, args, kw))
    h = it.ext_hook
    if h is not None:
        return h(it, kind, obj, args, kw)
    return None
