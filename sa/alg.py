"""Algebraic value-number domain.

An abstract scalar is a hash-consed expression `E`.  Two expressions denote the same value iff their
normal forms agree; the normal form is an exact quotient of (generalised) Laurent polynomials over Q,
computed per sign cell (an IfPos-selection), see `Cell.nf`.  No floating point number takes part in a
decision that two expressions agree; sample points only serve to enumerate inhabited sign cells.
"""
from __future__ import annotations
import math
from fractions import Fraction
import random
import mpmath

mpmath.mp.dps = 60


class AlgError(Exception):
    pass


# ---------------------------------------------------------------- expressions

_cons: dict = {}


class E:
    __slots__ = ('op', 'args', 'h', 'id')
    count = 0

    def __new__(cls, op, *args):
        key = (op,) + tuple(a.id if isinstance(a, E) else ('v', a) for a in args)
        e = _cons.get(key)
        if e is None:
            e = object.__new__(cls)
            e.op, e.args = op, args
            E.count += 1
            e.id = E.count
            _cons[key] = e
        return e

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


def num(x) -> E:
    return E('num', Fraction(x) if isinstance(x, str) else tofrac(x))


def tofrac(x) -> Fraction:
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise AlgError(f"non finite literal {x}")
        f = Fraction(x).limit_denominator(10**6)
        if abs(float(f) - x) <= 4e-16 * abs(x):
            return f
        return Fraction(repr(x))
    raise AlgError(f"not a number: {x!r}")


ZERO = num(0)
ONE = num(1)


def sym(name: str) -> E:
    return E('sym', name)


def isnum(e, v=None):
    return e.op == 'num' and (v is None or e.args[0] == v)


def add(a, b):
    if isnum(a) and isnum(b):
        return num(a.args[0] + b.args[0])
    if isnum(a, 0):
        return b
    if isnum(b, 0):
        return a
    return E('add', a, b)


def neg(a):
    if isnum(a):
        return num(-a.args[0])
    return mul(num(-1), a)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if isnum(a) and isnum(b):
        return num(a.args[0] * b.args[0])
    if isnum(a, 0) or isnum(b, 0):
        return ZERO
    if isnum(a, 1):
        return b
    if isnum(b, 1):
        return a
    return E('mul', a, b)


def div(a, b):
    if isnum(b):
        if b.args[0] == 0:
            raise ZeroDivisionError
        return mul(a, num(1 / b.args[0]))
    if isnum(a, 0):
        return ZERO
    return E('div', a, b)


def power(a, b):
    if isnum(b):
        k = b.args[0]
        if k == 0:
            return ONE
        if k == 1:
            return a
        if isnum(a) and k.denominator == 1 and (a.args[0] != 0 or k > 0):
            return num(a.args[0] ** int(k))
        if isnum(a) and k.denominator == 2 and a.args[0] >= 0 and (a.args[0] != 0 or k > 0):
            v = a.args[0]
            r = Fraction(math.isqrt(v.numerator), math.isqrt(v.denominator))
            if r * r == v:
                return num(r ** k.numerator)
    return E('pow', a, b)


def sqrt(a):
    return power(a, num(Fraction(1, 2)))


def fn(name, *args):
    if name == 'sqrt':
        return sqrt(args[0])
    if all(isnum(a) for a in args):
        v = args[0].args[0] if args else None
        if name in ('sin', 'tan', 'atan', 'sinh') and v == 0:
            return ZERO
        if name in ('cos', 'exp', 'cosh') and v == 0:
            return ONE
        if name == 'log' and v == 1:
            return ZERO
    return E('fn', name, *args)


def ifpos(c, a, b):
    if isnum(c):
        return a if c.args[0] > 0 else b
    if a is b:
        return a
    return E('ifpos', c, a, b)


def children(e):
    if e.op in ('num', 'sym'):
        return ()
    if e.op == 'fn':
        return e.args[1:]
    return e.args


def rebuild(e, ch):
    if e.op == 'add':
        return add(*ch)
    if e.op == 'mul':
        return mul(*ch)
    if e.op == 'div':
        return div(*ch)
    if e.op == 'pow':
        return power(*ch)
    if e.op == 'ifpos':
        return ifpos(*ch)
    if e.op == 'fn':
        return fn(e.args[0], *ch)
    raise AlgError(e.op)


def transform(e, leaf, memo=None):
    """bottom-up rewrite; `leaf(e)` is applied to symbols and to 'fn' nodes after their arguments"""
    if memo is None:
        memo = {}
    stack = [e]
    while stack:
        x = stack[-1]
        if x in memo:
            stack.pop()
            continue
        ch = children(x)
        todo = [c for c in ch if c not in memo]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        if x.op == 'num':
            memo[x] = x
        elif x.op == 'sym':
            memo[x] = leaf(x)
        else:
            y = rebuild(x, [memo[c] for c in ch])
            memo[x] = leaf(y) if y.op == 'fn' else y
    return memo[e]


def subst(e, mapping):
    return transform(e, lambda s: mapping.get(s, s))


def syms(e, out=None):
    out = set() if out is None else out
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'sym':
            out.add(x.args[0])
        stack.extend(children(x))
    return out


def diff(e, s, memo=None):
    """d e / d s"""
    if memo is None:
        memo = {}
    if e in memo:
        return memo[e]
    op, a = e.op, e.args
    if op == 'num':
        r = ZERO
    elif op == 'sym':
        r = ONE if e is s else ZERO
    elif op == 'add':
        r = add(diff(a[0], s, memo), diff(a[1], s, memo))
    elif op == 'mul':
        r = add(mul(diff(a[0], s, memo), a[1]), mul(a[0], diff(a[1], s, memo)))
    elif op == 'div':
        r = sub(div(diff(a[0], s, memo), a[1]), div(mul(a[0], diff(a[1], s, memo)), mul(a[1], a[1])))
    elif op == 'pow':
        db = diff(a[1], s, memo)
        if not isnum(db, 0):
            r = mul(e, add(mul(db, fn('log', a[0])), div(mul(a[1], diff(a[0], s, memo)), a[0])))
        else:
            r = mul(mul(a[1], power(a[0], sub(a[1], ONE))), diff(a[0], s, memo))
    elif op == 'ifpos':
        r = ifpos(a[0], diff(a[1], s, memo), diff(a[2], s, memo))
    elif op == 'fn':
        da = [diff(x, s, memo) for x in a[1:]]
        if all(isnum(x, 0) for x in da):
            r = ZERO
        elif a[0] == 'tan':
            r = mul(add(ONE, mul(e, e)), diff(a[1], s, memo))
        elif a[0] == 'atan':
            r = div(diff(a[1], s, memo), add(ONE, mul(a[1], a[1])))
        elif a[0] == 'exp':
            r = mul(e, da[0])
        elif a[0] == 'log':
            r = div(da[0], a[1])
        elif a[0] == 'sin':
            r = mul(fn('cos', a[1]), da[0])
        elif a[0] == 'cos':
            r = neg(mul(fn('sin', a[1]), da[0]))
        else:
            raise AlgError(f"derivative of {a[0]}")
    else:
        raise AlgError(op)
    memo[e] = r
    return r


def show(e, depth=0):
    if depth > 40:
        return '...'
    op, a = e.op, e.args
    if op == 'num':
        return str(a[0])
    if op == 'sym':
        return a[0]
    if op == 'add':
        return f"({show(a[0], depth+1)} + {show(a[1], depth+1)})"
    if op == 'mul':
        return f"{show(a[0], depth+1)}*{show(a[1], depth+1)}"
    if op == 'div':
        return f"({show(a[0], depth+1)}/{show(a[1], depth+1)})"
    if op == 'pow':
        return f"{show(a[0], depth+1)}**{show(a[1], depth+1)}"
    if op == 'ifpos':
        return "IfPos(" + ", ".join(show(x, depth+1) for x in a) + ")"
    return a[0] + "(" + ", ".join(show(x, depth+1) if isinstance(x, E) else str(x) for x in a[1:]) + ")"


def brief(e, n=160):
    s = show(e)
    return s if len(s) <= n else s[:n] + '...'


# ---------------------------------------------------------------- symbol domains

DOMAIN: dict[str, tuple] = {}      # name -> ('pos',) | ('real',) | ('range', lo, hi)


def declare(name, dom='real', lo=None, hi=None):
    DOMAIN[name] = (dom, *(Fraction(x) if isinstance(x, str) else x for x in (lo, hi)))
    return sym(name)


def domain(name):
    return DOMAIN.get(name, ('real', None, None))


def sample(name, rng):
    d, lo, hi = domain(name)
    if lo is not None:
        lo, hi = Fraction(lo), Fraction(hi)
        return lo + (hi - lo) * Fraction(rng.randint(1, 9999), 10000)
    r = Fraction(rng.randint(1, 40000), 10007)
    if d == 'pos':
        return r
    return r if rng.random() < 0.5 else -r


class Point(dict):
    """lazy sample point"""

    def __init__(self, seed):
        super().__init__()
        self.rng_seed = seed

    def __missing__(self, name):
        rng = random.Random(f"{self.rng_seed}/{name}")
        v = sample(name, rng)
        self[name] = v
        return v


def evalf(e, pt, memo=None):
    """high precision evaluation (used only to select sign cells and orient square roots)"""
    if memo is None:
        memo = {}
    if e in memo:
        return memo[e]
    op, a = e.op, e.args
    if op == 'num':
        r = mpmath.mpf(a[0].numerator) / a[0].denominator
    elif op == 'sym':
        v = pt[a[0]]
        r = mpmath.mpf(v.numerator) / v.denominator if isinstance(v, Fraction) else v
    elif op == 'add':
        r = evalf(a[0], pt, memo) + evalf(a[1], pt, memo)
    elif op == 'mul':
        r = evalf(a[0], pt, memo) * evalf(a[1], pt, memo)
    elif op == 'div':
        r = evalf(a[0], pt, memo) / evalf(a[1], pt, memo)
    elif op == 'pow':
        b, x = evalf(a[0], pt, memo), evalf(a[1], pt, memo)
        if isnum(a[1]) and a[1].args[0].denominator == 1:
            r = b ** int(a[1].args[0])
        else:
            if b < 0:
                raise AlgError(f"negative base in {brief(e)}")
            r = mpmath.power(b, x)
    elif op == 'ifpos':
        r = evalf(a[1], pt, memo) if evalf(a[0], pt, memo) > 0 else evalf(a[2], pt, memo)
    elif op == 'fn':
        xs = [evalf(x, pt, memo) for x in a[1:]]
        f = {'exp': mpmath.exp, 'log': mpmath.log, 'sin': mpmath.sin, 'cos': mpmath.cos, 'tan': mpmath.tan,
             'atan': mpmath.atan, 'sinh': mpmath.sinh, 'cosh': mpmath.cosh, 'acos': mpmath.acos,
             'asin': mpmath.asin, 'floor': mpmath.floor, 'ceil': mpmath.ceil,
             'atan2': mpmath.atan2}.get(a[0])
        if f is not None:
            r = f(*xs)
        else:      # uninterpreted function: a generic but functional value
            rng = random.Random(f"{a[0]}|" + "|".join(mpmath.nstr(x, 20) for x in xs))
            r = mpmath.mpf(rng.randint(1, 10**6)) / 99991
    else:
        raise AlgError(op)
    memo[e] = r
    return r


# ---------------------------------------------------------------- polynomials

# poly: dict monomial -> Fraction; monomial: tuple of (gen, exponent Fraction) sorted by gen

def p_const(c):
    return {(): c} if c else {}


def mono_mul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for g, k in n:
        k2 = d.get(g, 0) + k
        if k2 == 0:
            del d[g]
        else:
            d[g] = k2
    return tuple(sorted(d.items()))


def mono_pow(m, k):
    return tuple((g, e * k) for g, e in m) if k else ()


def p_add(a, b):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            del r[m]
    return r


def p_mul(a, b):
    if len(a) > len(b):
        a, b = b, a
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mono_mul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def p_scale(a, c):
    return {m: v * c for m, v in a.items()} if c else {}


def p_pow(a, k):
    r = p_const(Fraction(1))
    b = a
    while k:
        if k & 1:
            r = p_mul(r, b)
        k >>= 1
        if k:
            b = p_mul(b, b)
    return r


def p_key(a):
    return tuple(sorted(a.items()))


def p_split(a):
    """poly = c * mono * primitive poly (minimal exponents zero, leading coefficient one)"""
    gens = {}
    for m in a:
        for g, k in m:
            gens.setdefault(g, []).append(k)
    n = len(a)
    mono = []
    for g, ks in gens.items():
        lo = min(ks) if len(ks) == n else min(min(ks), 0)
        if lo:
            mono.append((g, lo))
    mono = tuple(sorted(mono))
    inv = mono_pow(mono, -1)
    b = {mono_mul(m, inv): c for m, c in a.items()}
    lead = b[max(b, key=lambda m: m)]
    b = {m: c / lead for m, c in b.items()}
    return lead, mono, b


def p_factor(a):
    """[(poly, multiplicity)], constant, mono"""
    import sympy as sp
    c, mono, b = p_split(a)
    if len(b) == 1:
        return c, mono, []
    names = sorted({g for m in b for g, _ in m})
    L = 1
    for m in b:
        for _, k in m:
            L = L * Fraction(k).denominator // __import__('math').gcd(L, Fraction(k).denominator)
    idx = {g: i for i, g in enumerate(names)}
    S = sp.symbols(f"z0:{len(names)}")
    d = {}
    for m, v in b.items():
        ex = [0] * len(names)
        for g, k in m:
            ex[idx[g]] = int(k * L)
        d[tuple(ex)] = sp.Rational(v.numerator, v.denominator)
    cc, fl = sp.Poly(d, *S, domain='QQ').factor_list()
    out = []
    c = c * Fraction(int(cc.p), int(cc.q))
    for f, mult in fl:
        q = {}
        for ex, v in f.terms():
            m = tuple((names[i], Fraction(k, L)) for i, k in enumerate(ex) if k)
            q[m] = Fraction(int(v.p), int(v.q)) if hasattr(v, 'p') else Fraction(str(v))
        lead, mm, q = p_split(q)
        c *= lead ** mult
        mono = mono_mul(mono, mono_pow(mm, mult))
        if len(q) > 1:
            out.append((q, mult))
    return c, mono, out


class Rat:
    """num / prod(den factors); den: {key: (poly, exp)}"""
    __slots__ = ('n', 'd')

    def __init__(self, n, d=None):
        self.n = n
        self.d = d or {}


def r_mul(a, b):
    n = p_mul(a.n, b.n)
    if not n:
        return Rat({})
    d = dict(a.d)
    for k, (p, e) in b.d.items():
        d[k] = (p, d[k][1] + e) if k in d else (p, e)
    return Rat(n, d)


def r_add(a, b):
    if not a.n:
        return b
    if not b.n:
        return a
    d = dict(a.d)
    na, nb = a.n, b.n
    for k, (p, e) in b.d.items():
        ea = d[k][1] if k in d else 0
        if e > ea:
            na = p_mul(na, p_pow(p, e - ea))
            d[k] = (p, e)
    for k, (p, e) in a.d.items():
        eb = b.d[k][1] if k in b.d else 0
        if e > eb:
            nb = p_mul(nb, p_pow(p, e - eb))
    n = p_add(na, nb)
    return Rat(n, d) if n else Rat({})


def r_inv(a):
    if not a.n:
        raise ZeroDivisionError
    c, mono, b = p_split(a.n)
    n = {mono_pow(mono, -1): 1 / c}
    for p, e in a.d.values():
        n = p_mul(n, p_pow(p, e))
    if len(b) == 1:
        return Rat(n)
    if len(b) <= 12:
        try:
            c2, m2, fl = p_factor(b)
        except Exception:
            fl = None
        if fl is not None:
            n = p_mul(n, {mono_pow(m2, -1): 1 / c2})
            return Rat(n, {p_key(q): (q, k) for q, k in fl})
    return Rat(n, {p_key(b): (b, 1)})


class Cell:
    """normal forms within the sign cell that contains the sample point `pt`"""

    def __init__(self, pt, sub=None):
        self.pt = pt
        self.sub = sub or {}
        self.memo = {}
        self.vals = {}
        self.gens = {}       # generator name -> E (its value)
        self.sig = []        # branch signature
        self._sigseen = {}
        self.keys = {}
        self.polyof = {}     # fractional-power generator -> polynomial it stands for

    def reduce(self, r: Rat) -> Rat:
        """[p]^k with k outside [0, 1): move the integer part back into the polynomial"""
        if not any(g in self.polyof for m in r.n for g, _ in m):
            return r
        out = Rat({})
        for m, c in r.n.items():
            t = Rat({(): c})
            for g, k in m:
                if g in self.polyof and not 0 <= k < 1:
                    ip = k.numerator // k.denominator
                    p = self.polyof[g]
                    if ip > 0:
                        t = r_mul(t, Rat(p_pow(p, ip)))
                    else:
                        t = r_mul(t, r_inv(Rat(p_pow(p, -ip))))
                    k = k - ip
                if k:
                    t = r_mul(t, Rat({((g, k),): Fraction(1)}))
            out = r_add(out, t)
        for k, (p, e) in r.d.items():
            out = r_mul(out, Rat({(): Fraction(1)}, {k: (p, e)}))
        return out

    def val(self, e):
        return evalf(e, self.pt, self.vals)

    def gen(self, name, e):
        self.gens[name] = e
        return name

    def branch(self, c):
        r = self._sigseen.get(c)
        if r is None:
            v = self.val(subst(c, self.sub) if self.sub else c)
            r = v > 0
            self._sigseen[c] = r
            self.sig.append((c.id, r))
        return r

    def nf(self, e) -> Rat:
        m = self.memo.get(e)
        if m is not None:
            return m
        op, a = e.op, e.args
        if op == 'num':
            r = Rat(p_const(a[0]))
        elif op == 'sym':
            s = self.sub.get(e)
            if s is not None:
                r = self.nf(s)
            else:
                self.gens[a[0]] = e
                r = Rat({((a[0], Fraction(1)),): Fraction(1)})
        elif op == 'add':
            r = r_add(self.nf(a[0]), self.nf(a[1]))
        elif op == 'mul':
            r = r_mul(self.nf(a[0]), self.nf(a[1]))
        elif op == 'div':
            r = r_mul(self.nf(a[0]), r_inv(self.nf(a[1])))
        elif op == 'pow':
            r = self.nf_pow(e, a[0], a[1])
        elif op == 'ifpos':
            r = self.nf(a[1] if self.branch(a[0]) else a[2])
        elif op == 'fn':
            if a[0] == 'log':      # log of a monomial
                r = self.nf_log(a[1])
            else:
                name = a[0] + "(" + ",".join(self.key(x) for x in a[1:]) + ")"
                self.gens[name] = e
                r = Rat({((name, Fraction(1)),): Fraction(1)})
        else:
            raise AlgError(op)
        if self.polyof and op in ('mul', 'div', 'pow'):
            r = self.reduce(r)
        self.memo[e] = r
        return r

    def nf_log(self, x):
        c, mono, fl = self.factored(self.nf(x))
        out = Rat({})
        items = [(g, k) for g, k in mono] + [(p_name(q), k) for q, k in fl]
        if c != 1:
            items.append((str(c), Fraction(1)))
        for g, k in items:
            out = r_add(out, Rat({((f"log({g})", Fraction(1)),): Fraction(k)}))
        return out

    def factored(self, r: Rat):
        c, mono, fl = p_factor(r.n)
        tot = {p_key(q): [q, Fraction(k)] for q, k in fl}
        for k, (p, e) in r.d.items():
            c2, m2, f2 = p_factor(p)
            c /= c2 ** e
            mono = mono_mul(mono, mono_pow(m2, -e))
            for q, kk in f2:
                key = p_key(q)
                if key in tot:
                    tot[key][1] -= kk * e
                else:
                    tot[key] = [q, Fraction(-kk * e)]
        return c, mono, [(q, k) for q, k in tot.values() if k]

    def pval(self, p):
        t = mpmath.mpf(0)
        for m, c in p.items():
            v = mpmath.mpf(c.numerator) / c.denominator
            for g, k in m:
                v *= self.gval(g) ** (mpmath.mpf(k.numerator) / k.denominator if k.denominator != 1 else int(k))
            t += v
        return t

    def gval(self, g):
        e = self.gens.get(g)
        if e is None:
            raise AlgError(f"no value for generator {g}")
        return self.val(subst(e, self.sub) if self.sub else e)

    def nf_pow(self, e, b, x):
        if isnum(x) and x.args[0].denominator == 1:
            k = int(x.args[0])
            rb = self.nf(b)
            if k < 0:
                rb = r_inv(rb)
                k = -k
            if len(rb.n) > 1 and k > 12:
                raise AlgError("power too large")
            return Rat(p_pow(rb.n, k), {kk: (p, ee * k) for kk, (p, ee) in rb.d.items()})
        rb = self.nf(b)
        if not rb.n:
            return Rat({})
        c, mono, fl = self.factored(rb)
        if isnum(x):
            q = x.args[0]
            xk = None
        else:
            rx = self.nf(x)
            q, xk = self.ratkey(rx)
            if xk is None:      # constant exponent after all
                return self.nf_pow(e, b, num(q))
        n = {(): Fraction(1)}
        d = Rat({(): Fraction(1)})
        out = Rat({(): Fraction(1)})
        neg_count = 0
        # orient every factor so that it is positive in this cell
        parts = []
        for g, k in mono:
            v = self.gval(g)
            if v < 0:
                if k.denominator != 1:
                    raise AlgError("fractional power of a negative generator")
                if k % 2:
                    neg_count += 1
                parts.append(('g', g, k, -1))
            else:
                parts.append(('g', g, k, 1))
        for p, k in fl:
            v = self.pval(p)
            s = 1 if v > 0 else -1
            if s < 0 and k % 2:
                neg_count += 1
            parts.append(('p', p, k, s))
        if neg_count % 2:
            c = -c
        if c < 0:
            raise AlgError(f"fractional power of a negative quantity {brief(b)}")
        # constant
        if c != 1:
            out = r_mul(out, self.const_pow(c, q, xk))
        for kind, g, k, s in parts:
            ex = k * q
            if xk is not None:
                base = g if kind == 'g' else p_name(g)
                name = f"[{'-' if s < 0 else ''}{base}]^[{xk}]"
                if name not in self.gens:
                    self.gens[name] = None
                out = r_mul(out, Rat({((name, ex),): Fraction(1)}))
                continue
            if kind == 'g':
                if s > 0:
                    out = r_mul(out, Rat({((g, ex),): Fraction(1)}))
                else:
                    if ex.denominator != 1:
                        name = f"(-{g})"
                        self.gens[name] = neg(self.gens[g])
                        out = r_mul(out, Rat({((name, ex),): Fraction(1)}))
                    else:
                        out = r_mul(out, Rat({((g, ex),): Fraction((-1) ** int(ex))}))
            else:
                ip = ex.numerator // ex.denominator
                fp = ex - ip
                poly = g if s > 0 else p_scale(g, Fraction(-1))
                if ip > 0:
                    out = r_mul(out, Rat(p_pow(poly, ip)))
                elif ip < 0:
                    out = r_mul(out, Rat({(): Fraction(s ** (-ip))}, {p_key(g): (g, -ip)}))
                if fp:
                    name = f"[{p_name(poly)}]"
                    if name not in self.gens:
                        self.gens[name] = self.p_expr(poly)
                    self.polyof[name] = poly
                    out = r_mul(out, Rat({((name, fp),): Fraction(1)}))
        return out

    def p_expr(self, p):
        t = ZERO
        for m, c in p.items():
            v = num(c)
            for g, k in m:
                ge = self.gens.get(g)
                if ge is None:
                    raise AlgError('no expression for generator ' + g)
                v = mul(v, power(ge, num(k)))
            t = add(t, v)
        return t

    def const_pow(self, c, q, xk):
        if xk is None:
            if q.denominator == 1:
                return Rat({(): c ** int(q)})
            # split primes
            import sympy as sp
            out = {(): Fraction(1)}
            for nn, sgn in ((c.numerator, 1), (c.denominator, -1)):
                for p, k in sp.factorint(nn).items():
                    ex = q * k * sgn
                    ip = ex.numerator // ex.denominator
                    fp = ex - ip
                    out = p_mul(out, {(): Fraction(p) ** ip})
                    if fp:
                        name = f"#{p}"
                        self.gens[name] = num(p)
                        out = p_mul(out, {((name, fp),): Fraction(1)})
            return Rat(out)
        import sympy as sp
        out = {(): Fraction(1)}
        for nn, sgn in ((c.numerator, 1), (c.denominator, -1)):
            for p, k in sp.factorint(nn).items():
                name = f"[{p}]^[{xk}]"
                self.gens[name] = None
                out = p_mul(out, {((name, q * k * sgn),): Fraction(1)})
        return Rat(out)

    def ratkey(self, r: Rat):
        """r = q * canonical(key); key None when r is the constant q"""
        if not r.n:
            return Fraction(0), None
        c, mono, fl = self.factored(r)
        if not mono and not fl:
            return c, None
        parts = [f"{g}^{k}" for g, k in mono] + sorted(f"({p_name(q)})^{k}" for q, k in fl)
        return c, "*".join(parts)

    def key(self, e):
        k = self.keys.get(e)
        if k is None:
            q, s = self.ratkey(self.nf(e))
            k = str(q) if s is None else f"{q}*{s}"
            self.keys[e] = k
        return k

    def is_zero(self, e):
        return not self.nf(e).n

    def const(self, e):
        """exact rational value if e is constant, else None"""
        r = self.nf(e)
        if not r.n:
            return Fraction(0)
        q, k = self.ratkey(r)
        return q if k is None else None


def p_name(p):
    return "+".join(f"{c}*" + "*".join(f"{g}^{k}" for g, k in m) if m else str(c) for m, c in sorted(p.items()))


class EqResult:
    def __init__(self, ok, cells, where=None, lhs=None, rhs=None):
        self.ok, self.cells, self.where, self.lhs, self.rhs = ok, cells, where, lhs, rhs

    def __bool__(self):
        return self.ok


def equal(a: E, b: E, sub=None, seed=1, points=24, stop_after=None) -> EqResult:
    """a == b on every inhabited sign cell: identity of exact normal forms in each cell.

    Where the normal form does not vanish but the difference does (to 45 digits, at several points of the
    same cell) the normal form is incomplete and the identity is decided by polynomial identity testing."""
    sub = sub or {}
    sigs = {}
    haspw = has_piecewise(a) or has_piecewise(b)
    n = points if haspw else 1
    diffe = sub_e(a, b)
    pit = 0
    for i in range(n):
        pt = Point(f"{seed}/{i}")
        if haspw:
            sig = selection((a, b), pt, sub)
            if sig in sigs:
                continue
        else:
            sig = ()
        cell = Cell(pt, sub)
        ok = cell.is_zero(diffe)
        if not ok:
            if all(_num_zero(diffe, a, b, sub, Point(f"{seed}/{i}" + (f"/{j}" if j else ""))) for j in range(1 if haspw else 4)):
                ok = True
                pit += 1
        sigs[sig] = ok
        if not ok:
            r = EqResult(False, len(sigs), {k: str(v) for k, v in pt.items()}, a, b)
            r.pit = pit
            return r
    r = EqResult(True, len(sigs))
    r.pit = pit
    return r


def nodes(e):
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        if x not in seen:
            seen.add(x)
            stack.extend(children(x))
    return seen


def generalise(a, b, minsize=4):
    """replace the maximal subterms a and b share by fresh symbols; an identity of the results implies a == b"""
    na, nb = nodes(a), nodes(b)
    common = na & nb
    if a in common or b in common:
        return None
    heads = set()
    for x in (na - common) | (nb - common):
        for y in children(x):
            if y in common and y.op not in ('num', 'sym'):
                heads.add(y)
    if not heads:
        return None
    m = {}
    for i, h in enumerate(sorted(heads, key=lambda h: h.id)):
        m[h] = declare(f"shared:{i}", 'real')

    def rep(e):
        memo = {}
        stack = [e]
        while stack:
            x = stack[-1]
            if x in memo:
                stack.pop()
                continue
            if x in m:
                memo[x] = m[x]
                stack.pop()
                continue
            todo = [y for y in children(x) if y not in memo]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            ch = children(x)
            memo[x] = rebuild(x, [memo[y] for y in ch]) if ch else x
        return memo[e]
    return rep(a), rep(b)


def prove_equal(a, b, sub=None, seed=1, points=24):
    """equal, trying the generalisation over shared subterms first"""
    if a is b:
        r = EqResult(True, 1)
        r.pit = 0
        return r
    g = generalise(a, b)
    if g is not None:
        for gsub in (None, sub) if sub else (None,):
            try:
                r = equal(g[0], g[1], gsub, seed, 4)
                if r.ok and not r.pit:
                    return r
            except (AlgError, ZeroDivisionError):
                pass
    return equal(a, b, sub, seed, points)


def _num_zero(d, a, b, sub, pt):
    if sub:
        d, a, b = subst(d, sub), subst(a, sub), subst(b, sub)
    try:
        v, x, y = evalf(d, pt), evalf(a, pt), evalf(b, pt)
    except (ZeroDivisionError, AlgError, ValueError):
        return False
    return abs(v) <= (1 + abs(x) + abs(y)) * mpmath.mpf(10) ** (-40)


def sub_e(a, b):
    return sub(a, b)


def has_piecewise(e):
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ifpos':
            return True
        if x.op == 'pow' and not (isnum(x.args[1]) and x.args[1].args[0].denominator == 1):
            return True
        stack.extend(children(x))
    return False


def selection(es, pt, sub):
    """signature of the IfPos selections / radicand orientations at pt"""
    sig = []
    vals = {}
    seen = set()
    for e in es:
        if sub:
            e = subst(e, sub)
        stack = [e]
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'ifpos':
                r = evalf(x.args[0], pt, vals) > 0
                sig.append((x.id, r))
                stack.append(x.args[0])
                stack.append(x.args[1] if r else x.args[2])
                continue
            if x.op == 'pow' and not (isnum(x.args[1]) and x.args[1].args[0].denominator == 1):
                for s in syms(x.args[0]):
                    if domain(s)[0] == 'real':
                        sig.append((s, pt[s] > 0))
            stack.extend(children(x))
    return tuple(sorted(sig, key=str))
