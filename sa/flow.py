"""Shared vocabulary of the flow rules: abstract solver configurations and consistent flow states."""
from __future__ import annotations

from . import alg as A
from . import fields as F
from .interp import Unsupported, PyEx, IObj, MISSING

BND = ('left', 'right', 'top', 'bottom')
MATS = ('default', 'sponge')

THERMO = ('density', 'pressure', 'temperature', 'inner_energy', 'specific_inner_energy', 'speed_of_sound')
NAMES = {'rho': 'density', 'u': 'velocity', 'rho_u': 'momentum', 'p': 'pressure', 'T': 'temperature',
         'rho_E': 'energy', 'E': 'specific_energy', 'rho_Ei': 'inner_energy', 'Ei': 'specific_inner_energy',
         'rho_Ek': 'kinetic_energy', 'Ek': 'specific_kinetic_energy', 'rho_H': 'enthalpy', 'H': 'specific_enthalpy',
         'c': 'speed_of_sound'}
GRADS = {'grad_' + k: v + '_gradient' for k, v in NAMES.items()}


def cf(*e, dims=None):
    e = tuple(e)
    if dims is None:
        dims = () if len(e) == 1 else (len(e),)
    return F.Cf(e, dims)


def mesh(dim=2, boundaries=BND, materials=MATS, **k):
    return F.Mesh(dim=dim, boundaries=boundaries, materials=materials, **k)


def solver(c, dim=2, **opts):
    """an abstract CompressibleFlowSolver on an abstract mesh (call inside a partition)"""
    it = c.it
    cls = c.api('dream.compressible', 'CompressibleFlowSolver')
    cfg = it.call(cls, [opts.pop('mesh', None) or mesh(dim)])
    for k, v in opts.items():
        it.setattr(cfg, k, v)
    return cfg


def gamma_of(it, cfg):
    p = it.getattr(it.getattr(cfg, 'equation_of_state'), 'heat_capacity_ratio')
    return psym(it, p)


def psym(it, p):
    e = p.e[0] if isinstance(p, F.Cf) and len(p.e) == 1 else F.to_e(p)
    if e is None or e.op != 'sym':
        raise Unsupported(f"parameter {p!r} is not a live parameter object")
    return e


class State:
    """all flow quantities of one thermodynamic state as functions of rho, c, u and gamma (exact)"""

    def __init__(self, gamma, dim=2, tag='', sub=None):
        self.dim, self.gamma = dim, gamma
        self.rho0 = A.declare('rho' + tag, 'pos')
        self.c0 = A.declare('c' + tag, 'pos')
        self.u0 = tuple(A.declare(f'u{tag}_{i}', 'real') for i in range(dim))
        g = A.declare('g', 'pos')
        self.sub = dict(sub or {})
        if gamma is not None and gamma.op == 'sym':
            self.sub[gamma] = A.add(A.num(1), g)
        rho, cc, u = self.rho0, self.c0, self.u0
        gm1 = A.sub(gamma, A.num(1))
        p = A.div(A.mul(rho, A.mul(cc, cc)), gamma)
        T = A.div(A.mul(cc, cc), gm1)
        rEi = A.div(p, gm1)
        Ei = A.div(T, gamma)
        Ek = A.mul(A.num('1/2'), F.dot(u, u))
        rEk = A.mul(rho, Ek)
        rE = A.add(rEi, rEk)
        E = A.add(Ei, Ek)
        self.v = {'rho': (rho,), 'u': u, 'rho_u': tuple(A.mul(rho, x) for x in u), 'p': (p,), 'T': (T,),
                  'rho_E': (rE,), 'E': (E,), 'rho_Ei': (rEi,), 'Ei': (Ei,), 'rho_Ek': (rEk,), 'Ek': (Ek,),
                  'rho_H': (A.add(rE, p),), 'H': (A.add(E, A.div(p, rho)),), 'c': (cc,)}

    def dims(self, k):
        return (self.dim,) if k in ('u', 'rho_u') else ()

    def cf(self, k):
        return F.Cf(self.v[k], self.dims(k))

    def primaries(self):
        return [self.rho0, self.c0, *self.u0]

    def grads(self, tag=''):
        """gradients of every quantity by the chain rule from free gradients of rho, c and u"""
        prim = self.primaries()
        d = {s: [A.declare(f'd{j}_{s.args[0]}{tag}', 'real') for j in range(self.dim)] for s in prim}
        out = {}
        for k, es in self.v.items():
            rows = []
            for e in es:
                for j in range(self.dim):
                    s = A.num(0)
                    for x in prim:
                        s = A.add(s, A.mul(A.diff(e, x), d[x][j]))
                    rows.append(s)
            dims = (self.dim,) if not self.dims(k) else (self.dim, self.dim)
            out['grad_' + k] = F.Cf(tuple(rows), dims)
        gu = out['grad_u'].e
        n = self.dim
        tr = A.num(0)
        for i in range(n):
            tr = A.add(tr, gu[i * n + i])
        eps = []
        for i in range(n):
            for j in range(n):
                e = A.mul(A.num('1/2'), A.add(gu[i * n + j], gu[j * n + i]))
                if i == j:
                    e = A.sub(e, A.mul(A.num('1/3'), tr))
                eps.append(e)
        out['eps'] = F.Cf(tuple(eps), (n, n))
        return out

    def fields(self, c, *keys, extra=None):
        ff = c.api('dream.compressible', 'flowfields')
        kw = {k: self.cf(k) for k in (keys or self.v)}
        kw.update(extra or {})
        return c.it.call(ff, [], kw)


class LazyDict(dict):
    """a dictionary whose key presence is decided, per partition, when it is first asked for"""

    def __init__(self, it, full):
        super().__init__(full)
        self.sa_it = it

    def _has(self, k):
        if not dict.__contains__(self, k):
            return False
        return self.sa_it.decide(('has', id(self) if False else self.sa_tag, k), (True, False))

    sa_tag = ''

    def __contains__(self, k):
        return self._has(k)

    def __getitem__(self, k):
        if not self._has(k):
            raise KeyError(k)
        return dict.__getitem__(self, k)

    def get(self, k, d=None):
        return dict.__getitem__(self, k) if self._has(k) else d

    def __iter__(self):
        return iter([k for k in dict.keys(self) if self._has(k)])

    def keys(self):
        return {k: None for k in self}.keys()

    def values(self):
        return [dict.__getitem__(self, k) for k in self]

    def items(self):
        return {k: dict.__getitem__(self, k) for k in self}.items()

    def __len__(self):
        return sum(1 for _ in self)

    def copy(self):
        return {k: dict.__getitem__(self, k) for k in self}


def lazy_fields(c, values, tag=''):
    """a flowfields object in which the presence of each given quantity is left open (all subsets at once);
    returns None when the container does not keep its values in a dictionary attribute"""
    it = c.it
    o = it.call(c.api('dream.compressible', 'flowfields'), [], dict(values))
    vals = list(values.values())
    for k, d in list(o.d.items()):
        if isinstance(d, dict) and len(d) == len(vals):
            z = LazyDict(it, d)
            z.sa_tag = tag
            o.d[k] = z
            return o
    return None


def ret_where(it, out):
    """the source position of the last interpreted return below the solver interface"""
    for m, q, ln in reversed(out.returns):
        if not m.startswith('stub:') and m not in ('dream.config', 'dream.bla'):
            return f"{it.relfile(m)}:{ln} in {q}"
    return ''


def source(it, text, **names):
    """run user code"""
    class Text:
        def read_text(self):
            return text

        def __str__(self):
            return '<user>'
    ns = {'__name__': 'user', **names}
    it.exec_module('user', Text(), ns)
    return ns
