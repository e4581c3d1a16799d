"""Weak forms: abstract solver set-ups, the assembled residual and its evaluation per region and facet class."""
from __future__ import annotations

import re

from . import alg as A
from . import fields as F
from .interp import Unsupported, PyEx, HostFn
from .flow import State, solver, gamma_of, psym, cf, mesh as make_mesh

ZERO, ONE = A.num(0), A.num(1)


def names(pattern, all_names):
    """region names a pattern selects"""
    if pattern is None:
        return set(all_names)
    if isinstance(pattern, tuple):
        op = pattern[0]
        if op == 'not':
            return set(all_names) - names(pattern[1], all_names)
        if op in ('BitOr', 'Add'):
            return names(pattern[1], all_names) | names(pattern[2], all_names)
        if op in ('BitAnd', 'Mult'):
            return names(pattern[1], all_names) & names(pattern[2], all_names)
        if op == 'Sub':
            return names(pattern[1], all_names) - names(pattern[2], all_names)
        raise Unsupported(f"region {pattern!r}")
    if not isinstance(pattern, str):
        raise Unsupported(f"region {pattern!r}")
    return {n for n in all_names if re.fullmatch(pattern, n)}


def selected(bits, facet):
    """does the dof selection contain the dofs of the facet class (a boundary name or '')"""
    if not isinstance(bits, tuple):
        raise Unsupported(f"dof selection {bits!r}")
    if isinstance(bits[0], tuple):
        t, writes = bits
        r = selected(t, facet)
        for k, v in writes:
            if k in ('all', ('slice', None, None, None)):
                r = bool(v)
            else:
                raise Unsupported(f"dof selection {bits!r}")
        return r
    op = bits[0]
    if op == 'not':
        return not selected(bits[1], facet)
    if op == 'BitOr':
        return selected(bits[1], facet) or selected(bits[2], facet)
    if op == 'BitAnd':
        return selected(bits[1], facet) and selected(bits[2], facet)
    if op == 'dofs':
        vb, pat = bits[2]
        if vb != 'BND':
            raise Unsupported(f"dof selection {bits!r}")
        return bool(facet) and facet in names(pat, [facet])
    raise Unsupported(f"dof selection {bits!r}")


class Setup:
    """an initialised abstract solver together with the states its unknowns stand for"""

    def __init__(self, c, dim=2, time='transient', scheme=None, bcs=(), dcs=(), boundaries=('left', 'right', 'top', 'bottom'),
                 materials=('default', 'sponge'), periodic=False, viscosity='inviscid', mixed=None, opts=None, initial=True,
                 initialize=True, assemble=True):
        self.c, it = c, c.it
        self.it = it
        self.mesh = make_mesh(dim, boundaries=boundaries, materials=materials, periodic=periodic)
        self.dim = dim
        cfg = self.cfg = solver(c, dim, mesh=self.mesh)
        it.setattr(cfg, 'time', time)
        if scheme:
            it.setattr(it.getattr(cfg, 'time'), 'scheme', scheme)
        it.setattr(cfg, 'dynamic_viscosity', viscosity)
        if mixed is None:
            mixed = 'inactive' if viscosity == 'inviscid' else 'strain_heat'
        it.setattr(it.getattr(cfg, 'fem'), 'mixed_method', mixed)
        for k, v in (opts or {}).items():
            o = cfg
            *path, last = k.split('.')
            for p in path:
                o = it.getattr(o, p)
            it.setattr(o, last, v)
        g = self.gamma = gamma_of(it, cfg)
        self.s, self.h = State(g, dim), State(g, dim, tag='h')
        self.s.sub.update(self.h.sub)
        self.sub = dict(self.s.sub)
        for q, n in (('mach_number', 'Ma'),) + ((('reynolds_number', 'Re'), ('prandtl_number', 'Pr'))
                                                if viscosity != 'inviscid' else ()):
            self.sub[psym(it, it.getattr(cfg, q))] = A.declare(n, 'pos')
        self.bconds, self.dconds = {}, {}
        for where, cond in dict(bcs).items():
            o = self.bconds[where] = cond(self) if callable(cond) else cond
            it.setitem(it.getattr(cfg, 'bcs'), where, o)
        if initial:
            self.init = State(g, dim, tag='0')
            o = self.cond('Initial', fields=self.init.fields(c))
            it.setitem(it.getattr(cfg, 'dcs'), '|'.join(materials), o)
        for where, cond in (dcs.items() if isinstance(dcs, dict) else dcs):
            o = self.dconds[where] = cond(self) if callable(cond) else cond
            it.setitem(it.getattr(cfg, 'dcs'), where, o)
        if initialize:
            self.start(assemble)

    def start(self, assemble=True):
        """initialise (and assemble), and read the unknowns and the residual"""
        it, cfg = self.it, self.cfg
        it.call(it.getattr(cfg, 'initialize'), [])
        self.TnT = it.getattr(cfg, 'TnT')
        self.spaces = it.getattr(cfg, 'spaces')
        self.gfus = it.getattr(cfg, 'gfus')
        self._unknowns()
        if assemble:
            n0 = len(it.events)
            it.call(it.getattr(it.getattr(cfg, 'time'), 'assemble'), [])
            self._gather(it.events[n0:])

    def cond(self, name, **kw):
        return self.it.call(self.c.api('dream.compressible', name), [], kw)

    def pcall(self, o, m, *a, **k):
        return self.it.call(self.it.getattr(o, m), list(a), k)

    # ---- unknowns
    def proxies(self, label):
        it = self.it
        d = self.TnT
        p = it.getitem(d, label)
        return [F.cf_of(it, x) for x in p]

    def has(self, label):
        return label in [k for k in self.it.mapping_keys(self.TnT)] if not isinstance(self.TnT, dict) else label in self.TnT

    def _unknowns(self):
        d = self.dim
        self.v = {}
        for label, st in (('U', self.s), ('Uhat', self.h)):
            if not self.has(label):
                continue
            u, v = self.proxies(label)
            if len(u.e) != d + 2:
                raise Unsupported(f"unknown {label} has {len(u.e)} components")
            base = {k: x for k, x in self.sub.items() if k.args[0].startswith('param')}
            for e, x in zip(u.e, cons(st)):
                self.sub[e] = A.subst(x, base)
            self.v[label] = list(v.e)
            setattr(self, {'U': 'cu', 'Uhat': 'ch'}[label], list(u.e))
            setattr(self, {'U': 'fU', 'Uhat': 'fH'}[label], self._fields(label, st))
        if self.has('Q'):
            self.q, p = self.proxies('Q')
            self.v['Q'] = list(p.e)

    def _fields(self, label, st):
        """the thermodynamic state of an unknown: as the formulation derives it where that is the exact state
        (its expressions are then shared with the residual), else the exact one"""
        it = self.it
        try:
            f = self.pcall(it.getattr(it.getattr(self.cfg, 'fem'), 'method'), 'get_conservative_fields',
                           it.getitem(self.TnT, label)[0])
        except (PyEx, Unsupported):
            return st.fields(self.c)
        for k in ('rho', 'u', 'rho_u', 'rho_E', 'p', 'T', 'c', 'rho_Ei', 'rho_Ek'):
            v = it.getattr(f, k)
            if v is None:
                continue
            v = F.cf_of(it, v)
            if len(v.e) != len(st.v[k]) or not all(self.c._eq(x, y, self.sub, None).ok for x, y in zip(v.e, st.v[k])):
                return st.fields(self.c)
        return f

    def q_(self, f, k):
        """entries of a quantity of a fields container"""
        v = self.it.getattr(f, k)
        if v is None:
            st = self.s if f is self.fU else self.h
            return list(st.v[k])
        return list(F.cf_of(self.it, v).e)

    def grad(self, e):
        """symbols of the gradient of a proxy component"""
        return [A.declare(f"d{'xyz'[k]}({e.args[0]})") for k in range(self.dim)]

    # ---- residual
    def _gather(self, events):
        fes = self.it.getattr(self.cfg, 'fes')
        new = [e[1] for e in events if e[0] == 'form.new' and e[1].space is fes]
        new += [e[1] for e in events if e[0] == 'form.add' and e[1] not in new]
        new = list({id(f): f for f in new}.values())
        bl = [f for f in new if f.kind == 'BilinearForm']
        lf = [f for f in new if f.kind == 'LinearForm']
        if len(bl) != 1 or len(lf) > 1:
            raise Unsupported(f"{len(bl)} bilinear and {len(lf)} linear forms are assembled")
        self.bform, self.lform = bl[0], (lf[0] if lf else None)
        self.terms = [(cc, f.e[0], d) for t in self.bform.terms for cc, f, d in t.terms]
        if self.lform:
            self.terms += [(A.neg(cc), f.e[0], d) for t in self.lform.terms for cc, f, d in t.terms]

    def masks(self, facet):
        """values, on the facets of one class, of grid functions of facet constants"""
        out = {}
        want = set()
        for _, e, _ in self.terms:
            want |= A.syms(e)
        for g in [e[1] for e in self.it.events if e[0] == 'gf.new']:
            if len(g.e) == 1 and g.e[0].op == 'sym' and g.e[0].args[0] in want and g.space.root().kind == 'FacetFESpace':
                val = ZERO           # vectors start from zero
                for sel, v in g.vec.parts:
                    if len(v.t) == 0:
                        x = ZERO
                    elif list(v.t) == [((), 'ones')]:
                        x = v.t[((), 'ones')]
                    else:
                        x = None
                    if sel == 'all' or selected(sel, facet):
                        val = x
                if val is not None:
                    out[g.e[0]] = val
        return out

    def collect(self):
        """{(kind, name): E}: kind in cell / trace / boundary / boundary trace, name of material or boundary"""
        out = {}
        for cc, e, d in self.terms:
            vb, part, pat = d.region()
            if vb == 'VOL' and part == '':
                kind, ns = 'cell', names(pat, self.mesh.materials)
            elif vb == 'VOL' and part == 'element_boundary':
                kind, ns = 'facet', names(pat, self.mesh.materials)
            elif vb == 'BND' and part == 'skeleton':
                kind, ns = 'skeleton', names(pat, self.mesh.boundaries)
            else:
                kind, ns = f"{vb}/{part}", names(pat, self.mesh.boundaries if vb == 'BND' else self.mesh.materials)
            for n in ns:
                out[(kind, n)] = A.add(out.get((kind, n), ZERO), A.mul(cc, e))
        return out

    # ---- projections on test functions
    def tested(self, e, label):
        """the part of an integrand tested with one unknown's test function or its gradient"""
        z = {}
        for k, vs in self.v.items():
            if k != label:
                for v in vs:
                    z[v] = ZERO
                    for g in self.grad(v):
                        z[g] = ZERO
        return A.subst(e, z)


def cons(s):
    return [s.v['rho'][0], *s.v['rho_u'], s.v['rho_E'][0]]


def vec_cf(es):
    return F.Cf(tuple(es), (len(es),))


def dotE(a, b):
    return F.dot(tuple(a), tuple(b))
