"""C33: options a user adds by subclassing take effect and what they leave out is refused; C34: drawn scenes follow the solution."""
from __future__ import annotations

import itertools

from .. import alg as A
from .. import fields as F
from ..check import sharded
from ..interp import PyEx, Unsupported, IModule
from ..flow import State, solver, gamma_of, psym, source, mesh as make_mesh
from ..forms import Setup
from .again import parameters, View, compare, BNDS, MATS
from .run_ import Scene

N = A.num

# interface: path on a solver, an option of it (module, name), functions an option has to bring along with their arguments
VALUES = ('density', 'pressure', 'temperature', 'inner_energy', 'specific_inner_energy', 'speed_of_sound')
GRADIENTS = ('density_gradient', 'pressure_gradient', 'temperature_gradient')
PLAIN = ('primitive_from_conservative', 'conservative_from_primitive', 'primitive_convective_jacobian_x', 'primitive_convective_jacobian_y',
         'conservative_convective_jacobian_x', 'conservative_convective_jacobian_y')
DIRECTED = ('characteristic_velocities', 'primitive_from_characteristic', 'conservative_from_characteristic', 'characteristic_from_primitive',
            'characteristic_from_conservative')
WAVES = ('characteristic_variables', 'characteristic_amplitudes')
DELEGATES = {**{f: ('U',) for f in VALUES + PLAIN}, **{f: ('U', 'dU') for f in GRADIENTS}, **{f: ('U', 'n') for f in DIRECTED},
             **{f: ('U', 'dU', 'n') for f in WAVES}, 'isentropic_density': ('U', 'U')}

TIME = {'assemble': (), 'start_solution_routine': ()}
SCHEME = {'add_symbolic_temporal_forms': ('name', 'dict', 'dict'), 'assemble': (), 'solve_current_time_level': ()}
SOLVE = {'inverse': ('form', 'space'), 'solve': ()}
INTERFACES = {
    'equation_of_state': ('dream.compressible.eos', 'IdealGas', DELEGATES),
    'dynamic_viscosity': ('dream.compressible.viscosity', 'Inviscid', {'viscosity': ('U',)}),
    'scaling': ('dream.compressible.scaling', 'Acoustic', {'velocity_magnitude': ('number',), 'speed_of_sound': ('number',)}),
    'riemann_solver': ('dream.compressible.riemann_solver', 'Roe', {'get_convective_stabilisation_matrix': ('U', 'n')}),
    'fem.mixed_method': ('dream.compressible.formulations.conservative', 'Inactive', {'add_mixed_finite_element_spaces': ('dict',)}),
    'time.scheme': ('dream.time', 'ImplicitEuler', SCHEME),
    'time': ('dream.time', 'StationaryConfig', TIME),
    'linear_solver': ('dream.solver', 'UmfpackLinearSolver', SOLVE),
    'nonlinear_solver': ('dream.solver', 'UmfpackNonlinearSolver', {'inverse': SOLVE['inverse'], 'solve_update_step': ()}),
    'nonlinear_solver.method': ('dream.solver', 'NewtonsMethod', {'update_solution': ()}),
    'fem': ('dream.compressible.formulations.conservative', 'ConservativeFiniteElementMethod',
            {'add_finite_element_spaces': ('dict',), 'add_symbolic_spatial_forms': ('dict', 'dict'), 'add_symbolic_temporal_forms': ('dict', 'dict'),
             'get_temporal_integrators': (), 'get_fields': ('dict',)}),
}


def root(c, mod, cls):
    it = c.it
    return it.getattr(it.getattr(c.api(mod, cls), 'tree'), 'root')


def at(it, cfg, path):
    for p in path.split('.'):
        cfg = it.getattr(cfg, p)
    return cfg


def put(it, cfg, path, v):
    *h, last = path.split('.')
    it.setattr(at(it, cfg, '.'.join(h)) if h else cfg, last, v)


def c33(c):
    it = c.it

    def arguments(it, cfg, s, spec):
        d = s.grads()
        out = []
        for a in spec:
            if a == 'U':
                out.append(s.fields(c))
            elif a == 'dU':
                out.append(it.call(c.api('dream.compressible', 'flowfields'), [], dict(d)))
            elif a == 'n':
                out.append(F.Cf((N('3/5'), N('4/5')), (2,)))
            elif a == 'number':
                out.append(0.5)
            elif a == 'name':
                out.append('U')
            elif a == 'dict':
                out.append({})
            else:
                out.append(None)
        return out

    def refused(c):
        """an interface function the option does not bring along"""
        n = 0
        for path, (mod, cls, functions) in INTERFACES.items():
            for f, spec in functions.items():
                def go(it):
                    base = root(c, mod, cls)
                    ns = source(it, "class Mine(Base):\n    name = 'mine'\n", Base=base)
                    cfg = solver(c, 2)
                    if path == 'time.scheme':
                        it.setattr(cfg, 'time', 'transient')
                    put(it, cfg, path, 'mine')
                    o = at(it, cfg, path)
                    if o.cls is not ns['Mine']:
                        return False, None
                    r = it.call(it.getattr(o, f), arguments(it, cfg, State(gamma_of(it, cfg), 2) if path != 'equation_of_state'
                                                            else State(A.declare('gm', 'pos'), 2), spec))
                    if isinstance(r, type(None)) or not hasattr(r, '__next__'):
                        return True, r
                    return True, it.to_list(r)
                for out in c.explore(go):
                    ok = out.excname == 'NotImplementedError'
                    c.ob('refused', f"{path}: {f} of an option without it raises NotImplementedError", ok,
                         f"{out.exc or repr(out.value)[:100]}", out.exc.where if out.exc else None)
                n += 1
        c.need('interface functions', n, 43)

    def delegates(c):
        """relations of a user's equation of state are those of the solver"""
        n = 0
        for f, spec in DELEGATES.items():
            for extra in (('incoming',), ('outgoing',)) if f in ('characteristic_velocities', 'characteristic_amplitudes') else ((),):
                def go(it):
                    base = root(c, 'dream.compressible.eos', 'IdealGas')
                    mark = F.Cf((A.declare('mark', 'real'),))
                    seen = []
                    a = ', '.join([{'n': 'unit_vector'}.get(x, x) for x in (spec if f != 'isentropic_density' else ('U', 'Uref'))] + ['type_'][:len(extra)])
                    ns = source(it, f"class Mine(Base):\n    name = 'mine'\n    def {f}(self, {a}):\n        seen.append(({a},))\n        return mark\n",
                                Base=base, mark=mark, seen=seen)
                    cfg = solver(c, 2)
                    it.setattr(cfg, 'equation_of_state', 'mine')
                    ff = c.api('dream.compressible', 'flowfields')
                    args = [it.call(ff, [], {}) if x in ('U', 'dU') else x for x in spec]
                    args = [F.Cf((N('3/5'), N('4/5')), (2,)) if x == 'n' else x for x in args]
                    if f in VALUES:
                        # something is known, but nothing that settles the quantity
                        args = [it.call(ff, [], {'u': F.Cf((N(1), N(2)), (2,))})]
                    args += list(extra)
                    r = it.call(it.getattr(cfg, f), args)
                    return r, seen, args
                for out in c.explore(go):
                    name = f"{f}{extra or ''}"
                    if out.exc:
                        c.ob('delegated', f"{name} of a user's equation of state", False, str(out.exc), out.exc.where)
                        continue
                    r, seen, args = out.value
                    got = F.cf_of(it, r)
                    c.ob('delegated', f"{name} of a user's equation of state", len(got.e) == 1 and got.e[0] == A.sym('mark'), f"{r!r}")
                    c.ob('delegated', f"{name}: arguments", len(seen) == 1 and len(seen[0]) == len(args) and all(x is y or x == y for x, y in zip(seen[0], args)),
                         f"{seen}")
                n += 1
        c.need('delegated relations', n, 24)

    def used(c):
        """fluxes, farfield states and residual are those of the user's options"""
        def flux(it):
            source(it, "class Gas(Base):\n    name = 'gas'\n    def density(self, U):\n        return U.rho\n"
                       "    def inner_energy(self, U):\n        return U.rho_E - U.rho_Ek\n"
                       "    def pressure(self, U):\n        return 3*U.rho_Ei - 2*U.rho\n"
                       "    def temperature(self, U):\n        return U.rho_Ei**2\n"
                       "    def speed_of_sound(self, U):\n        return U.rho_Ei/U.rho\n", Base=root(c, 'dream.compressible.eos', 'IdealGas'))
            cfg = solver(c, 2)
            it.setattr(cfg, 'equation_of_state', 'gas')
            r, e = A.declare('R', 'pos'), A.declare('e', 'pos')
            m = [A.declare(x, 'real') for x in ('M1', 'M2')]
            U = it.call(it.getattr(it.getattr(it.getattr(cfg, 'fem'), 'method'), 'get_conservative_fields'), [F.Cf((r, *m, e), (4,))])
            u = [A.div(x, r) for x in m]
            rEi = A.sub(e, A.mul(N('1/2'), F.dot(m, u)))
            p = A.sub(A.mul(N(3), rEi), A.mul(N(2), r))
            rows = [('flux', F.cf_of(it, it.call(it.getattr(cfg, 'get_convective_flux'), [U])),
                     [*m] + [A.add(A.mul(x, y), p) if i == j else A.mul(x, y) for i, x in enumerate(m) for j, y in enumerate(u)] +
                     [A.mul(A.add(e, p), x) for x in u]),
                    ('pressure', F.cf_of(it, it.getattr(U, 'p')), [p]), ('temperature', F.cf_of(it, it.getattr(U, 'T')), [A.mul(rEi, rEi)]),
                    ('speed of sound', F.cf_of(it, it.getattr(U, 'c')), [A.div(rEi, r)])]
            return rows
        out = c.run1(flux)
        if out.exc:
            c.ob('used', "convective flux of a user's gas", False, str(out.exc), out.exc.where)
        else:
            for k, g, w in out.value:
                c.equal_cf('used', f"{k} of a user's gas", g, F.Cf(tuple(w), g.dims))

        def stress(it):
            source(it, "class Power(Base):\n    name = 'power'\n    @property\n    def is_inviscid(self):\n        return False\n"
                       "    def viscosity(self, U):\n        return 2*self.cfg.temperature(U)**3\n", Base=root(c, 'dream.compressible.viscosity', 'Inviscid'))
            cfg = solver(c, 2, dynamic_viscosity='power', scaling='acoustic')
            s = State(gamma_of(it, cfg), 2)
            d = it.call(c.api('dream.compressible', 'flowfields'), [], dict(s.grads()))
            U = s.fields(c)
            G = F.cf_of(it, it.call(it.getattr(cfg, 'get_diffusive_flux'), [U, d]))
            ma, re, pr = (psym(it, it.getattr(cfg, q)) for q in ('mach_number', 'reynolds_number', 'prandtl_number'))
            sub = {**s.sub, ma: A.declare('Ma', 'pos'), re: A.declare('Re', 'pos'), pr: A.declare('Pr', 'pos')}
            T = s.v['T'][0]
            mu = A.mul(N(2), A.mul(T, A.mul(T, T)))
            k = A.div(A.mul(mu, ma), re)
            eps, gT = s.grads()['eps'].e, s.grads()['grad_T'].e
            tau = [A.mul(N(2), A.mul(k, x)) for x in eps]
            q = [A.neg(A.mul(A.div(k, pr), x)) for x in gT]
            w = [A.num(0), A.num(0), *tau]
            u = s.v['u']
            for j in range(2):
                w.append(A.sub(A.add(A.mul(tau[j], u[0]), A.mul(tau[2 + j], u[1])), q[j]))
            return G, F.Cf(tuple(w), (4, 2)), sub
        out = c.run1(stress)
        if out.exc:
            c.ob('used', "diffusive flux of a user's viscosity law", False, str(out.exc), out.exc.where)
        else:
            g, w, sub = out.value
            c.equal_cf('used', "diffusive flux of a user's viscosity law", g, w, sub)

        def far(it):
            source(it, "class Mine(Base):\n    name = 'mine'\n    def velocity_magnitude(self, mach_number):\n        return 3*mach_number\n"
                       "    def speed_of_sound(self, mach_number):\n        return 3.0\n    def density(self):\n        return 2.0\n",
                   Base=root(c, 'dream.compressible.scaling', 'Acoustic'))
            cfg = solver(c, 2, scaling='mine')
            g, ma = gamma_of(it, cfg), psym(it, it.getattr(cfg, 'mach_number'))
            f = it.call(it.getattr(cfg, 'get_farfield_state'), [(3, 4)])
            want = {'rho': (N(2),), 'c': (N(3),), 'u': (A.mul(N('9/5'), ma), A.mul(N('12/5'), ma)), 'T': (A.div(N(9), A.sub(g, N(1))),),
                    'p': (A.div(N(18), g),)}
            sub = {g: A.add(N(1), A.declare('g', 'pos')), ma: A.declare('Ma', 'pos')}
            return [(k, F.cf_of(it, it.getattr(f, k)), w) for k, w in want.items()], sub
        out = c.run1(far)
        if out.exc:
            c.ob('used', "farfield state of a user's scaling", False, str(out.exc), out.exc.where)
        else:
            rows, sub = out.value
            for k, g, w in rows:
                c.equal_cf('used', f"farfield {k} of a user's scaling", g, F.Cf(w, g.dims), sub)

        def mapped(it):
            """a relation the user's option overrides while inheriting from a built-in one"""
            ns = source(it, "class Mine(Base):\n    name = 'mine'\n    def get_convective_stabilisation_matrix(self, U, unit_vector):\n"
                            "        return 7*super().get_convective_stabilisation_matrix(U, unit_vector)\n", Base=c.api('dream.compressible.riemann_solver', 'HLL'))
            cfg = solver(c, 2, riemann_solver='mine')
            base = solver(c, 2, riemann_solver='hll')
            s = State(gamma_of(it, cfg), 2)
            n = F.Cf((N('3/5'), N('4/5')), (2,))
            a = it.call(it.getattr(it.getattr(cfg, 'riemann_solver'), 'get_convective_stabilisation_matrix'), [s.fields(c), n])
            b = it.call(it.getattr(it.getattr(base, 'riemann_solver'), 'get_convective_stabilisation_matrix'), [s.fields(c), n])
            return F.cf_of(it, a), F.cf_of(it, it.binop(__import__('ast').Mult, 7, b)), s.sub
        out = c.run1(mapped)
        if out.exc:
            c.ob('used', "a user's Riemann solver derived from a built-in one", False, str(out.exc), out.exc.where)
        else:
            g, w, sub = out.value
            c.equal_cf('used', "a user's Riemann solver derived from a built-in one", g, w, sub)

    USER = """class Mine(Base):
    name = 'mine'
    def add_finite_element_spaces(self, spaces):
        {spaces}
        spaces['W'] = L2(self.mesh, order=self.order)
    def add_symbolic_spatial_forms(self, blf, lf):
        {spatial}
        w, q = self.cfg.TnT['W']
        blf['reaction'] = k*w*q*dx
        lf['load'] = f*q*dx + g*q*ds(skeleton=True, definedon=self.mesh.Boundaries('left'))
    def add_symbolic_temporal_forms(self, blf, lf):
        {temporal}
        self.cfg.time.scheme.add_symbolic_temporal_forms('W', blf, lf)
    def get_temporal_integrators(self):
        return {integrators}
{more}"""
    KINDS = {
        'derived': ('dream.compressible.formulations.conservative', 'ConservativeFiniteElementMethod',
                    dict(spaces='super().add_finite_element_spaces(spaces)', spatial='super().add_symbolic_spatial_forms(blf, lf)',
                         temporal='super().add_symbolic_temporal_forms(blf, lf)', integrators="{**super().get_temporal_integrators(), 'W': dx}",
                         more='')),
        'own': ('dream.compressible.formulations.conservative', 'ConservativeFiniteElementMethod',
                dict(spaces='pass', spatial='pass', temporal='pass', integrators="{'W': dx}",
                     more="    def set_boundary_conditions(self):\n        pass\n    def set_initial_conditions(self):\n        pass\n"))}
    RATES = {'implicit_euler': (N(1), (N(1), N(-1))), 'bdf2': (N(2), (N(3), N(-4), N(1)))}

    @sharded
    def forms(c):
        """unknowns, forms and loads of a user's finite element method enter the assembled system, next to inherited ones"""
        n = 0
        for kind, time, comp in itertools.product(KINDS, (('stationary', None), ('transient', 'implicit_euler'), ('transient', 'bdf2'),
                                                          ('pseudo_time_stepping', 'implicit_euler'), ('pseudo_time_stepping', 'bdf2')),
                                                  (None, False, True)):
            if not c.turn():
                continue
            mod, cls, parts = KINDS[kind]
            name = f"{kind}, {' '.join(filter(None, time))}, {'as it is' if comp is None else f'compiled {comp}'}"

            def go(it, mine=True):
                base = c.api(mod, cls)
                if mine:
                    ngs = it.import_module('ngsolve')
                    par = {x: F.Cf((A.declare(f"{x}_user", 'real'),)) for x in 'kfg'}
                    source(it, USER.format(**parts), Base=base if kind == 'derived' else root(c, mod, cls),
                           L2=it.getattr(ngs, 'L2'), dx=it.getattr(ngs, 'dx'), ds=it.getattr(ngs, 'ds'), **par)
                opts = {'optimizations.compile.realcompile': bool(comp)}
                if comp is None:
                    opts = {}
                elif comp:
                    opts.update({'optimizations.compile.wait': True, 'optimizations.compile.keep_files': True})
                if mine:
                    opts['fem'] = 'mine'
                S = Setup(c, 2, time=time[0], scheme=time[1], opts=opts, initial=kind == 'derived', initialize=False)
                S.start()
                # parameters and old levels by their place
                sub = {x: A.declare(f"par<{path}>", 'pos') for x, path in parameters(it, S.cfg).items()}
                if time[1]:
                    for var, d in it.getattr(it.getattr(it.getattr(S.cfg, 'time'), 'scheme'), 'gfus').items():
                        for lv in list(it.mapping_keys(d))[:-1]:
                            for i, x in enumerate(it.getitem(d, lv).e):
                                sub[x] = A.declare(f"level<{var}{i},{lv}>", 'real')
                masks = [S.masks(b) for b in ('', *S.mesh.boundaries)]
                for x in set().union(*masks):
                    sub[x] = A.declare(f"mask<{[repr(m.get(x)) for m in masks]}>", 'real')
                sub.update(S.sub)
                return S, {k: A.subst(e, sub) for k, e in S.collect().items()}, sub

            out = c.run1(go)
            n += 1
            if out.exc:
                c.ob('forms', name, False, str(out.exc), out.exc.where)
                continue
            S, got, canon = out.value
            if comp is None or comp:
                want = (True, True, True) if comp else None
                flags = {getattr(t, 'compiled', None) for f in (S.bform, S.lform) if f for t in f.terms}
                c.ob('forms', f"{name}: compiled as configured", len(flags) == 1 and flags.pop() in ((want,) if comp else ((True, False, False),)),
                     f"{flags}")
            else:
                flags = {getattr(t, 'compiled', None) for f in (S.bform, S.lform) if f for t in f.terms}
                c.ob('forms', f"{name}: not compiled", flags == {None}, f"{flags}")
            if not S.has('W'):
                c.ob('forms', f"{name}: the unknown", False, 'not among the unknowns')
                continue
            inherited = {}
            if kind == 'derived':
                b = c.run1(lambda it: go(it, False))
                if b.exc:
                    c.ob('forms', f"{name}: inherited", False, str(b.exc), b.exc.where)
                    continue
                inherited = b.value[1]
            w, q = (x.e[0] for x in S.proxies('W'))
            k, f, g = (A.sym(f"{x}_user") for x in 'kfg')
            zero = A.num(0)
            extra = {}
            for m in S.mesh.materials:
                extra['cell', m] = A.sub(A.mul(A.mul(k, w), q), A.mul(f, q))
            extra['skeleton', 'left'] = A.neg(A.mul(g, q))
            if time[1]:
                it = S.it
                den, cs = RATES[time[1]]
                sch = it.getattr(it.getattr(S.cfg, 'time'), 'scheme')
                lv = it.getitem(it.getattr(sch, 'gfus'), 'W')
                keys = list(it.mapping_keys(lv))[::-1]
                dt = it.getattr(it.getattr(it.getattr(S.cfg, 'time'), 'timer'), 'step').e[0]
                c.ob('forms', f"{name}: time levels", len(keys) == len(cs), f"{keys}")
                rate = zero
                for key, x in zip(keys, cs):
                    rate = A.add(rate, A.mul(x, w if key == keys[0] else it.getitem(lv, key).e[0]))
                for m in S.mesh.materials:
                    extra['cell', m] = A.add(extra['cell', m], A.mul(A.div(rate, A.mul(den, dt)), q))
            z = {q: zero, **{x: zero for x in S.grad(q)}}
            for key in sorted(set(got) | set(inherited) | set(extra), key=repr):
                e = got.get(key, zero)
                rest = A.subst(e, z)
                c.equal('forms', f"{name}: own part of the {key[0]} integrals over {key[1]}", A.sub(e, rest), A.subst(extra.get(key, zero), canon))
                if kind == 'derived':
                    if rest is inherited.get(key, zero):
                        c.ob('forms', f"{name}: inherited part of the {key[0]} integrals over {key[1]}", True)
                    else:
                        c.equal('forms', f"{name}: inherited part of the {key[0]} integrals over {key[1]}", rest, inherited.get(key, zero))
                else:
                    c.equal('forms', f"{name}: nothing else in the {key[0]} integrals over {key[1]}", rest, zero)
        c.need('user formulations', n, 30)

    VISCOUS = {'viscosity': 'constant'}
    TWINS = [('equation_of_state', 'ideal', {}), ('equation_of_state', 'ideal', VISCOUS), ('dynamic_viscosity', 'inviscid', {}),
             ('dynamic_viscosity', 'constant', VISCOUS),
             ('dynamic_viscosity', 'sutherland', VISCOUS),
             *(('scaling', x, v) for x in ('aerodynamic', 'acoustic', 'aeroacoustic') for v in ({}, VISCOUS)),
             *(('riemann_solver', x, {}) for x in ('upwind', 'lax_friedrich', 'roe', 'hll', 'hllem')), ('riemann_solver', 'roe', VISCOUS),
             ('fem.mixed_method', 'inactive', {}), ('fem.mixed_method', 'strain_heat', VISCOUS),
             ('fem', 'conservative', {}), ('fem', 'conservative', VISCOUS), ('fem.method', 'hdg', {}), ('fem.method', 'hdg', VISCOUS),
             ('time.scheme', 'implicit_euler', {'time': 'transient'}), ('time.scheme', 'bdf2', {'time': 'transient'}),
             ('time.scheme', 'bdf2', {'time': 'pseudo_time_stepping'}), ('time', 'stationary', {}), ('time', 'transient', {'time': 'transient'}),
             ('time', 'pseudo_time_stepping', {'time': 'pseudo_time_stepping'}), ('nonlinear_solver.method', 'newton', {})]
    COMPOSED = ('equation_of_state', 'scaling', 'riemann_solver', 'dynamic_viscosity')
    MORE = {'fem.method': ('dream.compressible.formulations.conservative', 'HDG')}
    SKIPPED = {'name', 'aliases', 'tree', 'cfgs'}

    @sharded
    def twins(c):
        """an option with the content of a built-in one, under a name of its own, derived from it or not, makes the same solver"""
        n = 0
        for path, name, conf in TWINS:
            for kind in ('derived', 'composed') if path in COMPOSED and name != 'inviscid' else ('derived',):
                if not c.turn():
                    continue

                def go(it, mine):
                    mixed = conf.get('mixed') or ('strain_heat' if conf.get('viscosity') else 'inactive')
                    if path == 'fem.mixed_method':
                        mixed = name
                    opts = {path: name}
                    if mine:
                        r = root(c, *INTERFACES.get(path, MORE.get(path))[:2])
                        base = it.getitem(it.getattr(r, 'tree'), name)
                        if kind == 'derived':
                            source(it, "class Mine(Base):\n    name = 'mine'\n    aliases = ()\n", Base=base)
                        else:
                            items = {k: v for m in reversed(base.mro) if m is not r and r in m.mro for k, v in m.ns.items()
                                     if k not in SKIPPED and not k.startswith('__')}
                            text = "class Mine(Base):\n    name = 'mine'\n" + ''.join(f"    {k} = its_{k}\n" for k in items)
                            source(it, text, Base=r, **{f"its_{k}": v for k, v in items.items()})
                        opts = {path: 'mine'}
                    if path == 'fem':
                        opts['fem.mixed_method'] = mixed
                    S = Setup(c, 2, time=conf.get('time', 'stationary'), boundaries=BNDS, materials=MATS,
                              viscosity=conf.get('viscosity', 'inviscid'), mixed=conf.get('mixed'), initialize=False, opts=opts)
                    cfg = S.cfg
                    if it.getattr(at(it, cfg, path), 'name') != opts[path]:
                        raise Unsupported('not selected')
                    ff = c.api('dream.compressible', 'flowfields')
                    st = State(S.gamma, 2, tag='b')
                    it.setitem(it.getattr(cfg, 'bcs'), BNDS[0], it.call(c.api('dream.compressible', 'FarField'), [], {'fields': st.fields(c)}))
                    it.setitem(it.getattr(cfg, 'bcs'), BNDS[1], it.call(c.api('dream.compressible', 'Outflow'), [], {
                        'fields': it.call(ff, [], {'p': F.Cf(tuple(st.v['p']))})}))
                    wall = 'InviscidWall' if not conf.get('viscosity') else 'AdiabaticWall' if mixed == 'strain_heat' else 'IsothermalWall'
                    it.setitem(it.getattr(cfg, 'bcs'), BNDS[2], it.call(c.api('dream.compressible', wall), [], {
                        'fields': it.call(ff, [], {'T': F.Cf(tuple(st.v['T']))})} if wall == 'IsothermalWall' else {}))
                    n0 = len(it.events)
                    S.start()
                    V = View(S, n0)
                    # relations the solver offers
                    rows = {}
                    s2 = State(S.gamma, 2, tag='inf')
                    U, R, dU = S.s.fields(c), s2.fields(c), it.call(ff, [], dict(S.s.grads()))
                    nn = F.Cf((N('3/5'), N('4/5')), (2,))
                    calls = {'stress_tensor': (U, dU), 'drag_coefficient': (U, dU, R, (3, 4)), 'lift_coefficient': (U, dU, R, (3, 4)),
                             'pressure_coefficient': (U, R), 'get_farfield_state': ((3, 4),), 'get_convective_flux': (U,),
                             'get_diffusive_flux': (U, dU), 'viscosity': (U,), 'mach_number': None,
                             'isentropic_density': (U, R), 'characteristic_velocities': (U, nn), 'local_mach_number': (U,),
                             'local_reynolds_number': (U,), 'sound_pressure_level': (U, R), 'deviatoric_stress_tensor': (U, dU), 'heat_flux': (U, dU)}
                    for f, a in calls.items():
                        if a is None:
                            continue
                        try:
                            r = it.call(it.getattr(cfg, f), list(a))
                            rows[f] = {k: F.cf_of(it, it.getitem(r, k)) for k in it.mapping_keys(r)} if f == 'get_farfield_state' else {'': F.cf_of(it, r)}
                        except PyEx as e:
                            rows[f] = e.name if hasattr(e, 'name') else str(e).split(':')[0]
                    f = it.call(it.getattr(cfg, 'get_fields'), [], {})
                    rows['get_fields'] = {k: F.cf_of(it, it.getitem(f, k)) for k in it.mapping_keys(f)}
                    flat = {(k, q): (tuple(A.subst(e, V.sub) for e in x.e), x.dims) for k, d in rows.items() if isinstance(d, dict)
                            for q, x in d.items()}
                    return V, flat, {k: x for k, x in rows.items() if not isinstance(x, dict)}

                label = f"{path}: {kind} twin of {name}{' viscous' if conf.get('viscosity') else ''}{conf.get('mixed', '')}{' in ' + conf['time'] if 'time' in conf else ''}"
                a, b = c.run1(lambda it: go(it, True)), c.run1(lambda it: go(it, False))
                n += 1
                if a.exc or b.exc:
                    c.ob('twins', label, False, str(a.exc or b.exc), (a.exc or b.exc).where)
                    continue
                (V, r, x), (W, s, y) = a.value, b.value
                compare(c, label, V, W, 'twins')
                c.ob('twins', f"relations refused, {label}", x == y, f"{x} instead of {y}")
                c.ob('twins', f"relations offered, {label}", set(r) == set(s), f"{sorted(set(r) ^ set(s))}")
                for k in sorted(set(r) & set(s)):
                    (p, d), (q, e) = r[k], s[k]
                    what = f"{' '.join(filter(None, k))}, {label}"
                    if d == e and all(u is v for u, v in zip(p, q)):
                        c.ob('twins', what, True)
                    elif c.ob('twins', f"shape of {what}", d == e, f"{d} instead of {e}"):
                        for i, (u, v) in enumerate(zip(p, q)):
                            c.equal('twins', f"{what} [{i}]", u, v)
        c.need('twins of built-in options', n, 41)

    for f in (refused, delegates, used, forms, twins):
        c.part(f)


def c34(c):
    it = c.it

    def scenes(it, s, names, kw):
        n0 = len(it.events)
        it.call(it.getattr(s.io, 'draw'), [{k: F.Cf((A.declare(f"q_{k}", 'real'),)) for k in names}], kw)
        return [e for e in it.events[n0:] if e[0] == 'draw']

    def drawn(c):
        """each field once, under its name, on the mesh of the solver, with the options given"""
        n = 0
        for names, kw in itertools.product((('rho',), ('rho', 'u', 'p'), ()), ({}, {'order': 3}, {'autoscale': False, 'min': 0.5})):
            def go(it):
                s = Scene(c, streams=())
                return scenes(it, s, names, dict(kw)), s.S.mesh
            for out in c.explore(go):
                name = f"draw {', '.join(names) or 'nothing'} with {kw}"
                if out.exc:
                    c.ob('drawn', name, False, str(out.exc), out.exc.where)
                    continue
                ev, mesh = out.value
                want = [(f"q_{k}", k) for k in names]
                got = []
                for _, a, k in ev:
                    args = dict(zip(('cf', 'mesh', 'name'), a))
                    args.update({x: y for x, y in k.items() if x in ('cf', 'mesh', 'name')})
                    e = F.cf_of(it, args['cf']).e[0]
                    got.append((e.args[0], args['name']))
                    c.ob('drawn', f"{name}: mesh", args['mesh'] is mesh, f"{args['mesh']!r}")
                    rest = {x: y for x, y in k.items() if x not in ('cf', 'mesh', 'name')}
                    c.ob('drawn', f"{name}: options", rest == kw, f"{rest}")
                c.ob('drawn', f"{name}: fields", got == want, f"{got} instead of {want}")
                n += 1
        c.need('drawings', n, 9)

    def redrawn(c):
        """every scene is refreshed, nothing happens without scenes, and a second drawing replaces the first"""
        for first, second in itertools.product((None, (), ('rho',), ('rho', 'u')), (None, ('p', 'T', 'c'))):
            for blocking, gui in itertools.product((False, True), (False, True, 'some')):
                if gui == 'some' and (first is None or second is None):
                    continue

                def go(it):
                    s = Scene(c, streams=())
                    it.no_gui = ('rho', 'T') if gui == 'some' else not gui
                    for names in (first, second):
                        if names is not None:
                            scenes(it, s, names, {})
                    n0 = len(it.events)
                    it.call(it.getattr(s.io, 'redraw'), [blocking] if blocking else [])
                    it.no_gui = False
                    return it.events[n0:]
                name = f"redraw after drawing {first} then {second}, blocking {blocking}{'' if gui is True else ', without window' if not gui else ', scenes of rho and T without window'}"
                for out in c.explore(go):
                    if out.exc:
                        c.ob('redrawn', name, False, str(out.exc), out.exc.where)
                        continue
                    last = second if second is not None else first
                    if not gui:
                        c.ob('redrawn', f"{name}: no scenes", not any(e[0] == 'scene.redraw' for e in out.value), 'a scene is refreshed')
                        w = [e for e in out.value if e[0] == 'redraw']
                        c.ob('redrawn', f"{name}: window", len(w) == 1 and tuple(w[0][1]) == (blocking,) if last is not None else not w, f"{w}")
                        continue
                    if gui == 'some':
                        last = tuple(x for x in last if x not in ('rho', 'T'))
                    sc = [e[1].name for e in out.value if e[0] == 'scene.redraw']
                    c.ob('redrawn', f"{name}: scenes", len(sc) == len(set(sc)) == len(last or ()) and all(x == f"scene {k}" for x, k in zip(sc, last or ())), f"{sc}")
                    w = [e for e in out.value if e[0] == 'redraw']
                    c.ob('redrawn', f"{name}: window", len(w) == 1 and tuple(w[0][1]) == (blocking,) if last is not None else not w, f"{w}")

    def runs(c):
        """time dependent runs and loads refresh the scenes after each step"""
        for time, steps in (('transient', 3), ('transient', 1), ('pseudo_time_stepping', 2)):
            def go(it):
                s = Scene(c, time=time, steps=steps)
                scenes(it, s, ('rho', 'u'), {})
                n0 = len(it.events)
                g = s.routine()
                for t in it.iterate(g):
                    it.events.append(('mark', 'yield', t))
                return it.events[n0:], s
            out = c.run1(go)
            if out.exc:
                c.ob('follows', time, False, str(out.exc), out.exc.where)
                continue
            ev, s = out.value
            # what happens between two changes of the solution
            k = [e[0] for e in ev]
            solved = [i for i, e in enumerate(ev) if e[0] == 'mark']
            for j, i in enumerate(solved):
                end = solved[j + 1] if j + 1 < len(solved) else len(ev)
                w = k[i:end].count('scene.redraw') if time == 'transient' else None
                if w is not None:
                    c.ob('follows', f"{time}, {steps} steps: scenes are refreshed after step {j + 1}", w == 2, f"{w} refreshes of two scenes")
            if time != 'transient':
                c.ob('follows', f"{time}: scenes are refreshed in and after the iteration", k[:solved[0]].count('scene.redraw') >= 2
                     and k[solved[0]:].count('scene.redraw') == 2, f"{k.count('scene.redraw')}")

    for f in (drawn, redrawn, runs):
        c.part(f)


RULES = {'C33': c33, 'C34': c34}
