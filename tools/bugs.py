"""Planted bugs: each breaks a property, keeps the stable tests and needs something specific to show."""

PRELUDE = '''import os, sys, tempfile
os.environ.setdefault("OMP_NUM_THREADS", "1")
import logging
import ngsolve as ngs
import numpy as np
from ngsolve.meshes import MakeStructured2DMesh
from netgen.occ import OCCGeometry, Rectangle, Glue
import dream.compressible.config as dc
import dream.mesh as dm
from dream.compressible import *
from dream.compressible.config import flowfields


def check(ok, what):
    if not ok:
        print("broken:", what, file=sys.stderr)
        sys.exit(1)


def near(a, b, tol=1e-9):
    return np.allclose(np.array(a, dtype=float), np.array(b, dtype=float), rtol=tol, atol=tol)


def square():
    return MakeStructured2DMesh(True, 2, 2)


def two_domains():
    a = Rectangle(1, 1).Face()
    a.name = "a"
    b = Rectangle(2, 1).Face() - a
    b.name = "b"
    return ngs.Mesh(OCCGeometry(Glue([a, b]), dim=2).GenerateMesh(maxh=0.5))


def mat(mesh):
    return mesh.GetMaterials()[0]


def solver(mesh, **kw):
    cfg = CompressibleFlowSolver(mesh)
    cfg.optimizations.compile.realcompile = False
    cfg.update(kw)
    return cfg


def residual(cfg, name, values):
    """action of one form on the constant trial values {space: tuple}"""
    blf = ngs.BilinearForm(cfg.fes)
    blf += cfg.blf[name]
    gfu = ngs.GridFunction(cfg.fes)
    for (label, val), comp in zip(values.items(), gfu.components):
        if val is not None:
            comp.Set(ngs.CF(val), **({"dual": False} if False else {}))
    r = gfu.vec.CreateVector()
    blf.Apply(gfu.vec, r)
    return gfu, r


'''

BUGS = []


def bug(id, property, file, old, new, needs, breaks, demo, more=()):
    BUGS.append({'id': id, 'property': property, 'edits': [(file, old, new), *more], 'needs': needs, 'breaks': breaks,
                 'demo': demo})


EOS = 'dream/compressible/eos.py'
SOL = 'dream/compressible/solver.py'
CON = 'dream/compressible/formulations/conservative.py'
RS = 'dream/compressible/riemann_solver.py'
CCF = 'dream/compressible/config.py'
SC = 'dream/compressible/scaling.py'
VIS = 'dream/compressible/viscosity.py'
MESH = 'dream/mesh.py'
TIME = 'dream/time.py'
MSOL = 'dream/solver.py'
IO = 'dream/io.py'
CFG = 'dream/config.py'
BLA = 'dream/bla.py'

bug('c01-energy-mix', 'C02', SOL,
    """        elif all((U.rho_Ei, U.rho_Ek)):
            logger.debug("Returning energy from inner energy and kinetic energy.")
            return U.rho_Ei + U.rho_Ek

        else:
            logger.debug("Returning energy from calculated""",
    """        elif all((U.rho_Ei, U.rho_Ek)):
            logger.debug("Returning energy from inner energy and kinetic energy.")
            return U.rho_Ei + U.rho_Ek

        elif all((U.Ei, U.Ek)):
            logger.debug("Returning energy from specific inner energy and specific kinetic energy.")
            return U.Ei + U.Ek

        else:
            logger.debug("Returning energy from calculated""",
    'energy asked from a state that knows specific inner and kinetic energy but not their volume forms, at a density other than one',
    'the total energy misses the density', '''
mesh = square()
cfg = solver(mesh)
U = flowfields(rho=2.0, p=1.0, u=(1.0, 0.5), Ei=1.25, Ek=0.625)
check(near(cfg.energy(U)(mesh(0.3, 0.3)), 2.5 + 1.25), "energy")
''')

bug('c01-temperature-order', 'C01', EOS,
    """        elif U.c is not None:
            logger.debug("Returning temperature from speed of sound.")
            return U.c**2/(gamma - 1)
""",
    """        elif U.c is not None:
            logger.debug("Returning temperature from speed of sound.")
            return 2.5 * U.c**2
""",
    'a heat capacity ratio other than 1.4 and a temperature derived from the speed of sound',
    'temperature from speed of sound ignores the heat capacity ratio', '''
mesh = square()
cfg = solver(mesh)
cfg.equation_of_state.heat_capacity_ratio = 1.6
check(near(cfg.temperature(flowfields(c=1.2))(mesh(0.3, 0.3)), 1.2**2/0.6), "temperature")
''')

bug('c03-kinetic-gradient', 'C03', SOL,
    "return U.rho * (dU.grad_u.trans * U.u) + 0.5 * dU.grad_rho * bla.inner(U.u, U.u)",
    "return U.rho * (dU.grad_u * U.u) + 0.5 * dU.grad_rho * bla.inner(U.u, U.u)",
    'a velocity gradient that is not symmetric (any shear)',
    'the kinetic energy gradient contracts the wrong index', '''
mesh = square()
cfg = solver(mesh)
U = flowfields(rho=1.0, u=(1.0, 2.0))
dU = flowfields(grad_rho=(0, 0), grad_u=ngs.CF((0, 1, 0, 0), dims=(2, 2)))
check(near(cfg.kinetic_energy_gradient(U, dU)(mesh(0.3, 0.3)), (0, 1)), "gradient of the kinetic energy")
''')

bug('c04-heat-flux-reynolds', 'C04', SOL,
    """        k = self.viscosity(U)
        Re = self.scaling.reference_reynolds_number
        Pr = self.prandtl_number
""",
    """        k = self.viscosity(U)
        Re = self.reynolds_number
        Pr = self.prandtl_number
""",
    'an acoustic or aeroacoustic scaling, where reference and farfield Reynolds number differ',
    'the heat flux uses the farfield instead of the reference Reynolds number', '''
mesh = square()
cfg = solver(mesh, dynamic_viscosity="constant", scaling="acoustic")
cfg.mach_number = 0.5
cfg.reynolds_number = 100
q = cfg.heat_flux(flowfields(T=1.0), flowfields(grad_T=(1.0, 0.0)))(mesh(0.3, 0.3))
check(near(q, (-1/(200*0.72), 0)), "heat flux")
''')

bug('c05-incoming-acoustic', 'C05', EOS,
    """                lam_p_c = bla.min(lam_p_c, 0)

            elif type == "outgoing":""",
    """                lam_p_c = 0 * lam_p_c

            elif type == "outgoing":""",
    'a supersonic inflow, where the fast acoustic wave is incoming as well',
    'the incoming part misses the fast acoustic wave, so incoming and outgoing do not sum to the whole', '''
mesh = square()
cfg = solver(mesh)
U = flowfields(u=(-3.0, 0.0), c=1.0)
f = cfg.equation_of_state.characteristic_velocities
i, o, w = (np.array(f(U, (1, 0), t)(mesh(0.3, 0.3))) for t in ("incoming", "outgoing", None))
check(near(i + o, w), "parts of the characteristic velocities")
''')

bug('c06-hllem-threshold', 'C06', RS,
    "theta = bla.max(un_abs/(un_abs + c), self.theta_0)",
    "theta = bla.max(un_abs/(un_abs + self.theta_0 * c), self.theta_0)",
    'a flow with a small but nonzero normal velocity',
    'HLLEM hardly reduces the dissipation of contact waves', '''
mesh = square()
cfg = solver(mesh, riemann_solver="hllem")
U = flowfields(rho=1.0, u=(0.1, 0.0), p=1.0)
U.c = cfg.speed_of_sound(U)
tau = cfg.riemann_solver.get_convective_stabilisation_matrix(U, (1, 0))
c = np.sqrt(1.4)
ev = np.sort(np.linalg.eigvals(np.array(tau(mesh(0.3, 0.3))).reshape(4, 4)).real)
th = 0.1/(0.1 + c)
check(near(ev, sorted([0.1 + c, 0.1 + c, th*(0.1 + c), th*(0.1 + c)]), 1e-7), "eigenvalues")
''')

bug('c07-direction', 'C07', SC,
    "        return mag * bla.unit_vector(direction)\n",
    "        direction = bla.as_vector(direction)\n        return mag * direction/sum(bla.abs(x) for x in direction)\n",
    'a flow direction which is not aligned with an axis',
    'the farfield velocity of an oblique flow is too small for the configured Mach number', '''
mesh = square()
cfg = solver(mesh)
cfg.mach_number = 0.5
inf = cfg.get_farfield_state((3, 4))
check(near(inf.u(mesh(0.3, 0.3)), (0.6, 0.8)), "farfield velocity")
''')

bug('c08-diffusion-mask', 'C08', CON,
    "        blf['diffusion'] += mask * ngs.InnerProduct(Gn, Vhat) * ngs.dx(element_boundary=True, bonus_intorder=bonus.bnd)",
    "        blf['diffusion'] += ngs.InnerProduct(Gn, Vhat) * ngs.dx(element_boundary=True, bonus_intorder=bonus.bnd)",
    'a viscous solver with a boundary condition on some boundary',
    'the viscous flux enters the trace equation on the domain boundary besides the boundary condition', '''
mesh = square()
cfg = solver(mesh, dynamic_viscosity="constant", **{"fem.mixed_method": "strain_heat", "fem.order": 1})
inf = cfg.get_farfield_state((1, 0))
cfg.bcs["left|right|top|bottom"] = FarField(fields=inf)
cfg.dcs[mat(mesh)] = Initial(fields=inf)
cfg.initialize()
blf = ngs.BilinearForm(cfg.fes)
blf += cfg.blf["diffusion"]
g = ngs.GridFunction(cfg.fes)
g.vec.data = cfg.gfu.vec
U, Uhat, Q = g.components
Q.Set(ngs.CF((1, 2, 3, 4, 5)))
r = ngs.GridFunction(cfg.fes)
blf.Apply(g.vec, r.vec)
dofs = ngs.FacetFESpace(mesh, order=1).GetDofs(mesh.Boundaries(".*"))
for i in range(4):
    v = np.array(r.components[1].components[i].vec)
    check(max(abs(x) for x, b in zip(v, dofs) if b) < 1e-12, "viscous flux on the boundary")
''')

bug('c09-cbc-step', 'C09', CON,
    "        dt = scheme.get_time_step(True)\n",
    "        dt = scheme.get_time_step()\n",
    'characteristic boundary conditions with the BDF2 scheme',
    'the relaxation of the boundary uses three times the time step of the normalised scheme', '''
def relax(scheme):
    mesh = square()
    cfg = solver(mesh, time="transient", **{"time.scheme": scheme, "fem.order": 0})
    cfg.time.timer.step = 0.1
    inf = cfg.get_farfield_state((1, 0))
    cfg.bcs["left|right|top|bottom"] = dc.GRCBC(fields=flowfields(rho=2, u=(1, 0), p=inf.p), relaxation_factor=1.0)
    cfg.dcs[mat(mesh)] = Initial(fields=inf)
    cfg.initialize()
    (name, form), = [(k, v) for k, v in cfg.blf.items() if k.startswith("grcbc")]
    blf = ngs.BilinearForm(cfg.fes)
    blf += form
    r = ngs.GridFunction(cfg.fes)
    blf.Apply(cfg.gfu.vec, r.vec)
    return np.array(r.components[1].components[0].vec)


a, b = relax("implicit_euler"), relax("bdf2")
check(np.abs(a).max() > 1e-3, "relaxation present")
check(near(b, a*2/3, 1e-8), "relaxation over the normalised step")
''')

bug('c10-sponge-everywhere', 'C10', CON,
    """        dX = ngs.dx(definedon=self.mesh.Materials(dom), bonus_intorder=dc.order)

        U, V = self.TnT['U']
        U_target = ngs.CF(
            (self.cfg.density(dc.target_state),
             self.cfg.momentum(dc.target_state),
             self.cfg.energy(dc.target_state)))

        blf[f"{dc.name}_{dom}"] = dc.function * (U - U_target) * V * dX
""",
    """        dX = ngs.dx(bonus_intorder=dc.order)

        U, V = self.TnT['U']
        U_target = ngs.CF(
            (self.cfg.density(dc.target_state),
             self.cfg.momentum(dc.target_state),
             self.cfg.energy(dc.target_state)))

        blf[f"{dc.name}_{dom}"] = dc.function * (U - U_target) * V * dX
""",
    'a mesh with more than one subdomain and a sponge layer on one of them',
    'the sponge damps the whole domain', '''
mesh = two_domains()
cfg = solver(mesh, **{"fem.order": 0})
inf = cfg.get_farfield_state((1, 0))
cfg.dcs["b"] = dm.SpongeLayer(function=ngs.CF(1), target_state=flowfields(rho=3, u=(0, 0), p=1))
cfg.dcs["a|b"] = Initial(fields=inf)
cfg.initialize()
(form,) = [v for k, v in cfg.blf.items() if k.startswith("sponge")]
blf = ngs.BilinearForm(cfg.fes)
blf += form
r = ngs.GridFunction(cfg.fes)
blf.Apply(cfg.gfu.vec, r.vec)
v = np.array(r.components[0].components[0].vec)
for el in mesh.Elements():
    check((abs(v[el.nr]) > 1e-6) == (el.mat == "b"), "sponge outside its subdomain")
''')

bug('c11-heat-trace', 'C11', CON,
    "        blf['mixed'] -= ngs.InnerProduct(Uhat.T*self.mesh.normal,",
    "        blf['mixed'] -= ngs.InnerProduct(U.T*self.mesh.normal,",
    'a solution that jumps across facets (any under-resolved viscous flow)',
    'the auxiliary temperature gradient ignores the trace, so elements no longer exchange heat', '''
mesh = square()
cfg = solver(mesh, dynamic_viscosity="constant", **{"fem.mixed_method": "strain_heat", "fem.order": 0})
inf = cfg.get_farfield_state((1, 0))
cfg.dcs[mat(mesh)] = Initial(fields=inf)
cfg.initialize()
blf = ngs.BilinearForm(cfg.fes)
blf += cfg.blf["mixed"]
a, b = ngs.GridFunction(cfg.fes), ngs.GridFunction(cfg.fes)
blf.Apply(cfg.gfu.vec, a.vec)
cfg.gfus["Uhat"].components[3].vec[0] += 5
blf.Apply(cfg.gfu.vec, b.vec)
check(np.abs(np.array(a.vec) - np.array(b.vec)).max() > 1e-6, "trace enters the heat equation")
''')

bug('c12-level-order', 'C12', TIME,
    "            for old, new in zip(self.time_levels[:-1], self.time_levels[1:]):\n",
    "            for new, old in zip(self.time_levels[:0:-1], self.time_levels[-2::-1]):\n",
    'a multi-step scheme (BDF2) and at least two time steps',
    'levels are shifted newest first, so the oldest level is overwritten by the newest', '''
mesh = square()
cfg = solver(mesh, time="transient", **{"time.scheme": "bdf2", "fem.order": 0})
inf = cfg.get_farfield_state((1, 0))
cfg.dcs[mat(mesh)] = Initial(fields=inf)
cfg.initialize()
g = cfg.time.scheme.gfus["U"]
for k, l in enumerate(("n-1", "n", "n+1")):
    g[l].vec[:] = k
cfg.time.scheme.update_gridfunctions()
check(near([g[l].vec[0] for l in ("n-1", "n", "n+1")], [1, 2, 2]), "shifted levels")
''')

bug('c13-damping', 'C13', MSOL,
    "        self.gfu.vec.data -= self.damping_factor * self.du\n",
    "        self.gfu.vec.data -= min(self.damping_factor, 1.0) * self.du\n",
    'a damping factor above one (over-relaxation)',
    'the configured damping factor is cut off', '''
mesh = square()
cfg = solver(mesh)
m = cfg.nonlinear_solver.method
m.damping_factor = 1.5
V = ngs.L2(mesh, order=0)
g, d = ngs.GridFunction(V), ngs.GridFunction(V)
g.vec[:] = 1
d.vec[:] = 2
m.initialize(g, d.vec)
m.update_solution()
check(near(g.vec[0], 1 - 3.0), "damped update")
''')

bug('c31-facet-order', 'C31', MESH,
    "                for i in range(bc.high_order + 1, space.globalorder + 1, 1):\n",
    "                for i in range(bc.high_order + 1, space.globalorder, 1):\n",
    'a polynomial sponge at least one order below the discretisation order',
    'the highest facet order survives inside the polynomial sponge', '''
mesh = two_domains()
cfg = solver(mesh, **{"fem.order": 3})
cfg.dcs["b"] = dm.PSpongeLayer(function=ngs.CF(1), high_order=1, low_order=0)
cfg.dcs["a|b"] = Initial(fields=cfg.get_farfield_state((1, 0)))
cfg.initialize_finite_element_spaces()
full = ngs.FacetFESpace(mesh, order=3)
inner = full.GetDofs(mesh.Materials("b")) & ~full.GetDofs(mesh.Materials("a"))
keep = full.ndof - sum(inner)//2
check(cfg.spaces["Uhat"].ndof//4 <= keep + 0, "facet unknowns in the sponge")
''')

BLA = 'dream/bla.py'
CFG = 'dream/config.py'
TIME = 'dream/time.py'
IO = 'dream/io.py'
SCA = 'dream/compressible/scaling.py'

bug('c24-min-mixed', 'C24', BLA,
    "    if isinstance(x, ngs.CF) or isinstance(y, ngs.CF):\n        return ngs.IfPos(x-y, y, x)\n",
    "    if isinstance(x, ngs.CF):\n        return ngs.IfPos(x-y, y, x)\n    elif isinstance(y, ngs.CF):\n        return ngs.IfPos(y-x, y, x)\n",
    'a minimum of a number and a field with the number first', 'min(number, field) is their maximum', '''
from dream import bla
mesh = square()
p = mesh(0.25, 0.25)
check(near(bla.min(0.1, ngs.x)(p), 0.1) and near(bla.min(0.9, ngs.x)(p), 0.25), "min(number, field)")
''')

bug('c24-fixpoint-last', 'C24', BLA,
    "        x0 = xn\n\n        if err < tol:\n            break\n", "        if err < tol:\n            break\n\n        x0 = xn\n",
    'a tolerance coarser than the last update', 'the fixpoint iteration returns the iterate before the accepted one', '''
from dream import bla
check(near(bla.fixpoint_iteration(1.0, lambda x: x/2, it=100, tol=0.3), 0.25), "accepted iterate")
''')

bug('c26-shared-name', 'C26', 'dream/compressible/config.py',
    "    grad_H = quantity('specific_enthalpy_gradient')\n", "    grad_H = quantity('enthalpy_gradient')\n",
    'the gradients of the enthalpy and of the specific enthalpy in one container',
    'two symbols denote one entry', '''
mesh = square()
f = flowfields(grad_rho_H=(1, 2), grad_H=(3, 4))
check(near(f.grad_rho_H(mesh(0.5, 0.5)), (1, 2)), "enthalpy gradient")
''')

bug('c27-characteristics-3d', 'C27', EOS,
    "            if unit_vector.dim == 2:\n\n                char = (", "            if unit_vector.dim > 1:\n\n                char = (",
    'characteristic variables of a three-dimensional flow', 'the two-dimensional formula is used in three dimensions', '''
from ngsolve.meshes import MakeStructured3DMesh
cfg = solver(MakeStructured3DMesh(False, 1, 1, 1))
U = flowfields(rho=1, c=1, u=(1, 0, 0))
dU = flowfields(grad_rho=(1, 0, 0), grad_p=(1, 0, 0), grad_u=tuple(range(9)))
dU = flowfields(grad_rho=(1, 0, 0), grad_p=(1, 0, 0), grad_u=ngs.CF(tuple(range(9)), dims=(3, 3)))
try:
    v = cfg.characteristic_variables(U, dU, (0, 0, 1))
except (NotImplementedError, ValueError):
    sys.exit(0)
check(False, f"value with {v.dim} entries in 3d")
''')

bug('c29-whole-steps', 'C29', TIME,
    "        N = round((end - start)/(stride*step)) + 1\n", "        N = int((end - start)/(stride*step)) + 1\n",
    'an interval whose length divided by the step is slightly below a whole number in floating point, e.g. 0.3 and 0.1',
    'the last time step is dropped', '''
cfg = solver(square())
cfg.time = "transient"
t = cfg.time.timer
t.interval = (0, 0.3)
t.step = 0.1
check(near(list(t.start()), [0.1, 0.2, 0.3]), list(t.start()))
''')

bug('c30-frozen-gamma', 'C30', EOS,
    "            return ngs.sqrt((gamma - 1) * U.Ei/gamma)\n", "            return ngs.sqrt((1 - 1/gamma.Get()) * U.Ei)\n",
    'the heat capacity ratio changed after the speed of sound was derived from the specific inner energy',
    'the heat capacity ratio is frozen at the time of building', '''
cfg = solver(square())
c = cfg.speed_of_sound(flowfields(Ei=1))
cfg.equation_of_state.heat_capacity_ratio = 2
check(near(c(cfg.mesh(0.5, 0.5)), 0.5**0.5), "live heat capacity ratio")
''')

bug('c30-frozen-mach', 'C30', SCA,
    "    def speed_of_sound(self, mach_number: float):\n        Ma = mach_number\n",
    "    def speed_of_sound(self, mach_number: float):\n        Ma = mach_number.Get() if isinstance(mach_number, ngs.Parameter) else mach_number\n",
    'aeroacoustic scaling and a Mach number changed after the farfield state was built',
    'the farfield speed of sound keeps the old Mach number', '''
cfg = solver(square(), scaling="aeroacoustic", mach_number=1.0)
f = cfg.get_farfield_state((1, 0))
cfg.mach_number = 3.0
check(near(f.c(cfg.mesh(0.5, 0.5)), 0.25), "live Mach number")
''')

bug('c14-levels-after-store', 'C14', TIME,
    "                self.scheme.update_gridfunctions()\n\n                yield t\n\n                io.save_in_time_routine(t, it)\n                io.redraw()\n",
    "                yield t\n\n                io.save_in_time_routine(t, it)\n                io.redraw()\n\n                self.scheme.update_gridfunctions()\n",
    'time levels read by the caller or restored from disk between two steps', 'the time levels lag one step behind what was stored', '''
mesh = square()
cfg = solver(mesh, time="transient")
cfg.dcs[mat(mesh)] = Initial(fields=flowfields(rho=1, u=(0, 0), p=1))
cfg.time.timer.interval = (0, 0.2)
cfg.time.timer.step = 0.1
cfg.nonlinear_solver.max_iterations = 0
cfg.initialize()
gfus = cfg.time.scheme.gfus["U"]
values = iter((2.0, 3.0))
def solve(t):
    gfus["n+1"].vec[:] = next(values)
    yield 0
cfg.time.scheme.solve_current_time_level = solve
for t in cfg.time.start_solution_routine(reassemble=False):
    check(near(gfus["n"].vec.FV().NumPy(), gfus["n+1"].vec.FV().NumPy()), f"level n at {t}")
''')

bug('c18-stored-first', 'C18', CFG,
    "        if self.fset is not None:\n            value = self.fset(cfg, value)\n\n        cfg.data[self.__name__].Set(value)\n",
    "        cfg.data[self.__name__].Set(value)\n\n        if self.fset is not None:\n            cfg.data[self.__name__].Set(self.fset(cfg, value))\n",
    'a rejected parameter whose previous value is used afterwards', 'the rejected value stays in effect', '''
cfg = solver(square(), mach_number=0.3)
try:
    cfg.mach_number = -1
except ValueError:
    pass
check(near(cfg.mach_number.Get(), 0.3), cfg.mach_number.Get())
''')

bug('c19-nested-mesh', 'C19', CFG,
    "                cfg.cfg = parent.cfg\n                cfg.mesh = parent.mesh\n", "                cfg.cfg = parent.cfg\n",
    'an option with settings of its own, taken from a solver on another mesh', 'its nested settings keep the other mesh', '''
a, b = solver(square()), solver(two_domains())
a.time = "transient"
b.time = a.time
check(b.time.timer.mesh is b.mesh, "mesh of the nested settings")
''')

bug('c20-deep-keys', 'C20', CFG,
    "                    kwargs[key_][\".\".join(args)] = kwargs.pop(key)\n", "                    kwargs[key_][args[-1]] = kwargs.pop(key)\n",
    'two settings of one branch, the second more than two levels deep', 'the deeper setting is dropped', '''
cfg = solver(square())
cfg.update({"optimizations.static_condensation": True, "optimizations.bonus_int_order.vol": 3})
check(cfg.optimizations.static_condensation and cfg.optimizations.bonus_int_order.vol == 3, "deep keys")
''')

bug('c20-rounded', 'C20', CFG,
    "                    data[key] = value.Get()\n", "                    data[key] = round(value.Get(), 10)\n",
    'a parameter below the rounding, e.g. a tiny time step', 'the stored value is not the one in effect', '''
cfg = solver(square(), time="transient")
cfg.time.timer.step = 2.5e-12
new = solver(square())
new.update(cfg.to_tree())
check(new.time.timer.step.Get() == 2.5e-12, new.time.timer.step.Get())
''')

bug('c21-subclass', 'C21', RS,
    "class HLLEM(RiemannSolver):\n", "class HLLEM(HLL):\n",
    'selecting hll while hllem is in place', 'the selected option is not taken', '''
from dream.compressible.riemann_solver import HLL
cfg = solver(square())
cfg.riemann_solver = "hllem"
cfg.riemann_solver = "hll"
check(type(cfg.riemann_solver) is HLL, type(cfg.riemann_solver))
''')

bug('c22-first-only', 'C22', 'dream/mesh.py',
    "        bnds = [bnd for bnd, bcs in self.items() if not any([isinstance(bc, Periodic) for bc in bcs]) and bcs]\n",
    "        bnds = [bnd for bnd, bcs in self.items() if bcs and not isinstance(bcs[0], Periodic)]\n",
    'two conditions on a boundary, the periodic one assigned second', 'a periodic boundary counts as boundary of the domain', '''
from dream.mesh import Periodic
mesh = square()
cfg = solver(mesh)
cfg.bcs["left"] = "inviscid_wall"
cfg.bcs["left|right"] = Periodic()
check(cfg.bcs.get_domain_boundaries() == [], cfg.bcs.get_domain_boundaries())
''')

bug('c25-shared-info', 'C25', 'dream/solver.py',
    "    @configuration(default=None)\n    def info(self, info=None):\n", "    @configuration(default={})\n    def info(self, info=None):\n",
    'entries added to the info of one solver', 'all solvers share the info', '''
a, b = solver(square()), solver(square())
a.info["a"] = 1
check(b.info == {}, b.info)
''')

bug('c28-abandoned', 'C28', IO,
    "    def __exit__(self, exc_type, exc_value, traceback):\n        self.close()\n",
    "    def __exit__(self, exc_type, exc_value, traceback):\n        if exc_type is None or issubclass(exc_type, Exception):\n            self.close()\n",
    'the caller abandons the run', 'the outputs stay open', '''
cfg = solver(square())
cfg.io.log = False
class stream:
    closed = False
    def close(self):
        self.closed = True
s = stream()
def run():
    with cfg.io as io:
        io.file_streams.append(s)
        yield 1
r = run()
next(r)
r.close()
check(s.closed, "closed")
''')

bug('c15-levels-rate', 'C15', IO,
    "            if it % self.time_level_rate == 0:\n\n", "            if it % self.time_level_rate == 0 and it % self.rate == 0:\n\n",
    'a time level rate which is no multiple of the rate', 'time levels are stored less often than configured', '''
cfg = solver(square(), time="transient")
cfg.io.folders.root = os.getcwd()
cfg.io.gfu = True
cfg.io.gfu.rate = 3
cfg.io.gfu.time_level_rate = 2
saved = []
cfg.io.gfu.save_gridfunction = lambda gfu, filename=None: saved.append(filename)
cfg.time.scheme.gfus = {"U": {"n": None}}
cfg.io.gfu.save_in_time_routine(0.3, 2)
check(saved == ["gfu_0.3_U_n"], saved)
''')

bug('c16-short-times', 'C16', IO,
    "        filename = self.filename\n        if t is not None:\n            filename = f\"{filename}_{t}\"\n\n            if it",
    "        filename = self.filename\n        if t is not None:\n            t = round(t, 8)\n            filename = f\"{filename}_{t}\"\n\n            if it",
    'times which need more than eight digits', 'states are stored under another name than they are loaded from', '''
mesh = square()
cfg = solver(mesh, time="transient")
cfg.io.folders.root = os.getcwd()
cfg.io.gfu = True
cfg.gfu = ngs.GridFunction(ngs.L2(mesh))
cfg.time.scheme.gfus = {}
cfg.io.gfu.save_in_time_routine(2.5e-10, 0)
try:
    cfg.io.gfu.load_routine(2.5e-10)
except Exception as e:
    check(False, e)
''')

bug('c17-matrix-labels', 'C17', IO,
    "return (bla.MATRIX_COMPONENT[0], bla.MATRIX_COMPONENT[1], bla.MATRIX_COMPONENT[3], bla.MATRIX_COMPONENT[4])",
    "return (bla.MATRIX_COMPONENT[0], bla.MATRIX_COMPONENT[3], bla.MATRIX_COMPONENT[1], bla.MATRIX_COMPONENT[4])",
    'a sensor of a non-symmetric 2x2 field', 'the off-diagonal columns carry the label of each other', '''
from dream.io import PointSensor
s = PointSensor(mesh=square())
check(tuple(s.get_components_name(ngs.CF((1, 2, 3, 4), dims=(2, 2)))) == ("xx", "xy", "yx", "yy"), "labels")
''')

bug('c19-unique-root', 'C19', CFG,
    "                cfg.data[self.__name__] = self.default(cfg=cfg.cfg, mesh=cfg.mesh)\n            else:",
    "                cfg.data[self.__name__] = self.default(cfg=cfg, mesh=cfg.mesh)\n            else:",
    'a nested setting selected by its name', 'its root is the configuration it belongs to', '''
cfg = solver(square(), time="transient")
cfg.time.timer = "timer"
check(cfg.time.timer.cfg is cfg, "root of the timer")
''')

bug('c23-downward-layer', 'C23', 'dream/mesh.py',
    "        L = coordinate.xn - coordinate.x0\n\n        c1 = bla.fixpoint_iteration(L, lambda c: ngs.log(",
    "        L = coordinate.length\n\n        c1 = bla.fixpoint_iteration(L, lambda c: ngs.log(",
    'an exponential mapping of a layer which runs against its coordinate', 'the layer is not scaled as configured', '''
from dream.mesh import BufferCoord, GridMapping
m = GridMapping.exponential(3, BufferCoord.x(1, 0))
check(near(m(0.0), -2.0, 1e-6), m(0.0))
''')

bug('c32-velocity-gradient', 'C32', CON,
    "            U_.grad_rho_Ek = self.cfg.kinetic_energy_gradient(U_, U_)\n",
    "            U_.grad_u = U_.grad_rho_u/U_.rho\n            U_.grad_rho_Ek = self.cfg.kinetic_energy_gradient(U_, U_)\n",
    'a compressible state (varying density) whose velocity gradient is put out', 'the velocity gradient lacks the density part', '''
mesh = square()
cfg = solver(mesh)
cfg.dcs[mat(mesh)] = Initial(fields=flowfields(rho=1 + ngs.x, u=(1, 0), p=1))
cfg.initialize()
f = cfg.get_fields(grad_u=True)
check(near(f.grad_u(mesh(0.3, 0.4)), (0, 0, 0, 0), 1e-6), f.grad_u(mesh(0.3, 0.4)))
''')

bug('c32-name-false', 'C32', CON,
    "                if symbol in quantities:\n                    quantities.pop(symbol)\n", "                if symbol in quantities:\n                    quantities.clear()\n",
    'a known and an unknown quantity requested together', 'the unknown quantity is not reported', '''
import logging
mesh = square()
cfg = solver(mesh)
cfg.dcs[mat(mesh)] = Initial(fields=flowfields(rho=1, u=(1, 0), p=1))
cfg.initialize()
said = []
class handler(logging.Handler):
    def emit(self, record):
        said.append(record.getMessage())
logging.getLogger("dream").setLevel(logging.INFO)
logging.getLogger("dream").addHandler(handler())
cfg.get_fields(p=True, nonsense=True)
check(any("nonsense" in m for m in said), said)
''')

bug('c37-left-half', 'C37', MESH, "offset = int(-n_radial/2 + n_polar/4)", "offset = int(n_polar/4)",
    'a ring with more than one layer pair, whose outer points are turned against the inner ones',
    'the outer boundary is divided off the axis', '''
for n in (2, 4):
    m = dm.get_cylinder_omesh(1, 2, 16, n)
    for el in m.Elements(ngs.BND):
        px = sum(m[v].point[0] for v in el.vertices)
        if el.mat in ("left", "right"):
            check((px < 0) == (el.mat == "left"), (n, el.mat, px))
''')

bug('c36-first-method', 'C36', MSOL,
    "        self.method.initialize(self.gfu, self.temporary)\n",
    "        if not hasattr(self.method, 'gfu'):\n            self.method.initialize(self.gfu, self.temporary)\n",
    'a solver initialised and solved a second time', 'the Newton updates go to the unknowns of the first solve', '''
mesh = square()
state = flowfields(rho=1, u=(1, 0), p=1)
cfg = solver(mesh, fem={"order": 1})
cfg.bcs["left|right|top|bottom"] = FarField(fields=state)
cfg.dcs[mat(mesh)] = Initial(fields=flowfields(rho=1 + 0.01*ngs.x, u=(1, 0), p=1))
for order in (1, 1):
    cfg.initialize()
    cfg.solve()
    got = cfg.gfu.components[0].components[0](mesh(0.7, 0.6)) if hasattr(cfg.gfu.components[0], "components") and cfg.gfu.components[0].components else cfg.gfu.components[0](mesh(0.7, 0.6))[0]
    check(abs(got - 1) < 1e-6, got)
''')

bug('c36-first-mask', 'C36', CON,
    """        fes = ngs.FacetFESpace(self.mesh, order=0)
        mask = ngs.GridFunction(fes, name="mask")
""",
    """        if hasattr(self, '_mask'):
            return self._mask

        fes = ngs.FacetFESpace(self.mesh, order=0)
        mask = self._mask = ngs.GridFunction(fes, name="mask")
""",
    'conditions changed between two initialisations', 'the trace equation is masked on the boundaries of the first', '''
mesh = square()
cfg = solver(mesh)
cfg.bcs["left"] = FarField(fields=flowfields(rho=1, u=(1, 0), p=1))
a = cfg.fem.method.get_domain_boundary_mask()
cfg.bcs["right"] = FarField(fields=flowfields(rho=1, u=(1, 0), p=1))
b = cfg.fem.method.get_domain_boundary_mask()
n = sum(v == 0 for v in b.vec), sum(v == 0 for v in a.vec)
check(n == (4, 2), n)
''')

bug('c33-known-viscosities', 'C33', SOL,
    "        if not self.dynamic_viscosity.is_inviscid:\n            sigma +=",
    "        if self.dynamic_viscosity.name in ('constant', 'sutherland'):\n            sigma +=",
    'a viscosity defined by the user', 'its flow exerts no friction', """
from dream.compressible.viscosity import DynamicViscosity
class Power(DynamicViscosity):
    name = "power_law"
    def viscosity(self, U):
        return 3
mesh = square()
cfg = solver(mesh, dynamic_viscosity="power_law", reynolds_number=2)
s = cfg.stress_tensor(flowfields(p=1), flowfields(eps=ngs.CF((0, 1, 1, 0), dims=(2, 2))))
check(near(s(mesh(0.5, 0.5)), (-1, 3, 3, -1)), s(mesh(0.5, 0.5)))
""")

bug('c34-last-picture', 'C34', IO,
    "        self.scenes = [Draw(draw, self.mesh, name, **kwargs) for name, draw in fields.items()]",
    "        self.scenes = getattr(self, 'scenes', []) + [\n            Draw(draw, self.mesh, name, **kwargs) for name, draw in fields.items()]",
    'a second drawing', 'the scenes of the first one are refreshed along with it', """
class Scene:
    def __init__(self):
        self.n = 0
    def Redraw(self):
        self.n += 1
made = []
def Draw(*args, **kw):
    made.append(Scene())
    return made[-1]
ngs.Draw = Draw
ngs.Redraw = lambda *a, **kw: None
cfg = solver(square())
cfg.io.draw({"p": ngs.x})
cfg.io.draw({"T": ngs.y})
cfg.io.redraw()
check([s.n for s in made] == [0, 1], [s.n for s in made])
""")

bug('c35-sticky-references', 'C35', SC,
    "        reference = dimensionfulfields({'L': 1, 'rho': 1.293, 'u': 1, 'c': 343, 'T': 293.15, 'p': 101325})\n",
    "        reference = self.data.get('dimensionful_values') or dimensionfulfields(\n            {'L': 1, 'rho': 1.293, 'u': 1, 'c': 343, 'T': 293.15, 'p': 101325})\n",
    'reference values set twice, or cleared', 'values of the first time remain in force', """
mesh = square()
at = mesh(0.5, 0.5)
cfg = solver(mesh)
cfg.scaling.dimensionful_values = {"L": 2}
cfg.scaling.dimensionful_values = {"T": 300}
v = cfg.scaling.dimensionful_values
check((v.L(at), v.T(at)) == (1, 300), dict(v))
cfg.scaling.dimensionful_values = None
check(cfg.scaling.dimensionful_values.T(at) == 293.15, dict(cfg.scaling.dimensionful_values))
""")

bug('c15-stream-files', 'C15', IO,
    "        self.single_streams = []\n        self.file_streams = []\n",
    "        self.single_streams = []\n        if not hasattr(self, 'file_streams'):\n            self.file_streams = []\n",
    'a second solve after a stream was switched off', 'the stream still writes', """
mesh = square()
cfg = solver(mesh, time="transient", fem={"order": 0})
state = flowfields(rho=1, u=(1, 0), p=1)
cfg.bcs["left|right|top|bottom"] = FarField(fields=state)
cfg.dcs[mat(mesh)] = Initial(fields=state)
cfg.time.timer.interval = (0, 0.02)
cfg.time.timer.step = 0.01
cfg.io.gfu = True
cfg.initialize()
cfg.solve()
cfg.io.gfu = False
from pathlib import Path
for p in Path.cwd().rglob("*.ngs"):
    p.unlink()
cfg.solve()
left = [p.name for p in Path.cwd().rglob("*.ngs")]
check(not left, left)
""")

bug('c15-first-region', 'C15', IO,
    "        self.drawelems = None\n        if self.region is not None:",
    "        if not hasattr(self, 'drawelems'):\n            self.drawelems = None\n        if self.region is not None and self.drawelems is None:",
    'the region of a vtk stream changed between two solves', 'the region of the first is written', """
mesh = two_domains()
cfg = solver(mesh)
cfg.io.vtk = True
cfg.io.vtk.fields = {"x": ngs.x}
cfg.io.vtk.region = "a"
cfg.io.vtk.open()
cfg.io.vtk.region = "b"
cfg.io.vtk.open()
for el in mesh.Elements(ngs.VOL):
    check(cfg.io.vtk.drawelems[el.nr] == (el.mat == "b"), (el.nr, el.mat))
""")

bug('c19-shallow', 'C19', CFG,
    "                cfg.mesh = parent.mesh\n                self.update_subconfigurations_recursively(cfg)",
    "                cfg.mesh = parent.mesh",
    'an instance with settings of its own settings', 'these keep the solver they were made with', """
from dream.config import UniqueConfiguration, configuration, unique
from dream.solver import NonlinearMethod
class Tuning(UniqueConfiguration):
    @configuration(default=1)
    def level(self, level):
        return level
class Tuned(NonlinearMethod):
    name = "tuned"
    @unique(default=Tuning)
    def tuning(self, tuning):
        return tuning
one, two = solver(square()), solver(square())
one.nonlinear_solver.method = "tuned"
two.nonlinear_solver = one.nonlinear_solver
check(two.nonlinear_solver.method.tuning.cfg is two, "root of a nested setting")
check(two.nonlinear_solver.method.tuning.mesh is two.mesh, "mesh of a nested setting")
""")

bug('c22-same-kind', 'C22', MESH,
    "        for region in regions:\n            self.data[region].append(condition)",
    "        for region in regions:\n            if region in self.data and any(type(old) is type(condition) for old in self.data[region]):\n                continue\n            self.data[region].append(condition)",
    'two conditions of one kind assigned to a domain', 'the later one is lost', """
mesh = two_domains()
cfg = solver(mesh)
first, second = Initial(fields=flowfields(rho=1, u=(1, 0), p=1)), Initial(fields=flowfields(rho=2, u=(1, 0), p=1))
cfg.dcs["a|b"] = first
cfg.dcs["b"] = second
check(second in list(cfg.dcs["b"]) and first in list(cfg.dcs["a"]), "conditions of b")
""")

bug('c24-tiny-vectors', 'C24', BLA, "return x/ngs.sqrt(inner(x, x))", "return x/ngs.sqrt(inner(x, x) + 1e-12)",
    'vectors as short as 1e-6', 'they are not brought to unit length', """
import dream.bla as bla
mesh = square()
v = bla.unit_vector(ngs.CF((3e-6, 4e-6)))(mesh(0.5, 0.5))
check(near(v, (0.6, 0.8), 1e-6), v)
""")

bug('c31-periodic-any', 'C31', MSOL,
    "        if self.mesh.is_periodic and not self.bcs.has_condition(Periodic):",
    "        if self.mesh.is_periodic and not self.bcs:",
    'a periodic mesh with conditions, none of them periodic', 'it is not refused', """
mesh = MakeStructured2DMesh(True, 4, 4, periodic_x=True)
cfg = solver(mesh)
cfg.bcs["left|right"] = FarField(fields=flowfields(rho=1, u=(1, 0), p=1))
cfg.dcs[mat(mesh)] = Initial(fields=flowfields(rho=1, u=(1, 0), p=1))
try:
    cfg.initialize()
except ValueError as e:
    pass
else:
    check(False, "not refused")
""")

bug('c10-orders-between', 'C10', MESH,
    "is_constant_order = all([order == orders[0] for order in orders])", "is_constant_order = orders[0] == orders[-1]",
    'three sponge layers, the one between the others of another order', 'its weight is represented in the highest order', """
faces = []
for i, name in enumerate("abc"):
    f = Rectangle(1, 1).Face().Move((i, 0, 0))
    f.name = name
    faces.append(f)
mesh = ngs.Mesh(OCCGeometry(Glue(faces), dim=2).GenerateMesh(maxh=1))
layers = {"a": dm.SpongeLayer(mesh=mesh, function=1, order=1), "b": dm.SpongeLayer(mesh=mesh, function=1, order=3),
          "c": dm.SpongeLayer(mesh=mesh, function=1, order=1)}
fes = dm.SpongeLayer.get_space(layers, mesh)
n = [sum(1 for el in mesh.Materials(m).Elements()) for m in "abc"]
check(fes.ndof == 3*n[0] + 10*n[1] + 3*n[2], (fes.ndof, n))
""")

bug('c36-lost-factor', 'C36', CCF, "        factors = self.relaxation_factor.copy()\n", "        factors = self.relaxation_factor\n",
    'a characteristic condition in two dimensions, asked for its factors after initialising',
    'initialising takes one relaxation factor out of the condition', '''
mesh = square()
cfg = solver(mesh, **{"time": "transient", "fem.order": 1})
inf = cfg.get_farfield_state((1, 0))
cfg.bcs["left|right|top|bottom"] = GRCBC(fields=inf, relaxation_factor=(1, 2, 3, 4, 5))
cfg.dcs[mat(mesh)] = Initial(fields=inf)
bc = cfg.bcs["left"][0]
before = dict(bc.relaxation_factor)
cfg.initialize()
check(dict(bc.relaxation_factor) == before, (before, dict(bc.relaxation_factor)))
''')

bug('c13-two-iterations', 'C13', MSOL, "        return int(max_iterations)\n", "        return max(int(max_iterations), 2)\n",
    'at most one Newton iteration allowed', 'a second one is made', '''
mesh = square()
cfg = solver(mesh, **{"fem.order": 1, "nonlinear_solver.max_iterations": 1})
inf = cfg.get_farfield_state((1, 0))
cfg.bcs["left|right|top|bottom"] = FarField(fields=inf)
cfg.dcs[mat(mesh)] = Initial(fields=flowfields(rho=1 + 0.2*ngs.x, u=(1, 0), p=inf.p))
cfg.initialize()
cfg.time.assemble()
n = len(list(cfg.nonlinear_solver.solve()))
check(n == 1, n)
''')

bug('c29-first-digit', 'C29', TIME, "        self._set_digit(step)\n        return step\n",
    "        if not hasattr(self, 'digit'):\n            self._set_digit(step)\n        return step\n",
    'a time step with more digits than the one set before', 'times are rounded to the digits of the first step', '''
cfg = solver(square(), time="transient")
timer = cfg.time.timer
timer.interval = (0, 1e-4)
timer.step = 0.5
timer.step = 1.25e-5
check(np.allclose(timer.to_array(), np.arange(1, 9)*1.25e-5, rtol=1e-9, atol=0), timer.to_array())
''')

bug('c31-periodic-sponge', 'C31', CON,
    "        if self.cfg.bcs.has_condition(Periodic):\n            Uhat = ngs.Periodic(Uhat)",
    "        if self.cfg.bcs.has_condition(Periodic) and not psponge_layers:\n            Uhat = ngs.Periodic(Uhat)",
    'periodic boundaries and a polynomial sponge', 'the facets of the periodic boundaries are not joined', '''
mesh = MakeStructured2DMesh(True, 4, 4, periodic_x=True)
n = []
for sponge in (False, True):
    cfg = solver(mesh, **{"fem.order": 1})
    inf = cfg.get_farfield_state((1, 0))
    cfg.bcs["left|right"] = "periodic"
    cfg.bcs["top|bottom"] = FarField(fields=inf)
    cfg.dcs[mat(mesh)] = Initial(fields=inf)
    if sponge:
        cfg.dcs[mat(mesh)] = PSpongeLayer(target_state=inf, function=1, high_order=1, low_order=0)
    cfg.initialize()
    space = cfg.spaces["Uhat"]
    n.append(len({d for el in space.Elements() for d in el.dofs if d >= 0}))
check(n[0] == n[1], n)
''')

bug('c10-low-order', 'C10', CON, "low_order_space = ngs.L2(self.mesh, order=dc.low_order)",
    "low_order_space = ngs.L2(self.mesh, order=min(dc.low_order, 1))",
    'a polynomial sponge whose low order is two or more', 'it damps the modes it should keep', '''
mesh = square()
cfg = solver(mesh, **{"fem.order": 3})
inf = cfg.get_farfield_state((1, 0))
cfg.bcs["left|right|top|bottom"] = FarField(fields=inf)
cfg.dcs[mat(mesh)] = Initial(fields=inf)
cfg.dcs[mat(mesh)] = PSpongeLayer(target_state=inf, function=1, high_order=3, low_order=2)
cfg.initialize()
name = next(k for k in cfg.blf["U"] if "sponge" in k) if "U" in cfg.blf else next(k for k in cfg.blf if "sponge" in k)
blf = ngs.BilinearForm(cfg.fes)
blf += cfg.blf[name]
gfu = ngs.GridFunction(cfg.fes)
gfu.components[0].Set(ngs.CF((1 + ngs.x**2, ngs.x*ngs.y, ngs.y**2, 3)))
r = gfu.vec.CreateVector()
blf.Apply(gfu.vec, r)
check(r.Norm() < 1e-10, r.Norm())
''')

bug('c32-by-full-name', 'C32', CON, "        defaults.update(quantities)\n",
    "        defaults.update({k: v for k, v in quantities.items() if k in flowfields.symbols})\n",
    'a quantity requested by its full name', 'it is left out', '''
mesh = square()
cfg = solver(mesh, **{"fem.order": 1})
inf = cfg.get_farfield_state((1, 0))
cfg.bcs["left|right|top|bottom"] = FarField(fields=inf)
cfg.dcs[mat(mesh)] = Initial(fields=inf)
cfg.initialize()
fields = cfg.get_fields(speed_of_sound=True)
check("speed_of_sound" in fields, list(fields))
''')

bug('c38-plain-names', 'C38', IO, "        return ngsdict(**fields)\n\n    @property\n    def path(self) -> Path:\n        path = self.cfg.io.folders.vtk\n",
    "        return ngsdict(**{name: field for name, field in fields.items() if name.isidentifier()})\n\n    @property\n    def path(self) -> Path:\n        path = self.cfg.io.folders.vtk\n",
    'a field for visualisation whose name is no identifier, as in the pressure pulse example', 'it is not written', '''
cfg = solver(square(), **{"io.vtk": True})
cfg.io.vtk.fields = {"p'": ngs.x, "rho": ngs.y}
check(set(cfg.io.vtk.fields) == {"p'", "rho"}, list(cfg.io.vtk.fields))
''')

bug('c38-relaxation-number', 'C38', CCF, "        return bla.as_scalar(tangential_relaxation)\n", "        return ngs.CF(float(tangential_relaxation))\n",
    'a solver parameter as tangential relaxation, as in the vortex example', 'the condition cannot be created', '''
mesh = square()
cfg = solver(mesh, time="transient")
try:
    bc = GRCBC(fields=cfg.get_farfield_state((1, 0)), tangential_relaxation=cfg.mach_number)
except TypeError as e:
    check(False, e)
check(near(bc.tangential_relaxation(mesh(0.5, 0.5)), 0.3), "value")
''')
