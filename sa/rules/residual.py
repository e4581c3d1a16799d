"""C08-C11: the assembled residual of the finite element method."""
import itertools

from .. import alg as A, fields as F
from ..flow import State, gamma_of, psym, ret_where, cf
from ..forms import Setup, cons, vec_cf, dotE, names, ZERO, ONE
from ..check import sharded
from ..interp import Unsupported, PyEx, HostFn

N = A.num
KINDS = ('cell', 'facet', 'skeleton')


def gdot(S, M, vs):
    """M : grad(v), the flux matrix M given by rows"""
    r = ZERO
    for row, v in zip(M, vs):
        for m, g in zip(row, S.grad(v)):
            r = A.add(r, A.mul(m, g))
    return r


def mrows(it, v):
    v = F.cf_of(it, v)
    n, m = v.dims
    return [list(v.e[i * m:(i + 1) * m]) for i in range(n)]


def mv(M, x):
    return [dotE(r, x) for r in M]


def vsub(a, b):
    return [A.sub(x, y) for x, y in zip(a, b)]


def vadd(a, b):
    return [A.add(x, y) for x, y in zip(a, b)]


def scal(k, a):
    return [A.mul(k, x) for x in a]


def normal(S):
    n = tuple(A.declare(f'n{i}', 'real') for i in range(S.dim))
    return n, F.Cf(n, (S.dim,))


def unit_normal(dim):
    """substitution making the mesh normal a unit vector (and the tangent orthogonal to it)"""
    n = [A.declare(f'n{i}', 'real') for i in range(dim)]
    t = [A.declare(f't{i}', 'real') for i in range(dim)]
    s = A.declare('s', 'real')
    if dim == 2:
        s2 = A.mul(s, s)
        d = A.add(ONE, s2)
        nx, ny = A.div(A.sub(ONE, s2), d), A.div(A.mul(N(2), s), d)
        return {n[0]: nx, n[1]: ny, t[0]: A.neg(ny), t[1]: nx}
    r = A.declare('r', 'real')
    d = A.add(A.add(ONE, A.mul(s, s)), A.mul(r, r))
    return {n[0]: A.div(A.mul(N(2), s), d), n[1]: A.div(A.mul(N(2), r), d),
            n[2]: A.div(A.sub(A.add(A.mul(s, s), A.mul(r, r)), ONE), d)}


def mixed_state(S):
    """fields of the mixed variables at their documented positions, 2d strain-heat"""
    c, q = S.c, S.q.e
    eps = F.Cf((q[0], q[1], q[1], q[2]), (2, 2))
    return S.it.call(c.api('dream.compressible', 'flowfields'), [], {'eps': eps, 'grad_T': F.Cf((q[3], q[4]), (2,))})


def fluxes(S):
    """expected cell and facet fluxes: (flux rows, numerical flux), from the public flux functions"""
    it, cfg = S.it, S.cfg
    n, ncf = normal(S)
    U, H = S.fU, S.fH
    Fc = mrows(it, S.pcall(cfg, 'get_convective_flux', U))
    Fh = mrows(it, S.pcall(cfg, 'get_convective_flux', H))
    tau = mrows(it, S.pcall(it.getattr(cfg, 'riemann_solver'), 'get_convective_stabilisation_matrix', H, ncf))
    jump = vsub(S.cu, S.ch)
    Fn = vadd(mv(Fh, n), mv(tau, jump))
    if not S.has('Q'):
        return Fc, Fn
    Q = mixed_state(S)
    G = mrows(it, S.pcall(cfg, 'get_diffusive_flux', U, Q))
    Gh = mrows(it, S.pcall(cfg, 'get_diffusive_flux', H, Q))
    mu = F.cf_of(it, S.pcall(cfg, 'viscosity', H)).e[0]
    re = F.to_e(it.getattr(it.getattr(cfg, 'scaling'), 'reference_reynolds_number'))
    if re is None:
        re = F.cf_of(it, it.getattr(it.getattr(cfg, 'scaling'), 'reference_reynolds_number')).e[0]
    pr = psym(it, it.getattr(cfg, 'prandtl_number'))
    k = A.div(mu, re)
    d = [ZERO] + [k] * S.dim + [A.div(k, pr)]
    Gn = vsub(mv(Gh, n), [A.mul(x, y) for x, y in zip(d, jump)])
    return [vsub(a, b) for a, b in zip(Fc, G)], vsub(Fn, Gn)


def opaque_tau(S):
    """replace the stabilisation matrix by an arbitrary one and record where it is evaluated"""
    n = S.dim + 2
    T = F.Cf(tuple(A.declare(f"tau{i}{j}", 'real') for i in range(n) for j in range(n)), (n, n))
    calls = []

    def f(it, U, unit_vector=None, **k):
        calls.append((U, unit_vector if unit_vector is not None else k))
        return T
    S.it.setattr(S.it.getattr(S.cfg, 'riemann_solver'), 'get_convective_stabilisation_matrix', HostFn('tau', f))
    return calls


def check_interior(c, rule, name, out, cells=True, boundary=()):
    """cell and facet terms against the expected fluxes"""
    if out.exc:
        c.ob(rule, name, False, str(out.exc), out.exc.where)
        return
    S, (Fl, Fn), masks, where = out.value
    sub = {**S.sub, **unit_normal(S.dim)}
    got = S.collect()
    V, Vh = S.v['U'], S.v.get('Uhat')
    if Vh is None:
        c.ob(rule, f"trace unknown, {name}", False, 'no trace unknown')
        return
    for m in S.mesh.materials:
        e = got.get(('cell', m), ZERO)
        want = A.neg(gdot(S, Fl, V))
        c.equal(rule, f"cell term in {m}, {name}", S.tested(e, 'U'), want, sub, where)
        c.equal(rule, f"cell terms in {m} tested with the trace, {name}", S.tested(e, 'Uhat'), ZERO, sub, where)
        e = got.get(('facet', m), ZERO)
        for fac in ('', *S.mesh.boundaries):
            ef = A.subst(e, masks[fac])
            what = f"facets of {fac or 'the interior'} in {m}"
            c.equal(rule, f"{what}: element equation, {name}", S.tested(ef, 'U'), dotE(Fn, V), sub, where)
            want = ZERO if fac in boundary else A.neg(dotE(Fn, Vh))
            c.equal(rule, f"{what}: trace equation, {name}", S.tested(ef, 'Uhat'), want, sub, where)
    for k in got:
        if k[0] not in KINDS:
            c.ob(rule, f"integrals over {k[0]} of {k[1]}, {name}", False, 'unexpected kind of integral')


def c08(c):
    it = c.it

    def run(dim, boundary=(), **kw):
        def go(it):
            S = Setup(c, dim, time='stationary', **kw)
            masks = {f: S.masks(f) for f in ('', *S.mesh.boundaries)}
            return S, fluxes(S), masks, ''
        return c.explore(go)

    def opaque(dim, viscosity, **kw):
        """any stabilisation matrix: evaluated at the trace state and the outward normal"""
        def go(it):
            S = Setup(c, dim, time='stationary', viscosity=viscosity, initialize=False, **kw)
            calls = opaque_tau(S)
            it.call(it.getattr(S.cfg, 'initialize'), [])
            S.TnT, S.spaces, S.gfus = (it.getattr(S.cfg, k) for k in ('TnT', 'spaces', 'gfus'))
            S._unknowns()
            n0 = len(it.events)
            it.call(it.getattr(it.getattr(S.cfg, 'time'), 'assemble'), [])
            S._gather(it.events[n0:])
            masks = {f: S.masks(f) for f in ('', *S.mesh.boundaries)}
            done = list(calls)
            return S, fluxes(S), masks, done
        out = c.run1(go)
        name = f"any stabilisation matrix, {viscosity} (dim {dim})"
        if not out.exc:
            S, fl, masks, done = out.value
            out.value = S, fl, masks, ''
            c.ob('stabilisation', f"stabilisation is used, {name}", bool(done), 'the Riemann solver is never asked')
            for U, n in done[:4]:
                for k in ('density', 'velocity', 'speed_of_sound', 'pressure'):
                    got = it.getitem(U, k)
                    sym = {'density': 'rho', 'velocity': 'u', 'speed_of_sound': 'c', 'pressure': 'p'}[k]
                    c.equal_cf('stabilisation', f"{k} of the state given to the Riemann solver, {name}", got,
                               S.h.cf(sym), S.sub)
                if not isinstance(n, dict):
                    c.equal_cf('stabilisation', f"direction given to the Riemann solver, {name}", n, normal(S)[1])
        check_interior(c, 'flux', name, out)

    def interior(c):
        cases = [(2, 'inviscid', 'lax_friedrich'), (3, 'inviscid', 'lax_friedrich'), (2, 'constant', 'lax_friedrich'),
                 (2, 'sutherland', 'lax_friedrich'), (2, 'inviscid', 'hll')]
        if c.thorough:
            cases += [(2, 'inviscid', r) for r in ('roe', 'hllem', 'upwind')] + [(2, 'constant', 'hll')]
        for dim, visc, rs in cases:
            for out in run(dim, viscosity=visc, opts={'riemann_solver': rs}):
                check_interior(c, 'flux', f"{rs}, {visc} (dim {dim})", out)
        for dim, visc in ((2, 'inviscid'), (2, 'constant'), (3, 'inviscid')):
            opaque(dim, visc)
        c.need('interior configurations', len(cases), 5)

    def condensed(c):
        """options of the assembly do not change the residual"""
        for opt in ({'optimizations.static_condensation': True}, {'optimizations.compile.realcompile': False}):
            for out in run(2, viscosity='constant', opts=opt):
                check_interior(c, 'flux', f"{opt}, constant (dim 2)", out)

    def mask(c):
        """the trace equation lives on all facets but those of the physical boundary"""
        def bc(name, **f):
            return lambda S: S.cond(name, **f)
        sets = [({'left': bc('Symmetry'), 'top|bottom': bc('InviscidWall')}, ('left', 'top', 'bottom'), {}),
                ({'left|right': bc('Periodic'), 'top': bc('Symmetry')}, ('top',), {'periodic': True}),
                ({'left|right|top|bottom': bc('Symmetry')}, ('left', 'right', 'top', 'bottom'), {}),
                ({'left|right|top|bottom': bc('Periodic')}, (), {'periodic': True})]
        for bcs, on, kw in sets:
            for visc in ('inviscid', 'constant'):
                for out in run(2, bcs=bcs, viscosity=visc, boundaries=('left', 'right', 'top', 'bottom', 'cut'), **kw):
                    check_interior(c, 'mask', f"conditions on {'+'.join(bcs)}, {visc}", out, boundary=on)
    for f in (interior, condensed, mask):
        c.part(f)


# ------------------------------------------------------------------ C09

def boundary_terms(c, rule, name, out, want, where_on, extra=None):
    """the residual on each boundary against the expected one; nothing elsewhere"""
    if out.exc:
        c.ob(rule, name, False, str(out.exc), out.exc.where)
        return
    S = out.value
    R = want(S)
    sub = {**S.sub, **unit_normal(S.dim), **(extra(S) if extra else {})}
    got = S.collect()
    Vh = S.v['Uhat']
    on = {n for pat in where_on for n in pat.split('|')}
    for b in S.mesh.boundaries:
        e = got.get(('skeleton', b), ZERO)
        w = dotE(R, Vh) if b in on else ZERO
        c.equal(rule, f"{name}: trace equation on {'its' if b in on else 'another'} boundary {b}", S.tested(e, 'Uhat'), w, sub)
        c.equal(rule, f"{name}: element equation on boundary {b}", S.tested(e, 'U'), ZERO, sub)
    for k in got:
        if k[0] not in KINDS:
            c.ob(rule, f"{name}: integrals over {k}", False, 'unexpected kind of integral')


def c09(c):
    it = c.it

    def setup(mk, where='left|top', **kw):
        kw.setdefault('time', 'stationary')

        def go(it):
            S = Setup(c, kw.pop('dim', 2) if False else kw.get('dim', 2), bcs={where: mk}, **{k: v for k, v in kw.items() if k != 'dim'})
            return S
        return c.explore(go)

    def ident_(S, typ, H=None):
        return mrows(S.it, S.pcall(S.cfg, 'get_conservative_convective_identity', H or S.fH, normal(S)[1], typ))

    def jac(S, typ):
        return mrows(S.it, S.pcall(S.cfg, 'get_conservative_convective_jacobian', S.fH, normal(S)[1], typ))

    def farstate(S):
        if not hasattr(S, 'far'):
            S.far = State(S.gamma, S.dim, tag='f')
        return S.far

    def farfield(c):
        n = 0
        for ident, keys, viscosity in itertools.product((True, False), (('rho', 'u', 'p'), ('rho', 'u', 'T'), None), ('inviscid',)):
            def mk(S):
                return S.cond('FarField', fields=farstate(S).fields(c, *(keys or ())), identity_jacobian=ident)

            def want(S):
                U, H, I = S.cu, S.ch, cons(S.far)
                if ident:
                    return vsub(vsub(H, mv(ident_(S, 'outgoing'), U)), mv(ident_(S, 'incoming'), I))
                return vsub(mv(jac(S, 'outgoing'), vsub(H, U)), mv(jac(S, 'incoming'), vsub(H, I)))
            for out in setup(mk):
                boundary_terms(c, 'farfield', f"farfield, {'identity' if ident else 'jacobian'}, from "
                               f"{'+'.join(keys or ['all'])}", out, want, ['left|top'])
                n += 1

        # the identity form is the default
        def mk(S):
            return S.cond('FarField', fields=farstate(S).fields(c))

        def want(S):
            return vsub(vsub(S.ch, mv(ident_(S, 'outgoing'), S.cu)), mv(ident_(S, 'incoming'), cons(S.far)))
        for out in setup(mk, viscosity='constant'):
            boundary_terms(c, 'farfield', "farfield, default", out, want, ['left|top'])
        c.need('farfield variants', n, 6)

    def outflow(c):
        for dim, how in itertools.product((2, 3), ('scalar', 'fields')):
            p = A.declare('pout', 'pos')

            def mk(S):
                v = F.Num(p) if how == 'scalar' else it.call(c.api('dream.compressible', 'flowfields'), [], {'p': cf(p)})
                return S.cond('Outflow', fields=v)

            def want(S):
                E = A.add(A.div(p, A.sub(S.gamma, ONE)), S.q_(S.fU, 'rho_Ek')[0])
                return vsub(S.ch, [S.cu[0], *S.cu[1:-1], E])
            for out in setup(mk, dim=dim):
                boundary_terms(c, 'outflow', f"outflow pressure as {how} (dim {dim})", out, want, ['left|top'])

    def walls(c):
        for dim, name in itertools.product((2, 3), ('InviscidWall', 'Symmetry')):
            def want(S):
                m, n = S.cu[1:-1], normal(S)[0]
                mn = dotE(m, n)
                return vsub(S.ch, [S.cu[0], *vsub(m, scal(mn, n)), S.cu[-1]])
            for out in setup(lambda S: S.cond(name), dim=dim):
                boundary_terms(c, 'wall', f"{name} (dim {dim})", out, want, ['left|top'])
        T = A.declare('Twall', 'pos')
        for dim, visc, how in ((2, 'inviscid', 'scalar'), (2, 'constant', 'scalar'), (2, 'constant', 'fields'), (3, 'inviscid', 'scalar')):
            def mk(S):
                v = F.Num(T) if how == 'scalar' else it.call(c.api('dream.compressible', 'flowfields'), [], {'T': cf(T)})
                return S.cond('IsothermalWall', fields=v)

            def want(S):
                r = S.cu[0]
                return vsub(S.ch, [r] + [ZERO] * S.dim + [A.div(A.mul(r, T), S.gamma)])
            for out in setup(mk, dim=dim, viscosity=visc):
                boundary_terms(c, 'wall', f"isothermal wall, {visc}, temperature as {how} (dim {dim})", out, want, ['left|top'])

    def adiabatic(c):
        """no slip, and the heat flux of the numerical diffusive flux vanishes"""
        for visc in ('constant', 'sutherland'):
            def want(S):
                it = S.it
                Q = S.q.e
                n = normal(S)[0]
                mu = F.cf_of(it, S.pcall(S.cfg, 'viscosity', S.fU)).e[0]
                re = F.cf_of(it, it.getattr(it.getattr(S.cfg, 'scaling'), 'reference_reynolds_number')).e[0]
                k = A.div(mu, A.mul(re, psym(it, it.getattr(S.cfg, 'prandtl_number'))))
                jump = A.sub(S.ch[-1], S.cu[-1])
                return [A.sub(S.ch[0], S.cu[0]), *S.ch[1:-1],
                        A.mul(k, A.add(jump, dotE(Q[3:5], n)))]
            for out in setup(lambda S: S.cond('AdiabaticWall'), viscosity=visc):
                boundary_terms(c, 'adiabatic', f"adiabatic wall, {visc}", out, want, ['left|top'])
        for out in setup(lambda S: S.cond('AdiabaticWall')):
            c.ob('adiabatic', 'adiabatic wall without heat flux variable is refused', out.excname == 'NotImplementedError',
                 f"{out.exc or 'accepted'}", out.exc.where if out.exc else '')

    @sharded
    def cbc(c):
        n = 0
        cases = []
        for kind, target, scheme in itertools.product(('GRCBC', 'NSCBC'), ('farfield', 'outflow', 'mass_inflow'),
                                                      ('implicit_euler', 'bdf2')):
            cases.append((kind, target, scheme, 'inviscid', False))
        for target in ('farfield', 'outflow'):
            cases.append(('GRCBC', target, 'implicit_euler', 'constant', True))
        cases.append(('GRCBC', 'farfield', 'implicit_euler', 'constant', False))
        C = [A.declare(f"C{i}", 'pos') for i in range(5)]
        beta, L = A.declare('beta', 'pos'), A.declare('Lref', 'pos')
        for kind, target, scheme, visc, viscflux in cases:
            if not c.turn():
                continue

            def mk(S):
                far = farstate(S)
                f = {'farfield': lambda: far.fields(c), 'outflow': lambda: far.fields(c, 'p'),
                     'mass_inflow': lambda: far.fields(c, 'rho', 'rho_u', 'rho_Ek')}[target]()
                factor = [F.Num(x) for x in C]
                keys = ('acoustic_in', 'entropy', 'vorticity_0', 'vorticity_1', 'acoustic_out')
                # a tuple, a list and a dictionary in another order say the same
                factor = {'farfield': tuple(factor), 'mass_inflow': factor,
                          'outflow': dict(reversed(tuple(zip(keys, factor))))}[target]
                kw = {'fields': f, 'target': target, 'relaxation_factor': factor,
                      'tangential_relaxation': F.Num(beta), 'is_viscous_fluxes': viscflux}
                if kind == 'NSCBC':
                    kw['length'] = F.Num(L)
                return S.cond(kind, **kw)

            def want(S):
                it, cfg = S.it, S.cfg
                far = farstate(S)
                if target == 'farfield':
                    tgt = cons(far)
                elif target == 'outflow':
                    tgt = [S.cu[0], *S.cu[1:-1],
                           A.add(A.div(far.v['p'][0], A.sub(S.gamma, ONE)), S.q_(S.fU, 'rho_Ek')[0])]
                else:
                    tgt = [far.v['rho'][0], *far.v['rho_u'],
                           A.add(A.div(S.q_(S.fU, 'p')[0], A.sub(S.gamma, ONE)), far.v['rho_Ek'][0])]
                H, ncf = S.fH, normal(S)[1]
                step = psym(it, it.getattr(it.getattr(it.getattr(cfg, 'time'), 'timer'), 'step'))
                cc, ma = S.q_(S.fH, 'c')[0], psym(it, it.getattr(cfg, 'mach_number'))
                if kind == 'GRCBC':
                    d = [A.div(C[i], step) for i in (0, 1, 2, 4)]
                else:
                    ac = A.mul(cc, A.sub(ONE, A.mul(ma, ma)))
                    d = [A.div(A.mul(C[i], l), L) for i, l in zip((0, 1, 2, 4), (ac, cc, cc, ac))]
                P = mrows(it, S.pcall(cfg, 'conservative_from_characteristic', H, ncf))
                Pi = mrows(it, S.pcall(cfg, 'characteristic_from_conservative', H, ncf))
                Qin, Qout = ident_(S, 'incoming', H), ident_(S, 'outgoing', H)
                t = tuple(A.declare(f't{i}', 'real') for i in range(2))
                B = mrows(it, S.pcall(cfg, 'get_conservative_convective_jacobian', H, F.Cf(t, (2,))))
                g = {k: F.cf_of(it, v) for k, v in level_gfs(S, 'Uhat').items()}
                if scheme == 'bdf2':
                    dt = A.mul(N('2/3'), step)
                    old = [A.sub(A.mul(N('4/3'), a), A.mul(N('1/3'), b)) for a, b in zip(g['n'].e, g['n-1'].e)]
                else:
                    dt, old = step, list(g['n'].e)
                uh, _ = S.proxies('Uhat')
                dtan = [dotE(S.grad(e), t) for e in uh.e]
                relax = mv(P, [A.mul(x, y) for x, y in zip(d, mv(Pi, vsub(tgt, S.ch)))])
                r = vsub(vsub(S.ch, mv(Qout, S.cu)), mv(Qin, old))
                r = vsub(r, scal(dt, mv(Qin, relax)))
                r = vadd(r, scal(A.mul(dt, beta), mv(Qin, mv(B, dtan))))
                if viscflux:
                    r = vsub(r, scal(dt, mv(Qin, viscous_terms(S, target))))
                return r
            for out in setup(mk, time='transient', scheme=scheme, viscosity=visc):
                boundary_terms(c, 'cbc', f"{kind}, target {target}, {scheme}, {visc}{', viscous terms' if viscflux else ''}",
                               out, want, ['left|top'])
                n += 1
        c.need('characteristic boundary variants', n, 15)

    def viscous_terms(S, target):
        """divergence of the diffusive flux with the prescribed normal derivatives dropped, by the chain rule"""
        it, c = S.it, S.c
        n = tuple(A.declare(f'n{i}', 'real') for i in range(2))
        t = tuple(A.declare(f't{i}', 'real') for i in range(2))
        u, _ = S.proxies('U')
        q = S.q.e
        # derivatives of the conservative and mixed variables along n and t
        dUn, dUt = [dotE(S.grad(e), n) for e in u.e], [dotE(S.grad(e), t) for e in u.e]
        dQn, dQt = [dotE(S.grad(e), n) for e in q], [dotE(S.grad(e), t) for e in q]
        R = [[n[0], t[0]], [n[1], t[1]]]
        RT = [[n[0], n[1]], [t[0], t[1]]]
        mm = lambda a, b: [[dotE(r, [x[j] for x in b]) for j in range(2)] for r in a]
        e = mm(mm(RT, [[dQn[0], dQn[1]], [dQn[1], dQn[2]]]), R)         # in normal/tangential components
        qn = mv(RT, dQn[3:5])
        if target == 'outflow':                                         # d(tau_nt)/dn = 0, d(q_n)/dn = 0
            e = [[e[0][0], ZERO], [ZERO, e[1][1]]]
            qn = [ZERO, qn[1]]
        else:                                                           # d(tau_nn)/dn = 0
            e = [[ZERO, e[0][1]], [e[1][0], e[1][1]]]
        e = mm(mm(R, e), RT)
        qn = mv(R, qn)
        dQn = [e[0][0], e[0][1], e[1][1], qn[0], qn[1]]
        # diffusive flux as an explicit function of (W, q)
        mu = ONE
        re = F.cf_of(it, it.getattr(it.getattr(S.cfg, 'scaling'), 'reference_reynolds_number')).e[0]
        k = A.div(mu, re)
        pr = psym(it, it.getattr(S.cfg, 'prandtl_number'))
        W = [A.declare(f'W{i}', 'pos' if i == 0 else 'real') for i in range(4)]
        p = [A.declare(f'P{i}', 'real') for i in range(5)]
        ux, uy = A.div(W[1], W[0]), A.div(W[2], W[0])
        tx = [A.mul(A.mul(N(2), k), x) for x in (p[0], p[1], p[2])]
        Gx = [ZERO, tx[0], tx[1], A.add(A.add(A.mul(tx[0], ux), A.mul(tx[1], uy)), A.mul(A.div(k, pr), p[3]))]
        Gy = [ZERO, tx[1], tx[2], A.add(A.add(A.mul(tx[1], ux), A.mul(tx[2], uy)), A.mul(A.div(k, pr), p[4]))]
        at = {**dict(zip(W, u.e)), **dict(zip(p, q))}
        r = [ZERO] * 4
        for d, dU, dQ in ((n, dUn, dQn), (t, dUt, dQt)):
            for i in range(4):
                G = A.add(A.mul(Gx[i], d[0]), A.mul(Gy[i], d[1]))
                for v, dv in [*zip(W, dU), *zip(p, dQ)]:
                    r[i] = A.add(r[i], A.mul(A.subst(A.diff(G, v), at), dv))
        return r

    def offered(c):
        """every condition offered is imposed on its own boundary or refused"""
        n = 0
        o = c.run1(lambda it: {k: v for k, v in it.getattr(Setup(c, 2, initialize=False).cfg.d['bcs'], 'options').items()})
        opts = o.value
        for name in opts:
            def mk(S):
                k = it.call(opts[name], [])
                f = State(S.gamma, 2, tag='f').fields(c)
                try:
                    it.setattr(k, 'fields', f)
                except PyEx:
                    pass
                return k
            for visc in ('inviscid', 'constant'):
                outs = setup(mk, where='left', time='transient', viscosity=visc, periodic=name == 'periodic')
                for out in outs:
                    if out.exc:
                        c.ob('offered', f"{name}, {visc}: imposed or refused", out.excname in ('NotImplementedError', 'TypeError', 'ValueError')
                             and not str(out.exc).startswith('Ng'), f"{out.exc}", out.exc.where)
                    elif name == 'periodic':
                        c.ob('offered', f"{name}, {visc}: no boundary term", not any(k[0] == 'skeleton' for k in out.value.collect()),
                             'periodic boundary has a boundary term')
                    else:
                        got = out.value.collect()
                        on = {k[1] for k in got if k[0] == 'skeleton'}
                        c.ob('offered', f"{name}, {visc}: imposed on its own boundary", on == {'left'}, f"imposed on {sorted(on)}")
                    n += 1
        c.need('offered conditions', len(opts), 9)

    def several(c):
        """several conditions at once: each on its own boundary"""
        def go(it):
            return Setup(c, 2, time='stationary', bcs={
                'left': lambda S: S.cond('Symmetry'), 'right': lambda S: S.cond('InviscidWall'),
                'top|bottom': lambda S: S.cond('Symmetry')}, boundaries=('left', 'right', 'top', 'bottom', 'cut'))

        def want(S):
            m, n = S.cu[1:-1], normal(S)[0]
            return vsub(S.ch, [S.cu[0], *vsub(m, scal(dotE(m, n), n)), S.cu[-1]])
        for out in c.explore(go):
            boundary_terms(c, 'several', 'three conditions', out, want, ['left|right|top|bottom'])

    def foreign(c):
        """a condition the formulation does not know is refused"""
        def go(it):
            base = c.api('dream.mesh', 'Condition')
            S = Setup(c, 2, time='stationary', initialize=False)
            k = it.call(base, [])
            it.setitem(it.getattr(S.cfg, 'bcs'), 'left', k)
            it.call(it.getattr(S.cfg, 'initialize'), [])
        out = c.run1(go)
        c.ob('foreign', 'an unknown boundary condition is refused', out.exc is not None, 'silently accepted')
    for f in (farfield, outflow, walls, adiabatic, cbc, offered, several, foreign):
        c.part(f)


def level_gfs(S, variable):
    """grid functions of the old time levels of a variable, by level name"""
    it = S.it
    g = it.getitem(it.getattr(it.getattr(it.getattr(S.cfg, 'time'), 'scheme'), 'gfus'), variable)
    return {k: it.getitem(g, k) for k in (it.mapping_keys(g) if not isinstance(g, dict) else g)}


RULES = {'C08': c08, 'C09': c09}
