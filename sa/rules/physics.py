"""C04-C07: fluxes, characteristic decomposition, Riemann solvers, scalings and viscosity."""
import itertools

from .. import alg as A, fields as F
from ..flow import State, solver, gamma_of, psym, ret_where, mesh, cf
from ..interp import Unsupported, PyEx

N = A.num
ZERO, ONE = N(0), N(1)


# ------------------------------------------------------------------ small exact linear algebra on E

def mat(n, f):
    return [[f(i, j) for j in range(n)] for i in range(n)]


def mm(a, b):
    return [[A_sum(A.mul(a[i][k], b[k][j]) for k in range(len(b))) for j in range(len(b[0]))] for i in range(len(a))]


def A_sum(xs):
    s = ZERO
    for x in xs:
        s = A.add(s, x)
    return s


def rows(it, v):
    v = F.cf_of(it, v)
    n, m = v.dims
    return [list(v.e[i * m:(i + 1) * m]) for i in range(n)]


def flat(m):
    return F.Cf(tuple(x for r in m for x in r), (len(m), len(m[0])))


def ident(n):
    return mat(n, lambda i, j: ONE if i == j else ZERO)


def diagm(d):
    return mat(len(d), lambda i, j: d[i] if i == j else ZERO)


def emax(a, b=ZERO):
    return A.ifpos(A.sub(a, b), a, b)


def eabs(a):
    return A.ifpos(a, a, A.neg(a))


def normal2():
    """a unit vector, rationally parametrised"""
    s = A.declare('s', 'real')
    nx, ny = A.declare('nx', 'real'), A.declare('ny', 'real')
    s2 = A.mul(s, s)
    d = A.add(ONE, s2)
    return (nx, ny), {nx: A.div(A.sub(ONE, s2), d), ny: A.div(A.mul(N(2), s), d)}


def normal3():
    s, t = A.declare('s', 'real'), A.declare('t', 'real')
    n = tuple(A.declare(x, 'real') for x in ('nx', 'ny', 'nz'))
    d = A_sum([ONE, A.mul(s, s), A.mul(t, t)])
    return n, {n[0]: A.div(A.mul(N(2), s), d), n[1]: A.div(A.mul(N(2), t), d),
               n[2]: A.div(A.sub(A.add(A.mul(s, s), A.mul(t, t)), ONE), d)}


def normal(dim):
    return normal2() if dim == 2 else normal3()


# ------------------------------------------------------------------ the exact Euler system

def euler(gamma, dim):
    """conservative variables W, fluxes F[i][j](W) and the primitive variables V(W)"""
    W = [A.declare(f'W{i}', 'pos' if i in (0, dim + 1) else 'real') for i in range(dim + 2)]
    r, m, E = W[0], W[1:1 + dim], W[dim + 1]
    u = [A.div(x, r) for x in m]
    ek = A.mul(N('1/2'), A.div(F.dot(m, m), r))
    p = A.mul(A.sub(gamma, ONE), A.sub(E, ek))
    Fl = [[m[j] for j in range(dim)]]
    for i in range(dim):
        Fl.append([A.add(A.mul(m[i], u[j]), p if i == j else ZERO) for j in range(dim)])
    Fl.append([A.mul(A.add(E, p), u[j]) for j in range(dim)])
    return W, Fl, [r, *u, p]


def at(s, W, e):
    """evaluate an expression in W at the state"""
    vals = [s.v['rho'][0], *s.v['rho_u'], s.v['rho_E'][0]]
    return A.subst(e, dict(zip(W, vals)))


def jac(s, j, dim):
    W, Fl, V = euler(s.gamma, dim)
    return [[at(s, W, A.diff(Fl[i][j], W[k])) for k in range(dim + 2)] for i in range(dim + 2)]


def cons_prim(s, dim):
    """M = dW/dV and its inverse, from the definitions"""
    W, Fl, V = euler(s.gamma, dim)
    minv = [[at(s, W, A.diff(V[i], W[k])) for k in range(dim + 2)] for i in range(dim + 2)]
    vs = [A.declare(f'V{i}', 'pos' if i in (0, dim + 1) else 'real') for i in range(dim + 2)]
    r, u, p = vs[0], vs[1:1 + dim], vs[-1]
    Ws = [r] + [A.mul(r, x) for x in u] + [A.add(A.div(p, A.sub(s.gamma, ONE)),
                                                 A.mul(N('1/2'), A.mul(r, F.dot(u, u))))]
    val = dict(zip(vs, [s.v['rho'][0], *s.v['u'], s.v['p'][0]]))
    m = [[A.subst(A.diff(Ws[i], vs[k]), val) for k in range(dim + 2)] for i in range(dim + 2)]
    return m, minv


# ------------------------------------------------------------------ C04

def visc_case(c, dim, visc, scal):
    """solver with symbolic Mach, Reynolds, Prandtl numbers; expected mu(T), Re_ref, Pr"""
    it = c.it
    cfg = solver(c, dim, dynamic_viscosity=visc, scaling=scal)
    s = State(gamma_of(it, cfg), dim)
    ma = psym(it, it.getattr(cfg, 'mach_number'))
    re = psym(it, it.getattr(cfg, 'reynolds_number'))
    pr = psym(it, it.getattr(cfg, 'prandtl_number'))
    for p, n in ((ma, 'Ma'), (re, 'Re'), (pr, 'Pr')):
        s.sub[p] = A.declare(n, 'pos')
    speed, cinf = far(scal, ma)
    tinf = A.div(A.mul(cinf, cinf), A.sub(s.gamma, ONE))
    if visc == 'sutherland':
        dyn = it.getattr(cfg, 'dynamic_viscosity')
        t0 = it.getattr(dyn, 'measurement_temperature')
        tref = it.getattr(it.getattr(it.getattr(cfg, 'scaling'), 'dimensionful_values'), 'T')
        t0 = A.mul(A.div(F.cf_of(it, t0).e[0], F.cf_of(it, tref).e[0]), tinf)
        T = s.v['T'][0]
        mu = A.mul(A.power(A.div(T, tinf), N('3/2')), A.div(A.add(tinf, t0), A.add(T, t0)))
    else:
        mu = ONE
    return cfg, s, mu, A.div(re, speed), pr


def far(scal, ma):
    if scal == 'aerodynamic':
        return ONE, A.div(ONE, ma)
    if scal == 'acoustic':
        return ma, ONE
    return A.div(ma, A.add(ONE, ma)), A.div(ONE, A.add(ONE, ma))


SCALINGS = ('aerodynamic', 'acoustic', 'aeroacoustic')


def c04(c):
    it = c.it

    def convective(c):
        for dim in (2, 3):
            for keys in (None, ('rho', 'u', 'p', 'rho_E'), ('rho', 'rho_u', 'p', 'rho_E'), ('rho', 'rho_u', 'rho_Ei', 'rho_H')):
                def go(it):
                    cfg = solver(c, dim)
                    s = State(gamma_of(it, cfg), dim)
                    return it.call(it.getattr(cfg, 'get_convective_flux'), [s.fields(c, *(keys or ()))]), s
                out = c.run1(go)
                name = f"convective flux from {', '.join(keys or ('all fields',))} (dim {dim})"
                if out.exc:
                    c.ob('convective', name, False, str(out.exc), out.exc.where)
                    continue
                v, s = out.value
                W, Fl, _ = euler(s.gamma, dim)
                c.equal_cf('convective', name, v, flat([[at(s, W, e) for e in r] for r in Fl]), s.sub,
                           ret_where(it, out))

    def diffusive(c):
        n = 0
        # all fields known, and only those the discretisation or a user has at hand
        known = ((), ()), (('rho', 'rho_u', 'p', 'T'), ('eps', 'grad_T')), (('u', 'p', 'T'), ('grad_u', 'grad_T'))
        for dim, visc, scal, (have, diff) in itertools.product((2, 3), ('constant', 'sutherland'), SCALINGS, known):
            if have and scal != 'acoustic':
                continue

            def go(it):
                cfg, s, mu, re, pr = visc_case(c, dim, visc, scal)
                g = s.grads()
                U = s.fields(c, *have)
                dU = it.call(c.api('dream.compressible', 'flowfields'), [], {k: v for k, v in g.items() if not diff or k in diff})
                r = {'flux': it.call(it.getattr(cfg, 'get_diffusive_flux'), [U, dU]),
                     'tau': it.call(it.getattr(cfg, 'deviatoric_stress_tensor'), [U, dU]),
                     'q': it.call(it.getattr(cfg, 'heat_flux'), [U, dU]),
                     'stress': it.call(it.getattr(cfg, 'stress_tensor'), [U, dU])}
                return r, s, g, mu, re, pr
            out = c.run1(go)
            name = f"{visc} viscosity, {scal} scaling{', from ' + ', '.join(have + diff) if have else ''} (dim {dim})"
            if out.exc:
                c.ob('diffusive', name, False, str(out.exc), out.exc.where)
                continue
            r, s, g, mu, re, pr = out.value
            eps = [list(g['eps'].e[i * dim:(i + 1) * dim]) for i in range(dim)]
            tau = [[A.mul(A.div(A.mul(N(2), mu), re), e) for e in row] for row in eps]
            q = [A.neg(A.mul(A.div(mu, A.mul(re, pr)), e)) for e in g['grad_T'].e]
            u = s.v['u']
            G = [[ZERO] * dim] + tau + [[A.sub(F.dot(tau[i], u), q[i]) for i in range(dim)]]
            sig = [[A.sub(tau[i][j], s.v['p'][0] if i == j else ZERO) for j in range(dim)] for i in range(dim)]
            c.equal_cf('diffusive', 'deviatoric stress, ' + name, r['tau'], flat(tau), s.sub)
            c.equal_cf('diffusive', 'heat flux, ' + name, r['q'], F.Cf(tuple(q), (dim,)), s.sub)
            c.equal_cf('diffusive', 'diffusive flux, ' + name, r['flux'], flat(G), s.sub)
            c.equal_cf('diffusive', 'stress tensor, ' + name, r['stress'], flat(sig), s.sub)
            n += 1
        c.need('viscosity and scaling combinations', n, 12)

    def loads(c):
        for dim, visc in itertools.product((2, 3), ('inviscid', 'constant')):
            def go(it):
                if visc == 'inviscid':
                    cfg = solver(c, dim)
                    s = State(gamma_of(it, cfg), dim)
                    re = None
                else:
                    cfg, s, mu, re, pr = visc_case(c, dim, visc, 'acoustic')
                s2 = State(s.gamma, dim, tag='inf')
                s.sub.update(s2.sub)
                g = s.grads()
                U, R = s.fields(c), s2.fields(c)
                dU = it.call(c.api('dream.compressible', 'flowfields'), [], dict(g))
                d = tuple(cf(A.declare(f'd{i}', 'real')) for i in range(dim))
                r = {'cp': it.call(it.getattr(cfg, 'pressure_coefficient'), [U, R]),
                     'cd': it.call(it.getattr(cfg, 'drag_coefficient'), [U, dU, R, d]),
                     'cl': it.call(it.getattr(cfg, 'lift_coefficient'), [U, dU, R, d]),
                     'normal': it.getattr(it.getattr(cfg, 'mesh'), 'normal') if False else None}
                if visc == 'inviscid':
                    r['stress'] = it.call(it.getattr(cfg, 'stress_tensor'), [U])
                return r, s, s2, g, re, [x.e[0] for x in d]
            out = c.run1(go)
            name = f"{visc} (dim {dim})"
            if out.exc:
                c.ob('loads', name, False, str(out.exc), out.exc.where)
                continue
            r, s, s2, g, re, d = out.value
            p, pinf, ek = s.v['p'][0], s2.v['p'][0], s2.v['rho_Ek'][0]
            c.equal('loads', 'pressure coefficient, ' + name, r['cp'], A.div(A.sub(p, pinf), ek), s.sub)
            n = [A.sym(f'n{i}') for i in range(dim)]
            eps = [list(g['eps'].e[i * dim:(i + 1) * dim]) for i in range(dim)]
            sig = [[A.add(A.div(A.mul(N(2), eps[i][j]), re) if re is not None else ZERO,
                          A.neg(p) if i == j else ZERO) for j in range(dim)] for i in range(dim)]
            if 'stress' in r:
                c.equal_cf('loads', 'inviscid stress tensor, ' + name, r['stress'], flat(sig), s.sub)
            tr = [F.dot(sig[i], n) for i in range(dim)]
            want = A.div(A.div(F.dot(tr, d), A.sqrt(F.dot(d, d))), ek)
            c.equal('loads', 'drag coefficient, ' + name, r['cd'], want, s.sub)
            c.equal('loads', 'lift coefficient, ' + name, r['cl'], want, s.sub)

    def refused(c):
        """inviscid configurations offer no viscosity, Reynolds or Prandtl number"""
        for what in ('viscosity', 'reynolds_number', 'prandtl_number'):
            def go(it):
                cfg = solver(c, 2)
                s = State(gamma_of(it, cfg), 2)
                v = it.getattr(cfg, what)
                return it.call(v, [s.fields(c)]) if what == 'viscosity' else v
            out = c.run1(go)
            c.ob('inviscid', what, out.exc is not None and out.excname in ('ValueError', 'TypeError'),
                 f"{what} of an inviscid configuration yields {out.value!r}", ret_where(it, out))
    for f in (convective, diffusive, loads, refused):
        c.part(f)


# ------------------------------------------------------------------ C05

def call(it, o, m, *a, **k):
    return it.call(it.getattr(o, m), list(a), k)


def unit_cf(n):
    return F.Cf(tuple(n), (len(n),))


def filtered(lam, typ):
    if typ is None:
        return lam
    if typ == 'absolute':
        return [eabs(x) for x in lam]
    if typ == 'incoming':
        return [A.ifpos(x, ZERO, x) for x in lam]
    return [A.ifpos(x, x, ZERO) for x in lam]


TYPES = (None, 'absolute', 'incoming', 'outgoing')


def c05(c):
    it = c.it

    def setup(it, dim=2):
        cfg = solver(c, dim)
        s = State(gamma_of(it, cfg), dim)
        n, sub = normal(dim)
        s.sub.update(sub)
        return cfg, s, n, unit_cf(n), s.fields(c)

    def eigen(s, n):
        un = F.dot(s.v['u'], n)
        return [A.sub(un, s.v['c'][0])] + [un] * s.dim + [A.add(un, s.v['c'][0])]

    def matrices(c):
        def go(it):
            cfg, s, n, nv, U = setup(it)
            g = {}
            for m in ('conservative_from_primitive', 'primitive_from_conservative', 'conservative_convective_jacobian_x',
                      'conservative_convective_jacobian_y', 'primitive_convective_jacobian_x',
                      'primitive_convective_jacobian_y'):
                g[m] = call(it, cfg, m, U)
            for m in ('primitive_from_characteristic', 'characteristic_from_primitive',
                      'conservative_from_characteristic', 'characteristic_from_conservative'):
                g[m] = call(it, cfg, m, U, nv)
                g[m + '/tuple'] = call(it, cfg, m, U, tuple(cf(x) for x in n))
            return g, s, n
        out = c.run1(go)
        if out.exc:
            c.ob('matrices', 'construction', False, str(out.exc), out.exc.where)
            return
        g, s, n = out.value
        R = {k: rows(it, v) for k, v in g.items()}
        M, Minv = R['conservative_from_primitive'], R['primitive_from_conservative']
        L, Linv = R['primitive_from_characteristic'], R['characteristic_from_primitive']
        P, Pinv = R['conservative_from_characteristic'], R['characteristic_from_conservative']
        tM, tMinv = cons_prim(s, 2)
        eq = lambda name, a, b: c.equal_cf('matrices', name, flat(a), flat(b), s.sub)
        eq('conservative_from_primitive is dW/dV', M, tM)
        eq('primitive_from_conservative is dV/dW', Minv, tMinv)
        I = ident(4)
        eq('conservative_from_primitive * primitive_from_conservative = 1', mm(M, Minv), I)
        eq('primitive_from_characteristic * characteristic_from_primitive = 1', mm(L, Linv), I)
        eq('conservative_from_characteristic * characteristic_from_conservative = 1', mm(P, Pinv), I)
        eq('conservative_from_characteristic = M L', P, mm(M, L))
        eq('characteristic_from_conservative = Linv Minv', Pinv, mm(Linv, Minv))
        J = [jac(s, j, 2) for j in range(2)]
        for j, x in enumerate('xy'):
            eq(f'conservative_convective_jacobian_{x} is dF_{x}/dW', R[f'conservative_convective_jacobian_{x}'], J[j])
            eq(f'primitive_convective_jacobian_{x} is Minv A_{x} M', R[f'primitive_convective_jacobian_{x}'],
               mm(mm(tMinv, J[j]), tM))
        lam = diagm(eigen(s, n))
        An = [[A.add(A.mul(n[0], J[0][i][k]), A.mul(n[1], J[1][i][k])) for k in range(4)] for i in range(4)]
        eq('P Lambda Pinv is the Jacobian of the normal flux', mm(mm(P, lam), Pinv), An)
        eq('L Lambda Linv is the primitive Jacobian', mm(mm(L, lam), Linv), mm(mm(tMinv, An), tM))
        for m in ('primitive_from_characteristic', 'characteristic_from_primitive', 'conservative_from_characteristic',
                  'characteristic_from_conservative'):
            eq(m + ' for a tuple direction', R[m + '/tuple'], R[m])

    def velocities(c):
        for dim in (2, 3):
            for typ in TYPES:
                def go(it):
                    cfg, s, n, nv, U = setup(it, dim)
                    return call(it, cfg, 'characteristic_velocities', U, nv, typ), s, n
                out = c.run1(go)
                name = f"characteristic velocities, type {typ} (dim {dim})"
                if out.exc:
                    c.ob('velocities', name, False, str(out.exc), out.exc.where)
                    continue
                v, s, n = out.value
                c.equal_cf('velocities', name, v, F.Cf(tuple(filtered(eigen(s, n), typ)), (dim + 2,)), s.sub,
                           ret_where(it, out))
        for m in ('characteristic_velocities', 'get_characteristic_identity', 'get_conservative_convective_identity'):
            for typ in ('inflow', '') + ((None, 'absolute') if m != 'characteristic_velocities' else ()):
                def go(it):
                    cfg, s, n, nv, U = setup(it, 2)
                    return call(it, cfg, m, U, nv, typ)
                out = c.run1(go)
                c.ob('velocities', f'{m} rejects type {typ!r}', out.excname == 'ValueError',
                     f"yields {out.value!r} {out.exc or ''}", ret_where(it, out))

    def jacobians(c):
        for typ in TYPES:
            for kind in ('conservative', 'primitive'):
                for what in ('jacobian', 'identity'):
                    if what == 'identity' and typ in (None, 'absolute'):
                        continue

                    def go(it):
                        cfg, s, n, nv, U = setup(it, 2)
                        return (call(it, cfg, f'get_{kind}_convective_{what}', U, nv, typ), s, n,
                                [rows(it, call(it, cfg, f'{a}_from_{b}', U, nv))
                                 for a, b in ((kind, 'characteristic'), ('characteristic', kind))])
                    out = c.run1(go)
                    name = f"get_{kind}_convective_{what}, type {typ}"
                    if out.exc:
                        c.ob('split', name, False, str(out.exc), out.exc.where)
                        continue
                    v, s, n, (P, Pinv) = out.value
                    lam = eigen(s, n)
                    if what == 'jacobian':
                        d = filtered(lam, typ)
                    else:
                        sg = -1 if typ == 'incoming' else 1
                        d = [A.ifpos(A.mul(N(sg), x), ONE, ZERO) for x in lam]      # standing waves: see `standing`
                    c.equal_cf('split', name, v, flat(mm(mm(P, diagm(d)), Pinv)), s.sub, ret_where(it, out))

    def standing(c):
        """incoming and outgoing parts make up the whole also where a wave has no normal velocity"""
        for kind in ('conservative', 'primitive'):
            def go(it):
                cfg, s, n, nv, U = setup(it, 2)
                return [call(it, cfg, f'get_{kind}_convective_identity', U, nv, typ) for typ in ('incoming', 'outgoing')], s, n
            out = c.run1(go)
            if out.exc:
                c.ob('standing', f'{kind} identity', False, str(out.exc), out.exc.where)
                continue
            (a, b), s, n = out.value
            k = A.declare('k', 'real')
            cc = s.c0
            for name, un in (('any normal velocity', None), ('no normal velocity', ZERO), ('sonic inflow', A.neg(cc)),
                             ('sonic outflow', cc)):
                sub = dict(s.sub)
                total = F.Cf(tuple(A.add(x, y) for x, y in zip(F.cf_of(it, a).e, F.cf_of(it, b).e)), (4, 4))
                if un is not None:
                    at = {x: A.subst(A.add(A.mul(un, n[i]), A.mul(k, (A.neg(n[1]), n[0])[i])), s.sub)
                          for i, x in enumerate(s.u0)}
                    sub = {x: A.subst(e, at) for x, e in sub.items()}
                    sub.update(at)
                c.equal_cf('standing', f'incoming + outgoing {kind} identity = 1 at {name}', total, flat(ident(4)), sub,
                           ret_where(it, out))

    def variables(c):
        for typ in TYPES:
            def go(it):
                cfg, s, n, nv, U = setup(it, 2)
                g = s.grads()
                dU = it.call(c.api('dream.compressible', 'flowfields'), [], dict(g))
                return (call(it, cfg, 'characteristic_variables', U, dU, nv),
                        call(it, cfg, 'characteristic_amplitudes', U, dU, nv, typ), s, n, g,
                        rows(it, call(it, cfg, 'characteristic_from_primitive', U, nv)))
            out = c.run1(go)
            if out.exc:
                c.ob('variables', f'type {typ}', False, str(out.exc), out.exc.where)
                continue
            w, amp, s, n, g, Linv = out.value
            dV = [F.dot(g['grad_rho'].e, n), F.dot(g['grad_u'].e[:2], n), F.dot(g['grad_u'].e[2:], n),
                  F.dot(g['grad_p'].e, n)]
            want = [F.dot(r, dV) for r in Linv]
            if typ is None:
                c.equal_cf('variables', 'characteristic variables are Linv dV/dn', w, F.Cf(tuple(want), (4,)), s.sub)
            lam = filtered(eigen(s, n), typ)
            c.equal_cf('variables', f'characteristic amplitudes, type {typ}', amp,
                       F.Cf(tuple(A.mul(a, b) for a, b in zip(lam, want)), (4,)), s.sub)

    def transforms(c):
        X = [[A.declare(f'X{i}{j}', 'real') for j in range(4)] for i in range(4)]

        def go(it):
            cfg, s, n, nv, U = setup(it, 2)
            x = flat(X)
            R = lambda a, b, *k: rows(it, call(it, cfg, f'{a}_from_{b}', U, *k))
            return {
                'transform_primitive_to_conservative': (call(it, cfg, 'transform_primitive_to_conservative', x, U),
                                                        R('conservative', 'primitive'), R('primitive', 'conservative')),
                'transform_characteristic_to_primitive':
                    (call(it, cfg, 'transform_characteristic_to_primitive', x, U, nv),
                     R('primitive', 'characteristic', nv), R('characteristic', 'primitive', nv)),
                'transform_characteristic_to_conservative':
                    (call(it, cfg, 'transform_characteristic_to_conservative', x, U, nv),
                     R('conservative', 'characteristic', nv), R('characteristic', 'conservative', nv))}, s
        out = c.run1(go)
        if out.exc:
            c.ob('transforms', 'construction', False, str(out.exc), out.exc.where)
            return
        for k, (v, P, Pinv) in out.value[0].items():
            c.equal_cf('transforms', k, v, flat(mm(mm(P, X), Pinv)), out.value[1].sub)

    def isentropic(c):
        """isentropic density relations"""
        for keys, refs in ((('p',), ('rho', 'p')), (('T',), ('rho', 'T'))):
            def go(it):
                cfg = solver(c, 2)
                s, r = State(gamma_of(it, cfg), 2), State(gamma_of(it, cfg), 2, tag='ref')
                return call(it, cfg, 'isentropic_density', s.fields(c, *keys), r.fields(c, *refs)), s, r
            out = c.run1(go)
            name = f"isentropic density from {keys[0]}"
            if out.exc:
                c.ob('isentropic', name, False, str(out.exc), out.exc.where)
                continue
            v, s, r = out.value
            ex = A.div(ONE, s.gamma) if keys == ('p',) else A.div(ONE, A.sub(s.gamma, ONE))
            want = A.mul(r.v['rho'][0], A.power(A.div(s.v[keys[0]][0], r.v[keys[0]][0]), ex))
            c.equal('isentropic', name, v, want, s.sub, ret_where(it, out))
    for f in (matrices, velocities, jacobians, standing, variables, transforms, isentropic):
        c.part(f)


# ------------------------------------------------------------------ C06

def c06(c):
    it = c.it

    def solvers(c):
        n = 0
        for name, dim in [(x, 2) for x in ('lax_friedrich', 'roe', 'hll', 'hllem', 'upwind')] + [('lax_friedrich', 3),
                                                                                                 ('hll', 3)]:
            def go(it):
                cfg = solver(c, dim, riemann_solver=name)
                s = State(gamma_of(it, cfg), dim)
                nn, sub = normal(dim)
                s.sub.update(sub)
                rs = it.getattr(cfg, 'riemann_solver')
                th = None
                if name == 'hllem':
                    th = A.declare('theta0', 'pos', '1/1000000000000', '1/2')
                    it.setattr(rs, 'theta_0', F.Num(th))
                    back = it.getattr(rs, 'theta_0')
                    th = F.to_e(back)
                    if th is None:
                        raise Unsupported('theta_0 is not a number')
                U = s.fields(c)
                v = call(it, rs, 'get_convective_stabilisation_matrix', U, unit_cf(nn))
                t = call(it, rs, 'get_convective_stabilisation_matrix', U, tuple(cf(x) for x in nn))
                PP = None
                if dim == 2:
                    PP = [rows(it, call(it, cfg, m, U, unit_cf(nn))) for m in
                          ('conservative_from_characteristic', 'characteristic_from_conservative')]
                # the same state, known by fewer of its quantities
                part = {}
                for keys in (('rho', 'u', 'c'), *((('u', 'T'), ('u', 'c'), ('rho', 'u', 'p'), ('rho', 'rho_u', 'p'), ('rho', 'rho_u', 'T'))
                                                  if name in ('lax_friedrich', 'hll') else ())):
                    part[keys] = call(it, rs, 'get_convective_stabilisation_matrix', s.fields(c, *keys), unit_cf(nn))
                return v, t, s, nn, th, PP, part
            out = c.run1(go)
            cname = f"{name} (dim {dim})"
            if out.exc:
                c.ob('stabilisation', cname, False, str(out.exc), out.exc.where)
                continue
            v, t, s, nn, th, PP, part = out.value
            un, cc = F.dot(s.v['u'], nn), s.v['c'][0]
            I = ident(dim + 2)
            lam = [A.sub(un, cc)] + [un] * dim + [A.add(un, cc)]
            sp = emax(A.add(un, cc))
            if name == 'lax_friedrich':
                k = A.add(eabs(un), cc)
                want = [[A.mul(k, x) for x in r] for r in I]
            elif name == 'hll':
                want = [[A.mul(sp, x) for x in r] for r in I]
            else:
                P, Pinv = PP
                if name == 'roe':
                    d = filtered(lam, 'absolute')
                elif name == 'upwind':
                    d = filtered(lam, 'outgoing')
                else:
                    a = eabs(un)
                    q = A.div(a, A.add(a, cc))
                    theta = emax(q, th)
                    d = [ONE] + [theta] * dim + [ONE]
                want = mm(mm(P, diagm(d)), Pinv)
                if name == 'hllem':
                    want = [[A.mul(sp, x) for x in r] for r in want]
            c.equal_cf('stabilisation', cname, v, flat(want), s.sub, ret_where(it, out))
            c.equal_cf('stabilisation', cname + ' for a tuple normal', t, v, s.sub)
            for keys, m in part.items():
                c.equal_cf('stabilisation', f"{cname} from {', '.join(keys)}", m, v, s.sub)
            n += 1
        c.need('Riemann solvers', n, 7)

    def abstract(c):
        """the interface itself refuses, and every registered solver overrides it"""
        from ..interp import IClass, MISSING
        def go(it):
            cfg = solver(c, 2)
            rs = it.getattr(cfg, 'riemann_solver')
            base = next((k for k in reversed(rs.cls.mro) if k.ns.get('get_convective_stabilisation_matrix') is not None), None)
            if base is None or base is rs.cls:
                raise Unsupported('no interface class above the Riemann solvers')
            s = State(gamma_of(it, cfg), 2)
            return it.call(base.ns['get_convective_stabilisation_matrix'], [rs, s.fields(c), unit_cf(normal2()[0])])
        out = c.run1(go)
        c.ob('abstract', 'interface method without implementation', out.excname == 'NotImplementedError',
             f"the abstract interface method yields {out.value!r}", ret_where(it, out))
    c.part(solvers)
    c.part(abstract)


# ------------------------------------------------------------------ C07

def c07(c):
    it = c.it

    def farfield(c):
        for scal, dim in itertools.product(SCALINGS, (2, 3)):
            def go(it):
                cfg = solver(c, dim, scaling=scal, dynamic_viscosity='constant')
                ma = psym(it, it.getattr(cfg, 'mach_number'))
                d = tuple(cf(A.declare(f'd{i}', 'real')) for i in range(dim))
                INF = call(it, cfg, 'get_farfield_state', d)
                return (INF, gamma_of(it, cfg), ma, [x.e[0] for x in d],
                        it.getattr(it.getattr(cfg, 'scaling'), 'reference_reynolds_number'),
                        psym(it, it.getattr(cfg, 'reynolds_number')), call(it, cfg, 'get_local_mach_number', INF),
                        {k: it.getattr(INF, k) for k in ('rho', 'u', 'c', 'T', 'p', 'rho_Ei', 'rho_Ek', 'rho_E')})
            out = c.run1(go)
            name = f"{scal} scaling (dim {dim})"
            if out.exc:
                c.ob('farfield', name, False, str(out.exc), out.exc.where)
                continue
            INF, gam, ma, d, rre, re, mloc, vals = out.value
            speed, cinf = far(scal, ma)
            s = State(gam, dim)
            s.sub[ma] = A.declare('Ma', 'pos')
            s.sub[re] = A.declare('Re', 'pos')
            u = [A.mul(speed, A.div(x, A.sqrt(F.dot(d, d)))) for x in d]
            at_ = {s.rho0: ONE, s.c0: cinf, **dict(zip(s.u0, u))}
            for k, v in vals.items():
                if v is None:
                    c.ob('farfield', f'{k}, {name}', False, 'missing from the farfield state')
                    continue
                want = F.Cf(tuple(A.subst(e, at_) for e in s.v[k]), s.dims(k))
                c.equal_cf('farfield', f'{k}, {name}', v, want, s.sub)
            c.equal('farfield', f'Mach number of the farfield, {name}', mloc, ma, s.sub)
            c.equal('farfield', f'reference Reynolds number, {name}', A.mul(F.cf_of(it, rre).e[0], speed), re, s.sub)

    def rejected(c):
        for dim in (2, 3):
            for n in (1, 2, 3, 4):
                if n == dim:
                    continue

                def go(it):
                    cfg = solver(c, dim)
                    return call(it, cfg, 'get_farfield_state', tuple(float(i + 1) for i in range(n)))
                out = c.run1(go)
                c.ob('rejected', f'direction of length {n} on a mesh of dimension {dim}', out.excname == 'ValueError',
                     f'{out.value!r} {out.exc or ""}', ret_where(it, out))

        def go(it):
            cfg = solver(c, 2, scaling='aerodynamic')
            it.setattr(cfg, 'mach_number', 0)
            return call(it, cfg, 'get_farfield_state', (1, 0))
        out = c.run1(go)
        c.ob('rejected', 'Mach number zero in the aerodynamic scaling', out.excname == 'ValueError',
             f'{out.value!r} {out.exc or ""}', ret_where(it, out))

    def sutherland(c):
        for scal in SCALINGS:
            for custom in (False, True):
                def go(it):
                    cfg = solver(c, 2, dynamic_viscosity='sutherland', scaling=scal)
                    if custom:
                        it.setattr(it.getattr(cfg, 'dynamic_viscosity'), 'measurement_temperature', 100.0)
                        it.setattr(it.getattr(cfg, 'scaling'), 'dimensionful_values', {'T': 250.0})
                    ma = psym(it, it.getattr(cfg, 'mach_number'))
                    s = State(gamma_of(it, cfg), 2)
                    INF = call(it, cfg, 'get_farfield_state', (1.0, 0.0))
                    return (call(it, cfg, 'viscosity', s.fields(c)), call(it, cfg, 'viscosity', INF), s, ma)
                out = c.run1(go)
                name = f"{scal} scaling{', own reference values' if custom else ''}"
                if out.exc:
                    c.ob('sutherland', name, False, str(out.exc), out.exc.where)
                    continue
                mu, mu0, s, ma = out.value
                s.sub[ma] = A.declare('Ma', 'pos')
                cinf = far(scal, ma)[1]
                tinf = A.div(A.mul(cinf, cinf), A.sub(s.gamma, ONE))
                ratio = A.div(N(100), N(250)) if custom else A.div(A.num(110.4), A.num(293.15))
                S = A.mul(ratio, tinf)
                T = s.v['T'][0]
                want = A.mul(A.power(A.div(T, tinf), N('3/2')), A.div(A.add(tinf, S), A.add(T, S)))
                c.equal('sutherland', 'viscosity law, ' + name, mu, want, s.sub, ret_where(it, out))
                c.equal('sutherland', 'viscosity in the farfield, ' + name, mu0, ONE, s.sub, ret_where(it, out))

        def go(it):
            cfg = solver(c, 2, dynamic_viscosity='constant')
            s = State(gamma_of(it, cfg), 2)
            return call(it, cfg, 'viscosity', s.fields(c)), s
        out = c.run1(go)
        if out.exc:
            c.ob('sutherland', 'constant viscosity', False, str(out.exc), out.exc.where)
        else:
            c.equal('sutherland', 'constant viscosity', F.cf_of(it, out.value[0]).e[0], ONE)

        def go(it):
            cfg = solver(c, 2, dynamic_viscosity='sutherland')
            s = State(gamma_of(it, cfg), 2)
            return call(it, cfg, 'viscosity', s.fields(c, 'rho'))
        out = c.run1(go)
        c.ob('sutherland', 'undetermined without temperature', out.excname == 'ValueError', f'{out.value!r} {out.exc}')

    def dimensionful(c):
        base = {'rho': 1.293, 'u': 1, 'c': 343, 'T': 293.15, 'p': 101325}
        for over in ({}, {'T': 300.0}, {'rho': 2.0, 'u': 3.0, 'rho_u': 7.0}, {'density': 4.0}):
            def go(it):
                cfg = solver(c, 2)
                sc = it.getattr(cfg, 'scaling')
                if over:
                    it.setattr(sc, 'dimensionful_values', dict(over))
                s = State(gamma_of(it, cfg), 2)
                D = call(it, cfg, 'get_dimensionful_state', s.fields(c))
                return {k: it.getattr(D, k) for k in s.v}, s
            out = c.run1(go)
            name = f"references {over or 'by default'}"
            if out.exc:
                c.ob('dimensionful', name, False, str(out.exc), out.exc.where)
                continue
            vals, s = out.value
            ref = dict(base)
            ref.update({('rho' if k == 'density' else k): v for k, v in over.items()})
            for k, r in ref.items():
                v = vals[k]
                if v is None:
                    c.ob('dimensionful', f'{k}, {name}', False, 'missing')
                    continue
                c.equal_cf('dimensionful', f'{k}, {name}', v,
                           F.Cf(tuple(A.mul(A.num(r), e) for e in s.v[k]), s.dims(k)), s.sub)
            wrong = sorted(k for k in vals if k not in ref and vals[k] is not None)
            c.ob('dimensionful', f'no quantity without reference, {name}', not wrong, f'{wrong}')
    for f in (farfield, rejected, sutherland, dimensionful):
        c.part(f)


RULES = {'C04': c04, 'C05': c05, 'C06': c06, 'C07': c07}
