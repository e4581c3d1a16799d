"""C11: mixed variables; C12: time schemes; C13: nonlinear solver."""
import itertools
from fractions import Fraction

from .. import alg as A, fields as F
from ..flow import State, psym, ret_where
from ..forms import Setup, cons, dotE, names, ZERO, ONE
from ..interp import Unsupported, PyEx, HostFn
from .residual import fluxes, gdot, unit_normal, vsub, vadd, scal, KINDS, level_gfs

N = A.num


def as_frac(x):
    if isinstance(x, (int, float, Fraction)):
        return Fraction(x)
    try:
        return A.const_value(F.to_e(x))
    except AttributeError:
        e = F.to_e(x)
        raise Unsupported(f"not a constant: {A.brief(e)}")


def c11(c):
    it = c.it

    def dev(e, dim):
        tr = ZERO
        for i in range(dim):
            tr = A.add(tr, e[i][i])
        return [[A.sub(e[i][j], A.div(tr, N(3))) if i == j else e[i][j] for j in range(dim)] for i in range(dim)]

    def normal(dim):
        return [A.declare(f'n{i}', 'real') for i in range(dim)]

    def equations(c):
        """the strain-heat equations, cell and facet terms"""
        for visc in ('constant', 'sutherland'):
            for bcs in ({}, {'left': lambda S: S.cond('Symmetry')}):
                def go(it):
                    return Setup(c, 2, time='stationary', viscosity=visc, bcs=bcs)
                for out in c.explore(go):
                    name = f"{visc}{', with a wall' if bcs else ''}"
                    if out.exc:
                        c.ob('equations', name, False, str(out.exc), out.exc.where)
                        continue
                    S = out.value
                    q, p = S.q.e, S.v['Q']
                    c.ob('equations', f"number of mixed unknowns, {name}", len(q) == 5, f"{len(q)}")
                    g = [S.grad(x) for x in p]
                    E = [[p[0], p[1]], [p[1], p[2]]]
                    dE = [[[g[0][k], g[1][k]], [g[1][k], g[2][k]]] for k in range(2)]       # derivative along x_k
                    u, T = S.s.v['u'], S.s.v['T'][0]
                    uh, Th = S.h.v['u'], S.h.v['T'][0]
                    cell = ZERO
                    Q = [[q[0], q[1]], [q[1], q[2]]]
                    for i, j in itertools.product(range(2), range(2)):
                        cell = A.add(cell, A.mul(Q[i][j], E[i][j]))
                        cell = A.add(cell, A.mul(u[i], dev(dE[j], 2)[i][j]))
                    for i in range(2):
                        cell = A.add(cell, A.mul(q[3 + i], p[3 + i]))
                        cell = A.add(cell, A.mul(T, g[3 + i][i]))
                    n = normal(2)
                    facet = ZERO
                    for i, j in itertools.product(range(2), range(2)):
                        facet = A.sub(facet, A.mul(A.mul(uh[i], dev(E, 2)[i][j]), n[j]))
                    for i in range(2):
                        facet = A.sub(facet, A.mul(A.mul(Th, n[i]), p[3 + i]))
                    got = S.collect()
                    base = {k: v for k, v in S.sub.items()}
                    for m in S.mesh.materials:
                        for x, kind in ((cell, 'cell'), (facet, 'facet')):
                            c.equal('equations', f"{kind} term in {m}, {name}", S.tested(got.get((kind, m), ZERO), 'Q'), x, base)
                    for k, e in got.items():
                        if k[0] not in ('cell', 'facet'):
                            c.equal('equations', f"no mixed equation on {k}, {name}", S.tested(e, 'Q'), ZERO, base)
                    prm = {k: v for k, v in base.items() if k not in (*S.cu, *S.ch)}
                    weak_definition(c, name, S, cell, facet, prm)

    def weak_definition(c, name, S, cell, facet, sub):
        """inserting any smooth state into the equations leaves exactly the integrals that vanish by parts:
        q := deviatoric strain, grad T makes  cell = div(a) with a.n = -facet"""
        q, p = S.q.e, S.v['Q']
        uv = list(S.s.v['u'])
        T = A.declare('Tx', 'real')
        gu = [[A.declare(f'du{i}{j}', 'real') for j in range(2)] for i in range(2)]
        gT = [A.declare(f'dT{j}', 'real') for j in range(2)]
        tr = A.add(gu[0][0], gu[1][1])
        at = {q[0]: A.sub(gu[0][0], A.div(tr, N(3))), q[1]: A.mul(N('1/2'), A.add(gu[0][1], gu[1][0])),
              q[2]: A.sub(gu[1][1], A.div(tr, N(3))), q[3]: gT[0], q[4]: gT[1]}
        # a_j = -(facet with n = e_j), derivatives by the chain rule over u, T and p
        n = normal(2)
        ux = [A.declare(f'ux{i}', 'real') for i in range(2)]
        uh, Th = S.h.v['u'], S.h.v['T'][0]
        # facet is linear in the trace velocity and temperature: rebuild it with independent symbols
        E = [[p[0], p[1]], [p[1], p[2]]]
        total = ZERO
        for j in range(2):
            a = ZERO
            for i in range(2):
                a = A.add(a, A.mul(ux[i], dev(E, 2)[i][j]))
            a = A.add(a, A.mul(T, p[3 + j]))
            for s, d in ([(ux[i], gu[i][j]) for i in range(2)] + [(T, gT[j])] + [(x, S.grad(x)[j]) for x in p]):
                total = A.add(total, A.mul(A.diff(a, s), d))
        # cell part of the exact weak form
        g = [S.grad(x) for x in p]
        want = A.subst(total, {})
        Q = [[q[0], q[1]], [q[1], q[2]]]
        e = ZERO
        dE = [[[g[0][k], g[1][k]], [g[1][k], g[2][k]]] for k in range(2)]
        for i, j in itertools.product(range(2), range(2)):
            e = A.add(e, A.mul(Q[i][j], E[i][j]))
            e = A.add(e, A.mul(ux[i], dev(dE[j], 2)[i][j]))
        for i in range(2):
            e = A.add(e, A.mul(q[3 + i], p[3 + i]))
            e = A.add(e, A.mul(T, g[3 + i][i]))
        c.equal('consistency', f"the equations hold for the exact strain rate and temperature gradient, {name}", A.subst(e, at), want)

    def readers(c):
        """all readers agree on the position of the stored components"""
        for dim in (2, 3):
            def go(it):
                S = Setup(c, dim, time='stationary', viscosity='constant', initialize=False)
                mm = it.getattr(it.getattr(S.cfg, 'fem'), 'mixed_method')
                n = 4 * dim - 3
                z = F.Cf(tuple(A.declare(f"z{i}", 'real') for i in range(n)), (n,))
                sp = {}
                it.call(it.getattr(S.cfg, 'initialize_finite_element_spaces'), [])
                gf = F.Gf(it, it.getitem(it.getattr(S.cfg, "spaces"), "Q"))
                return S, [(z, S.pcall(mm, 'get_mixed_fields', z)), (gf, S.pcall(mm, 'get_mixed_fields', gf))]
            out = c.run1(go)
            if out.exc:
                c.ob('readers', f"dim {dim}", False, str(out.exc), out.exc.where)
                continue
            S, pairs = out.value
            for src, f in pairs:
                what = f"{type(src).__name__} (dim {dim})"
                if isinstance(src, F.Gf) and src.components_:
                    z = [x for g in src.components_ for x in g.e]
                else:
                    z = list(F.cf_of(it, src).e)
                eps, gT = F.cf_of(it, it.getattr(f, 'eps')), F.cf_of(it, it.getattr(f, 'grad_T'))
                m = 3 * dim - 3
                c.ob('readers', f"strain rate is symmetric, {what}", eps.dims == (dim, dim) and all(
                    eps.e[i * dim + j] is eps.e[j * dim + i] for i in range(dim) for j in range(dim)), f"{eps!r}")
                upper = [eps.e[i * dim + j] for i in range(dim) for j in range(i, dim)]
                c.ob('readers', f"strain rate uses each stored component once, {what}", upper == z[:m], f"{upper}")
                c.ob('readers', f"temperature gradient follows, {what}", list(gT.e) == z[m:], f"{gT.e}")

    def unimplemented(c):
        def go(it):
            return Setup(c, 3, time='stationary', viscosity='constant')
        out = c.run1(go)
        c.ob('refuse', 'strain-heat in 3d is refused', out.excname == 'NotImplementedError', f"{out.exc or 'accepted'}")

    def gradient(c):
        """the gradient method: equations, and a viscous solver can be initialised with it"""
        for dim in (2, 3):
            def go(it):
                S = Setup(c, dim, time='stationary', viscosity='constant', mixed='gradient', initialize=False)
                for m in ('initialize_finite_element_spaces', 'initialize_trial_and_test_functions', 'initialize_gridfunctions'):
                    it.call(it.getattr(S.cfg, m), [])
                S.TnT = it.getattr(S.cfg, 'TnT')
                blf = {}
                S.pcall(it.getattr(it.getattr(S.cfg, 'fem'), 'mixed_method'), 'add_mixed_form', blf, {})
                S.terms = [(cc, f.e[0], d) for t in blf.values() for cc, f, d in t.terms]
                return S
            out = c.run1(go)
            if out.exc:
                c.ob('gradient', f"equations (dim {dim})", False, str(out.exc), out.exc.where)
                continue
            S = out.value
            (u, _), (uh, _), (q, p) = S.proxies('U'), S.proxies('Uhat'), S.proxies('Q')
            got = S.collect()
            n = normal(dim)
            cell, facet = dotE(q.e, p.e), ZERO
            for i in range(dim + 2):
                for j in range(dim):
                    x = p.e[i * dim + j]
                    cell = A.add(cell, A.mul(u.e[i], S.grad(x)[j]))
                    facet = A.sub(facet, A.mul(A.mul(uh.e[i], x), n[j]))
            for m in S.mesh.materials:
                c.equal('gradient', f"cell term in {m} (dim {dim})", got.get(('cell', m), ZERO), cell)
                c.equal('gradient', f"facet term in {m} (dim {dim})", got.get(('facet', m), ZERO), facet)

        def go(it):
            return Setup(c, 2, time='stationary', viscosity='constant', mixed='gradient')
        out = c.run1(go)
        c.ob('gradient', 'a viscous solver with the gradient method can be initialised', not out.exc, f"{out.exc}",
             out.exc.where if out.exc else '')
    for f in (equations, readers, unimplemented, gradient):
        c.part(f)


# ------------------------------------------------------------------ C12

LEVELS = {'implicit_euler': ('n', 'n+1'), 'bdf2': ('n-1', 'n', 'n+1')}


def derivative(scheme, new, g, dt):
    if scheme == 'implicit_euler':
        return [A.div(A.sub(a, b), dt) for a, b in zip(new, g['n'])]
    return [A.div(A.add(A.sub(A.mul(N(3), a), A.mul(N(4), b)), d), A.mul(N(2), dt))
            for a, b, d in zip(new, g['n'], g['n-1'])]


def c12(c):
    it = c.it
    cbc = {'left': lambda S: S.cond('GRCBC', fields=State(S.gamma, 2, tag='f').fields(c), target='farfield')}

    def forms(c):
        n = 0
        for scheme, time, visc, dim, bcs, opts in (
                [(s, t, 'inviscid', 2, {}, None) for s in LEVELS for t in ('transient', 'pseudo_time_stepping')] +
                [(s, 'transient', 'constant', 2, {}, None) for s in LEVELS] +
                [(s, 'transient', 'inviscid', 3, {}, {'optimizations.static_condensation': True,
                                                      'optimizations.compile.realcompile': False}) for s in LEVELS] +
                [(s, 'transient', 'inviscid', 2, cbc, None) for s in LEVELS]):
            def go(it):
                S = Setup(c, dim, time=time, scheme=scheme, viscosity=visc, bcs=bcs, opts=opts)
                step = psym(it, it.getattr(it.getattr(it.getattr(S.cfg, 'time'), 'timer'), 'step'))
                return S, fluxes(S), step
            name = f"{scheme}, {time}, {visc}{', characteristic boundary' if bcs else ''} (dim {dim})"
            for out in c.explore(go):
                if out.exc:
                    c.ob('derivative', name, False, str(out.exc), out.exc.where)
                    continue
                S, (Fl, Fn), step = out.value
                got = S.collect()
                lv = {k: F.cf_of(it, v).e for k, v in level_gfs(S, 'U').items()}
                c.ob('levels', f"time levels of U, {name}", tuple(lv) == LEVELS[scheme], f"{list(lv)}")
                d = derivative(scheme, S.cu, lv, step)
                for m in S.mesh.materials:
                    e = got.get(('cell', m), ZERO)
                    c.equal('derivative', f"cell terms in {m}, {name}", S.tested(e, 'U'),
                            A.add(A.neg(gdot(S, Fl, S.v['U'])), dotE(d, S.v['U'])), S.sub)
                for k, e in got.items():
                    if k[0] != 'skeleton':
                        c.ob('derivative', f"trace and mixed equations are not differentiated in time, {k}, {name}",
                             not (A.syms(S.tested(e, 'Uhat')) & {step.args[0]}) and
                             not ('Q' in S.v and A.syms(S.tested(e, 'Q')) & {step.args[0]}), 'depends on the time step')
                    if k[0] == 'facet':
                        c.ob('derivative', f"no time derivative on facets, {k}, {name}",
                             not (A.syms(e) & {step.args[0]}), 'depends on the time step')
                n += 1
        c.need('time discretisations', n, 10)

    def values(S):
        sch = it.getattr(it.getattr(S.cfg, 'time'), 'scheme')
        out = {}
        for var in ('U', 'Uhat'):
            try:
                g = level_gfs(S, var)
            except PyEx:
                continue
            out[var] = {k: v.vec.value.key() for k, v in g.items()}
        return out

    def levels(c):
        """all levels start from the initial state; a step shifts them by one, oldest first"""
        for scheme, time, bcs in itertools.product(LEVELS, ('transient', 'pseudo_time_stepping'), ({}, cbc)):
            if bcs and time != 'transient':
                continue
            def go(it):
                S = Setup(c, 2, time=time, scheme=scheme, bcs=bcs)
                sch = it.getattr(it.getattr(S.cfg, 'time'), 'scheme')
                a = values(S)
                hist = [a]
                for k in range(3):
                    # a solve leaves a new state in the newest level
                    for var in a:
                        g = level_gfs(S, var)['n+1']
                        g.vec.write(it, F.VExpr.atom(f"state{k + 1}:{var}"))
                    it.call(it.getattr(sch, 'update_gridfunctions'), [])
                    hist.append(values(S))
                return S, hist
            name = f"{scheme}, {time}{', characteristic boundary' if bcs else ''}"
            out = c.run1(go)
            if out.exc:
                c.ob('levels', name, False, str(out.exc), out.exc.where)
                continue
            S, hist = out.value
            c.ob('levels', f"variables with time levels, {name}", set(hist[0]) == ({'U', 'Uhat'} if bcs else {'U'}), f"{set(hist[0])}")
            for var, lv in hist[0].items():
                names_ = LEVELS[scheme]
                g = level_gfs(S, var)
                c.ob('levels', f"levels of {var} are distinct functions of its own space, {name}",
                     len({id(x.vec) for x in g.values()}) == len(names_) and
                     all(x.space is it.getitem(S.spaces, var) for x in g.values()), f"{g}")
                c.ob('levels', f"newest level of {var} is the solution, {name}", g['n+1'] is it.getitem(S.gfus, var), f"{g['n+1']!r}")
                c.ob('levels', f"levels of {var} start from the initial state, {name}", len(set(lv.values())) == 1, f"{lv}")
                start = lv['n+1']
                states = [start] + [F.VExpr.atom(f"state{k + 1}:{var}").key() for k in range(3)]
                for k in range(3):
                    # after step k+1 the newest and the current level hold state k+1, the one before holds state k
                    want = {'n+1': states[k + 1], 'n': states[k + 1], 'n-1': states[k]}
                    got = hist[k + 1][var]
                    for l in names_:
                        c.ob('levels', f"level {l} of {var} after step {k + 1}, {name}", got[l] == want[l], f"{got[l]}")

    def normalised(c):
        """boundary conditions that use the scheme directly get a consistent level and step"""
        for scheme in LEVELS:
            def go(it):
                S = Setup(c, 2, scheme=scheme, bcs=cbc)
                sch = it.getattr(it.getattr(S.cfg, 'time'), 'scheme')
                step = psym(it, it.getattr(it.getattr(it.getattr(S.cfg, 'time'), 'timer'), 'step'))
                r = {}
                for nrm in (True, False):
                    r[nrm] = (F.cf_of(it, S.pcall(sch, 'get_current_level', 'Uhat', nrm)).e,
                              F.cf_of(it, S.pcall(sch, 'get_time_step', nrm)).e[0])
                return S, r, step
            out = c.run1(go)
            if out.exc:
                c.ob('normalised', scheme, False, str(out.exc), out.exc.where)
                continue
            S, r, step = out.value
            lv = {k: F.cf_of(it, v).e for k, v in level_gfs(S, 'Uhat').items()}
            new = S.ch
            d = derivative(scheme, new, lv, step)
            for nrm, (old, dt) in r.items():
                # (lead * u - old) / dt is the time derivative
                lead = ONE if nrm or scheme == 'implicit_euler' else N(3)
                for i in range(4):
                    c.equal('normalised', f"component {i}: ({'u' if lead is ONE else '3u'} - level)/step is the derivative, "
                            f"{scheme}, normalised {nrm}", A.div(A.sub(A.mul(lead, new[i]), old[i]), dt), d[i])

    def pseudo(c):
        """growth of the pseudo time step: all orders of step, grown step and maximum"""
        n = 0
        its = (0, 1, 2, 3, 5, 6, 9, 10, 11, 20, 21, 30)
        for at, factor in ((1, 2), (3, 10), (10, 10), (7, 3)):
            for dt0, mx in (('1/8', '4'), ('1/8', '1/4'), ('1/8', '1/8'), ('1/8', '3/16'), ('1/2', '1/8'), ('1/8', '5/4')):
                def go(it):
                    S = Setup(c, 2, time='pseudo_time_stepping', initialize=False)
                    t = it.getattr(S.cfg, 'time')
                    it.setattr(t, 'increment_at', at)
                    it.setattr(t, 'increment_factor', factor)
                    it.setattr(t, 'max_time_step', float(Fraction(mx)))
                    timer = it.getattr(t, 'timer')
                    res = []
                    for i in its:
                        it.setattr(timer, 'step', float(Fraction(dt0)))
                        step = it.getattr(timer, 'step')
                        it.call(it.getattr(t, 'solver_iteration_update'), [i])
                        now = it.getattr(timer, 'step')
                        res.append((step is now, it.call(it.getattr(now, 'Get'), [])))
                    # and along one run
                    it.setattr(timer, 'step', float(Fraction(dt0)))
                    run = []
                    for i in range(25):
                        it.call(it.getattr(t, 'solver_iteration_update'), [i])
                        run.append(it.call(it.getattr(it.getattr(timer, 'step'), 'Get'), []))
                    return res, run
                for out in c.explore(go):
                    name = f"step {dt0}, maximum {mx}, every {at}, factor {factor}"
                    if out.exc:
                        c.ob('pseudo', name, False, str(out.exc), out.exc.where)
                        continue
                    res, run = out.value

                    def new(i, dt):
                        if i and i % at == 0 and dt < Fraction(mx):
                            return min(dt * factor, Fraction(mx))
                        return dt
                    for i, (live, e) in zip(its, res):
                        c.ob('pseudo', f"{name}: iteration {i}, live parameter", live, 'the time step is replaced by another object')
                        c.ob('pseudo', f"{name}: iteration {i}, new step", as_frac(e) == new(i, Fraction(dt0)), f"{e}")
                        n += 1
                    dt = Fraction(dt0)
                    for i, e in enumerate(run):
                        dt = new(i, dt)
                        c.ob('pseudo', f"{name}: step after {i + 1} iterations", as_frac(e) == dt, f"{e} for {dt}")
                        n += 1
        c.need('pseudo time step updates', n, 30)
    for f in (forms, levels, normalised, pseudo):
        c.part(f)


# ------------------------------------------------------------------ C13

CRIT = Fraction(1, 10 ** 6)
#: inner product of update and residual -> (converged, diverged)
NAN = float('nan')
BIG, SMALL = 1e-3, 1e-9
OUTCOMES = {1e-3: (False, False), -1e-3: (False, False), 1e-6: (False, False), 5e-7: (True, False),
            -1e-9: (True, False), 0.0: (True, False), NAN: (False, True), 1e9: (False, False), -1e30: (False, False)}


def merge_words(v):
    """inner_solve reads only condensed dofs, which harmonic_extension_trans does not write; the reverse order of the
    two condensed corrections is the same"""
    out = {}
    for (word, atom), k in v.t.items():
        w = list(word)
        i = 0
        dead = False
        while i + 1 < len(w):
            if str(w[i][0]) == 'inner_solve' and str(w[i + 1][0]) == 'harmonic_extension_trans':
                dead = True
            i += 1
        if not dead:
            out[(tuple(word), atom)] = A.add(out.get((tuple(word), atom), ZERO), k)
    return F.VExpr(out)


def c13(c):
    it = c.it

    def prepare(name, condense, n, time='transient', scheme=None, again=None):
        S = Setup(c, 2, time=time, scheme=scheme, opts={'optimizations.static_condensation': condense, 'optimizations.compile.realcompile': False,
                              'nonlinear_solver': name, 'nonlinear_solver.max_iterations': n,
                              'nonlinear_solver.convergence_criterion': float(CRIT)})
        ns = it.getattr(S.cfg, 'nonlinear_solver')
        it.setattr(it.getattr(ns, 'method'), 'damping_factor', F.Num(A.declare('damp', 'pos')))
        sch = it.getattr(S.cfg, 'time')
        if again == 'initialised':
            S.pcall(S.cfg, 'initialize')
        if again:
            S.pcall(sch, 'assemble')
        if time != 'stationary':
            sch = it.getattr(sch, 'scheme')
        S.blf_, S.lf_ = it.getattr(sch, 'blf'), it.getattr(sch, 'lf')
        return S, ns, it.getattr(it.getattr(S.cfg, "gfu"), "vec")

    def drive(S, ns, vec, script, damp=None):
        """one solve with the given inner products: (yielded, [iterate after each step], status, events, products)"""
        script = list(script)
        prods = []

        def inner(x, y):
            prods.append((x, y))
            # more solves than asked for: the extra one ends the iteration, their number tells
            v = script.pop(0) if script else NAN
            return v if v != v else F.Num(N(v))
        it.inner_script = inner
        n0 = len(it.events)
        ys, states = [], []
        S.lf_.vecm.value = F.VExpr.atom('load of an earlier time')
        try:
            for k, y in enumerate(it.iterate(it.call(it.getattr(ns, 'solve'), []))):
                if k:
                    states.append(vec.value)
                ys.append(y)
                vec.value = F.VExpr.atom(f"x{k}")
                it.events.append(('mark', k))
                if damp:
                    it.setattr(it.getattr(ns, 'method'), 'damping_factor', F.Num(damp[k]))
            if ys:
                states.append(vec.value)
        finally:
            it.inner_script = None
        st = (bool(it.truth(it.getattr(ns, 'is_converged'))), bool(it.truth(it.getattr(ns, 'is_nan'))))
        return ys, states, st, it.events[n0:], prods

    def step(c):
        """one Newton step: residual, linearisation, condensed solve, update"""
        cases = [(n, k, 'transient', None, None) for n, k in itertools.product(('umfpack', 'pardiso'), (False, True))]
        cases += [('umfpack', k, *t, a) for k, t, a in itertools.product(
            (False, True), (('stationary', None), ('transient', 'implicit_euler'), ('transient', 'bdf2'), ('pseudo_time_stepping', 'implicit_euler'),
                            ('pseudo_time_stepping', 'bdf2')), (None, 'assembled', 'initialised'))]
        for name, condense, time, scheme, again in cases:
            def go(it):
                S, ns, vec = prepare(name, condense, 2, time, scheme, again)
                d = [A.declare('damp0', 'pos'), A.declare('damp1', 'pos')]
                return S, vec, d, drive(S, ns, vec, [BIG, SMALL], d)
            out = c.run1(go)
            what = f"{name}, {'condensed' if condense else 'full'}, {time}{', ' + scheme if scheme else ''}{', ' + again + ' again' if again else ''}"
            if out.exc:
                c.ob('step', what, False, str(out.exc), out.exc.where)
                continue
            S, vec, damp, (ys, states, st, ev, prods) = out.value
            c.ob('step', f"{what}: moves the solution of the solver", vec is it.getattr(it.getattr(S.cfg, 'gfu'), 'vec'), 'another vector')
            fes = it.getattr(S.cfg, 'fes')
            free = repr(('freedofs', fes, condense))
            for k, got in enumerate(states):
                x = F.VExpr.atom(f"x{k}")
                r = F.VExpr.atom(f"A({x!r})").plus(F.VExpr.atom(f"{S.lf_!r}.f"), N(-1))
                M = ((repr(S.blf_), 'mat', repr(x)),)
                op = lambda n: ((n, repr(x)),)
                inv = (('inv', M, free),)
                if condense:
                    r = r.plus(r.apply(op('harmonic_extension_trans')))
                    du = r.apply(inv)
                    du = du.plus(du.apply(op('harmonic_extension'))).plus(r.apply(op('inner_solve')))
                else:
                    du = r.apply(inv)
                want = merge_words(x.plus(du, A.neg(damp[k])))
                g = merge_words(got)
                keys = set(want.t) | set(g.t)
                bad = [q for q in keys if not c.holds(want.t.get(q, ZERO), g.t.get(q, ZERO))]
                c.ob('step', f"{what}: update in iteration {k}", not bad,
                     f"new iterate {g!r} but expected {want!r}"[:900])
                if k < len(prods):
                    p = {repr(merge_words(v)) for v in prods[k]}
                    c.ob('step', f"{what}: error of iteration {k} pairs the Newton update with the residual",
                         p == {repr(merge_words(du)), repr(merge_words(r))}, f"{p}"[:900])
            inv = [e for e in ev if e[0] == 'mat.inverse']
            c.ob('step', f"{what}: factorised with the selected library", {e[3] for e in inv} == {name}, f"{[e[3] for e in inv]}")
            c.ob('step', f"{what}: the residual is that of the assembled form",
                 {e[1] for e in ev if e[0] == 'blf.apply'} == {S.blf_} == {e[1] for e in ev if e[0] == 'blf.linearize'}, 'another form')
            c.ob('step', f"{what}: form condenses as configured", bool(S.blf_.opts.get('condense', False)) == condense, f"{S.blf_.opts}")

    def control(c):
        """all residual histories up to a bound: stopping, status and abandoned updates"""
        n = 0
        top = 4 if c.thorough else 3
        for N_ in range(0, top + 1):
            def go(it):
                S, ns, vec = prepare('umfpack', False, N_)
                res = []
                for script in itertools.product(OUTCOMES, repeat=N_):
                    # a prefix that stops early is driven once
                    stop = next((k for k, v in enumerate(script) if any(OUTCOMES[v] if v == v else (False, True))), N_ - 1)
                    if any(v is not script[stop] and v != BIG for v in script[stop + 1:]) or \
                            any(v != BIG for v in script[stop + 1:]):
                        continue
                    vec.value = F.VExpr.atom('start')
                    res.append((script, stop, drive(S, ns, vec, script)))
                return res
            out = c.run1(go)
            if out.exc:
                c.ob('control', f"at most {N_} iterations", False, str(out.exc), out.exc.where)
                continue
            for script, stop, (ys, states, st, ev, prods) in out.value:
                what = f"at most {N_} iterations, products {['nan' if v != v else v for v in script]}"
                want_n = stop + 1 if N_ else 0
                c.ob('control', f"{what}: number of iterations", list(ys) == list(range(want_n)) and len(prods) == want_n,
                     f"{ys} with {len(prods)} solves, expected {want_n}")
                last = script[stop] if N_ else None
                conv, div = (False, False) if last is None else (False, True) if last != last else OUTCOMES[last]
                c.ob('control', f"{what}: converged", st[0] == conv, f"is_converged={st[0]}, expected {conv}")
                c.ob('control', f"{what}: diverged", st[1] == div, f"is_nan={st[1]}, expected {div}")
                for k, x in enumerate(states):
                    nan = script[k] != script[k]
                    same = x.key() == F.VExpr.atom(f"x{k}").key()
                    c.ob('control', f"{what}: iteration {k} {'keeps' if nan else 'moves'} the solution", same == nan, f"{x!r}"[:300])
                n += 1
        c.need('residual histories', n, 50)

    def fresh_status(c):
        """the status of an earlier solve does not leak into the next one"""
        def go(it):
            S, ns, vec = prepare('umfpack', False, 2)
            a = drive(S, ns, vec, [NAN, BIG])[2]
            b = drive(S, ns, vec, [BIG, SMALL])[2]
            d = drive(S, ns, vec, [BIG, BIG])[2]
            return a, b, d
        out = c.run1(go)
        ok = not out.exc and out.value == ((False, True), (True, False), (False, False))
        c.ob('control', 'status of consecutive solves', ok, f"{out.exc or out.value}")

    def users(c):
        """time schemes and routines pass the live solution and every iteration on"""
        for time, scheme in itertools.product(('transient', 'pseudo_time_stepping'), LEVELS):
            def go(it):
                S = Setup(c, 2, time=time, scheme=scheme, opts={'nonlinear_solver.max_iterations': 3,
                                                               'optimizations.compile.realcompile': False,
                                                               'nonlinear_solver.convergence_criterion': float(CRIT)})
                sch = it.getattr(it.getattr(S.cfg, 'time'), 'scheme')
                vals = [BIG, BIG, SMALL]
                it.inner_script = lambda x, y: F.Num(N(vals.pop(0)))
                n0 = len(it.events)
                try:
                    ys = list(it.iterate(it.call(it.getattr(sch, 'solve_current_time_level'), [])))
                finally:
                    it.inner_script = None
                ns = it.getattr(S.cfg, 'nonlinear_solver')
                return (ys, it.events[n0:], it.getattr(ns, 'gfu') is it.getattr(S.cfg, 'gfu'),
                        it.getattr(ns, 'blf') is it.getattr(sch, 'blf'), it.getattr(it.getattr(S.cfg, 'gfu'), 'vec'))
            out = c.run1(go)
            what = f"{time}, {scheme}"
            if out.exc:
                c.ob('users', what, False, str(out.exc), out.exc.where)
                continue
            ys, ev, gf, bl, vec = out.value
            c.ob('users', f"{what}: every iteration is visible to the caller", ys == [0, 1, 2], f"{ys}")
            c.ob('users', f"{what}: solves for the solution of the configuration", gf and bl, 'another function or form')
            wr = [e for e in ev if e[0] == 'vec.write' and e[1] is vec]
            c.ob('users', f"{what}: three updates", len({e[2].key() for e in wr}) == 3, f"{len(wr)}")

    def linear(c):
        """the direct linear solvers invert on the free dofs of the (condensed) form"""
        for name, condense, given in itertools.product(('umfpack', 'pardiso'), (False, True), (False, True)):
            for owner in ('linear_solver', 'nonlinear_solver'):
                def go(it):
                    S = Setup(c, 2, opts={owner: name, 'optimizations.static_condensation': condense,
                                          'optimizations.compile.realcompile': False})
                    blf = it.getattr(it.getattr(it.getattr(S.cfg, 'time'), 'scheme'), 'blf')
                    fes = it.getattr(S.cfg, 'fes')
                    bits = F.Bits(('given',))
                    n0 = len(it.events)
                    it.call(it.getattr(it.getattr(S.cfg, owner), 'inverse'), [blf, fes] + ([bits] if given else []))
                    return [e for e in it.events[n0:] if e[0] == 'mat.inverse'], fes
                out = c.run1(go)
                what = f"{owner} {name}, {'condensed' if condense else 'full'}, {'given' if given else 'default'} dofs"
                if out.exc:
                    c.ob('linear', what, False, str(out.exc), out.exc.where)
                    continue
                ev, fes = out.value
                want = ('given',) if given else ('freedofs', fes, condense)
                c.ob('linear', what, len(ev) == 1 and ev[0][2].t == want and ev[0][3] == name, f"{ev}")
    for f in (step, control, fresh_status, users, linear):
        c.part(f)


RULES = {'C11': c11, 'C12': c12, 'C13': c13}
