"""C10: domain conditions; C31: finite element spaces."""
import itertools

from .. import alg as A, fields as F
from ..flow import State, psym, source
from ..forms import Setup, cons, dotE, names, selected, ZERO, ONE
from ..interp import Unsupported, PyEx
from .residual import fluxes, gdot, unit_normal, vsub, vadd, scal, KINDS

N = A.num


def target(S, tag='t'):
    if not hasattr(S, 'tgt'):
        S.tgt = {}
    if tag not in S.tgt:
        S.tgt[tag] = State(S.gamma, S.dim, tag=tag)
    return S.tgt[tag]


def weight(tag='w'):
    return A.declare(tag, 'pos')


def sponge(tag='t', w='w', keys=(), order=0):
    def mk(S):
        return S.cond('SpongeLayer', target_state=target(S, tag).fields(S.c, *keys), function=F.Cf((weight(w),), ()), order=order)
    return mk


def psponge(hi, lo, tag='t', w='w', order=0):
    def mk(S):
        return S.cond('PSpongeLayer', target_state=target(S, tag).fields(S.c), function=F.Cf((weight(w),), ()),
                      high_order=hi, low_order=lo, order=order)
    return mk


def towards(tag='t', w='w'):
    """residual of a sponge: weight * (U - target)"""
    return lambda S: scal(weight(w), vsub(S.cu, cons(target(S, tag))))


def filtered(low, w='w'):
    """residual of a polynomial sponge: weight * (U - U interpolated to the low order)"""
    return lambda S: scal(weight(w), vsub(S.cu, [A.fn('interp', e, A.sym(f"L2(order={low})")) for e in S.cu]))


def domain_terms(c, rule, name, out, extra):
    """the residual per material and on facets: convection plus the given cell terms, nothing else"""
    if out.exc:
        c.ob(rule, name, False, str(out.exc), out.exc.where)
        return
    S, (Fl, Fn), masks = out.value
    sub = {**S.sub, **unit_normal(S.dim)}
    got = S.collect()
    V, Vh = S.v['U'], S.v['Uhat']
    for m in S.mesh.materials:
        e = got.get(('cell', m), ZERO)
        want = A.neg(gdot(S, Fl, V))
        for x in extra.get(m, ()):
            want = A.add(want, dotE(x(S), V))
        c.equal(rule, f"{name}: cell term in {m}", S.tested(e, 'U'), want, sub)
        c.equal(rule, f"{name}: trace equation inside {m}", S.tested(e, 'Uhat'), ZERO, sub)
        e = got.get(('facet', m), ZERO)
        ef = A.subst(e, masks)
        c.equal(rule, f"{name}: facet term of elements in {m}", S.tested(ef, 'U'), dotE(Fn, V), sub)
    for k in got:
        if k[0] not in KINDS or k[0] == 'skeleton':
            c.ob(rule, f"{name}: integrals over {k[0]} of {k[1]}", False, 'unexpected integral')


def c10(c):
    it = c.it
    mats = ('inner', 'left', 'right')

    def run(dcs, dim=2, **kw):
        kw.setdefault('materials', mats)

        def go(it):
            S = Setup(c, dim, time='stationary', dcs=dcs, **kw)
            return S, fluxes(S), S.masks('')
        return c.explore(go)

    def sponges(c):
        cases = [('sponge on one subdomain', {'left': sponge()}, {'left': [towards()]}, 2),
                 ('sponge on one subdomain (3d)', {'left': sponge()}, {'left': [towards()]}, 3),
                 ('sponge on two subdomains', {'left|right': sponge()}, {'left': [towards()], 'right': [towards()]}, 2),
                 ('two sponges side by side', {'left': sponge(), 'right': sponge('s', 'w2')},
                  {'left': [towards()], 'right': [towards('s', 'w2')]}, 2),
                 ('overlapping sponges', [('left|right', sponge()), ('right', sponge('s', 'w2'))],
                  {'left': [towards()], 'right': [towards(), towards('s', 'w2')]}, 2),
                 # two sponges on exactly the same subdomains: the later one replaces the earlier one, left open here
                 ('sponge everywhere', {'inner|left|right': sponge()}, {m: [towards()] for m in mats}, 2),
                 ('no condition', {}, {}, 2)]
        for keys in (('rho', 'u', 'p'), ('rho', 'u', 'T'), ('rho_u', 'rho', 'rho_E')):
            cases.append((f"sponge towards {'+'.join(keys)}", {'left': sponge(keys=keys)}, {'left': [towards()]}, 2))
        for name, dcs, extra, dim in cases:
            for out in run(dcs, dim):
                domain_terms(c, 'sponge', name, out, extra)
        c.need('sponge set-ups', len(cases), 8)

    def psponges(c):
        cases = [('polynomial sponge of equal orders', {'left': psponge(1, 1)}, {'left': [towards()]}),
                 ('polynomial sponge of order zero', {'left': psponge(0, 0)}, {'left': [towards()]}),
                 ('polynomial sponge 2 to 1', {'left': psponge(2, 1)}, {'left': [filtered(1)]}),
                 ('polynomial sponge 2 to 0', {'right': psponge(2, 0)}, {'right': [filtered(0)]}),
                 ('cascade of polynomial sponges', {'left': psponge(2, 1), 'right': psponge(1, 1)},
                  {'left': [filtered(1)], 'right': [towards()]}),
                 ('sponge next to polynomial sponge', {'left': psponge(2, 1), 'right': sponge()},
                  {'left': [filtered(1)], 'right': [towards()]}),
                 ('sponge and polynomial sponge on one subdomain', [('left', psponge(2, 1)), ('left', sponge('s', 'w2'))],
                  {'left': [filtered(1), towards('s', 'w2')]})]
        for name, dcs, extra in cases:
            for out in run(dcs):
                domain_terms(c, 'psponge', name, out, extra)
        n = 0
        for hi in range(6):
            for lo in range(hi + 1):
                if not c.thorough and (hi + lo) % 2 and hi != 5:
                    continue
                # a cell keeps what both its order and the low order hold
                for out in run({'left': psponge(hi, lo)}, opts={'fem.order': 5}):
                    domain_terms(c, 'psponge', f"polynomial sponge {hi} to {lo}, order 5", out, {'left': [towards() if hi == lo else filtered(lo)]})
                n += 1
        c.need('pairs of sponge orders', n, 12)

    def viscous(c):
        def go(it):
            S = Setup(c, 2, time='stationary', viscosity='constant', dcs={'left': sponge()}, materials=mats)
            return S, fluxes(S), S.masks('')
        for out in c.explore(go):
            domain_terms(c, 'sponge', 'sponge in a viscous flow', out, {'left': [towards()]})

    def same_region(c):
        """an initial state on exactly the subdomains of a sponge hides neither"""
        for order in ('initial first', 'sponge first'):
            def go(it):
                def mk_init(S):
                    S.init = State(S.gamma, S.dim, tag='0')
                    return S.cond('Initial', fields=S.init.fields(c))
                dcs = [('left', mk_init), ('left', sponge())]
                if order != 'initial first':
                    dcs.reverse()
                S = Setup(c, 2, time='stationary', initial=False, dcs=dcs, materials=('left',))
                return S, fluxes(S), S.masks('')
            for out in c.explore(go):
                domain_terms(c, 'same region', f"initial state and sponge on one subdomain, {order}", out, {'left': [towards()]})

    def initial(c):
        """the initial state of every subdomain reaches the cell and the trace unknown"""
        for dim, mixed, keys in ((2, 'inviscid', ()), (3, 'inviscid', ()), (2, 'constant', ()), (2, 'inviscid', ('rho', 'u', 'p')),
                                 (2, 'inviscid', ('rho', 'u', 'T'))):
            def go(it):
                S = Setup(c, dim, time='stationary', viscosity=mixed, initial=False, initialize=False, materials=mats)
                S.st = {m: State(S.gamma, dim, tag=m[0]) for m in ('inner', 'left')}
                for m, pat in (('inner', 'inner|right'), ('left', 'left')):
                    it.setitem(it.getattr(S.cfg, 'dcs'), pat, S.cond('Initial', fields=S.st[m].fields(c, *keys)))
                n0 = len(it.events)
                it.call(it.getattr(S.cfg, 'initialize'), [])
                S.gfus = it.getattr(S.cfg, 'gfus')
                return S, it.events[n0:], {k: it.getitem(S.gfus, k) for k in ('U', 'Uhat')}
            name = f"initial state, {mixed}{', from ' + '+'.join(keys) if keys else ''} (dim {dim})"
            for out in c.explore(go):
                if out.exc:
                    c.ob('initial', name, False, str(out.exc), out.exc.where)
                    continue
                S, ev, g = out.value
                sets = [e for e in ev if e[0] == 'gf.set' and e[1].vec is g['U'].vec]
                c.ob('initial', f"{name}: cell unknown is set once", len(sets) == 1, f"{len(sets)} assignments")
                if sets:
                    val, where = sets[-1][2], sets[-1][3]
                    c.ob('initial', f"{name}: on the whole domain", where is None, f"only on {where!r}")
                    per_material(c, f"{name}: cell unknown", val.e, S, mats)
                trace_projection(c, name, S, ev, g['Uhat'], mats)

    def explicit(c):
        """a state passed explicitly replaces the one of the conditions"""
        for dim, visc in ((2, 'inviscid'), (2, 'constant'), (3, 'inviscid')):
            def go(it):
                S = Setup(c, dim, time='stationary', viscosity=visc, materials=mats)
                st = State(S.gamma, dim, tag='e')
                S.st = {'inner': st, 'left': st}
                method = it.getattr(it.getattr(S.cfg, 'fem'), 'method')
                n0 = len(it.events)
                it.call(it.getattr(method, 'set_initial_conditions'), [F.Cf(tuple(cons(st)), (dim + 2,))])
                return S, it.events[n0:], {k: it.getitem(S.gfus, k) for k in ('U', 'Uhat')}
            name = f"explicit initial state, {visc} (dim {dim})"
            for out in c.explore(go):
                if out.exc:
                    c.ob('initial', name, False, str(out.exc), out.exc.where)
                    continue
                S, ev, g = out.value
                sets = [e for e in ev if e[0] == 'gf.set' and e[1].vec is g['U'].vec]
                if c.ob('initial', f"{name}: cell unknown is set once", len(sets) == 1, f"{len(sets)} assignments"):
                    per_material(c, f"{name}: cell unknown", sets[-1][2].e, S, mats)
                trace_projection(c, name, S, ev, g['Uhat'], mats)

    def no_initial(c):
        """without an initial state nothing is imposed (an empty material function crashes the library when set)"""
        for visc, time in itertools.product(('inviscid', 'constant'), ('stationary', 'transient')):
            def go(it):
                S = Setup(c, 2, time=time, viscosity=visc, initial=False, initialize=False, materials=mats)
                n0 = len(it.events)
                it.call(it.getattr(S.cfg, 'initialize'), [])
                return it.events[n0:]
            out = c.run1(go)
            name = f"no initial state, {visc}, {time}"
            if out.exc:
                c.ob('initial', name, False, str(out.exc), out.exc.where)
                continue
            bad = [e for e in out.value if e[0] == 'gf.set' and not A.syms(e[2].e[0])]
            c.ob('initial', name, not bad, f"{len(bad)} unknowns are set from an empty material function")

    def per_material(c, name, es, S, mats):
        for m in mats:
            ind = {A.declare(f"ind:VOL:{x}", 'real'): (ONE if x == m else ZERO) for x in mats}
            st = S.st['left' if m == 'left' else 'inner']
            sub = {**st.sub, **S.sub}
            for o in S.st.values():
                sub.update(o.sub)
            if len(es) != S.dim + 2:
                c.ob('initial', f"{name} in {m}", False, f"{len(es)} components")
                continue
            for i, (e, w) in enumerate(zip(es, cons(st))):
                c.equal('initial', f"{name}, component {i} in {m}", A.subst(e, ind), w, sub)

    def trace_projection(c, name, S, ev, gf, mats):
        """the trace unknown is the projection over all element boundaries of the same state"""
        writes = [e for e in ev if e[0] == 'vec.write' and e[1] is gf.vec]
        sets = [e for e in ev if e[0] == 'gf.set' and e[1].vec is gf.vec]
        if sets and not writes:
            per_material(c, f"{name}: trace unknown", sets[-1][2].e, S, mats)
            return
        c.ob('initial', f"{name}: trace unknown is assigned", bool(writes), 'never assigned')
        if not writes:
            return
        v = writes[-1][2]
        forms = [e[1] for e in ev if e[0] == 'form.new' and e[1].space is gf.space]
        done = {e[1] for e in ev if e[0] == 'form.assemble'}
        ok = False
        if len(v.t) == 1:
            (word, atom), k = next(iter(v.t.items()))
            bl = [f for f in forms if f.kind == 'BilinearForm' and any(repr(f) in repr(w) for w in word)]
            lf = [f for f in forms if f.kind == 'LinearForm' and atom == f"{f!r}.f"]
            ok = len(bl) == 1 and len(lf) == 1 and len(word) == 1 and word[0][0] == 'inv' and k is ONE
        c.ob('initial', f"{name}: trace unknown is a projection", ok, f"computed {v!r}")
        if not ok:
            return
        bl, lf = bl[0], lf[0]
        c.ob('initial', f"{name}: projection is assembled", bl in done and lf in done, 'assembly missing')
        u, t = (F.cf_of(it, x) for x in it.call(it.getattr(gf.space, 'TnT'), []))
        for f, want in ((bl, None), (lf, 'state')):
            terms = [(cc, g.e[0], d) for x in f.terms for cc, g, d in x.terms]
            ok = all(d.region() == ('VOL', 'element_boundary', None) for _, _, d in terms)
            c.ob('initial', f"{name}: projection over all facets from both sides ({f.kind})", ok,
                 f"{[d.region() for _, _, d in terms]}")
            tot = ZERO
            for cc, g, d in terms:
                tot = A.add(tot, A.mul(cc, g))
            if want is None:
                c.equal('initial', f"{name}: projection mass", tot, dotE(u.e, t.e))
            else:
                es = [A.subst(tot, {x: (ONE if x is y else ZERO) for x in t.e}) for y in t.e]
                per_material(c, f"{name}: trace unknown", es, S, mats)

    def refused(c):
        """offered conditions act or are refused"""
        o = c.run1(lambda it: {k: v for k, v in it.getattr(Setup(c, 2, initialize=False).cfg.d['dcs'], 'options').items()})
        opts = o.value
        acts = {'sponge_layer': True, 'psponge_layer': True, 'initial': False, 'grid_deformation': False}
        for name in opts:
            def mk(S):
                k = it.call(opts[name], [])
                f = State(S.gamma, 2, tag='t').fields(c)
                for a, v in (('fields', f), ('target_state', f), ('function', F.Cf((weight(),), ()))):
                    try:
                        it.getattr(opts[name], a)
                        it.setattr(k, a, v)
                    except PyEx:
                        pass
                return k
            for visc in ('inviscid', 'constant'):
                def go(it):
                    S = Setup(c, 2, time='transient', viscosity=visc, dcs={'left': mk}, materials=mats)
                    return S, fluxes(S), S.masks('')
                for out in c.explore(go):
                    if out.exc:
                        c.ob('offered', f"{name}, {visc}: in force or refused", name not in acts and out.excname in
                             ('NotImplementedError', 'TypeError', 'ValueError'), f"{out.exc}", out.exc.where)
                        continue
                    S = out.value[0]
                    got = S.collect()
                    z = {g: ZERO for v in S.v['U'] for g in S.grad(v)}
                    plain = {m: A.subst(S.tested(got.get(('cell', m), ZERO), 'U'), z) for m in mats}
                    # the time derivative is the same in every subdomain
                    on = {m for m in mats if not c._eq(plain[m], plain['inner'], S.sub, None).ok}
                    if name in acts:
                        c.ob('offered', f"{name}, {visc}: in force on its own subdomain", on == ({'left'} if acts[name] else set()),
                             f"in force on {sorted(on)}")
                    else:
                        c.ob('offered', f"{name}, {visc}: in force or refused", on == {'left'}, 'silently ignored')
        c.need('offered domain conditions', len(opts), 6)

    def deformation(c):
        """the mesh is deformed by the projection of the mapping displacement on the assigned subdomains only"""
        regions = {'two subdomains': (('left', 3), ('right', 2)), 'one subdomain': (('right', 2),), 'linear': (('left', 1),),
                   'one deformation of two subdomains': (('left|right', 2),), 'everywhere': (('left', 1), ('inner', 4), ('right', 2))}
        n = 0
        for dim, per, (kind, where) in itertools.product((2, 3), (False, True), regions.items()):
            def go(it):
                S = Setup(c, dim, time='stationary', initialize=False, materials=mats, periodic=per)
                D = [A.declare(f"disp{i}", 'real') for i in range(dim)]
                for pat, k in where:
                    d = S.cond('GridDeformation', order=k)
                    it.setattr(d, 'function', F.Cf(tuple(A.mul(N(k), x) for x in D), (dim,)))
                    it.setitem(it.getattr(S.cfg, 'dcs'), pat, d)
                n0 = len(it.events)
                it.call(it.getattr(S.cfg, 'set_grid_deformation'), [])
                return S, D, it.events[n0:]
            out = c.run1(go)
            name = f"grid deformation, {kind}{', periodic' if per else ''} (dim {dim})"
            n += 1
            if out.exc:
                c.ob('deformation', name, False, str(out.exc), out.exc.where)
                continue
            S, D, ev = out.value
            sd = [e for e in ev if e[0] == 'mesh.setdeformation']
            c.ob('deformation', f"{name}: the mesh is deformed once", len(sd) == 1 and isinstance(sd[0][2], F.Gf), f"{len(sd)} times")
            if len(sd) != 1:
                continue
            gf = sd[0][2]
            c.ob('deformation', f"{name}: mesh of the solver", sd[0][1] is S.mesh, f"{sd[0][1]!r}")
            want = {m: scal(N(k), D) for pat, k in where for m in pat.split('|')}
            buffer_projection(c, 'deformation', name, gf, ev, want, mats)
            r = gf.space.root()
            c.ob('deformation', f"{name}: continuous vector field of the highest order asked for", r.kind == 'VectorH1' and
                 r.flags.get('order') == max(k for _, k in where) and not r.orders, f"{gf.space!r}")
            support(c, 'deformation', name, gf.space, set(want), per)
        c.need('deformations', n, 20)

    def support(c, rule, name, space, regions, per, fixed=True):
        """dofs of the assigned subdomains only, joined across the periodic boundary"""
        _, wraps, _ = base_of(space)
        comp = [w for w in wraps if w.kind == 'compress']
        keep = {m: all(w.active is None or within(w.active.snap(), m) for w in comp) for m in mats}
        keep = {m for m in mats if keep[m]}
        if not fixed:
            c.ob(rule, f"{name}: free in the assigned subdomains", keep >= regions, f"{sorted(keep)}")
            return
        c.ob(rule, f"{name}: fixed outside of the assigned subdomains", keep == regions, f"{sorted(keep)}")
        isper = [w.kind for w in wraps if w.kind == 'periodic']
        c.ob(rule, f"{name}: {'' if per else 'not '}periodic", len(isper) == per, f"{[w.kind for w in wraps]}")

    def within(t, m):
        """does a dof selection contain the dofs inside a subdomain"""
        if t[0] == 'not':
            return not within(t[1], m)
        if t[0] in ('BitOr', 'BitAnd'):
            return (any if t[0] == 'BitOr' else all)(within(x, m) for x in t[1:])
        if t[0] == 'dofs' and t[2][0] == 'VOL':
            return bool(names(t[2][1], (m,)))
        raise Unsupported(f"dof selection {t!r}")

    def buffer_projection(c, rule, name, gf, ev, want, mats):
        writes = [e for e in ev if e[0] == 'vec.write' and e[1] is gf.vec]
        forms = [e[1] for e in ev if e[0] == 'form.new' and e[1].space is gf.space]
        ok = False
        if writes and len(writes[-1][2].t) == 1:
            (word, atom), k = next(iter(writes[-1][2].t.items()))
            bl = [f for f in forms if f.kind == 'BilinearForm' and any(repr(f) in repr(w) for w in word)]
            lf = [f for f in forms if f.kind == 'LinearForm' and atom == f"{f!r}.f"]
            ok = len(bl) == 1 and len(lf) == 1 and len(word) == 1 and word[0][0] == 'inv' and k is ONE
        c.ob(rule, f"{name}: projection", ok, f"computed {writes[-1][2] if writes else None!r}")
        if not ok:
            return
        u, t = (F.cf_of(it, x) for x in it.call(it.getattr(gf.space, 'TnT'), []))
        tot = ZERO
        for x in bl[0].terms:
            for cc, g, d in x.terms:
                tot = A.add(tot, A.mul(cc, g.e[0]))
                c.ob(rule, f"{name}: mass on the whole domain", d.region() == ('VOL', '', None), f"{d.region()}")
        c.equal(rule, f"{name}: mass", tot, dotE(u.e, t.e))
        per = {m: ZERO for m in mats}
        for x in lf[0].terms:
            for cc, g, d in x.terms:
                vb, part, pat = d.region()
                c.ob(rule, f"{name}: right hand side over cells", (vb, part) == ('VOL', ''), f"{d.region()}")
                for m in names(pat, mats):
                    per[m] = A.add(per[m], A.mul(cc, g.e[0]))
        for m in mats:
            c.equal(rule, f"{name}: right hand side in {m}", per[m], dotE(want.get(m, [ZERO] * len(t.e)), t.e))

    def functions(c):
        """the sponge functions shown to the user are the projections of the assigned functions"""
        w = [weight('w'), weight('w2'), weight('w3')]
        layouts = [(3, 3), (3, 1), (1, 3), (3,), (0, 0), (2, 1, 2), (1, 1, 4), (4, 1, 1), (2, 2, 2), (0, 2, 0), (3, 2, 1)]
        n = 0
        for kind, fn in (('SpongeLayer', 'get_sponge_layer_function'), ('PSpongeLayer', 'get_psponge_layer_function')):
            for per, orders in itertools.product((False, True), layouts):
                layers = dict(zip(('left', 'right', 'inner'), orders))

                def go(it):
                    S = Setup(c, 2, time='stationary', initialize=False, materials=mats, periodic=per)
                    for (pat, k), x in zip(layers.items(), w):
                        it.setitem(it.getattr(S.cfg, 'dcs'), pat, S.cond(kind, order=k, function=F.Cf((x,), ())))
                    n0 = len(it.events)
                    g = S.pcall(it.getattr(S.cfg, 'dcs'), fn)
                    return S, g, it.events[n0:]
                out = c.run1(go)
                name = f"{fn}, orders {' '.join(map(str, orders))}{', periodic' if per else ''}"
                n += 1
                if out.exc:
                    c.ob('functions', name, False, str(out.exc), out.exc.where)
                    continue
                S, g, ev = out.value
                buffer_projection(c, 'functions', name, g, ev, {m: [x] for m, x in zip(layers, w)}, mats)
                r = g.space.root()
                low = {}
                for nd, o in r.orders:
                    m, el = str(nd[-1]).split(':')
                    low.setdefault(m, {})[el] = o if nd[0] == 'NodeId' and str(nd[1]) in ('ELEMENT', 'CELL', 'FACE') else repr(nd)
                top = r.flags.get('order')
                ok = all(low.get(m, {f"el{i}": top for i in range(2)}) == {f"el{i}": k for i in range(2)} for m, k in layers.items())
                c.ob('functions', f"{name}: order", r.kind == 'L2' and top == max(orders) and ok, f"{g.space!r} {low}")
                if r.orders:
                    c.ob('functions', f"{name}: variable order", str(r.flags.get('order_policy')) == 'VARIABLE', f"{r.flags.get('order_policy')}")
                stale = [e for e in ev if e[0] == 'fes.stale']
                c.ob('functions', f"{name}: dof tables are updated before they are used", not stale, f"{[e[2] for e in stale]}")
                support(c, 'functions', name, g.space, set(layers), per, fixed=False)
        c.need('sponge functions', n, 40)

    for f in (sponges, psponges, viscous, same_region, initial, explicit, no_initial, refused, deformation, functions):
        c.part(f)


# ------------------------------------------------------------------ C31

def base_of(space):
    """(kind of the scalar or vector root space, its flags, wrappers, number of copies)"""
    s, wraps, n = space, [], 1
    while True:
        if s.kind == 'power':
            n *= s.power
            s = s.base
        elif s.kind == 'product':
            comps = s.components
            first = comps[0]
            if not all(x is first or (x.kind == first.kind and x.flags == first.flags and x.base is first.base) for x in comps):
                raise Unsupported(f"space {space!r} has different components")
            n *= len(comps)
            s = first
        elif s.base is not None:
            wraps.append(s)
            s = s.base
        else:
            break
    return s, wraps, n * (s.flags.get('dim', 1) if isinstance(s.flags.get('dim', 1), int) else 1)


def keeps(bits, touching, j, per):
    """does a dof selection keep the j-th dof of a facet between the given materials"""
    t, writes = (bits if isinstance(bits[0], tuple) else (bits, ()))
    op = t[0]
    if op == 'not':
        r = not keeps(t[1], touching, j, per)
    elif op == 'BitOr':
        r = keeps(t[1], touching, j, per) or keeps(t[2], touching, j, per)
    elif op == 'BitAnd':
        r = keeps(t[1], touching, j, per) and keeps(t[2], touching, j, per)
    elif op == 'dofs':
        vb, pat = t[2]
        if vb != 'VOL':
            raise Unsupported(f"dof selection {bits!r}")
        r = bool(names(pat, touching))
    else:
        raise Unsupported(f"dof selection {bits!r}")
    for k, v in writes:
        if k in ('all', ('slice', None, None, None)):
            r = bool(v)
        elif isinstance(k, tuple) and k[0] == 'slice' and k[2] is None and k[3] == per and isinstance(k[1], int) and 0 <= k[1] < per:
            if j == k[1]:
                r = bool(v)
        else:
            raise Unsupported(f"dof selection {k!r} with {per} dofs per facet")
    return r


def c31(c):
    it = c.it
    mats = ('inner', 'left', 'right')

    def build(dim=2, order=3, visc='inviscid', mixed=None, bcs=(), dcs=(), periodic=False, opts=None, assemble=False):
        def go(it):
            S = Setup(c, dim, time='transient', viscosity=visc, mixed=mixed, bcs=bcs, dcs=dcs, periodic=periodic,
                      materials=mats, opts={'fem.order': order, **(opts or {})}, initialize=False)
            it.call(it.getattr(S.cfg, 'initialize_finite_element_spaces'), [])
            sp = it.getattr(S.cfg, 'spaces')
            S.spaces = {k: it.getitem(sp, k) for k in (sp if isinstance(sp, dict) else it.mapping_keys(sp))}
            return S, it.getattr(S.cfg, 'fes')
        return c.run1(go)

    def plain(c):
        n = 0
        for dim, order, visc, mixed, per in ((2, 0, 'inviscid', 'inactive', False), (2, 3, 'inviscid', 'inactive', False),
                                             (3, 2, 'inviscid', 'inactive', False), (2, 3, 'inviscid', 'inactive', True),
                                             (2, 2, 'constant', 'strain_heat', False), (3, 1, 'constant', 'strain_heat', True),
                                             (2, 4, 'sutherland', 'gradient', False), (3, 4, 'constant', 'gradient', True)):
            bcs = {'left|right': lambda S: S.cond('Periodic')} if per else {}
            out = build(dim, order, visc, mixed, bcs, periodic=per)
            name = f"order {order}, {visc}, {mixed}{', periodic' if per else ''} (dim {dim})"
            if out.exc:
                c.ob('spaces', name, False, str(out.exc), out.exc.where)
                continue
            S, fes = out.value
            want = {'U': ('L2', dim + 2), 'Uhat': ('FacetFESpace', dim + 2)}
            if mixed == 'strain_heat':
                want['Q'] = ('L2', 4 * dim - 3)
            elif mixed == 'gradient':
                want['Q'] = ('VectorL2', dim + 2)
            c.ob('spaces', f"unknowns, {name}", set(S.spaces) == set(want), f"{sorted(S.spaces)}")
            for k, (kind, m) in want.items():
                if k not in S.spaces:
                    continue
                r, wraps, cnt = base_of(S.spaces[k])
                c.ob('spaces', f"space of {k}, {name}", (r.kind, cnt) == (kind, m), f"{cnt} copies of {r.kind}")
                c.ob('spaces', f"order of {k}, {name}", r.flags.get('order') == order, f"order {r.flags.get('order')}")
                c.ob('spaces', f"mesh of {k}, {name}", r.mesh is S.mesh and r.flags.get('definedon') is None
                     and r.flags.get('dirichlet') is None, f"{r.flags}")
                isper = any(w.kind == 'periodic' for w in wraps)
                c.ob('spaces', f"periodicity of {k}, {name}", isper == (per and k == 'Uhat') or (isper and per),
                     f"{[w.kind for w in wraps]}")
                c.ob('spaces', f"uniform order of {k}, {name}", not r.orders and not any(w.kind == 'compress' for w in wraps),
                     f"{r.orders} {[w.kind for w in wraps]}")
            comps = fes.components if fes.kind == 'product' else [fes]
            c.ob('spaces', f"product space, {name}", len(comps) == len(S.spaces) and
                 all(any(x is y for y in S.spaces.values()) for x in comps), f"{fes!r}")
            n += 1
        c.need('space set-ups', n, 8)

    def unknowns(c):
        """labels denote the same unknown in trial, test and grid functions"""
        for visc, mixed in (('inviscid', 'inactive'), ('constant', 'strain_heat')):
            def go(it):
                return Setup(c, 2, time='transient', viscosity=visc, mixed=mixed)
            out = c.run1(go)
            if out.exc:
                c.ob('unknowns', f"{mixed}", False, str(out.exc), out.exc.where)
                continue
            S = out.value
            sp = {k: it.getitem(S.spaces, k) for k in ('U', 'Uhat') + (('Q',) if visc != 'inviscid' else ())}
            fes = it.getattr(S.cfg, 'fes')
            gfu = it.getattr(S.cfg, 'gfu')
            for i, k in enumerate(fes.components):
                lab = next((l for l, s in sp.items() if s is k), None)
                c.ob('unknowns', f"component {i} has a label ({mixed})", lab is not None, f"{k!r}")
                if lab is None:
                    continue
                u, v = it.getitem(S.TnT, lab)
                g = it.getitem(S.gfus, lab)
                c.ob('unknowns', f"trial function of {lab} ({mixed})", u.space is k and u.prefix.startswith('u'), f"{u!r}")
                c.ob('unknowns', f"test function of {lab} ({mixed})", v.space is k and v.prefix.startswith('v'), f"{v!r}")
                c.ob('unknowns', f"grid function of {lab} ({mixed})", g.space is k and g is it.getattr(gfu, 'components')[i], f"{g!r}")

        # a formulation of the user's with a single unknown
        def go(it):
            S = Setup(c, 2, initialize=False)
            m = source(it, '''
class Single(ConservativeMethod):
    name = "single"
    def add_finite_element_spaces(self, fes):
        fes['U'] = ngs.L2(self.mesh, order=1)**4
''', ConservativeMethod=c.api('dream.compressible.formulations.conservative', 'ConservativeMethod'), ngs=it.import_module('ngsolve'))
            it.setattr(it.getattr(S.cfg, 'fem'), 'method', 'single')
            for k in ('finite_element_spaces', 'trial_and_test_functions', 'gridfunctions'):
                S.pcall(S.cfg, 'initialize_' + k)
            return [it.getattr(S.cfg, k) for k in ('fes', 'spaces', 'TnT', 'gfu', 'gfus')]
        out = c.run1(go)
        if out.exc:
            c.ob('unknowns', 'single unknown', False, str(out.exc), out.exc.where)
            return
        fes, sp, tnt, gfu, gfus = out.value
        u, v = it.getitem(tnt, 'U')
        c.ob('unknowns', 'single unknown: space', it.getitem(sp, 'U') is fes, f"{fes!r}")
        c.ob('unknowns', 'single unknown: trial and test function', u.space is fes and v.space is fes and u.prefix[0] == 'u' and v.prefix[0] == 'v', f"{u!r}")
        c.ob('unknowns', 'single unknown: grid function', it.getitem(gfus, 'U') is gfu and gfu.space is fes, f"{gfu!r}")

    def sponges(c):
        cases = [({'left': psponge(2, 1)}, {'left': 2}), ({'left|right': psponge(1, 0)}, {'left': 1, 'right': 1}),
                 ({'left': psponge(2, 1), 'right': psponge(1, 0)}, {'left': 2, 'right': 1}),
                 ({'left': psponge(0, 0)}, {'left': 0}), ({'left': psponge(3, 3)}, {'left': 3}),
                 ({'left': sponge()}, {}), ({'left': psponge(2, 2), 'right': sponge()}, {'left': 2})]
        classes = [('inner',), ('left',), ('right',), ('inner', 'left'), ('inner', 'right'), ('left', 'right')]
        order = 3
        n = 0
        for dcs, high in cases:
            for visc, mixed in (('inviscid', 'inactive'), ('constant', 'strain_heat'), ('constant', 'gradient')):
                if mixed == 'gradient' and n > 6 and not c.thorough:
                    continue
                for per in (False, True):
                    bcs = {'left|right': lambda S: S.cond('Periodic')} if per else {}
                    out = build(2, order, visc, mixed, bcs, dcs, periodic=per)
                    name = f"orders {high}, {mixed}{', periodic' if per else ''}"
                    if out.exc:
                        c.ob('psponge', name, False, str(out.exc), out.exc.where)
                        continue
                    S, fes = out.value
                    for k in ('U', 'Q'):
                        if k in S.spaces:
                            cells(c, f"{k}, {name}", S.spaces[k], high, order)
                    facets(c, name, S.spaces['Uhat'], high, order, classes)
                    isper = [w.kind for w in base_of(S.spaces['Uhat'])[1] if w.kind == 'periodic']
                    c.ob('psponge', f"trace space is {'' if per else 'not '}periodic, {name}", len(isper) == per, f"{isper}")
                    n += 1
        c.need('polynomial sponge spaces', n, 20)

    def cells(c, name, space, high, order):
        r, wraps, _ = base_of(space)
        got = {}
        for nd, o in r.orders:
            ok = nd[0] == 'NodeId' and str(nd[1]) in ('ELEMENT', 'CELL', 'FACE')
            m, e = str(nd[-1]).split(':')
            got.setdefault(m, {})[e] = o if ok else repr(nd)
        want = {m: {f"el{i}": o for i in range(2)} for m, o in high.items() if o != order}
        got = {m: v for m, v in got.items() if v != {f"el{i}": order for i in range(2)}}
        c.ob('psponge', f"element orders of {name}", got == want, f"{got} instead of {want}")
        if r.orders:
            c.ob('psponge', f"variable order of {name}", str(r.flags.get('order_policy')) == 'VARIABLE', f"{r.flags.get('order_policy')}")
            c.ob('psponge', f"dof tables of {name} are updated", r.updated and not any(e[0] == 'fes.stale' for e in it.events),
                 'orders set after the last update')
        c.ob('psponge', f"order of {name}", r.flags.get('order') == order, f"{r.flags.get('order')}")

    def facets(c, name, space, high, order, classes):
        r, wraps, _ = base_of(space)
        c.ob('psponge', f"trace order, {name}", r.kind == 'FacetFESpace' and r.flags.get('order') == order, f"{r!r}")
        comp = [w for w in wraps if w.kind == 'compress']
        pi = [i for i, w in enumerate(wraps) if w.kind == 'periodic']
        ci = [i for i, w in enumerate(wraps) if w.kind == 'compress']
        c.ob('psponge', f"periodic trace space wraps the reduced one, {name}", not pi or not ci or pi[0] < ci[0], f"{[w.kind for w in wraps]}")
        for cl in classes:
            hs = [high[m] for m in cl if m in high]
            top = max(hs) if hs else order
            for j in range(order + 1):
                k = all(keeps(w.active.snap(), cl, j, order + 1) for w in comp if w.active is not None)
                c.ob('psponge', f"facet between {'+'.join(cl)}, dof {j}, {name}", k == (j <= top), 'kept' if k else 'removed')

    def cascade(c):
        """the proposed pairs of orders step from the highest down to the lowest, where they stay; sponges accept them"""
        n = 0
        for hi, lo, step in itertools.product(range(6), range(6), (1, 2, 3)):
            if lo > hi:
                continue
            for how in ('positional', 'keywords') + (('defaults',) if lo == 0 and step == 1 else ()):
                def go(it):
                    cls = c.api('dream.mesh', 'PSpongeLayer')
                    a, k = {'positional': ([hi, lo, step], {}), 'keywords': ([], {'highest': hi, 'lowest': lo, 'step': step}),
                            'defaults': ([hi], {})}[how]
                    r = [tuple(it.to_list(x)) for x in it.to_list(it.call(it.getattr(cls, 'get_pairs_of_polynomial_orders'), a, k))]
                    for x, y in r:
                        it.call(cls, [], {'high_order': x, 'low_order': y})
                    return [(int(x), int(y)) for x, y in r]
                want, h = [], hi
                while h > lo:
                    want.append((h, max(h - step, lo)))
                    h = max(h - step, lo)
                want.append((lo, lo))
                o = c.run1(go)
                c.ob('cascade', f"orders from {hi} to {lo} by {step}, {how}", not o.exc and o.value == want, f"{o.exc or o.value} instead of {want}")
                n += 1
        c.need('cascades', n, 100)

    def refuse(c):
        out = build(2, 2, dcs={'left': psponge(3, 1)})
        c.ob('refuse', 'sponge order above the order of the discretisation', out.excname == 'ValueError', f"{out.exc or 'accepted'}")
        out = build(3, 2, dcs={'left': psponge(1, 1)})
        c.ob('refuse', 'polynomial sponge in 3d', out.excname == 'NotImplementedError', f"{out.exc or 'accepted'}")
        # a periodic mesh needs the condition: its facets would be joined in no equation
        for dim in (2, 3):
            out = c.run1(lambda it: Setup(c, dim, time='transient', periodic=True, initialize=True))
            c.ob('refuse', f"periodic mesh without periodic condition (dim {dim})", out.excname == 'ValueError', f"{out.exc or 'accepted'}")
            out = c.run1(lambda it: Setup(c, dim, time='transient', periodic=True, initialize=True, bcs={
                'left|right|top|bottom': lambda S: S.cond('InviscidWall')}))
            c.ob('refuse', f"periodic mesh with other conditions only (dim {dim})", out.excname == 'ValueError', f"{out.exc or 'accepted'}")
        for visc, mixed in (('inviscid', 'strain_heat'), ('inviscid', 'gradient'), ('constant', 'inactive')):
            out = build(2, 2, visc, mixed)
            c.ob('refuse', f"{mixed} for {visc} flow", out.excname == 'TypeError', f"{out.exc or 'accepted'}")

    def quadrature(c):
        """bonus integration orders reach the nonlinear integrals, condensation and compile flags the forms"""
        for visc in ('inviscid', 'constant'):
            for cond in (False, True):
                def go(it):
                    return Setup(c, 2, time='stationary', viscosity=visc, opts={'optimizations.bonus_int_order.vol': 3,
                                 'optimizations.bonus_int_order.bnd': 5, 'optimizations.static_condensation': cond})
                out = c.run1(go)
                name = f"{visc}, {'condensed' if cond else 'full'}"
                if out.exc:
                    c.ob('quadrature', name, False, str(out.exc), out.exc.where)
                    continue
                S = out.value
                c.ob('quadrature', f"condensation, {name}", bool(S.bform.opts.get('condense', False)) == cond,
                     f"{S.bform.opts}")
                vs = set(S.v['U']) | set(S.v['Uhat'])
                tests = {v.args[0] for v in vs} | {g.args[0] for v in vs for g in S.grad(v)}
                for cc, e, d in S.terms:
                    if not (A.syms(e) & tests):
                        continue
                    vb, part, pat = d.region()
                    w = {'': 3, 'element_boundary': 5, 'skeleton': 5}.get(part)
                    c.ob('quadrature', f"bonus order of integrals over {part or 'cells'}, {name}", d.opts.get('bonus_intorder') == w,
                         f"{d.opts.get('bonus_intorder')} instead of {w}")

    def conditions(c):
        """the integrals of nonlinear boundary conditions carry the bonus order of boundaries, those of sponges their own"""
        ff = c.api('dream.compressible', 'flowfields')
        far = lambda S: State(S.gamma, S.dim, tag='f').fields(c)
        conds = {'FarField': lambda S: S.cond('FarField', fields=far(S)), 'farfield by jacobian': lambda S: S.cond('FarField', fields=far(S), identity_jacobian=False),
                 'Outflow': lambda S: S.cond('Outflow', fields=F.Num(A.declare('pout', 'pos'))),
                 'IsothermalWall': lambda S: S.cond('IsothermalWall', fields=F.Num(A.declare('Tw', 'pos'))),
                 'AdiabaticWall': lambda S: S.cond('AdiabaticWall'),
                 **{f"{k}, {t}": (lambda S, k=k, t=t: S.cond(k, fields=far(S), target=t)) for k in ('GRCBC', 'NSCBC')
                    for t in ('farfield', 'outflow', 'mass_inflow')}}
        n = 0
        for name, mk in conds.items():
            for visc in ('constant',) if name == 'AdiabaticWall' else ('inviscid', 'constant'):
                def go(it):
                    return Setup(c, 2, time='transient', viscosity=visc, bcs={'left|top': mk}, opts={
                        'optimizations.bonus_int_order.vol': 3, 'optimizations.bonus_int_order.bnd': 5})
                for out in c.explore(go):
                    if out.exc:
                        c.ob('quadrature', f"{name}, {visc}", False, str(out.exc), out.exc.where)
                        continue
                    S = out.value
                    own = [d for _, _, d in S.terms if d.region()[1] == 'skeleton']
                    c.ob('quadrature', f"{name}, {visc}: integrals on the boundary", bool(own), 'none')
                    c.ob('quadrature', f"{name}, {visc}: bonus order", all(d.opts.get('bonus_intorder') == 5 for d in own),
                         f"{[d.opts.get('bonus_intorder') for d in own]} instead of 5")
                    n += 1
        for order, mk in itertools.product((0, 4), (lambda order: sponge(order=order), lambda order: psponge(2, 1, order=order))):
            def go(it):
                return Setup(c, 2, time='transient', dcs={'sponge': mk(order)}, opts={'fem.order': 2, 'optimizations.bonus_int_order.vol': 3})
            for out in c.explore(go):
                if out.exc:
                    c.ob('quadrature', f"sponge of order {order}", False, str(out.exc), out.exc.where)
                    continue
                own = [d for _, _, d in out.value.terms if d.region()[2] is not None and d.region()[0] == 'VOL']
                c.ob('quadrature', f"sponge of order {order}", bool(own) and all(d.opts.get('bonus_intorder', 0) == order for d in own),
                     f"{[d.opts.get('bonus_intorder') for d in own]} instead of {order}")
                n += 1
        c.need('integrals of conditions', n, 25)
    for f in (plain, unknowns, sponges, cascade, refuse, quadrature, conditions):
        c.part(f)


RULES = {'C10': c10, 'C31': c31}
