"""C36: initialising again describes the present configuration, whatever was configured, initialised or solved before."""
import itertools
import re

from .. import alg as A, fields as F
from ..check import sharded
from ..forms import Setup, cons, names, selected, ZERO, ONE
from ..flow import State
from ..interp import Unsupported, PyEx, IObj
from .domains import base_of
from .run_ import Scene

N = A.num
MATS = ('inner', 'left', 'right')
BNDS = ('left', 'right', 'top', 'bottom')


def state(S, tag):
    if not hasattr(S, 'states'):
        S.states = {}
    if tag not in S.states:
        S.states[tag] = State(S.gamma, S.dim, tag=tag)
    return S.states[tag]


def far(tag, **kw):
    return lambda S: S.cond('FarField', fields=state(S, tag).fields(S.c), **kw)


def out(tag):
    return lambda S: S.cond('Outflow', fields=state(S, tag).fields(S.c, 'p'))


def initial(tag):
    return lambda S: S.cond('Initial', fields=state(S, tag).fields(S.c))


def sponge(tag, w, **kw):
    return lambda S: S.cond('SpongeLayer', target_state=state(S, tag).fields(S.c), function=F.Cf((A.declare(w, 'pos'),), ()), **kw)


def psponge(hi, lo, tag='t', w='w'):
    return lambda S: S.cond('PSpongeLayer', target_state=state(S, tag).fields(S.c), function=F.Cf((A.declare(w, 'pos'),), ()),
                            high_order=hi, low_order=lo)


def plain(name, **kw):
    return lambda S: S.cond(name, **kw)


def cbc(tag):
    return lambda S: S.cond('GRCBC', fields=state(S, tag).fields(S.c), target='farfield')


EVERY = '|'.join(MATS)
#: name: (time, scheme, viscosity, mixed method, further settings, boundary conditions, domain conditions)
SPECS = {
    'steady walls': ('stationary', None, 'inviscid', 'inactive', {'fem.order': 2, 'optimizations.static_condensation': False},
                     [('left|right|top|bottom', plain('InviscidWall'))], [(EVERY, initial('i'))]),
    'transient far field': ('transient', 'implicit_euler', 'inviscid', 'inactive',
                            {'fem.order': 3, 'optimizations.static_condensation': True},
                            [('left', far('f')), ('right', out('o')), ('top|bottom', plain('Symmetry'))],
                            [('inner|left', initial('j')), ('right', initial('i')), ('left', sponge('t', 'w'))]),
    'second order': ('transient', 'bdf2', 'inviscid', 'inactive',
                     {'fem.order': 2, 'riemann_solver': 'hllem', 'scaling': 'acoustic',
                      'optimizations.bonus_int_order.vol': 2},
                     [('left|right', far('g', identity_jacobian=False)), ('top|bottom', plain('InviscidWall'))],
                     [(EVERY, initial('j')), ('right', psponge(1, 0))]),
    'characteristic': ('transient', 'bdf2', 'inviscid', 'inactive', {'fem.order': 2, 'optimizations.bonus_int_order.bnd': 3},
                       [('right', cbc('f')), ('left', far('f')), ('top|bottom', plain('InviscidWall'))],
                       [(EVERY, initial('i'))]),
    'viscous': ('pseudo_time_stepping', 'implicit_euler', 'constant', 'strain_heat', {'fem.order': 1},
                [('left|right', far('f')), ('top', plain('AdiabaticWall')),
                 ('bottom', lambda S: S.cond('IsothermalWall', fields=state(S, 'o').fields(S.c, 'T')))],
                [(EVERY, initial('i')), ('left', psponge(1, 1)), ('right', sponge('u', 'w2'))]),
    'no start': ('transient', 'implicit_euler', 'inviscid', 'inactive', {'fem.order': 0},
                 [('left|right|top|bottom', far('f'))], []),
}
#: both characteristic conditions
CHAR = ('transient', 'bdf2', 'inviscid', 'inactive', {'fem.order': 2, 'optimizations.bonus_int_order.bnd': 3},
         [('right', cbc('f')), ('left', far('f')),
          ('top', lambda S: S.cond('NSCBC', fields=state(S, 'g').fields(S.c), target='farfield')), ('bottom', plain('InviscidWall'))],
         [(EVERY, initial('i'))])
PERIODIC = {
    'periodic left and right': ('transient', 'implicit_euler', 'inviscid', 'inactive', {'fem.order': 2},
                                [('left|right', plain('Periodic')), ('top|bottom', plain('InviscidWall'))], [(EVERY, initial('i'))]),
    'periodic all around': ('transient', 'bdf2', 'inviscid', 'inactive', {'fem.order': 2},
                            [('left|right|top|bottom', plain('Periodic'))], [(EVERY, initial('j')), ('left', psponge(1, 0))]),
}
#: what a specification does not mention
REST = {'riemann_solver': 'lax_friedrich', 'scaling': 'aerodynamic', 'optimizations.static_condensation': False,
        'optimizations.bonus_int_order.vol': 0, 'optimizations.bonus_int_order.bnd': 0, 'optimizations.compile.realcompile': False,
        'nonlinear_solver.max_iterations': 2}


def assign(S, path, v):
    it, o = S.it, S.cfg
    *h, last = path.split('.')
    for p in h:
        o = it.getattr(o, p)
    it.setattr(o, last, v)


def configure(S, spec):
    """every setting of a specification, conditions included"""
    time, scheme, visc, mixed, opts, bcs, dcs = spec
    it, cfg = S.it, S.cfg
    assign(S, 'time', time)
    if scheme:
        assign(S, 'time.scheme', scheme)
        assign(S, 'time.timer.interval', (0.2, 0.4))
        assign(S, 'time.timer.step', 0.1)
    assign(S, 'dynamic_viscosity', visc)
    assign(S, 'fem.mixed_method', mixed)
    for k, v in {**REST, **opts}.items():
        assign(S, k, v)
    conditions(S, bcs, dcs)


def conditions(S, bcs, dcs):
    it = S.it
    for kind, conds in (('bcs', bcs), ('dcs', dcs)):
        d = it.getattr(S.cfg, kind)
        S.pcall(d, 'clear')
        for where, mk in conds:
            it.setitem(d, where, mk(S))


#: what advances by itself during a solution
MOVING = re.compile(r'\.time\.timer\.(t|step)$')


def held(it, cfg):
    """{place in the configuration: the value held there}, conditions included, containers by content"""
    res, seen = {}, set()

    def walk(o, path):
        if isinstance(o, IObj):
            d = o.d.get('data')
            if d is None or isinstance(d, F.Cf):
                res[path] = f"{o.cls.name} object"
                return
            res[path] = o.cls.name
            if id(o) in seen:
                return
            seen.add(id(o))
            for k in it.mapping_keys(d):
                walk(it.getitem(d, k), f"{path}.{k if isinstance(k, str) else getattr(k, 'name', k)}")
        elif isinstance(o, dict):
            res[path] = f"dict of {len(o)}"
            for k, v in o.items():
                walk(v, f"{path}.{k}")
        elif isinstance(o, (list, tuple)):
            res[path] = f"{type(o).__name__} of {len(o)}"
            for i, v in enumerate(o):
                walk(v, f"{path}[{i}]")
        elif isinstance(o, F.Param):
            if not MOVING.search(path):
                res[path] = f"parameter {F.to_e(o.val)!r}"
        elif isinstance(o, F.Cf):
            res[path] = ('function', tuple(o.dims), tuple(o.e))
        elif not MOVING.search(path):
            res[path] = repr(F.to_e(o)) if not isinstance(o, (str, bool)) and o is not None and F.to_e(o) is not None else repr(o)
    walk(cfg, 'cfg')
    for k in ('bcs', 'dcs'):
        walk(it.getattr(cfg, k), k)
    return res


def parameters(it, cfg):
    """{symbol of a live parameter: its place in the configuration}"""
    found, seen = {}, set()

    def walk(o, path):
        if isinstance(o, F.Param):
            found.setdefault(o.e[0], path)
        elif isinstance(o, IObj) and id(o) not in seen:
            seen.add(id(o))
            d = o.d.get('data')
            if d is None:
                return
            for k in it.mapping_keys(d):
                if isinstance(k, str):
                    walk(it.getitem(d, k), f"{path}.{k}")
    walk(cfg, 'cfg')
    return found


class View:
    """what an initialised solver describes, with names that do not depend on its past"""

    def __init__(self, S, n0):
        """`n0`: number of events before the initialisation"""
        it, cfg = S.it, S.cfg
        self.S = S
        new = it.events[n0:]
        old = it.events[:n0]
        self.old, self.oldforms = earlier(old)
        facets = ('',) + BNDS
        sub = {}
        for s, path in parameters(it, cfg).items():
            sub[s] = A.declare(f"par<{path}>", 'pos')
        labels = [k for k in it.mapping_keys(S.gfus)]
        self.labels = labels
        gf = {k: it.getitem(S.gfus, k) for k in labels}
        self.gf = gf
        for k in labels:
            for i, e in enumerate(gf[k].e):
                sub[e] = A.declare(f"now<{k}{i}>", 'real')
        self.levels, self.copies = {}, {}
        time = it.getattr(cfg, 'time')
        if not it.truth(it.getattr(time, 'is_stationary')):
            lv = it.getattr(it.getattr(time, 'scheme'), 'gfus')
            for var in it.mapping_keys(lv):
                d = it.getitem(lv, var)
                self.levels[var] = tuple(it.mapping_keys(d))
                for lev in self.levels[var]:
                    g = it.getitem(d, lev)
                    self.copies[var, lev] = repr(g.vec.value) == repr(gf[var].vec.value), id(g) not in self.old, g.space is gf[var].space
                    for i, e in enumerate(g.e):
                        sub.setdefault(e, A.declare(f"level<{var}{i},{lev}>", 'real'))
        masks = [S.masks(f) for f in facets]
        for g in set().union(*masks):
            vals = tuple(repr(m.get(g)) for m in masks)
            sub[g] = A.declare(f"mask<{vals}>", 'real')
        rank = itertools.count()
        for e in new:
            if e[0] == 'gf.new':
                r = next(rank)
                for i, x in enumerate(e[1].e):
                    if x.op == 'sym':
                        sub.setdefault(x, A.declare(f"field<{r},{i}>", 'real'))
        self.sub = sub
        self.terms = {}
        for cc, e, d in S.terms:
            vb, part, pat = d.region()
            bonus = d.opts.get('bonus_intorder')
            b = repr(F.to_e(bonus)) if F.to_e(bonus) is not None else repr(bonus)
            for n in names(pat, MATS if vb == 'VOL' else BNDS):
                k = (vb, part, n, b)
                self.terms[k] = A.add(self.terms.get(k, ZERO), A.subst(A.mul(cc, e), sub))
        self.spaces = {k: shape(it.getitem(S.spaces, k)) for k in it.mapping_keys(S.spaces)}
        self.product = len(it.getattr(cfg, 'fes').components or [0])
        self.condense = repr(S.bform.opts.get('condense'))
        # the initial state
        self.sets = {}
        for k in labels:
            sets = [e for e in new if e[0] == 'gf.set' and e[1].vec is gf[k].vec]
            self.sets[k] = [(repr(w), [A.subst(x, sub) for x in v.e]) for _, _, v, w, _ in sets]
        self.projections = []
        for e in new:
            if e[0] == 'form.new' and e[1].space is gf.get('Uhat', gf[labels[0]]).space and e[1] not in (S.bform, S.lform):
                tot = {}
                for t in e[1].terms:
                    for cc, g, d in t.terms:
                        tot[repr(d.region())] = A.add(tot.get(repr(d.region()), ZERO), A.subst(A.mul(cc, g.e[0]), sub))
                self.projections.append((e[1].kind, tot))
        self.n1 = len(it.events)

    def stale(self):
        """objects of an earlier initialisation that a solution step touches"""
        return touched(self.S.it.events[self.n1:], self.old, self.oldforms)


def touched(events, old, oldforms):
    bad = []
    for e in events:
        for x in e[1:3]:
            if id(x) in old:
                bad.append(f"{e[0]} of {x!r}")
            elif isinstance(x, (F.VExpr, F.Mat)):
                toks = set(re.findall(r'(?:Bilinear|Linear)Form#\d+', repr(x)))
                if toks & oldforms:
                    bad.append(f"{e[0]} uses {sorted(toks & oldforms)}")
    return bad


def earlier(events):
    """identities of the objects some events have made, and names of the forms among them"""
    gfs = [e[1] for e in events if e[0] == 'gf.new']
    forms = [e[1] for e in events if e[0] == 'form.new']
    return {id(x) for x in gfs + forms} | {id(g.vec) for g in gfs} | {id(f.vecm) for f in forms}, {repr(f) for f in forms}


def shape(space):
    r, wraps, n = base_of(space)
    flags = {k: repr(F.to_e(v)) if F.to_e(v) is not None else repr(v) for k, v in r.flags.items() if k != 'mesh'}
    return (r.kind, n, tuple(sorted(flags.items())), repr(sorted(map(repr, r.orders))), tuple((w.kind, repr(getattr(w, 'active', None)))
                                                                                           for w in wraps))


def compare(c, name, V, W, rule='again'):
    """V: after a history, W: of a new solver"""
    def same(what, a, b, detail=None):
        c.ob(rule, f"{what}, {name}", a == b, detail or f"{a!r} instead of {b!r}"[:400])

    same('unknowns', V.labels, W.labels)
    same('spaces', V.spaces, W.spaces)
    same('unknowns of the product space', V.product, W.product)
    same('condensation', V.condense, W.condense)
    same('time levels', V.levels, W.levels)
    for k, (eq, fresh, sp) in V.copies.items():
        c.ob(rule, f"level {k[1]} of {k[0]} starts from the initial state, {name}", (eq or k not in W.copies or not W.copies[k][0])
             and sp, 'other state or other space')
    sub = {}
    both = set(V.terms) | set(W.terms)
    for k in sorted(both, key=repr):
        a, b = V.terms.get(k, ZERO), W.terms.get(k, ZERO)
        what = f"{k[1] or 'cell'} integrals over {k[2]} ({k[0]}, bonus order {k[3]})"
        if a is b:
            c.ob(rule, f"{what}, {name}", True)
        else:
            x, y = set(A.syms(a)), set(A.syms(b))
            if x - y and not c._eq(a, b, sub, None).ok:
                c.ob(rule, f"{what}, {name}", False, f"depends on {sorted(x - y)[:4]} instead of {sorted(y - x)[:4]}")
                continue
            c.equal(rule, f"{what}, {name}", a, b, sub)
    for k in W.labels:
        if k not in V.sets:
            continue
        a, b = V.sets[k], W.sets[k]
        ok = c.ob(rule, f"initial assignments of {k}, {name}", [w for w, _ in a] == [w for w, _ in b], f"{len(a)} instead of {len(b)}")
        if ok:
            for (_, x), (_, y) in zip(a, b):
                for i, (p, q) in enumerate(zip(x, y)):
                    if p is q:
                        c.ob(rule, f"initial {k}[{i}], {name}", True)
                    else:
                        c.equal(rule, f"initial {k}[{i}], {name}", p, q, sub)
    ok = c.ob(rule, f"projections of the initial state, {name}", [k for k, _ in V.projections] == [k for k, _ in W.projections],
              f"{[k for k, _ in V.projections]}")
    if ok:
        for (kind, x), (_, y) in zip(V.projections, W.projections):
            for r in sorted(set(x) | set(y)):
                p, q = x.get(r, ZERO), y.get(r, ZERO)
                if p is q:
                    c.ob(rule, f"projection ({kind}) over {r}, {name}", True)
                else:
                    c.equal(rule, f"projection ({kind}) over {r}, {name}", p, q, sub)


def solve(S):
    """drive the solution routine to its end"""
    it = S.it
    it.inner_script = lambda x, y: F.Num(ZERO)
    try:
        g = it.call(it.getattr(it.getattr(S.cfg, 'time'), 'start_solution_routine'), [])
        return len(list(it.iterate(g)))
    finally:
        it.inner_script = None


HISTORY = ('initialised', 'assembled', 'solved')


def c36(c):
    it = c.it

    def new(periodic):
        return Setup(c, 2, time='stationary', boundaries=BNDS, materials=MATS, periodic=periodic, initial=False, initialize=False)

    fresh = {}

    def expected(name, spec, periodic):
        if name not in fresh:
            def go(it):
                S = new(periodic)
                configure(S, spec)
                n0 = len(it.events)
                S.start()
                V = View(S, n0)
                n = solve(S)
                return V, n, V.stale()
            o = c.run1(go)
            if o.exc:
                c.ob('again', f"{name} on a new solver", False, str(o.exc), o.exc.where)
            fresh[name] = o
        return fresh[name]

    @sharded
    def histories(c):
        """every ordered pair of configurations, the first one left at every stage"""
        n = 0
        for group, periodic in ((SPECS, False), (PERIODIC, True)):
            for a, b in itertools.product(group, repeat=2):
                if not c.turn():
                    continue
                want = expected(b, group[b], periodic)
                if want.exc:
                    continue
                stages = HISTORY if c.thorough else ('solved',) if a != b else ('assembled', 'solved')
                for stage in stages:
                    def go(it):
                        S = new(periodic)
                        configure(S, group[a])
                        it.call(it.getattr(S.cfg, 'initialize'), [])
                        if stage == 'assembled':
                            S.pcall(it.getattr(S.cfg, 'time'), 'assemble')
                        elif stage == 'solved':
                            solve(S)
                        configure(S, group[b])
                        n0 = len(it.events)
                        S.start()
                        V = View(S, n0)
                        k = solve(S)
                        return V, k, V.stale()
                    name = f"{b} after {a} was {stage}"
                    o = c.run1(go)
                    n += 1
                    if o.exc:
                        c.ob('again', name, False, str(o.exc), o.exc.where)
                        continue
                    V, k, stale = o.value
                    compare(c, name, V, want.value[0])
                    c.ob('again', f"solutions of {name}", k == want.value[1], f"{k} instead of {want.value[1]} time levels")
                    c.ob('again', f"operators of {name}", not stale, f"{stale[:3]}")
        c.need('histories', n, 40)

    @sharded
    def edits(c):
        """a single condition or setting changed between two initialisations"""
        base = SPECS['transient far field']
        time, scheme, visc, mixed, opts, bcs, dcs = base
        variants = {
            'nothing changed': base,
            'boundary condition replaced': (time, scheme, visc, mixed, opts, [('left', plain('InviscidWall')), *bcs[1:]], dcs),
            'boundary condition moved': (time, scheme, visc, mixed, opts, [('right', far('f')), ('left', out('o')), bcs[2]], dcs),
            'boundary freed of its condition': (time, scheme, visc, mixed, opts, bcs[1:], dcs),
            'other far field': (time, scheme, visc, mixed, opts, [('left', far('g')), *bcs[1:]], dcs),
            'sponge removed': (time, scheme, visc, mixed, opts, bcs, dcs[:2]),
            'sponge moved': (time, scheme, visc, mixed, opts, bcs, [*dcs[:2], ('right', sponge('t', 'w'))]),
            'other initial state': (time, scheme, visc, mixed, opts, bcs, [(EVERY, initial('k')), dcs[2]]),
            'initial state removed': (time, scheme, visc, mixed, opts, bcs, dcs[2:]),
            'order changed': (time, scheme, visc, mixed, {**opts, 'fem.order': 1}, bcs, dcs),
            'flux changed': (time, scheme, visc, mixed, {**opts, 'riemann_solver': 'roe'}, bcs, dcs),
            'scaling changed': (time, scheme, visc, mixed, {**opts, 'scaling': 'aeroacoustic'}, bcs, dcs),
            'scheme changed': (time, 'bdf2', visc, mixed, opts, bcs, dcs),
            'characteristic condition added': (time, scheme, visc, mixed, opts, [*bcs[:1], ('right', cbc('f')), bcs[2]], dcs),
            'condensation off': (time, scheme, visc, mixed, {**opts, 'optimizations.static_condensation': False}, bcs, dcs),
            'integration order raised': (time, scheme, visc, mixed, {**opts, 'optimizations.bonus_int_order.bnd': 4}, bcs, dcs)}
        n = 0
        for name, spec in variants.items():
            if not c.turn():
                continue
            want = expected(name, spec, False)
            if want.exc:
                continue

            def go(it):
                S = new(False)
                configure(S, base)
                it.call(it.getattr(S.cfg, 'initialize'), [])
                solve(S)
                for k, v in {**REST, **spec[4]}.items():
                    if {**REST, **base[4]}[k] != v:
                        assign(S, k, v)
                if spec[1] != base[1]:
                    assign(S, 'time.scheme', spec[1])
                if spec[5:] != base[5:]:
                    conditions(S, *spec[5:])
                n0 = len(it.events)
                S.start()
                V = View(S, n0)
                k = solve(S)
                return V, k, V.stale()
            o = c.run1(go)
            n += 1
            if o.exc:
                c.ob('again', name, False, str(o.exc), o.exc.where)
                continue
            V, k, stale = o.value
            compare(c, name, V, want.value[0])
            c.ob('again', f"solutions, {name}", k == want.value[1], f"{k} instead of {want.value[1]} time levels")
            c.ob('again', f"operators, {name}", not stale, f"{stale[:3]}")
        c.need('edits', n, 16)

    @sharded
    def repeated(c):
        """solving after every initialisation, without assembling in between"""
        n = 0
        for group, periodic in ((SPECS, False), (PERIODIC, True)):
            for name, spec in group.items():
                if not c.turn():
                    continue

                def go(it):
                    S = new(periodic)
                    configure(S, spec)
                    res = []
                    for k in range(3):
                        marks = earlier(it.events)
                        it.call(it.getattr(S.cfg, 'initialize'), [])
                        n0 = len(it.events)
                        levels = solve(S)
                        ev = it.events[n0:]
                        res.append((levels, touched(ev, *marks), sum(e[0] == 'form.new' for e in ev), sum(e[0] == 'mat.inverse' for e in ev)))
                    return res
                o = c.run1(go)
                n += 1
                if o.exc:
                    c.ob('repeated', name, False, str(o.exc), o.exc.where)
                    continue
                for k, r in enumerate(o.value[1:], 2):
                    c.ob('repeated', f"operators of solution {k}, {name}", not r[1], f"{r[1][:3]}")
                    c.ob('repeated', f"steps of solution {k}, {name}", (r[0], *r[2:]) == (o.value[0][0], *o.value[0][2:]),
                         f"{(r[0], *r[2:])} levels, forms and factorisations instead of {(o.value[0][0], *o.value[0][2:])}")
        c.need('repeated solutions', n, 8)

    @sharded
    def settings(c):
        """initialising, assembling and solving leave what was set as it was set"""
        n = 0
        for name, spec, periodic, dim in [*((k, v, False, 2) for k, v in SPECS.items()), *((k, v, True, 2) for k, v in PERIODIC.items()),
                                          ('two characteristic conditions', CHAR, False, 2)]:
            if not c.turn():
                continue

            def go(it):
                S = Setup(c, dim, time='stationary', boundaries=BNDS, materials=MATS, periodic=periodic, initial=False, initialize=False)
                configure(S, spec)
                cfg, res = S.cfg, []
                time = it.getattr(cfg, 'time')
                clock = {id(it.getattr(time, 'timer').d['data'])} if it.truth(it.contains(time, 'timer')) else set()
                seen = held(it, cfg)
                for what, f in (('initialising', lambda: it.call(it.getattr(cfg, 'initialize'), [])),
                                ('assembling', lambda: S.pcall(time, 'assemble')), ('solving', lambda: solve(S)),
                                ('asking for fields', lambda: S.pcall(cfg, 'get_fields')),
                                ('initialising again', lambda: it.call(it.getattr(cfg, 'initialize'), []))):
                    f()
                    now = held(it, cfg)
                    res.append((what, [f"{k}: {seen.get(k, 'missing')} became {now.get(k, 'missing')}"[:300]
                                       for k in [*seen, *(k for k in now if k not in seen)] if seen.get(k) != now.get(k)]))
                    seen = now
                return res, len(seen)
            o = c.run1(go)
            n += 1
            if o.exc:
                c.ob('settings', name, False, str(o.exc), o.exc.where)
                continue
            for what, bad in o.value[0]:
                c.ob('settings', f"{what} leaves the settings, {name}", not bad, '; '.join(bad[:3]))
            c.need(f"settings, {name}", o.value[1], 40)
        c.need('settings', n, 9)

    c.part(histories)
    c.part(edits)
    c.part(settings)
    c.part(repeated)


RULES = {'C36': c36}
