"""Settings: C18 rejected values, C19 shared root, C20 exported trees, C21 options, C22 conditions, C25 isolation."""
from __future__ import annotations

import itertools

from .. import alg as A
from .. import fields as F
from ..check import sharded
from ..interp import Unsupported, PyEx, IObj, IClass, HostFn, MISSING
from ..flow import solver, source, mesh as make_mesh
from ..models import PathM, Handler, Logger, Formatter

N = A.num


# ------------------------------------------------------------------ shared

def config_cls(c):
    return c.api('dream.config', 'UniqueConfiguration')


def is_config(o, base):
    return isinstance(o, IObj) and o.cls.issub(base)


def owner(it, cfg, path):
    """object holding the setting `path`, and its name"""
    *h, last = path.split('.')
    for p in h:
        cfg = it.getattr(cfg, p)
    return cfg, last


def get(it, cfg, path):
    for p in path.split('.'):
        cfg = it.getattr(cfg, p)
    return cfg


def put(it, cfg, path, v):
    o, last = owner(it, cfg, path)
    it.setattr(o, last, v)


SKIP = {'cfg', 'mesh', 'logger', 'terminal_handler', 'file_handler', 'formatter'}


def snap(it, o, seen=None):
    """structure and values of everything reachable from a configuration"""
    seen = seen if seen is not None else {}
    if isinstance(o, IObj):
        if id(o) in seen:
            return ('seen', seen[id(o)])
        seen[id(o)] = len(seen)
        return ('obj', id(o), o.cls.name, tuple((k, snap(it, v, seen)) for k, v in o.d.items() if k not in SKIP))
    if isinstance(o, F.Param):
        return ('param', id(o), repr(F.to_e(o.val)) if o.val is not None else None)
    if isinstance(o, F.Cf):
        return ('cf', tuple(o.dims), o.e)
    if isinstance(o, dict):
        return ('dict', tuple((k if isinstance(k, (str, int)) else repr(k), snap(it, v, seen)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(snap(it, v, seen) for v in o))
    if isinstance(o, F.Num):
        return ('num', o.integer, o.e)
    if isinstance(o, PathM):
        return ('path', o.text())
    if o is None or isinstance(o, (bool, int, float, str)):
        return (type(o).__name__, o)
    return ('ref', id(o))


def differs(a, b, at=''):
    """first difference of two snapshots"""
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                n = at + '.' + x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) and len(x) == 2 else at
                return differs(x, y, n) if isinstance(x, tuple) and isinstance(y, tuple) else f"{n.lstrip('.')}: {x!r} became {y!r}"[:200]
    return f"{at.lstrip('.')}: {a!r} became {b!r}"[:200]


def same_value(it, v, w):
    """is the stored value v the python value w, including its type"""
    if isinstance(v, F.Param):
        v = v.val
        if isinstance(w, bool) or not isinstance(w, (int, float, A.E)):
            return False
        e = F.to_e(v)
        return e is not None and F.simplify_const(e) is F.simplify_const(w if isinstance(w, A.E) else N(str(w)) if not isinstance(w, int) else N(w))
    if isinstance(w, bool) or w is None or isinstance(w, str):
        return (v.text() == w if isinstance(v, PathM) else v is w or (isinstance(w, str) and v == w)) and isinstance(w, str) == (isinstance(v, (str, PathM)))
    if isinstance(w, (int, float)):
        if isinstance(v, bool):
            return False
        if isinstance(v, (int, float)):
            return type(v) is type(w) and v == w
        if isinstance(v, F.Num):
            e = F.simplify_const(v.e)
            return v.integer == isinstance(w, int) and e is F.simplify_const(N(str(w)) if isinstance(w, float) else N(w))
        return False
    if isinstance(w, tuple):
        return isinstance(v, tuple) and len(v) == len(w) and all(same_value(it, a, b) for a, b in zip(v, w))
    if isinstance(w, dict):
        if isinstance(v, IObj):
            keys = list(it.iterate(v))
            return sorted(keys) == sorted(w) and all(same_cf(it, it.getitem(v, k), x) for k, x in w.items())
        return isinstance(v, dict) and list(v) == list(w) and all(same_value(it, v[k], w[k]) for k in w)
    return v is w


def same_cf(it, cf, w):
    if not isinstance(cf, F.Cf):
        return False
    ws = w if isinstance(w, tuple) else (w,)
    return len(cf.e) == len(ws) and all(F.simplify_const(a) is F.simplify_const(N(str(b)) if isinstance(b, float) else N(b)) for a, b in zip(cf.e, ws))


def how_attr(it, cfg, path, v):
    put(it, cfg, path, v)


def how_item(it, cfg, path, v):
    o, last = owner(it, cfg, path)
    it.setitem(o, last, v)


def how_dotted(it, cfg, path, v):
    it.call(it.getattr(cfg, 'update'), [{path: v}])


def how_nested(it, cfg, path, v):
    *h, last = path.split('.')
    d = {last: v}
    for p in reversed(h):
        d = {p: d}
    it.call(it.getattr(cfg, 'update'), [d])


def how_keyword(it, cfg, path, v):
    o, last = owner(it, cfg, path)
    it.call(it.getattr(o, 'update'), [], {last: v})


def how_parent(it, cfg, path, v):
    o, last = owner(it, cfg, path)
    if o is cfg:
        return put(it, cfg, path, v)
    up, name = owner(it, cfg, path.rsplit('.', 1)[0])
    it.setattr(up, name, {last: v})


HOWS = (how_attr, how_item, how_dotted, how_nested, how_keyword, how_parent)


def how_name(h):
    return h.__name__[4:]


# ------------------------------------------------------------------ C18

VISCOUS = {'dynamic_viscosity': 'constant'}
TRANSIENT = {'time': 'transient'}
PSEUDO = {'time': 'pseudo_time_stepping'}


def io(s):
    return {f"io.{s}": True}


def bools(true=(True, 1, 'x', 2.5), false=(False, 0, '', None)):
    return [(v, True) for v in true] + [(v, False) for v in false]


INTS = [(3, 3), (4.0, 4), ('5', 5), (2.7, 2)]
COUNTS = INTS + [(0, 0), (1, 1), (100, 100)]
FLOATS = [(2, 2.0), (0.5, 0.5), ('0.25', 0.25), (1e-3, 1e-3)]
RATE = (INTS + [(1, 1), (100, 100)], [(v, 'ValueError') for v in (0, -1, 0.5, -2.5, 'x', '0')] + [(None, None)])
X = A.declare('value', 'pos')


def sym(e):
    return F.Num(e)


# path -> (options first, [(value, stored)], [(value, exception or any)])
SETTINGS = {
    'mach_number': ({}, [(0, 0), (0.0, 0), (0.5, 0.5), (3, 3), (sym(X), X)], [(-0.1, 'ValueError'), (-1e-12, 'ValueError'),
                                                                     (sym(A.neg(X)), 'ValueError'), (None, None), ('fast', None)]),
    'reynolds_number': (VISCOUS, [(1, 1), (0.25, 0.25), (1e6, 1e6), (sym(X), X)],
                        [(0, 'ValueError'), (-5, 'ValueError'), (0.0, 'ValueError'), (sym(A.neg(X)), 'ValueError'), (None, None), ('x', None)]),
    'prandtl_number': (VISCOUS, [(1, 1), (0.71, 0.71), (sym(X), X)],
                       [(0, 'ValueError'), (-0.7, 'ValueError'), (sym(A.neg(X)), 'ValueError'), (None, None), ('x', None)]),
    'fem.order': ({}, COUNTS, [('x', None), (None, None)]),
    'info': ({}, [({'author': 'me'}, {'author': 'me'}), ({}, {}), (None, {})],
             [(3, 'ValueError'), ('text', 'ValueError'), ([1], 'ValueError'), (('a', 'b'), 'ValueError'), (True, 'ValueError'),
              ('', 'ValueError'), ([], 'ValueError'), (0, 'ValueError'), (False, 'ValueError'), ((), 'ValueError')]),
    'time.timer.interval': (TRANSIENT, [((0, 2), (0.0, 2.0)), ((1, 2.5), (1.0, 2.5)), ([0.5, 1], (0.5, 1.0))],
                            [((-1, 1), 'ValueError'), ((0, -1), 'ValueError'), ((1, 1), 'ValueError'), ((2, 1), 'ValueError'),
                             ((-2, -1), 'ValueError'), ((0, 1, 2), None), (5, None), (None, None), ((0, 0), 'ValueError')]),
    'time.timer.step': (TRANSIENT, [(0.5, 0.5), (1, 1)], [(None, None)]),
    'time.max_time_step': (PSEUDO, FLOATS, [('x', None), (None, None)]),
    'time.increment_at': (PSEUDO, COUNTS[:4] + COUNTS[5:], [('x', None), (None, None)]),
    'time.increment_factor': (PSEUDO, None, [('x', None), (None, None)]),
    'nonlinear_solver.max_iterations': ({}, COUNTS, [('x', None), (None, None)]),
    'nonlinear_solver.convergence_criterion': ({}, [(1e-3, 1e-3), (1, 1.0), (sym(X), X)],
                                               [(0, 'ValueError'), (-1e-8, 'ValueError'), (sym(A.neg(X)), 'ValueError'), (None, None), ('x', None)]),
    'nonlinear_solver.method.damping_factor': ({}, FLOATS, [('x', None), (None, None)]),
    'optimizations.static_condensation': ({}, bools(), []),
    'optimizations.compile.realcompile': ({}, bools(), []),
    'optimizations.compile.wait': ({}, bools(), []),
    'optimizations.compile.keep_files': ({}, bools(), []),
    'optimizations.bonus_int_order.vol': ({}, COUNTS, [('x', None), (None, None)]),
    'optimizations.bonus_int_order.bnd': ({}, COUNTS, [('x', None), (None, None)]),
    'optimizations.bonus_int_order.bbnd': ({}, COUNTS, [('x', None), (None, None)]),
    'optimizations.bonus_int_order.bbbnd': ({}, COUNTS, [('x', None), (None, None)]),
    'riemann_solver.theta_0': ({'riemann_solver': 'hllem'}, FLOATS, [('x', None), (None, None)]),
    'dynamic_viscosity.measurement_temperature': ({'dynamic_viscosity': 'sutherland'}, [(100, 100), (90.5, 90.5)], []),
    'dynamic_viscosity.measurement_viscosity': ({'dynamic_viscosity': 'sutherland'}, [(1e-5, 1e-5)], []),
    'equation_of_state.heat_capacity_ratio': ({}, [(1.2, 1.2), (2, 2), (sym(A.add(N(1), X)), A.add(N(1), X))], [(None, None)]),
    'scaling.dimensionful_values': ({}, [(None, {'length': 1, 'density': 1.293, 'velocity': 1, 'speed_of_sound': 343, 'temperature': 293.15, 'pressure': 101325}),
                                         ({'T': 300}, {'length': 1, 'density': 1.293, 'velocity': 1, 'speed_of_sound': 343, 'temperature': 300, 'pressure': 101325})],
                                    [(3, None)]),
    'io.gfu.rate': (io('gfu'), *RATE), 'io.gfu.time_level_rate': (io('gfu'), *RATE), 'io.vtk.rate': (io('vtk'), *RATE),
    'io.gfu.filename': (io('gfu'), [('state', 'state'), (None, 'gfu')], []),
    'io.vtk.filename': (io('vtk'), [('fields', 'fields'), (None, 'vtk')], []),
    'io.ngsmesh.filename': (io('ngsmesh'), [(None, 'mesh'), ('grid', 'grid')], []),
    'io.settings.filename': (io('settings'), [(None, 'settings'), ('s', 's')], []),
    'io.sensor.filename': (io('sensor'), [(None, 'sensor'), ('s', 's')], []),
    'io.log.filename': ({}, [(None, 'dream'), ('s', 's')], []),
    'io.vtk.subdivision': (io('vtk'), [(4, 4)], []),
    'io.vtk.region': (io('vtk'), [('sponge', 'sponge'), (None, None)], []),
    'io.vtk.fields': (io('vtk'), [(None, {}), ({'p': 1}, {'p': 1}), ({'p': 2, 'u': (1, 2)}, {'p': 2, 'u': (1, 2)})], [(3, None)]),
    'io.settings.pickle': (io('settings'), bools(), []), 'io.settings.txt': (io('settings'), bools(), []),
    'io.settings.yaml': (io('settings'), bools(), []),
    'io.sensor.mode': (io('sensor'), [('a', 'a')], []), 'io.sensor.to_csv': (io('sensor'), [(False, False)], []),
    'io.log.level': ({}, [('DEBUG', 'DEBUG'), (10, 'DEBUG'), (20, 'INFO'), (30, 'WARNING')], [('LOUD', 'ValueError'), ('debug', 'ValueError'), (None, None)]),
    'io.log.to_terminal': ({}, [(False, False), (True, True)], []),
    'io.folders.root': ({}, [('/data', '/data'), ('sub', '/<cwd>/sub'), (None, '/<cwd>')], [(3, None)]),
    'io.folders.states': ({}, [('/data/s', '/data/s'), ('sub', '/<cwd>/sub')], [(3, None)]),
    'io.folders.vtk': ({}, [('v', '/<cwd>/v')], [(3, None)]), 'io.folders.settings': ({}, [('v', '/<cwd>/v')], [(3, None)]),
    'io.folders.sensors': ({}, [('v', '/<cwd>/v')], [(3, None)]),
    **{f"io.{s}": ({}, None, [('nonsense', 'ValueError'), (1, 'ValueError'), (None, 'ValueError'), (0, 'ValueError'), ((True,), 'ValueError')])
       for s in ('gfu', 'vtk', 'sensor', 'settings', 'ngsmesh')},
    'io.log': ({}, None, [(1, 'ValueError'), (None, 'ValueError')]),
    **{p: ({}, None, [('nonsense', 'TypeError'), (3, 'TypeError'), (None, 'TypeError'), ((1, 2), 'TypeError'), (True, 'TypeError')])
       for p in ('fem', 'fem.method', 'fem.mixed_method', 'time', 'linear_solver', 'nonlinear_solver', 'nonlinear_solver.method',
                 'equation_of_state', 'dynamic_viscosity', 'scaling', 'riemann_solver', 'io.folders', 'optimizations',
                 'optimizations.compile', 'optimizations.bonus_int_order', 'io')},
    'time.scheme': (TRANSIENT, None, [('nonsense', 'TypeError'), (3, 'TypeError')]),
    'time.timer': (TRANSIENT, None, [('nonsense', 'TypeError'), (3, 'TypeError')]),
}
FLOW = 'dream.compressible.config'
RELAX = ("acoustic_in", "entropy", "vorticity_0", "vorticity_1", "acoustic_out")
# (module, condition) -> setting -> (keywords first, accepted, rejected); REFUSED reads raise
REFUSED = object()
CONDITIONS = {
    (FLOW, 'FarField'): {'fields': ({}, [({'rho': 1, 'p': 2}, {'density': 1, 'pressure': 2}), (None, REFUSED)], [(3, None)]),
                         'identity_jacobian': ({}, bools(), [])},
    (FLOW, 'Outflow'): {'fields': ({}, [(2, {'pressure': 2}), (0.5, {'pressure': 0.5}), ({'p': 3}, {'pressure': 3}), (None, REFUSED)], [])},
    (FLOW, 'CBC'): {}, (FLOW, 'GRCBC'): {}, (FLOW, 'NSCBC'): {'length': ({}, [(3, 3), (0.5, 0.5)], [])},
    (FLOW, 'IsothermalWall'): {'fields': ({}, [(2, {'temperature': 2}), ({'T': 3}, {'temperature': 3}), (None, REFUSED)], [])},
    ('dream.mesh', 'Initial'): {'fields': ({}, [(None, REFUSED)], [])},
    ('dream.mesh', 'Force'): {'fields': ({}, [(None, REFUSED)], [])},
    ('dream.mesh', 'SpongeLayer'): {'target_state': ({}, [(None, REFUSED)], []), 'function': ({}, [(None, REFUSED)], []),
                                    'order': ({}, COUNTS, [('x', None), (None, None)])},
    ('dream.mesh', 'PSpongeLayer'): {
        'high_order': ({'high_order': 4, 'low_order': 2}, [(2, 2), (3, 3), (7, 7)],
                       [(-1, 'ValueError'), (1, 'ValueError'), (0, 'ValueError'), (None, None), ('x', None)]),
        'low_order': ({'high_order': 3, 'low_order': 1}, [(0, 0), (3, 3), (2, 2)],
                      [(-1, 'ValueError'), (4, 'ValueError'), (9, 'ValueError'), (None, None), ('x', None)]),
        'order': ({}, COUNTS, [('x', None), (None, None)]), 'target_state': ({}, [(None, REFUSED)], [])},
    ('dream.mesh', 'GridDeformation'): {
        'x': ({}, None, [(3, 'TypeError'), ('map', 'TypeError')]), 'y': ({}, None, [(3, 'TypeError'), ('map', 'TypeError')]),
        'z': ({}, None, [(3, 'TypeError'), ('map', 'TypeError')]), 'dim': ({}, [(2, 2), (3.0, 3)], [('x', None), (None, None)]),
        'order': ({}, COUNTS, [('x', None), (None, None)])},
}
for k in ('CBC', 'GRCBC', 'NSCBC'):
    CONDITIONS[FLOW, k].update({
        'fields': ({}, [({'rho': 1}, {'density': 1}), (None, REFUSED)], [(3, None)]),
        'target': ({}, [('farfield', 'farfield'), ('OUTFLOW', 'outflow'), ('Mass_Inflow', 'mass_inflow'), ('temperature_inflow', 'temperature_inflow')],
                   [('nonsense', 'ValueError'), ('', 'ValueError'), (None, 'ValueError'), (3, 'ValueError'), ('inflow', 'ValueError')]),
        'relaxation_factor': ({}, [(0.5, dict.fromkeys(RELAX, 0.5)), ((1, 2, 3, 4, 5), dict(zip(RELAX, (1, 2, 3, 4, 5)))),
                                   ([1, 2, 3, 4, 5], dict(zip(RELAX, (1, 2, 3, 4, 5)))),
                                   (dict(zip(RELAX[::-1], (1, 2, 3, 4, 5))), dict(zip(RELAX, (5, 4, 3, 2, 1))))], []),
        'is_viscous_fluxes': ({}, bools(), [])})


def c18(c):
    it = c.it

    def fresh(opts):
        cfg = solver(c, 2)
        for k, v in opts.items():
            put(it, cfg, k, v)
        return cfg

    @sharded
    def rejected(c):
        n = 0
        for path, (opts, good, bad) in SETTINGS.items():
            for (v, exc), how in itertools.product(bad, HOWS):
                if how is how_parent and '.' not in path:
                    continue
                if isinstance(v, dict):
                    continue
                if not c.turn():
                    continue
                # what the setting held before: the default, or a value set earlier
                for before in [MISSING] + [g[0] for g in (good or [])[-1:]]:
                    def go(it):
                        cfg = fresh(opts)
                        if before is not MISSING:
                            put(it, cfg, path, before)
                        a = snap(it, cfg)
                        try:
                            how(it, cfg, path, v)
                            ex = None
                        except PyEx as e:
                            ex = e
                        return ex, differs(a, snap(it, cfg))
                    name = f"{path} = {shown(v)} by {how_name(how)}{'' if before is MISSING else f' after {shown(before)}'}"
                    judge(c, name, exc, go)
                    n += 1
        c.need('rejected values', n, 800)

    def judge(c, name, exc, go):
        for o in c.explore(go):
            if o.exc:
                c.ob('rejected', name, False, str(o.exc), o.exc.where)
                continue
            ex, diff = o.value
            if exc is not None:
                c.ob('rejected', f"{name} raises {exc}", ex is not None and ex.value.cls.name == exc, f"{ex or 'accepted'}")
            if ex is not None:
                c.ob('unchanged', name, diff is None, diff or '')

    def shown(v):
        return repr(v) if not isinstance(v, F.Num) else A.brief(v.e)

    @sharded
    def accepted(c):
        n = 0
        for path, (opts, good, _) in SETTINGS.items():
            for (v, want), how in itertools.product(good or (), HOWS):
                if how is how_parent and '.' not in path:
                    continue
                if not c.turn():
                    continue

                def go(it):
                    cfg = fresh(opts)
                    how(it, cfg, path, v)
                    return get(it, cfg, path)
                name = f"{path} = {shown(v)} by {how_name(how)}"
                for o in c.explore(go):
                    if o.exc:
                        c.ob('accepted', name, False, str(o.exc), o.exc.where)
                        continue
                    w = o.value
                    if isinstance(want, A.E):
                        e = F.to_e(w.val if isinstance(w, F.Param) else w)
                        ok = e is not None and c.holds(e, want)
                    else:
                        ok = same_value(it, w, want)
                    c.ob('stored', name, ok, f"reads back {w!r} instead of {shown(want) if not isinstance(want, A.E) else want}")
                n += 1
        c.need('accepted values', n, 400)

    def conditions(c):
        n = 0
        for (mod, cls), settings in CONDITIONS.items():
            for key, (first, good, bad) in settings.items():
                def make():
                    o = it.call(c.api(mod, cls), [])
                    for k, v in first.items():
                        it.setattr(o, k, v)
                    return o
                hows = (how_attr, how_item, how_keyword, how_dotted)
                for (v, want), how in itertools.product(good or (), hows):
                    def go(it):
                        o = make()
                        how(it, o, key, v)
                        try:
                            return get(it, o, key)
                        except PyEx as ex:
                            return ex
                    name = f"{cls}.{key} = {shown(v)} by {how_name(how)}"
                    for o in c.explore(go):
                        if o.exc:
                            c.ob('accepted', name, False, str(o.exc), o.exc.where)
                            continue
                        w = o.value
                        if want is REFUSED:
                            c.ob('stored', f"{name}: reading an unset value raises ValueError",
                                 isinstance(w, PyEx) and w.value.cls.name == 'ValueError', f"{w!r}")
                        else:
                            c.ob('stored', name, not isinstance(w, PyEx) and same_value(it, w, want), f"reads back {w!r} instead of {want!r}")
                    n += 1
                if good and good[0][1] is not REFUSED:      # as a keyword of the constructor
                    v, want = good[0]

                    def go(it):
                        return get(it, it.call(c.api(mod, cls), [], {**first, key: v}), key)
                    for o in c.explore(go):
                        c.ob('stored', f"{cls}({key}={shown(v)})", not o.exc and same_value(it, o.value, want), f"{o.exc or o.value!r}")
                for (v, exc), how in itertools.product(bad, hows):
                    for before in [MISSING] + [g[0] for g in (good or [])[-1:] if g[1] is not REFUSED]:
                        def go(it):
                            o = make()
                            if before is not MISSING:
                                it.setattr(o, key, before)
                            a = snap(it, o)
                            try:
                                how(it, o, key, v)
                                ex = None
                            except PyEx as e:
                                ex = e
                            return ex, differs(a, snap(it, o))
                        judge(c, f"{cls}.{key} = {shown(v)} by {how_name(how)}{'' if before is MISSING else f' after {shown(before)}'}", exc, go)
                        n += 1
        c.need('settings of conditions', n, 200)

    def bounded(c):
        """the orders of a polynomial sponge bound each other, whatever they are"""
        n = 0
        for h, l in itertools.product(range(5), repeat=2):
            if l > h:
                continue
            for (key, v), how in itertools.product([(k, v) for k in ('high_order', 'low_order') for v in range(-1, 6)], (how_attr, how_keyword)):
                ok = v >= l if key == 'high_order' else 0 <= v <= h

                def go(it):
                    o = it.call(c.api('dream.mesh', 'PSpongeLayer'), [], {'high_order': h, 'low_order': l})
                    a = snap(it, o)
                    try:
                        how(it, o, key, v)
                        ex = None
                    except PyEx as e:
                        ex = e
                    return ex, differs(a, snap(it, o)), get(it, o, 'high_order'), get(it, o, 'low_order')
                name = f"PSpongeLayer({h}, {l}).{key} = {v} by {how_name(how)}"
                o = c.run1(go)
                n += 1
                if o.exc:
                    c.ob('accepted', name, False, str(o.exc), o.exc.where)
                    continue
                ex, d, hh, ll = o.value
                if ok:
                    want = (v, l) if key == 'high_order' else (h, v)
                    c.ob('stored', name, ex is None and same_value(it, hh, want[0]) and same_value(it, ll, want[1]), f"{ex or (hh, ll)}")
                else:
                    c.ob('rejected', f"{name} raises ValueError", ex is not None and ex.value.cls.name == 'ValueError', f"{ex or 'accepted'}")
                    c.ob('unchanged', name, d is None, f"{d}")
        # both at once: what fits together is accepted whatever was in force, what does not is refused
        R = range(4)
        for (h, l), (hh, ll) in itertools.product([(h, l) for h in R for l in R if l <= h], itertools.product(R, R)):
            for how in ('update(dict)', 'update(low first)', 'keywords'):
                def go(it):
                    o = it.call(c.api('dream.mesh', 'PSpongeLayer'), [], {'high_order': h, 'low_order': l})
                    d = {'high_order': hh, 'low_order': ll} if how != 'update(low first)' else {'low_order': ll, 'high_order': hh}
                    try:
                        it.call(it.getattr(o, 'update'), [] if how == 'keywords' else [d], d if how == 'keywords' else {})
                        ex = None
                    except PyEx as e:
                        ex = e
                    return ex, get(it, o, 'high_order'), get(it, o, 'low_order')
                name = f"PSpongeLayer({h}, {l}) updated to ({hh}, {ll}) by {how}"
                o = c.run1(go)
                n += 1
                if o.exc:
                    c.ob('accepted', name, False, str(o.exc), o.exc.where)
                    continue
                ex, a, b = o.value
                if ll <= hh:
                    c.ob('stored', name, ex is None and same_value(it, a, hh) and same_value(it, b, ll), f"{ex or (a, b)}")
                else:
                    c.ob('rejected', f"{name} raises ValueError", ex is not None and ex.value.cls.name == 'ValueError', f"{ex or 'accepted'}")
        c.need('orders of polynomial sponges', n, 800)

    def sensors(c):
        """settings of sensors"""
        n = 0
        for kind in ('point', 'domain', 'boundary', 'domain_L2', 'boundary_L2'):
            table = {'rate': RATE, 'fields': ([(None, {}), ({'p': 1}, {'p': 1})], [(3, None)])}
            for key, (good, bad) in table.items():
                def make():
                    cfg = fresh(io('sensor'))
                    put(it, cfg, f"io.sensor.{kind}", 'probe')
                    return it.getitem(get(it, cfg, f"io.sensor.{kind}"), 'probe')
                for v, want in good:
                    def go(it):
                        s = make()
                        it.setattr(s, key, v)
                        return it.getattr(s, key)
                    for o in c.explore(go):
                        c.ob('stored', f"{kind} sensor: {key} = {shown(v)}", not o.exc and same_value(it, o.value, want), f"{o.exc or o.value!r}")
                    n += 1
                for v, exc in bad:
                    def go(it):
                        s = make()
                        it.setattr(s, key, good[0][0])
                        a = snap(it, s)
                        try:
                            it.setattr(s, key, v)
                            ex = None
                        except PyEx as e:
                            ex = e
                        return ex, differs(a, snap(it, s))
                    judge(c, f"{kind} sensor: {key} = {shown(v)}", exc, go)
                    n += 1
        c.need('settings of sensors', n, 60)

    for f in (rejected, accepted, conditions, bounded, sensors):
        c.part(f)


# ------------------------------------------------------------------ options

COMP = 'dream.compressible'
# interface -> (options first, {option class: (module, names)})
OPTIONS = {
    'fem': ({}, {'ConservativeFiniteElementMethod': (COMP + '.formulations.conservative', ('conservative',))}),
    'fem.method': ({}, {'HDG': (COMP + '.formulations.conservative', ('hdg',))}),
    'fem.mixed_method': ({}, {'Inactive': (COMP + '.formulations.conservative', ('inactive',)),
                              'StrainHeat': (COMP + '.formulations.conservative', ('strain_heat',)),
                              'Gradient': (COMP + '.formulations.conservative', ('gradient',))}),
    'time': ({}, {'StationaryConfig': ('dream.time', ('stationary',)), 'TransientConfig': ('dream.time', ('transient',)),
                  'PseudoTimeSteppingConfig': ('dream.time', ('pseudo_time_stepping', 'pseudo'))}),
    'linear_solver': ({}, {'UmfpackLinearSolver': ('dream.solver', ('umfpack',)),
                           'PardisoLinearSolver': ('dream.solver', ('pardiso',))}),
    'nonlinear_solver': ({}, {'UmfpackNonlinearSolver': ('dream.solver', ('umfpack',)),
                              'PardisoNonlinearSolver': ('dream.solver', ('pardiso',))}),
    'nonlinear_solver.method': ({}, {'NewtonsMethod': ('dream.solver', ('newton',))}),
    'equation_of_state': ({}, {'IdealGas': (COMP + '.eos', ('ideal', 'perfect'))}),
    'dynamic_viscosity': ({}, {'Inviscid': (COMP + '.viscosity', ('inviscid', 'euler')),
                               'Constant': (COMP + '.viscosity', ('constant',)),
                               'Sutherland': (COMP + '.viscosity', ('sutherland',))}),
    'scaling': ({}, {'Aerodynamic': (COMP + '.scaling', ('aerodynamic',)), 'Acoustic': (COMP + '.scaling', ('acoustic',)),
                     'Aeroacoustic': (COMP + '.scaling', ('aeroacoustic',))}),
    'riemann_solver': ({}, {'Upwind': (COMP + '.riemann_solver', ('upwind',)), 'LaxFriedrich': (COMP + '.riemann_solver', ('lax_friedrich', 'lf')),
                            'Roe': (COMP + '.riemann_solver', ('roe',)), 'HLL': (COMP + '.riemann_solver', ('hll',)),
                            'HLLEM': (COMP + '.riemann_solver', ('hllem',))}),
    'io.folders': ({}, {'SingleFolders': ('dream.io', ('single',)), 'BenchmarkFolders': ('dream.io', ('benchmark',))}),
    'time.scheme': (TRANSIENT, {'ImplicitEuler': ('dream.time', ('implicit_euler', 'ie')), 'BDF2': ('dream.time', ('bdf2',))}),
    'time.scheme ': (PSEUDO, {'ImplicitEuler': ('dream.time', ('implicit_euler', 'ie')), 'BDF2': ('dream.time', ('bdf2',))}),
}
UNIQUE = {'time.timer': (TRANSIENT, 'dream.time', 'Timer', 'timer'), 'time.timer ': (PSEUDO, 'dream.time', 'Timer', 'timer'),
          'optimizations': ({}, 'dream.solver', 'Optimizations', 'optimizations'),
          'optimizations.compile': ({}, 'dream.solver', 'Compile', 'compile'),
          'optimizations.bonus_int_order': ({}, 'dream.solver', 'BonusIntegrationOrder', 'bonusintegrationorder'),
          'io': ({}, 'dream.io', 'IOConfiguration', 'io')}
STREAMS = {'log': ('LogStream', 'dream'), 'ngsmesh': ('MeshStream', 'mesh'), 'gfu': ('GridfunctionStream', 'gfu'),
           'settings': ('SettingsStream', 'settings'), 'vtk': ('VTKStream', 'vtk'), 'sensor': ('SensorStream', 'sensor')}


def fresh(c, opts=(), dim=2, mesh=None):
    cfg = solver(c, dim, **({'mesh': mesh} if mesh is not None else {}))
    for k, v in dict(opts).items():
        put(c.it, cfg, k, v)
    return cfg


def nodes(c, cfg):
    """(path, configuration) for every configuration reachable through settings"""
    it, base, out, seen = c.it, config_cls(c), [], set()

    def walk(path, o):
        if id(o) in seen:
            return
        seen.add(id(o))
        out.append((path, o))
        for k in list(it.iterate(o)):
            try:
                v = it.getitem(o, k)
            except PyEx:            # getters refuse some settings
                continue
            if is_config(v, base):
                walk(f"{path}.{k}".lstrip('.'), v)
    walk('', cfg)
    return out


def selections(c):
    """(name, path, options first, function selecting an option on a solver and returning what must be in place)"""
    it = c.it
    for key, (first, options) in OPTIONS.items():
        path = key.strip()
        for cls, (mod, names) in options.items():
            def by_name(cfg, path=path, n=names[-1], **_):
                put(it, cfg, path, n)

            def by_instance(cfg, path=path, mod=mod, cls=cls, **_):
                put(it, cfg, path, it.call(c.api(mod, cls), []))

            def by_moved(cfg, path=path, first=first, n=names[0], **_):
                other = fresh(c, first)
                put(it, other, path, n)
                put(it, cfg, path, get(it, other, path))
            for h in (by_name, by_instance, by_moved):
                yield f"{path} = {names[0]} {h.__name__}", path, first, h
    for key, (first, mod, cls, name) in UNIQUE.items():
        path = key.strip()

        def by_name(cfg, path=path, n=name):
            put(it, cfg, path, n)

        def by_instance(cfg, path=path, mod=mod, cls=cls):
            put(it, cfg, path, it.call(c.api(mod, cls), []))

        def by_moved(cfg, path=path, first=first):
            put(it, cfg, path, get(it, fresh(c, first), path))
        for h in (by_name, by_instance, by_moved):
            yield f"{path} {h.__name__}", path, first, h
    for name, (cls, own) in STREAMS.items():
        def on(cfg, name=name):
            put(it, cfg, f"io.{name}", True)

        def again(cfg, name=name, own=own):
            put(it, cfg, f"io.{name}", True)
            put(it, cfg, f"io.{name}", False)
            put(it, cfg, f"io.{name}", own)
        yield f"io.{name} on", f"io.{name}", {}, on
        yield f"io.{name} again", f"io.{name}", {}, again

    def nested(cfg):
        put(it, cfg, 'time', it.call(c.api('dream.time', 'TransientConfig'), [], {'scheme': 'bdf2', 'timer.step': 0.5}))

    def io_streams(cfg):
        put(it, cfg, 'io', it.call(c.api('dream.io', 'IOConfiguration'), [], {'gfu': True, 'vtk': True, 'sensor': True}))

    def replayed(cfg):
        it.call(it.getattr(cfg, 'update'), [{'time': 'pseudo', 'time.scheme': 'bdf2', 'riemann_solver': 'hllem', 'io': {'gfu': True},
                                             'nonlinear_solver': 'pardiso', 'fem': {'mixed_method': 'gradient'}}])

    def clear(cfg):
        it.call(it.getattr(cfg, 'clear'), [])

    def clear_parts(cfg):
        for p in ('fem', 'io', 'optimizations', 'nonlinear_solver', 'time'):
            it.call(it.getattr(get(it, cfg, p), 'clear'), [])
    yield 'time = TransientConfig(scheme, step)', 'time', {}, nested
    yield 'io = IOConfiguration(gfu, vtk, sensor)', 'io', {}, io_streams
    yield 'update of several options', '', {}, replayed
    yield 'clear()', '', {}, clear
    yield 'clear() of parts', '', {}, clear_parts


# ------------------------------------------------------------------ C19

def c19(c):
    it = c.it

    def judge(c, name, o):
        if o.exc:
            c.ob('selection', name, False, str(o.exc), o.exc.where)
            return
        cfg, ns = o.value
        bad = [f"{p}.{a}" for p, n in ns for a, v in (('cfg', cfg), ('mesh', it.getattr(cfg, 'mesh')))
               if it.getattr(n, a) is not v]
        c.ob('root and mesh', name, not bad, f"not shared: {', '.join(bad)}", sample=[p for p, _ in ns])
        paths = {p for p, _ in ns}
        c.ob('tree', name, {'fem', 'fem.method', 'fem.mixed_method', 'time', 'linear_solver', 'nonlinear_solver', 'nonlinear_solver.method',
                            'optimizations', 'optimizations.compile', 'optimizations.bonus_int_order', 'io', 'io.folders',
                            'equation_of_state', 'dynamic_viscosity', 'scaling', 'riemann_solver'} <= paths, f"{sorted(paths)}")

    def single(c):
        for o in c.explore(lambda it: (lambda cfg: (cfg, nodes(c, cfg)))(fresh(c))):
            judge(c, 'new solver', o)
        for kw in ({'time': 'transient'}, {'io': {'gfu': True}, 'time': 'pseudo', 'time.scheme': 'bdf2'}, {'fem.mixed_method': 'gradient'}):
            def go(it):
                cfg = it.call(c.api(COMP, 'CompressibleFlowSolver'), [make_mesh(2)], kw)
                return cfg, nodes(c, cfg)
            for o in c.explore(go):
                judge(c, f"new solver with {kw}", o)
        n = 0
        for name, path, first, h in selections(c):
            def go(it):
                cfg = fresh(c, first)
                h(cfg)
                return cfg, nodes(c, cfg)
            for o in c.explore(go):
                judge(c, name, o)
            n += 1
        c.need('selections', n, 100)

    @sharded
    def double(c):
        """two selections on related settings, in both orders (all pairs in the thorough tier)"""
        sel = list(selections(c))
        n = 0
        for a, b in itertools.permutations(sel, 2):
            (na, pa, fa, ha), (nb, pb, fb, hb) = a, b
            if fa != fb and fa and fb:
                continue
            related = pa == pb or pa.startswith(pb + '.') or pb.startswith(pa + '.') or not pa or not pb
            if not related and c.tier != 'thorough':
                continue
            if not c.turn():
                continue

            def go(it):
                cfg = fresh(c, fa or fb)
                ha(cfg)
                if pb.startswith('time.') and it.getattr(it.getattr(it.getattr(cfg, 'time'), '__class__'), 'name') == 'stationary':
                    return None
                hb(cfg)
                return cfg, nodes(c, cfg)
            for o in c.explore(go):
                if o.exc or o.value is not None:
                    judge(c, f"{na}, then {nb}", o)
            n += 1
        c.need('pairs of selections', n, 400)

    def opened(c):
        """sensors join when the stream is opened"""
        for kind in ('point', 'domain', 'boundary', 'domain_L2', 'boundary_L2'):
            def go(it):
                cfg = fresh(c, io('sensor'))
                s = get(it, cfg, 'io.sensor')
                it.setattr(s, kind, 'probe')
                p = it.getitem(it.getattr(s, kind), 'probe')
                it.setattr(p, 'fields', {'p': F.cf_of(it, 1)})
                it.setattr(s, 'to_csv', False)
                it.call(it.getattr(s, 'open'), [])
                return cfg, [(kind, p)] + nodes(c, cfg)
            for o in c.explore(go):
                judge(c, f"{kind} sensor", o)
    def deep(c):
        """configurations nested in user-defined options, to any depth, however the option was made"""
        text = """
from dream.config import UniqueConfiguration, unique, interface, configuration
from dream.compressible.formulations.conservative import ConservativeFiniteElementMethod
from dream.solver import Optimizations
from dream.io import SingleFolders

class Leaf(UniqueConfiguration):
    name = 'leaf'
    @configuration(default=1)
    def value(self, value):
        return value

class Twig(UniqueConfiguration):
    name = 'twig'
    @unique(default=Leaf)
    def leaf(self, leaf):
        return leaf

class Branch(UniqueConfiguration):
    name = 'branch'
    @unique(default=Twig)
    def twig(self, twig):
        return twig
    @interface(default=SingleFolders)
    def folders(self, folders):
        return folders

class Deep(ConservativeFiniteElementMethod):
    name = 'deep'
    @unique(default=Branch)
    def branch(self, branch):
        return branch
"""
        def build(it):
            return source(it, text)
        PATHS = ('fem', 'fem.branch', 'fem.branch.twig', 'fem.branch.twig.leaf')
        n = 0

        def makers(it, ns, cfg):
            cls = {'fem': 'Deep', 'fem.branch': 'Branch', 'fem.branch.twig': 'Twig', 'fem.branch.twig.leaf': 'Leaf'}

            def moved(p):
                o = fresh(c)
                put(it, o, 'fem', 'deep')
                return get(it, o, p)

            def kept(p):
                return it.call(ns[cls[p]], [], {'cfg': cfg})

            def holder(p):
                o = it.call(ns['Deep'], [], {'cfg': cfg})
                for k in p.split('.')[1:]:
                    o = it.getattr(o, k)
                return o
            return {'name': lambda p: cls[p].lower(), 'instance': lambda p: it.call(ns[cls[p]], []), 'instance of another solver': moved,
                    'instance made with the solver': kept, 'part of an instance made with the solver': holder,
                    'update': lambda p: {}}
        for p, h in itertools.product(PATHS, ('name', 'instance', 'instance of another solver', 'instance made with the solver',
                                              'part of an instance made with the solver', 'update')):
            for q, g in [(None, None)] + [(q, g) for q in PATHS for g in ('name', 'instance', 'instance of another solver')]:
                if q == p and g == h:
                    continue

                def go(it):
                    ns = build(it)
                    cfg = fresh(c)
                    put(it, cfg, 'fem', 'deep')
                    mk = makers(it, ns, cfg)
                    for path, how in ((p, h), (q, g)):
                        if path:
                            put(it, cfg, path, mk[how](path))
                    return cfg, nodes(c, cfg)
                name = f"user-defined {p} by {h}{f', then {q} by {g}' if q else ''}"
                o = c.run1(go)
                judge(c, name, o)
                if not o.exc:
                    paths = {x for x, _ in o.value[1]}
                    c.ob('tree', f"{name}: every part", {*PATHS, 'fem.branch.folders', 'fem.method'} <= paths, f"{sorted(paths)}")
                n += 1
        c.need('nested options of the user', n, 200)
    for f in (single, double, opened, deep):
        c.part(f)


# ------------------------------------------------------------------ C21

def aliases_of(it, cls):
    return [it.getattr(cls, 'name')] + list(it.to_list(it.getattr(cls, 'aliases')))


def c21(c):
    it = c.it
    HOW1 = (how_attr, how_item, how_dotted, how_nested, how_keyword)

    def kind(cfg, path):
        return get(it, cfg, path).cls

    def names(c):
        """every name selects its class, from whatever was selected before, however it is passed"""
        n = 0
        for key, (first, options) in OPTIONS.items():
            path = key.strip()
            spell = [(x, c.api(mod, cls)) for cls, (mod, ns) in options.items() for x in ns]
            for (a, ca), (b, cb), how in itertools.product([(None, None)] + spell, spell, HOW1):
                if how is not how_attr and a != spell[0][0]:
                    continue

                def go(it):
                    cfg = fresh(c, first)
                    if a is not None:
                        put(it, cfg, path, a)
                    before = get(it, cfg, path)
                    how(it, cfg, path, b)
                    return before, get(it, cfg, path)
                name = f"{path}: {'default' if a is None else a}, then {b} by {how_name(how)}"
                for o in c.explore(go):
                    if o.exc:
                        c.ob('selected by name', name, False, str(o.exc), o.exc.where)
                        continue
                    before, after = o.value
                    c.ob('selected by name', name, after.cls is cb, f"{after.cls.name} is in place", sample=after.cls.name)
                n += 1
            # by instance
            for (a, ca), (b, cb) in itertools.product(spell, spell):
                def go(it):
                    cfg = fresh(c, first)
                    put(it, cfg, path, a)
                    new = it.call(cb, [])
                    put(it, cfg, path, new)
                    return new, get(it, cfg, path)
                for o in c.explore(go):
                    c.ob('selected by instance', f"{path}: {a}, then instance of {b}", not o.exc and o.value[0] is o.value[1],
                         str(o.exc or 'another object is in place'))
                n += 1
        c.need('selections', n, 400)

    def trees(c):
        """the registered names are those of the classes, in lower case, and none names two options"""
        n = 0
        for key, (first, options) in OPTIONS.items():
            if key != key.strip():
                continue

            def go(it):
                return it.getattr(get(it, fresh(c, first), key).cls, 'tree')
            for o in c.explore(go):
                if o.exc:
                    c.ob('names', key, False, str(o.exc), o.exc.where)
                    continue
                tree = {k: it.getitem(o.value, k) for k in it.iterate(o.value)}
                for k, cls in tree.items():
                    own = [x.lower() for x in aliases_of(it, cls)]
                    c.ob('names', f"{key}: {k}", k in own and k == k.lower(), f"names {cls.name}, whose names are {own}")
                    for x in own:
                        c.ob('names', f"{key}: {cls.name} is reachable by {x}", tree.get(x) is cls, f"{tree.get(x)}")
                    n += 1
                for cls, (mod, ns) in options.items():
                    for x in ns:
                        c.ob('documented names', f"{key}: {x}", tree.get(x) is c.api(mod, cls), f"{tree.get(x)}")
        c.need('registered names', n, 25)

    def unknown(c):
        """unknown names are refused, naming every alternative"""
        for key, (first, options) in OPTIONS.items():
            path = key.strip()
            for bad in ('nonsense', '', ' ', path, 'interfaceconfiguration_'):
                def go(it):
                    cfg = fresh(c, first)
                    before = get(it, cfg, path)
                    try:
                        put(it, cfg, path, bad)
                        return None, False
                    except PyEx as ex:
                        return ex, get(it, cfg, path) is before
                for o in c.explore(go):
                    if o.exc:
                        c.ob('unknown', f"{path} = {bad!r}", False, str(o.exc), o.exc.where)
                        continue
                    ex, same = o.value
                    msg = str(ex.value.d.get('args', '')) if ex else ''
                    c.ob('unknown', f"{path} = {bad!r} raises TypeError", ex is not None and ex.value.cls.name == 'TypeError', f"{ex or 'accepted'}")
                    lost = [x for cls, (m, ns) in options.items() for x in ns if x not in msg]
                    c.ob('alternatives', f"{path} = {bad!r}", ex is not None and not lost, f"{lost} not named in {msg!r}")
                    c.ob('unchanged', f"{path} = {bad!r}", same, 'the option changed')

    def duplicates(c):
        """a second option of the same name is refused, in any spelling, as name or alias; a new one can be selected"""
        n = 0
        for key, (first, options) in OPTIONS.items():
            if key != key.strip():
                continue
            path = key
            spell = [(x, c.api(mod, cls)) for cls, (mod, ns) in options.items() for x in ns]
            for x, cls in spell:
                for what, ns in (('name', {'name': x}), ('NAME', {'name': x.upper()}), ('alias', {'name': 'brand_new', 'aliases': ('other_new', x)}),
                                 ('ALIAS', {'name': 'brand_new', 'aliases': (x.upper(),)})):
                    def go(it):
                        tree = it.getattr(cls, 'tree')
                        root = it.getattr(tree, 'root')
                        try:
                            it.make_class('Duplicate', [root], dict(ns), 'user', {})
                            ex = None
                        except PyEx as e:
                            ex = e
                        now = it.getitem(tree, x)
                        return ex, now
                    for o in c.explore(go):
                        if o.exc:
                            c.ob('duplicates', f"{path}: {x} as {what}", False, str(o.exc), o.exc.where)
                            continue
                        ex, now = o.value
                        c.ob('duplicates', f"{path}: {x} as {what} raises ValueError", ex is not None and ex.value.cls.name == 'ValueError', f"{ex or 'accepted'}")
                        c.ob('duplicates', f"{path}: {x} as {what} keeps the option", now is cls, f"{now}")
                    n += 1

            def go(it):
                root = it.getattr(it.getattr(spell[0][1], 'tree'), 'root')
                new = it.make_class('Fresh', [root], {'name': 'Brand_New', 'aliases': ('BN',)}, 'user', {})
                out = []
                for k in ('brand_new', 'bn'):
                    cfg = fresh(c, first)
                    put(it, cfg, path, k)
                    out.append(get(it, cfg, path).cls is new)
                elsewhere = []
                for other, (f2, opts2) in OPTIONS.items():
                    cls2, (mod2, _) = next(iter(opts2.items()))
                    t = it.getattr(c.api(mod2, cls2), 'tree')
                    if it.getattr(t, 'root') is not root and it.contains(t, 'brand_new'):
                        elsewhere.append(other)
                return out, elsewhere
            for o in c.explore(go):
                c.ob('new options', path, not o.exc and all(o.value[0]) and not o.value[1], str(o.exc or o.value))
        c.need('duplicates', n, 80)
    def derived(c):
        """an option derived from another one and the other one are told apart by their names, whichever is in force"""
        n = 0
        for key, (first, options) in OPTIONS.items():
            path = key.strip()
            for cls, (mod, ns) in options.items():
                others = [x for o, (_, v) in options.items() if o != cls for x in v[:1]]

                def go(it):
                    base = c.api(mod, cls)
                    one = it.make_class('Derived', [base], {'name': 'Derived_New', 'aliases': ('dn',)}, 'user', {})
                    two = it.make_class('Further', [one], {'name': 'further_new', 'aliases': ()}, 'user', {})
                    known = {'derived_new': one, 'dn': one, 'further_new': two, **{x: base for x in ns}, **{x: None for x in others}}
                    res = []
                    for seq in itertools.permutations(known, 2):
                        cfg = fresh(c, first)
                        for x in seq:
                            before = get(it, cfg, path)
                            put(it, cfg, path, x)
                        now = get(it, cfg, path)
                        res.append((seq, known[seq[-1]] is None or now.cls is known[seq[-1]], now.cls.name,
                                    known[seq[0]] is not known[seq[1]] or known[seq[0]] is None or now is before))
                    return res
                o = c.run1(go)
                if o.exc:
                    c.ob('derived', f"{path}: {cls}", False, str(o.exc), o.exc.where)
                    continue
                for seq, ok, name, kept in o.value:
                    c.ob('derived', f"{path}: {cls}: {' then '.join(seq)}", ok, f"{name} is in place")
                    c.ob('derived', f"{path}: {cls}: {' then '.join(seq)} keeps the option in force", kept, 'a new one is in place')
                    n += 1
        c.need('derived options', n, 300)
    for f in (names, trees, unknown, duplicates, derived):
        c.part(f)


# ------------------------------------------------------------------ C22

BCLASSES = {'farfield': 'FarField', 'outflow': 'Outflow', 'grcbc': 'GRCBC', 'nscbc': 'NSCBC', 'inviscid_wall': 'InviscidWall',
            'symmetry': 'Symmetry', 'isothermal_wall': 'IsothermalWall', 'adiabatic_wall': 'AdiabaticWall', 'periodic': 'Periodic'}
DCLASSES = {'initial': 'Initial', 'force': 'Force', 'perturbation': 'Perturbation', 'sponge_layer': 'SpongeLayer',
            'psponge_layer': 'PSpongeLayer', 'grid_deformation': 'GridDeformation', 'pml': 'PML'}
# region names: prefixes of each other, characters special in patterns, repeated in the mesh's list
REGIONS = ('wall', 'wall2', 'in.let', 'wall', 'default')


def c22(c):
    it = c.it

    def cls_of(k, bnd):
        return c.api(COMP, (BCLASSES if bnd else DCLASSES)[k])

    def assignments(bnd):
        """(text, pattern, condition, slot): slot names an object assigned again later"""
        a, b = ('farfield', 'periodic') if bnd else ('sponge_layer', 'initial')
        sub = 'grcbc' if bnd else 'psponge_layer'
        pats = [('wall', ('wall',)), ('wall|in.let', ('wall', 'in.let')), ('in.let|wall', ('in.let', 'wall')),
                (['wall2', 'default'], ('wall2', 'default')), (('default',), ('default',)),
                ('wall|nowhere', ('wall',)), ('inXlet', ()), ('wal', ()), ('wall2|wall|in.let|default', ('wall2', 'wall', 'in.let', 'default'))]
        for p, regs in pats:
            for k in (a, b, sub):
                yield p, regs, 'str', k
            yield p, regs, 'obj', a
            yield p, regs, 'new', a

    def exact(pairs):
        return [(p, id(x)) for p, x in pairs]

    def judge(c, bnd, steps):
        """after the steps every query agrees with the assignments made"""
        who = 'bcs' if bnd else 'dcs'
        name = f"{who}: " + '; '.join(f"{p if isinstance(p, str) else list(p)} <- {how} {k}" for p, _, how, k in steps)

        def go(it):
            m = make_mesh(2, boundaries=REGIONS) if bnd else make_mesh(2, materials=REGIONS)
            cfg = fresh(c, mesh=m)
            cs = it.getattr(cfg, who)
            want = {r: [] for r in dict.fromkeys(REGIONS)}
            objs = {}
            logs = []
            for p, regs, how, k in steps:
                x = k
                if how != 'str':
                    x = objs.get(k) if how == 'obj' else None
                    if x is None:
                        x = it.call(cls_of(k, bnd), [])
                    if how == 'obj':
                        objs[k] = x
                n0 = len(it.events)
                it.setitem(cs, p, x)
                logs.append([str(a) for e in it.events[n0:] if e[0] == 'log' and e[1] in ('warning', 'error', 'critical') for a in e[3]])
                for r in regs:
                    want[r].append(x if how != 'str' else k)
            return cfg, cs, want, logs
        for o in c.explore(go):
            if o.exc:
                c.ob('assigned', name, False, str(o.exc), o.exc.where)
                continue
            cfg, cs, want, logs = o.value
            got = {r: it.to_list(it.getitem(cs, r)) for r in it.iterate(cs)}
            ok = list(got) == list(want) and all(
                len(got[r]) == len(want[r]) and all(x is w if isinstance(w, IObj) else x.cls is cls_of(w, bnd) for x, w in zip(got[r], want[r]))
                for r in want)
            c.ob('assigned', name, ok, f"in force: { {r: [x.cls.name for x in v] for r, v in got.items()} }")
            if not ok:
                continue
            # one object per assignment
            first = {}
            for r in want:
                for x, w in zip(got[r], want[r]):
                    first.setdefault(id(x), x)
            steps_of = [[got[r] for r in regs] for _, regs, _, _ in steps]
            m = it.getattr(cfg, 'mesh')
            bad = [x.cls.name for x in first.values() if it.getattr(x, 'mesh') is not m]
            c.ob('mesh', name, not bad, f"{bad} do not know the mesh")
            # unknown regions are reported
            for (p, regs, _, _), log in zip(steps, logs):
                parts = p.split('|') if isinstance(p, str) else list(p)
                for miss in (x for x in dict.fromkeys(parts) if x not in REGIONS):
                    c.ob('reported', f"{name}: {miss}", any(f"'{miss}'" in t for t in log), f"warnings: {log}")
                c.ob('reported', f"{name}: nothing else", len([t for t in log if 'not exist' in t]) == len([x for x in dict.fromkeys(parts) if x not in REGIONS]), f"{log}")
            # queries
            types = {k: cls_of(k, bnd) for k in (BCLASSES if bnd else DCLASSES)}
            base = c.api('dream.mesh', 'Condition')
            for k, t in [*types.items(), ('any', base)]:
                has = any(x.cls.issub(t) for v in got.values() for x in v)
                for q in ((t,) if k == 'any' else (t, k)):
                    r = it.call(it.getattr(cs, 'has_condition'), [q])
                    c.ob('has', f"{name}: {k}{' by name' if q is k else ''}", it.truth(r) is has, f"{r!r}")
                    for meth in ('get_conditions', 'to_pattern'):
                        r = it.call(it.getattr(cs, meth), [q])
                        if meth == 'to_pattern':
                            pairs = [(p, it.getitem(r, p)) for p in it.iterate(r)]
                        else:
                            pairs = [tuple(it.to_list(x)) for x in it.to_list(r)]
                        full = []
                        for x in first.values():
                            if x.cls.issub(t):
                                full.append((tuple(r for r in got if any(y is x for y in got[r])), x))
                        have = [(tuple(p.split('|')), x) for p, x in pairs]
                        if meth == 'to_pattern' and len({p for p, _ in full}) < len(full):
                            continue        # different conditions on the same regions cannot be told apart by pattern
                        ok = len(have) == len(full) and all(any(set(p) == set(P) and len(p) == len(P) and x is X for P, X in full) for p, x in have)
                        c.ob(meth, f"{name}: {k}{' by name' if q is k else ''}", ok, f"{[(p, x.cls.name) for p, x in have]}")
                regs = [r for r in got if any(x.cls.issub(t) for x in got[r])]
                r = it.to_list(it.call(it.getattr(cs, 'get_region'), [t]))
                c.ob('get_region', f"{name}: {k}", r == regs, f"{r}")
                r = it.call(it.getattr(cs, 'get_region'), [t], {'as_pattern': True})
                c.ob('get_region', f"{name}: {k} as pattern", r == '|'.join(regs), f"{r!r}")
            ts = list(types.values())
            for s, t in ((ts[0], ts[-1]), (ts[1], ts[2])):
                regs = [r for r in got if any(x.cls.issub(s) or x.cls.issub(t) for x in got[r])]
                r = it.to_list(it.call(it.getattr(cs, 'get_region'), [s, t]))
                c.ob('get_region', f"{name}: {s.name} or {t.name}", r == regs, f"{r}")
            if bnd:
                per = types['periodic']
                lists = {'get_periodic_boundaries': [r for r in got if any(x.cls.issub(per) for x in got[r])],
                         'get_domain_boundaries': [r for r in got if got[r] and not any(x.cls.issub(per) for x in got[r])]}
                for meth, regs in lists.items():
                    r = it.to_list(it.call(it.getattr(cs, meth), []))
                    c.ob(meth, name, r == regs, f"{r}")
                    r = it.call(it.getattr(cs, meth), [True])
                    c.ob(meth, f"{name} as pattern", r == '|'.join(regs), f"{r!r}")
            else:
                sp, psp, gd = types['sponge_layer'], types['psponge_layer'], types['grid_deformation']
                for meth, test in (('get_psponge_layers', lambda k: k.issub(psp)), ('get_grid_deformations', lambda k: k.issub(gd)),
                                   ('get_sponge_layers', lambda k: k.issub(sp) and not k.issub(psp))):
                    r = it.call(it.getattr(cs, meth), [])
                    r = {k: it.getitem(r, k) for k in it.iterate(r)}
                    regs = {k: [x for x in v if test(x.cls)] for k, v in got.items()}
                    c.ob(meth, name, list(r) == [k for k in regs if regs[k]] and all(any(x is y for y in regs[k]) for k, x in r.items()), f"{r}")
            it.call(it.getattr(cs, 'clear'), [])
            c.ob('clear', name, {r: it.to_list(it.getitem(cs, r)) for r in it.iterate(cs)} == {r: [] for r in want}, 'conditions are left')

    @sharded
    def sequences(c, bnd):
        steps = list(assignments(bnd))
        n = 0
        for s in steps:
            if c.turn():
                judge(c, bnd, [s])
                n += 1
        pairs = list(itertools.product(steps, steps))
        small = [s for s in steps if s[0] in ('wall|in.let', 'wall', 'wall2|wall|in.let|default')]
        pairs = pairs if c.tier == 'thorough' else list(itertools.product(small, small))
        for a, b in pairs:
            if c.turn():
                judge(c, bnd, [a, b])
                n += 1
        k = [s for s in small if s[2] != 'str' or s[3] in ('periodic', 'sponge_layer')]
        for t in itertools.product(k[:4] if c.tier != 'thorough' else k, repeat=3):
            if c.turn():
                judge(c, bnd, list(t))
                n += 1
        c.need(f"sequences of {'boundary' if bnd else 'domain'} conditions", n, 100)

    def options(c, bnd):
        """every documented name creates a new condition of its class; unknown names and objects are refused"""
        who = 'bcs' if bnd else 'dcs'
        for k, cls in (BCLASSES if bnd else DCLASSES).items():
            def go(it):
                cfg = fresh(c)
                cs = it.getattr(cfg, who)
                r = list(it.iterate(cs))
                for x in r:
                    it.setitem(cs, x, k)
                return [it.to_list(it.getitem(cs, x)) for x in r]
            for o in c.explore(go):
                if o.exc:
                    c.ob('named condition', f"{who}: {k}", False, str(o.exc), o.exc.where)
                    continue
                flat = [x for v in o.value for x in v]
                c.ob('named condition', f"{who}: {k}", all(len(v) == 1 for v in o.value) and all(x.cls is cls_of(k, bnd) for x in flat)
                     and len({id(x) for x in flat}) == len(flat), f"{[x.cls.name for x in flat]}")
        for bad, exc in (('nonsense', 'ValueError'), ('', 'ValueError'), (3, 'TypeError'), (None, 'TypeError'), ({}, 'TypeError'),
                         ('class', 'TypeError'), ('initial' if bnd else 'farfield', 'ValueError')):
            def go(it):
                cfg = fresh(c)
                cs = it.getattr(cfg, who)
                r = list(it.iterate(cs))
                try:
                    it.setitem(cs, '|'.join(r), cls_of('periodic' if bnd else 'initial', bnd) if bad == 'class' else bad)
                    ex = None
                except PyEx as e:
                    ex = e
                return ex, [it.to_list(it.getitem(cs, x)) for x in r]
            for o in c.explore(go):
                if o.exc:
                    c.ob('refused', f"{who}: {bad!r}", False, str(o.exc), o.exc.where)
                    continue
                ex, left = o.value
                c.ob('refused', f"{who}: {bad!r} raises {exc}", ex is not None and ex.value.cls.name == exc, f"{ex or 'accepted'}")
                c.ob('refused', f"{who}: {bad!r} assigns nothing", not any(left), f"{left}")

    def cleared(c, bnd):
        """assignments after clearing are in force on their own regions only; a condition knows the mesh of its latest assignment"""
        who = 'bcs' if bnd else 'dcs'
        a, b = ('farfield', 'periodic') if bnd else ('sponge_layer', 'initial')

        def new_mesh():
            return make_mesh(2, boundaries=REGIONS) if bnd else make_mesh(2, materials=REGIONS)

        def lists(cs):
            return {r: it.to_list(it.getitem(cs, r)) for r in it.iterate(cs)}
        names = list(dict.fromkeys(REGIONS))
        steps = [('wall|in.let', a), ('default', b), ('wall', a), (['wall2', 'default'], a)]
        for k, (first, second, rounds) in enumerate(itertools.product(steps, steps, (1, 2))):
            def go(it):
                cs = it.getattr(fresh(c, mesh=new_mesh()), who)
                for _ in range(rounds):
                    it.setitem(cs, first[0], it.call(cls_of(first[1], bnd), []))
                    it.call(it.getattr(cs, 'clear'), [])
                x = it.call(cls_of(second[1], bnd), [])
                it.setitem(cs, second[0], x)
                r = it.call(it.getattr(cs, 'get_conditions'), [])
                return lists(cs), x, [tuple(it.to_list(p)) for p in it.to_list(r)]
            name = f"{who}: {first[0]} <- {first[1]}, cleared{' twice' if rounds == 2 else ''}, {second[0]} <- {second[1]}"
            for o in c.explore(go):
                if o.exc:
                    c.ob('clear', name, False, str(o.exc), o.exc.where)
                    continue
                got, x, conds = o.value
                regs = second[0].split('|') if isinstance(second[0], str) else second[0]
                c.ob('clear', name, list(got) == names and all(len(v) == (r in regs) and all(y is x for y in v) for r, v in got.items()),
                     f"in force: { {r: [y.cls.name for y in v] for r, v in got.items()} }")
                c.ob('clear', f"{name}: queries", len(conds) == 1 and set(conds[0][0].split('|')) == set(regs) and conds[0][1] is x, f"{conds}")

        def moved(it):
            out = []
            for k in (BCLASSES if bnd else DCLASSES):
                one, two = fresh(c, mesh=new_mesh()), fresh(c, mesh=new_mesh())
                x = it.call(cls_of(k, bnd), [])
                seen = []
                for cfg in (one, two, one):
                    it.setitem(it.getattr(cfg, who), 'wall', x)
                    seen.append(it.getattr(x, 'mesh') is it.getattr(cfg, 'mesh'))
                out.append((k, seen, [[len(v) for v in lists(it.getattr(cfg, who)).values()] for cfg in (one, two)]))
            return out
        o = c.run1(moved)
        if o.exc:
            c.ob('mesh', f"{who}: condition of another solver", False, str(o.exc), o.exc.where)
            return
        for k, seen, counts in o.value:
            c.ob('mesh', f"{who}: {k} assigned to two solvers in turn", all(seen), f"knows the mesh of its latest assignment: {seen}")
            c.ob('assigned', f"{who}: {k} assigned to two solvers in turn", counts == [[2, 0, 0, 0], [1, 0, 0, 0]], f"{counts}")

    for b in (True, False):
        c.part(sequences, b)
        c.part(options, b)
        c.part(cleared, b)


# ------------------------------------------------------------------ C20

def plain(c, v):
    """value of a setting without the identity of its objects"""
    it = c.it
    if isinstance(v, F.Param):
        e = F.to_e(v.val)
        return ('param', F.simplify_const(e)) if e is not None else ('param', repr(v.val))
    if isinstance(v, F.Num):
        return ('int' if v.integer else 'float', F.simplify_const(v.e))
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, int):
        return ('int', F.simplify_const(N(v)))
    if isinstance(v, float):
        return ('float', F.simplify_const(N(repr(v))))
    if isinstance(v, F.Cf):
        return ('cf', tuple(v.dims), tuple(F.simplify_const(e) for e in v.e))
    if isinstance(v, PathM):
        return ('path', v.text())
    if isinstance(v, dict):
        return ('dict', tuple((k, plain(c, x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(plain(c, x) for x in v))
    if isinstance(v, IObj):
        if is_config(v, config_cls(c)):
            return ('option', v.cls.name, tuple((k, plain(c, x)) for k, x in v.d.items() if k not in ('cfg', 'mesh')))
        return ('object', v.cls.name, tuple((k, plain(c, x)) for k, x in v.d.items()))
    return ('ref', id(v))


def shape(c, cfg):
    """path -> option class or plain value, of every readable setting"""
    it, base, out = c.it, config_cls(c), {}

    def walk(path, o):
        for k in list(it.iterate(o)):
            try:
                v = it.getitem(o, k)
            except PyEx:
                continue
            p = f"{path}.{k}".lstrip('.')
            if is_config(v, base):
                out[p] = ('option', v.cls.name)
                walk(p, v)
            else:
                out[p] = plain(c, v)
    walk('', cfg)
    return out


def unlike(a, b):
    d = [f"{k}: {a.get(k)!r} / {b.get(k)!r}" for k in {**a, **b} if a.get(k, MISSING) != b.get(k, MISSING)]
    return '; '.join(d)[:300]


def tree_of(it, cfg):
    t = it.call(it.getattr(cfg, 'to_tree'), [])
    return {k: it.getitem(t, k) for k in it.iterate(t)}


OFF = {f"io.{s}" for s in STREAMS}


def scenarios():
    """ordered settings (dotted), options first"""
    out = {}
    for path, (opts, good, _) in SETTINGS.items():
        for v, want in good or ():
            if not isinstance(want, A.E) and v is not None:
                out[f"{path} = {v!r}"] = {**opts, path: v}
    for key, (first, options) in OPTIONS.items():
        for cls, (mod, names) in options.items():
            for x in names:
                out[f"{key} = {x} in {list(first.values())}"] = {**first, key.strip(): x}
    for name, (cls, own) in STREAMS.items():
        out[f"io.{name} on"] = {f"io.{name}": True}
        out[f"io.{name} = {own}"] = {f"io.{name}": own}
    out['io.log off'] = {'io.log': False}
    out['everything, transient'] = {
        'time': 'transient', 'time.scheme': 'bdf2', 'time.timer.interval': (1, 2.5), 'time.timer.step': 0.5, 'fem.order': 4,
        'fem.mixed_method': 'strain_heat', 'dynamic_viscosity': 'sutherland', 'dynamic_viscosity.measurement_temperature': 100,
        'mach_number': 0.5, 'reynolds_number': 1000, 'prandtl_number': 1, 'riemann_solver': 'hllem', 'riemann_solver.theta_0': 0.25,
        'scaling': 'acoustic', 'equation_of_state.heat_capacity_ratio': 1.2, 'linear_solver': 'pardiso', 'nonlinear_solver': 'pardiso',
        'nonlinear_solver.max_iterations': 5, 'nonlinear_solver.method.damping_factor': 0.5, 'optimizations.static_condensation': True,
        'optimizations.compile.realcompile': False, 'optimizations.bonus_int_order.vol': 3, 'info': {'author': 'me'},
        'io.gfu': True, 'io.gfu.rate': 3, 'io.gfu.filename': 'state', 'io.vtk': True, 'io.vtk.rate': 7, 'io.vtk.subdivision': 1,
        'io.sensor': True, 'io.sensor.to_csv': False, 'io.settings': True, 'io.settings.pickle': False, 'io.ngsmesh': True,
        'io.folders.root': '/data', 'io.folders.states': 's', 'io.log.to_terminal': False}
    for tag, f in (('tiny', lambda k: (k + 1) * 1.25e-13), ('many digits', lambda k: 1.0123456789012345 + k / 7),
                   ('huge', lambda k: (k + 2) * 1.5e17)):
        f = iter([f(k) for k in range(16)]).__next__
        out[f"{tag} values"] = {
            'time': 'transient', 'time.timer.interval': (0.0, f()), 'time.timer.step': f(), 'time.timer.t': f(),
            'dynamic_viscosity': 'sutherland', 'dynamic_viscosity.measurement_temperature': f(),
            'dynamic_viscosity.measurement_viscosity': f(), 'mach_number': f(), 'reynolds_number': f(), 'prandtl_number': f(),
            'riemann_solver': 'hllem', 'riemann_solver.theta_0': 1.25e-13 if tag == 'tiny' else 0.0123456789012345,
            'equation_of_state.heat_capacity_ratio': 1 + f() if tag == 'tiny' else f(),
            'nonlinear_solver.method.damping_factor': f(), 'nonlinear_solver.convergence_criterion': f(), 'info': {'value': f()}}
        out[f"{tag} values, pseudo time"] = {'time': 'pseudo', 'time.max_time_step': f(), 'time.timer.step': f()}
    out['everything, pseudo time'] = {
        'time': 'pseudo', 'time.max_time_step': 2.0, 'time.increment_at': 3, 'time.increment_factor': 4, 'time.scheme': 'bdf2',
        'time.timer.step': 0.25, 'io.folders': 'benchmark', 'dynamic_viscosity': 'constant', 'fem': 'conservative', 'fem.method': 'hdg',
        'fem.mixed_method': 'gradient', 'io.gfu': True, 'io.gfu.time_level_rate': 5, 'scaling': 'aeroacoustic', 'riemann_solver': 'roe'}
    return out


def spellings(flat):
    """the same settings passed in other ways: name -> argument of update"""
    keys = list(flat)
    yield 'dotted', dict(flat)
    yield 'dotted, own settings first', {k: flat[k] for k in sorted(keys, key=lambda k: -k.count('.'))}
    if not any('folders' in k for k in keys):
        yield 'dotted, reversed', {k: flat[k] for k in reversed(keys)}

    def nest(d):
        """nested dictionaries wherever the key is not an option itself"""
        out = {}
        for k, v in d.items():
            h, _, r = k.partition('.')
            if not r:
                out[k] = v
            elif h not in d:
                out.setdefault(h, {})[r] = v
            else:
                h2, _, r2 = r.partition('.')
                if r2 and f"{h}.{h2}" not in d:
                    out.setdefault(f"{h}.{h2}", {})[r2] = v
                else:
                    out[k] = v
        return {k: nest(v) if isinstance(v, dict) and k not in d else v for k, v in out.items()}

    def half(d):
        out = {}
        for k, v in d.items():
            h, _, r = k.partition('.')
            if not r or h in d:
                out[k] = v
            else:
                out.setdefault(h, {})[r] = v
        return out
    yield 'nested', nest(flat)
    yield 'dotted in nested', half(flat)
    yield 'nested, reversed', dict(reversed(nest(flat).items()))


def c20(c):
    it = c.it
    SC = scenarios()

    def made(flat):
        cfg = fresh(c)
        for k, v in flat.items():
            put(it, cfg, k, v)
        return cfg

    @sharded
    def exported(c):
        """the exported tree names every readable setting with its plain value; applied to a fresh solver it restores them"""
        n = 0
        for name, flat in SC.items():
            if not c.turn():
                continue

            def go(it):
                cfg = made(flat)
                want = shape(c, cfg)
                tree = tree_of(it, cfg)
                res = {}
                for how in ('update(tree)', 'update(**tree)', 'update(tree) twice', 'constructor', 'reversed tree', 'over another solver'):
                    t = dict(tree)
                    if how == 'reversed tree' and any('folders' in k for k in flat):
                        continue
                    if how == 'reversed tree':
                        t = dict(reversed(t.items()))
                    if how == 'constructor':
                        new = it.call(c.api(COMP, 'CompressibleFlowSolver'), [make_mesh(2)], t)
                    else:
                        new = fresh(c)
                        if how == 'over another solver':
                            for k, v in {'time': 'pseudo', 'time.scheme': 'bdf2', 'fem.mixed_method': 'gradient', 'fem.order': 7,
                                         'riemann_solver': 'roe', 'mach_number': 2, 'scaling': 'aeroacoustic',
                                         'io.vtk': True, 'io.settings': True}.items():
                                put(it, new, k, v)
                        for _ in range(2 if 'twice' in how else 1):
                            if '**' in how:
                                it.call(it.getattr(new, 'update'), [], dict(t))
                            else:
                                it.call(it.getattr(new, 'update'), [t])
                    res[how] = (shape(c, new), tree_of(it, new), t)
                return want, tree, res
            for o in c.explore(go):
                if o.exc:
                    c.ob('round trip', name, False, str(o.exc), o.exc.where)
                    continue
                want, tree, res = o.value
                extra = {k: v for k, v in tree.items() if k not in want}
                c.ob('tree', name, all(k in tree for k in want) and all(v is False and k in OFF for k, v in extra.items()),
                     f"differs in {sorted(set(tree) ^ set(want))}")
                objs = [k for k, v in tree.items() if isinstance(v, (F.Param, PathM)) or is_config(v, config_cls(c))]
                c.ob('plain values', name, not objs, f"{objs} are objects")
                for how, (got, again, passed) in res.items():
                    c.ob('round trip', f"{name} by {how}", got == want, unlike(got, want), sample=f"{len(want)} settings")
                    p = {k: plain(c, v) for k, v in again.items()}
                    q = {k: plain(c, v) for k, v in tree.items()}
                    c.ob('round trip', f"{name} by {how}: exported again", p == q, unlike(p, q))
                    c.ob("caller's dictionary", f"{name} by {how}", sorted(passed) == sorted(tree), 'changed')
            n += 1
        c.need('exported configurations', n, 150)

    @sharded
    def spelled(c):
        """dotted and nested keys, in any order, mean the same as setting the attributes one by one, options first"""
        n = 0
        for name, flat in SC.items():
            if not c.turn():
                continue

            def go(it):
                want = shape(c, made(flat))
                res = {}
                for how, arg in spellings(flat):
                    for kw in ((False, True) if how in ('dotted', 'nested') else (False,)):
                        new = fresh(c)
                        before = plain(c, arg)
                        if kw:
                            it.call(it.getattr(new, 'update'), [], dict(arg))
                        else:
                            it.call(it.getattr(new, 'update'), [arg])
                        res[how + (' as keywords' if kw else '')] = (shape(c, new), before == plain(c, arg))
                return want, res
            for o in c.explore(go):
                if o.exc:
                    c.ob('spellings', name, False, str(o.exc), o.exc.where)
                    continue
                want, res = o.value
                for how, (got, same) in res.items():
                    c.ob('spellings', f"{name}, {how}", got == want, unlike(got, want))
                    c.ob("caller's dictionary", f"{name}, {how}", same, 'changed')
                    n += 1
        c.need('spellings', n, 900)

    def unknown(c):
        """keys the configuration does not have change nothing and raise nothing"""
        for bad in ({'nonsense': 3}, {'nonsense.more': 3}, {'fem.nonsense': 3}, {'fem': {'nonsense': 3}}, {'io.gfu.rate': 3},
                    {'io': {'vtk': {'rate': 3}}}, {}):
            def go(it):
                cfg = fresh(c)
                a = shape(c, cfg)
                it.call(it.getattr(cfg, 'update'), [bad])
                return a, shape(c, cfg)
            for o in c.explore(go):
                c.ob('unknown keys', f"{bad}", not o.exc and o.value[0] == o.value[1], str(o.exc or unlike(*o.value)))

            def go(it):
                cfg = fresh(c)
                it.call(it.getattr(cfg, 'update'), [{**bad, 'fem.order': 5, 'time': 'transient'}])
                return get(it, cfg, 'fem.order'), get(it, cfg, 'time').cls.name
            for o in c.explore(go):
                c.ob('unknown keys', f"{bad}: the others are applied", not o.exc and same_value(it, o.value[0], 5) and o.value[1] == 'TransientConfig', str(o.exc or o.value))
    def orders(c):
        """settings of conditions take effect whatever their order in one call, on new and on used objects"""
        w, st = F.Cf((A.declare('w', 'pos'),), ()), {'rho': 1, 'p': 2}
        cases = {
            ('dream.mesh', 'PSpongeLayer'): [{'high_order': 3, 'low_order': 1, 'order': 2, 'function': w}, {'high_order': 1, 'low_order': 1},
                                             {'high_order': 1, 'low_order': 0, 'target_state': st}, {'high_order': 7, 'low_order': 6},
                                             {'high_order': 0, 'low_order': 0}],
            ('dream.mesh', 'SpongeLayer'): [{'function': w, 'order': 2, 'target_state': st}, {'order': 0, 'target_state': st}],
            (FLOW, 'FarField'): [{'fields': st, 'identity_jacobian': False}, {'identity_jacobian': True, 'fields': {'rho': 2}}],
            (FLOW, 'GRCBC'): [{'fields': st, 'target': 'outflow', 'relaxation_factor': 0.5, 'tangential_relaxation': 0.25,
                               'is_viscous_fluxes': True}, {'target': 'farfield', 'relaxation_factor': (1, 2, 3, 4, 5)}],
            (FLOW, 'NSCBC'): [{'fields': st, 'target': 'mass_inflow', 'relaxation_factor': 0.5, 'length': 3}, {'length': 2, 'target': 'outflow'}]}
        n = 0
        for (mod, cls), sets in cases.items():
            for first, d in itertools.product([None, *sets], sets):
                keys = list(d)
                perms = list(itertools.permutations(keys)) if len(keys) < 4 else \
                    [keys, keys[::-1], *(keys[i:] + keys[:i] for i in range(1, len(keys))), *((b, a, *(k for k in keys if k not in (a, b)))
                                                                                          for a, b in itertools.combinations(keys, 2))]
                for perm in perms:
                    for how in ('keywords', 'dictionary') + (('constructor',) if first is None else ()):
                        arg = {k: d[k] for k in perm}

                        def go(it):
                            o = it.call(c.api(mod, cls), [], first or {})
                            if how == 'constructor':
                                o = it.call(c.api(mod, cls), [], arg)
                            elif how == 'keywords':
                                it.call(it.getattr(o, 'update'), [], arg)
                            else:
                                it.call(it.getattr(o, 'update'), [arg])
                            return [(k, get(it, o, k)) for k in {**(first or {}), **d}], list(arg) == list(perm)
                        name = f"{cls}: {' then '.join(perm)} = {[d[k] for k in perm if isinstance(d[k], int)]} by {how}" + \
                            (f" over {[v for v in first.values() if isinstance(v, int)]}" if first else '')
                        for o in c.explore(go):
                            n += 1
                            if o.exc:
                                c.ob('orders', name, False, str(o.exc), o.exc.where)
                                continue
                            vals, kept = o.value
                            c.ob("caller's dictionary", name, kept, 'changed')
                            for k, v in vals:
                                want = {**(first or {}), **d}[k]
                                if isinstance(want, (bool, int)) and k != 'relaxation_factor':
                                    c.ob('orders', f"{name}: {k}", same_value(it, v, want) or (isinstance(v, float) and v == want)
                                         or same_value(it, v, float(want)), f"{v!r} instead of {want!r}")
        c.need('orders of settings', n, 300)
    for f in (exported, spelled, unknown, orders):
        c.part(f)


# ------------------------------------------------------------------ C25

def c25(c):
    it = c.it
    SHARED = (Logger, Handler, Formatter)

    def state(o, seen=None):
        """every value and object reachable from a solver, apart from mesh, classes and the process-wide logger"""
        seen = seen if seen is not None else {}
        if isinstance(o, SHARED) or isinstance(o, (F.Mesh, IClass)):
            return ('shared',)
        if isinstance(o, IObj):
            if id(o) in seen:
                return ('again', id(o))
            seen[id(o)] = o
            return ('obj', id(o), o.cls.name, tuple((k, state(v, seen)) for k, v in o.d.items()))
        if isinstance(o, F.Param):
            seen[id(o)] = o
            return ('param', id(o), repr(F.to_e(o.val)) if o.val is not None else None)
        if isinstance(o, (dict, list)):
            if id(o) in seen:
                return ('again', id(o))
            seen[id(o)] = o
            if isinstance(o, list):
                return ('list', id(o), tuple(state(v, seen) for v in o))
            return ('dict', id(o), tuple((k if isinstance(k, (str, int)) else id(k), state(v, seen)) for k, v in o.items()))
        if isinstance(o, tuple):
            return ('tuple', tuple(state(v, seen) for v in o))
        if isinstance(o, F.Gf):
            seen[id(o)] = o
            return ('gf', id(o))
        if isinstance(o, PathM):
            return ('path', o.text())
        if isinstance(o, F.Cf):
            return ('cf', tuple(o.dims), o.e)
        if isinstance(o, F.Num):
            return ('num', o.e)
        if o is None or isinstance(o, (bool, int, float, str)):
            return (type(o).__name__, o)
        return ('ref', id(o))

    def reach(o):
        seen = {}
        state(o, seen)
        return seen

    def conditions(cfg):
        for who, k in (('bcs', 'farfield'), ('dcs', 'initial'), ('dcs', 'sponge_layer')):
            cs = it.getattr(cfg, who)
            it.setitem(cs, '|'.join(it.iterate(cs)), k)
            for x in {id(x): x for r in it.iterate(cs) for x in it.to_list(it.getitem(cs, r))}.values():
                if k in ('farfield', 'initial') and x.cls.name.lower() == k:
                    it.setattr(x, 'fields', {'rho': F.cf_of(it, 1)})

    def unconditions(cfg):
        conditions(cfg)
        for who in ('bcs', 'dcs'):
            it.call(it.getattr(it.getattr(cfg, who), 'clear'), [])

    def sensors(cfg):
        put(it, cfg, 'io.sensor', True)
        for kind in ('point', 'domain', 'boundary', 'domain_L2', 'boundary_L2'):
            put(it, cfg, f"io.sensor.{kind}", f"probe {kind}")
            x = it.getitem(get(it, cfg, f"io.sensor.{kind}"), f"probe {kind}")
            it.setattr(x, 'fields', {'p': F.cf_of(it, 1)})
            it.setattr(x, 'rate', 7)

    def vtk_fields(cfg):
        put(it, cfg, 'io.vtk', True)
        it.setitem(get(it, cfg, 'io.vtk.fields'), 'p', F.cf_of(it, 1))

    def info(cfg):
        it.setitem(get(it, cfg, 'info'), 'author', 'me')

    def parameters(cfg):
        put(it, cfg, 'dynamic_viscosity', 'constant')
        for p, v in (('mach_number', 0.7), ('reynolds_number', 9), ('prandtl_number', 2), ('equation_of_state.heat_capacity_ratio', 1.3)):
            it.call(it.getattr(get(it, cfg, p), 'Set'), [v])

    def dimensionful(cfg):
        d = get(it, cfg, 'scaling.dimensionful_values')
        it.setitem(d, 'temperature', 1)

    def doc(cfg):
        it.call(it.getattr(cfg, 'set_solver_documentation'), ['text'])

    def operations():
        for path, (opts, good, _) in SETTINGS.items():
            for v, _ in (good or ())[:2]:
                def op(cfg, opts=opts, path=path, v=v):
                    for k, x in opts.items():
                        put(it, cfg, k, x)
                    put(it, cfg, path, dict(v) if isinstance(v, dict) else v)
                yield f"{path} = {v!r}", op
        for name, path, first, h in selections(c):
            def op(cfg, first=first, h=h):
                for k, x in first.items():
                    put(it, cfg, k, x)
                h(cfg)
            yield name, op
        for f in (conditions, unconditions, sensors, vtk_fields, info, parameters, dimensionful, doc):
            yield f.__name__, f

    @sharded
    def separate(c):
        n = 0
        for name, op in operations():
            for same in (True, False):
                if not c.turn():
                    continue

                def go(it):
                    m = make_mesh(2)
                    one, two = fresh(c, mesh=m), fresh(c, mesh=m if same else make_mesh(2))
                    first = shape(c, fresh(c))
                    a = state(two)
                    op(one)
                    b = state(two)
                    last = shape(c, fresh(c))
                    op(two)
                    x, y = reach(one), reach(two)
                    return differs(a, b), unlike(first, last), [v for i, v in x.items() if i in y]
                who = f"{name}{', same mesh' if same else ''}"
                for o in c.explore(go):
                    if o.exc:
                        c.ob('isolated', who, False, str(o.exc), o.exc.where)
                        continue
                    diff, later, both = o.value
                    c.ob('isolated', who, diff is None, f"the other solver changed: {diff}")
                    c.ob('defaults', who, not later, f"later solvers differ: {later}")
                    c.ob('no common objects', who, not both, f"both solvers hold {both[:3]!r}")
                n += 1
        c.need('operations', n, 400)

    def instances(c):
        """objects made outside a solver: conditions, sensors and options never share state with others of their class"""
        n = 0
        objs = [(m, k) for (m, k) in CONDITIONS] + [(mod, cls) for _, (f, o) in OPTIONS.items() for cls, (mod, ns) in o.items()]
        objs += [('dream.io', k) for k in ('DomainSensor', 'BoundarySensor', 'PointSensor', 'DomainL2Sensor', 'BoundaryL2Sensor')]
        objs += [(mod, cls) for _, mod, cls, _ in UNIQUE.values()]
        for mod, cls in dict.fromkeys(objs):
            def make():
                kw = {'sensor_name': 'probe'} if 'Sensor' in cls else {}
                return it.call(c.api(mod, cls), [], kw)

            def go(it):
                a, b = make(), make()
                x, y = reach(a), reach(b)
                return [v for i, v in x.items() if i in y]
            for o in c.explore(go):
                c.ob('no common objects', f"two {cls} objects", not o.exc and not o.value, str(o.exc or f"both hold {o.value[:3]!r}"))
            n += 1
        c.need('classes', n, 40)

    def containers(c):
        """flow fields made from one another are independent"""
        ff = c.api(COMP, 'flowfields')

        def go(it):
            a = it.call(ff, [], {'rho': F.cf_of(it, 1)})
            b = it.call(ff, [], {})
            d = it.call(ff, [a])
            it.setattr(a, 'p', F.cf_of(it, 2))
            return [sorted(it.iterate(x)) for x in (b, d)]
        for o in c.explore(go):
            c.ob('containers', 'flowfields', not o.exc and o.value == [[], ['density']], str(o.exc or o.value))
    def handed(c):
        """a value given to two solvers, or read from one and given to the other, is not shared by them"""
        n = 0
        fields = lambda: it.call(c.api(COMP, 'flowfields'), [], {'rho': F.cf_of(it, 1)})

        def at(path, opts=()):
            return (path, dict(opts), lambda cfg, v: put(it, cfg, path, v), lambda cfg: get(it, cfg, path))

        def sensor(kind):
            def obj(cfg):
                put(it, cfg, f"io.sensor.{kind}", 'probe')
                return it.getitem(get(it, cfg, f"io.sensor.{kind}"), 'probe')
            made = {}
            return (f"io.sensor.{kind} fields", {'io.sensor': True},
                    lambda cfg, v: (made.__setitem__(id(cfg), obj(cfg)), it.setattr(made[id(cfg)], 'fields', v)),
                    lambda cfg: it.getattr(made[id(cfg)], 'fields'))

        def condition(who, cls, attr):
            def set_(cfg, v):
                cs = it.getattr(cfg, who)
                x = it.call(c.api(COMP, cls), [])
                it.setattr(x, attr, v)
                it.setitem(cs, next(iter(it.iterate(cs))), x)

            def get_(cfg):
                cs = it.getattr(cfg, who)
                x = [x for x in it.to_list(it.getitem(cs, next(iter(it.iterate(cs))))) if x.cls.name == cls][0]
                return it.getattr(x, attr)
            return (f"{cls}.{attr}", {}, set_, get_)
        # the user's own `info` and the states of domain conditions are kept as given: of any type, they are the user's
        cases = [(*at('scaling.dimensionful_values'), lambda: {'temperature': 300})]
        cases += [(*at('io.vtk.fields', {'io.vtk': True}), fields)]
        cases += [(*sensor(k), fields) for k in ('point', 'domain', 'boundary', 'domain_L2', 'boundary_L2')]
        cases += [(*condition(who, cls, attr), fields) for who, cls, attr in (
            ('bcs', 'FarField', 'fields'), ('bcs', 'Outflow', 'fields'), ('bcs', 'NSCBC', 'fields'), ('bcs', 'GRCBC', 'fields'),
            ('bcs', 'IsothermalWall', 'fields'))]
        for p, o in (('mach_number', {}), ('reynolds_number', VISCOUS), ('prandtl_number', VISCOUS), ('equation_of_state.heat_capacity_ratio', {}),
                     ('time.timer.step', TRANSIENT)):
            cases.append((*at(p, o), lambda: 0.5 if p != 'equation_of_state.heat_capacity_ratio' else 1.5))
            cases.append((f"{p}, a parameter of the caller", *at(p, o)[1:], lambda: it.call(c.api('ngsolve', 'Parameter'), [1.5])))
        for name, opts, set_, get_, make in cases:
            for how in ('the same object', 'read from the other'):
                def go(it):
                    m = make_mesh(2)
                    one, two = fresh(c, opts, mesh=m), fresh(c, opts, mesh=m)
                    v = make()
                    set_(one, v)
                    a = state(one)
                    set_(two, v if how == 'the same object' else get_(one))
                    b = state(one)
                    x, y = reach(one), reach(two)
                    held = [] if isinstance(v, (int, float)) or how != 'the same object' else [1 for r in (x, y) if id(v) in r]
                    return differs(a, b), [v for i, v in x.items() if i in y], held
                who = f"{name}, {how}"
                for o in c.explore(go):
                    if o.exc:
                        c.ob('handed over', who, False, str(o.exc), o.exc.where)
                        continue
                    diff, both, held = o.value
                    c.ob('handed over', who, not both, f"both solvers hold {both[:3]!r}")
                    c.ob('isolated', who, diff is None, f"the first solver changed: {diff}")
                    c.ob('handed over', f"{who}: a copy is kept", not held, 'the object of the caller is kept')
                n += 1
        c.need('values given to two solvers', n, 44)
    for f in (separate, instances, containers, handed):
        c.part(f)


RULES = {'C18': c18, 'C19': c19, 'C20': c20, 'C21': c21, 'C22': c22, 'C25': c25}
