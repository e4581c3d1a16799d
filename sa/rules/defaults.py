"""C35: a configuration nobody has set anything on, and one that was cleared, is the documented one."""
from __future__ import annotations

import itertools

from .. import alg as A
from .. import fields as F
from ..check import sharded
from ..interp import PyEx
from .config_ import (SETTINGS, CONDITIONS, REFUSED, RELAX, VISCOUS, TRANSIENT, PSEUDO, HOWS, FLOW, io, fresh, get, put, shape, unlike,
                      same_value, how_name, scenarios, plain)

N = A.num
STAYS = object()    # a map that moves nothing
NO = object()       # reading it is refused

# path -> (options first, value)
DOCUMENTED = {
    'mach_number': ({}, 0.3), 'reynolds_number': (VISCOUS, 150), 'prandtl_number': (VISCOUS, 0.72),
    'equation_of_state.heat_capacity_ratio': ({}, 1.4), 'fem.order': ({}, 2), 'info': ({}, {}),
    'scaling.dimensionful_values': ({}, {'length': 1, 'density': 1.293, 'velocity': 1, 'speed_of_sound': 343, 'temperature': 293.15, 'pressure': 101325}),
    'dynamic_viscosity.measurement_temperature': ({'dynamic_viscosity': 'sutherland'}, 110.4),
    'dynamic_viscosity.measurement_viscosity': ({'dynamic_viscosity': 'sutherland'}, 1.716e-5),
    'riemann_solver.theta_0': ({'riemann_solver': 'hllem'}, 1e-8),
    'time.timer.interval': (TRANSIENT, (0.0, 1.0)), 'time.timer.step': (TRANSIENT, 1e-4), 'time.timer.t': (TRANSIENT, 0.0),
    'time.max_time_step': (PSEUDO, 1.0), 'time.increment_at': (PSEUDO, 10), 'time.increment_factor': (PSEUDO, 10),
    'time.timer.step ': (PSEUDO, 1e-4),
    'nonlinear_solver.max_iterations': ({}, 10), 'nonlinear_solver.convergence_criterion': ({}, 1e-8),
    'nonlinear_solver.method.damping_factor': ({}, 1.0),
    'optimizations.static_condensation': ({}, False), 'optimizations.compile.realcompile': ({}, True),
    'optimizations.compile.wait': ({}, False), 'optimizations.compile.keep_files': ({}, False),
    **{f"optimizations.bonus_int_order.{k}": ({}, 0) for k in ('vol', 'bnd', 'bbnd', 'bbbnd')},
    'io.folders.root': ({}, '/<cwd>'), 'io.folders.states': ({}, '/<cwd>/states'), 'io.folders.vtk': ({}, '/<cwd>/vtk'),
    'io.folders.settings': ({}, '/<cwd>/cfg'), 'io.folders.sensors': ({}, '/<cwd>/sensors'),
    'io.gfu.rate': (io('gfu'), 1), 'io.gfu.time_level_rate': (io('gfu'), 100), 'io.gfu.filename': (io('gfu'), 'gfu'),
    'io.vtk.rate': (io('vtk'), 1), 'io.vtk.subdivision': (io('vtk'), 2), 'io.vtk.region': (io('vtk'), None), 'io.vtk.fields': (io('vtk'), {}),
    'io.vtk.filename': (io('vtk'), 'vtk'), 'io.ngsmesh.filename': (io('ngsmesh'), 'mesh'), 'io.sensor.filename': (io('sensor'), 'sensor'),
    'io.settings.filename': (io('settings'), 'settings'), 'io.settings.pickle': (io('settings'), True), 'io.settings.txt': (io('settings'), True),
    'io.settings.yaml': (io('settings'), False), 'io.sensor.mode': (io('sensor'), 'w'), 'io.sensor.to_csv': (io('sensor'), True),
    'io.log.filename': ({}, 'dream'), 'io.log.level': ({}, 'INFO'), 'io.log.to_terminal': ({}, True), 'io.log.to_file': ({}, False),
}
# option in force when nothing was chosen: path -> (options first, module, class)
CF_ = 'dream.compressible.'
CHOSEN = {
    'fem': ({}, CF_ + 'formulations.conservative', 'ConservativeFiniteElementMethod'), 'fem.method': ({}, CF_ + 'formulations.conservative', 'HDG'),
    'fem.mixed_method': ({}, CF_ + 'formulations.conservative', 'Inactive'), 'equation_of_state': ({}, CF_ + 'eos', 'IdealGas'),
    'dynamic_viscosity': ({}, CF_ + 'viscosity', 'Inviscid'), 'scaling': ({}, CF_ + 'scaling', 'Aerodynamic'),
    'riemann_solver': ({}, CF_ + 'riemann_solver', 'LaxFriedrich'), 'time': ({}, 'dream.time', 'StationaryConfig'),
    'time.scheme': (TRANSIENT, 'dream.time', 'ImplicitEuler'), 'time.scheme ': (PSEUDO, 'dream.time', 'ImplicitEuler'),
    'linear_solver': ({}, 'dream.solver', 'UmfpackLinearSolver'), 'nonlinear_solver': ({}, 'dream.solver', 'UmfpackNonlinearSolver'),
    'nonlinear_solver.method': ({}, 'dream.solver', 'NewtonsMethod'), 'io.folders': ({}, 'dream.io', 'SingleFolders'),
    'io.log': ({}, 'dream.io', 'LogStream'),
}
# a stream that is off reads as refused
CLOSED = ('gfu', 'vtk', 'sensor', 'settings', 'ngsmesh')
CBCS = {'fields': NO, 'target': 'farfield', 'relaxation_factor': dict.fromkeys(RELAX, 0.28), 'is_viscous_fluxes': False}
CONDITION = {
    (FLOW, 'FarField'): {'fields': NO, 'identity_jacobian': True}, (FLOW, 'Outflow'): {'fields': NO},
    (FLOW, 'CBC'): CBCS, (FLOW, 'GRCBC'): CBCS, (FLOW, 'NSCBC'): {**CBCS, 'length': 1}, (FLOW, 'IsothermalWall'): {'fields': NO},
    ('dream.mesh', 'Initial'): {'fields': NO}, ('dream.mesh', 'Force'): {'fields': NO},
    ('dream.mesh', 'SpongeLayer'): {'target_state': NO, 'function': NO, 'order': 0},
    ('dream.mesh', 'PSpongeLayer'): {'target_state': NO, 'function': NO, 'order': 0, 'high_order': 0, 'low_order': 0},
    ('dream.mesh', 'GridDeformation'): {'x': STAYS, 'y': STAYS, 'z': STAYS, 'dim': 2, 'order': 0},
}


def c35(c):
    it = c.it

    def run(go):
        o = c.run1(go)
        if o.exc:
            at = go.__defaults__ or ()
            c.ob('works', ' '.join(repr(x) if not callable(x) else how_name(x) for x in at if isinstance(x, (str, int, float)) or callable(x))[:200]
                 or 'streams', False, str(o.exc), o.exc.where)

    @sharded
    def documented(c):
        for path, (first, want) in DOCUMENTED.items():
            if not c.turn():
                continue

            def go(run, path=path, first=first, want=want):
                cfg = fresh(c, first)
                try:
                    v = get(it, cfg, path.strip())
                except PyEx as e:
                    return c.ob('documented', path.strip(), False, f"reading it fails: {e.exc}", 'dream')
                c.ob('documented', f"{path.strip()}{' of ' + next(iter(first.values())) if first and first is not VISCOUS and not path.startswith('io') else ''}",
                     same_value(it, v, want), f"documented {want!r}, is {plain(c, v)!r}", 'dream')
            run(go)
        for path, (first, mod, cls) in CHOSEN.items():
            if not c.turn():
                continue

            def go(run, path=path, first=first, mod=mod, cls=cls):
                v = get(it, fresh(c, first), path.strip())
                c.ob('documented', f"option of {path.strip()}{' in ' + next(iter(first.values())) if first else ''}", v.cls is c.api(mod, cls),
                     f"documented {cls}, is {v.cls.name}", mod)
            run(go)

        def go(run):
            cfg = get(it, fresh(c), 'io')
            for s in CLOSED:
                c.ob('documented', f"io.{s} is off", not it.contains(cfg, s), 'the stream is on', 'dream/io.py')
            c.ob('documented', 'io.log is on', bool(it.contains(cfg, 'log')), 'the stream is off', 'dream/io.py')
        run(go)

    def conditions(c):
        for (mod, cls), settings in CONDITION.items():
            def go(run, mod=mod, cls=cls, settings=settings):
                def read(o, k):
                    try:
                        return it.getattr(o, k)
                    except PyEx:
                        return NO
                how = {'made': it.call(c.api(mod, cls), [])}
                o = it.call(c.api(mod, cls), [])
                for k, (first, good, _) in CONDITIONS[mod, cls].items():
                    good = [v for v, w in good or () if w is not REFUSED and v is not None]
                    if good and k not in ('low_order',):
                        it.setattr(o, k, good[-1])
                it.call(it.getattr(o, 'clear'), [])
                how['cleared'] = o
                for h, o in how.items():
                    for k, want in settings.items():
                        v = read(o, k)
                        if want is STAYS:
                            if v is NO:
                                c.ob('conditions', f"{cls}.{k}, {h}", False, 'no value', mod)
                            else:
                                c.equal('conditions', f"{cls}.{k}, {h}", it.getattr(v, 'deformation'), N(0))
                            continue
                        c.ob('conditions', f"{cls}.{k}, {h}", v is want if want is NO or v is NO else same_value(it, v, want),
                             f"documented {'no value' if want is NO else repr(want)}, is {'no value' if v is NO else repr(plain(c, v))}", mod)
            run(go)

    @sharded
    def explicit(c):
        """what is in force by default may be set and changes nothing"""
        for path, (first, want) in DOCUMENTED.items():
            for h in HOWS:
                if not c.turn():
                    continue

                def go(run, path=path, first=first, want=want, h=h):
                    p = path.strip()
                    cfg = fresh(c, first)
                    before = shape(c, cfg)
                    if isinstance(want, str) and want.startswith('/<cwd>'):
                        return
                    v = want
                    if p == 'info' or p == 'scaling.dimensionful_values':
                        v = None if h.__name__ in ('how_nested', 'how_parent') else want
                    try:
                        h(it, cfg, p, v)
                    except PyEx as e:
                        return c.ob('explicit', f"{p} = {want!r} {how_name(h)}", False, f"refused: {e.exc}", 'dream')
                    d = unlike(before, shape(c, cfg))
                    c.ob('explicit', f"{p} = {want!r} {how_name(h)}", not d, d, 'dream')
                run(go)

    @sharded
    def cleared(c):
        for name, settings in scenarios().items():
            if not c.turn():
                continue

            def go(run, name=name, settings=settings):
                cfg = fresh(c)
                before = shape(c, cfg)
                for k, v in settings.items():
                    put(it, cfg, k, v)
                changed = shape(c, cfg)
                it.call(it.getattr(cfg, 'clear'), [])
                d = unlike(before, shape(c, cfg))
                c.ob('cleared', f"clear() after {name}", not d, d, 'dream/config.py')
                # part by part: the part goes back, the rest stays
                tops = sorted({k.split('.')[0] for k in settings if isinstance(before.get(k.split('.')[0]), tuple) and
                               before[k.split('.')[0]][:1] == ('option',)})
                for top in tops:
                    other = fresh(c)
                    for k, v in settings.items():
                        put(it, other, k, v)
                    part = it.getattr(other, top)
                    alone = fresh(c, {top: settings[top]} if isinstance(settings.get(top), str) else {})
                    want = {**{k: v for k, v in changed.items() if k != top and not k.startswith(top + '.')},
                            **{k: v for k, v in shape(c, alone).items() if k == top or k.startswith(top + '.')}}
                    it.call(it.getattr(part, 'clear'), [])
                    d = unlike(want, shape(c, other))
                    c.ob('cleared', f"{top}.clear() after {name}", not d, d, 'dream/config.py')
            run(go)

    @sharded
    def reassigned(c):
        """a setting holds what was assigned last, whatever it held before"""
        def plain_values(good):
            return [v for v, w in good or () if w is not REFUSED and not isinstance(v, F.Num)]
        n = 0
        for path, (first, good, _) in SETTINGS.items():
            values = plain_values(good)
            for a, b in itertools.product(values, values):
                if a is b or not c.turn():
                    continue

                def go(run, path=path, first=first, a=a, b=b):
                    one, two = fresh(c, first), fresh(c, first)
                    if path.startswith('io.folders.') and isinstance(a, str) and path.endswith('root'):
                        return      # the folders within move along
                    put(it, one, path, b)
                    for v in (a, b):
                        put(it, two, path, v)
                    d = unlike(shape(c, one), shape(c, two))
                    c.ob('reassigned', f"{path} = {a!r}, then {b!r}", not d, d, 'dream')
                run(go)
                n += 1
        for (mod, cls), settings in CONDITIONS.items():
            for key, (first, good, _) in settings.items():
                values = plain_values(good)
                for a, b in itertools.product(values, values):
                    if a is b or not c.turn():
                        continue

                    def go(run, mod=mod, cls=cls, key=key, first=first, a=a, b=b):
                        def read(o):
                            out = {}
                            for k in settings:
                                try:
                                    v = it.getattr(o, k)
                                except PyEx:
                                    v = 'refused'
                                if settings[k][1] is not None:
                                    out[k] = plain(c, v)
                            if cls == 'GridDeformation':
                                out['function'] = it.getattr(o, 'function').dims
                            return out
                        one, two = (it.call(c.api(mod, cls), [], dict(first)) for _ in range(2))
                        if cls == 'GridDeformation':
                            for o in (one, two):
                                it.setattr(o, 'x', it.call(it.getattr(c.api(mod, 'GridMapping'), 'none'), [it.getattr(it.import_module('ngsolve'), 'x')]))
                        it.setattr(one, key, b)
                        for v in (a, b):
                            it.setattr(two, key, v)
                        d = unlike(read(one), read(two))
                        c.ob('reassigned', f"{cls}.{key} = {a!r}, then {b!r}", not d, d, mod)
                    run(go)
                    n += 1
        c.need('settings assigned twice', n, 200)

    c.part(documented)
    c.part(reassigned)
    c.part(explicit)
    c.part(conditions)
    c.part(cleared)


RULES = {'C35': c35}
