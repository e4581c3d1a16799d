"""Runs: order of the phases, output rates, names of saved states, sensor tables, released handles."""
from __future__ import annotations

import functools
import itertools

from .. import alg as A
from .. import fields as F
from ..check import sharded
from ..interp import Unsupported, PyEx, HostFn, IObj
from ..forms import Setup
from ..flow import State, solver
from ..models import PathM, File, Vtk, Handler

N = A.num
STREAMS = ('gfu', 'vtk', 'sensor', 'settings', 'ngsmesh')
LEVELS = {'implicit_euler': ('n', 'n+1'), 'bdf2': ('n-1', 'n', 'n+1')}


HEADS = ('point', 'region', 'field', 'component', 't')


def text(p):
    t = p.text() if isinstance(p, PathM) else p
    return t if isinstance(t, str) else repr(t)


class Failure(Exception):
    """identity of an injected failure"""


class Scene:
    """one configured solver with outputs; every solve converges in one iteration"""

    def __init__(self, c, time='transient', scheme=None, streams=STREAMS, steps=3, start=0.2, step=0.1, opts=None, sensors=None,
                 assemble=False, exists=True, bcs=(), **mesh):
        self.c, it = c, c.it
        self.it = it
        self.exists = exists
        it.assume = self.assume
        it.inner_script = self.inner
        o = {'optimizations.compile.realcompile': False}
        if time != 'stationary':
            o['time.timer.step'] = step
            o['time.timer.interval'] = (start, round(start + steps * step, 9) if steps else round(start + step / 10, 9))
        for s in streams:
            o[f'io.{s}'] = True
        self.solves = 0
        self.iterations = 1
        S = self.S = Setup(c, 2, time=time, scheme=scheme, opts=o, assemble=False, bcs=bcs, **mesh)
        self.cfg = S.cfg
        self.io = it.getattr(S.cfg, 'io')
        self.vec = it.getattr(it.getattr(S.cfg, 'gfu'), 'vec')
        self.fields = it.call(it.getattr(S.cfg, 'get_fields'), [], {'rho': True, 'u': True})
        if 'vtk' in streams:
            self.set('io.vtk.fields', self.fields)
        if 'sensor' in streams:
            for kind, name, kw in sensors if sensors is not None else (('point', 'probe', {'points': ((0., 0.), (1., 1.))}),
                                                                      ('boundary', 'wall', {'regions': ('left', 'top')})):
                self.sensor(kind, name, **{'fields': self.fields, **kw})
        for k, v in (opts or {}).items():
            self.set(k, v)
        self.labels = [round(start + (i + 1) * step, 9) for i in range(steps)]
        self.start = start
        if assemble:
            it.call(it.getattr(self.get('time'), 'assemble'), [])

    def assume(self, key, options):
        if key[0] in ('exists', 'isdir') and True in options:
            return self.exists
        return None

    def inner(self, x, y):
        """the inner product after a solve: the state is a new one from here on"""
        self.solves += 1
        self.vec.value = F.VExpr.atom(f"state{self.solves}")
        return F.Num(N(0)) if self.solves % self.iterations == 0 else F.Num(N(1))

    def get(self, path):
        o = self.cfg
        for p in path.split('.'):
            o = self.it.getattr(o, p)
        return o

    def set(self, path, v):
        *h, last = path.split('.')
        self.it.setattr(self.get('.'.join(h)) if h else self.cfg, last, v)

    def sensor(self, kind, name, **kw):
        self.set(f'io.sensor.{kind}', name)
        s = self.it.getitem(self.get(f'io.sensor.{kind}'), name)
        for k, v in kw.items():
            self.it.setattr(s, k, v)
        return s

    def routine(self, **k):
        return self.it.call(self.it.getattr(self.get('time'), 'start_solution_routine'), [], k)

    def run(self, stop=None, fail=None, **k):
        """drive the routine; `stop` abandons it at that yield, `fail` raises at that external effect; returns
        (trace, raised exception, number of effects)"""
        it = self.it
        n0 = len(it.events)
        count = [0]
        err = [None]

        def hook(it, kind, obj, args, kw):
            count[0] += 1
            if fail is not None and count[0] == fail + 1:
                o = IObj(it.builtin_cls['OSError'])
                o.d['args'] = ('no space left on device',)
                err[0] = o
                raise PyEx(o, it.where())
            return None
        it.ext_hook = hook
        exc = None
        try:
            g = self.routine(**k)
            for i, t in enumerate(it.iterate(g)):
                it.events.append(('mark', 'yield', t))
                if stop is not None and i == stop:
                    g.close()
                    break
        except PyEx as ex:
            exc = ex
        finally:
            it.ext_hook = None
        self.exc, self.injected = exc, err[0]
        return self.trace(it.events[n0:]), exc, count[0]

    def trace(self, events):
        it = self.it
        fes = it.getattr(self.cfg, 'fes')
        time = self.get('time')
        try:
            live = it.getattr(it.getattr(time, 'timer'), 't')
            old = {}
            for var, d in it.getattr(it.getattr(time, 'scheme'), 'gfus').items():
                for lv, g in list(d.items())[:-1]:
                    old[id(g.vec)] = (var, lv)
        except PyEx:
            live, old = None, {}
        gname = {id(it.getattr(self.cfg, 'gfu')): 'state'}
        try:
            for var, d in it.getattr(it.getattr(time, 'scheme'), 'gfus').items():
                for lv, g in d.items():
                    gname[id(g)] = (var, lv)
        except PyEx:
            pass
        for var, g in it.getattr(self.cfg, 'gfus').items():
            gname.setdefault(id(g), (var, None))
        out = []
        now = None
        solves = 0
        header = {}
        self.clock = clock = []        # the live time at each entry of the trace
        for e in events:
            clock += [now] * (len(out) - len(clock))
            k = e[0]
            if k == 'form.new' and e[1].space is fes:
                out.append(('assemble', e[1].kind))
            elif k == 'param.set' and e[1] is live:
                now = e[2]
            elif k == 'blf.apply':
                solves += 1
                out.append(('solve', now))
            elif k == 'vec.write' and id(e[1]) in old:
                out.append(('shift', old[id(e[1])]))
            elif k == 'mark' and e[1] == 'yield':
                out.append(('yield', e[2]))
            elif k == 'gf.save':
                out.append(('gfu', text(e[2][0]), gname.get(id(e[1]), repr(e[1])), solves))
            elif k == 'gf.load':
                out.append(('load', text(e[2][0]), gname.get(id(e[1]), repr(e[1]))))
            elif k == 'vtk.new':
                out.append(('vtk.new', e[1], e[3]))
            elif k == 'vtk.do':
                out.append(('vtk', e[2][0], solves, e[1], e[3].get('drawelems')))
            elif k == 'file.open':
                out.append(('open', e[1]))
                header[id(e[1])] = True
            elif k == 'file.close':
                out.append(('close', e[1]))
            elif k == 'csv.row':
                row = list(e[2][0])
                if not (row and isinstance(row[0], str) and row[0] in HEADS):
                    out.append(('row', text(e[1].path), row, solves))
                else:
                    out.append(('header', text(e[1].path), row))
            elif k == 'pickle.dump':
                out.append(('dump', text(e[1].path), e[2][0]))
            elif k == 'file.write':
                out.append(('write', text(e[1].path)))
            elif k == 'redraw':
                out.append(('redraw',))
            elif k == 'path.mkdir':
                out.append(('mkdir', text(e[1]), e[3]))
        clock += [now] * (len(out) - len(clock))
        return out


def same_time(a, b):
    x, y = F.to_e(a), F.to_e(b)
    if x is None or y is None:
        return a is None and b is None
    x, y = F.simplify_const(x), F.simplify_const(y)
    return x is not None and y is not None and abs(float(x) - float(y)) < 1e-12


def only(tr, *kinds):
    return [e for e in tr if e[0] in kinds]


def opened(tr, streams=None):
    return [e[1] for e in tr if e[0] == 'open']


# ------------------------------------------------------------------ C14

def c14(c):
    it = c.it
    STORES = ('gfu', 'vtk', 'row')

    def transient(c):
        n = 0
        for scheme, steps, entry in itertools.product(LEVELS, (1, 3), ('routine', 'solve', 'no reassembly', 'solve, no reassembly', 'twice')):
            if steps == 1 and entry != 'routine':
                continue
            name = f"transient {scheme}, {steps} steps, {entry}"

            def go(it):
                s = Scene(c, scheme=scheme, steps=steps, assemble='no reassembly' in entry)
                if entry.startswith('solve'):
                    n0 = len(it.events)
                    it.call(it.getattr(s.cfg, 'solve'), [], {'reassemble': False} if 'no' in entry else {})
                    return s, s.trace(it.events[n0:])
                if entry == 'no reassembly':
                    return s, s.run(reassemble=False)[0]
                if entry == 'twice':
                    s.run()
                tr, exc, _ = s.run()
                if exc:
                    raise exc
                return s, tr
            out = c.run1(go)
            if out.exc:
                c.ob('order', name, False, str(out.exc), out.exc.where)
                continue
            s, tr = out.value
            ok = lambda what, cond, d='': c.ob('order', f"{name}: {what}", cond, d)
            ks = [e[0] for e in tr]
            solves = [i for i, k in enumerate(ks) if k == 'solve']
            first = solves[0] if solves else len(tr)
            asm = [i for i, k in enumerate(ks) if k == 'assemble']
            ok('forms are assembled once before the first step' if 'no reassembly' not in entry else 'forms are kept',
               len(asm) == (0 if 'no reassembly' in entry else 2) and all(i < first for i in asm), f"{len(asm)}")
            ok('one solve per step, at the time of the step', len(solves) == steps and
               all(same_time(tr[i][1], t) for i, t in zip(solves, s.labels)), f"{[tr[i][1] for i in solves]} for {s.labels}")
            if not entry.startswith('solve'):
                ys = [e[1] for e in tr if e[0] == 'yield']
                ok('the caller receives the time of each step', len(ys) == steps and
                   all(same_time(a, b) for a, b in zip(ys, s.labels)), f"{ys}")
            ok('initial state is stored before the first step', {e[0] for e in tr[:first]} >= {'gfu', 'vtk', 'row', 'dump'},
               f"{sorted({e[0] for e in tr[:first]})}")
            for k in STORES:
                pre = [e for e in tr[:first] if e[0] == k]
                ok(f"initial {k} is labelled with the start", all(label(e, s.start) for e in pre), f"{pre}"[:200])
            ok('outputs are opened before the first step', all(i < first for i, k in enumerate(ks) if k in ('open', 'vtk.new')))
            # fields may depend on the live time: what is stored is evaluated at the time it is labelled with
            at = [(e[0], t) for e, t in zip(tr[:first], s.clock) if e[0] in STORES]
            ok('the live time is the start while the initial state is stored', all(t is not None and same_time(t, s.start) for _, t in at), f"{at}")
            for i, (a, b) in enumerate(zip(solves, solves[1:] + [len(tr)])):
                if i < steps:
                    ts = [(e[0], t) for e, t in zip(tr[a:b], s.clock[a:b]) if e[0] in STORES + ('yield',)]
                    ok(f"step {i}: stored at its live time", all(t is not None and same_time(t, s.labels[i]) for _, t in ts), f"{ts}")
            bounds = solves + [len(tr)]
            for i in range(min(steps, len(solves))):
                seg = tr[bounds[i]:bounds[i + 1]]
                sk = [e[0] for e in seg]
                sh = [e[1] for e in seg if e[0] == 'shift']
                lv = LEVELS[scheme][:-1]
                ok(f"step {i}: each older level is shifted once, oldest first", [x[1] for x in sh if x[0] == 'U'] == list(lv), f"{sh}")
                st = [j for j, k in enumerate(sk) if k in STORES]
                shi = [j for j, k in enumerate(sk) if k == 'shift']
                ok(f"step {i}: stored after the shift", bool(st) and bool(shi) and max(shi) < min(st), f"{sk}")
                if not entry.startswith('solve'):
                    y = [j for j, k in enumerate(sk) if k == 'yield']
                    ok(f"step {i}: handed to the caller after the shift, before it is stored", len(y) == 1 and bool(shi) and
                       bool(st) and max(shi) < y[0] < min(st), f"{sk}")
                ok(f"step {i}: labelled with its time", all(label(e, s.labels[i]) for e in seg if e[0] in STORES), f"{seg}"[:300])
            closed(c, name, tr)
            last = max([i for i, k in enumerate(ks) if k in STORES] or [0])
            cl = [i for i, e in enumerate(tr) if e[0] == 'close' and e[1].path.parts[-2:-1] == ('sensors',)]
            ok('outputs are closed after the final state is stored', bool(cl) and min(cl) > last, f"{ks[-8:]}")
            n += 1
        c.need('transient runs', n, 5)

    def label(e, t):
        if e[0] == 'gfu':
            return f"_{t}" in e[1].rsplit('/', 1)[1] or f"_{t}." in e[1]
        if e[0] == 'vtk':
            return same_time(e[1], t)
        if e[0] == 'row':
            return same_time(e[2][0], t)
        return True

    def closed(c, name, tr):
        op, cl = [e[1] for e in tr if e[0] == 'open'], [e[1] for e in tr if e[0] == 'close']
        for f in op:
            c.ob('closed', f"{name}: {text(f.path).rsplit('/', 1)[1]} is closed", any(f is x for x in cl), 'left open')

    def others(c):
        for time, scheme, entry in (('stationary', None, 'routine'), ('stationary', None, 'solve'),
                                    ('pseudo_time_stepping', 'implicit_euler', 'routine'),
                                    ('pseudo_time_stepping', 'bdf2', 'solve')):
            name = f"{time} {scheme or ''} {entry}"

            def go(it):
                s = Scene(c, time=time, scheme=scheme)
                s.iterations = 3
                n0 = len(it.events)
                if entry == 'solve':
                    it.call(it.getattr(s.cfg, 'solve'), [])
                    return s, s.trace(it.events[n0:])
                tr, exc, _ = s.run()
                if exc:
                    raise exc
                return s, tr
            out = c.run1(go)
            if out.exc:
                c.ob('order', name, False, str(out.exc), out.exc.where)
                continue
            s, tr = out.value
            ok = lambda what, cond, d='': c.ob('order', f"{name}: {what}", cond, d)
            ks = [e[0] for e in tr]
            solves = [i for i, k in enumerate(ks) if k == 'solve']
            first, last = (solves[0], solves[-1]) if solves else (len(tr), len(tr))
            ok('iterates until converged', len(solves) == 3, f"{len(solves)}")
            ok('forms are assembled once before the first iteration', ks.count('assemble') == 2 and
               max(i for i, k in enumerate(ks) if k == 'assemble') < first)
            ok('initial state is stored first', {e[0] for e in tr[:first]} >= {'gfu', 'vtk', 'row', 'dump'},
               f"{sorted({e[0] for e in tr[:first]})}")
            for k in STORES:
                ok(f"final {k} is stored after the solution", ks[last:].count(k) >= 1, f"{ks[last:]}")
                ok(f"nothing is stored while iterating ({k})", k not in ks[first:last], f"{ks[first:last]}")
            if time != 'stationary':
                sh = [e[1] for e in tr if e[0] == 'shift']
                ok('levels are shifted between iterations', len(sh) >= 2 * (len(LEVELS[scheme]) - 1), f"{sh}")
            if entry == 'routine':
                y = [i for i, k in enumerate(ks) if k == 'yield']
                ok('hands over once, after the solution and before the final state is stored', len(y) == 1 and y[0] > last and
                   not any(k in STORES for k in ks[last:y[0]]), f"{ks[last:]}")
            closed(c, name, tr)

    def empty(c):
        def go(it):
            s = Scene(c, steps=0)
            tr, exc, _ = s.run()
            if exc:
                raise exc
            return s, tr
        out = c.run1(go)
        if out.exc:
            c.ob('order', 'an interval shorter than half a step', False, str(out.exc), out.exc.where)
            return
        s, tr = out.value
        ks = [e[0] for e in tr]
        c.ob('order', 'an interval shorter than half a step: initial state only', 'solve' not in ks and 'gfu' in ks and 'row' in ks, f"{ks}")
        closed(c, 'an interval shorter than half a step', tr)

    def exits(c):
        """abandoned or failing runs close what they opened, and the failure reaches the caller"""
        n = 0
        for time in ('transient', 'stationary', 'pseudo_time_stepping'):
            def go(it):
                res = []
                for stop in ((0, 1, 2) if time == 'transient' else (0,)):
                    s = Scene(c, time=time)
                    tr, exc, _ = s.run(stop=stop)
                    res.append((f"{time}, abandoned at {stop}", s, tr, exc, False))
                s = Scene(c, time=time)
                _, exc, total = s.run()
                if exc:
                    raise exc
                for k in range(total):
                    s = Scene(c, time=time)
                    tr, exc, _ = s.run(fail=k)
                    res.append((f"{time}, failing effect {k}", s, tr, exc, True))
                # a failure inside the solve
                s = Scene(c, time=time)
                err = IObj(it.builtin_cls['ValueError'])
                err.d['args'] = ('diverged',)

                def boom(x, y):
                    raise PyEx(err, it.where())
                it.inner_script = boom
                s2 = s
                tr, exc, _ = s2.run()
                s2.injected = err
                res.append((f"{time}, failing solve", s2, tr, exc, True))
                return res
            out = c.run1(go)
            if out.exc:
                c.ob('exits', time, False, str(out.exc), out.exc.where)
                continue
            for name, s, tr, exc, failing in out.value:
                last = next((e[0] for e in reversed(tr) if e[0] != 'close'), '')
                what = f"{name} ({last})" if failing else name
                if failing:
                    c.ob('exits', f"{what}: the failure reaches the caller", exc is not None and exc.value is s.injected, f"{exc}")
                elif exc is not None:
                    c.ob('exits', f"{what}: raises", False, f"{exc}", exc.where)
                closed(c, what, tr)
                n += 1
        c.need('exits of runs', n, 40)

    def again(c):
        """initialising again rebuilds the same problem"""
        def go(it):
            S = Setup(c, 2, viscosity='constant', assemble=False)
            a = snapshot(S)
            it.call(it.getattr(S.cfg, 'initialize'), [])
            return a, snapshot(S)

        def snapshot(S):
            g = lambda n: it.getattr(S.cfg, n)
            r = {'spaces': [(k, repr(v)) for k, v in g('spaces').items()], 'trial and test functions': list(g('TnT')),
                 'grid functions': list(g('gfus')), 'bilinear terms': {k: len(v.terms) for k, v in g('blf').items()},
                 'linear terms': {k: len(v.terms) for k, v in g('lf').items()},
                 'same labels': list(g('spaces')) == list(g('TnT')) == list(g('gfus'))}
            return r
        out = c.run1(go)
        if out.exc:
            c.ob('initialize', 'twice', False, str(out.exc), out.exc.where)
            return
        a, b = out.value
        c.ob('initialize', 'spaces, trial functions and grid functions carry the same labels', a['same labels'], f"{a}")
        for k in a:
            c.ob('initialize', f"{k} are the same after initialising again", a[k] == b[k], f"{a[k]} then {b[k]}")
    for f in (transient, others, empty, exits, again):
        c.part(f)



# ------------------------------------------------------------------ C15

def expected(n, rate):
    return [i for i in range(n) if i % rate == 0 or i == n - 1]


def stored(tr, stream, file=None):
    """[(label, number of solves before)] of one stream, in order"""
    if stream == 'gfu':
        return [(e[1], e[3]) for e in tr if e[0] == 'gfu' and e[2] == 'state']
    if stream == 'vtk':
        return [(e[1], e[2]) for e in tr if e[0] == 'vtk']
    return [(e[2][0], e[3]) for e in tr if e[0] == 'row' and e[1].endswith('/' + file)]


def c15(c):
    it = c.it
    R = (1, 2, 3, 5)

    def match(name, got, want, stream):
        """got [(label, solves)] == want [(time, solves)]"""
        if len(got) != len(want) or [g[1] for g in got] != [w[1] for w in want]:
            return c.ob('rate', name, False, f"stored after solves {[g[1] for g in got]} instead of {[w[1] for w in want]}")
        for (lab, _), (t, _) in zip(got, want):
            same = lab.endswith(f"/gfu_{t}.ngs") if stream == 'gfu' else same_time(lab, t)
            if not same:
                return c.ob('rate', name, False, f"labelled {lab} at {t}")
        return c.ob('rate', name, True, sample=f"{got}")

    def rates(c):
        n = 0
        top = 12 if c.thorough else 7
        for steps, k in itertools.product(range(1, top + 1), range(4)):
            r = [R[(k + j) % 4] for j in range(4)]
            tl = R[(k + 1) % 4]
            sensors = [('point', f"s{j}", {'points': ((0., 0.),), 'rate': q}) for j, q in enumerate((r[2], r[3], 1))]
            name = f"{steps} steps"

            def go(it):
                s = Scene(c, steps=steps, sensors=sensors, streams=('gfu', 'vtk', 'sensor'),
                          opts={'io.gfu.rate': r[0], 'io.vtk.rate': r[1], 'io.gfu.time_level_rate': tl})
                tr, exc, _ = s.run()
                if exc:
                    raise exc
                return s, tr
            out = c.run1(go)
            if out.exc:
                c.ob('rate', f"{name}, rates {r}", False, str(out.exc), out.exc.where)
                continue
            s, tr = out.value
            T = [s.start] + s.labels
            want = lambda q: [(T[0], 0)] + [(T[i + 1], i + 1) for i in expected(steps, q)]
            match(f"gfu rate {r[0]}, {name}", stored(tr, 'gfu'), want(r[0]), 'gfu')
            match(f"vtk rate {r[1]}, {name}", stored(tr, 'vtk'), want(r[1]), 'vtk')
            for j, q in enumerate((r[2], r[3], 1)):
                match(f"sensor {j} rate {q}, {name}", stored(tr, 'sensor', f"s{j}.csv"), want(q), 'sensor')
            # time levels: at their own rate
            got = {}
            for e in tr:
                if e[0] == 'gfu' and isinstance(e[2], tuple):
                    got.setdefault((e[1], e[2]), []).append(e[3])
            for i in [-1] + [i for i in range(steps) if i % tl == 0]:
                for lv in LEVELS['implicit_euler']:
                    hit = [v for (p, g), v in got.items() if g == ('U', lv) and f"_{T[i + 1]}_U_{lv}.ngs" in p]
                    c.ob('time levels', f"rate {tl}, {name}: level {lv} at {'the start' if i < 0 else f'step {i}'}",
                         len(hit) == 1 and set(hit[0]) == {i + 1}, f"{sorted(p.rsplit('/', 1)[1] for p, _ in got)}")
            n += 1
        c.need('runs', n, 20)

    def steady(c):
        for time, scheme, rate in itertools.product(('stationary', 'pseudo_time_stepping'), (None, 'bdf2'), (1, 2, 5)):
            if time == 'stationary' and scheme:
                continue
            name = f"{time} {scheme or ''}, rate {rate}"

            def go(it):
                s = Scene(c, time=time, scheme=scheme, streams=('gfu', 'vtk', 'sensor'),
                          sensors=[('point', 'p', {'points': ((0., 0.),), 'rate': rate})],
                          opts={'io.gfu.rate': rate, 'io.vtk.rate': rate})
                s.iterations = 4
                tr, exc, _ = s.run()
                if exc:
                    raise exc
                return s, tr
            out = c.run1(go)
            if out.exc:
                c.ob('rate', name, False, str(out.exc), out.exc.where)
                continue
            s, tr = out.value
            for k in ('gfu', 'vtk', 'sensor'):
                got = [g[1] for g in stored(tr, k, 'p.csv')]
                c.ob('rate', f"{k}, {name}: initial and final state once each", got == [0, 4], f"stored after iterations {got}")

    def subsets(c):
        """streams do not influence each other; a stream that is not enabled has no effect"""
        kinds = {'gfu': ('gfu',), 'vtk': ('vtk', 'vtk.new'), 'sensor': ('row', 'header'), 'settings': (), 'ngsmesh': ()}
        base = {}

        def part_of(tr):
            d = {}
            for e in tr:
                if e[0] in ('gfu',):
                    d.setdefault('gfu', []).append(e[1:3] + e[3:])
                elif e[0] == 'vtk':
                    d.setdefault('vtk', []).append((repr(e[1]), e[2]))
                elif e[0] in ('row', 'header'):
                    d.setdefault('sensor', []).append((e[1], len(e[2]), repr(e[2][0])))
                elif e[0] in ('dump', 'write'):
                    d.setdefault('settings' if '/cfg/' in e[1] else 'ngsmesh', []).append(e[1])
                elif e[0] == 'open':
                    p = text(e[1].path)
                    k = 'sensor' if '/sensors/' in p else 'settings' if '/cfg/' in p else 'ngsmesh'
                    d.setdefault(k, []).append(('open', p))
            return d
        order = [tuple(q for q, b in zip(STREAMS, bits) if b) for bits in itertools.product((0, 1), repeat=5)]
        for sub in sorted(order, key=len):
            name = '+'.join(sub) or 'none'

            def go(it):
                s = Scene(c, steps=2, streams=sub)
                tr, exc, _ = s.run()
                if exc:
                    raise exc
                return part_of(tr)
            out = c.run1(go)
            if out.exc:
                c.ob('streams', name, False, str(out.exc), out.exc.where)
                continue
            d = out.value
            if len(sub) == 1:
                base[sub[0]] = d.get(sub[0])
            for q in STREAMS:
                if q in sub:
                    c.ob('streams', f"{q} of {name} is the same as alone", bool(d.get(q)) and d.get(q) == base.get(q),
                         f"{d.get(q)} instead of {base.get(q)}")
                else:
                    c.ob('streams', f"{q} is silent with {name}", not d.get(q), f"{d.get(q)}")

    def switching(c):
        """switching streams on and off only affects the named one"""
        def enabled(s):
            io = s.io
            return {q for q in it.mapping_keys(io) if q in STREAMS}

        def go(it):
            res = []
            for q in STREAMS:
                s = Scene(c, steps=1)
                a = {x: it.getattr(s.io, x) for x in STREAMS}
                it.setattr(s.io, q, False)
                b = {x: it.getattr(s.io, x) for x in STREAMS if x in enabled(s)}
                it.setattr(s.io, q, False)
                it.setattr(s.io, q, True)
                d = {x: it.getattr(s.io, x) for x in STREAMS if x in enabled(s)}
                res.append((q, a, b, d))
            return res
        out = c.run1(go)
        if out.exc:
            c.ob('switch', 'on and off', False, str(out.exc), out.exc.where)
            return
        for q, a, b, d in out.value:
            c.ob('switch', f"switching {q} off removes it only", set(b) == set(STREAMS) - {q} and all(b[x] is a[x] for x in b), f"{sorted(b)}")
            c.ob('switch', f"switching {q} on again leaves the others", set(d) == set(STREAMS) and
                 all(d[x] is a[x] for x in a if x != q), f"{sorted(d)}")

    def region(c):
        """vtk output of one region draws exactly its elements"""
        for time, steps, rate, n in (('transient', 1, 1, 2), ('transient', 3, 2, 3), ('transient', 2, 2, 3), ('transient', 5, 3, 4), ('stationary', 1, 1, 2), ('pseudo_time_stepping', 1, 1, 2)):
            region_of(c, time, steps, rate, n)

    def region_of(c, time, steps, rate, n):
        def go(it):
            s = Scene(c, time=time, steps=steps, streams=('vtk',), opts={'io.vtk.region': 'sponge', 'io.vtk.rate': rate})
            tr, exc, _ = s.run()
            if exc:
                raise exc
            return s, tr
        out = c.run1(go)
        if out.exc:
            c.ob('region', f'vtk ({time})', False, str(out.exc), out.exc.where)
            return
        s, tr = out.value
        sets = [e[4] for e in tr if e[0] == 'vtk']
        want = {f"sponge:el{i}" for i in range(2)}
        for d in sets:
            if d is None:
                c.ob('region', f'vtk output draws exactly the elements of the region ({time}, {steps} steps, rate {rate})', False, 'all elements')
                continue
            on = set()
            for k, v in (d.writes if isinstance(d, F.Bits) else [('all', True)]):
                on = (set(want) | {'other'} if v else set()) if k == 'all' else (on | {k} if v else on - {k})
            c.ob('region', f'vtk output draws exactly the elements of the region ({time}, {steps} steps, rate {rate})', on == want, f"{on}")
        c.ob('region', f'vtk output with a region ({time}, {steps} steps, rate {rate})', len(sets) == n, f"{len(sets)}")
        for e in tr:
            if e[0] == 'vtk.new':
                got = dict(zip(it.to_list(e[2]['names']), it.to_list(e[2]['coefs'])))
                want = {k: it.getitem(s.fields, k) for k in it.mapping_keys(s.fields)}
                c.ob('fields', 'vtk writes the chosen fields under their names', set(got) == set(want) and
                     all(got[k] is want[k] for k in want), f"{sorted(got)}")
    @sharded
    def second(c):
        """a run after another one writes what a first run of the present configuration writes"""
        D = ('inner', 'sponge', 'psponge')

        def normal(s, tr):
            out = []
            for e in tr:
                if e[0] in ('header', 'row'):
                    out.append((e[0], e[1], [A.brief(F.to_e(v), 400) if F.to_e(v) is not None else repr(v) for v in e[2]]))
                elif e[0] == 'gfu':
                    out.append(e[:4])
                elif e[0] == 'vtk.new':
                    k = e[2]
                    out.append(('vtk.new', [x for x in it.to_list(k['names'])], [[A.brief(x, 400) for x in f.e] for f in it.to_list(k['coefs'])],
                                text(k['filename']), repr(k.get('subdivision'))))
                elif e[0] == 'vtk':
                    d = e[4]
                    on = set()
                    for k, v in (d.writes if isinstance(d, F.Bits) else []):
                        on = ({'all'} if v else set()) if k == 'all' else (on | {k} if v else on - {k})
                    out.append(('vtk', repr(e[1]), e[2], 'all elements' if d is None else sorted(on)))
                elif e[0] in ('open', 'close'):
                    out.append((e[0], text(e[1].path), getattr(e[1], 'mode', None)))
                elif e[0] in ('dump', 'write'):
                    out.append(e[:2])
            return out
        P = {'points': ((0., 0.), (1., 1.))}
        CHANGES = {
            'nothing': {}, 'vtk of a region': {'io.vtk.region': 'sponge'}, 'vtk of two regions': {'io.vtk.region': 'inner|psponge'},
            'vtk of the whole domain': {'io.vtk.region': None}, 'vtk subdivision': {'io.vtk.subdivision': 0}, 'vtk filename': {'io.vtk.filename': 'flow'},
            'vtk fields': {'io.vtk.fields': ('s', 'w')}, 'rates': {'io.vtk.rate': 2, 'io.gfu.rate': 3, 'probe.rate': 2},
            'appending': {'io.sensor.mode': 'a'}, 'no csv': {'io.sensor.to_csv': False}, 'sensor fields': {'probe.fields': ('m',), 'mean.fields': ('w', 's')},
            'points': {'probe.points': ((0.5, 0.5),)}, 'regions': {'mean.regions': ('psponge', 'inner')}, 'all regions': {'mean.regions': None},
            'pattern': {'mean.regions': 'inner|sponge'}, 'integration order': {'mean.integration_order': 9}, 'vtk off': {'io.vtk': False},
            'sensors off': {'io.sensor': False}, 'states off': {'io.gfu': False}, 'settings off': {'io.settings': False},
            'folders': {'io.folders.root': '/elsewhere'}, 'states folder': {'io.folders.states': 'out'}, 'state filename': {'io.gfu.filename': 'sol'},
            'time level rate': {'io.gfu.time_level_rate': 1}, 'another sensor': {'+': ('boundary', 'late', {'regions': ('left',)})}}
        BASES = {'': {}, 'vtk of a region': {'io.vtk.region': 'psponge'}, 'appended': {'io.sensor.mode': 'a'},
                 'one region': {'mean.regions': ('sponge', 'nowhere')}}

        def change(s, opts):
            for k, v in opts.items():
                if k == '+':
                    s.sensor(v[0], v[1], **{'fields': shaped(('s',)), **v[2]})
                elif k.split('.')[0] in ('probe', 'mean'):
                    o, a = k.split('.')
                    x = it.getitem(s.get('io.sensor.' + {'probe': 'point', 'mean': 'domain'}[o]), o)
                    it.setattr(x, a, shaped(v) if a == 'fields' else v)
                else:
                    s.set(k, shaped(v) if k.endswith('vtk.fields') else v)

        def scene(time, base):
            s = Scene(c, time=time, steps=3, streams=STREAMS, materials=D, sensors=[
                ('point', 'probe', {'fields': shaped(('s', 'w')), **P}), ('domain', 'mean', {'fields': shaped(('s', 'm'))})])
            change(s, {'io.vtk.fields': ('s', 'm'), **base})
            return s
        n = 0
        for time, (bn, base), (name, opts) in itertools.product(('transient', 'stationary', 'pseudo_time_stepping'), BASES.items(), CHANGES.items()):
            if (time != 'transient' and (bn or 'rate' in name)) or bn and name not in (
                    'nothing', 'vtk of a region', 'vtk of two regions', 'vtk of the whole domain', 'regions', 'all regions', 'pattern', 'appending') or not c.turn():
                continue
            for before in ('complete', 'abandoned', 'failed') if name in ('nothing', 'rates', 'folders', 'vtk of a region') and not bn else ('complete',):
                if before == 'abandoned' and time == 'stationary':
                    continue

                def go(it):
                    s = scene(time, base)
                    if before == 'failed':
                        s.run(fail=9)
                    else:
                        s.run(stop=0 if before == 'abandoned' else None)
                    change(s, opts)
                    s.vec.value = F.VExpr.atom('state0')
                    s.solves = 0
                    tr, exc, _ = s.run()
                    if exc:
                        raise exc
                    f = scene(time, base)
                    change(f, opts)
                    tf, exc, _ = f.run()
                    if exc:
                        raise exc
                    return normal(s, tr), normal(f, tf)
                o = c.run1(go)
                title = f"{time}{', ' + bn if bn else ''}: {name} after a {before} run"
                if o.exc:
                    c.ob('second run', title, False, str(o.exc), o.exc.where)
                    continue
                a, b = o.value
                d = next(((x, y) for x, y in itertools.zip_longest(a, b) if x != y), None)
                c.ob('second run', title, d is None and len(a) > 2, f"{d and d[0]} instead of {d and d[1]}", sample=len(a))
                n += 1
        c.need('second runs', n, 60)
    for f in (rates, steady, subsets, switching, region, second):
        c.part(f)


# ------------------------------------------------------------------ C16

def c16(c):
    it = c.it

    def folders(c):
        """the folders in force after a sequence of settings"""
        cases = [
            ((), {'root': '/<cwd>', 'states': '/<cwd>/states', 'vtk': '/<cwd>/vtk', 'settings': '/<cwd>/cfg', 'sensors': '/<cwd>/sensors'}),
            ((('root', '/data/run'),), {'root': '/data/run', 'states': '/data/run/states', 'vtk': '/data/run/vtk',
                                        'settings': '/data/run/cfg', 'sensors': '/data/run/sensors'}),
            ((('states', 'out'),), {'states': '/<cwd>/out', 'vtk': '/<cwd>/vtk'}),
            ((('states', '/big/states'), ('root', '/data/run')), {'states': '/big/states', 'vtk': '/data/run/vtk'}),
            ((('states', 'out'), ('root', '/data/run')), {'states': '/data/run/out', 'vtk': '/data/run/vtk', 'sensors': '/data/run/sensors'}),
            ((('root', '/data/run'), ('states', 'out'), ('root', '/other')), {'root': '/other', 'states': '/other/out', 'settings': '/other/cfg'}),
            ((('root', '/data'), ('states', 'out'), ('vtk', 'out')), {'states': '/data/out', 'vtk': '/data/out'}),
            ((('states', 'same'), ('vtk', 'same'), ('states', 'new')), {'states': '/<cwd>/new', 'vtk': '/<cwd>/same'}),
            ((('sensors', 'deep/er'), ('root', '/r')), {'sensors': '/r/deep/er', 'root': '/r'}),
            ((('root', '/data'), ('states', '/data'), ('root', '/r')), {'root': '/r', 'states': '/r', 'vtk': '/r/vtk', 'sensors': '/r/sensors'}),
            ((('states', 'out'), ('vtk', 'out/vtk'), ('states', 'new')), {'states': '/<cwd>/new', 'vtk': '/<cwd>/new/vtk', 'root': '/<cwd>'}),
            ((('root', '/a'), ('root', '/a/b'), ('root', '/c')), {'root': '/c', 'states': '/c/states', 'vtk': '/c/vtk'}),
            ((('root', '/data'), ('states', '/data2/s'), ('root', '/r')), {'root': '/r', 'states': '/data2/s'}),
        ]
        for kind in ('single', 'benchmark'):
            for seq, want in cases:
                def go(it):
                    s = Scene(c, streams=())
                    it.setattr(s.io, 'folders', kind)
                    f = it.getattr(s.io, 'folders')
                    for k, v in seq:
                        it.setattr(f, k, v)
                    return {k: text(it.getattr(f, k)) for k in want}
                name = f"{kind} folders after {', '.join(f'{k}={v}' for k, v in seq) or 'nothing'}"
                out = c.run1(go)
                if out.exc:
                    c.ob('folders', name, False, str(out.exc), out.exc.where)
                    continue
                for k, v in want.items():
                    c.ob('folders', f"{name}: {k}", out.value[k] == v, f"{out.value[k]} instead of {v}")

    def moved(c):
        """any sequence of folders: the one set is where it was put, the ones within it (with the root: all relative to it) move along"""
        NAMES = {'root': None, 'states': 'states', 'vtk': 'vtk', 'settings': 'cfg', 'sensors': 'sensors'}
        join = lambda a, b: b if b.startswith('/') else a if not b else f"{a.rstrip('/')}/{b}"

        def below(p, base):
            return '' if p == base else p[len(base) + 1:] if p.startswith(base + '/') else None

        def model(seq):
            d = {k: '/<cwd>' if v is None else join('/<cwd>', v) for k, v in NAMES.items()}
            for k, v in seq:
                old, d[k] = d[k], join(d['root'], v)
                for q in d:
                    rest = below(d[q], old)
                    if q != k and rest is not None and (rest or k == 'root'):
                        d[q] = join(d[k], rest)
            return d
        values = ('out', 'out/sub', '/data', '/data/out')
        sets = [(k, v) for k in NAMES for v in values]
        seqs = [p for p in itertools.product(sets, sets)]
        seqs += [p for i, p in enumerate(itertools.product(sets, repeat=3)) if c.thorough or i % 7 == 3]
        seqs += [p for p in itertools.permutations([('root', '/data'), ('states', 'same'), ('vtk', 'same'), ('sensors', 'same'), ('vtk', 'other')])]
        n = 0

        def go(it):
            out = []
            for kind, cls in (('single', 'SingleFolders'), ('benchmark', 'BenchmarkFolders')):
                for seq in seqs if kind == 'single' else seqs[:400:9]:
                    f = it.call(c.api('dream.io', cls), [])
                    for k, v in seq:
                        it.setattr(f, k, v)
                    out.append((kind, seq, {k: text(it.getattr(f, k)) for k in NAMES}))
            return out
        o = c.run1(go)
        if o.exc:
            c.ob('folders', 'sequences of folders', False, str(o.exc), o.exc.where)
            return
        for kind, seq, got in o.value:
            want = model(seq)
            bad = {k: (got[k], want[k]) for k in want if got[k] != want[k]}
            c.ob('folders', f"{kind} folders after {', '.join(f'{k}={v}' for k, v in seq)}", not bad,
                 '; '.join(f"{k}: {a} instead of {b}" for k, (a, b) in bad.items()))
            n += 1
        c.need('sequences of folders', n, 1500)

    VARIANTS = ((), (('io.folders.root', '/data/run'),), (('io.folders.states', 'out'), ('io.gfu.filename', 'sol')),
                (('io.folders.states', '/big/states'),), (('io.gfu.filename', 'a_b'), ('io.folders.root', '/r')))

    def roundtrip(c):
        n = 0
        cbc = {'left': lambda S: S.cond('GRCBC', fields=State(S.gamma, 2, tag='f').fields(c), target='farfield')}
        for scheme, var, start, bcs in itertools.product(LEVELS, VARIANTS, (0.2, 0.0), ({}, cbc)):
            if (start == 0.0 or bcs) and var:
                continue
            vs = ('U', 'Uhat') if bcs else ('U',)
            name = f"{scheme}, start {start}, {', '.join(f'{k}={v}' for k, v in var) or 'defaults'}{', characteristic boundary' if bcs else ''}"

            def go(it):
                s = Scene(c, scheme=scheme, start=start, step=0.05, streams=('gfu',), bcs=bcs, opts={**dict(var), 'io.gfu.time_level_rate': 1})
                tr, exc, _ = s.run()
                if exc:
                    raise exc
                ev = lambda f: (lambda n0: (f(), s.trace(it.events[n0:]))[1])(len(it.events))
                g = s.get('io.gfu')
                loads = {}
                for t in [s.start] + s.labels:
                    loads[t] = (ev(lambda: it.call(it.getattr(g, 'load_routine'), [t])),
                                ev(lambda: it.call(it.getattr(g, 'load_time_levels'), [t])))
                named = []
                for nm in (None, 'other'):
                    for label, gf in s.S.gfus.items():
                        named.append((nm, label, ev(lambda: it.call(it.getattr(g, 'save_gridfunction'), [gf] + ([nm] if nm else []))),
                                      ev(lambda: it.call(it.getattr(g, 'load_gridfunction'), [gf] + ([nm] if nm else [])))))
                return s, tr, loads, named, text(it.getattr(s.get('io.folders'), 'states'))
            out = c.run1(go)
            if out.exc:
                c.ob('same file', name, False, str(out.exc), out.exc.where)
                continue
            s, tr, loads, named, folder = out.value
            saved = {}
            for e in tr:
                if e[0] == 'gfu':
                    saved.setdefault(e[1], set()).add((e[2], e[3]))
            for p, who in saved.items():
                c.ob('distinct', f"{name}: {p.rsplit('/', 1)[1]} holds one state only", len(who) == 1, f"{who}")
                c.ob('folder', f"{name}: {p.rsplit('/', 1)[1]} lies in the folder of the states", p.rsplit('/', 1)[0] == folder, p)
            for i, (t, (st, lv)) in enumerate(loads.items()):
                got = [e[1:3] for e in st if e[0] == 'load']
                c.ob('same file', f"{name}: state at {t}", len(got) == 1 and got[0][1] == 'state' and
                     saved.get(got[0][0]) == {('state', i)}, f"{got}")
                got = {e[1:3] for e in lv if e[0] == 'load'}
                c.ob('same file', f"{name}: all time levels at {t}", {g[1] for g in got} == {(v, l) for v in vs for l in LEVELS[scheme]} and
                     all(saved.get(p) == {(g, i)} for p, g in got), f"{got}")
            for nm, label, sv, ld in named:
                a, b = [e[1:3] for e in sv if e[0] == 'gfu'], [e[1:3] for e in ld if e[0] == 'load']
                c.ob('same file', f"{name}: gridfunction {label} under {nm or 'the default name'}", len(a) == 1 and a == b, f"{a} {b}")
            n += 1
        c.need('round trips of states', n, 10)

    def times(c):
        """any time has a file of its own, whatever its size or number of digits"""
        T = (0.0, 2.5e-10, 5e-10, 1e-16, 1 / 3, 0.1 + 0.2, 0.3, 1234567.8901234, 1e22, 7, -1.0)
        for scheme in LEVELS:
            def go(it):
                s = Scene(c, scheme=scheme, streams=('gfu',), opts={'io.gfu.time_level_rate': 1})
                ev = lambda f: (lambda n0: (f(), s.trace(it.events[n0:]))[1])(len(it.events))
                g = s.get('io.gfu')
                return [(t, ev(lambda: it.call(it.getattr(g, 'save_in_time_routine'), [t, 0])),
                         ev(lambda: it.call(it.getattr(g, 'load_routine'), [t])),
                         ev(lambda: it.call(it.getattr(g, 'load_time_levels'), [t]))) for t in T]
            out = c.run1(go)
            if out.exc:
                c.ob('same file', f"{scheme}: times of any size", False, str(out.exc), out.exc.where)
                continue
            owner = {}
            for t, sv, st, lv in out.value:
                saved = {e[1]: e[2] for e in sv if e[0] == 'gfu'}
                for p in saved:
                    c.ob('distinct', f"{scheme}: {p.rsplit('/', 1)[1]} belongs to one time", owner.setdefault(p, t) == t, f"{t} and {owner[p]}")
                got = [e[1:3] for e in st if e[0] == 'load']
                c.ob('same file', f"{scheme}: state at time {t!r}", len(got) == 1 and saved.get(got[0][0]) == 'state' == got[0][1],
                     f"loads {got}, saved {saved}")
                got = {e[1:3] for e in lv if e[0] == 'load'}
                c.ob('same file', f"{scheme}: time levels at time {t!r}", {g[1] for g in got} == {('U', l) for l in LEVELS[scheme]} and
                     all(saved.get(p) == g for p, g in got), f"loads {got}, saved {saved}")

    def transient(c):
        top = 7 if c.thorough else 5
        n = 0
        for steps, rate in itertools.product(range(1, top + 1), (1, 2, 3, 5)):
            name = f"{steps} steps, rate {rate}"

            def go(it):
                s = Scene(c, steps=steps, streams=('gfu',), opts={'io.gfu.rate': rate})
                tr, exc, _ = s.run()
                if exc:
                    raise exc
                n0 = len(it.events)
                ys = []
                for t in it.iterate(it.call(it.getattr(s.get('io.gfu'), 'load_transient_routine'), [])):
                    it.events.append(('mark', 'yield', t))
                    ys.append(t)
                return s, tr, s.trace(it.events[n0:]), ys
            out = c.run1(go)
            if out.exc:
                c.ob('transient', name, False, str(out.exc), out.exc.where)
                continue
            s, tr, ld, ys = out.value
            want = [s.labels[i] for i in expected(steps, rate)]
            c.ob('transient', f"{name}: visits the stored steps in order", len(ys) == len(want) and
                 all(same_time(a, b) for a, b in zip(ys, want)), f"{ys} instead of {want}")
            paths = [e[1] for e in tr if e[0] == 'gfu' and e[2] == 'state'][1:]
            seq = [e[0] for e in ld if e[0] in ('load', 'yield')]
            c.ob('transient', f"{name}: loads the stored states in order", [e[1] for e in ld if e[0] == 'load'] == paths, f"{ld} for {paths}")
            c.ob('transient', f"{name}: each state is loaded before it is handed over", seq == ['load', 'yield'] * len(want), f"{seq}")
            n += 1
        c.need('transient loads', n, 20)

    def steady(c):
        for time in ('stationary', 'pseudo_time_stepping'):
            def go(it):
                s = Scene(c, time=time, streams=('gfu',))
                tr, exc, _ = s.run()
                if exc:
                    raise exc
                g = s.get('io.gfu')
                n0 = len(it.events)
                it.call(it.getattr(g, 'load_routine'), [None if time == 'stationary' else it.call(it.getattr(it.getattr(s.get('time.timer'), 't'), 'Get'), [])])
                ld = s.trace(it.events[n0:])
                refused = {}
                for m, a in (('load_time_levels', [0.5]), ('load_transient_routine', [])):
                    try:
                        it.to_list(it.call(it.getattr(g, m), a)) if m == 'load_transient_routine' else it.call(it.getattr(g, m), a)
                        refused[m] = None
                    except PyEx as ex:
                        refused[m] = ex.value.cls.name
                return tr, ld, refused
            out = c.run1(go)
            if out.exc:
                c.ob('same file', time, False, str(out.exc), out.exc.where)
                continue
            tr, ld, refused = out.value
            sv = [e for e in tr if e[0] == 'gfu' and e[2] == 'state']
            got = [e for e in ld if e[0] == 'load']
            c.ob('same file', f"final state of a {time} run", bool(sv) and len(got) == 1 and got[0][1] == sv[-1][1] and got[0][2] == 'state',
                 f"{got} for {sv[-1:]}")
            if time == 'stationary':
                for m, x in refused.items():
                    c.ob('refused', f"{m} in stationary mode", x == 'ValueError', f"{x}")

    def missing(c):
        """a state or file that does not exist is reported"""
        def go(it):
            res = {}
            for what in ('load_routine', 'load_time_levels', 'load_transient_routine', 'load_gridfunction'):
                s = Scene(c, streams=('gfu',))
                g = s.get('io.gfu')
                o = IObj(it.models_cls['NgException'] if 'NgException' in it.models_cls else it.builtin_cls['RuntimeError'])
                o.d['args'] = ('cannot open file',)

                def hook(it, kind, obj, args, kw):
                    if kind == 'gf.load':
                        raise PyEx(o, it.where())
                it.ext_hook = hook
                try:
                    a = {'load_routine': [0.3], 'load_time_levels': [0.3], 'load_transient_routine': [],
                         'load_gridfunction': [it.getattr(s.cfg, 'gfu'), 'x']}[what]
                    r = it.call(it.getattr(g, what), a)
                    if what == 'load_transient_routine':
                        it.to_list(r)
                    res[what] = None
                except PyEx as ex:
                    res[what] = ex.value is o
                finally:
                    it.ext_hook = None
            for what, q in (('mesh', ('io.ngsmesh', 'load_routine')), ('settings', ('io.settings', 'load_from_pickle'))):
                s = Scene(c, streams=(q[0].split('.')[1],))
                o = IObj(it.builtin_cls['FileNotFoundError'] if 'FileNotFoundError' in it.builtin_cls else it.builtin_cls['OSError'])
                o.d['args'] = ('no such file',)

                def hook(it, kind, obj, args, kw):
                    if kind == 'file.open?':
                        raise PyEx(o, it.where())
                it.ext_hook = hook
                try:
                    it.call(it.getattr(s.get(q[0]), q[1]), [])
                    res[what] = None
                except PyEx as ex:
                    res[what] = ex.value is o
                finally:
                    it.ext_hook = None
            return res
        out = c.run1(go)
        if out.exc:
            c.ob('missing', 'missing files', False, str(out.exc), out.exc.where)
            return
        for k, v in out.value.items():
            c.ob('missing', f"{k}: the error of a missing file reaches the caller", v is True, f"{v}")

    def pickles(c):
        """settings and mesh: what is written is what is read"""
        for var in ((), (('io.folders.root', '/r'),), (('io.folders.settings', 'sub'), ('io.settings.filename', 'case'), ('io.ngsmesh.filename', 'grid'))):
            def go(it):
                s = Scene(c, time='stationary', streams=('settings', 'ngsmesh'), opts=dict(var))
                tr, exc, _ = s.run()
                if exc:
                    raise exc
                res = []
                for m, q in (('settings', 'load_from_pickle'), ('ngsmesh', 'load_routine')):
                    n0 = len(it.events)
                    r = it.call(it.getattr(s.get('io.' + m), q), [])
                    res.append((m, [e for e in it.events[n0:] if e[0] in ('file.open', 'pickle.load', 'file.close')], r))
                # an explicit name
                st = s.get('io.settings')
                n0 = len(it.events)
                it.call(it.getattr(st, 'save_to_pickle'), ['named'])
                a = [text(e[1].path) for e in it.events[n0:] if e[0] == 'file.open']
                n0 = len(it.events)
                it.call(it.getattr(st, 'load_from_pickle'), ['named'])
                b = [text(e[1].path) for e in it.events[n0:] if e[0] == 'file.open']
                return s, tr, res, it.call(it.getattr(s.cfg, 'to_tree'), []), a, b
            name = ', '.join(f'{k}={v}' for k, v in var) or 'defaults'
            out = c.run1(go)
            if out.exc:
                c.ob('same file', f"settings and mesh, {name}", False, str(out.exc), out.exc.where)
                continue
            s, tr, res, tree, a, b = out.value
            c.ob('same file', f"settings under an explicit name, {name}", len(a) == 1 and a == b, f"{a} {b}")
            dumps = [(e[1], e[2]) for e in tr if e[0] == 'dump']
            objs = {'settings': tree, 'ngsmesh': s.S.mesh}
            for m, ev, r in res:
                op = [e[1] for e in ev if e[0] == 'file.open']
                hit = [d for d in dumps if op and d[0] == text(op[0].path)]
                same = len(hit) == 1 and (hit[0][1] is objs[m] if m == 'ngsmesh' else repr(hit[0][1]) == repr(objs[m]))
                c.ob('same file', f"{m} read from the file it was written to, {name}", same, f"{op} {[d[0] for d in dumps]}")
                c.ob('same file', f"{m} is opened for binary reading and closed, {name}", len(op) == 1 and op[0].mode == 'rb' and
                     op[0].closed and any(e[0] == 'pickle.load' and e[1] is op[0] for e in ev), f"{ev}")
            for e in tr:
                if e[0] == 'open' and not text(e[1].path).endswith('.txt'):
                    c.ob('same file', f"{text(e[1].path).rsplit('/', 1)[1]} is opened for binary writing, {name}", e[1].mode == 'wb', e[1].mode)

    def created(c):
        """folders are created before files are put into them"""
        for time in ('transient', 'stationary'):
            def go(it):
                s = Scene(c, time=time, opts={'io.gfu.time_level_rate': 1, 'io.folders.root': '/data/new'})
                s.exists = False
                tr, exc, _ = s.run()
                if exc:
                    raise exc
                return s, tr
            out = c.run1(go)
            if out.exc:
                c.ob('created', time, False, str(out.exc), out.exc.where)
                continue
            s, tr = out.value
            made = {}
            seen = set()
            for e in tr:
                if e[0] == 'mkdir':
                    made[e[1]] = e[2]
                p = text(e[1].path) if e[0] == 'open' else e[1] if e[0] == 'gfu' else \
                    text(e[2].get('filename')) if e[0] == 'vtk.new' else None
                if p and p.rsplit('/', 1)[0] not in seen:
                    d = p.rsplit('/', 1)[0]
                    seen.add(d)
                    c.ob('created', f"{time}: folder {d} exists before files are written", d in made and made[d].get('parents') is True,
                         f"{made}")
            c.ob('created', f"{time}: all outputs use folders", len(seen) == 5, f"{seen}")
    def stored_sensors(c):
        """the sensors of stored settings, loaded into another solver, write the tables of the ones stored"""
        D = ('inner', 'sponge', 'psponge')
        KINDS = {'point': {'points': ((0., 1.), (1., 0.)), 'rate': 2}, 'domain': {'regions': ('sponge', 'inner'), 'integration_order': 8},
                 'boundary': {'regions': 'left|top', 'rate': 3}, 'domain_L2': {'regions': None}, 'boundary_L2': {'integration_order': 2, 'regions': ('top',)}}

        def tables(tr):
            return [(e[0], e[1], [A.brief(F.to_e(v), 400) if F.to_e(v) is not None else repr(v) for v in e[2]], *e[3:])
                    for e in tr if e[0] in ('header', 'row')]
        for kind, kw in KINDS.items():
            for used in (False, True):
                def go(it):
                    spec = (kind, 'table', {'fields': shaped(('s', 'm')), **kw})
                    a = Scene(c, steps=4, streams=('sensor',), materials=D, sensors=[spec])
                    if used:
                        a.run()
                    tree = it.call(it.getattr(a.cfg, 'to_tree'), [])
                    sensors = it.getitem(tree, f'io.sensor.{kind}')
                    x = it.getitem(sensors, 'table')
                    state = it.call(it.getattr(x, '__getstate__'), [])
                    keys = it.mapping_keys(state)
                    foreign = [k for k in keys if any(it.getitem(state, k) is o for o in (a.cfg, a.S.mesh))]
                    new = IObj(x.cls)           # as loading a pickle makes it
                    for k in keys:
                        new.d[k] = dict(v) if isinstance(v := it.getitem(state, k), dict) else v
                    b = Scene(c, steps=4, streams=('sensor',), materials=D, sensors=[])
                    b.set(f'io.sensor.{kind}', {'table': new})
                    tb, exc, _ = b.run()
                    if exc:
                        raise exc
                    f = Scene(c, steps=4, streams=('sensor',), materials=D, sensors=[spec])
                    return tables(tb), tables(f.run()[0]), foreign
                name = f"{kind} sensor of stored settings{' after a run' if used else ''}"
                o = c.run1(go)
                if o.exc:
                    c.ob('stored sensors', name, False, str(o.exc), o.exc.where)
                    continue
                got, want, foreign = o.value
                d = next(((x, y) for x, y in itertools.zip_longest(got, want) if x != y), None)
                c.ob('stored sensors', name, d is None and len(want) > 5, f"{d and d[0]} instead of {d and d[1]}")
                c.ob('stored sensors', f"{name}: hold no solver and no mesh", not foreign, f"{foreign}")

    for f in (folders, moved, stored_sensors, roundtrip, times, transient, steady, missing, pickles, created):
        c.part(f)


# ------------------------------------------------------------------ C17

XYZ = 'xyz'


def shapes(tag=''):
    """fields of every shape: name -> (dims, component labels)"""
    return {'s': ((), (' ',)), 'w': ((2,), ('x', 'y')), 'v': ((3,), ('x', 'y', 'z')), 'q': ((4,), (0, 1, 2, 3)),
            'm': ((2, 2), ('xx', 'xy', 'yx', 'yy')),
            'n': ((3, 3), tuple(a + b for a in XYZ for b in XYZ)),
            'r': ((2, 3), tuple(range(6))), 'k': ((3, 2), tuple(range(6))), 'h': ((1, 4), tuple(range(4))), 'g': ((9, 1), tuple(range(9))),
            'j': ((9,), tuple(range(9))), 'one': ((1,), None)}


def shaped(names):
    """{field: Cf} with a distinct symbol per component"""
    out = {}
    for k in names:
        dims, _ = shapes()[k]
        n = 1
        for d in dims:
            n *= d
        out[k] = F.Cf([A.declare(f"{k}#{i}") for i in range(n)], dims)
    return out


def c17(c):
    it = c.it
    SETS = (('s',), ('w',), ('v',), ('q',), ('m',), ('n',), ('r',), ('k',), ('s', 'm', 'w'), ('w', 's'), ('r', 'v', 's', 'q'),
            ('m', 'n'), ('s', 'one'), ('h',), ('g', 's'), ('j', 'h'))
    P1, P2, P3 = ((0., 0.),), ((0.5, 0.25), (0., 1.)), ((0., 0.), (1., 0.), (0.5, 0.75))
    DOM = ('inner', 'sponge', 'psponge')
    BND = ('left', 'right', 'top', 'bottom')

    def wheres(kind):
        """setting of the location -> [(head label, descriptor)]"""
        if kind == 'point':
            return [(('points', p), [(x, x) for x in p]) for p in (P1, P2, P3, P2[::-1])] + [(('points', 'left'), None)]
        vb = 'BND' if kind.startswith('boundary') else 'VOL'
        al = BND if vb == 'BND' else DOM
        a, b = al[0], al[2]
        whole = '|'.join(al)
        one = lambda x: (x, frozenset(x.split('|')))
        return [(None, [one(whole)]), (('regions', a), [one(a)]), (('regions', f"{a}|{b}"), [one(f"{a}|{b}")]),
                (('regions', (a,)), [one(a)]), (('regions', (b, a)), [one(b), one(a)]), (('regions', [a, b]), [one(a), one(b)]),
                (('regions', (a, 'nowhere', b)), [one(a), one(b)]), (('regions', f"{a}|nowhere"), [one(a)]),
                (('regions', (a[1:-1], b)), [one(b)]), (('regions', f"{a[:-1]}|{b}|{a}2"), [one(b)])]

    @sharded
    def table(c):
        n = 0
        for kind in ('point', 'domain', 'boundary', 'domain_L2', 'boundary_L2'):
            for (setting, locs), names in itertools.product(wheres(kind), SETS):
                if len(names) == 1 and setting not in (None, wheres(kind)[0][0], wheres(kind)[1][0]) and names != ('m',) and not c.thorough:
                    continue
                if c.turn():
                    n += one(c, kind, setting, locs, names, 'transient')
            for time in ('stationary', 'pseudo_time_stepping'):
                for (setting, locs) in wheres(kind)[:2]:
                    if c.turn():
                        n += one(c, kind, setting, locs, ('s', 'm', 'w'), time)
        c.need('tables', n, 150)

    def one(c, kind, setting, locs, names, time, order=None, **opts):
        name = f"{time} {kind} sensor of {'+'.join(names)} at {setting[1] if setting else 'all regions'}"
        f = shaped(names)

        def go(it):
            kw = {'fields': dict(f)}
            if setting:
                kw[setting[0]] = setting[1]
            if order is not None:
                kw['integration_order'] = order
            s = Scene(c, time=time, steps=2, streams=('sensor',), sensors=[(kind, 'table', kw)], opts=opts,
                      materials=DOM)
            tr, exc, _ = s.run()
            if exc:
                raise exc
            return s, tr
        out = c.run1(go)
        if out.exc:
            c.ob('table', name, False, str(out.exc), out.exc.where)
            return 1
        s, tr = out.value
        heads = [e[2] for e in tr if e[0] == 'header']
        rows = [e[2] for e in tr if e[0] == 'row']
        place = 'point' if kind == 'point' else 'region'
        want_heads = [place, 'field', 'component'] + (['t'] if time != 'stationary' else [])
        c.ob('header', f"{name}: head rows", sorted(h[0] for h in heads) == sorted(want_heads), f"{[h[0] for h in heads]}")
        h = {x[0]: x[1:] for x in heads}
        if not all(k in h for k in want_heads):
            return 1
        width = len(h[place])
        c.ob('width', f"{name}: every row has one cell per column", all(len(r) == width + 1 for r in heads + rows),
             f"{[len(r) - 1 for r in heads]} in the header, {[len(r) - 1 for r in rows]} in the rows")
        c.ob('rows', f"{name}: rows", len(rows) == (3 if time == 'transient' else 2), f"{len(rows)}")
        if locs is None:        # the vertices of a boundary
            pts = {((float(BND.index(setting[1]))), float(i)) for i in range(3)}
            got = list(dict.fromkeys(h[place]))
            c.ob('columns', f"{name}: one column group per vertex", set(got) == pts, f"{got}")
            locs = [(p, p) for p in got]
        l2 = kind.endswith('L2')
        keys = [(p, q, r) for p, q, r in zip(h[place], h['field'], h['component'])]
        want = {}
        for lab, desc in locs:
            for k in names:
                dims, labels = shapes()[k]
                comp = [('L2', None)] if l2 else [(l, i) for i, l in enumerate(labels or (None,))]
                for l, i in comp:
                    want[(lab, k, l)] = (desc, k, i)
        keys = [(p, q, None if (p, q, None) in want else r) for p, q, r in keys]
        c.ob('columns', f"{name}: one column per location, field and component", len(set(keys)) == len(keys) and set(keys) == set(want),
             f"{[k for k in keys if k not in want]} unexpected, {[k for k in want if k not in keys]} missing")
        # every value stands in the column of its key
        for row in rows[:1] + rows[-1:]:
            vals = row[1:]
            for key, v in zip(keys, vals):
                if key not in want:
                    continue
                desc, k, i = want[key]
                e = expected_value(kind, f[k], i, desc, 5 if order is None else order)
                got = F.to_e(v)
                c.ob('value', f"{name}: column {key}", got is not None and e is not None and A.equal(got, e).ok,
                     f"{A.brief(got, 160) if got is not None else v} instead of {A.brief(e, 160)}")
        if time == 'transient':
            want_t = [s.start] + s.labels
            c.ob('time', f"{name}: rows carry their time", len(rows) == 3 and all(same_time(r[0], t) for r, t in zip(rows, want_t)),
                 f"{[r[0] for r in rows]}")
        elif time == 'stationary':
            c.ob('time', f"{name}: rows carry no time", all(isinstance(r[0], str) and not r[0].strip() for r in rows), f"{[r[0] for r in rows]}")
        return 1

    def expected_value(kind, f, i, desc, order):
        es = f.e if i is not None else [functools.reduce(A.add, [A.mul(x, x) for x in f.e])]
        e = es[i if i is not None else 0]
        if kind == 'point':
            return A.fn('at', e, A.declare(f"pt{tuple(desc)!r}"))
        vb = 'BND' if kind.startswith('boundary') else 'VOL'
        if vb == 'BND':
            e = A.fn('bfv', e)
        r = A.fn('int', e, A.declare(f"over:{(vb, '|'.join(order_of(desc, vb)))!r}:{order!r}"))
        return A.sqrt(r) if kind.endswith('L2') else r

    def order_of(desc, vb):
        al = BND if vb == 'BND' else DOM
        return sorted(desc, key=al.index)

    def orders(c):
        """the integration order of the sensor is the one used"""
        n = 0
        for kind in ('domain', 'boundary', 'domain_L2', 'boundary_L2'):
            for order in (0, 3, 11):
                n += one(c, kind, None, wheres(kind)[0][1], ('s', 'w'), 'transient', order=order)
        c.need('orders', n, 12)

    def several(c):
        """each sensor writes its own table: rows of one do not reach the other"""
        def go(it):
            s = Scene(c, steps=3, streams=('sensor',), materials=DOM, sensors=[
                ('point', 'a', {'points': P2, 'fields': shaped(('s',)), 'rate': 2}),
                ('domain', 'b', {'fields': shaped(('w',))}),
                ('boundary_L2', 'c', {'fields': shaped(('m',)), 'regions': ('left',)}),
                ('point', 'd', {'points': P1, 'fields': shaped(('r',)), 'rate': 5})])
            tr, exc, _ = s.run()
            if exc:
                raise exc
            return s, tr
        out = c.run1(go)
        if out.exc:
            c.ob('table', 'several sensors', False, str(out.exc), out.exc.where)
            return
        s, tr = out.value
        files = {}
        for e in tr:
            if e[0] in ('row', 'header'):
                files.setdefault(e[1].rsplit('/', 1)[1], []).append(e)
        c.ob('several', 'one file per sensor', sorted(files) == ['a.csv', 'b.csv', 'c.csv', 'd.csv'], f"{sorted(files)}")
        for f, es in files.items():
            w = {len(e[2]) for e in es}
            want = {'a.csv': 3, 'b.csv': 3, 'c.csv': 2, 'd.csv': 7}.get(f)
            c.ob('several', f"{f}: rows of one width", w == {want}, f"{w} instead of {want}")
            c.ob('several', f"{f}: the header stands above the rows", [e[0] for e in es][:4] == ['header'] * 4 and
                 all(e[0] == 'row' for e in es[4:]), f"{[e[0] for e in es]}")
            first = {k: es[0][2][1:] for k in [0]}[0] if es else []
            fields = next((e[2][1:] for e in es if e[0] == 'header' and e[2][0] == 'field'), [])
            c.ob('several', f"{f}: its own fields", set(fields) == {{'a': 's', 'b': 'w', 'c': 'm', 'd': 'r'}[f[0]]}, f"{fields}")

    def modes(c):
        """append adds rows below an existing header, no csv writes nothing, several runs repeat the columns"""
        for what, opts in (('append', {'io.sensor.mode': 'a'}), ('no csv', {'io.sensor.to_csv': False}), ('twice', {})):
            def go(it):
                s = Scene(c, steps=2, streams=('sensor',), materials=DOM, opts=opts, sensors=[
                    ('domain', 'b', {'fields': shaped(('w', 's')), 'regions': 'inner|nowhere'}), ('point', 'p', {'points': 'top', 'fields': shaped(('s',))})])
                a, exc, _ = s.run()
                if exc:
                    raise exc
                b = s.run()[0] if what == 'twice' else None
                return a, b
            out = c.run1(go)
            if out.exc:
                c.ob('modes', what, False, str(out.exc), out.exc.where)
                continue
            a, b = out.value
            if what == 'append':
                c.ob('modes', 'appending writes no second header', not only(a, 'header') and len(only(a, 'row')) == 6, f"{[e[0] for e in a]}")
                c.ob('modes', 'appending opens the files for appending', all(e[1].mode == 'a' for e in only(a, 'open')) and only(a, 'open'))
            elif what == 'no csv':
                c.ob('modes', 'without csv no file is touched', not only(a, 'header', 'row', 'open'), f"{[e[0] for e in a]}")
            else:
                ta, tb = ([(e[1], e[2]) for e in only(t, 'header')] for t in (a, b))
                c.ob('modes', 'a repeated run writes the same header', ta == tb and len(ta) == 8, f"{ta} then {tb}")

    def loaded(c):
        """a table is read back with all its rows below its header"""
        n = 0
        for kind, time, by in itertools.product(('point', 'boundary', 'domain_L2'), ('transient', 'stationary', 'pseudo_time_stepping'),
                                                ('name', 'sensor')):
            for kw, again in (({}, False), ({'header': [0]}, False), ({'index_col': 2}, False), ({'nrows': 4}, False), ({}, True)):
                def go(it):
                    loc = {'points': ((0., 0.),)} if kind == 'point' else {}
                    s = Scene(c, time=time, steps=2, streams=('sensor',), materials=DOM, sensors=[
                        ('domain', 'other', {'fields': shaped(('s',))}), (kind, 'table', {'fields': shaped(('s', 'w')), **loc})])
                    tr, exc, _ = s.run()
                    if exc:
                        raise exc
                    if again:       # more rows below the same header
                        s.set('io.sensor.mode', 'a')
                        s.run()
                    n0 = len(it.events)
                    arg = 'table' if by == 'name' else it.getitem(s.get(f'io.sensor.{kind}'), 'table')
                    r = it.call(it.getattr(s.get('io.sensor'), 'load_as_dataframe'), [arg], dict(kw))
                    return tr, [e for e in it.events[n0:] if e[0] == 'read_csv'], r
                name = f"{time} {kind} table by {by}{f' with {kw}' if kw else ''}{', appended' if again else ''}"
                out = c.run1(go)
                if out.exc:
                    c.ob('loaded', name, False, str(out.exc), out.exc.where)
                    continue
                tr, reads, r = out.value
                files = [e[1] for e in only(tr, 'open') if 'table' in text(e[1].path)]
                heads = sum(e[0] == 'header' and e[1] in {text(f.path) for f in files} for e in tr)
                if not c.ob('loaded', f"{name}: is read once and returned", len(reads) == 1 and reads[0][4] is r and len(files) == 1, f"{reads}"):
                    continue
                _, path, a, k, _ = reads[0]
                c.ob('loaded', f"{name}: from its file", text(path) == text(files[0].path), f"{text(path)} instead of {text(files[0].path)}")
                h = k.get('header')
                if 'header' not in kw:
                    c.ob('loaded', f"{name}: every header row and no more", h is not None and not isinstance(h, str) and list(h) == list(range(heads)),
                         f"header {h} of a table with {heads} rows in its header")
                    c.ob('loaded', f"{name}: indexed by the first column", 'index_col' in kw or k.get('index_col') in (0, [0], (0,)), f"{k}")
                c.ob('loaded', f"{name}: as asked for", all(k.get(x) == y for x, y in kw.items()), f"{k}")
                n += 1
        c.need('loaded tables', n, 90)

    def moved(c):
        """a sensor used by one solver and then by another measures on the mesh of the other"""
        for kind, used in itertools.product(('point', 'domain', 'boundary', 'domain_L2', 'boundary_L2'), (False, True)):
            def go(it):
                kw = {'points': P2} if kind == 'point' else {}
                a = Scene(c, steps=1, streams=('sensor',), materials=DOM, sensors=[(kind, 'table', {'fields': shaped(('s',)), **kw})])
                if used:
                    a.run()
                x = it.getitem(a.get(f'io.sensor.{kind}'), 'table')
                b = Scene(c, steps=1, streams=('sensor',), materials=('air', 'water'), sensors=[])
                b.set(f'io.sensor.{kind}', {'table': x})
                n0 = len(it.events)
                tr, exc, _ = b.run()
                if exc:
                    raise exc
                m = []
                for e in it.events[n0:]:
                    if e[0] == 'cfcall':
                        m += [p.mesh for p in e[2]]
                    elif e[0] == 'integrate' and e[2] is not None:
                        m += [e[2], *([e[4].mesh] if hasattr(e[4], 'mesh') else [])]
                return b.S.mesh, m, tr
            name = f"{kind} sensor{' after a run' if used else ''} of another solver"
            out = c.run1(go)
            if out.exc:
                c.ob('moved', name, False, str(out.exc), out.exc.where)
                continue
            mesh, m, tr = out.value
            c.ob('moved', f"{name}: measures on the mesh of its solver", bool(m) and all(x is mesh for x in m), f"{m}")
            c.ob('moved', f"{name}: writes its rows", len(only(tr, 'row')) == 2, f"{[e[0] for e in tr]}")

    @sharded
    def chosen(c):
        """sensors chosen one after the other, by name or dictionary, are all in force, each with the settings made"""
        CLS = {'point': 'PointSensor', 'domain': 'DomainSensor', 'boundary': 'BoundarySensor', 'domain_L2': 'DomainL2Sensor',
               'boundary_L2': 'BoundaryL2Sensor'}
        ONE = {'name': lambda it, k, n: n, 'dictionary': lambda it, k, n: {n: made(it, k, n)},
               'two at once': lambda it, k, n: {n: made(it, k, n), n + "'": made(it, k, n + "'")}}
        HOWS = {'attribute': lambda it, st, k, v: it.setattr(st, k, v), 'update': lambda it, st, k, v: it.call(it.getattr(st, 'update'), [{k: v}]),
                'key': lambda it, st, k, v: it.setitem(st, k, v)}

        def made(it, k, n):
            return it.call(c.api('dream.io', CLS[k]), [], {'sensor_name': n, 'fields': {'p': F.cf_of(it, 1)}, **place(k)})

        def place(k):
            return {'points': ((0.5, 0.5),)} if k == 'point' else {}
        n = 0
        for kind in CLS:
            for (a, b), (ha, hb) in itertools.product(itertools.product(ONE, ONE), itertools.product(HOWS, HOWS)):
                if ha != hb and (a, b) not in (('name', 'dictionary'), ('dictionary', 'name')) or not c.turn():
                    continue

                def go(it):
                    s = Scene(c, steps=1, streams=('sensor',), sensors=())
                    st = it.getattr(s.io, 'sensor')
                    for h, f, nm in ((ha, a, 'first'), (hb, b, 'second')):
                        HOWS[h](it, st, kind, ONE[f](it, kind, nm))
                        if f == 'name':
                            x = it.getitem(it.getattr(st, kind), nm)
                            for k, v in {'fields': {'p': F.cf_of(it, 1)}, **place(kind)}.items():
                                it.setattr(x, k, v)
                    tr, exc, _ = s.run()
                    if exc:
                        raise exc
                    rows = [r[1].rsplit('/', 1)[-1] for r in tr if r[0] == 'row']
                    return {x: rows.count(x) for x in rows}
                name = f"{kind} sensors by {a} ({ha}), then by {b} ({hb})"
                want = {f"{x}.csv": 2 for f, w in ((a, 'first'), (b, 'second')) for x in ((w, w + "'") if f == 'two at once' else (w,))}
                o = c.run1(go)
                c.ob('chosen', name, not o.exc and o.value == want, f"{o.exc or o.value} instead of {want}", o.exc and o.exc.where)
                n += 1
        c.need('selections of sensors', n, 100)

    def refused(c):
        """tables which can not be written are refused before the run"""
        def go(it):
            res = {}
            for what, sensors in (('same name', [('domain', 'x', {}), ('boundary', 'x', {})]),
                                  ('no fields', [('domain', 'x', {'fields': {}})])):
                s = Scene(c, steps=1, streams=('sensor',), sensors=sensors)
                tr, exc, _ = s.run()
                res[what] = (exc.value.cls.name if exc else None, only(tr, 'row', 'solve'))
            return res
        out = c.run1(go)
        if out.exc:
            c.ob('refused', 'sensors', False, str(out.exc), out.exc.where)
            return
        for what, (x, tr) in out.value.items():
            c.ob('refused', f"sensors with {what}", x == 'ValueError' and not tr, f"{x}, {tr[:2]}")
    for f in (table, orders, several, modes, loaded, moved, chosen, refused):
        c.part(f)



# ------------------------------------------------------------------ C28

def c28(c):
    it = c.it

    def handles(s, events, name, rule='closed'):
        op = [e[1] for e in events if e[0] == 'file.open']
        for f in op:
            n = sum(1 for g in op if text(g.path) == text(f.path))
            c.ob(rule, f"{name}: {text(f.path).rsplit('/', 1)[1]} is closed", f.closed, 'left open')
        return len(op)

    def runs(c):
        """files opened by a run are closed on every exit, and the next run works"""
        n = 0
        SENS = (('point', 'probe', {'points': ((0., 0.), (1., 1.))}), ('boundary', 'wall', {'regions': ('left', 'top')}),
                ('domain_L2', 'norm', {}))
        for time in ('transient', 'stationary', 'pseudo_time_stepping'):
            def fresh():
                return Scene(c, time=time, steps=2, sensors=SENS, opts={'io.settings.yaml': True})

            def attempt(s, res, name, **k):
                n0 = len(it.events)
                tr, exc, total = s.run(**k)
                res.append((name, s, it.events[n0:], exc))
                n1 = len(it.events)
                tr2, exc2, total2 = s.run()
                res.append((name + ', then run again', s, it.events[n1:], exc2))
                return total, tr2, exc2, total2

            def go(it):
                res, again = [], []
                s = fresh()
                total, tr2, exc2, total2 = attempt(s, res, f"{time}, completed")
                again.append(('completed', exc2, total2, total))
                for stop in ((0, 1) if time == 'transient' else (0,)):
                    s = fresh()
                    _, tr2, exc2, total2 = attempt(s, res, f"{time}, abandoned at {stop}", stop=stop)
                    again.append((f"abandoned at {stop}", exc2, total2, total))
                for k in range(total):
                    s = fresh()
                    _, tr2, exc2, total2 = attempt(s, res, f"{time}, failing effect {k}", fail=k)
                    again.append((f"failing effect {k}", exc2, total2, total))
                return res, again
            out = c.run1(go)
            if out.exc:
                c.ob('closed', time, False, str(out.exc), out.exc.where)
                continue
            res, again = out.value
            for name, s, events, exc in res:
                n += handles(s, events, name)
            for name, exc, a, b in again:
                c.ob('again', f"{time}: a run after one that was {name} performs all outputs", exc is None and a == b,
                     f"{exc}, {a} effects instead of {b}")
        c.need('opened files', n, 200)

    OPS = (('to_file', True), ('to_file', False), ('to_terminal', True), ('to_terminal', False), ('level', 'DEBUG'),
           ('level', 20), ('log', True), ('log', False))

    def kinds(stream, logger):
        return sorted(h.kind for h in logger.handlers)

    def logs(c):
        """each way of switching the log: exactly the handlers the settings name, with the format of the level"""
        n = 0
        for seq in itertools.chain.from_iterable(itertools.product(OPS, repeat=k) for k in range(0, 5 if c.thorough else 4)):
            if any(o == ('log', False) for o in seq[:-1]):
                continue
            n += 1
            name = ', '.join(f"{k}={v}" for k, v in seq) or 'a new solver'

            def go(it):
                it.assume = lambda key, options: True if key[0] in ('exists', 'isdir') else None
                io = it.getattr(solver(c, 2), 'io')
                logger = it.getattr(it.getattr(io, 'log'), 'logger')
                want = {'to_file': False, 'to_terminal': True, 'level': 'INFO'}
                for k, v in seq:
                    if k == 'log':
                        old = it.getattr(io, 'log')
                        it.setattr(io, 'log', v)
                        # the stream is discarded with its last reference
                        it.call(it.getattr(old, '__del__'), [])
                        want = {'to_file': False, 'to_terminal': v, 'level': 'INFO' if v else None}
                    else:
                        it.setattr(it.getattr(io, 'log'), k, v)
                        want[k] = 'INFO' if v == 20 else v
                made = [e[2] for e in it.events if e[0] == 'log.addhandler']
                lv = want['level']
                if lv:
                    stream = it.getattr(io, 'log')
                    got = {k: it.getattr(stream, k) for k in want}
                else:
                    got = want
                return list(logger.handlers), made, want, got
            out = c.run1(go)
            if out.exc:
                c.ob('log', name, False, str(out.exc), out.exc.where)
                continue
            hs, made, want, got = out.value
            kinds = sorted(h.kind for h in hs)
            wk = sorted(['FileHandler'] * bool(want['to_file']) + ['StreamHandler'] * bool(want['to_terminal']))
            c.ob('log', f"{name}: handlers in force", kinds == wk, f"{kinds} instead of {wk}")
            c.ob('log', f"{name}: settings", got == want, f"{got} instead of {want}")
            for h in hs:
                c.ob('log', f"{name}: {h.kind} is open", not h.closed, 'a closed handler is attached')
                c.ob('log', f"{name}: {h.kind} has the format of the level", debug(h.formatter) == (want['level'] == 'DEBUG'),
                     f"{h.formatter}")
            for h in made:
                if h.kind == 'FileHandler' and not any(h is x for x in hs):
                    c.ob('log', f"{name}: a detached log file is closed", h.closed, 'left open')
        c.need('sequences of log settings', n, 100)

    def debug(f):
        return f is not None and 'lineno' in repr(f)

    def lines(c):
        """runs do not add log handlers"""
        def go(it):
            s = Scene(c, steps=1)
            logger = it.getattr(it.getattr(s.io, 'log'), 'logger')
            a = list(logger.handlers)
            s.run()
            s.run()
            return a, list(logger.handlers)
        out = c.run1(go)
        if out.exc:
            c.ob('log', 'runs', False, str(out.exc), out.exc.where)
            return
        a, b = out.value
        c.ob('log', 'runs leave the log handlers as they are', len(a) == len(b) and all(x is y for x, y in zip(a, b)), f"{a} then {b}")
    for f in (runs, logs, lines):
        c.part(f)



RULES = {'C28': c28, 'C17': c17, 'C14': c14, 'C15': c15, 'C16': c16}
