"""C29: the timer; C30: parameters are live; C27: dimensions without an implementation."""
import itertools
from fractions import Fraction

from .. import alg as A, fields as F
from ..flow import State, psym, solver, cf, NAMES, GRADS, gamma_of, lazy_fields, ret_where
from ..forms import Setup, ZERO, ONE
from ..interp import Unsupported, PyEx, HostFn, IObj, IClass, IFunc, Cut
from .residual import level_gfs
from .physics import cons_prim, jac, mm
from .thermo import THERMO, MECH, GRAD

N = A.num
LONG = {**NAMES, **{'grad_' + k: v + '_gradient' for k, v in NAMES.items()}, 'eps': 'strain_rate_tensor'}


def digits(x):
    """decimals of an exactly representable decimal number"""
    x = Fraction(str(x))
    d = 0
    while x.denominator != 1:
        x *= 10
        d += 1
    return d


def c29(c):
    it = c.it

    def timer_of(S):
        return it.getattr(it.getattr(S.cfg, 'time'), 'timer')

    def label(e, t):
        """is the yielded value t, up to rounding to sufficiently many digits"""
        e = F.to_e(e)
        if e is None:
            return False, 'not a number'
        if c.holds(e, t):
            return True, None
        if e.op == 'fn' and e.args[0] == 'round' and c.holds(e.args[1], t):
            return True, e.args[2] if len(e.args) > 2 else N(0)
        return False, A.brief(e)

    STEPS = [(0.0, 0.1), (0.0, 0.0001), (0.0, 0.25), (1.0, 0.5), (0.05, 0.1), (0.125, 0.01), (2.0, 1.0), (0.3, 2.0), (10.5, 1e-06)]

    def generic(c):
        """start + i*stride*step for a symbolic number of steps"""
        n = 0
        A.declare('n', 'pos')
        A.declare('i', 'pos')
        F.INTEGERS.update({'n', 'i'})
        nn, ii = A.sym('n'), A.sym('i')
        for (t0, h), stride, inc, how in itertools.product(STEPS, (1, 2, 5), (False, True), ('start', 'call')):
            if how == 'call' and (stride != 1 or inc):
                continue
            name = f"start {t0}, step {h}, stride {stride}, {'with' if inc else 'without'} the start, {how}"

            def go(it):
                S = Setup(c, 2, time='transient', initialize=False, initial=False)
                timer = timer_of(S)
                s0, hh = N(str(t0)), N(str(h))
                end = A.add(s0, A.mul(nn, A.mul(hh, N(stride))))
                it.setattr(timer, 'step', h)
                it.setattr(timer, 'interval', (t0, F.Num(end)))
                loops = []

                def hook(it, r):
                    loops.append(r)
                    return [F.Num(ii, True)]
                tp = it.getattr(timer, 't')
                out = []
                old = getattr(it, 'range_hook', None)
                it.range_hook = hook
                try:
                    gen = it.call(it.getattr(timer, 'start'), [], {'include_start': inc, 'stride': stride}) if how == 'start' else it.call(timer, [])
                    for v in it.iterate(gen):
                        now = it.getattr(timer, 't')
                        out.append((v, now is tp, it.call(it.getattr(now, 'Get'), [])))
                finally:
                    it.range_hook = old
                return loops, out, s0, A.mul(hh, N(stride)), end, [e for e in it.events if e[0] == 'float.whole']
            try:
                outs = c.explore(go)
            except (Unsupported, Cut) as ex:
                n += concrete(c, t0, h, stride, inc, how, name, ex)
                continue
            for o in outs:
                if o.exc:
                    c.ob('times', name, False, str(o.exc), o.exc.where)
                    continue
                loops, out, s0, dh, end, cuts = o.value
                c.ob('rounding', name, not cuts, f"{', '.join(f'{e[1]} of {A.brief(e[2])}' for e in cuts)}: the number is whole only up to rounding errors, which drop or add a time")
                if len(loops) != 1 or len(out) != 1:
                    n += concrete(c, t0, h, stride, inc, how, name, 'another loop')
                    continue
                r, (v, same, live) = loops[0], out[0]
                lo, hi, by = (F.to_e(x) for x in (r.start, r.stop, r.step))
                # value as a function of the loop index
                t = F.to_e(live)
                at = lambda k: A.subst(t, {ii: k})
                c.equal('times', f"first time, {name}", at(lo), A.add(s0, ZERO if inc else dh))
                c.equal('times', f"distance of two times, {name}", A.sub(at(A.add(ii, by)), at(ii)), dh)
                c.equal('times', f"one time per step up to the end, {name}", A.sub(A.div(A.sub(hi, lo), by), N(1 if inc else 0)), nn)
                ok, d = label(v, t)
                c.ob('times', f"the time handed out is the live time, {name}", ok, f"hands out {d}")
                c.ob('times', f"the live time stays one parameter, {name}", same, 'replaced')
                if ok and d is not None:
                    need = max(digits(h) if stride == 1 else digits(Fraction(str(h)) * stride), digits(t0))
                    ok = A.isnum(d) and d.args[0] >= need
                    c.ob('times', f"rounding keeps the digits of start and step, {name}", ok, f"rounds to {A.brief(d)} digits, needs {need}")
                n += 1
        c.need('timers', n, 20)

    def concrete(c, t0, h, stride, inc, how, name, why):
        """the same for a given number of steps, where the loop has another shape"""
        for k in (1, 2, 3, 7):
            end = float(Fraction(str(t0)) + k * stride * Fraction(str(h)))

            def go(it):
                S = Setup(c, 2, time='transient', initialize=False, initial=False)
                timer = timer_of(S)
                it.setattr(timer, 'step', h)
                it.setattr(timer, 'interval', (t0, end))
                gen = it.call(it.getattr(timer, 'start'), [], {'include_start': inc, 'stride': stride}) if how == 'start' else it.call(timer, [])
                return [(v, it.call(it.getattr(it.getattr(timer, 't'), 'Get'), [])) for v in it.iterate(gen)]
            o = c.run1(go)
            if o.exc:
                c.ob('times', name, False, str(o.exc), o.exc.where)
                continue
            want = [Fraction(str(t0)) + i * stride * Fraction(str(h)) for i in range(0 if inc else 1, k + 1)]
            got = [(float(v), float(t)) for v, t in o.value]
            ok = len(got) == len(want) and all(abs(v - float(w)) < 1e-9 and abs(t - float(w)) < 1e-9 for (v, t), w in zip(got, want))
            c.ob('times', f"{k} steps, {name}", ok, f"{got}")
        return 1

    def array(c):
        for inc, stride in itertools.product((False, True), (1, 2)):
            def go(it):
                S = Setup(c, 2, time='transient', initialize=False, initial=False)
                timer = timer_of(S)
                it.setattr(timer, 'step', 0.25)
                it.setattr(timer, 'interval', (1.0, 2.0))
                return it.to_list(it.call(it.getattr(timer, 'to_array'), [], {'include_start': inc, 'stride': stride}))
            o = c.run1(go)
            want = [1 + Fraction(i * stride, 4) for i in range(0 if inc else 1, 4 // stride + 1)]
            c.ob('array', f"array of times, {'with' if inc else 'without'} the start, stride {stride}",
                 not o.exc and [A.tofrac(x) if not isinstance(x, F.Num) else x for x in o.value] == want, f"{o.exc or o.value}")

    def settings(c):
        """calling the timer applies settings first; intervals are checked"""
        def go(it):
            S = Setup(c, 2, time='transient', initialize=False, initial=False)
            timer = timer_of(S)
            return [float(v) for v in it.iterate(it.call(timer, [], {'interval': (0.0, 1.0), 'step': 0.5}))], it.getattr(timer, 'interval')
        o = c.run1(go)
        c.ob('array', 'settings passed to the timer are used', not o.exc and o.value[0] == [0.5, 1.0] and tuple(o.value[1]) == (0.0, 1.0), f"{o.exc or o.value}")
        a, b = A.declare('a', 'pos'), A.declare('b', 'pos')
        ab = A.add(a, b)
        CASES = [('increasing', a, ab, True), ('decreasing', ab, a, False), ('empty', a, a, False), ('negative start', A.neg(a), b, False),
                 ('negative end', A.neg(ab), A.neg(a), False), ('from zero', ZERO, a, True), ('empty at zero', ZERO, ZERO, False),
                 ('to zero', a, ZERO, False), ('negative end', a, A.neg(b), False)]
        for what, s, e, ok in CASES:
            def go(it):
                S = Setup(c, 2, time='transient', initialize=False, initial=False)
                timer = timer_of(S)
                before = tuple(it.getattr(timer, 'interval'))
                try:
                    it.setattr(timer, 'interval', (F.Num(s), F.Num(e)))
                except PyEx as ex:
                    return ex.value.cls.name, tuple(it.getattr(timer, 'interval')) == before
                now = tuple(it.getattr(timer, 'interval'))
                return None, len(now) == 2 and F.to_e(now[0]) is F.to_e(F.Num(s)) and F.to_e(now[1]) is F.to_e(F.Num(e))
            for o in c.explore(go):
                if o.exc:
                    c.ob('interval', what, False, str(o.exc), o.exc.where)
                    continue
                exc, kept = o.value
                c.ob('interval', f"{what} interval is {'accepted' if ok else 'rejected'}", (exc is None) == ok and kept, f"{exc}, {'value in effect' if kept else 'value not in effect'}")
    for f in (generic, array, settings):
        c.part(f)


# ------------------------------------------------------------------------------------------------ C27

ONE_ARG = ('conservative_from_primitive', 'primitive_from_conservative', 'conservative_convective_jacobian_x',
           'conservative_convective_jacobian_y', 'primitive_convective_jacobian_x', 'primitive_convective_jacobian_y')
DIRECTED = ('primitive_from_characteristic', 'characteristic_from_primitive', 'conservative_from_characteristic',
            'characteristic_from_conservative')
DERIVED = ('get_primitive_convective_jacobian', 'get_conservative_convective_jacobian', 'get_primitive_convective_identity',
           'get_conservative_convective_identity')
REFUSALS = ('NotImplementedError', 'ValueError')


def c27(c):
    it = c.it

    def expected(s, m, n):
        """exact value where the definition fixes one in any dimension"""
        dim = s.dim
        if m == 'conservative_from_primitive':
            return cons_prim(s, dim)[0]
        if m == 'primitive_from_conservative':
            return cons_prim(s, dim)[1]
        for j, x in enumerate('xy'[:dim]):
            if m == f'conservative_convective_jacobian_{x}':
                return jac(s, j, dim)
            if m == f'primitive_convective_jacobian_{x}':
                a, b = cons_prim(s, dim)
                return mm(mm(b, jac(s, j, dim)), a)
        return None

    def tensor(v):
        try:
            return None if v is None else F.cf_of(it, v)
        except (PyEx, Unsupported):
            return None

    def run(c, m, dim, kind, args):
        """one function, all subsets of known fields, one dimension"""
        box = {}

        def go(it):
            # a mesh of one dimension is not needed: the state carries the dimension
            cfg = solver(c, max(dim, 2))
            s = State(gamma_of(it, cfg), dim)
            box['sub'], box['free'], box['s'] = {}, {}, s

            def atoms(k, v):
                es = []
                for i, e in enumerate(v.e):
                    a = A.declare(f'{k}#{i}', 'real')
                    box['sub'][a] = e
                    box['free'][a.args[0]] = LONG.get(k, k)
                    es.append(a)
                return F.Cf(tuple(es), v.dims)
            n = tuple(A.declare(x, 'real') for x in ('nx', 'ny', 'nz')[:dim])
            box['n'] = n
            U = lazy_fields(c, {k: atoms(k, s.cf(k)) for k in s.v}, 'U')
            a = [U]
            if 'dU' in args:
                a.append(lazy_fields(c, {k: atoms(k, v) for k, v in s.grads().items()}, 'dU'))
            if 'n' in args:
                a.append(F.Cf(n, (dim,)))
            if 'type' in args:
                a.append('incoming')
            if any(x is None for x in a):
                raise Unsupported('the field container does not keep its values in a dictionary attribute')
            return it.call(it.getattr(cfg, m), a)
        outs = c.explore(go)
        used = []
        for o in outs:
            v = tensor(o.value)
            if o.exc is None and v is not None:
                used.append({box['free'][x] for e in v.e for x in A.syms(e) if x in box['free']})
        got = 0
        for o in outs:
            dec = {k[2]: v for k, v in o.decisions().items() if isinstance(k, tuple) and k[0] == 'has'}
            if o.cut or any(not (isinstance(k, tuple) and k[0] == 'has') for k in o.decisions()):
                raise Unsupported(f"{m}: {o.cut or o.decisions()}")
            have = sorted(k for k, v in dec.items() if v)
            missing = {k for k, v in dec.items() if not v}
            name = f"{m}, dimension {dim}, with {', '.join(have) or 'nothing'} known"
            if o.exc is not None:
                lost = not missing and dim == 2
                c.ob('refusal', name, o.excname in REFUSALS and not (dim == 2 and any(not (u & missing) for u in used)),
                     f"{o.excname}: {o.exc}" + (' although all that the value depends on is known' if not lost else ''), o.exc.where)
                continue
            w = ret_where(it, o)
            v = tensor(o.value)
            if v is None:
                c.ob('refusal', name, False, f"returns {o.value!r} instead of raising", w)
                continue
            shape = (dim + 2, dim + 2) if kind == 'matrix' else (dim + 2,)
            if tuple(v.dims) != shape:
                c.ob('refusal', name, False, f"returns a value of shape {v.dims} instead of {shape} or raising", w)
                continue
            got += 1
            want = expected(box['s'], m, box['n'])
            if want is not None:
                v = F.Cf(tuple(A.subst(e, box['sub']) for e in v.e), v.dims)
                c.equal_cf('value', name, v, F.Cf(tuple(x for r in want for x in r), shape), box['s'].sub, w)
            else:
                c.ob('refusal', name, True)
        return got

    def transforms(c):
        k = 0
        for dim in (1, 2, 3):
            for m in ONE_ARG:
                if dim == 1 and m.endswith('_y'):
                    continue
                k += run(c, m, dim, 'matrix', ('U',))
            for m in DIRECTED:
                k += run(c, m, dim, 'matrix', ('U', 'n'))
            for m in DERIVED:
                k += run(c, m, dim, 'matrix', ('U', 'n', 'type'))
        c.need('functions with a two-dimensional value', k, 12)

    def characteristics(c):
        k = 0
        for dim in (1, 2, 3):
            k += run(c, 'characteristic_velocities', dim, 'vector', ('U', 'n'))
            k += run(c, 'characteristic_variables', dim, 'vector', ('U', 'dU', 'n'))
            k += run(c, 'characteristic_amplitudes', dim, 'vector', ('U', 'dU', 'n', 'type'))
        c.need('characteristic quantities', k, 3)

    def mixed(c):
        """strain-heat formulation and polynomial sponges exist in two dimensions only"""
        FN = [('get_conservative_diffusive_jacobian_x', 'UQ'), ('get_conservative_diffusive_jacobian_y', 'UQ'),
              ('get_conservative_diffusive_jacobian', 'UQn'), ('get_mixed_diffusive_jacobian_x', 'U'), ('get_mixed_diffusive_jacobian_y', 'U'),
              ('get_mixed_diffusive_jacobian', 'Un'), ('get_cbc_viscous_terms', 'b')]
        for m, sig in FN:
            def go(it):
                S = Setup(c, 3, viscosity='constant', initialize=False, initial=False)
                it.call(it.getattr(S.cfg, 'initialize'), []) if sig == 'never' else None
                mm_ = it.getattr(it.getattr(S.cfg, 'fem'), 'mixed_method')
                fn = it.getattr(mm_, m)
                q = F.Cf(tuple(A.declare(f'q{i}', 'real') for i in range(9)), (9,))
                qf = it.call(c.api('dream.compressible', 'flowfields'), [],
                             {'eps': F.Cf(tuple(A.declare(f'e{i}', 'real') for i in range(9)), (3, 3)),
                              'grad_T': F.Cf(tuple(A.declare(f't{i}', 'real') for i in range(3)), (3,))})
                n = F.Cf(tuple(A.declare(x, 'real') for x in ('nx', 'ny', 'nz')), (3,))
                a = {'Q': [q], 'UQ': [S.s.fields(c), qf], 'UQn': [S.s.fields(c), qf, n], 'U': [S.s.fields(c)],
                     'Un': [S.s.fields(c), n], 'b': [S.cond('GRCBC', fields=S.s.fields(c))] if sig == 'b' else []}[sig]
                return it.call(fn, a)
            for o in c.explore(go):
                c.ob('mixed', f"{m} in three dimensions", o.excname in REFUSALS, f"yields {o.value!r} {o.exc or ''}", ret_where(it, o))
        for name, kw in (('strain-heat equations', dict(viscosity='constant')),
                         ('strain-heat equations, Sutherland', dict(viscosity='sutherland')),
                         ('strain-heat equations, stationary', dict(viscosity='constant', time='stationary'))):
            o = c.run1(lambda it: Setup(c, 3, **kw) and 'forms are built')
            c.ob('mixed', f"{name} in three dimensions", o.excname in REFUSALS, f"{o.value} {o.exc or ''}")
        # without mixed variables three dimensions are supported
        o = c.run1(lambda it: len(Setup(c, 3).terms))
        c.ob('mixed', 'inviscid flow in three dimensions is supported', not o.exc and o.value > 0, str(o.exc), o.exc and o.exc.where)
        cbc = lambda S: S.cond('GRCBC', fields=S.init.fields(c) if hasattr(S, 'init') else S.s.fields(c))
        for name, bc in (('CBC', cbc),):
            o = c.run1(lambda it: Setup(c, 3, bcs={'left': bc}) and 'forms are built')
            c.ob('mixed', f"{name} in three dimensions", o.excname in REFUSALS, f"{o.value} {o.exc or ''}")

        def psponge(it):
            S = Setup(c, 3, initialize=False)
            o = S.cond('PSpongeLayer', target_state=S.s.fields(c))
            it.setitem(it.getattr(S.cfg, 'dcs'), 'sponge', o)
            it.call(it.getattr(S.cfg, 'initialize'), [])
            it.call(it.getattr(it.getattr(S.cfg, 'time'), 'assemble'), [])
            return 'forms are built'
        o = c.run1(psponge)
        c.ob('mixed', 'polynomial sponge in three dimensions', o.excname in REFUSALS, f"{o.value} {o.exc or ''}")
    for f in (transforms, characteristics, mixed):
        c.part(f)


# ------------------------------------------------------------------------------------------------ C30

PARAMS = {'gamma': ('equation_of_state', 'heat_capacity_ratio'), 'Mach number': (None, 'mach_number'),
          'Reynolds number': (None, 'reynolds_number'), 'Prandtl number': (None, 'prandtl_number'),
          'time step': ('time.timer', 'step'), 'time': ('time.timer', 't')}


def owner(it, cfg, path):
    for p in (path or '').split('.'):
        if p:
            cfg = it.getattr(cfg, p)
    return cfg


def c30(c):
    it = c.it

    def make(it, **kw):
        S = Setup(c, 2, **{'viscosity': 'sutherland', 'initialize': False, 'initial': False, **kw})
        return S

    def same_object(c):
        """every way of setting keeps the object and stores the value"""
        def dotted(it, cfg, path, name, v):
            it.call(it.getattr(cfg, 'update'), [{'.'.join([*(path or '').split('.'), name]).lstrip('.'): v}])

        def nested(it, cfg, path, name, v):
            d = {name: v}
            for p in reversed((path or '').split('.')):
                if p:
                    d = {p: d}
            it.call(it.getattr(cfg, 'update'), [d])

        def viaparent(it, cfg, path, name, v):
            if path:
                *up, last = path.split('.')
                it.setattr(owner(it, cfg, '.'.join(up)), last, {name: v})
            else:
                it.setattr(cfg, name, v)

        def item(it, cfg, path, name, v):
            it.setitem(owner(it, cfg, path), name, v)

        def attr(it, cfg, path, name, v):
            it.setattr(owner(it, cfg, path), name, v)
        for what, (path, name) in PARAMS.items():
            for how in (attr, item, dotted, nested, viaparent):
                for kind in ('number', 'parameter'):
                    def go(it):
                        S = make(it)
                        cfg = S.cfg
                        old = it.getattr(owner(it, cfg, path), name)
                        x = A.declare('x', 'pos')
                        if what == 'gamma':
                            x = A.add(ONE, x)
                        v = F.Num(x)
                        if what == 'time step':           # its digits are read
                            x, v = N('0.125'), 0.125
                        if kind == 'parameter':
                            v = it.call(it.getattr(it.modules['dream.config'].globs['ngs'] if 'ngs' in getattr(it.modules['dream.config'], 'globs', {}) else it.import_module('ngsolve'), 'Parameter'), [v])
                        n0 = len(it.events)
                        how(it, cfg, path, name, v)
                        now = it.getattr(owner(it, cfg, path), name)
                        others = [e for e in it.events[n0:] if e[0] == 'param.set' and e[1] is not old]
                        return now is old, F.to_e(it.call(it.getattr(now, 'Get'), [])), x, now is v, others
                    nm = f"{what} set as {kind} by {how.__name__}"
                    for o in c.explore(go):
                        if o.exc:
                            c.ob('same object', nm, False, str(o.exc), o.exc.where)
                            continue
                        same, val, x, foreign, others = o.value
                        c.ob('same object', nm, same and not foreign, 'the object built expressions refer to is replaced')
                        c.ob('value', nm, val is not None and c.holds(val, x), f"reads {val} after setting {A.brief(x)}")
                        c.ob('value', f"{nm} sets nothing else", not others, f"{others}")

    def tainted(es):
        # the value itself, or the value of an expression evaluated at a point, which no longer follows it
        out = {x for e in es for x in A.syms(e) if x.startswith('val:')}
        todo = list(es)
        seen = set()
        while todo:
            e = todo.pop()
            if e in seen:
                continue
            seen.add(e)
            if e.op == 'fn' and e.args[0] in ('at', 'int', 'interp'):
                out |= {f"{x} evaluated" for x in A.syms(e) if x.startswith('param:')}
            todo += A.children(e)
        return sorted(out)

    def poison(it, keep=()):
        """the current value of every parameter becomes a marker of its own"""
        n = 0
        for e in list(it.events):
            if e[0] == 'param.new' and e[1].val is not None and not any(e[1] is k for k in keep):
                p = e[1]
                nm = f"val:{p.name}"
                A.declare(nm, 'pos')
                g = A.sym(nm)
                p.val = F.Num(g)
                n += 1
        return n

    def forms(c):
        """no assembled form contains the value a parameter had when it was built"""
        far = lambda S: S.cond('FarField', fields=S.pcall(S.cfg, 'get_farfield_state', (1.0, 0.0)))
        conds = {'farfield': far,
                 'outflow': lambda S: S.cond('Outflow', fields=F_fields(S, ('p',))),
                 'wall': lambda S: S.cond('AdiabaticWall'),
                 'isothermal': lambda S: S.cond('IsothermalWall', fields=F_fields(S, ('T',))),
                 'inviscid wall': lambda S: S.cond('InviscidWall'),
                 'GRCBC': lambda S: S.cond('GRCBC', fields=S.pcall(S.cfg, 'get_farfield_state', (1.0, 0.0)))}

        def F_fields(S, ks):
            f = S.pcall(S.cfg, 'get_farfield_state', (1.0, 0.0))
            return it.call(c.api('dream.compressible', 'flowfields'), [], {k: it.getattr(f, k) if it.getattr(f, k) is not None else F.Cf((A.declare(f'{k}b', 'pos'),), ()) for k in ks})
        n = 0
        for visc in ('inviscid', 'constant', 'sutherland'):
            for scal in ('aerodynamic', 'acoustic', 'aeroacoustic'):
                for time, scheme in (('transient', 'implicit_euler'), ('transient', 'bdf2'), ('pseudo_time_stepping', None), ('stationary', None)):
                    if (scal != 'aerodynamic' or visc != 'sutherland') and scheme != 'bdf2':
                        continue
                    for cond in (conds if scal == 'aerodynamic' else ('farfield', 'GRCBC')):
                        if cond == 'GRCBC' and time == 'stationary' or visc == 'inviscid' and cond in ('wall', 'isothermal'):
                            continue

                        def go(it):
                            S = make(it, viscosity=visc, time=time, scheme=scheme, opts={'scaling': scal})
                            for q in ('reynolds_number', 'prandtl_number', 'mach_number'):
                                it.setattr(S.cfg, q, {'reynolds_number': 150, 'prandtl_number': 0.7, 'mach_number': 0.3}[q])
                            marked = poison(it)
                            n0 = len(it.events)
                            S.init = State(S.gamma, 2, tag='0')
                            far0 = S.pcall(S.cfg, 'get_farfield_state', (1.0, 0.0))
                            it.setitem(it.getattr(S.cfg, 'bcs'), 'left', conds[cond](S))
                            it.setitem(it.getattr(S.cfg, 'dcs'), 'default', S.cond('Initial', fields=far0))
                            it.setitem(it.getattr(S.cfg, 'dcs'), 'sponge', S.cond('SpongeLayer', target_state=far0, function=0.5))
                            it.call(it.getattr(S.cfg, 'initialize'), [])
                            it.call(it.getattr(it.getattr(S.cfg, 'time'), 'assemble'), [])
                            es = []
                            for e in it.events[n0:]:
                                if e[0] == 'form.new':
                                    for t in e[1].terms:
                                        es += [(e[1].kind, x) for cc, f, d in t.terms for x in (cc, *f.e)]
                                elif e[0] == 'param.new':
                                    v = F.to_e(e[1].val)
                                    if v is not None:
                                        es.append(('parameter created from the value of another', v))
                            return marked, es
                        for o in c.explore(go):
                            nm = f"{cond}, {visc}, {scal}, {scheme or time}"
                            if o.exc:
                                c.ob('forms', nm, False, str(o.exc), o.exc.where)
                                continue
                            marked, es = o.value
                            bad = [(k, tainted([x])) for k, x in es if tainted([x])]
                            c.ob('forms', nm, not bad and marked >= 4 and es, f"contains the value of a parameter at the time of building: {bad[:3]}")
                            n += len(es)
        c.need('integrals of forms', n, 500)

    def formulas(c):
        """no formula contains the value a parameter had when it was evaluated"""
        n = 0
        for tab, grads in ((THERMO, False), (MECH, False), (GRAD, True)):
            for m, (key, docs) in tab.items():
                for d in docs:
                    def go(it):
                        S = make(it)
                        marked = poison(it)
                        s = State(S.gamma, 2)
                        g = s.grads()
                        U = s.fields(c, *[k for k in d if k in s.v]) if any(k in s.v for k in d) else it.call(c.api('dream.compressible', 'flowfields'), [])
                        a = [U]
                        if grads:
                            dU = it.call(c.api('dream.compressible', 'flowfields'), [], {k: g[k] for k in d if k in g})
                            a = [dU] if m == 'strain_rate_tensor' else [U, dU]
                        return it.call(it.getattr(S.cfg, m), a)
                    value(c, f"{m} from {', '.join(sorted(d))}", go)
                    n += 1
        full = [('get_convective_flux', 'U'), ('get_diffusive_flux', 'Ug'), ('viscosity', 'U'), ('heat_flux', 'Ug'), ('deviatoric_stress_tensor', 'Ug'),
                ('get_local_mach_number', 'U'), ('get_local_reynolds_number', 'U'), ('isentropic_density', 'UU'), ('pressure_coefficient', 'UU'),
                ('stress_tensor', 'Ug'), ('get_dimensionful_state', 'U'), *[(m, 'U') for m in ONE_ARG], *[(m, 'Un') for m in DIRECTED],
                *[(m, 'Unt') for m in DERIVED], ('characteristic_velocities', 'Un'), ('characteristic_variables', 'Ugn'),
                ('characteristic_amplitudes', 'Ugn'), ('get_farfield_state', 'd')]
        for scal in ('aerodynamic', 'acoustic', 'aeroacoustic'):
            for m, sig in full:
                def go(it):
                    S = make(it, opts={'scaling': scal})
                    poison(it)
                    s = State(S.gamma, 2)
                    nv = F.Cf((A.declare('nx', 'real'), A.declare('ny', 'real')), (2,))
                    vals = {'U': lambda: s.fields(c), 'g': lambda: it.call(c.api('dream.compressible', 'flowfields'), [], s.grads()),
                            'n': lambda: nv, 't': lambda: 'incoming', 'd': lambda: (1.0, 0.0)}
                    return it.call(it.getattr(S.cfg, m), [vals[k]() for k in sig])
                value(c, f"{m}, {scal}", go)
                n += 1
            for visc in ('sutherland',):
                def go(it):
                    S = make(it, opts={'scaling': scal})
                    poison(it)
                    sc = it.getattr(S.cfg, 'scaling')
                    ma = it.getattr(S.cfg, 'mach_number')
                    return [it.getattr(sc, 'reference_reynolds_number'), it.call(it.getattr(sc, 'velocity_magnitude'), [ma]),
                            it.call(it.getattr(sc, 'speed_of_sound'), [ma]), it.call(it.getattr(sc, 'velocity'), [(1.0, 0.0), ma])]
                value(c, f"scaling {scal}", go)
                n += 1
        for r in ('lax_friedrich', 'roe', 'hll', 'hllem', 'upwind'):
            def go(it):
                S = make(it, opts={'riemann_solver': r})
                poison(it)
                s = State(S.gamma, 2)
                nv = F.Cf((A.declare('nx', 'real'), A.declare('ny', 'real')), (2,))
                return it.call(it.getattr(it.getattr(S.cfg, 'riemann_solver'), 'get_convective_stabilisation_matrix'), [s.fields(c), nv])
            value(c, f"stabilisation matrix {r}", go)
            n += 1
        c.need('formulas', n, 100)

    def value(c, name, go):
        for o in c.explore(go):
            if o.exc:
                c.ob('formulas', name, False, str(o.exc), o.exc.where)
                continue
            vs = o.value if isinstance(o.value, list) else [o.value]
            es = []
            for v in vs:
                v = it.unnative(v) if hasattr(it, 'unnative') else v
                if isinstance(v, IObj):
                    ks = it.mapping_keys(v)
                    for k in ks:
                        es += list(F.cf_of(it, it.getitem(v, k)).e)
                elif v is not None:
                    es += list(F.cf_of(it, v).e)
            bad = tainted(es)
            c.ob('formulas', name, not bad and es, f"contains the value of {bad} at the time of evaluation" if bad else 'no value', ret_where(it, o))
    for f in (same_object, formulas, forms):
        c.part(f)


RULES = {'C27': c27, 'C29': c29, 'C30': c30}
