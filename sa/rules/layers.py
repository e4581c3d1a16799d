"""C23: buffer coordinates, sponge functions, grid mappings and deformations."""
from __future__ import annotations

import itertools
from fractions import Fraction as Q

from .. import alg as A
from .. import fields as F
from ..interp import Unsupported, PyEx, HostFn
from ..check import A_of
from ..flow import mesh as make_mesh

N = A.num
ZERO, ONE = N(0), N(1)
MESH = 'dream.mesh'


def clip(e):
    return A.ifpos(e, A.ifpos(A.sub(ONE, e), e, ONE), ZERO)


def lin(a, b, t):
    return A.add(a, A.mul(t, A.sub(b, a)))


def c23(c):
    it = c.it
    X = [A.sym(s) for s in 'xyz']
    x0, L, w = A.declare('start', 'real', -2, 2), A.declare('len', 'pos', Q(1, 4), 2), A.declare('weight', 'pos')
    sh = [A.declare(f'shift{i}', 'real', -1, 1) for i in range(3)]
    nf = F.Num
    # layers may run either way along the coordinate
    ENDS = {'upwards': (x0, A.add(x0, L)), 'downwards': (x0, A.sub(x0, L)), 'from a negative start': (A.neg(L), ZERO),
            'at given numbers': (N('1/4'), N('3/4'))}
    KINDS = ('x', 'y', 'z', 'polar', 'spherical')

    def cls(n):
        return c.api(MESH, n)

    def make(kind, a, b, shift=None):
        kw = {'shift': shift} if shift is not None else {}
        return it.call(it.getattr(cls('BufferCoord'), kind), [nf(a), nf(b)], kw)

    def shift_of(kind, given):
        """(argument, coordinate)"""
        if kind in 'xyz':
            i = 'xyz'.index(kind)
            return (nf(sh[i]) if given else None), A.sub(X[i], sh[i]) if given else X[i]
        n = 2 if kind == 'polar' else 3
        s = sh[:n] if given else [ZERO] * n
        r = ZERO
        for a, b in zip(X, s):
            r = A.add(r, A.power(A.sub(a, b), N(2)))
        return (tuple(map(nf, s)) if given else None), A.sqrt(r)

    def scalar(v):
        return A_of(v if isinstance(v, A.E) else F.cf_of(it, v))

    def absval(e):
        return A.ifpos(e, e, A.neg(e))

    def coords(c):
        """clamped to the layer, normalised from 0 at its start to 1 at its end, in either direction"""
        n = 0
        for kind, given, (en, (a, b)) in itertools.product(KINDS, (False, True), ENDS.items()):
            arg, X_ = shift_of(kind, given)

            def go(it):
                o = make(kind, a, b, arg)
                return (o, it.call(it.getattr(o, 'get_normalised_coordinate'), []), it.getattr(o, 'x0'), it.getattr(o, 'xn'),
                        it.getattr(o, 'length'), it.getattr(o, 'shift'))
            out = c.run1(go)
            name = f"{kind} {en}{', shifted' if given else ''}"
            if out.exc:
                c.ob('coordinate', name, False, str(out.exc), out.exc.where)
                continue
            o, xi, s, e, ln, shv = out.value
            t = clip(A.div(A.sub(X_, a), A.sub(b, a)))
            c.equal('coordinate', name, scalar(o), lin(a, b, t))
            c.equal('normalised', name, scalar(xi), t)
            c.equal('start', name, s, a)
            c.equal('end', name, e, b)
            c.equal('length', name, ln, absval(A.sub(b, a)))
            if given:
                got = it.to_list(shv) if not kind in 'xyz' else [shv]
                want = sh[:2] if kind == 'polar' else sh if kind == 'spherical' else [sh['xyz'.index(kind)]]
                c.ob('shift', name, len(got) == len(want) and all(c.holds(A_of(g), v) for g, v in zip(got, want)), f"{got}")
            n += 1
        c.need('buffer coordinates', n, 30)

    def sponges(c):
        """documented profiles: nothing at the start of the layer and before it, the full weight from its end on"""
        S = cls('SpongeFunction')
        n = 0

        def value(name, want, fn):
            out = c.run1(lambda it: fn())
            if out.exc:
                c.ob('sponge', name, False, str(out.exc), out.exc.where)
                return None
            c.ob('sponge', f"{name} is a sponge function", F.cf_of(it, out.value) is not None, f"{out.value!r}")
            c.equal('sponge', name, scalar(out.value), want)
            return scalar(out.value)
        value('constant', w, lambda: it.call(it.getattr(S, 'constant'), [nf(w)]))
        for kind, (en, (a, b)) in itertools.product(('x', 'y', 'polar'), ENDS.items()):
            arg, X_ = shift_of(kind, False)
            t = clip(A.div(A.sub(X_, a), A.sub(b, a)))
            for k in (None, 1, 2, 3, 4, 5):
                kw = {} if k is None else {'order': k}
                v = value(f"polynomial of order {k or 'default'} on {kind} {en}", A.mul(w, A.power(t, N(k or 3))),
                          lambda: it.call(it.getattr(S, 'polynomial'), [nf(w), make(kind, a, b)], kw))
                ends(c, f"polynomial of order {k or 'default'} on {kind} {en}", v, kind, a, b)
                n += 1
            p = A.add(A.sub(A.mul(N(6), A.power(t, N(5))), A.mul(N(15), A.power(t, N(4)))), A.mul(N(10), A.power(t, N(3))))
            v = value(f"penta on {kind} {en}", A.mul(w, p), lambda: it.call(it.getattr(S, 'penta'), [nf(w), make(kind, a, b)]))
            ends(c, f"penta on {kind} {en}", v, kind, a, b)
            n += 1
        c.need('sponge functions', n, 60)
        for name, args in (('polynomial', 1), ('penta', 1)):
            refused('sponge', f"{name} of a plain coordinate", lambda: it.call(it.getattr(S, name), [nf(w), F.cf_of(it, F.Cf((X[0],), ()))]), 'TypeError')
            refused('sponge', f"{name} of a number", lambda: it.call(it.getattr(S, name), [nf(w), 0.5]), 'TypeError')

    def ends(c, name, v, kind, a, b):
        if v is None or kind not in 'xyz':
            return
        x = X['xyz'.index(kind)]
        c.equal('sponge ends', f"{name}: start", A.subst(v, {x: a}), ZERO)
        c.equal('sponge ends', f"{name}: end", A.subst(v, {x: b}), w)
        c.equal('sponge ends', f"{name}: before the layer", A.subst(v, {x: A.sub(a, A.sub(b, a))}), ZERO)
        c.equal('sponge ends', f"{name}: behind the layer", A.subst(v, {x: A.add(b, A.sub(b, a))}), w)

    def refused(rule, name, fn, exc):
        for o in c.explore(lambda it: fn()):
            c.ob(rule, f"{name} raises {exc}", bool(o.exc) and o.excname == exc, f"{o.exc or 'accepted'}")

    scale = A.declare('scale', 'pos', Q(3, 2), 4)

    def build(kind, a, b, coord='x', sc=None):
        """the mapping, with the value its constant is iterated to left open: (mapping, constant, map iterated, start)"""
        seen = []
        k = A.declare('const', 'real')

        def fix(it_, x, func, *args, **kw):
            seen.append((A_of(x), A_of(it.call(func, [nf(k)]))))
            return nf(k)
        it.setattr(it.modules['dream.bla'], 'fixpoint_iteration', HostFn('fixpoint_iteration', fix))
        m = it.call(it.getattr(cls('GridMapping'), kind), [nf(scale if sc is None else sc), make(coord, a, b)])
        return m, k, seen

    def mappings(c):
        """the start of the layer stays, its end moves to the scaled length, and nothing happens in front of it"""
        p = A.declare('point', 'real', -2, 2)
        n = 0
        for kind, (en, (a, b)) in itertools.product(('linear', 'exponential', 'tangential'), ENDS.items()):
            name = f"{kind} mapping {en}"
            Le = A.sub(b, a)

            def go(it):
                m, k, seen = build(kind, a, b)
                it.assume = None
                return (m, k, seen, it.call(m, [nf(p)]), it.call(m, [nf(a)]), it.call(m, [nf(b)]), it.getattr(m, 'deformation'), it.getattr(m, 'length'),
                        it.getattr(m, 'x'))
            out = c.run1(go)
            if out.exc:
                c.ob('mapping', name, False, str(out.exc), out.exc.where)
                continue
            m, k, seen, fp, fa, fb, de, ln, coord = out.value
            fp, fa, fb, de, ln = map(scalar, (fp, fa, fb, de, ln))
            c.equal('mapping', f"{name}: start stays", fa, a)
            n += 1
            if kind == 'linear':
                c.equal('mapping', name, fp, A.add(a, A.mul(scale, A.sub(p, a))))
                sub = {}
            else:
                c.ob('mapping', f"{name}: one constant is iterated", len(seen) == 1, f"{len(seen)}")
                if len(seen) != 1:
                    continue
                t = A.declare('t_' + kind, 'pos', Q(1, 10), 2 if kind == 'exponential' else Q(3, 2))
                kk = A.div(t, Le)
                # the scale for which k is the limit
                sc = A.div(A.sub(A.subst(fb, {k: kk}), a), Le)
                c.ob('mapping', f"{name}: its shape depends on the scale through the constant only", 'scale' not in A.syms(fp), A.brief(fp))
                c.equal('mapping', f"{name}: the end moves by the scale in the limit", A.subst(A.subst(seen[0][1], {k: kk}), {scale: sc}), kk)
                c.ob('mapping', f"{name}: the iteration does not start at the trivial limit", not c.holds(seen[0][0], ZERO), A.brief(seen[0][0]))
                if kind == 'exponential':       # the iterated logarithm has no value on the other side of zero
                    v = A.mul(seen[0][0], Le)
                    c.equal('mapping', f"{name}: the iteration starts on the side of its limit", absval(v), v)
                dx = A.subst(A.diff(fp, p), {p: a})
                c.equal('mapping', f"{name}: smooth at the start", A.subst(dx, {k: kk}), ONE)
                shape = {'exponential': lambda z: A.div(A.sub(A.fn('exp', A.mul(k, z)), ONE), k),
                         'tangential': lambda z: A.div(A.fn('tan', A.mul(k, z)), k)}[kind]
                c.equal('mapping', f"{name}: documented form", fp, A.add(a, shape(A.sub(p, a))), sub={k: kk})
                sub = {k: kk}
            xi = clip(A.div(A.sub(X[0], a), Le))
            c.equal('deformation', name, de, A.sub(A.subst(fp, {p: lin(a, b, xi)}), lin(a, b, xi)), sub=sub)
            c.equal('deformation', f"{name}: none before the layer", A.subst(A.subst(de, {X[0]: A.sub(a, A.mul(w, Le))}), sub), ZERO)
            c.equal('length', name, ln, absval(A.sub(fb, fa)), sub=sub)
        c.need('mappings', n, 12)

        # a mapping of the user's, which need not leave the start in place
        for en, (a, b) in ENDS.items():
            def go(it):
                m = it.call(cls('GridMapping'), [make('x', a, b), HostFn('map', lambda it_, v: F.Cf((A.fn('map', scalar(v)),), ()))])
                return it.getattr(m, 'length'), it.getattr(m, 'deformation'), it.call(m, [nf(p)])
            o = c.run1(go)
            name = f"mapping of the user's {en}"
            if o.exc:
                c.ob('mapping', name, False, str(o.exc), o.exc.where)
                continue
            ln, de, fp = map(scalar, o.value)
            xi = lin(a, b, clip(A.div(A.sub(X[0], a), A.sub(b, a))))
            c.equal('mapping', name, fp, A.fn('map', p))
            c.equal('length', name, ln, absval(A.sub(A.fn('map', b), A.fn('map', a))))
            c.equal('deformation', name, de, A.sub(A.fn('map', xi), xi))

        for o in c.explore(lambda it: (lambda m: (it.getattr(m, 'deformation'), it.call(m, [nf(p)])))(it.call(it.getattr(cls('GridMapping'), 'none'), [make('x', x0, A.add(x0, L))]))):
            c.ob('none', 'mapping none', not o.exc and c.holds(scalar(o.value[0]), ZERO) and c.holds(scalar(o.value[1]), p), str(o.exc or o.value))
        for kind in ('linear', 'exponential', 'tangential'):
            for s in (ONE, N('1/2'), ZERO, N(-2), A.div(ONE, A.add(ONE, w))):
                refused('scale', f"{kind} mapping scaled by {A.brief(s)}", lambda: build(kind, x0, A.add(x0, L), sc=s), 'ValueError')
            for s in (N('3/2'), A.add(ONE, w), N('1.001'), N(20)):
                for o in c.explore(lambda it: build(kind, x0, A.add(x0, L), sc=s)[0]):
                    c.ob('scale', f"{kind} mapping scaled by {A.brief(s)} is accepted", not o.exc, str(o.exc))
            refused('mapping', f"{kind} mapping of a plain coordinate",
                    lambda: it.call(it.getattr(cls('GridMapping'), kind), [nf(scale), F.Cf((X[0],), ())]), 'TypeError')

    def polar(c):
        """a radial mapping moves points along the radius"""
        for given, kind in itertools.product((False, True), ('linear', 'exponential', 'tangential')):
            a, b = N('1/8'), N('1/2')

            def go(it):
                s = (nf(sh[0]), nf(sh[1])) if given else None
                k = A.declare('const', 'real')
                it.setattr(it.modules['dream.bla'], 'fixpoint_iteration', HostFn('fixpoint_iteration', lambda it_, x, f, *a_, **k_: nf(k)))
                r = make('polar', a, b, s)
                m = it.call(it.getattr(cls('GridMapping'), kind), [nf(scale), r])
                mx, my = it.to_list(it.call(it.getattr(m, 'polar_to_cartesian'), []))
                d = GD(x=mx, y=my)
                return it.getattr(m, 'deformation'), it.getattr(mx, 'deformation'), it.getattr(my, 'deformation'), it.getattr(d, 'function')
            out = c.run1(go)
            name = f"{kind}{', shifted' if given else ''}"
            if out.exc:
                c.ob('polar', name, False, str(out.exc), out.exc.where)
                continue
            d, dx, dy, fun = out.value
            s = sh if given else [ZERO] * 2
            px, py = A.sub(X[0], s[0]), A.sub(X[1], s[1])
            r = A.sqrt(A.add(A.mul(px, px), A.mul(py, py)))
            sub = {A.sym('const'): A.declare('t_const', 'pos', Q(1, 10), 2)}
            c.equal('polar', f"{name}: first component", scalar(dx), A.mul(scalar(d), A.div(px, r)), sub=sub)
            c.equal('polar', f"{name}: second component", scalar(dy), A.mul(scalar(d), A.div(py, r)), sub=sub)
            c.equal_cf('polar', f"{name}: deformation", fun, F.Cf((scalar(dx), scalar(dy)), (2,)), sub=sub)

    def GD(**kw):
        return it.call(cls('GridDeformation'), [], kw)

    def deformations(c):
        """the deformation has one component per dimension: that of the mapping in force, else none"""
        n = 0
        D = {k: A.fn('map_' + k, A.sym(k)) for k in 'xyz'}

        def mapping(k):
            return it.call(cls('GridMapping'), [F.Cf((A.sym(k),), ()), HostFn('map', lambda it_, v: F.Cf((A.fn('map_' + k, scalar(v)),), ()))])
        steps = [(k, v) for k in 'xyz' for v in ('map', None)] + [('dim', 1), ('dim', 2), ('dim', 3)]
        runs = [[s] for s in steps] + [list(t) for t in itertools.product(steps, repeat=2)]
        runs += [list(t) for t in itertools.product(steps, repeat=3)] if c.tier == 'thorough' else \
            [list(t) for t in itertools.permutations(('x', 'y', 'z', 'dim'), 3) for t in [[(k, 3 if k == 'dim' else 'map') for k in t]]]
        for run in runs:
            for how in ('attribute', 'keyword'):
                if how == 'keyword' and len({k for k, _ in run}) < len(run):
                    continue

                def go(it):
                    kw = [(k, mapping(k) if v == 'map' else v) for k, v in run]
                    if how == 'keyword':
                        d = GD(**dict(kw))
                    else:
                        d = GD()
                        for k, v in kw:
                            it.setattr(d, k, v)
                    return it.getattr(d, 'function'), it.getattr(d, 'dim')
                name = ', '.join(f"{k}={v}" for k, v in run) + f" by {how}"
                dim = ([2] + [v for k, v in run if k == 'dim'])[-1]
                on = {k: v == 'map' for k, v in run if k != 'dim'}
                want = [A.sub(D[k], A.sym(k)) if on.get(k) else ZERO for k in 'xyz'][:dim]
                for o in c.explore(go):
                    if not on:
                        c.ob('function', f"{name}: nothing to deform", bool(o.exc) and o.excname == 'ValueError', f"{o.exc or o.value}")
                        continue
                    if o.exc:
                        c.ob('function', name, False, str(o.exc), o.exc.where)
                        continue
                    f, d = o.value
                    c.equal_cf('function', name, f, F.Cf(tuple(want), (dim,) if dim > 1 else ()) if F.cf_of(it, f).dims == () else F.Cf(tuple(want), (dim,)))
                n += 1
        c.need('deformations', n, 80)
    for f in (coords, sponges, mappings, polar, deformations):
        c.part(f)


RULES = {'C23': c23}
