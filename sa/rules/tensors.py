"""C24: tensor primitives; C26: flow field containers."""
import itertools

from .. import alg as A, fields as F
from ..interp import Unsupported, PyEx, HostFn, IObj
from ..flow import source

N = A.num
ZERO, ONE = N(0), N(1)


def sy(name, dom='real'):
    return A.declare(name, dom)


def vec(n, tag='v'):
    return F.Cf(tuple(sy(f"{tag}{i}") for i in range(n)), (n,))


def mat(r, k, tag='m'):
    return F.Cf(tuple(sy(f"{tag}{i}{j}") for i in range(r) for j in range(k)), (r, k))


def scal(name='x'):
    return F.Cf((sy(name),), ())


def gtz(d, a, b):
    return A.ifpos(d, a, b)


def c24(c):
    it = c.it
    bla = it.modules['dream.bla']

    def call(name, *a, **k):
        return it.call(it.getattr(bla, name), list(a), k)

    def outcome(name, *a, **k):
        """all partitions of one call"""
        return c.explore(lambda it: call(name, *a, **k))

    def value(rule, construct, want, name, *a, **k):
        for out in outcome(name, *a, **k):
            if out.exc:
                c.ob(rule, construct, False, f"raises {out.exc}", out.exc.where)
                continue
            facts = c._facts
            from ..check import sign_facts
            c._facts = sign_facts(out)
            try:
                if not c._inhabited(c._facts):
                    continue
                if isinstance(want, F.Cf):
                    c.equal_cf(rule, construct, out.value, want)
                else:
                    c.equal(rule, construct, out.value, want)
            finally:
                c._facts = facts

    def refused(rule, construct, excs, name, *a, **k):
        for out in outcome(name, *a, **k):
            c.ob(rule, construct, out.excname in excs, f"{out.exc or repr(out.value)}")

    def number(n):
        return F.Num(sy(n))

    def scalars(c):
        x, y, z = sy('x'), sy('y'), sy('z')
        mx = gtz(A.sub(x, y), x, y)
        mn = gtz(A.sub(x, y), y, x)
        kinds = {'field': scal, 'number': number}
        for kx in kinds:
            vx = kinds[kx]('x')
            value('abs', f"abs of a {kx}", gtz(x, x, A.neg(x)), 'abs', vx)
            value('max', f"max of a {kx} and zero by default", gtz(x, x, ZERO), 'max', vx)
            value('min', f"min of a {kx} and zero by default", gtz(x, ZERO, x), 'min', vx)
            for ky in kinds:
                vy = kinds[ky]('y')
                value('max', f"max of {kx} and {ky}", mx, 'max', vx, vy)
                value('min', f"min of {kx} and {ky}", mn, 'min', vx, vy)
                for kz in kinds:
                    # interval with ordered ends: y and y + |d|
                    d = sy('d', 'pos')
                    end = A.add(y, d)
                    vz = F.Cf((end,), ()) if kz == 'field' else F.Num(end)
                    want = gtz(A.sub(y, x), y, gtz(A.sub(x, end), end, x))
                    value('interval', f"{kx} clamped to [{ky}, {kz}]", want, 'interval', vx, vy, vz)
        for v, k in ((-3, 'integer'), (0, 'integer'), (2.5, 'float'), (-2.5, 'float')):
            value('abs', f"abs of the {k} {v}", N(abs(A.tofrac(v))), 'abs', v)
        for name, a in (('abs', ('text',)), ('max', ('text', 'text')), ('min', ('text', 'text'))):
            refused(name, f"{name} of text is refused", ('NotImplementedError',), name, *a)

    def products(c):
        for n in (1, 2, 3, 4):
            a, b = vec(n, 'a'), vec(n, 'b')
            value('inner', f"inner product of vectors ({n})", F.dot(a.e, b.e), 'inner', a, b)
            value('outer', f"outer product of vectors ({n})",
                  F.Cf(tuple(A.mul(x, y) for x in a.e for y in b.e), (n, n)), 'outer', a, b)
            value('outer', f"outer product of tuples ({n})",
                  F.Cf(tuple(A.mul(x, y) for x in a.e for y in b.e), (n, n)), 'outer',
                  tuple(F.Cf((x,), ()) for x in a.e), [F.Cf((x,), ()) for x in b.e])
            ln = A.sqrt(F.dot(a.e, a.e))
            for what, v in (('field', a), ('tuple', tuple(F.Cf((x,), ()) for x in a.e)))[:1 + (n > 1)]:
                value('unit_vector', f"unit vector of a {what} ({n})", F.Cf(tuple(A.div(x, ln) for x in a.e), (n,)),
                      'unit_vector', v)
        for n in (1, 2, 3):
            A_, B_ = mat(n, n, 'A'), mat(n, n, 'B')
            value('inner', f"inner product of matrices ({n}x{n})", F.dot(A_.e, B_.e), 'inner', A_, B_)
        a, b = vec(2, 'a'), vec(3, 'b')
        value('outer', 'outer product of vectors of different length',
              F.Cf(tuple(A.mul(x, y) for x in a.e for y in b.e), (2, 3)), 'outer', a, b)

    def matrices(c):
        for n in (1, 2, 3, 4):
            m = mat(n, n)
            tr = ZERO
            for i in range(n):
                tr = A.add(tr, m.e[i * n + i])
            value('trace', f"trace ({n}x{n})", tr, 'trace', m)
            v = vec(n)
            want = F.Cf(tuple(v.e[i] if i == j else ZERO for i in range(n) for j in range(n)), (n, n))
            value('diagonal', f"diagonal matrix of a vector ({n})", want, 'diagonal', v)
            value('diagonal', f"diagonal matrix of a list ({n})", want, 'diagonal', [F.Cf((x,), ()) for x in v.e])
            value('as_matrix', f"square matrix of {n * n} entries", m, 'as_matrix', tuple(F.Cf((x,), ()) for x in m.e))
            value('as_matrix', f"a matrix is handed back ({n}x{n})", m, 'as_matrix', m)
        for r, k in ((2, 3), (3, 2), (1, 2)):
            m = mat(r, k)
            value('as_matrix', f"matrix of given dimensions {r}x{k}", m, 'as_matrix', [F.Cf((x,), ()) for x in m.e], dims=(r, k))
            refused('trace', f"trace of a {r}x{k} matrix is refused", ('ValueError',), 'trace', m)
        for n in (2, 3, 5, 6, 7, 8):
            refused('as_matrix', f"no square matrix has {n} entries", ('ValueError',), 'as_matrix', tuple(range(n)))
        refused('trace', 'trace of a vector is refused', ('ValueError',), 'trace', vec(2))
        refused('trace', 'trace of a scalar is refused', ('ValueError',), 'trace', scal())
        f = sy('f')
        for factor, what in ((None, 'without factor'), (F.Num(f), 'with factor'), (F.Cf((f,), ()), 'with a field as factor')):
            k = ONE if factor is None else f
            a = () if factor is None else (factor,)
            for n, pos, dims in ((3, (0, 1, 1, 2), (2, 2)), (6, (0, 1, 2, 1, 3, 4, 2, 4, 5), (3, 3))):
                v = vec(n)
                for src in (v, tuple(F.Cf((x,), ()) for x in v.e)):
                    value('symmetric', f"symmetric matrix of {n} components of a {type(src).__name__}, {what}",
                          F.Cf(tuple(A.mul(k, v.e[i]) for i in pos), dims), 'symmetric_matrix_from_vector', src, *a)
            x = sy('x')
            want = F.Cf((ZERO, A.neg(A.mul(k, x)), A.mul(k, x), ZERO), (2, 2))
            for src in (scal(), number('x')):
                value('skew', f"skew matrix of a {type(src).__name__}, {what}", want, 'skewsymmetric_matrix_from_vector', src, *a)
            v = vec(3)
            for src in (v, [F.Cf((x,), ()) for x in v.e]):
                p, q, r = v.e
                want = F.Cf(tuple(A.mul(k, x) for x in (ZERO, A.neg(p), q, p, ZERO, A.neg(r), A.neg(q), r, ZERO)), (3, 3))
                value('skew', f"skew matrix of 3 components of a {type(src).__name__}, {what}", want,
                      'skewsymmetric_matrix_from_vector', src, *a)
        for n in (1, 2, 4, 5, 7):
            refused('symmetric', f"{n} components make no symmetric matrix", ('ValueError',), 'symmetric_matrix_from_vector', vec(n))
        for n in (1, 2, 4, 6):
            refused('skew', f"{n} components make no skew matrix", ('ValueError',), 'skewsymmetric_matrix_from_vector', vec(n))

    def shapes(c):
        samples = [('an integer', 1, 's'), ('a float', 0.5, 's'), ('a real number', number('x'), 's'), ('a scalar field', scal(), 's'),
                   ('a parameter', None, 's'), ('text', 'text', ''), ('none', None, '')]
        samples += [(f"a vector of {n}", vec(n), 'v') for n in (1, 2, 3, 4, 6)]
        samples += [(f"a {r}x{k} matrix", mat(r, k), 'm' + ('q' if r == k else '')) for r in (1, 2, 3) for k in (1, 2, 3)]
        for what, v, kind in samples:
            if what == 'a parameter':
                continue
            for name, ok in (('is_scalar', 's' in kind), ('is_vector', 'v' in kind), ('is_matrix', 'm' in kind), ('is_symmetric', 'q' in kind)):
                for out in outcome(name, v):
                    c.ob('shape', f"{name} of {what}", out.exc is None and it.truth(out.value) is ok, f"{out.exc or out.value!r}")
        def par(it):
            return it.call(it.getattr(it.ext['ngsolve'], 'Parameter'), [1.0])
        for name, ok in (('is_scalar', True), ('is_vector', False), ('is_matrix', False)):
            for out in c.explore(lambda it: call(name, par(it))):
                c.ob('shape', f"{name} of a parameter", out.exc is None and it.truth(out.value) is ok, f"{out.exc or out.value!r}")
        x = sy('x')
        value('as_scalar', 'a number becomes a field', F.Cf((x,), ()), 'as_scalar', number('x'))
        value('as_scalar', 'a field is handed back', F.Cf((x,), ()), 'as_scalar', scal())
        v = vec(3)
        es = [F.Cf((x,), ()) for x in v.e]
        for what, src in (('tuple', tuple(es)), ('list', list(es)), ('field', v)):
            value('as_vector', f"vector of a {what}", v, 'as_vector', src)
        for name in ('as_scalar', 'as_vector', 'as_matrix'):
            for what, bad in (('none', None), ('a dictionary', {})):
                refused('cast', f"{name} of {what} is refused", ('NotImplementedError',), name, bad)
        refused('cast', 'as_vector of a number is refused', ('NotImplementedError',), 'as_vector', 1.0)
        refused('cast', 'as_matrix of a number is refused', ('NotImplementedError',), 'as_matrix', 1.0)
        refused('cast', 'as_scalar of a tuple is refused', ('NotImplementedError',), 'as_scalar', (1, 2))
        for what, v, ok in (('zero', 0, True), ('zero float', 0.0, True), ('one', 1, False), ('minus a half', -0.5, False), ('a field', scal(), False)):
            for out in outcome('is_zero', v):
                c.ob('is_zero', f"is_zero of {what}", out.exc is None and it.truth(out.value) is ok, f"{out.exc or out.value!r}")
        refused('is_zero', 'is_zero of text is refused', ('TypeError',), 'is_zero', 'text')

    def fixpoint(c):
        """every iterate is the map of the one before; the last one is returned, after the first small change or the last iteration"""
        x0 = sy('x0')

        def fn(it, x):
            return F.Num(A.fn('map', F.to_e(x)))
        seq = [x0]
        for _ in range(6):
            seq.append(A.fn('map', seq[-1]))
        tol = sy('tol', 'pos')
        n = 0
        for iters in (0, 1, 2, 4):
            for out in c.explore(lambda it: call('fixpoint_iteration', F.Num(x0), HostFn('map', fn), it=iters, tol=F.Num(tol))):
                if out.exc:
                    c.ob('fixpoint', f"{iters} iterations", False, str(out.exc), out.exc.where)
                    continue
                e = F.to_e(out.value)
                k = seq.index(e) if e in seq else None
                c.ob('fixpoint', f"the result is an iterate ({iters} iterations)", k is not None and k <= iters, A.brief(e) if e is not None else repr(out.value))
                if k is None:
                    continue
                from ..check import sign_facts
                facts = sign_facts(out)
                if not c._inhabited(facts):
                    continue
                # at sample points of the partition: stopped at the first change below the tolerance
                hits = 0
                for j in range(120):
                    pt = A.Point(f"fp/{iters}/{j}")
                    try:
                        if not all((A.evalf(x, pt) > 0) == (r == '+') for x, r in facts if r in '+n'):
                            continue
                        want = iters
                        for i in range(iters):
                            if abs(A.evalf(seq[i + 1], pt) - A.evalf(seq[i], pt)) < A.evalf(tol, pt):
                                want = i + 1
                                break
                    except (A.AlgError, ZeroDivisionError):
                        continue
                    hits += 1
                    n += 1
                    if want != k:
                        c.ob('fixpoint', f"stops at the first small change ({iters} iterations)", False, f"returns iterate {k} instead of {want}")
                        break
                else:
                    c.ob('fixpoint', f"stops at the first small change ({iters} iterations)", True)
        c.need('fixpoint partitions sampled', n, 20)
    for f in (scalars, products, matrices, shapes, fixpoint):
        c.part(f)


# ------------------------------------------------------------------ C26

FLOW = {'rho': 'density', 'u': 'velocity', 'rho_u': 'momentum', 'p': 'pressure', 'T': 'temperature', 'rho_E': 'energy',
        'E': 'specific_energy', 'rho_Ei': 'inner_energy', 'Ei': 'specific_inner_energy', 'rho_Ek': 'kinetic_energy',
        'Ek': 'specific_kinetic_energy', 'rho_H': 'enthalpy', 'H': 'specific_enthalpy', 'c': 'speed_of_sound'}
FLOW.update({'grad_' + k: v + '_gradient' for k, v in list(FLOW.items())})
FLOW['eps'] = 'strain_rate_tensor'
CONTAINERS = {('dream.compressible.config', 'flowfields'): FLOW,
              ('dream.compressible.config', 'dimensionfulfields'): {
                  'L': 'length', 'rho': 'density', 'rho_u': 'momentum', 'u': 'velocity', 'c': 'speed_of_sound',
                  'T': 'temperature', 'p': 'pressure'}}


def c26(c):
    it = c.it

    def go_all(c, where, table):
        cls = c.api(*where)
        name = where[1]

        def make(**k):
            return it.call(cls, [], k)

        def keys(o):
            return [k for k in it.iterate(o)]

        def item(o, k):
            return it.getitem(o, k)

        def run(rule, construct, fn):
            for out in c.explore(fn):
                if out.exc:
                    c.ob(rule, construct, False, f"raises {out.exc}", out.exc.where)
                    return
                c.ob(rule, construct, *out.value)

        n = 0
        for sym_, full in table.items():
            x, y = scal('x'), scal('y')

            def by_keyword(it):
                o = make(**{sym_: x})
                return o

            def by_item(it):
                o = make()
                it.setitem(o, sym_, x)
                return o

            def by_attribute(it):
                o = make()
                it.setattr(o, sym_, x)
                return o

            def by_name(it):
                o = make()
                it.setitem(o, full, x)
                return o

            def by_name_keyword(it):
                return make(**{full: x})

            def by_mapping(it):
                return it.call(cls, [{sym_: x}])

            def by_update(it):
                o = make()
                it.call(it.getattr(o, 'update'), [make(**{sym_: x})])
                return o
            for f in (by_keyword, by_item, by_attribute, by_name, by_name_keyword, by_mapping, by_update):
                n += 1

                def one(it, f=f):
                    o = f(it)
                    bad = []
                    if keys(o) != [full]:
                        bad.append(f"keys {keys(o)}")
                    if it.getattr(o, sym_) is not x:
                        bad.append('not the same value by attribute')
                    if item(o, full) is not x:
                        bad.append('not the same value by name')
                    if it.length(o) != 1:
                        bad.append('length')
                    for s2 in table:
                        if s2 != sym_ and it.getattr(o, s2) is not None:
                            bad.append(f"{s2} is present as well")
                    if not it.truth(it.contains(o, full)):
                        bad.append('not contained by name')
                    return not bad, "; ".join(bad)
                run('entry', f"{name}: {sym_} set {f.__name__.replace('_', ' ')}", one)

                def over(it, f=f):
                    o = f(it)
                    it.setattr(o, sym_, y)
                    a = it.getattr(o, sym_) is y and keys(o) == [full]
                    it.setitem(o, full, x)
                    b = it.getattr(o, sym_) is x and keys(o) == [full]
                    it.setitem(o, sym_, y)
                    d = item(o, full) is y and keys(o) == [full]
                    it.setattr(o, sym_, None)
                    e = item(o, full) is y and it.getattr(o, sym_) is y
                    it.delattr(o, sym_)
                    g = keys(o) == [] and it.getattr(o, sym_) is None
                    return a and b and d and e and g, f"overwriting {a} {b} {d}, assigning None {e}, deleting {g}"
                run('entry', f"{name}: {sym_} set {f.__name__.replace('_', ' ')}, then changed", over)

            def conv(it):
                o = make(**{sym_: 2})
                v = it.getattr(o, sym_)
                it.setattr(o, sym_, (1, F.Num(sy('z'))))
                w = it.getattr(o, sym_)
                ok = isinstance(v, F.Cf) and v.dims == () and v.e[0] is N(2) and isinstance(w, F.Cf) and w.dims == (2,) \
                    and w.e[1] is sy('z')
                return ok, f"{v!r}, {w!r}"
            run('conversion', f"{name}: {sym_} becomes a coefficient function", conv)

        def absent(it):
            o = make()
            got = [s for s in table if it.getattr(o, s) is not None]
            it.setattr(o, next(iter(table)), None)
            return not got and keys(o) == [], f"{got} {keys(o)}"
        run('absent', f"{name}: an empty container has no quantity", absent)

        def missing(it):
            o = make()
            bad = []
            for s in table.values():
                try:
                    item(o, s)
                    bad.append(s)
                except PyEx as ex:
                    if ex.value.cls.name != 'KeyError':
                        bad.append(f"{s}: {ex}")
            return not bad, f"{bad}"
        run('absent', f"{name}: an absent quantity is not found by name", missing)

        def distinct(it):
            vals = {s: scal(f"x_{s}") for s in table}
            o = make(**vals)
            bad = [s for s in table if it.getattr(o, s) is not vals[s] or item(o, table[s]) is not vals[s]]
            return not bad and sorted(keys(o)) == sorted(table.values()), f"{bad} {sorted(set(table.values()) ^ set(keys(o)))}"
        run('distinct', f"{name}: every symbol is its own quantity", distinct)

        def isolated(it):
            vals = {s: scal(f"x_{s}") for s in table}
            a = make(**vals)
            b = it.call(cls, [], dict(zip(keys(a), [item(a, k) for k in keys(a)])))
            b2 = it.call(cls, [a])
            e = make()
            bad = []
            y = scal('y')
            for s in table:
                it.setattr(b, s, y)
                it.setattr(b2, s, y)
            if any(it.getattr(a, s) is not vals[s] for s in table):
                bad.append('changing a copy changes the original')
            if keys(e) or keys(make()):
                bad.append('a new container is not empty')
            for s in table:
                it.delattr(b2, s)
            if any(it.getattr(a, s) is None for s in table):
                bad.append('deleting from a copy deletes from the original')
            return not bad, "; ".join(bad)
        run('isolation', f"{name}: containers share no entries", isolated)

        def extra(it):
            o = make(vorticity=scal('w'))
            it.setitem(o, 'Q', scal('q'))
            return keys(o) == ['vorticity', 'Q'] and all(it.getattr(o, s) is None for s in table), f"{keys(o)}"
        run('entry', f"{name}: other names are kept as they are", extra)

        def order(it):
            ss = list(table)[::-1]
            o = make(**{s: scal(f"x_{s}") for s in ss})
            return keys(o) == [table[s] for s in ss], f"{keys(o)}"
        run('entry', f"{name}: entries keep their order", order)
        c.need(f"ways to set a quantity of {name}", n, 40)

    def separate(c):
        """the quantities of one container class mean nothing to another one"""
        base = c.api('dream.config', 'ngsdict')
        classes = {w[1]: (c.api(*w), t) for w, t in CONTAINERS.items()}

        def go(it):
            bad = []
            o = it.call(base, [], {k: scal('x') for k in FLOW})
            if list(it.iterate(o)) != list(FLOW):
                bad.append(f"plain container renames: {list(it.iterate(o))}")
            for n, (cls, t) in classes.items():
                for m, (_, t2) in classes.items():
                    for s in set(t2) - set(t):
                        o = it.call(cls, [], {s: scal('x')})
                        if list(it.iterate(o)) != [s]:
                            bad.append(f"{n} renames {s}")
            return bad
        for out in c.explore(go):
            c.ob('isolation', 'container classes have their own tables of quantities', not out.exc and not out.value, f"{out.exc or out.value}")

    def derived(c, text, table):
        """containers a user derives know the inherited quantities and their own"""
        names = {w[1]: c.api(*w) for w in CONTAINERS}
        names['quantity'] = c.api('dream.config', 'quantity')

        def go(it):
            cls = source(it, text, **names)['my']
            bad = []
            for s, full in table.items():
                x, y = scal('x'), scal('y')
                a, b, d = it.call(cls, [], {s: x}), it.call(cls, []), it.call(cls, [])
                it.setattr(b, s, x)
                it.setitem(d, full, x)
                for o, how in ((a, 'symbol'), (b, 'attribute'), (d, 'name')):
                    if list(it.iterate(o)) != [full] or it.getattr(o, s) is not x or it.getitem(o, full) is not x:
                        bad.append(f"{s} set by {how} is the entry {list(it.iterate(o))}")
                it.setitem(a, s, y)
                if list(it.iterate(a)) != [full] or it.getattr(a, s) is not y:
                    bad.append(f"{s} set again by symbol is the entry {list(it.iterate(a))}")
            # the classes it derives from are what they were
            for w, t in CONTAINERS.items():
                for s, full in t.items():
                    if list(it.iterate(it.call(names[w[1]], [], {s: scal('x')}))) != [full]:
                        bad.append(f"{s} of {w[1]} is no longer {full}")
            return bad
        for out in c.explore(go):
            c.ob('derived', text.replace('\n', ' '), not out.exc and not out.value, f"{out.exc or out.value}"[:400])

    for where, table in CONTAINERS.items():
        c.part(go_all, where, table)
    c.part(separate)
    flow = next(t for w, t in CONTAINERS.items() if w[1] == 'flowfields')
    for text, own in (("class my(flowfields):\n    Y = quantity('mass_fraction')\n    k = quantity('kinetic')\n", {'Y': 'mass_fraction', 'k': 'kinetic'}),
                      ("class my(flowfields):\n    pass\n", {}),
                      ("class one(flowfields):\n    Y = quantity('mass_fraction')\nclass my(one):\n    Z = quantity('other_fraction')\n",
                       {'Y': 'mass_fraction', 'Z': 'other_fraction'}),
                      ("class my(flowfields):\n    rho = quantity('my_density')\n", {'rho': 'my_density'}),
                      ("class one(flowfields):\n    Y = quantity('mass_fraction')\nclass my(flowfields):\n    Y = quantity('yield')\n", {'Y': 'yield'})):
        c.part(derived, text, {**flow, **own})


RULES = {'C24': c24, 'C26': c26}
