"""C32: the fields handed out for output are the exact functions of the stored solution."""
from __future__ import annotations

from .. import alg as A
from .. import fields as F
from ..interp import Unsupported, PyEx
from ..flow import State, NAMES, GRADS
from ..forms import Setup, cons

ZERO, ONE = A.num(0), A.num(1)
DEFAULT = ('rho', 'u', 'p', 'T')
VALUES = ('rho', 'u', 'rho_u', 'p', 'T', 'rho_E', 'rho_Ei', 'rho_Ek', 'c')
FLUXES = ('grad_rho', 'grad_u', 'grad_rho_u', 'grad_p', 'grad_T', 'grad_rho_E', 'grad_rho_Ei', 'grad_rho_Ek')
TABLE = {**NAMES, **GRADS, 'eps': 'strain_rate_tensor'}


class Stored:
    """an initialised solver whose stored solution is a free flow state with free gradients"""

    def __init__(self, c, dim, viscosity, mixed):
        it = c.it
        S = self.S = Setup(c, dim, time='transient', viscosity=viscosity, mixed=mixed, initial=False, initialize=False, assemble=False)
        for m in ('initialize_finite_element_spaces', 'initialize_trial_and_test_functions', 'initialize_gridfunctions'):
            it.call(it.getattr(S.cfg, m), [])
        self.it, self.dim = it, dim
        self.gfus = it.getattr(S.cfg, 'gfus')
        self.sub = {k: v for k, v in S.sub.items()}
        gf = it.getitem(self.gfus, 'U')
        self.U = gf
        comps = [x for g in it.getattr(gf, 'components') for x in g.e]
        base = {k: x for k, x in self.sub.items() if k.args[0].startswith('param')}
        st = S.s
        self.cons = [A.subst(x, base) for x in cons(st)]
        # free gradients of the stored components
        self.dcons = [[A.declare(f"D{k}_{i}", 'real') for k in range(dim)] for i in range(dim + 2)]
        for es in (list(gf.e), comps):
            if len(es) != dim + 2:
                raise Unsupported(f"the solution has {len(es)} components")
            for i, e in enumerate(es):
                self.sub[e] = self.cons[i]
                for k in range(dim):
                    self.sub[A.declare(f"d{'xyz'[k]}({e.args[0]})")] = self.dcons[i][k]
        # exact gradients: chain rule through the stored components, which determine rho, c and u
        g = A.subst(S.gamma, base)
        r, E = A.declare('w_r', 'pos'), A.declare('w_E', 'pos')
        m = [A.declare(f'w_m{i}', 'real') for i in range(dim)]
        Ek = A.div(A.mul(A.num('1/2'), F.dot(m, m)), r)
        Ei = A.sub(E, Ek)
        gm = A.sub(g, ONE)
        p = A.mul(gm, Ei)
        f = {'rho': [r], 'rho_u': m, 'rho_E': [E], 'u': [A.div(x, r) for x in m], 'rho_Ek': [Ek], 'rho_Ei': [Ei], 'p': [p],
             'T': [A.mul(g, A.div(Ei, r))], 'E': [A.div(E, r)], 'Ek': [A.div(Ek, r)], 'Ei': [A.div(Ei, r)],
             'rho_H': [A.add(E, p)], 'H': [A.div(A.add(E, p), r)]}
        w = [r, *m, E]
        at = dict(zip(w, self.cons))
        self.want = {k: F.Cf([A.subst(x, base) for x in v], (dim,) if k in ('u', 'rho_u') else ()) for k, v in st.v.items()}
        for k, es in f.items():
            rows = []
            for e in es:
                for j in range(dim):
                    t = ZERO
                    for i, x in enumerate(w):
                        t = A.add(t, A.mul(A.diff(e, x), self.dcons[i][j]))
                    rows.append(A.subst(t, at))
            self.want['grad_' + k] = F.Cf(rows, (dim, dim) if k in ('u', 'rho_u') else (dim,))
        if mixed == 'strain_heat':
            q = it.getitem(self.gfus, 'Q')
            z = [x for gq in it.getattr(q, 'components') for x in gq.e]
            for i, e in enumerate(q.e):
                self.sub[e] = z[i]
            n = 3 * dim - 3
            eps, k = [None] * (dim * dim), 0
            for i in range(dim):
                for j in range(i, dim):
                    eps[i * dim + j] = eps[j * dim + i] = z[k]
                    k += 1
            self.want['eps'] = F.Cf(eps, (dim, dim))
            self.want['grad_T'] = F.Cf(z[n:], (dim,))

    def get(self, **q):
        """({name: value}, quantities reported as unavailable)"""
        it = self.it
        n0 = len(it.events)
        f = it.call(it.getattr(self.S.cfg, 'get_fields'), [], q)
        said = [str(a) for e in it.events[n0:] if e[0] == 'log' and e[1] in ('info', 'warning', 'error') for a in e[3]]
        return {k: it.getitem(f, k) for k in it.iterate(f)}, said


CASES = ((2, 'inviscid', 'inactive'), (3, 'inviscid', 'inactive'), (2, 'constant', 'strain_heat'), (2, 'sutherland', 'strain_heat'),
         (3, 'constant', 'strain_heat'))


def c32(c):
    it = c.it

    def setup(case):
        return Stored(c, *case)

    def run(rule, name, go):
        out = c.run1(go)
        if out.exc:
            c.ob(rule, name, False, str(out.exc), out.exc.where)
            return None
        return out.value

    def exact(c, s, fields, name):
        for n, v in fields.items():
            k = next((k for k, x in TABLE.items() if x == n), None)
            if k is None:
                c.ob('exact', f"{n} is a known quantity, {name}", False, f"{n}")
                continue
            w = s.want.get(k)
            if w is None:
                if k == 'grad_c':
                    continue
                if k == 'eps':
                    gu = s.want['grad_u'].e
                    d = s.dim
                    tr = ZERO
                    for i in range(d):
                        tr = A.add(tr, gu[i * d + i])
                    w = F.Cf([A.sub(A.mul(A.num('1/2'), A.add(gu[i * d + j], gu[j * d + i])), A.mul(A.num('1/3'), tr) if i == j else ZERO)
                              for i in range(d) for j in range(d)], (d, d))
                else:
                    raise Unsupported(f"no oracle for {k}")
            c.equal_cf('exact', f"{n}, {name}", v, w, s.sub)

    def available(case):
        return set(VALUES) | set(FLUXES) | ({'eps'} if case[2] == 'strain_heat' else set())

    def label(case):
        return f"{case[0]}d {case[1]}"

    def defaults(c, case):
        def go(it):
            s = setup(case)
            return s, s.get()
        r = run('defaults', f"defaults, {label(case)}", go)
        if r:
            s, (f, _) = r
            c.ob('defaults', f"density, velocity, pressure and temperature, {label(case)}", set(f) == {NAMES[k] for k in DEFAULT}, f"{set(f)}")
            exact(c, s, f, f"by default, {label(case)}")

    def every(c, case):
        """all quantities at once, by symbol and by name"""
        for how in ('symbol', 'name'):
            def go(it):
                s = setup(case)
                return s, s.get(**{k if how == 'symbol' else n: True for k, n in TABLE.items()})
            r = run('exact', f"all by {how}, {label(case)}", go)
            if not r:
                continue
            s, (f, said) = r
            exact(c, s, f, f"all by {how}, {label(case)}")
            missing = {TABLE[k] for k in available(case)} - set(f)
            c.ob('available', f"all by {how}, {label(case)}", not missing, f"missing {missing}")
            for k, n in TABLE.items():
                if n not in f:
                    c.ob('reported', f"{n} by {how} is reported, {label(case)}", any((k if how == 'symbol' else n) in a.split() for a in said), f"{said}")
                else:
                    c.ob('reported', f"{n} by {how} is not reported as missing, {label(case)}",
                         not any((k if how == 'symbol' else n) in a.split() for a in said), f"{said}")

    def single(c, case):
        """one request adds exactly that quantity; switching off removes exactly that one"""
        n = 0
        for k in TABLE:
            for key in (k, TABLE[k]):
                def go(it):
                    s = setup(case)
                    return s, s.get(**{key: True}), s.get(**{key: False}), s.get(**{key: True, 'nonsense': True})
                r = run('request', f"{key}, {label(case)}", go)
                if not r:
                    continue
                s, (on, _), (off, _), (odd, said) = r
                base = {NAMES[x] for x in DEFAULT}
                want = base | ({TABLE[k]} if k in available(case) else set(on) & {TABLE[k]})
                c.ob('request', f"{key} adds that quantity, {label(case)}", set(on) == want, f"{set(on)} instead of {want}")
                exact(c, s, {x: v for x, v in on.items() if x == TABLE[k]}, f"requested as {key}, {label(case)}")
                if key == k or k not in DEFAULT:
                    c.ob('request', f"{key}=False leaves it out and the others in, {label(case)}", set(off) == base - {TABLE[k]}, f"{set(off)}")
                c.ob('request', f"{key} with an unknown quantity, {label(case)}", set(odd) == set(on), f"{set(odd)}")
                c.ob('reported', f"the unknown quantity is reported next to {key}, {label(case)}", any('nonsense' in a for a in said), f"{said}")
                n += 1
        c.need('requests', n, 20)

    def apart(c, case):
        """every call hands out a container of its own which follows the stored solution"""
        def go(it):
            s = setup(case)
            U = s.U
            a = it.call(it.getattr(s.S.cfg, 'get_fields'), [], {'rho_E': True})
            it.delitem(a, 'density')
            b = it.call(it.getattr(s.S.cfg, 'get_fields'), [], {'rho_E': True})
            sets = [e for e in it.events if e[0] in ('gf.set',) and e[1] is U]
            own = {e.args[0] for e in s.sub if not e.args[0].startswith('param')}
            live = all(any(A.syms(e) & own for e in F.cf_of(it, it.getitem(b, k)).e) for k in it.iterate(b))
            return list(it.iterate(a)), list(it.iterate(b)), len(sets), live
        r = run('apart', label(case), go)
        if r:
            a, b, sets, live = r
            c.ob('apart', f"containers are independent, {label(case)}", 'density' not in a and 'density' in b, f"{a} {b}")
            c.ob('apart', f"asking for fields leaves the solution alone, {label(case)}", sets == 0, f"{sets} writes")
            c.ob('apart', f"the fields are functions of the stored solution, {label(case)}", live, "a field does not depend on the solution")

    for case in CASES:
        c.part(defaults, case)
        c.part(every, case)
        if case[1] != 'sutherland' or c.thorough:
            c.part(single, case)
        c.part(apart, case)


RULES = {'C32': c32}
