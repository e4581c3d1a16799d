"""C01-C03: the closure relations of the ideal gas, the mechanical relations and the gradient relations."""
import itertools

from .. import alg as A, fields as F
from ..flow import State, solver, gamma_of, lazy_fields, NAMES, ret_where
from ..interp import Unsupported, HostFn

THERMO = {
    'density': ('rho', [{'rho'}, {'p', 'T'}, {'p', 'c'}, {'rho_Ei', 'T'}]),
    'pressure': ('p', [{'p'}, {'rho', 'T'}, {'rho_Ei'}, {'rho', 'c'}]),
    'temperature': ('T', [{'T'}, {'p', 'rho'}, {'Ei'}, {'c'}]),
    'inner_energy': ('rho_Ei', [{'rho_Ei'}, {'p'}, {'rho', 'T'}, {'rho_E', 'rho_Ek'}]),
    'specific_inner_energy': ('Ei', [{'Ei'}, {'T'}, {'rho', 'p'}, {'rho', 'rho_Ei'}, {'E', 'Ek'}]),
    'speed_of_sound': ('c', [{'c'}, {'rho', 'p'}, {'T'}, {'Ei'}]),
}
MECH = {
    'velocity': ('u', [{'u'}, {'rho', 'rho_u'}]),
    'momentum': ('rho_u', [{'rho_u'}, {'rho', 'u'}]),
    'kinetic_energy': ('rho_Ek', [{'rho_Ek'}, {'rho', 'u'}, {'rho', 'rho_u'}, {'rho_E', 'rho_Ei'}, {'rho', 'Ek'}]),
    'specific_kinetic_energy': ('Ek', [{'Ek'}, {'u'}, {'rho', 'rho_u'}, {'rho', 'rho_Ek'}, {'E', 'Ei'}]),
    'energy': ('rho_E', [{'rho_E'}, {'rho', 'E'}, {'rho_Ei', 'rho_Ek'}, {'p', 'rho_Ek'}, {'p', 'rho', 'u'},
                         {'rho', 'T', 'u'}, {'rho', 'T', 'rho_u'}, {'rho_Ei', 'rho', 'u'}]),
    'specific_energy': ('E', [{'E'}, {'rho', 'rho_E'}, {'Ei', 'Ek'}]),
    'enthalpy': ('rho_H', [{'rho_H'}, {'rho_E', 'p'}, {'rho', 'H'}]),
    'specific_enthalpy': ('H', [{'H'}, {'rho', 'rho_H'}, {'rho', 'E', 'p', 'rho_E'}]),
}
GRAD = {
    'density_gradient': ('grad_rho', [{'grad_rho'}, {'p', 'T', 'grad_p', 'grad_T'},
                                      {'T', 'rho_Ei', 'grad_T', 'grad_rho_Ei'}]),
    'pressure_gradient': ('grad_p', [{'grad_p'}, {'rho', 'T', 'grad_rho', 'grad_T'}, {'grad_rho_Ei'}]),
    'temperature_gradient': ('grad_T', [{'grad_T'}, {'rho', 'p', 'grad_p', 'grad_rho'}, {'grad_Ei'}]),
    'velocity_gradient': ('grad_u', [{'grad_u'}, {'rho', 'rho_u', 'grad_rho', 'grad_rho_u'}]),
    'momentum_gradient': ('grad_rho_u', [{'grad_rho_u'}, {'rho', 'u', 'grad_rho', 'grad_u'}]),
    'energy_gradient': ('grad_rho_E', [{'grad_rho_E'}, {'grad_rho_Ei', 'grad_rho_Ek'}]),
    'specific_energy_gradient': ('grad_E', [{'grad_E'}, {'grad_Ei', 'grad_Ek'}]),
    'inner_energy_gradient': ('grad_rho_Ei', [{'grad_rho_Ei'}, {'grad_rho_E', 'grad_rho_Ek'}]),
    'specific_inner_energy_gradient': ('grad_Ei', [{'grad_Ei'}, {'grad_E', 'grad_Ek'}]),
    'kinetic_energy_gradient': ('grad_rho_Ek', [{'grad_rho_Ek'}, {'grad_rho_E', 'grad_rho_Ei'},
                                                {'rho', 'u', 'grad_rho', 'grad_u'},
                                                {'rho', 'rho_u', 'grad_rho', 'grad_rho_u'}]),
    'specific_kinetic_energy_gradient': ('grad_Ek', [{'grad_Ek'}, {'grad_E', 'grad_Ei'}, {'u', 'grad_u'},
                                                     {'rho', 'rho_u', 'grad_rho', 'grad_rho_u'}]),
    'enthalpy_gradient': ('grad_rho_H', [{'grad_rho_H'}, {'grad_rho_E', 'grad_p'}]),
    'strain_rate_tensor': ('eps', [{'eps'}, {'grad_u'}]),
}


def relation(c, method, key, docs, dim, grads=False):
    """every presence pattern of known fields: the exact value, or ValueError where nothing documented applies"""
    it = c.it
    box = {}

    def go(it):
        cfg = solver(c, dim)
        s = State(gamma_of(it, cfg), dim)
        known = {k: s.cf(k) for k in s.v}
        box['want'] = dict(known)
        free = {}

        def atoms(k, v):
            es = []
            for i, e in enumerate(v.e):
                a = A.declare(f'{k}#{i}', 'real')
                box['sub'][a] = e
                free[a.args[0]] = long.get(k, k)
                es.append(a)
            return F.Cf(tuple(es), v.dims)
        box['sub'] = {}
        U = lazy_fields(c, {k: atoms(k, v) for k, v in known.items()}, 'U')
        args = [U]
        if grads:
            g = s.grads()
            box['want'].update(g)
            dU = lazy_fields(c, {k: atoms(k, v) for k, v in g.items()}, 'U')
            args = [dU] if method == 'strain_rate_tensor' else [U, dU]
        if any(a is None for a in args):
            raise Unsupported("the field container does not keep its values in a dictionary attribute")
        box['s'], box['free'] = s, free
        return it.call(it.getattr(cfg, method), args)

    long = dict(NAMES)
    long.update({'grad_' + k: v + '_gradient' for k, v in NAMES.items()})
    long['eps'] = 'strain_rate_tensor'
    reached = set()
    for out in c.explore(go):
        dec = {k[2]: v for k, v in out.decisions().items() if isinstance(k, tuple) and k[0] == 'has'}
        other = [k for k in out.decisions() if not (isinstance(k, tuple) and k[0] == 'has')]
        if out.cut or other:
            raise Unsupported(f"{method}: {out.cut or other}")
        missing = {k for k, v in dec.items() if not v}
        have = sorted(k for k, v in dec.items() if v)
        where = ret_where(it, out)
        possible = [d for d in docs if not {long[k] for k in d} & missing]
        name = f"{method} with {', '.join(have) or 'nothing'} known (dim {dim})"
        if out.exc is None:
            reached.add(frozenset(have))
            if out.value is None:
                c.ob('determined', name, False, "None is returned as if it were a value", where)
                continue
            v = F.cf_of(it, out.value)
            used = sorted({box['free'][x] for e in v.e for x in A.syms(e) if x in box['free']})
            memo = box['sub']
            v = F.Cf(tuple(A.subst(e, memo) for e in v.e), v.dims)
            c.equal_cf('value', f"{method} from {', '.join(used) or 'nothing'} (dim {dim})", v, box['want'][key],
                       box['s'].sub, where)
        elif out.excname == 'ValueError':
            c.ob('determined', name, not possible,
                 f"ValueError although the documented relation from {sorted(possible[0]) if possible else ''} applies",
                 out.exc.where)
        else:
            c.ob('determined', name, False, f"{out.excname}: {out.exc}", out.exc.where)
    return len(reached)


def supplied(c, table, dim, grads=False):
    """a supplied field is handed back as it is, whatever else is known"""
    it = c.it
    for method, (key, _) in table.items():
        def go(it):
            cfg = solver(c, dim)
            s = State(gamma_of(it, cfg), dim)
            vals = {k: F.Cf(tuple(A.declare(f'free_{k}_{i}') for i in range(len(s.v[k]))), s.dims(k)) for k in s.v}
            gr = {k: F.Cf(tuple(A.declare(f'free_{k}_{i}') for i in range(len(v.e))), v.dims)
                  for k, v in s.grads().items()}
            ff = c.api('dream.compressible', 'flowfields')
            U = it.call(ff, [], dict(vals))
            args = [U]
            if grads:
                dU = it.call(ff, [], dict(gr))
                args = [dU] if method == 'strain_rate_tensor' else [U, dU]
            return it.call(it.getattr(cfg, method), args), {**vals, **gr}[key]
        out = c.run1(go)
        if out.exc:
            c.ob('supplied', f"{method} (dim {dim})", False, str(out.exc), out.exc.where)
            continue
        c.equal_cf('supplied', f"{method} (dim {dim})", out.value[0], out.value[1], where=ret_where(it, out))


def table(c, tab, grads=False, dims=(2, 3)):
    n = 0
    for dim in dims:
        for m, (k, docs) in tab.items():
            n += relation(c, m, k, docs, dim, grads)
        supplied(c, tab, dim, grads)
    return n


def c01(c):
    def relations(c):
        c.need('determined presence patterns', table(c, THERMO), 40)

    def live(c):
        """the heat capacity ratio used is the live parameter, and the value set by the user"""
        it = c.it
        for val in ('5/3', '7/5'):
            def go(it):
                cfg = solver(c, 2)
                eos = it.getattr(cfg, 'equation_of_state')
                p0 = it.getattr(eos, 'heat_capacity_ratio')
                s = State(gamma_of(it, cfg), 2)
                U = s.fields(c, 'rho', 'p')
                first = it.call(it.getattr(cfg, 'temperature'), [U])
                it.setattr(eos, 'heat_capacity_ratio', float(A.num(val).args[0]))
                p1 = it.getattr(eos, 'heat_capacity_ratio')
                second = it.call(it.getattr(cfg, 'temperature'), [U])
                return p0 is p1, first, second, it.call(it.getattr(p1, 'Get'), []), s.sub
            out = c.run1(go)
            if out.exc:
                c.ob('live', f'gamma={val}', False, str(out.exc), out.exc.where)
                continue
            same, a, b, got, sub = out.value
            c.ob('live', f'parameter object kept, gamma={val}', same,
                 'setting the heat capacity ratio replaced the parameter object that existing expressions refer to')
            c.equal_cf('live', f'same expression after update, gamma={val}', b, a, sub)
    def isentropic(c):
        """density of an isentropic change of state from every set of known fields of the state and the reference"""
        it = c.it
        g = A.declare('g', 'pos')
        n = 0
        for own in itertools.product((False, True), repeat=3):
            for ref in itertools.product((False, True), repeat=3):
                def go(it):
                    cfg = solver(c, 2)
                    ff = c.api('dream.compressible', 'flowfields')
                    a, b = ({k: F.Cf((A.declare(f"{k}_{t}", 'pos'),)) for k, x in zip(('rho', 'p', 'T'), has) if x} for has, t in ((own, 's'), (ref, 'r')))
                    gm = gamma_of(it, cfg)
                    return it.call(it.getattr(cfg, 'isentropic_density'), [it.call(ff, [], a), it.call(ff, [], b)]), gm
                which = [k for i, k in ((1, 'p'), (2, 'T')) if own[i] and ref[i] and ref[0]]
                known = '+'.join(k for k, x in zip(('rho', 'p', 'T'), own) if x) or 'nothing'
                kref = '+'.join(k for k, x in zip(('rho', 'p', 'T'), ref) if x) or 'nothing'
                name = f"isentropic density from {known} with {kref} of the reference"
                for out in c.explore(go):
                    n += 1
                    if not which:
                        c.ob('isentropic', name, out.excname == 'ValueError', f"{out.exc or out.value[0]} is returned", out.exc.where if out.exc else None)
                        continue
                    if out.exc or out.value[0] is None:
                        c.ob('isentropic', name, False, f"{out.exc or 'nothing is returned'}", out.exc.where if out.exc else None)
                        continue
                    v, gm = out.value
                    sub = {gm: A.add(A.num(1), g)}
                    r = A.declare('rho_r', 'pos')
                    forms = {'p': A.div(A.num(1), gm), 'T': A.div(A.num(1), A.sub(gm, A.num(1)))}
                    want = [A.mul(r, A.power(A.div(A.declare(f"{k}_s", 'pos'), A.declare(f"{k}_r", 'pos')), forms[k])) for k in which]
                    e = F.cf_of(it, v).e[0]
                    c.ob('isentropic', name, any(c.holds(e, w, sub) for w in want), f"{A.brief(e, 200)} instead of {A.brief(want[0], 200)}")
        c.need('isentropic relations', n, 64)
    c.part(relations)
    c.part(live)
    c.part(isentropic)


def c02(c):
    def relations(c):
        c.need('determined presence patterns', table(c, MECH), 50)

    def local(c):
        for dim, law in itertools.product((1, 2, 3), ('constant', 'a user')):
            mu = A.num(1) if law == 'constant' else A.declare('mu', 'pos')

            def go(it):
                cfg = solver(c, dim, dynamic_viscosity='constant')
                if law != 'constant':
                    o = it.getattr(cfg, 'dynamic_viscosity')
                    o.cls.ns['viscosity'] = HostFn('viscosity', lambda it, self, U: F.Cf((mu,)))
                s = State(gamma_of(it, cfg), dim)
                U = s.fields(c, 'rho', 'u', 'p')
                return (it.call(it.getattr(cfg, 'get_local_mach_number'), [U]),
                        it.call(it.getattr(cfg, 'get_local_reynolds_number'), [U]), s)
            out = c.run1(go)
            if out.exc:
                c.ob('local numbers', f'dim {dim}, {law} viscosity', False, str(out.exc), out.exc.where)
                continue
            ma, re, s = out.value
            mag = A.sqrt(F.dot(s.u0, s.u0))
            c.equal('local numbers', f'local Mach number, dim {dim}, {law} viscosity', ma, A.div(mag, s.c0), s.sub, ret_where(c.it, out))
            c.equal('local numbers', f'local Reynolds number, dim {dim}, {law} viscosity', re, A.div(A.mul(s.rho0, mag), mu), s.sub,
                    ret_where(c.it, out))
    c.part(relations)
    c.part(local)


def c03(c):
    def relations(c):
        c.need('determined presence patterns', table(c, GRAD, True), 60)
    c.part(relations)


RULES = {'C01': c01, 'C02': c02, 'C03': c03}
