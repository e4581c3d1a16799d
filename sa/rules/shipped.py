"""C38: every shipped example sets up and runs the solver it states, for every choice of the switches it offers."""
from __future__ import annotations

import ast
import itertools
from collections import Counter

from .. import alg as A, fields as F
from ..check import sharded
from ..flow import mesh as new_mesh, source
from ..forms import ZERO
from ..interp import IObj, PyEx
from .config_ import aliases_of, same_value

SQUARE = ('left', 'right', 'top', 'bottom')


def names_in(node):
    return {x.id for x in ast.walk(node) if isinstance(x, ast.Name)}


def chain(node):
    """cfg.a.b as ['a', 'b']"""
    p = []
    while isinstance(node, ast.Attribute):
        p.append(node.attr)
        node = node.value
    return p[::-1] if isinstance(node, ast.Name) and node.id == 'cfg' else None


class Example:
    """the statements of one example: switches and numbers, geometry (replaced by a mesh with the names in use), the solver,
    its run, and what follows"""

    def __init__(self, path):
        self.name = path.stem
        self.tree = ast.parse(path.read_text())
        body = self.tree.body
        # the solver is made where the class of the solver is called
        self.first = next((i for i, s in enumerate(body) if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call)
                           and isinstance(s.value.func, ast.Name) and s.value.func.id == 'CompressibleFlowSolver'), None)
        self.consts = {}
        for s in body[:self.first or 0]:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                try:
                    self.consts[s.targets[0].id] = ast.literal_eval(s.value)
                except ValueError:
                    pass
        self.imports = [s for s in body if isinstance(s, ast.ImportFrom) and s.module and s.module.split('.')[0] in ('dream', 'ngsolve')]
        rest = body[self.first or 0:]
        end = next((i for i, s in enumerate(rest) if any(isinstance(x, (ast.Import, ast.ImportFrom)) for x in ast.walk(s))), len(rest))
        self.steps = rest[:end]
        used = set().union(*(names_in(s) for s in self.steps))
        geometry = set().union(*(names_in(s) for s in body[:self.first or 0] if not isinstance(s, (ast.Import, ast.ImportFrom))))
        self.switches = sorted(k for k, v in self.consts.items() if isinstance(v, bool) and (k in used or k in geometry))
        self.ring = 'get_cylinder_omesh' in geometry

    def choices(self):
        for vals in itertools.product((False, True), repeat=len(self.switches)):
            yield dict(zip(self.switches, vals))

    def mesh(self, on):
        if self.ring:
            return new_mesh(2, ('cylinder', 'left', 'right'), ('default',))
        if on.get('circle'):
            return new_mesh(2, ('left', 'right'), ('default',))
        return new_mesh(2, SQUARE, ('default',), periodic=bool(on.get('periodic')))


def c38(c):
    it = c.it
    from pathlib import Path
    files = sorted((Path(c.root) / 'examples').rglob('*.py'))
    examples = [e for e in map(Example, files) if e.first is not None]
    c.need('examples', len(examples), 1)

    def run(c, ex, on):
        what = ex.name + ''.join(f", {'' if v else 'not '}{k}" for k, v in on.items())

        def go(it):
            it.assume = lambda key, options: True if key[0] in ('exists', 'isdir') and True in options else None
            it.inner_script = lambda x, y: F.Num(ZERO)
            m = ex.mesh(on)
            ns = source(it, '\n'.join(ast.unparse(s) for s in ex.imports))
            ns.update(ex.consts)
            ns.update(on)
            ns['mesh'] = m
            read, asked = [], {}
            n0 = mark = len(it.events)
            try:
                for s in ex.steps:
                    text = ast.unparse(s)
                    if 'cfg.solve(' in text:
                        # a few levels stand for all
                        time = it.getattr(ns['cfg'], 'time')
                        if it.truth(it.contains(time, 'timer')):
                            timer = it.getattr(time, 'timer')
                            step = it.getattr(timer, 'step').val
                            start = it.getitem(it.getattr(timer, 'interval'), 0)
                            e = A.add(F.to_e(start), A.mul(A.num(3), F.to_e(step)))
                            it.setattr(timer, 'interval', (start, F.Num(e)))
                        mark = len(it.events)
                    it.exec_module('user', Text(text), ns)
                    asked.update(outputs(it, s, ns))
                    if isinstance(s, ast.Assign) and len(s.targets) == 1 and chain(s.targets[0]):
                        p = chain(s.targets[0])
                        try:
                            v = ast.literal_eval(s.value)
                        except ValueError:
                            continue
                        o = ns['cfg']
                        try:
                            for k in p:
                                o = it.getattr(o, k)
                        except PyEx:
                            # what does not apply to this flow, or belongs to an output that is off, cannot be read
                            continue
                        read.append(('.'.join(p), v, holds(it, o, v)))
            finally:
                it.inner_script = None
            cfg = ns['cfg']
            said = [str(e[3]) for e in it.events[n0:] if e[0] == 'log' and e[1] == 'error']
            free = {}
            for kind in ('bcs', 'dcs'):
                d = it.getattr(cfg, kind)
                for k in it.mapping_keys(d):
                    free[kind, k] = [x.cls.name for x in it.to_list(it.getitem(d, k))]
            return read, said, free, it.events[n0:mark], it.events[mark:], asked
        o = c.run1(go)
        if not c.ob('runs', what, not o.exc, str(o.exc), o.exc and o.exc.where):
            return 0
        read, said, free, before, ran, asked = o.value
        for path, v, ok in read:
            c.ob('states', f"{what}: {path} = {v!r}", ok is True, f"{ok}")
        for (kind, k), conds in free.items():
            c.ob('conditions', f"{what}: one condition on {k} ({kind})", len(conds) == 1, f"{conds}")
        c.ob('runs', f"{what}: reports no error", not said, f"{said[:3]}")
        kinds = Counter(e[0] for e in ran)
        steady = not any(p.startswith('time.timer.interval') for p, _, _ in read)
        c.ob('solves', f"{what}: {'steps' if steady else 'all time levels'} solved", kinds['mat.inverse'] >= (1 if steady else 3), f"{kinds}")
        c.ob('outputs', f"{what}: no error", not said, f"{said[:3]}")
        if 'draw' in asked:
            drawn = [e[2].get('name', e[1][2] if len(e[1]) > 2 else '') for e in before + ran if e[0] == 'draw']
            c.ob('outputs', f"{what}: draws {asked['draw']}", sorted(drawn) == sorted(asked['draw']), f"{drawn}")
            c.ob('outputs', f"{what}: redraws while running", kinds['redraw'] >= 1 and kinds['scene.redraw'] >= len(drawn), f"{kinds}")
        off = {p for p, v, _ in read if p.startswith('io.') and v is False}
        if any(p == 'io.vtk' and v is True for p, v, _ in read):
            new = [e for e in ran if e[0] == 'vtk.new']
            c.ob('outputs', f"{what}: writes {asked.get('vtk')}", len(new) == 1 and vtk_names(it, new[0]) == asked.get('vtk'), f"{new}")
            c.ob('outputs', f"{what}: writes the start and every level", kinds['vtk.do'] == 4, f"{kinds['vtk.do']} pictures")
        if any(p == 'io.sensor' and v is True for p, v, _ in read):
            c.ob('outputs', f"{what}: writes rows of measurements", kinds['csv.row'] >= 4, f"{kinds['csv.row']} rows")
        if off:
            c.ob('outputs', f"{what}: writes nothing that is off", not kinds['file.open'] - kinds['csv.row'] > 0 and not kinds['gf.save'], f"{kinds}")
        return len(read)

    @sharded
    def shipped(c):
        n = 0
        for ex in examples:
            for on in ex.choices():
                if c.turn():
                    n += run(c, ex, on)
        c.need('statements of examples', n, 40)

    c.part(shipped)


def outputs(it, s, ns):
    """names of the fields a statement draws or writes"""
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and chain(s.value.func) == ['io', 'draw']:
        a = s.value.args[0]
        if isinstance(a, ast.Name):
            return {'draw': list(it.iterate(ns[a.id]))}
    if isinstance(s, ast.Assign) and chain(s.targets[0]) == ['io', 'vtk', 'fields'] and isinstance(s.value, ast.Name):
        return {'vtk': list(it.iterate(ns[s.value.id]))}
    return {}


def vtk_names(it, e):
    return [x for x in it.iterate(e[-1]['names'])] if isinstance(e[-1], dict) and 'names' in e[-1] else None


class Text:
    def __init__(self, text):
        self.text = text

    def read_text(self):
        return self.text

    def __str__(self):
        return '<example>'


def holds(it, o, v):
    """does a setting hold what the example assigns"""
    if isinstance(v, dict):
        for k, w in v.items():
            x = it.getitem(o, k)
            if holds(it, x, w) is not True:
                return f"{k} holds {x!r}"
        return True
    if isinstance(o, IObj) and 'data' in o.d:
        if isinstance(v, bool):
            # an output that is off reads as a stream that does nothing
            return True
        if isinstance(v, str):
            try:
                own = [x.lower() for x in aliases_of(it, o.cls)]
            except Exception:
                own = []
            if it.mapping_keys(o.d['data']) is not None and v in list(it.mapping_keys(o.d['data'])):
                return True
            return True if v.lower() in own else f"is named {own}"
        return f"holds {o!r}"
    if isinstance(o, F.Param):
        o = o.val
    a, b = F.to_e(o), None
    if isinstance(o, dict) and isinstance(v, str):
        return True if v in o else f"holds {list(o)}"
    if isinstance(v, (bool, str)) or v is None:
        return True if same_value(it, o, v) else f"holds {o!r}"
    if isinstance(v, (int, float)):
        b = A.num(str(v)) if isinstance(v, float) else A.num(v)
        return True if a is not None and F.simplify_const(a) is F.simplify_const(b) else f"holds {o!r}"
    if isinstance(v, (tuple, list)):
        xs = it.to_list(o)
        return True if len(xs) == len(v) and all(holds(it, x, w) is True for x, w in zip(xs, v)) else f"holds {o!r}"
    return f"holds {o!r}"


RULES = {'C38': c38}
