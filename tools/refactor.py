"""Behaviour-preserving rewrites of the whole package: the checks have to stay quiet on every one of them.

usage: refactor.py OUT [NAME...]     writes OUT/<NAME>/ (copy of /repo's package, rewritten), runs the package's tests on it
       refactor.py --check OUT [NAME...] [-- P1 P2 ...]   runs the checks on each copy and prints the ones that are not quiet
Each rewrite is applied everywhere it fits at once.
"""
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

REPO = Path('/repo')
V = Path(os.environ.get('VERIF', '/verif'))
FN = (ast.FunctionDef,)


class Base(ast.NodeTransformer):
    def __init__(self):
        self.k = 0

    def fresh(self, p='tmp'):
        self.k += 1
        return f"{p}_{self.k}"


def load(n):
    return ast.Name(n, ast.Load())


def store(n):
    return ast.Name(n, ast.Store())


def is_gen(f):
    for n in own(f):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def own(f):
    "nodes of f without those of nested functions and classes"
    todo = list(f.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo += list(ast.iter_child_nodes(n))


class Blocks(Base):
    "rewrites statement lists through stmt(s) -> list"
    infn = 0

    def visit_FunctionDef(self, n):
        self.infn += 1
        self.generic_visit(n)
        self.infn -= 1
        return n

    def generic_visit(self, n):
        super().generic_visit(n)
        if self.infn:
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(n, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(n, (ast.ClassDef, ast.Module)):
                    new = []
                    for i, s in enumerate(b):
                        new += self.stmt(s)
                    setattr(n, f, self.block(new))
        return n

    def visit_FunctionDef_(self, n):
        return n

    def stmt(self, s):
        return [s]

    def block(self, b):
        return b


class Ret(Blocks):
    "return EXPR -> result = EXPR; return result"
    def stmt(self, s):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
            t = self.fresh('result')
            return [ast.Assign([store(t)], s.value), ast.Return(load(t))]
        return [s]


class Invert(Blocks):
    "if A: X else: Y -> if not A: Y else: X"
    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse:
            return [ast.If(ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body)]
        return [s]


def ends(b):
    return bool(b) and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


class Guard(Blocks):
    "if A: return X; rest -> if A: return X else: rest"
    def block(self, b):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and ends(s.body) and b[i + 1:]:
                return b[:i] + [ast.If(s.test, s.body, b[i + 1:])]
        return b


class UnGuard(Blocks):
    "if A: return X else: rest -> if A: return X; rest"
    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.If) and s.orelse and ends(s.body):
                out += [ast.If(s.test, s.body, [])] + self.block(s.orelse)
            else:
                out.append(s)
        return out


class AndSplit(Blocks):
    "if A and B: X -> if A: if B: X;  if A or B: <ends> -> if A: ..; if B: .."
    def stmt(self, s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp):
            if isinstance(s.test.op, ast.And):
                b = s.body
                for v in reversed(s.test.values):
                    b = [ast.If(v, b, [])]
                return b
            if ends(s.body):
                return [ast.If(v, copy.deepcopy(s.body), []) for v in s.test.values]
        return [s]


class Elif(Blocks):
    "elif chains whose branches all end -> separate ifs"
    def stmt(self, s):
        if isinstance(s, ast.If):
            out, c = [], s
            while True:
                if not (ends(c.body) and c.orelse):
                    out.append(c)
                    return out
                out.append(ast.If(c.test, c.body, []))
                if len(c.orelse) == 1 and isinstance(c.orelse[0], ast.If):
                    c = c.orelse[0]
                else:
                    return out + c.orelse
        return [s]


class Comp(Blocks):
    "x = [f for a in b if c] -> loop (assignments and returns)"
    def loop(self, c, t):
        if len(c.generators) != 1 or c.generators[0].is_async:
            return None
        g = c.generators[0]
        names = {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        ren = {n: self.fresh(n) for n in names}

        class R(ast.NodeTransformer):
            def visit_Name(self, n):
                return ast.Name(ren.get(n.id, n.id), n.ctx)
        if any(isinstance(n, (ast.Lambda, ast.comprehension)) for p in ([c.elt] if hasattr(c, 'elt') else [c.key, c.value]) for n in ast.walk(p)):
            return None
        tgt = R().visit(copy.deepcopy(g.target))
        if isinstance(c, ast.ListComp):
            init = ast.List([], ast.Load())
            body = [ast.Expr(ast.Call(ast.Attribute(load(t), 'append', ast.Load()), [R().visit(copy.deepcopy(c.elt))], []))]
        elif isinstance(c, ast.DictComp):
            init = ast.Dict([], [])
            body = [ast.Assign([ast.Subscript(load(t), R().visit(copy.deepcopy(c.key)), ast.Store())], R().visit(copy.deepcopy(c.value)))]
        else:
            return None
        for i in reversed(g.ifs):
            body = [ast.If(R().visit(copy.deepcopy(i)), body, [])]
        return [ast.Assign([store(t)], init), ast.For(tgt, g.iter, body, [])]

    def stmt(self, s):
        v = getattr(s, 'value', None)
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, (ast.ListComp, ast.DictComp)):
            t = self.fresh('collected')
            l = self.loop(v, t)
            if l:
                s.value = load(t)
                return l + [s]
        return [s]


class LoopComp(Blocks):
    "x = []; for a in b: x.append(f) -> x = [f for a in b]"
    def block(self, b):
        out = []
        for s in b:
            p = out[-1] if out else None
            if isinstance(s, ast.For) and isinstance(p, ast.Assign) and isinstance(p.value, ast.List) and not p.value.elts \
                    and len(s.body) == 1 and isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Call) \
                    and isinstance(p.targets[0], ast.Name) \
                    and ast.unparse(s.body[0].value.func) == p.targets[0].id + ".append":
                out[-1] = ast.Assign(p.targets, ast.ListComp(s.body[0].value.args[0], [ast.comprehension(s.target, s.iter, [], 0)]))
            else:
                out.append(s)
        return out


class Ternary(Blocks):
    "x = a if c else b -> if/else (also in returns)"
    def stmt(self, s):
        v = getattr(s, 'value', None)
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, ast.IfExp):
            a, b = copy.deepcopy(s), copy.deepcopy(s)
            a.value, b.value = v.body, v.orelse
            return [ast.If(v.test, [a], [b])]
        return [s]


class ToTernary(Blocks):
    "if c: x = a else: x = b -> conditional expression; if c: return a; return b likewise"
    def stmt(self, s):
        if isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1 and isinstance(s.body[0], ast.Assign) \
                and isinstance(s.orelse[0], ast.Assign) and isinstance(s.body[0].targets[0], ast.Name) \
                and ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]) and len(s.body[0].targets) == len(s.orelse[0].targets) == 1:
            return [ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))]
        return [s]

    def block(self, b):
        if len(b) >= 2 and isinstance(b[-1], ast.Return) and b[-1].value and isinstance(b[-2], ast.If) and not b[-2].orelse \
                and len(b[-2].body) == 1 and isinstance(b[-2].body[0], ast.Return) and b[-2].body[0].value:
            return b[:-2] + [ast.Return(ast.IfExp(b[-2].test, b[-2].body[0].value, b[-1].value))]
        return b


class Walrus(Blocks):
    def stmt(self, s):
        return [s]


class EnumLoop(Blocks):
    "for x in xs -> for i, x in enumerate(xs)"
    def stmt(self, s):
        if isinstance(s, ast.For):
            return [ast.For(ast.Tuple([store(self.fresh('idx')), s.target], ast.Store()),
                            ast.Call(load('enumerate'), [s.iter], []), s.body, s.orelse)]
        return [s]


class WhileLoop(Blocks):
    "for x in xs -> iterator with next in a while loop"
    def stmt(self, s):
        if isinstance(s, ast.For) and not s.orelse:
            t, e = self.fresh('iterator'), self.fresh('sentinel')
            return [ast.Assign([store(t)], ast.Call(load('iter'), [s.iter], [])),
                    ast.Assign([store(e)], ast.Call(load('object'), [], [])),
                    ast.While(ast.Constant(True), [
                        ast.Assign([store(t + 'v')], ast.Call(load('next'), [load(t), load(e)], [])),
                        ast.If(ast.Compare(load(t + 'v'), [ast.Is()], [load(e)]), [ast.Break()], []),
                        ast.Assign([s.target], load(t + 'v'))] + s.body, [])]
        return [s]


class ListLoop(Blocks):
    "for x in xs -> for x in list(xs) unless it may be a generator that runs code"
    def stmt(self, s):
        if isinstance(s, ast.For) and not any(isinstance(n, (ast.Yield,)) for n in ast.walk(s)):
            src = ast.unparse(s.iter)
            if 'solve' not in src and 'time' not in src and 'timer' not in src and 'routine' not in src:
                s.iter = ast.Call(load('tuple'), [s.iter], [])
        return [s]


class Temps(Blocks):
    "x = f(g(a), ..) -> tmp = g(a); x = f(tmp, ..)"
    def stmt(self, s):
        v = getattr(s, 'value', None)
        if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and isinstance(v, ast.Call) and v.args \
                and isinstance(v.func, (ast.Name, ast.Attribute)) and not any(isinstance(n, ast.Call) for n in ast.walk(v.func)) \
                and isinstance(v.args[0], (ast.Call, ast.BinOp, ast.Attribute, ast.Subscript)) and not (isinstance(v.func, ast.Name) and v.func.id == 'super'):
            t = self.fresh('arg')
            a = v.args[0]
            v.args[0] = load(t)
            return [ast.Assign([store(t)], a), s]
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, ast.BinOp):
            t = self.fresh('left')
            l = v.left
            v.left = load(t)
            return [ast.Assign([store(t)], l), s]
        return [s]


class CondTemp(Blocks):
    "if COND -> flag = COND; if flag (only for the first test of a chain)"
    def stmt(self, s):
        if isinstance(s, ast.If) and not any(isinstance(n, ast.NamedExpr) for n in ast.walk(s.test)):
            t = self.fresh('flag')
            return [ast.Assign([store(t)], s.test), ast.If(load(t), s.body, s.orelse)]
        return [s]


class Aug(Blocks):
    "x += y -> x = x + y for names"
    def stmt(self, s):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and not isinstance(s.op, ast.BitOr):
            return [ast.Assign([store(s.target.id)], ast.BinOp(load(s.target.id), s.op, s.value))]
        return [s]


class ToAug(Blocks):
    "x = x + y -> x += y is not safe in general; x = x * 1 left; insert no-ops instead"
    def stmt(self, s):
        return [s, ast.Expr(ast.Constant(None))] if not ends([s]) else [s]


class FString(Base):
    def visit_JoinedStr(self, n):
        fmt, args = '', []
        for v in n.values:
            if isinstance(v, ast.Constant):
                fmt += v.value.replace('{', '{{').replace('}', '}}')
            else:
                spec = ''
                if v.format_spec is not None:
                    if not all(isinstance(x, ast.Constant) for x in v.format_spec.values):
                        return n
                    spec = ':' + ''.join(x.value for x in v.format_spec.values)
                conv = '!' + chr(v.conversion) if v.conversion != -1 else ''
                fmt += '{' + conv + spec + '}'
                args.append(self.visit(v.value))
        return ast.Call(ast.Attribute(ast.Constant(fmt), 'format', ast.Load()), args, [])


class Flip(Base):
    "a < b -> b > a; a is None -> not (a is not None)"
    def visit_Compare(self, n):
        self.generic_visit(n)
        sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        if len(n.ops) == 1:
            o = type(n.ops[0])
            if o in sw:
                return ast.Compare(n.comparators[0], [sw[o]()], [n.left])
            neg = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
            if o in neg:
                return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [neg[o]()], n.comparators))
        return n


class IsInst(Base):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == 'isinstance' and isinstance(n.args[1], ast.Tuple) \
                and isinstance(n.args[0], (ast.Name, ast.Attribute)):
            return ast.BoolOp(ast.Or(), [ast.Call(load('isinstance'), [n.args[0], e], []) for e in n.args[1].elts])
        return n


class DeMorgan(Base):
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp):
            o = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(o, [ast.UnaryOp(ast.Not(), v) for v in n.test.values]))
        return n


class Arith(Base):
    "a - b -> -b + a is not safe for strings: a - b -> a + (-1) * b;  x / 2 -> 0.5 * x"
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div) and isinstance(n.right, ast.Constant) and n.right.value in (2, 4):
            return ast.BinOp(ast.Constant(1 / n.right.value), ast.Mult(), n.left)
        if isinstance(n.op, ast.Mult) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, (int, float)):
            return ast.BinOp(n.right, ast.Mult(), n.left)
        return n


class Sub(Base):
    "a - b -> -b + a / -(b - a)"
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Sub) and not isinstance(n.left, ast.Constant) and not any(isinstance(x, (ast.Set,)) for x in ast.walk(n)):
            s = ast.unparse(n)
            if 'set(' in s or 'boundaries' in s or 'regions' in s or 'domains' in s:
                return n
            return ast.UnaryOp(ast.USub(), ast.BinOp(n.right, ast.Sub(), n.left))
        return n


class NoDoc(Base):
    "docstrings and annotations of functions removed (annotations of fields stay)"
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            n.body = n.body[1:] or [ast.Pass()]
        return n


class NoAnn(Base):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.returns = None
        for a in n.args.args + n.args.kwonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x]:
            a.annotation = None
        return n


class Reorder(Base):
    "plain methods of a class in reverse order"
    def visit_ClassDef(self, n):
        self.generic_visit(n)
        idx = [i for i, s in enumerate(n.body) if isinstance(s, FN) and not s.decorator_list]
        if any(isinstance(s, (ast.Assign, ast.AnnAssign)) for s in n.body[idx[0]:]) if idx else True:
            # later class attributes could use them
            pass
        new = list(n.body)
        names = [n.body[i].name for i in idx]
        if len(set(names)) == len(names):
            for i, j in zip(idx, reversed(idx)):
                new[i] = n.body[j]
        n.body = new
        return n


class Helper(Base):
    "every method body moves to a sibling helper of the same class"
    def visit_ClassDef(self, n):
        self.generic_visit(n)
        out = []
        for s in n.body:
            if isinstance(s, FN) and not s.name.startswith('__init_subclass') and \
                    all(not (isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod')) for d in s.decorator_list) \
                    and s.args.args and s.args.args[0].arg == 'self' and not s.args.posonlyargs \
                    and not (s.name.startswith('__') and not s.name.endswith('__')):
                h = copy.deepcopy(s)
                h.name = f"_do_{s.name.strip('_')}_{self.fresh('h')}"
                h.decorator_list = []
                a = h.args
                call = ast.Call(ast.Attribute(load('self'), h.name, ast.Load()),
                                [load(x.arg) for x in a.args[1:]] + ([ast.Starred(load(a.vararg.arg), ast.Load())] if a.vararg else []),
                                [ast.keyword(x.arg, load(x.arg)) for x in a.kwonlyargs] + ([ast.keyword(None, load(a.kwarg.arg))] if a.kwarg else []))
                h.args.defaults = []
                h.args.kw_defaults = [None for _ in a.kwonlyargs]
                doc = [s.body[0]] if isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Constant) else []
                s.body = doc + [ast.Expr(ast.YieldFrom(call)) if is_gen(h) else ast.Return(call)]
                out += [h, s]
            else:
                out.append(s)
        n.body = out
        return n


class Inner(Base):
    "every method body becomes a nested function called at once"
    def visit_FunctionDef(self, n):
        if n.name in ('decorator', 'wrapper') or any(isinstance(x, ast.Nonlocal) for x in ast.walk(n)):
            return n
        body = n.body
        if any(isinstance(x, FN) for x in body):
            return n
        stores = {x.id for b in body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        args = {x.arg for x in n.args.args + n.args.kwonlyargs}
        if stores & args or any(isinstance(x, (ast.Import, ast.ImportFrom, ast.Delete)) for b in body for x in ast.walk(b)):
            return n
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'super' and not x.args for b in body for x in ast.walk(b)):
            return n
        g = is_gen(n)
        f = ast.FunctionDef(name='compute', args=ast.arguments([], [], None, [], [], None, []), body=body, decorator_list=[], returns=None, type_params=[])
        c = ast.Call(load('compute'), [], [])
        n.body = [f, ast.Expr(ast.YieldFrom(c)) if g else ast.Return(c)]
        return n


class Me(Base):
    "self -> another name for it inside methods"
    def visit_FunctionDef(self, n):
        if n.args.args and n.args.args[0].arg == 'self':
            class R(ast.NodeTransformer):
                def visit_Name(self, m):
                    return ast.Name('this', m.ctx) if m.id == 'self' else m
            n.body = [R().visit(s) for s in n.body]
            n.body.insert(0, ast.Assign([store('this')], load('self')))
        return n


class Rename(Base):
    "local variables renamed"
    def visit_FunctionDef(self, n):
        args, stored, banned = set(), set(), set()
        for x in ast.walk(n):
            if isinstance(x, ast.arg):
                args.add(x.arg)
            elif isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                stored.add(x.id)
            elif isinstance(x, (ast.Global, ast.Nonlocal)):
                banned |= set(x.names)
            elif isinstance(x, ast.FunctionDef) and x is not n:
                banned.add(x.name)
            elif isinstance(x, ast.ClassDef):
                banned.add(x.name)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                banned |= {a.asname or a.name for a in x.names}
            elif isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                banned.add(x.name)
        ren = {v: v + '_' for v in stored - args - banned}

        class R(ast.NodeTransformer):
            def visit_Name(self, m):
                return ast.Name(ren.get(m.id, m.id), m.ctx)

            def visit_ExceptHandler(self, m):
                self.generic_visit(m)
                return m
        n.body = [R().visit(s) for s in n.body]
        return n


class Alias(Base):
    "import ngsolve as ngs -> import ngsolve as ng, and the like"
    def visit_Module(self, n):
        ren = {}
        for s in n.body:
            if isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        ren[a.asname] = a.asname + '_mod'
                        a.asname = ren[a.asname]
            elif isinstance(s, ast.ImportFrom) and s.module not in ('__future__',):
                pass

        class R(ast.NodeTransformer):
            def visit_Name(self, m):
                return ast.Name(ren.get(m.id, m.id), m.ctx)
        for x in ast.walk(n):
            if isinstance(x, ast.Constant) and isinstance(x.value, str):
                for k in ren:
                    if x.value.startswith(k + '.'):
                        x.value = ren[k] + x.value[len(k):]
        return R().visit(n)


class Props(Base):
    "@property def x -> def _get_x, x = property(_get_x) where it has no setter"
    def visit_ClassDef(self, n):
        self.generic_visit(n)
        used = {d.value.id for s in n.body if isinstance(s, FN) for d in s.decorator_list
                if isinstance(d, ast.Attribute) and isinstance(d.value, ast.Name)}
        out = []
        for s in n.body:
            if isinstance(s, FN) and len(s.decorator_list) == 1 and isinstance(s.decorator_list[0], ast.Name) \
                    and s.decorator_list[0].id == 'property' and s.name not in used:
                nm = s.name
                s.name = '_get_' + nm
                s.decorator_list = []
                out += [s, ast.Assign([store(nm)], ast.Call(load('property'), [load(s.name)], []))]
            else:
                out.append(s)
        n.body = out
        return n


class Super(Base):
    "super() -> super(Class, self)"
    def visit_ClassDef(self, n):
        c = n.name
        for f in n.body:
            if isinstance(f, FN) and f.args.args:
                a = f.args.args[0].arg
                for x in ast.walk(f):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'super' and not x.args:
                        x.args = [load(c), load(a)]
        self.generic_visit(n)
        return n


class Unwalrus(Blocks):
    "if (x := e) ..: -> x = e; if x"
    def stmt(self, s):
        if isinstance(s, ast.If):
            w = [x for x in ast.walk(s.test) if isinstance(x, ast.NamedExpr)]
            if len(w) == 1 and (s.test is w[0] or isinstance(s.test, ast.Compare) and s.test.left is w[0]):
                class R(ast.NodeTransformer):
                    def visit_NamedExpr(self, m):
                        return load(m.target.id)
                return [ast.Assign([store(w[0].target.id)], w[0].value), ast.If(R().visit(s.test), s.body, s.orelse)]
        return [s]


class Gets(Base):
    "x.get(k, d) of plain names -> x[k] if k in x else d"
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'get' and len(n.args) == 2 and isinstance(n.func.value, ast.Name) \
                and isinstance(n.args[0], ast.Constant) and isinstance(n.args[1], ast.Constant):
            return ast.IfExp(ast.Compare(n.args[0], [ast.In()], [n.func.value]),
                             ast.Subscript(n.func.value, n.args[0], ast.Load()), n.args[1])
        return n


class Kw(Base):
    "keyword arguments of calls in reverse order"
    def visit_Call(self, n):
        self.generic_visit(n)
        if all(k.arg for k in n.keywords) and not any(isinstance(x, ast.Call) for k in n.keywords for x in ast.walk(k.value)):
            n.keywords = n.keywords[::-1]
        return n


class Finally(Blocks):
    "with X: body / try left; asserts; pass"
    pass


class DictCall(Base):
    "{'a': x} -> dict(a=x) ; [a, b] -> list((a, b))"
    def visit_Dict(self, n):
        self.generic_visit(n)
        if n.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value.isidentifier() for k in n.keys):
            import keyword
            if not any(keyword.iskeyword(k.value) for k in n.keys):
                return ast.Call(load('dict'), [], [ast.keyword(k.value, v) for k, v in zip(n.keys, n.values)])
        return n


class Unpack(Blocks):
    "a, b = x, y -> one by one is unsafe; a = x; b = y independent -> a, b = x, y"
    def block(self, b):
        out = []
        for s in b:
            p = out[-1] if out else None
            simple = lambda q: isinstance(q, ast.Assign) and len(q.targets) == 1 and isinstance(q.targets[0], ast.Name)
            if simple(s) and simple(p) and p.targets[0].id not in {x.id for x in ast.walk(s.value) if isinstance(x, ast.Name)} \
                    and not any(isinstance(x, (ast.NamedExpr, ast.Lambda)) for x in ast.walk(s.value)) and p.targets[0].id != s.targets[0].id:
                out[-1] = ast.Assign([ast.Tuple([p.targets[0], s.targets[0]], ast.Store())], ast.Tuple([p.value, s.value], ast.Load()))
            else:
                out.append(s)
        return out


ALL = dict(ret=Ret, invert=Invert, guard=Guard, unguard=UnGuard, andsplit=AndSplit, elif_=Elif, comp=Comp, loopcomp=LoopComp,
           ternary=Ternary, toternary=ToTernary, enum=EnumLoop, while_=WhileLoop, tuple_=ListLoop, temps=Temps, condtemp=CondTemp,
           aug=Aug, noop=ToAug, fstring=FString, flip=Flip, isinst=IsInst, demorgan=DeMorgan, arith=Arith, sub=Sub, nodoc=NoDoc,
           noann=NoAnn, reorder=Reorder, helper=Helper, inner=Inner, me=Me, rename=Rename, alias=Alias, props=Props, super_=Super,
           unwalrus=Unwalrus, gets=Gets, kw=Kw, dictcall=DictCall, unpack=Unpack)


def make(name, out):
    d = out / name
    if d.exists():
        shutil.rmtree(d)
    d.mkdir(parents=True)
    subprocess.run(['cp', '-a', str(REPO / 'dream'), str(REPO / 'tests'), str(d)], check=True)
    for x in ('pyproject.toml', 'setup.py', 'setup.cfg', 'README.md', 'docs', 'examples'):
        if (REPO / x).exists():
            subprocess.run(['cp', '-a', str(REPO / x), str(d)], check=True)
    k = 0
    for p in sorted((d / 'dream').rglob('*.py')):
        if p.name == '_version.py':
            continue
        t = ast.parse(p.read_text())
        a = ast.unparse(t)
        t = ast.fix_missing_locations(ALL[name]().visit(t))
        b = ast.unparse(t)
        import difflib
        k += sum(1 for l in difflib.unified_diff(a.splitlines(), b.splitlines(), n=0) if l[:1] == '+')
        p.write_text(b)
    cwd = d / 'cwd'
    cwd.mkdir()
    env = dict(os.environ, PYTHONPATH=str(d), PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OMP_NUM_THREADS='1')
    r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-p', 'no:xdist', '--rootdir', str(d),
                        '--deselect', 'tests/compressible/test_equations.py::test_equation', str(d / 'tests')],
                       env=env, cwd=cwd, capture_output=True, text=True)
    shutil.rmtree(cwd)
    return name, k, r.returncode, r.stdout.strip().splitlines()[-1], [l for l in r.stdout.splitlines() if l.startswith(('E  ', 'FAILED', 'ERROR'))][:3]


def check(job):
    d, p = job
    env = dict(os.environ, SA_ROOT=str(d), SA_EVIDENCE=str(d / 'ev'), VERIF_SEED='1')
    try:
        r = subprocess.run(['python3-vt', '-m', 'sa.run', p], cwd=V, env=env, capture_output=True, text=True, timeout=900)
        rc, o = r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        rc, o = 'timeout', ''
    (d / f'{p}.out').write_text(o)
    und = [l for l in o.splitlines() if 'UNDECIDED' in l]
    first = [l for l in o.splitlines() if 'VIOLATION' in l][:1]
    return d.name, p, rc, len(und), (o.splitlines()[-1:] or [''])[0][:140], (und[:1] or first or [''])[0][:200]


if __name__ == '__main__':
    a = sys.argv[1:]
    props = []
    if '--' in a:
        i = a.index('--')
        a, props = a[:i], a[i + 1:]
    chk = '--check' in a
    a = [x for x in a if x != '--check']
    out = Path(a[0])
    names = a[1:] or list(ALL)
    n = int(os.environ.get('JOBS', '8'))
    with ThreadPoolExecutor(n) as ex:
        if not chk:
            for r in ex.map(lambda x: make(x, out), names):
                print(*r, flush=True)
        else:
            if not props:
                props = [c['property'] if 'property' in c else c['property_id'] for c in json.load(open(V / 'MANIFEST.json'))['checks']]
            jobs = [(out / x, p) for x in names for p in props if (out / x).exists()]
            for d, p, rc, u, last, msg in ex.map(check, jobs):
                if rc != 0 or u:
                    print(d, p, rc, u, last, '|', msg, flush=True)
