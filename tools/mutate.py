"""Systematic mutation of the package: which mutants survive its tests, and which of those the checks see.

usage: mutate.py gen  FILE...            list mutants as json lines on stdout
       mutate.py test IN OUT             keep those that still pass the stable tests
       mutate.py check IN OUT P1,P2,...  run the checks in that order until one reports the mutant
Works on scratch copies of /repo under /tmp/mut.<pid>; never touches /repo.
"""
import ast
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
from queue import Queue

REPO = Path('/repo')
SCR = Path(f'/tmp/mut.{os.getpid()}')
VERIF = Path(__file__).resolve().parents[1]


def gen(rel):
    src = (REPO / rel).read_text()
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    raw = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def txt(n):
        a, b = span(n)
        return raw[a:b].decode()
    tree = ast.parse(src)
    parent = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            parent[c] = n
    out = []

    def where(n):
        names = []
        while n in parent:
            n = parent[n]
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                names.insert(0, n.name)
        return ".".join(names)

    def rep(n, new, op):
        a, b = span(n)
        out.append({'file': rel, 'a': a, 'b': b, 'new': new, 'old': raw[a:b].decode(), 'op': op,
                    'line': n.lineno, 'fn': where(n)})

    def in_annotation(n):
        while n in parent:
            p = parent[n]
            if isinstance(p, ast.arg) or isinstance(p, ast.AnnAssign) and p.annotation is n or \
                    isinstance(p, ast.FunctionDef) and p.returns is n:
                return True
            if isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and isinstance(p.func.value, ast.Name) \
                    and p.func.value.id in ('logger', 'logging'):
                return True
            if isinstance(p, ast.Raise):
                return True
            n = p
        return False
    for n in ast.walk(tree):
        if not hasattr(n, 'lineno') or in_annotation(n):
            continue
        if isinstance(n, ast.BinOp):
            l, r = txt(n.left), txt(n.right)
            sw = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*', ast.Mod: '//'}.get(type(n.op))
            par = '(%s)' if isinstance(parent.get(n), (ast.BinOp, ast.UnaryOp)) and False else '%s'
            if sw:
                rep(n, f"({l}) {sw} ({r})" if par else '', 'binop')
            if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
                rep(n, f"({l})", 'drop right')
            if isinstance(n.op, (ast.Add, ast.Mult)):
                rep(n, f"({r})", 'drop left')
            if isinstance(n.op, ast.Sub):
                rep(n, f"(({r}) - ({l}))", 'swap')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
            rep(n, f"({txt(n.operand)})", 'unary')
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                rep(n, str(not n.value), 'bool')
            elif isinstance(n.value, (int, float)):
                rep(n, repr(n.value + 1), 'const+1')
                if n.value:
                    rep(n, '0' if isinstance(n.value, int) else '0.0', 'const0')
            elif isinstance(n.value, str) and not isinstance(parent.get(n), (ast.Expr, ast.JoinedStr, ast.FormattedValue)):
                other = {'incoming': 'outgoing', 'outgoing': 'incoming', 'n+1': 'n', 'n': 'n-1', 'n-1': 'n',
                         'U': 'Uhat', 'Uhat': 'U', 'left': 'right', 'right': 'left'}.get(n.value)
                if other:
                    rep(n, repr(other), 'str')
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = txt(n.left), txt(n.comparators[0])
            sw = {ast.Lt: ['<=', '>='], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<='], ast.GtE: ['>', '<'], ast.Eq: ['!='],
                  ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}[type(n.ops[0])]
            for s in sw:
                rep(n, f"({l} {s} {r})", 'compare')
        elif isinstance(n, ast.BoolOp):
            s = ' or ' if isinstance(n.op, ast.And) else ' and '
            rep(n, "(" + s.join(f"({txt(v)})" for v in n.values) + ")", 'boolop')
            for i in range(len(n.values)):
                vs = [txt(v) for j, v in enumerate(n.values) if j != i]
                rep(n, "(" + (' and ' if isinstance(n.op, ast.And) else ' or ').join(f"({v})" for v in vs) + ")", 'drop bool')
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            rep(n.test, 'False', 'never')
            if not isinstance(n, ast.While):
                rep(n.test, 'True', 'always')
        elif isinstance(n, ast.Subscript):
            k = n.slice
            if isinstance(k, ast.Tuple) and len(k.elts) == 2:
                rep(k, f"{txt(k.elts[1])}, {txt(k.elts[0])}", 'transpose')
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                a, b = n.args[0], n.args[1]
                s, e = span(a)[0], span(b)[1]
                mid = raw[span(a)[1]:span(b)[0]].decode()
                out.append({'file': rel, 'a': s, 'b': e, 'new': txt(b) + mid + txt(a), 'old': raw[s:e].decode(), 'op': 'swap args',
                            'line': n.lineno, 'fn': where(n)})
            for kw in n.keywords:
                if kw.arg:
                    a, b = span(n)
                    s = off[kw.lineno - 1] + kw.col_offset
                    e = span(kw.value)[1]
                    t = raw[a:s].decode().rstrip()
                    rest = raw[e:b].decode()
                    if t.endswith(','):
                        t = t[:-1]
                    elif rest.lstrip().startswith(','):
                        rest = rest.lstrip()[1:]
                    out.append({'file': rel, 'a': a, 'b': b, 'new': t + rest, 'old': raw[a:b].decode(), 'op': f'drop kw {kw.arg}',
                                'line': n.lineno, 'fn': where(n)})
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            other = {'U': 'Uhat', 'Uhat': 'U', 'V': 'Vhat', 'Vhat': 'V', 'Q_in': 'Q_out', 'Qin': 'Qout', 'Qout': 'Qin',
                     'start': 'end', 'end': 'start', 'mn': 'mx', 'mx': 'mn'}.get(n.id)
            if other:
                rep(n, other, 'name')
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or isinstance(n, ast.Expr) and isinstance(n.value, (ast.Call, ast.Yield)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and txt(n).startswith('logger'):
                continue
            if not isinstance(parent.get(n), (ast.Module, ast.ClassDef)):
                rep(n, 'pass', 'delete')
            if isinstance(n, ast.AugAssign):
                o = {ast.Add: '-=', ast.Sub: '+=', ast.Mult: '/=', ast.Div: '*='}.get(type(n.op))
                if o:
                    rep(n, f"{txt(n.target)} {o} {txt(n.value)}", 'augop')
        elif isinstance(n, ast.Raise) or isinstance(n, (ast.Return, ast.Break, ast.Continue)):
            rep(n, 'pass', 'delete')
        elif isinstance(n, ast.With):
            pass
    res, seen = [], set()
    for m in out:
        key = (m['a'], m['b'], m['new'])
        if m['new'] == m['old'] or key in seen:
            continue
        seen.add(key)
        t = (raw[:m['a']] + m['new'].encode() + raw[m['b']:]).decode()
        try:
            if ast.dump(ast.parse(t)) == ast.dump(tree):
                continue
        except SyntaxError:
            continue
        res.append(m)
    return res


def apply(m, root):
    p = root / m['file']
    raw = (REPO / m['file']).read_bytes()
    p.write_bytes(raw[:m['a']] + m['new'].encode() + raw[m['b']:])


def restore(m, root):
    shutil.copy(REPO / m['file'], root / m['file'])


def pool(items, work, n, out):
    q = Queue()
    for i in range(n):
        r = SCR / str(i)
        r.mkdir(parents=True)
        subprocess.run(['cp', '-a', str(REPO / 'dream'), str(REPO / 'tests'), str(r)], check=True)
        for x in ('pyproject.toml', 'setup.py', 'setup.cfg'):
            if (REPO / x).exists():
                shutil.copy(REPO / x, r)
        q.put(r)

    def go(m):
        r = q.get()
        try:
            apply(m, r)
            return m, work(m, r)
        finally:
            restore(m, r)
            q.put(r)
    with open(out, 'w') as f, ThreadPoolExecutor(n) as ex:
        done = 0
        for m, res in ex.map(go, items):
            done += 1
            if res is not None:
                f.write(json.dumps({**m, **res}) + "\n")
                f.flush()
            if done % 100 == 0:
                print(done, len(items), flush=True)
    shutil.rmtree(SCR)


def test(m, root):
    env = dict(os.environ, PYTHONPATH=str(root), PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OMP_NUM_THREADS='1')
    cwd = root / 'cwd'
    cwd.mkdir(exist_ok=True)
    try:
        p = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-p', 'no:xdist', '--rootdir', str(root),
                            '--deselect', 'tests/compressible/test_equations.py::test_equation', str(root / 'tests')],
                           env=env, cwd=cwd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
    except subprocess.TimeoutExpired:
        return None
    finally:
        shutil.rmtree(cwd, ignore_errors=True)
    return {} if p.returncode == 0 else None


AUTO = {'dream/compressible/formulations/conservative.py': 'C08 C11 C10 C12 C04 C09 C31 C32'.split(),
        'dream/compressible/solver.py': 'C02 C03 C01 C04 C07 C05 C11 C32 C27'.split(),
        'dream/compressible/eos.py': 'C01 C03 C05 C06 C04 C27 C09'.split(),
        'dream/compressible/config.py': 'C26 C18 C22 C09 C10'.split(),
        'dream/compressible/riemann_solver.py': 'C06 C08 C09'.split(),
        'dream/compressible/scaling.py': 'C07 C04'.split(),
        'dream/compressible/viscosity.py': 'C07 C04'.split(),
        'dream/bla.py': 'C24 C23 C05'.split(),
        'dream/config.py': 'C19 C20 C21 C18 C25 C30'.split(),
        'dream/time.py': 'C12 C29 C14 C16 C15 C18'.split(),
        'dream/solver.py': 'C13 C14 C15 C16 C18'.split(),
        'dream/mesh.py': 'C22 C23 C10 C31 C18'.split(),
        'dream/io.py': 'C17 C16 C15 C28 C14'.split()}


def check(props):
    def work(m, root):
        res = {}
        for p in props if props != ['auto'] else AUTO.get(m['file'], ()):
            env = dict(os.environ, SA_ROOT=str(root), SA_EVIDENCE=str(root / 'ev'), VERIF_SEED='1')
            try:
                r = subprocess.run(['python3-vt', '-m', 'sa.run', p], cwd=VERIF, env=env, capture_output=True, text=True, timeout=600)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = 'timeout'
            res[p] = rc
            if rc == 1:
                return {'caught': p, 'rc': res, 'why': r.stdout[:300]}
        return {'caught': None, 'rc': res}
    return work


if __name__ == '__main__':
    cmd = sys.argv[1]
    if cmd == 'gen':
        for f in sys.argv[2:]:
            for m in gen(f):
                print(json.dumps(m))
    else:
        items = [json.loads(l) for l in open(sys.argv[2])]
        n = int(os.environ.get('JOBS', '8'))
        pool(items, test if cmd == 'test' else check(sys.argv[4].split(',')), n, sys.argv[3])
