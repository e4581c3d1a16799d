"""Calibration of the interpreter: snippets of the language (lang.py) and of the libraries (lib.py) under CPython and NGSolve
against the same snippets under the abstract semantics. Not a check: it validates the trusted base.

usage: run.py            prints the differences
"""
import importlib.util
import json
import math
import shutil
import signal
import subprocess
import sys
import tempfile
from fractions import Fraction
from pathlib import Path

HERE = Path(__file__).resolve().parent
REAL = '/opt/venv/bin/python'


def real_lib():
    import ngsolve as ngs
    from netgen.geom2d import unit_square
    sys.path.insert(0, str(HERE))
    import lib
    mesh = ngs.Mesh(unit_square.GenerateMesh(maxh=1))
    p = mesh(0.3, 0.4)
    out = {}
    for n in sorted(k for k in dir(lib) if k.startswith('t_')):
        try:
            r = []
            for c in getattr(lib, n)():
                v = c(p)
                r.append([list(c.dims), list(v) if isinstance(v, tuple) else [v]])
            out[n] = r
        except Exception as e:
            out[n] = type(e).__name__
    print(json.dumps(out))


def close(a, b):
    return math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-12) or a != a and b != b


def main():
    sys.path.insert(0, str(HERE.parents[1]))
    from sa.interp import Interp, PyEx, Unsupported, Cut
    from sa import fields as F, alg as A
    sys.path.insert(0, str(HERE))
    import lang

    def late(*_):
        raise TimeoutError('does not end')
    signal.signal(signal.SIGALRM, late)
    root = Path(tempfile.mkdtemp())
    bad = 0
    try:
        shutil.copytree('/repo/dream', root / 'dream')
        for f in ('lang.py', 'lib.py'):
            shutil.copy(HERE / f, root / 'dream' / ('zz_' + f))
        it = Interp(str(root))
        it.models.reset_run(it)
        m = it.import_module('dream.zz_lang')
        for n in [k for k in dir(lang) if k.startswith('t_')]:
            want = repr(getattr(lang, n)())
            signal.alarm(10)
            try:
                got = str(it.repr_(it.call(it.getattr(m, n), [], {})))
            except (Unsupported, Cut, PyEx) as e:
                got = f"{type(e).__name__}: {e}"
            except Exception as e:
                got = f"CRASH {type(e).__name__}: {e}"
            signal.alarm(0)
            if got != want:
                bad += 1
                print(n, got[:300], '| want', want[:300])
        ref = json.loads(subprocess.run([REAL, __file__, '--real'], capture_output=True, text=True, check=True).stdout.splitlines()[-1])
        params, init = [], F.Param.__init__

        def record(self, *a, **k):
            init(self, *a, **k)
            params.append(self)
        F.Param.__init__ = record
        m = it.import_module('dream.zz_lib')

        def value(e):
            pt = {q.name: Fraction(q.val) for q in params}
            return float(A.evalf(e, pt))
        for n, want in ref.items():
            try:
                got = []
                for c in it.to_list(it.call(it.getattr(m, n), [], {})):
                    c = F.cf_of(it, c)
                    got.append([list(c.dims), [value(x) for x in c.e]])
            except PyEx as e:
                got = e.value.cls.name
            except (Unsupported, Cut) as e:
                got = f"UNSUPPORTED {e}"
            except Exception as e:
                import traceback
                got = f"CRASH {type(e).__name__}: {e} {traceback.format_exc().splitlines()[-3:-1]}"
            same = got == want if isinstance(got, str) or isinstance(want, str) else len(got) == len(want) and all(
                a[0] == b[0] and len(a[1]) == len(b[1]) and all(close(x, y) for x, y in zip(a[1], b[1])) for a, b in zip(got, want))
            if not same:
                bad += 1
                if not isinstance(got, str) and not isinstance(want, str):
                    d = [(i, a, b) for i, (a, b) in enumerate(zip(got, want)) if a[0] != b[0] or not all(close(x, y) for x, y in zip(a[1], b[1]))]
                    print(n, d[:3])
                else:
                    print(n, str(got)[:300], '| want', str(want)[:200])
        print(bad, 'differences')
    finally:
        shutil.rmtree(root)


if __name__ == '__main__':
    real_lib() if '--real' in sys.argv else main()
