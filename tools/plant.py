"""Writes the planted bugs of tools/bugs.py to seeded/<id>/ and confirms each in a scratch copy of /repo.

usage: plant.py [ID...]      (re)generate and confirm: applies, builds, keeps the stable tests, demo 0 without / nonzero with
       plant.py --catch [ID...]   run the check of each bug's property on the changed copy and report
"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

V = Path(__file__).resolve().parents[1]
sys.path.insert(0, str(V / 'tools'))
from bugs import BUGS, PRELUDE  # noqa: E402

SH = '''#!/bin/bash
# run with cwd /repo: 0 when the property holds, 1 when it is broken
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
cd "$work" || exit 2
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$repo" timeout 250 /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, cwd, env=None, t=900):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=t, env={**os.environ, **(env or {})})


def change(root, b):
    for f, old, new in b['edits']:
        p = root / f
        s = p.read_text()
        assert s.count(old) == 1, (b['id'], f, s.count(old))
        p.write_text(s.replace(old, new))


def scratch(tag):
    d = Path(f'/tmp/plant.{os.getpid()}.{tag}')
    if d.exists():
        shutil.rmtree(d)
    shutil.copytree('/repo', d, symlinks=True)
    return d


def tests(root):
    w = Path(str(root) + '.cwd')
    w.mkdir(exist_ok=True)
    r = sh(f"timeout 600 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=120 --rootdir={root} "
           f"--deselect tests/compressible/test_equations.py::test_equation -x {root}/tests", w,
           {'PYTHONPATH': str(root), 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'MPLBACKEND': 'Agg'})
    shutil.rmtree(w)
    return r.returncode == 0 and ' passed' in r.stdout, r.stdout[-400:]


def plant(b):
    d = V / 'seeded' / b['id']
    root = scratch(b['id'])
    try:
        change(root, b)
        diff = sh('git diff', root).stdout
        if d.exists():
            shutil.rmtree(d)
        d.mkdir(parents=True)
        (d / 'patch.diff').write_text(diff)
        (d / 'demo.py').write_text(PRELUDE + b['demo'])
        (d / 'demo.sh').write_text(SH)
        (d / 'demo.sh').chmod(0o755)
        (d / 'meta.json').write_text(json.dumps({'property': b['property'], 'needs': b['needs'],
                                                 'what_it_breaks': b['breaks']}, indent=1) + "\n")
        bad = sh(f"bash {d}/demo.sh", root)
        good = sh(f"bash {d}/demo.sh", '/repo')
        ok, log = tests(root)
        return b['id'], good.returncode == 0 and bad.returncode == 1 and ok, \
            f"demo {good.returncode}/{bad.returncode} tests {ok} {good.stderr[-300:] if good.returncode else ''} " \
            f"{bad.stderr[-200:] if bad.returncode else ''} {'' if ok else log}"
    finally:
        shutil.rmtree(root)


def catch(b):
    root = scratch('c' + b['id'])
    try:
        change(root, b)
        r = sh(f"python3-vt -m sa.run {b['property']}", V, {'SA_ROOT': str(root), 'SA_EVIDENCE': str(root) + '.ev'})
        hit = r.returncode == 1 and f"VIOLATION property={b['property']}" in r.stdout
        first = [l for l in r.stdout.splitlines() if l.startswith((' ', 'FINDING', 'VIOL'))][:1]
        return b['id'], hit, f"{b['property']} rc {r.returncode} {(first or r.stdout.splitlines()[-1:] or [''])[0][:200]}"
    finally:
        shutil.rmtree(root)
        shutil.rmtree(str(root) + '.ev', ignore_errors=True)


if __name__ == '__main__':
    a = sys.argv[1:]
    f = catch if '--catch' in a else plant
    ids = [x for x in a if not x.startswith('--')]
    sel = [b for b in BUGS if not ids or b['id'] in ids]
    with ThreadPoolExecutor(6) as ex:
        for i, ok, msg in ex.map(f, sel):
            print('ok  ' if ok else 'FAIL', i, msg, flush=True)
