"""writes MANIFEST.json from the claims below"""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parents[1]
VN = 'algebraic value numbering over an abstract interpretation of the source (exact normal forms per sign cell)'
TS = 'typestate / effect-trace analysis over an abstract interpretation of the source'
CT = 'class-table, registry and dispatch analysis over an abstract interpretation of the source'
EXACT = ('Every obligation is decided for all values of the symbols by exact normal forms of the expressions the source '
         'builds, in each sign cell that the sampling enumerates; trusts the calibrated models of ngsolve and real '
         'arithmetic.')
TRACE = ('All partitions of the tests the abstract domain leaves open are enumerated; trusts the models of ngsolve, '
         'pathlib, logging and csv; loops are unrolled to the stated bound.')
CLAIMS = {
 'C01': (VN, EXACT), 'C02': (VN, EXACT), 'C03': (VN, EXACT),
 'C04': (VN, EXACT), 'C05': (VN, EXACT), 'C06': (VN, EXACT), 'C07': (VN, EXACT),
 'C08': (VN, EXACT), 'C09': (VN, EXACT), 'C10': (VN, EXACT), 'C31': (CT, EXACT),
 'C14': (TS, TRACE), 'C15': (TS, TRACE), 'C16': (TS, TRACE), 'C17': (TS, TRACE), 'C28': (TS, TRACE),
 'C11': (VN, EXACT), 'C12': (VN, EXACT), 'C13': (TS, TRACE),
 'C18': (CT, TRACE), 'C19': (CT, TRACE), 'C20': (CT, TRACE), 'C21': (CT, TRACE), 'C22': (CT, TRACE), 'C25': (CT, TRACE),
 'C23': (VN, EXACT),
 'C32': (VN, EXACT), 'C33': (VN, EXACT), 'C34': (TS, TRACE), 'C35': (CT, TRACE), 'C36': (VN, TRACE), 'C37': (CT, TRACE), 'C38': (TS, TRACE),
 'C24': (VN, EXACT), 'C26': (CT, TRACE), 'C27': (TS, TRACE), 'C29': (VN, EXACT), 'C30': (VN, EXACT),
}
NA = {
 'C90': 'validity of meshes from a geometry kernel is decided inside netgen: no fact of it is visible in this source (the '
        'ring mesh that this source builds element by element is C37)',
 'C91': 'convergence of Newton iterations quantifies over numerical values no static argument bounds',
 'C92': 'order of accuracy and round-off conservation are numerical facts of assembled systems, not of the source',
 'C93': 'equality of the condensed and full solutions is a numerical fact of ngsolve\'s solver; the part visible in the '
        'source (matching operators on both paths) is checked under C13',
}
import sys
props = [json.loads(l)['id'] for l in (ROOT / 'properties.jsonl').read_text().splitlines()]
checks = []
for p in props:
    if p in CLAIMS:
        t, n = CLAIMS[p]
        checks.append({'property': p, 'quick_cmd': f'python3-vt -m sa.run {p}',
                       'thorough_cmd': f'python3-vt -m sa.run {p} --thorough', 'technique': 'static analysis: ' + t,
                       'level': 'other', 'level_note': n})
na = [{'property': p, 'reason': NA.get(p, 'no check built yet')} for p in props if p not in CLAIMS]
m = {'version': 1, 'setup_cmd': 'python3-vt -m compileall -q sa', 'checks': checks, 'not_applicable': na,
     'notes': 'Static analysis only: sa/ never imports the package or ngsolve. No hooks in /repo.'}
(ROOT / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), len(na))
