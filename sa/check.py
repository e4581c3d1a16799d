"""Frame of a rule: obligations, findings, evidence."""
from __future__ import annotations

import json
import os
import pickle
import time
import warnings
from pathlib import Path

from . import alg as A
from . import fields as F
from .interp import Interp, PyEx, Cut, Unsupported, IObj, IClass, IFunc, Bound, MISSING

ROOT = Path(__file__).resolve().parents[1]
MODULES = ('dream', 'dream.config', 'dream.bla', 'dream.mesh', 'dream.time', 'dream.io', 'dream.solver',
           'dream.compressible')


class Finding:
    def __init__(self, rule, construct, detail, where):
        self.rule, self.construct, self.detail, self.where = rule, construct, detail, where

    @property
    def key(self):
        return f"{self.rule}|{self.construct}"


class Check:
    """One run of the rules of one property."""

    def __init__(self, pid, tier='quick', seed=1, root='/repo'):
        self.pid, self.tier, self.seed, self.root = pid, tier, seed, root
        self.t0 = time.time()
        self.obligations = 0
        self.discharged = 0
        self.partitions = 0
        self.cells = 0
        self.pit = 0
        self.findings: list[Finding] = []
        self.undecided: list[str] = []
        self.rules = {}
        self.samples = []
        self.extra = {}
        self.functions = set()
        self._it = None
        self._eqs = {}
        self.minimum = {}
        self.parts = self.parts_undecided = 0
        self._choices = []          # partition taken at each split of the current group of rules
        self._at = 0
        self._facts = []            # sign facts of the partitions taken
        self._shard, self._unit = (0, 1), 0

    # -------------------------------------------------------------- interpreter

    @property
    def thorough(self):
        return self.tier == 'thorough'

    @property
    def it(self) -> Interp:
        if self._it is None:
            it = Interp(self.root)
            it.models.reset_run(it)
            for m in MODULES:
                it.import_module(m)
            it.snapshot()
            self._it = it
        return self._it

    def api(self, module, name):
        """a public name of the package; a vanished one is an analysis error"""
        m = self.it.modules.get(module) or self.it.import_module(module)
        try:
            return self.it.getattr(m, name)
        except PyEx:
            raise Unsupported(f"public name {module}.{name} has vanished")

    def explore(self, fn, max_paths=4096):
        outs = self.it.explore(fn, max_paths)
        self.partitions += len(outs)
        return outs

    def run1(self, fn):
        """the outcome of `fn`; where it depends on the sign of a parameter the current group of rules is
        repeated for every inhabited partition, with the signs as premises of its equalities"""
        outs = self.explore(fn)
        if len(outs) == 1:
            return outs[0]
        feasible = [(o, f) for o, f in ((o, sign_facts(o)) for o in outs) if self._inhabited(self._facts + f)]
        if not feasible:
            raise Unsupported(f"no inhabited partition among {len(outs)}: {[t[0] for t in outs[0].taken][:6]}")
        if self._at == len(self._choices):
            self._choices.append([0, len(feasible)])
        k, n = self._choices[self._at]
        if n != len(feasible):
            raise Unsupported("partitions differ between two runs")
        self._at += 1
        self._facts = self._facts + feasible[k][1]
        return feasible[k][0]

    def _inhabited(self, facts):
        if not facts:
            return True
        zero = [e for e, r in facts if r == '0']
        for i in range(300):
            pt = A.Point(f"in/{i}")
            try:
                for e in zero:
                    if not _solve(e, pt):
                        return True
                if all((A.evalf(e, pt) > 0) == (r == '+') for e, r in facts if r in '+n'):
                    return True
            except (ZeroDivisionError, A.AlgError, ValueError):
                continue
        return False

    # -------------------------------------------------------------- obligations

    def ob(self, rule, construct, ok, detail='', where=None, sample=None):
        """one obligation; `construct` names it, stable against line shifts"""
        self.obligations += 1
        st = self.rules.setdefault(rule, [0, 0])
        st[0] += 1
        if ok:
            self.discharged += 1
            st[1] += 1
            if sample and len(self.samples) < 12 and sum(1 for s in self.samples if s.get('rule') == rule) < 2:
                self.samples.append({'rule': rule, 'construct': construct, 'fact': str(sample)[:300]})
            return True
        f = Finding(rule, construct, str(detail)[:1200], where or (self._it.path_taken() if self._it else ''))
        if all(g.key != f.key for g in self.findings):
            self.findings.append(f)
        return False

    def _eq(self, a, b, sub, points):
        for e, r in self._facts:
            if r == '+':
                a, b = A.ifpos(e, a, A.num(0)), A.ifpos(e, b, A.num(0))
            elif r == 'n':
                a, b = A.ifpos(e, A.num(0), a), A.ifpos(e, A.num(0), b)
            elif r == '0':
                m = _linear(e)
                if m:
                    a, b = A.subst(a, m), A.subst(b, m)
        key = (a, b, frozenset(sub.items()) if sub else None)
        r = self._eqs.get(key)
        if r is None:
            r = self._eqs[key] = A.prove_equal(a, b, sub, seed=f"{self.seed}", points=points or (48 if self.thorough else 16))
        return r

    def holds(self, a, b, sub=None):
        return self._eq(A_of(a), A_of(b), sub, None).ok

    def equal(self, rule, construct, got, want, sub=None, where=None, points=None, tag=''):
        """got == want in every sign cell of the parameters"""
        if got is None:
            return self.ob(rule, construct, False, "nothing is returned", where)
        got, want = A_of(got), A_of(want)
        try:
            r = self._eq(got, want, sub, points)
        except A.AlgError as ex:
            raise Unsupported(f"algebra: {ex} in {construct}")
        self.cells += r.cells
        self.pit += getattr(r, 'pit', 0)
        d = ''
        if not r.ok:
            d = f"{tag}computed {A.brief(got, 240)} but expected {A.brief(want, 240)}; differ in the cell of {_pt(r.where)}"
        return self.ob(rule, construct, r.ok, d, where, sample=A.brief(got, 160))

    def equal_cf(self, rule, construct, got, want, sub=None, where=None, points=None):
        """entrywise equality of tensor values, shapes included; one obligation"""
        if got is None:
            return self.ob(rule, construct, False, "nothing is returned", where)
        g, w = F.cf_of(self.it, got), F.cf_of(self.it, want)
        if tuple(g.dims) != tuple(w.dims):
            return self.ob(rule, construct, False, f"shape {g.dims} instead of {w.dims}", where)
        for i, (x, y) in enumerate(zip(g.e, w.e)):
            try:
                r = self._eq(x, y, sub, points)
            except A.AlgError as ex:
                raise Unsupported(f"algebra: {ex} in {construct}")
            self.cells += r.cells
            self.pit += getattr(r, 'pit', 0)
            if not r.ok:
                return self.ob(rule, construct, False, f"entry {index(i, g.dims)}: computed {A.brief(x, 240)} but "
                               f"expected {A.brief(y, 240)}; differ in the cell of {_pt(r.where)}", where)
        return self.ob(rule, construct, True, sample=A.brief(g.e[0], 160))

    def need(self, what, n, minimum):
        """instance count versus the confirmed minimum"""
        if self._shard[1] > 1:      # this process sees a share of the instances; the parent adds them up
            self.minimum[what] = (self.minimum.get(what, (0, 0))[0] + n, minimum)
            return
        self.minimum[what] = (n, minimum)
        if n < minimum:
            raise Unsupported(f"only {n} instances of {what}, expected at least {minimum}: anchor vanished")

    def raised(self, what, ex):
        """a use of the package that is legitimate under the property raises: a violation when the exception
        comes from the package's own code, undecided when it comes from the rule's call"""
        if not ex.where or ex.where == '?':
            self.undecided.append(f"{what}: unexpected exception {ex}")
            return
        fun = ex.where.split(' in ')[-1]
        self.ob('raises', f"{what}: {ex.value.cls.name} in {fun}", False, f"unexpected exception {ex}", ex.where)

    def part(self, fn, *a, **k):
        """run one group of rules, in every partition its runs split into; an unmodelled construct leaves
        that group undecided"""
        self.parts += 1
        before = len(self.undecided)
        if getattr(fn, 'sharded', False) and self._shard[1] == 1 and (os.cpu_count() or 1) > 1:
            r = self._fork(min(os.cpu_count(), 8), fn, a, k)
        else:
            r = self._part(fn, a, k)
        if len(self.undecided) > before:
            self.parts_undecided += 1
            del self.undecided[before + 4:]
        return r

    def turn(self):
        """whether the next unit of work of a sharded group is this process's"""
        self._unit += 1
        return self._unit % self._shard[1] == self._shard[0]

    def _fork(self, n, fn, a, k):
        """the group in n processes, each taking every n-th unit; results are merged in order"""
        self.it
        jobs = []
        for i in range(n):
            r, w = os.pipe()
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                pid = os.fork()
            if not pid:
                try:
                    os.close(r)
                    blob = pickle.dumps(self._share(i, n, fn, a, k))
                    with os.fdopen(w, 'wb') as f:
                        f.write(blob)
                except BaseException:
                    import traceback; traceback.print_exc()
                finally:
                    os._exit(0)
            os.close(w)
            jobs.append((pid, r))
        need, seen = {}, {g.key for g in self.findings}
        for i, (pid, r) in enumerate(jobs):
            with os.fdopen(r, 'rb') as f:
                blob = f.read()
            os.waitpid(pid, 0)
            try:
                d = pickle.loads(blob)
            except Exception:
                self.undecided.append(f"{fn.__name__}: process {i} of {n} gave no result")
                continue
            for key in ('obligations', 'discharged', 'partitions', 'cells', 'pit'):
                setattr(self, key, getattr(self, key) + d[key])
            for key, (x, y) in d['rules'].items():
                st = self.rules.setdefault(key, [0, 0])
                st[0] += x
                st[1] += y
            for g in d['findings']:
                if g.key not in seen:
                    seen.add(g.key)
                    self.findings.append(g)
            self.undecided += [u for u in d['undecided'] if u not in self.undecided]
            self.samples += d['samples'][:max(0, 12 - len(self.samples))]
            self._it.visited |= d['visited']
            for what, (x, least) in d['minimum'].items():
                need[what] = (need.get(what, (0, 0))[0] + x, least)
        for what, (x, least) in need.items():
            self.minimum[what] = (x, least)
            if x < least:
                self.undecided.append(f"{fn.__name__}: only {x} instances of {what}, expected at least {least}: anchor vanished")

    def _share(self, i, n, fn, a, k):
        self._shard = (i, n)
        self.obligations = self.discharged = self.partitions = self.cells = self.pit = 0
        self.rules, self.findings, self.undecided, self.samples, self.minimum = {}, [], [], [], {}
        self._part(fn, a, k)
        return {'obligations': self.obligations, 'discharged': self.discharged, 'partitions': self.partitions,
                'cells': self.cells, 'pit': self.pit, 'rules': self.rules, 'findings': self.findings,
                'undecided': self.undecided[:4], 'samples': self.samples, 'visited': self._it.visited,
                'minimum': self.minimum}

    def _part(self, fn, a, k):
        self._choices = []
        r = None
        for _ in range(128):
            self._at, self._facts, self._unit = 0, [], 0
            if self._shard[1] > 1:
                self.minimum = {}
            try:
                r = fn(self, *a, **k)
            except (Unsupported, Cut) as ex:
                self.undecided.append(f"{fn.__name__}: {ex}")
            except PyEx as ex:
                self.raised(fn.__name__, ex)
            except A.AlgError as ex:
                self.undecided.append(f"{fn.__name__}: algebra {ex}")
            except RecursionError:
                self.undecided.append(f"{fn.__name__}: recursion limit")
            del self._choices[self._at:]
            while self._choices and self._choices[-1][0] + 1 == self._choices[-1][1]:
                self._choices.pop()
            if not self._choices:
                break
            self._choices[-1][0] += 1
        else:
            self.undecided.append(f"{fn.__name__}: more than 128 partitions")
        self._choices, self._facts = [], []
        return r

    # -------------------------------------------------------------- results

    def known(self):
        p = ROOT / 'known-findings.json'
        if not p.exists():
            return {}
        return {e['key']: e for e in json.loads(p.read_text())['findings']
                if e['property'] == self.pid and e.get('status') == 'open'}

    def finish(self):
        known = self.known()
        new = [f for f in self.findings if f.key not in known]
        old = [f for f in self.findings if f.key in known]
        it = self._it
        funcs = sorted(f"{m}:{q}" for m, q in (it.visited if it else ()) if not m.startswith('stub:'))
        files = sorted({str(it.relfile(m)) for m, _ in it.visited if not m.startswith('stub:')}) if it else []
        cov = {
            'explanation': 'abstract interpretation of the syntax tree of the current /repo/dream; every obligation '
                           'is a fact about the abstract values or event traces of all partitions reached',
            'obligations': self.obligations, 'discharged': self.discharged,
            'rules': {k: {'instances': v[0], 'held': v[1]} for k, v in self.rules.items()},
            'partitions': self.partitions, 'sign_cells': self.cells, 'cells_by_identity_testing': self.pit,
            'functions_interpreted': len(funcs), 'functions': funcs[:400], 'files': files,
            'instance_counts': {k: {'found': a, 'minimum': b} for k, (a, b) in self.minimum.items()},
            'samples': self.samples,
            'known_findings': [f.key for f in old],
        }
        if self.undecided:
            cov['undecided'] = self.undecided
        cov.update(self.extra)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other', 'coverage': cov,
              'assumptions': ['the calibrated models of ngsolve, numpy, pathlib, logging and csv in sa/ agree with the '
                              'installed libraries on the operations this code uses',
                              'real arithmetic: floating point rounding is not considered',
                              'no monkey patching of the package from outside'],
              'wall_s': round(time.time() - self.t0, 3), 'violations': len(new)}
        out = Path(os.environ.get('SA_EVIDENCE') or ROOT / 'evidence')
        out.mkdir(exist_ok=True)
        (out / f'{self.pid}.json').write_text(json.dumps(ev, indent=1, default=str))
        for f in old:
            print(f"KNOWN-FINDING: property={self.pid} {f.key}: {known[f.key].get('what', f.detail)}"[:600])
        for f in new[:15]:
            print(f"{self.pid} {f.rule}: {f.construct}\n    at {f.where or '?'}\n    {f.detail}")
        for u in self.undecided:
            print(f"UNDECIDED {self.pid} {u}")
        print(f"{self.pid}: {self.discharged}/{self.obligations} obligations hold, {self.partitions} partitions, "
              f"{self.cells} cells, {len(funcs)} functions, {ev['wall_s']} s")
        if new:
            rep = out / f'{self.pid}.violation.json'
            rep.write_text(json.dumps([{'rule': f.rule, 'construct': f.construct, 'where': f.where,
                                        'detail': f.detail} for f in new], indent=1))
            print(f"VIOLATION property={self.pid} replay={rep}")
            return 1
        if self.undecided and (not self.discharged or 2 * self.parts_undecided > self.parts):
            return 2
        return 0


def sharded(fn):
    """a group of rules made of independent units, each guarded by c.turn(), that may run in several processes"""
    fn.sharded = True
    return fn


def sign_facts(out):
    """[(expression, '+' | 'n' | '0' | '!')] of the sign decisions of a partition"""
    facts = []
    for k, options, c in out.taken:
        if isinstance(k, tuple) and k in F.SIGNS:
            v = options[c]
            facts.append((F.SIGNS[k], ('+' if v else 'n') if k[0] == 'pos' else ('0' if v else '!')))
    return facts


def _linear(e):
    """{symbol: solution} of e == 0 for a symbol in which e is linear"""
    for s in sorted(A.syms(e)):
        x = A.sym(s)
        d = A.diff(e, x)
        if s not in A.syms(d) and not A.isnum(d, 0):
            return {x: A.neg(A.div(A.subst(e, {x: A.num(0)}), d))}
    return None


def _solve(e, pt):
    m = _linear(e)
    if not m:
        return False
    (x, v), = m.items()
    pt[x.args[0]] = A.evalf(v, pt)
    return True


def A_of(v):
    if isinstance(v, A.E):
        return v
    if isinstance(v, F.Cf) and len(v.e) == 1:
        return v.e[0]
    e = F.to_e(v)
    if e is None:
        raise Unsupported(f"not a scalar: {v!r}")
    return e


def _pt(w):
    if not w:
        return 'all values'
    return ", ".join(f"{k}={v}" for k, v in list(w.items())[:8])


def index(i, dims):
    if len(dims) == 2:
        return f"[{i // dims[1]},{i % dims[1]}]"
    return f"[{i}]" if dims else ''
