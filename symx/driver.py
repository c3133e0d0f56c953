"""Command line: run every case of a property, write evidence, report."""
from __future__ import annotations

import argparse
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import subprocess
import tempfile
import sys
import time
import traceback


def load(pid):
    return importlib.import_module(f'checks.{pid}')


def get_cases(mod, tier):
    cs = mod.cases(tier)
    byname = {c.name: c for c in cs}
    cs += [byname[n].integers(*names) for n, names in getattr(mod, 'INTS', {}).items()]
    names = [c.name for c in cs]
    assert len(set(names)) == len(names), 'duplicate case name'
    return cs


def _work(a):
    pid, name, tier, seed = a
    import signal

    try:
        mod = load(pid)
        case = next(c for c in get_cases(mod, tier) if c.name == name)
        from . import harness

        return harness.run_case(case, tier, seed)
    except BaseException as e:  # noqa: BLE001 - a worker must always answer
        return {
            'case': name,
            'status': 'inconclusive',
            'notes': [f'{type(e).__name__}: {e}', traceback.format_exc(limit=-6)],
        }


def known_findings(here, pid):
    p = os.path.join(here, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith('#'):
                d = json.loads(line)
                if d.get('property') == pid and d.get('status') == 'finding':
                    out.append(d)
    return out


def match_known(kf, case, label):
    for d in kf:
        if d.get('case') == case and d.get('label') in (None, label):
            return d
    return None


def replay(path, here):
    """fresh-process replay on the unpatched code; exit 0 if it reproduces."""
    from . import harness

    d = json.load(open(path))
    mod = load(d['property'])
    case = next(c for c in get_cases(mod, d['tier']) if c.name == d['case'])
    fails = harness.run_concrete(case, d['assign'])
    for label, info in fails:
        print(f'REPRODUCED property={d["property"]} case={d["case"]} check={label} {info}')
    if not fails:
        print('not reproduced')
    return 0 if fails else 3


class Jobs:
    """one forked process per case, at most n at a time, until the deadline"""

    def __init__(self, jobs, n, deadline):
        self.todo = list(jobs)
        self.n = n
        self.deadline = deadline
        self.live = {}

    @staticmethod
    def child(j, w):
        w.send(_work(j))
        w.close()

    def __iter__(self):
        ctx = mp.get_context('fork')
        while self.todo or self.live:
            while self.todo and len(self.live) < self.n:
                j = self.todo.pop(0)
                r, w = ctx.Pipe(False)
                p = ctx.Process(target=self.child, args=(j, w), daemon=True)
                p.start()
                w.close()
                self.live[r] = (p, j)
            left = self.deadline - time.time()
            ready = mp.connection.wait(list(self.live), timeout=max(left, 0)) if left > 0 else []
            if not ready:
                rest = [j for _, j in self.live.values()] + self.todo
                self.stop()
                for j in rest:
                    yield {'case': j[1], 'status': 'inconclusive', 'notes': ['no answer within the time limit']}
                return
            for r in ready:
                p, j = self.live.pop(r)
                try:
                    res = r.recv()
                except EOFError:
                    res = {'case': j[1], 'status': 'inconclusive', 'notes': ['the process ended without an answer (memory?)']}
                r.close()
                p.join()
                yield res

    def stop(self):
        self.todo = []
        for p, _ in self.live.values():
            p.kill()
        for p, _ in self.live.values():
            p.join()
        self.live = {}


class Replayed:
    def __init__(self, returncode, stdout):
        self.returncode, self.stdout, self.stderr = returncode, stdout, ''


def fresh_replay(here, path):
    # output through a file: a pipe would be kept open by the forked workers
    with tempfile.TemporaryFile('w+') as fh:
        try:
            rc = subprocess.run([sys.executable, os.path.join(here, 'run.py'), '--replay', path], stdout=fh, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, cwd=here, timeout=300).returncode
        except subprocess.TimeoutExpired:
            rc = 124
        fh.seek(0)
        return Replayed(rc, fh.read())


def main(argv, here):
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case')
    ap.add_argument('--replay')
    ap.add_argument('--strict', action='store_true', help='exit 2 when any case is undecided')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=8)
    o = ap.parse_args(argv)
    if o.replay:
        return replay(o.replay, here)
    t0 = time.time()
    tier = o.tier if o.tier in ('quick', 'thorough') else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    pid = o.pid
    mod = load(pid)
    import geocat.comp as gc

    if not os.path.realpath(gc.__file__).startswith('/repo/'):
        print(f'ERROR: geocat.comp is not imported from /repo: {gc.__file__}')
        return 2
    cases = get_cases(mod, tier)
    if o.case:
        cases = [c for c in cases if c.name == o.case]
    kf = known_findings(here, pid)
    order = sorted(cases, key=lambda c: -c.opts.get('weight', 1))
    jobs = [(pid, c.name, tier, seed) for c in order]
    total = (780 if tier == 'quick' else 6 * 3600)
    results = []
    viol = None
    findings = []
    n = min(o.j, len(jobs), os.cpu_count() or 1)
    it = Jobs(jobs, n, t0 + total)
    for r in it:
        results.append(r)
        if o.v:
            print(f"  {r['case']}: {r['status']} paths={r.get('paths')} queries={r.get('queries')} unsat={r.get('unsat')} trivial={r.get('trivial')} solver={r.get('solver_s')} wall={r.get('wall_s')} val={r.get('validation', {}).get('vectors')} wit={r.get('witnesses')} {r['notes'] if r.get('notes') else ''}", flush=True)
        if r['status'] == 'violation':
            lab = r['cex']['label']
            k = match_known(kf, r['case'], lab)
            rp = os.path.join(here, 'evidence', 'replay')
            os.makedirs(rp, exist_ok=True)
            path = os.path.join(rp, f"{pid}_{r['case'].replace('/', '_').replace(' ', '_')}.json")
            with open(path, 'w') as fh:
                json.dump({'property': pid, 'tier': tier, 'case': r['case'], **r['cex']}, fh, indent=1, default=float)
            q = fresh_replay(here, path)
            r['replay'] = path
            r['replay_out'] = q.stdout.strip()[-600:]
            if q.returncode != 0:
                r['status'] = 'inconclusive'
                r.setdefault('notes', []).append('counterexample did not reproduce in a fresh process: ' + q.stdout[-300:] + q.stderr[-300:])
                continue
            if k:
                findings.append((k, r))
                r['status'] = 'known-finding'
                continue
            viol = r
            break
    it.stop()
    inc = [r for r in results if r['status'] == 'inconclusive']
    write_evidence(here, pid, tier, seed, mod, results, findings, viol, time.time() - t0, len(jobs))
    for k, r in findings:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    # a listed finding that no longer fails is not an error
    if viol:
        print(f"case {viol['case']} check {viol['cex']['label']}: {viol['replay_out']}")
        print(f"VIOLATION property={pid} replay={viol['replay']}")
        return 1
    for r in inc:
        print(f"INCONCLUSIVE {pid} {r['case']}: {str(r.get('notes'))[:1500]}")
    if inc and (o.strict or len(inc) == len(results)):
        return 2
    tot = sum(r.get('queries', 0) for r in results)
    print(f'{pid} ok: {len(results) - len(inc)} of {len(results)} cases decided, {sum(r.get("paths", 0) for r in results)} paths, {tot} queries, {time.time() - t0:.1f} s')
    return 0


def write_evidence(here, pid, tier, seed, mod, results, findings, viol, wall, njobs):
    ok = [r for r in results if r['status'] in ('ok', 'known-finding', 'violation')]

    def s(k):
        return sum(r.get(k) or 0 for r in results)

    eng = {}
    for r in results:
        for k, v in (r.get('engines') or {}).items():
            eng[k] = eng.get(k, 0) + v
    labels = {}
    for r in results:
        for k, v in (r.get('labels') or {}).items():
            labels[k] = labels.get(k, 0) + v
    samples = []
    for r in results:
        samples += r.get('samples') or []
    samples = samples[:6]
    if viol:
        samples.insert(0, {'case': viol['case'], 'counterexample': viol['cex'], 'replay': viol['replay_out']})
    if not samples:
        samples = [{'case': r['case'], 'paths': r.get('paths'), 'discharged_by_normalisation': r.get('trivial')} for r in results[:3]]
    ev = {
        'property': pid,
        'tier': tier,
        'seed': seed,
        'level': 'model_checking',
        'coverage': {
            'states': s('paths'),
            'transitions': s('decisions'),
            'traces_validated_against_impl': sum((r.get('validation') or {}).get('vectors', 0) for r in results),
            'samples': samples,
            'cases': [
                {k: r.get(k) for k in ('case', 'status', 'paths', 'variables', 'queries', 'unsat', 'trivial', 'solver_s', 'wall_s', 'apps', 'witnesses')}
                for r in results
            ],
            'functions_encoded': list(getattr(mod, 'FUNCS', [])),
            'bounds': getattr(mod, 'BOUNDS', ''),
            'outside': getattr(mod, 'OUTSIDE', ''),
            'queries': {
                'total': s('queries'),
                'path_feasibility': s('feasibility_queries'),
                'obligations_unsat': s('unsat'),
                'obligations_sat': s('sat'),
                'obligations_unknown': s('unknown'),
                'obligations_closed_by_normalisation': s('trivial'),
                'by_engine': eng,
            },
            'solver_seconds': round(s('solver_s'), 3),
            'slowest_query_s': max([r.get('slowest') or 0 for r in results] or [0]),
            'obligations_by_label': labels,
            'values_compared_with_implementation': sum((r.get('validation') or {}).get('values', 0) for r in results),
            'unreproduced_models': s('rejected_models'),
            'known_findings_hit': [k['what'] for k, _ in findings],
            'inconclusive': [{'case': r['case'], 'notes': r.get('notes')} for r in results if r['status'] == 'inconclusive'],
        },
        'assumptions': list(getattr(mod, 'ASSUME', [])) + COMMON,
        'wall_s': round(wall, 2),
        'violations': 1 if viol else 0,
    }
    d = os.path.join(here, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f'{pid}.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)


COMMON = [
    'real arithmetic: float64 rounding, overflow and signed zero are outside the claim; float constants are read as their decimal text; comparisons use the stated tolerance',
    'numpy C kernels, LAPACK/FFT/scipy compiled code are modelled primitives (see DESIGN.md); NaN and infinity share one non-finite flag',
    'exp/log/sin/cos/arccos/arctan/sqrt are uninterpreted functions constrained by sound axioms and lemma instances, refined until the verdict is definite',
]
