#!/opt/venv/bin/python
"""run_check.py <property> [--tier quick|thorough] [--case NAME] [--replay FILE] [-v]

Decides one property by symbolic execution of the current /repo sources.
exit 0 held, 1 violated (VIOLATION line), 2 inconclusive / engine error."""
import argparse
import importlib.util
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
import warnings

warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('MPLCONFIGDIR', '/tmp/symx-mpl')
for v in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS', 'NUMBA_NUM_THREADS'):
    os.environ.setdefault(v, '1')
sys.setrecursionlimit(20000)

import symx                                        # noqa
from symx import harness as H, load                # noqa


def get_check(pid):
    path = os.path.join(HERE, 'checks', pid + '.py')
    spec = importlib.util.spec_from_file_location('check_' + pid, path)
    m = importlib.util.module_from_spec(spec)
    sys.path.insert(0, os.path.join(HERE, 'checks'))
    spec.loader.exec_module(m)
    return m


def _work(job):
    pid, tier, i, deadline = job
    m = get_check(pid)
    case = m.cases(tier)[i]
    opts = dict(getattr(m, 'OPTS', {}), **case.get('opts', {}))
    opts['seed'] = int(os.environ.get('VERIF_SEED', '1') or 1)
    opts['deadline'] = deadline
    try:
        r = H.explore(case['fn'], case.get('kwargs', {}), opts)
    except BaseException as e:                      # engine failure: reported, never success
        r = dict(errors=['%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-2500:])], cex=[])
    r['case'] = case['name']
    return r


def known_findings(pid):
    out = []
    path = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith('#'):
                d = json.loads(line)
                if d.get('property') == pid and not d.get('fixed'):
                    out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--case')
    ap.add_argument('--replay')
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    if a.selftest:
        import z3
        import numpy
        load.Loader().load('model')
        print('z3', z3.get_version_string(), 'numpy', numpy.__version__, 'repo', load.REPO)
        return 0
    pid = a.property
    m = get_check(pid)
    if a.replay:
        d = json.load(open(a.replay))
        case = [c for c in m.cases(d.get('tier', 'quick')) if c['name'] == d['case']][0]
        ok, info = H.replay_once(case['fn'], case.get('kwargs', {}), d['inputs'])
        print(info)
        if ok:
            print('VIOLATION property=%s replay=%s' % (pid, a.replay))
            return 1
        return 0
    cases = m.cases(a.tier)
    idx = [i for i, c in enumerate(cases) if a.case is None or c['name'] == a.case]
    idx.sort(key=lambda i: -cases[i].get('cost', 1))
    results = []
    # quick runs answer within the limit of the caller, whatever the code became
    deadline = t0 + (660 if a.tier == 'quick' else 6 * 3600)
    stop = mp.get_context('fork').Value('d', deadline)
    H.STOP = stop
    try:
        for mod in ('model', 'avalanching', 'vegetation', 'fences'):
            H.real_module(mod)          # inherited by the workers
        load.Loader().scipy()
    except Exception:
        pass
    if len(idx) == 1 or a.j == 1:
        for i in idx:
            results.append(_work((pid, a.tier, i, deadline)))
    else:
        with mp.get_context('fork').Pool(min(a.j, len(idx)), maxtasksperchild=4) as pool:
            it = pool.imap_unordered(_work, [(pid, a.tier, i, deadline) for i in idx], chunksize=1)
            while len(results) < len(idx):
                try:
                    r = it.next(timeout=2)
                except mp.TimeoutError:
                    if time.time() > stop.value + 30:
                        break               # late: the remaining cases stay undecided
                    continue
                results.append(r)
                if r.get('cex') and stop.value > time.time() + 40:
                    stop.value = time.time() + 40       # a violation is settled: no need for the rest
                if a.v:
                    print(r['case'], {k: v for k, v in r.items() if k in ('paths', 'aborted', 'obligations', 'unsat', 'trivial', 'margin', 'refined', 'queries', 'solver_s', 'wall_s', 'validated', 'max_query_s')}, flush=True)
            pool.terminate()
        seen = set(r['case'] for r in results)
        for i in idx:
            if cases[i]['name'] not in seen:
                results.append(dict(case=cases[i]['name'], cex=[], errors=['not finished in time']))
    wall = time.time() - t0
    viol, errs, und = [], [], []
    for r in results:
        for c in r.get('cex', []):
            viol.append((r['case'], c))
        for e in r.get('errors', []):
            errs.append((r['case'], e))
        for e in r.get('undecided', []):
            und.append((r['case'], e))
    known = known_findings(pid)
    new = []
    for case, c in viol:
        new.append((case, c))
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    lines = []
    for n, (case, c) in enumerate(new):
        p = os.path.join(rdir, '%s-%d.json' % (pid, n))
        json.dump({'property': pid, 'tier': a.tier, 'case': case, 'check': c['name'], 'detail': c.get('detail'),
                   'inputs': c['inputs']}, open(p, 'w'), indent=1)
        lines.append((p, case, c))
    kf = []
    if hasattr(m, 'known'):
        kf = m.known(known)          # replays each recorded finding on the real code
    S = lambda k: sum(r.get(k, 0) or 0 for r in results)
    funcs = sorted(set(f for r in results for f in r.get('functions', [])))
    meta = getattr(m, 'META', {})
    cov = dict(
        states=S('paths'), transitions=S('branches'), traces_validated_against_impl=S('validated'),
        samples=[dict(case=r['case'], inputs=s) for r in results for s in r.get('samples', [])][:4] or ['none'],
        obligations_checked=S('obligations'), discharged_unsat=S('unsat'), discharged_by_construction=S('trivial'),
        discharged_within_margin=S('margin'), discharged_after_refinement=S('refined'),
        reachability_witnesses=S('witness'), infeasible_paths=S('aborted'),
        solver_queries=S('queries'), solver_seconds=round(S('solver_s'), 2),
        functions_encoded=funcs, cases=[{k: r.get(k) for k in ('case', 'paths', 'obligations', 'queries', 'solver_s', 'wall_s', 'inputs')} for r in results],
        states_means='symbolic paths of the real code explored to the end', transitions_means='symbolic branch decisions taken',
        bounds=meta.get('bounds', ''), outside=meta.get('outside', ''), stubs=meta.get('stubs', []),
        undecided=['%s: %s' % (e[0], e[1][:300]) for e in und], errors=['%s: %s' % (e[0], e[1][:300]) for e in errs])
    ev = dict(property=pid, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick',
              seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=meta.get('level', 'model_checking'), coverage=cov,
              assumptions=meta.get('assumptions', []) + ['real arithmetic stands for IEEE doubles; rounding is outside the claim'],
              wall_s=round(wall, 2), violations=len(new))
    if a.case is None:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s %s: %d cases, %d paths, %d obligations (%d unsat, %d trivial, %d margin, %d refined), %d queries, %.1fs solver, %d validated traces, %.1fs wall'
          % (pid, a.tier, len(results), S('paths'), S('obligations'), S('unsat'), S('trivial'), S('margin'), S('refined'), S('queries'), S('solver_s'), S('validated'), wall))
    for k in kf:
        print(k)
    for p, case, c in lines:
        print('case %s check %s: %s' % (case, c['name'], c.get('detail')))
        print('VIOLATION property=%s replay=%s' % (pid, p))
    for case, e in errs:
        print('INCONCLUSIVE case %s: %s' % (case, e))
    for case, e in und:
        print('UNDECIDED case %s: %s' % (case, e[:600]))
    if lines:
        return 1
    if errs or len(und) > .1 * S('obligations'):
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
