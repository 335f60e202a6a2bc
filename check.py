#!/usr/bin/env python3
"""check.py <property id> [quick|thorough] [--budget S] [--jobs N] [--verbose]

Decides one property of the code in /repo's working tree (or in $VP_REPO): executes it symbolically over every task of
the property, lets the solver decide each assertion, and replays a counterexample natively in a clean process before it
is reported.  Exit 0: held on everything explored.  Exit 1: violated.  Exit 2: the check itself failed."""
import os
import sys

PY = '/opt/venv/bin/python'
if os.environ.get('PYTHONHASHSEED') != '0' or os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv'):
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    if not os.path.exists(PY):
        PY = sys.executable
    if not os.environ.get('VERIF_REEXEC'):
        os.environ['VERIF_REEXEC'] = '1'
        os.execv(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:])

import argparse
import json
import subprocess
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(VERIF, 'lib'))

BUDGET = {'quick': 240, 'thorough': 720}


def known_findings(pid):
    """Open findings: lines 'open: property=<id> <text of the failing task and failure> | <what fails>'."""
    out = []
    try:
        with open(os.path.join(VERIF, 'known_findings.txt')) as f:
            for line in f:
                if line.startswith('open: property=' + pid + ' '):
                    key, _, what = line[len('open: property=' + pid + ' '):].strip().partition(' | ')
                    out.append((key, what))
    except IOError:
        pass
    return out


def replay_cmd(path):
    return [sys.executable, os.path.join(VERIF, 'replay.py'), path]


def confirm(path):
    """The counterexample fails on the real code in a process of its own."""
    env = dict(os.environ)
    try:
        r = subprocess.run(replay_cmd(path), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    except subprocess.TimeoutExpired:
        return False, 'replay did not end'
    return r.returncode == 1, r.stdout.decode(errors='replace')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--budget', type=float)
    ap.add_argument('--jobs', type=int)
    ap.add_argument('--verbose', action='store_true')
    ap.add_argument('--evidence', default=os.path.join(VERIF, 'evidence'))
    a = ap.parse_args()
    t0 = time.time()
    tier = a.tier if a.tier in BUDGET else 'quick'
    import props
    import runner
    p = props.by_id[a.pid]
    tasks = p.tasks(tier)
    os.makedirs(a.evidence, exist_ok=True)
    replays = os.path.join(VERIF, 'replays')
    try:
        runner.load_code()
        for m in runner.HARNESS_MODULES:
            __import__(m)
    except Exception as e:
        print('ERROR: the code under test cannot be imported: %s: %s' % (type(e).__name__, e))
        return 2
    known = known_findings(a.pid)

    def is_known(c):
        text = ' '.join(map(str, c.get('native', []) + c['labels']))
        for key, what in known:
            if key in runner.label(c['task']) + ' ' + text:
                return what
        return None

    confirmed, doubtful, printed = [], [], set()

    def stop(r):
        for c in list(r.get('confirmed', ())) + [dict(m, labels=['native run'], detail='', native=m['fails'])
                                           for m in r.get('mismatch', ()) if m.get('fails')]:
            c = dict(c, task=r['task'])
            what = is_known(c)
            if what is not None:
                if what not in printed:
                    printed.add(what)
                    print('KNOWN-FINDING: property=%s %s' % (a.pid, what))
                continue
            os.makedirs(replays, exist_ok=True)
            path = os.path.join(replays, '%s-%s.json' % (a.pid, tier))
            with open(path, 'w') as f:
                json.dump({'property': a.pid, 'harness': r['task']['h'], 'params': repr(r['task']['p']),
                           'inputs': repr(c['inputs']), 'labels': c['labels'], 'native': c.get('native', []),
                           'task': runner.label(r['task']), 'detail': c.get('detail', '')}, f, indent=1)
                f.write('\n')
            ok, text = confirm(path)
            if ok:
                confirmed.append((path, c, text))
                return True
            doubtful.append((c, text))
            os.remove(path)
        return False

    results = runner.run_tasks(tasks, a.budget or BUDGET[tier], jobs=a.jobs, stop=stop, verbose=a.verbose)

    # -------------------------------------------------------------------------------------------- evidence
    done = [(t, r) for t, r in zip(tasks, results) if r and 'stats' in r]
    errors = [(t, r) for t, r in zip(tasks, results) if r and 'error' in r]
    skipped = [t for t, r in zip(tasks, results) if r is None or r.get('skipped')]
    tot = {}
    for t, r in done:
        for k, v in r['stats'].items():
            if isinstance(v, (int, float)):
                tot[k] = tot.get(k, 0) + v
    covered = set(l for t, r in done for l in r['covered'])
    complete = [t for t, r in done if r['complete']]
    partial = [(t, r) for t, r in done if not r['complete'] and not r['confirmed']]
    functions = sorted(set(f for t, r in done for f in r['functions']))
    exhaustive = len(complete) == len(tasks)
    mism = [(t, m) for t, r in done for m in r['mismatch'] if not m.get('fails')]
    samples = []
    for t, r in done[:: max(1, len(done) // 6)][:6]:
        samples.append({'task': runner.label(t), 'paths': r['stats']['paths'], 'queries': r['stats']['queries'],
                        'solver_s': round(r['stats']['solver_s'], 2), 'complete': r['complete'],
                        'validated natively': r['validated']})
    cov = {
        'states': tot.get('paths', 0), 'transitions': tot.get('decisions', 0),
        'traces_validated_against_impl': sum(r['validated'] for t, r in done),
        'exhaustive': exhaustive,
        'tasks': len(tasks), 'tasks_decided_for_all_values': len(complete), 'tasks_cut_short': len(partial),
        'tasks_not_started': len(skipped), 'tasks_failed': len(errors),
        'queries_discharged': tot.get('queries', 0), 'solver_s': round(tot.get('solver_s', 0), 2),
        'paths_excluded_by_assumptions': tot.get('aborted', 0),
        'functions_encoded': functions,
        'bounds': p.bounds,
        'nonvacuity_witnesses': sorted(covered),
        'encoding_mismatches': len(mism),
        'samples': samples,
        'meaning': 'states are feasible paths of harness and code under test, each standing for all values that take '
                   'it; transitions are the decisions on them; a validated trace is a model of a path run on the '
                   'real code with ordinary numbers, giving the same observations',
    }
    if partial or skipped or errors:
        cov['not_decided'] = [runner.label(t) for t, r in partial][:20] + \
            [runner.label(t) + ' (not started)' for t in skipped][:10] + \
            [runner.label(t) + ' (%s)' % r['error'][:200] for t, r in errors][:10]
    ev = {'property': a.pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED') or 0), 'level': 'model_checking',
          'coverage': cov, 'assumptions': p.assume, 'wall_s': round(time.time() - t0, 2),
          'violations': len(confirmed)}
    with open(os.path.join(a.evidence, a.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')

    # -------------------------------------------------------------------------------------------- verdict
    print('%s %s: %d/%d tasks decided, %d paths, %d queries, %.1f s solver, %d traces validated, %.1f s' % (
        a.pid, tier, len(complete), len(tasks), cov['states'], cov['queries_discharged'], cov['solver_s'],
        cov['traces_validated_against_impl'], time.time() - t0))
    if confirmed:
        path, c, text = confirmed[0]
        print('  task: %s' % runner.label(c['task']))
        print('  inputs: %r' % (c['inputs'],))
        for l in (c.get('native') or c['labels'])[:5]:
            print('  failed: %s' % l)
        print('VIOLATION property=%s replay=%s' % (a.pid, path))
        return 1
    for t, m in mism[:3]:
        print('  INCOMPLETE encoding and code disagree on %s: %s' % (runner.label(t), str(m)[:600]))
    for c, text in doubtful[:3]:
        print('  INCOMPLETE counterexample not reproduced on %s: %r' % (runner.label(c['task']), c['labels'][:2]))
    for t, r in partial[:5]:
        print('  INCOMPLETE %s: %s' % (runner.label(t), runner.brief(r)[:600]))
    for t, r in errors[:5]:
        print('  INCOMPLETE %s: %s' % (runner.label(t), r['error'][:300]))
        if a.verbose:
            print(r.get('trace'))
    if skipped:
        print('  INCOMPLETE %d tasks not started' % len(skipped))
    if not complete:
        print('ERROR: nothing was decided')
        return 2
    missing = [l for l in p.cover if l not in covered]
    if missing and exhaustive:
        print('ERROR: vacuous: not reached: %s' % ', '.join(missing))
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
