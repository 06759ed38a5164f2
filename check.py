#!/usr/bin/env python3
"""Decide one property of hypothesis_geometry by static analysis.

usage: check.py PROPERTY [--tier quick|thorough] [--root /repo]

Exit 0: no violation found; exit 1: `VIOLATION property=... replay=...`;
exit 2: the analysis itself failed (nothing is reported about the code).
"""
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)

import argparse
import json
import select
import signal
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from sa import props  # noqa: E402

KNOWN = os.path.join(HERE, 'known_findings.txt')


# ---------------------------------------------------------------- workers
def run_tasks(tasks, jobs, deadline):
    """Run (label, cost, function) tasks in forked workers."""
    order = sorted(range(len(tasks)), key=lambda i: (-tasks[i][1], i))
    running = {}
    results = [None] * len(tasks)
    while order or running:
        while order and len(running) < jobs:
            i = order.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 0
                try:
                    os.setpgid(0, 0)
                    payload = {'ok': tasks[i][2]()}
                except BaseException as e:
                    payload = {
                        'error': type(e).__name__,
                        'text': str(e),
                        'trace': traceback.format_exc(limit=-8),
                    }
                with os.fdopen(w, 'w') as f:
                    json.dump(payload, f)
                os._exit(code)
            os.close(w)
            running[r] = [i, pid, [], time.time()]
        left = deadline - time.time()
        if left <= 0:
            for fd, (i, pid, _, _) in running.items():
                try:
                    os.kill(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                os.waitpid(pid, 0)
                os.close(fd)
                results[i] = {'error': 'Timeout', 'text': 'out of time'}
            for i in order:
                results[i] = {'error': 'Timeout', 'text': 'not started'}
            break
        ready, _, _ = select.select(list(running), [], [], min(left, 5))
        for fd in ready:
            chunk = os.read(fd, 1 << 16)
            job = running[fd]
            if chunk:
                job[2].append(chunk)
                continue
            os.close(fd)
            del running[fd]
            os.waitpid(job[1], 0)
            data = b''.join(job[2])
            if data:
                results[job[0]] = json.loads(data)
                results[job[0]]['s'] = round(time.time() - job[3], 1)
            else:
                results[job[0]] = {'error': 'Died', 'text': 'no result'}
    return results


def load_known(prop):
    out = []
    try:
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line.startswith('finding: property=%s ' % prop):
                    out.append(line.split(' ', 2)[2])
    except FileNotFoundError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--root', default='/repo')
    ap.add_argument('--verbose', action='store_true')
    ap.add_argument('--out', default=os.path.join(HERE, 'evidence'))
    a = ap.parse_args()
    t0 = time.time()
    prop = props.PROPS[a.property]
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    limit = 840 if tier == 'thorough' else 420
    tasks = prop.tasks(a.root, tier)
    if not tasks:
        print('error: nothing to analyse')
        return 2
    results = run_tasks(tasks, os.cpu_count() or 4, t0 + limit)
    proved, undecided, violations, errors = [], [], [], []
    for (label, _, _), r in zip(tasks, results):
        if a.verbose:
            print('%-60s %s s' % (label, r.get('s')), r.get('error', ''))
        if 'error' in r:
            if r['error'] not in ('LookupError', 'SyntaxError'):
                undecided.append({
                    'obligation': label, 'where': '',
                    'detail': '%s: %s' % (r['error'], r['text'])})
            else:
                errors.append((label, r))
            continue
        for x in r['ok']:
            (proved if x['ok'] else undecided if x['ok'] is None
             else violations).append(x)
    known = load_known(a.property)
    live = []
    for v in violations:
        key = '%s | %s' % (v['obligation'], v['where'])
        hit = [k for k in known if k.split(' ## ')[0] in key]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (a.property, hit[0]))
        else:
            live.append(v)
    os.makedirs(a.out, exist_ok=True)
    per = {}
    for x in proved:
        per[x['obligation']] = per.get(x['obligation'], 0) + 1
    und = {}
    for x in undecided:
        k = (x['obligation'], x['where'], x['detail'])
        und[k] = und.get(k, 0) + 1
    total = len(proved) + len(undecided) + len(violations)
    evidence = {
        'property': a.property,
        'tier': tier,
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': prop.level,
        'coverage': {
            'explanation': prop.explain,
            'rule': prop.rule,
            'analysis_tasks': len(tasks),
            'tasks': [
                {'task': t[0], 'seconds': r.get('s')}
                for t, r in zip(tasks, results)
            ],
            'obligations': total,
            'discharged': len(proved),
            'undecided': len(undecided),
            'distinct_obligations': len(per) + len(und),
            'proved_obligations': dict(sorted(per.items())[:400]),
            'undecided_obligations': [
                {'obligation': k[0], 'where': k[1], 'why': k[2], 'n': n}
                for k, n in sorted(und.items())[:100]
            ],
            'samples': proved[:5],
            'checker_cmd': 'python3 check.py %s --tier %s' % (
                a.property, tier),
            'trusted_base': props.TRUSTED,
        },
        'assumptions': props.TRUSTED,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(live),
    }
    with open(os.path.join(a.out, a.property + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
        f.write('\n')
    if errors and not live:
        for label, r in errors[:5]:
            print('error in %s: %s: %s' % (label, r['error'], r['text']))
            print(r.get('trace', ''))
        return 2
    if live:
        rp = os.path.join(a.out, a.property + '.violation.json')
        with open(rp, 'w') as f:
            json.dump(live, f, indent=1)
            f.write('\n')
        seen = set()
        for v in live:
            k = (v['obligation'], v['where'])
            if k in seen:
                continue
            seen.add(k)
            if len(seen) <= 12:
                print('%s: %s -- %s' % (
                    v['where'], v['obligation'], v['detail']))
        print('VIOLATION property=%s replay=%s' % (a.property, rp))
        return 1
    print('%s: %d obligations, %d discharged, %d undecided in %.1f s' % (
        a.property, total, len(proved), len(undecided), time.time() - t0))
    if not total:
        print('error: no obligation was generated')
        return 2
    if not proved:
        print('UNDECIDED: the analysis could follow none of the obligations '
              'to a verdict; see the evidence')
    return 0


if __name__ == '__main__':
    sys.exit(main())
