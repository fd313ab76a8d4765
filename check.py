#!/usr/bin/env python3
"""Decide one property:  check.py ID [--replay FILE] [--workers N]

VERIF_SEED and VERIF_TIER (quick, thorough) select the generated cases. Exit 0: the property held on
everything explored; 1 with a VIOLATION line: it does not hold; 2: the check itself failed.
"""

import argparse
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from pbt import budgets, core, env  # noqa: E402


def known_findings(pid):
    res = []
    fn = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(fn):
        with open(fn) as f:
            for line in f:
                if line.strip():
                    d = json.loads(line)
                    if d.get('property') == pid and d.get('status') == 'known':
                        res.append(d)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--replay')
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--examples', type=int)
    ap.add_argument('--time', type=float)
    ap.add_argument('--shrink', type=float)
    args = ap.parse_args()
    pid = args.property.upper()
    tier = os.environ.get('VERIF_TIER') or 'quick'
    seed = int(os.environ.get('VERIF_SEED') or '1')
    t0 = time.monotonic()
    b = budgets.get(pid, tier)
    workers = 1 if args.replay else args.workers
    corpus = sorted(glob.glob(os.path.join(HERE, 'corpus', pid, '*.json')))

    base = tempfile.mkdtemp(prefix=f'pbt-{pid}-')
    os.makedirs(os.path.join(base, 't'))
    procs = []
    results = []
    try:
        for w in range(workers):
            scratch = os.path.join(base, f'w{w}')
            os.makedirs(scratch)
            cfg = {
                'property': pid, 'tier': tier, 'seed': seed, 'worker': w, 'workers': workers,
                'examples': args.examples or b['examples'],
                'time_s': args.time or b['time_s'], 'shrink_s': b['shrink_s'] if args.shrink is None else args.shrink,
                'scratch': scratch, 'corpus': corpus[w::workers],
                'replay': os.path.abspath(args.replay) if args.replay else None,
            }  # fmt: skip
            cfg_fn = os.path.join(base, f'w{w}.cfg')
            out_fn = os.path.join(base, f'w{w}.out')
            with open(cfg_fn, 'w') as f:
                json.dump(cfg, f)
            log = open(os.path.join(base, f'w{w}.log'), 'wb')
            p = subprocess.Popen(
                [env.PYTHON, os.path.join(HERE, 'pbt', 'worker.py'), pid, cfg_fn, out_fn],
                cwd=HERE, env=env.child_env('0', os.path.join(base, 't')), stdin=subprocess.DEVNULL,
                stdout=log, stderr=subprocess.STDOUT,
            )  # fmt: skip
            procs.append((p, out_fn, log))
        limit = t0 + (args.time or b['time_s']) + b['shrink_s'] * 3 + 120
        for w, (p, out_fn, log) in enumerate(procs):
            try:
                p.wait(max(1, limit - time.monotonic()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            log.close()
            try:
                with open(out_fn) as f:
                    results.append(json.load(f))
            except (OSError, ValueError):
                with open(os.path.join(base, f'w{w}.log'), errors='replace') as f:
                    results.append({'ok': False, 'error': f'worker {w} ended with {p.returncode}\n' + f.read()[-3000:]})
    finally:
        for p, _, _ in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(base, ignore_errors=True)

    done = [r for r in results if r.get('ok')]
    failures = [r['failure'] for r in done if r.get('failure')]
    errors = [r.get('error', '?') for r in results if not r.get('ok')]
    events = {}
    nontrivial = set()
    samples = []
    for r in done:
        for k, v in r['events'].items():
            events[k] = events.get(k, 0) + v
        nontrivial.update(r['nontrivial'])
        samples.extend(r['samples'])
    rule = done[0]['rule'] if done else ''
    samples.sort(key=lambda c: len(core.dumps(c)))
    short = []
    for c in samples[:1] + samples[len(samples) // 2 : len(samples) // 2 + 1] + samples[-1:]:
        text = core.dumps(c)
        short.append(c if len(text) < 6000 else {'truncated': text[:6000]})

    violations = []
    replay = None
    if failures:
        failures.sort(key=lambda f: f['size'])
        best = failures[0]
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        replay = os.path.join(HERE, 'replays', f'{pid}-{core.digest(best["case"])}.json')
        with open(replay, 'w') as f:
            json.dump({'property': pid, 'seed': seed, 'tier': tier, 'origin': best['origin'],
                       'message': best['message'], 'case': best['case']}, f, indent=1)  # fmt: skip
        violations.append({'replay': replay, 'message': best['message'][:2000], 'origin': best['origin']})

    if not args.replay:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        evidence = {
            'property': pid,
            'tier': tier,
            'seed': seed,
            'level': 'exploration',
            'coverage': {
                'evaluations': sum(r['evaluations'] for r in done),
                'distinct_nontrivial': len(nontrivial),
                'rule': rule,
                'samples': short,
                'classes': dict(sorted(events.items())),
                'workers': workers,
                'workers_stopped_by_time_budget': sum(1 for r in done if r['timed_out']),
            },
            'wall_s': round(time.monotonic() - t0, 2),
            'assumptions': budgets.ASSUMPTIONS,
            'violations': violations,
        }
        tmp = os.path.join(HERE, 'evidence', f'.{pid}.tmp')
        with open(tmp, 'w') as f:
            json.dump(evidence, f, indent=1)
        os.replace(tmp, os.path.join(HERE, 'evidence', f'{pid}.json'))

    for k in known_findings(pid):
        print(f'KNOWN-FINDING: property={pid} {k["what"]}')
    if replay:
        print(failures[0]['message'][:4000])
        print(f'VIOLATION property={pid} replay={replay}')
        return 1
    if errors:
        print('\n'.join(errors)[-6000:])
        print(f'ERROR: {len(errors)} of {workers} workers of the {pid} check failed')
        return 2
    print(
        f'{pid} held: {sum(r["evaluations"] for r in done)} cases, {len(nontrivial)} distinct non-trivial, '
        f'{time.monotonic() - t0:.1f} s'
    )
    return 0


if __name__ == '__main__':
    sys.exit(main())
