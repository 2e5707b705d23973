#!/opt/venv/bin/python
"""check.py ID [--tier quick|thorough] [--replay FILE] [--seed N]: decides one property on the tree in /repo."""
import argparse
import collections
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True
from vh import build as vbuild  # noqa: E402


def spawn(job, out, env):
    jf = out + '.job'
    with open(jf, 'w', encoding='utf-8') as f:
        json.dump(job, f)
    os.makedirs(job['scratch'], exist_ok=True)
    log = open(out + '.log', 'wb')
    return subprocess.Popen([sys.executable, '-m', 'vh.worker', jf, out], cwd=HERE, env=env, stdout=log, stderr=log,
                            stdin=subprocess.DEVNULL, start_new_session=True)


def collect(proc, out, deadline):
    try:
        proc.wait(timeout=max(1, deadline - time.monotonic()))
    except subprocess.TimeoutExpired:
        os.killpg(proc.pid, 9)
        proc.wait()
        return dict(status='timeout')
    if os.path.exists(out):
        return json.load(open(out, encoding='utf-8'))
    journal = None
    try:
        journal = json.load(open(out + '.journal', encoding='utf-8'))
    except (OSError, ValueError):
        pass
    log = open(out + '.log', errors='replace').read()[-3000:]
    if os.path.exists(out + '.hang'):
        return dict(status='hang', case=journal, message=open(out + '.hang').read())
    return dict(status='crash', code=proc.returncode, case=journal, message=log)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--examples', type=int)
    ap.add_argument('--workers', type=int)
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--fast', action='store_true', help='development: stop at the first failure, do not shrink or confirm it, write nothing')
    args = ap.parse_args()
    t0 = time.monotonic()
    pid = args.pid
    check = importlib.import_module('checks.' + pid.lower()).CHECK
    scratch = tempfile.mkdtemp(prefix='verif-{}-'.format(pid))
    code = 2
    try:
        code = decide(args, pid, check, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


def decide(args, pid, check, scratch, t0):
    try:
        sut = str(vbuild.build(os.path.join(scratch, 'sut')))
    except Exception as e:
        print('ERROR property={} the tree does not build: {}'.format(pid, e))
        return 2
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', LC_ALL='C.UTF-8', PYTHONUTF8='1',
               PYTHONWARNINGS='ignore', TMPDIR=scratch, VERIF_SUT=sut)
    env.pop('PYTHONPATH', None)
    env.update(check.extra_env())
    tier = args.tier
    quick = tier == 'quick'
    budget = 300 if quick else 3300
    hard = 700 if quick else 4200

    def run_replay(case, n, timeout):
        job = dict(pid=pid, mode='replay', case=case, sut=sut, scratch=os.path.join(scratch, 'r{}'.format(n)), case_timeout=timeout)
        out = os.path.join(scratch, 'replay{}'.format(n))
        return collect(spawn(job, out, env), out, time.monotonic() + timeout + 60)

    def run_shards(shards, examples):
        procs = []
        for s in shards:
            job = dict(pid=pid, mode='shard', shard=s, seed=args.seed, tier=tier, examples=examples, sut=sut,
                       budget_s=budget, scratch=os.path.join(scratch, 'w{}'.format(s)), shrink_s=40 if quick else 120, fast=args.fast)
            out = os.path.join(scratch, 'out{}'.format(s))
            if os.path.exists(out):
                os.remove(out)
            procs.append((s, spawn(job, out, env), out))
        end = time.monotonic() + hard
        while args.fast and any(p.poll() is None for _, p, _ in procs):
            time.sleep(0.1)
            if time.monotonic() > end or any(p.poll() is not None and (not os.path.exists(o) or '"violation"' in open(o, encoding='utf-8').read(60)) for _, p, o in procs):
                for _, p, _ in procs:
                    if p.poll() is None:
                        os.killpg(p.pid, 9)
                        p.wait()
                return [(s, collect(p, o, end)) for s, p, o in procs if p.returncode != -9]
        return [(s, collect(p, out, end)) for s, p, out in procs]

    if args.replay:
        rep = json.load(open(args.replay, encoding='utf-8'))
        if rep.get('mode') == 'shard':
            args.seed, tier = rep['seed'], rep['tier']
            r = run_shards([rep['shard']], rep['examples'])[0][1]
        else:
            r = run_replay(rep['case'], 0, 120)
        bad = r['status'] in ('violation', 'crash', 'hang')
        print(r['status'], (r.get('failure') or {}).get('message', r.get('message', '')))
        if bad:
            print('VIOLATION property={} replay={}'.format(pid, args.replay))
        return 1 if bad else (0 if r['status'] == 'ok' else 2)

    examples = args.examples or (check.quick if quick else check.thorough)
    nw = args.workers or check.workers
    results = run_shards(range(nw), examples)

    found = []
    errors = []
    for s, r in results:
        if r['status'] == 'violation':
            found.append((s, r['failure']['case'], r['failure']['message'], 'violation'))
            if r.get('first') and r['first']['case'] != r['failure']['case']:
                found.append((s, r['first']['case'], r['first']['message'], 'violation'))
        elif r['status'] in ('crash', 'hang'):
            if r['case'] is None:
                errors.append((s, r['message']))
            else:
                found.append((s, r['case'], '{}: {}'.format(r['status'], r['message']), r['status']))
        elif r['status'] != 'ok':
            errors.append((s, r.get('message', r['status'])))

    violation = None
    if found:
        found.sort(key=lambda f: (f[3] != 'violation', len(json.dumps(f[1]))))
        if args.fast:
            print(found[0][2][:600])
            print('VIOLATION property={} replay=none'.format(pid))
            return 1
        for i, (s, case, msg, kind) in enumerate(found[:4]):
            r = run_replay(case, i, 120)
            if r['status'] in ('violation', 'crash', 'hang'):
                violation = dict(mode='case', property=pid, case=case,
                                 message=(r.get('failure') or {}).get('message') or '{}: {}'.format(r['status'], r.get('message')))
                break
        if violation is None and time.monotonic() - t0 < 400:
            # not reproducible from the case alone: the history of the worker matters; re-run that worker as a whole
            s, case, msg, kind = found[0]
            r = run_shards([s], examples)[0][1]
            if r['status'] in ('violation', 'crash', 'hang'):
                violation = dict(mode='shard', property=pid, shard=s, seed=args.seed, tier=tier, examples=examples, case=case, message=msg)
        if violation is None:
            errors.append((found[0][0], 'a failure did not reproduce: ' + found[0][2]))

    labels = collections.Counter()
    nontrivial = set()
    samples = []
    ev = inc = 0
    for s, r in results:
        labels.update(r.get('labels', {}))
        nontrivial.update(r.get('nontrivial', []))
        ev += r.get('evaluations', 0)
        inc += r.get('inconclusive', 0)
        samples += r.get('samples', [])[-2:]
    wall = time.monotonic() - t0
    if not args.no_evidence:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w', encoding='utf-8') as f:
            json.dump(dict(property=pid, tier='quick' if quick else 'thorough', seed=args.seed, level='exploration',
                           coverage=dict(evaluations=ev, distinct_nontrivial=len(nontrivial), rule=check.rule,
                                         samples=samples[:10] or ['none'], inconclusive=inc, workers=nw,
                                         truncated_workers=sum(1 for _, r in results if r.get('truncated')),
                                         classes={k: v for k, v in sorted(labels.items())}),
                           assumptions=getattr(check, 'assumptions', []), wall_s=round(wall, 1),
                           violations=1 if violation else 0), f, ensure_ascii=True, indent=1)
    print('{}: {} cases, {} distinct non-trivial, {} inconclusive, {:.1f} s'.format(pid, ev, len(nontrivial), inc, wall))
    if os.environ.get('VERIF_VERBOSE', '0') != '0':
        for k, v in sorted(labels.items()):
            print('   {:6d} {}'.format(v, k))
    if violation:
        d = os.path.join(HERE, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '{}-{}.json'.format(pid, args.seed))
        with open(path, 'w', encoding='utf-8') as f:
            json.dump(violation, f, ensure_ascii=True, indent=1)
        print(violation['message'][:3000])
        print('VIOLATION property={} replay={}'.format(pid, path))
        return 1
    if errors:
        for s, m in errors[:3]:
            print('ERROR property={} worker {}: {}'.format(pid, s, m[-1500:]))
        return 2
    return 0


if __name__ == '__main__':
    main()
