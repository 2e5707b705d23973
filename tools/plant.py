#!/opt/venv/bin/python
"""plant.py [--checks C01,C02|own|none] [--seed N] ID...: verifies planted bugs in scratch copies of /repo bound over /repo in a private
mount namespace (the real tree is never touched), and runs checks against them. Writes seeded/<ID>/ nothing; prints one line per bug
and stores the outcome in tools/planted.json."""
import argparse
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRIPT = r'''
mount --bind "$W/repo" /repo || exit 90
cd /repo
if [ "$STAGE" = demo0 ]; then bash "$W/demo/demo.sh" > "$W/demo0.log" 2>&1; exit $?; fi
if [ "$STAGE" = build ]; then bash /opt/vp/build.sh > "$W/build.log" 2>&1; exit $?; fi
if [ "$STAGE" = test ]; then bash /opt/vp/test.sh "$W/out.json" > "$W/test.log" 2>&1; exit $?; fi
if [ "$STAGE" = demo1 ]; then bash "$W/demo/demo.sh" > "$W/demo1.log" 2>&1; exit $?; fi
'''


def ns(stage, w, timeout=400):
    env = dict(os.environ, W=w, STAGE=stage)
    return subprocess.run(['unshare', '-m', 'bash', '-c', SCRIPT], env=env, timeout=timeout, stdin=subprocess.DEVNULL).returncode


def verify(bug):
    d = os.path.join(HERE, 'seeded', bug)
    w = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
    try:
        subprocess.check_call(['cp', '-a', '/repo', w + '/repo'])
        os.mkdir(w + '/demo')
        for n in os.listdir(d):
            if n != 'meta.json' and not n.endswith(('.diff', '.patch')):
                shutil.copy(os.path.join(d, n), w + '/demo')
        if ns('demo0', w):
            return 'demo fails on the unchanged tree: ' + open(w + '/demo0.log', errors='replace').read()[-1500:]
        p = subprocess.run(['git', '-C', w + '/repo', 'apply', os.path.join(d, 'patch.diff')], capture_output=True, text=True)
        if p.returncode:
            return 'patch does not apply: ' + p.stderr
        if ns('build', w):
            return 'does not build: ' + open(w + '/build.log').read()[-1500:]
        ns('test', w)
        passed = set(json.load(open(w + '/out.json'))['passed'])
        stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        if stable - passed:
            return 'tests fail: {}'.format(sorted(stable - passed)[:5])
        if not ns('demo1', w):
            return 'demo passes with the patch'
        return 'ok'
    finally:
        shutil.rmtree(w)


def run_checks(bug, ids, seed):
    d = os.path.join(HERE, 'seeded', bug)
    w = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
    out = {}
    try:
        subprocess.check_call(['cp', '-a', '/repo', w + '/repo'])
        subprocess.check_call(['git', '-C', w + '/repo', 'apply', os.path.join(d, 'patch.diff')])
        for i in ids:
            env = dict(os.environ, VERIF_REPO=w + '/repo')
            p = subprocess.run([sys.executable, 'check.py', i, '--no-evidence', '--fast', '--seed', str(seed)], cwd=HERE, env=env, capture_output=True, text=True)
            out[i] = {1: 'caught', 0: 'missed'}.get(p.returncode, 'error {}'.format(p.returncode)) if p.returncode != 1 or 'VIOLATION property=' + i in p.stdout else 'error'
            if p.returncode not in (0, 1):
                print(p.stdout[-1500:])
            if p.returncode == 1 and os.environ.get('VERIF_VERBOSE'):
                print(bug, i, p.stdout.strip().splitlines()[-2][:300])
    finally:
        shutil.rmtree(w)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('ids', nargs='*')
    ap.add_argument('--checks', default='own')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--no-verify', action='store_true')
    a = ap.parse_args()
    store = os.path.join(HERE, 'tools', 'planted.json')
    every = sorted(n for n in os.listdir(os.path.join(HERE, 'seeded')) if os.path.isdir(os.path.join(HERE, 'seeded', n)))
    bugs = a.ids or every
    data = json.load(open(store)) if os.path.exists(store) else {}
    with concurrent.futures.ThreadPoolExecutor(6) as pool:
        verdicts = dict(zip(bugs, [None] * len(bugs) if a.no_verify else pool.map(verify, bugs)))
    for bug in bugs:
        meta = json.load(open(os.path.join(HERE, 'seeded', bug, 'meta.json')))
        v = verdicts[bug]
        line = '{} [{}]'.format(bug, meta['property'])
        if v is not None:
            line += ' ' + v
        r = {}
        if v in (None, 'ok') and a.checks != 'none':
            ids = [meta['property']] if a.checks == 'own' else ['C{:02}'.format(i) for i in range(1, 40) if os.path.exists(os.path.join(HERE, 'checks', 'c{:02}.py'.format(i)))] if a.checks == 'all' else a.checks.split(',')
            r = run_checks(bug, ids, a.seed)
            line += ' ' + ' '.join('{}={}'.format(k, x) for k, x in r.items())
        print(line, flush=True)
        e = data.setdefault(bug, {'property': meta['property'], 'checks': {}})
        if v is not None:
            e['verified'] = v[:200]
        e['checks'].update(r)
        for gone in set(data) - set(every):
            del data[gone]
        with open(store + '.tmp', 'w') as f:
            json.dump(data, f, indent=1, sort_keys=True)
        os.rename(store + '.tmp', store)


main()
