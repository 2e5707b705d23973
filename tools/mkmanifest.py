"""Writes MANIFEST.json for the checks that exist."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'), encoding='utf-8')]
checks, na = [], []
for p in props:
    i = p['id']
    if not os.path.exists(os.path.join(HERE, 'checks', i.lower() + '.py')):
        na.append(dict(property=i, reason='check not built yet'))
        continue
    c = importlib.import_module('checks.' + i.lower()).CHECK
    checks.append(dict(
        property=i,
        quick_cmd='/opt/venv/bin/python check.py {}'.format(i),
        thorough_cmd='/opt/venv/bin/python check.py {} --tier thorough'.format(i),
        evidence_file='evidence/{}.json'.format(i),
        technique=getattr(c, 'technique', 'property-based testing (Hypothesis) against a reference model'),
        level='exploration',
        level_note='Searches generated cases against an independent oracle and shrinks failures; shows no absence. ' +
                   'Assumes: ' + ('; '.join(getattr(c, 'assumptions', []) or ['nothing beyond the generator'])) +
                   '. Trusts Hypothesis, Cython, the C compiler and the dartsclone package.'))
m = dict(version=1,
         setup_cmd='/opt/venv/bin/python tools/setup_check.py',
         checks=checks, not_applicable=na,
         notes='No hooks: the checks copy /repo/sudachipy to a scratch directory, compile its extensions there and use public entry points only. '
               'Replay a failure with: /opt/venv/bin/python check.py ID --replay FILE')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
