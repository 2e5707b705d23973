#!/opt/venv/bin/python
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/planted.json (development only)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
START = '<!-- planted -->'


def main():
    runs = json.load(open(os.path.join(HERE, 'tools', 'planted.json')))
    rows = ['| bug | property | needs | caught by | missed by |', '|---|---|---|---|---|']
    for b in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
        m = json.load(open(os.path.join(HERE, 'seeded', b, 'meta.json')))
        c = runs.get(b, {}).get('checks', {})
        rows.append('| {} | {} | {} | {} | {} |'.format(b, m['property'], m['needs'].replace('|', '/'), ' '.join(k for k in c if c[k] == 'caught') or '-', ' '.join(k for k in c if c[k] == 'missed') or '-'))
    p = os.path.join(HERE, 'DESIGN.md')
    s = open(p, encoding='utf-8').read()
    s = s[:s.index(START) + len(START)] + '\n\n' + '\n'.join(rows) + '\n'
    open(p, 'w', encoding='utf-8').write(s)


if __name__ == '__main__':
    main()
