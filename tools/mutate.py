#!/opt/venv/bin/python
"""mutate.py DIR [--files GLOB] [--limit N] [--stage tests|checks]: development only. Makes small mutants of /repo's sources in scratch
copies, keeps those that pass the repository's tests (DIR/survivors.json), runs the mapped checks on them (DIR/results.json)."""
import argparse
import ast
import concurrent.futures
import fnmatch
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRIPT = r'''ulimit -v 6000000; mount --bind "$W/repo" /repo || exit 90
. /opt/vp/env.sh
cd /repo; export TMPDIR=$W/tmp; mkdir -p $TMPDIR
case "$PYX" in 1) bash /opt/vp/build.sh > "$W/build.log" 2>&1 || exit 1;; esac
R=tests/resources; rm -f $R/*.dic
s() { timeout 60 $PY -m sudachipy.command_line "$@"; }
s build -o $R/system.dic -d "the system dictionary for the unit tests" -m $R/dict/matrix.def $R/dict/lex.csv >/dev/null 2>&1 && s ubuild -o $R/user.dic -s $R/system.dic $R/dict/user.csv >/dev/null 2>&1 && s ubuild -o $R/large_user.dic -s $R/system.dic $R/dict/large_user.csv > /dev/null 2>&1 || exit 1
timeout -k 5 150 $PY -m pytest -x -q -p no:cacheprovider --timeout=60 tests > $W/test.log 2>&1
'''
MAP = [
    ('*/dictionarybuilder.py', 'C05 C19 C16 C06 C17'), ('*/userdictionarybuilder.py', 'C05 C07 C19 C17'), ('*/lexiconset.py', 'C07 C06 C05 C01'), ('*/doublearraylexicon.py', 'C06 C07 C05 C02'),
    ('*/wordinfo*.py', 'C05 C07 C01 C15'), ('*/wordparam*.py', 'C05 C06 C21 C07'), ('*/wordidtable.py', 'C06 C15 C21'), ('*/lexicon.py', 'C06'), ('*/grammar.py', 'C16 C15 C02 C07 C21'), ('*/binarydictionary.py', 'C15 C21 C05'),
    ('*/dictionaryheader.py', 'C15 C17 C21'), ('*/dictionaryversion.py', 'C15 C05'), ('*/jtypedbytebuffer.py', 'C05 C15'), ('*/categorytype.py', 'C11 C12 C18 C09'), ('*/charactercategory.py', 'C11 C19 C18 C12'),
    ('*/lattice*.pyx', 'C02 C03 C24 C08 C16 C14'), ('*/tokenizer.pyx', 'C02 C03 C04 C01 C12 C24 C23 C20 C22'), ('*/morpheme*.py', 'C01 C04 C08 C05 C07'), ('*/utf8*.py', 'C09 C11 C12 C10 C01'),
    ('*/connect_cost/*', 'C16'), ('*/input_text/default*', 'C10 C09'), ('*/input_text/prolonged*', 'C22 C23 C18'), ('*/input_text/*', 'C10 C22 C18 C19'), ('*/oov/mecab*', 'C12 C08 C19 C18'), ('*/oov/*', 'C12 C08 C18 C19 C02'),
    ('*/path_rewrite/join_num*', 'C13 C03'), ('*/numericparser.py', 'C13'), ('*/path_rewrite/join_kat*', 'C14'), ('*/path_rewrite/*', 'C13 C14 C18 C08 C23'), ('*/dictionary.py', 'C18 C21 C07 C03 C16'), ('*/config.py', 'C18 C17 C19'),
    ('*/command_line.py', 'C17'), ('*', 'C18 C17 C05 C01'),
]
CMP = {ast.Lt: ['<=', '>='], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<='], ast.GtE: ['>', '<'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.LShift: '>>', ast.RShift: '<<', ast.BitAnd: '|', ast.BitOr: '&'}


def py_mutants(src):
    tree = ast.parse(src)
    lines = src.split('\n')
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l) + 1)

    def at(line, col):
        return starts[line - 1] + len(lines[line - 1].encode()[:col].decode())

    def span(n):
        return at(n.lineno, n.col_offset), at(n.end_lineno, n.end_col_offset)
    out = []

    def add(b, e, new):
        if src[b:e] != new:
            out.append((b, e, new))
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            skip.add(n.body[0])
        if isinstance(n, ast.Raise):
            for c in ast.walk(n):
                skip.add(c)
            skip.discard(n)
    for n in ast.walk(tree):
        if n in skip or getattr(n, 'lineno', None) is None:
            continue
        b, e = span(n)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            lb = span(n.left)[1]
            rb = span(n.comparators[0])[0]
            mid = src[lb:rb]
            for new in CMP.get(type(n.ops[0]), []):
                add(lb, rb, re.sub(r'(not in|is not|in|is|[<>=!]=?)', new, mid, count=1))
        elif isinstance(n, ast.BoolOp):
            l, r = span(n.values[0])[1], span(n.values[1])[0]
            mid = src[l:r]
            add(l, r, mid.replace('and', 'or') if isinstance(n.op, ast.And) else mid.replace('or', 'and'))
            for v in n.values:
                vb, ve = span(v)
                add(vb, ve, 'True' if isinstance(n.op, ast.And) else 'False')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            l, r = span(n.left)[1], span(n.right)[0]
            if '%' not in src[l:r]:
                add(l, r, ' {} '.format(BIN[type(n.op)]))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            ob, oe = span(n.operand)
            add(b, e, '(' + src[ob:oe] + ')')
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            add(b, e, str(n.value + 1))
            add(b, e, '({})'.format(n.value - 1))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            add(b, e, str(not n.value))
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            tb, te = span(n.test)
            add(tb, te, 'False')
            if not isinstance(n, ast.While):
                add(tb, te, 'True')
        elif isinstance(n, ast.Break):
            add(b, e, 'continue')
            add(b, e, 'pass')
        elif isinstance(n, ast.Continue):
            add(b, e, 'break')
            add(b, e, 'pass')
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and 'logger' not in src[b:e]:
            add(b, e, 'pass')
        elif isinstance(n, ast.Raise):
            add(b, e, 'pass')
        elif isinstance(n, (ast.Assign, ast.AugAssign)):
            if isinstance(n, ast.AugAssign) or isinstance(n.targets[0], ast.Subscript) or (isinstance(n.targets[0], ast.Attribute)) or n.col_offset > 8:
                add(b, e, 'pass')
        elif isinstance(n, ast.Return) and n.value is not None:
            add(b, e, 'return None')
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('lower', 'strip', 'rstrip', 'lstrip', 'copy', 'upper', 'keys') and not n.args:
            fb, fe = span(n.func.value)
            add(b, e, src[fb:fe])
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('sorted', 'list', 'min', 'max', 'int', 'reversed', 'set', 'bytes') and n.args:
            ab, ae = span(n.args[0])
            add(b, e, src[ab:ae])
    return out


def pyx_mutants(src):
    out = []
    pos = 0
    doc = False
    for line in src.split('\n'):
        code = line.split('#')[0]
        if code.count('"""') == 1:
            doc = not doc
        if not doc and '"""' not in code and 'import' not in code and 'logger.info' not in code and 'def ' not in code:
            for pat, news in ((r' <= ', [' < ']), (r' < ', [' <= ']), (r' > ', [' >= ']), (r' >= ', [' > ']), (r' == ', [' != ']), (r' != ', [' == ']), (r' and ', [' or ']), (r' or ', [' and ']),
                              (r' \+ ', [' - ']), (r' - ', [' + ']), (r'\bnot ', ['']), (r' is not ', [' is ']), (r'\bTrue\b', ['False']), (r'\bFalse\b', ['True']), (r'\b\d+\b', ['+', '-']), (r'\bcontinue\b', ['pass', 'break']), (r'\bbreak\b', ['pass'])):
                for m in re.finditer(pat, code):
                    for new in news:
                        if new == '+' or new == '-':
                            new = str(int(m.group()) + (1 if new == '+' else -1)) if re.fullmatch(r'\d+', m.group()) else new
                        out.append((pos + m.start(), pos + m.end(), new))
            s = code.strip()
            m = re.match(r'\s*(if|elif|while) (.*):\s*$', code)
            if m:
                out.append((pos + m.start(2), pos + m.end(2), 'False'))
                if m.group(1) != 'while':
                    out.append((pos + m.start(2), pos + m.end(2), 'True'))
            if re.match(r'[\w.\[\]]+(\(.*\)| [+-]?= .*)$', s) and not s.startswith(('cdef', 'return')):
                i = pos + len(code) - len(code.lstrip())
                out.append((i, pos + len(code.rstrip()), 'pass'))
        pos += len(line) + 1
    return out


def mutants(pattern):
    files = subprocess.check_output(['git', '-C', '/repo', 'ls-files', 'sudachipy'], text=True).split()
    for f in files:
        if not f.endswith(('.py', '.pyx')) or not fnmatch.fnmatch(f, pattern):
            continue
        src = open('/repo/' + f, encoding='utf-8').read()
        seen = set()
        for b, e, new in (py_mutants if f.endswith('.py') else pyx_mutants)(src):
            text = src[:b] + new + src[e:]
            if text in seen:
                continue
            seen.add(text)
            if f.endswith('.py'):
                try:
                    compile(text, f, 'exec')
                except SyntaxError:
                    continue
            line = src.count('\n', 0, b) + 1
            yield dict(file=f, line=line, b=b, e=e, new=new, old=src[b:e][:80], code=src.split('\n')[line - 1].strip())


def copy(m, w):
    subprocess.check_call(['cp', '-a', '/repo', w + '/repo'])
    p = w + '/repo/' + m['file']
    src = open(p, encoding='utf-8').read()
    assert src[m['b']:m['e']][:80] == m['old']
    with open(p, 'w', encoding='utf-8') as f:
        f.write(src[:m['b']] + m['new'] + src[m['e']:])


def passes(m):
    w = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
    try:
        copy(m, w)
        return 0 == subprocess.run(['unshare', '-m', 'bash', '-c', SCRIPT], env=dict(os.environ, W=w, PYX=str(int(m['file'].endswith('.pyx')))), timeout=500, stdin=subprocess.DEVNULL).returncode
    except subprocess.TimeoutExpired:
        return False
    finally:
        shutil.rmtree(w, ignore_errors=True)


def decide(m, seed=1):
    w = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
    try:
        copy(m, w)
        ids = next(c for pat, c in MAP if fnmatch.fnmatch(m['file'], pat)).split()
        for i in ids:
            try:
                p = subprocess.run([sys.executable, 'check.py', i, '--no-evidence', '--fast', '--seed', str(seed)], cwd=HERE, env=dict(os.environ, VERIF_REPO=w + '/repo'), capture_output=True, text=True, timeout=600)
            except subprocess.TimeoutExpired:
                return i + ' timeout'
            if p.returncode == 1 and 'VIOLATION' in p.stdout:
                return i
            if p.returncode != 0:
                return i + ' error ' + p.stdout[-200:]
        return 'missed'
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('dir')
    ap.add_argument('--files', default='*')
    ap.add_argument('--limit', type=int, default=100000)
    ap.add_argument('--stage', default='both')
    a = ap.parse_args()
    sp, rp = os.path.join(a.dir, 'survivors.json'), os.path.join(a.dir, 'results.json')
    surv = json.load(open(sp)) if os.path.exists(sp) else {}
    res = json.load(open(rp)) if os.path.exists(rp) else {}
    ms = list(mutants(a.files))
    random.Random(1).shuffle(ms)
    ms = ms[:a.limit]
    key = lambda m: '{}:{}:{}:{}'.format(m['file'], m['b'], m['e'], m['new'])
    if a.stage in ('both', 'tests'):
        todo = [m for m in ms if key(m) not in surv]
        print(len(ms), 'mutants', len(todo), 'to test', flush=True)
        with concurrent.futures.ThreadPoolExecutor(8) as pool:
            for n, (m, ok) in enumerate(zip(todo, pool.map(passes, todo))):
                surv[key(m)] = dict(m, ok=ok)
                if n % 20 == 0:
                    json.dump(surv, open(sp, 'w'), indent=0, ensure_ascii=False)
        json.dump(surv, open(sp, 'w'), indent=0, ensure_ascii=False)
    if a.stage in ('both', 'checks'):
        for m in ms:
            k = key(m)
            if surv.get(k, {}).get('ok') and k not in res:
                res[k] = dict(m, result=decide(m))
                json.dump(res, open(rp, 'w'), indent=0, ensure_ascii=False)
                print(res[k]['result'][:30], m['file'], m['line'], repr(m['code'][:100]), '=>', repr(m['new'][:60]), flush=True)


main()
