"""C17: the command line prints exactly what the library returns."""
import os
import re
import subprocess
import sys
import time

from hypothesis import strategies as st

from vh import gen, lexgen, world
from vh.core import Check, Violation, eq, require, sut
from vh.zygote import Zygote

LINE_BITS = ['%', '%s', '%d%%', '{}', '{0}', '\t', '\\n', '\u2028', '\x85', '\x0b', '\x0c', '\x1c', '\ufeff', 'EOS', '#', ',', '"', ' ', '-', '\0', '$HOME', '\u2029', '=== ', '*']


@st.composite
def lines(draw, w):
    out = []
    for _ in range(draw(gen.ints(0, 8))):
        k = draw(gen.ints(0, 5))
        if k == 0:
            out.append('')
        elif k == 1:
            out.append(''.join(draw(st.lists(st.one_of(st.sampled_from(LINE_BITS), st.sampled_from(w['alpha'])), min_size=1, max_size=5))))
        else:
            out.append(re.sub('[\r\n]', '', draw(gen.texts(w, max_fragments=5, long_=False))))
    return out


@st.composite
def cases(draw):
    if gen.chance(draw, 1, 4):
        alpha = gen.alphabets(draw)
        part = lexgen.raw(alpha, extreme=False)
        sp = draw(lexgen.pos_list(alpha, draw(gen.ints(1, 3)), part))
        sys_ = lexgen.shorten_refs(draw(lexgen.lexicon(alpha, sp, max_size=8, extreme=False)))
        user = lexgen.shorten_refs(draw(lexgen.lexicon(alpha, sp + draw(lexgen.pos_list(alpha, 1, part)), n_sys=len(sys_), max_size=5, extreme=False)), sys_, True)
        for w in user:
            for f in 'abw':
                w[f] = [r if not (r[0] == 'in' and not r[1] and not sys_[r[2]]['y']) else ['sys', r[2]] for r in w.get(f) or []]
        return {'sys': sys_, 'user': user, 'mat': draw(gen.matrices()), 'cuts': draw(st.lists(st.integers(0, 8), max_size=2)), 'names': draw(st.permutations(['b', 'A', 'あ'])), 'out': draw(st.booleans()),
                'desc': draw(st.one_of(st.none(), st.sampled_from(['', 'a description', '説明 😀', '-x', '%s', 'x' * 100, ' padded ', 'two\nlines\n', '\t\u3000', '"q"']))), 'uout': draw(st.booleans()), 'real': gen.chance(draw, 1, 15), 'mixed': draw(st.booleans()), 'again': draw(gen.pick([None, None, 0, 1]))}
    w = draw(gen.worlds(users=st.sampled_from([0, 0, 1]), refs='spell', inhibit=False, oov=draw(gen.pick(['both', 'simple'])), max_words=6))
    files = draw(st.lists(lines(w), min_size=1, max_size=3))
    runs = []
    for _ in range(draw(gen.ints(1, 4))):
        runs.append({'mode': draw(gen.pick([None, 'A', 'B', 'C'])), 'a': draw(st.booleans()), 'o': gen.chance(draw, 1, 3), 'd': gen.chance(draw, 1, 6), 'sub': draw(st.booleans()), 'stdin': gen.chance(draw, 2, 5),
                     'end': draw(st.booleans()), 'eol': draw(gen.pick(['\n', '\n', '\r\n'])), 'real': gen.chance(draw, 1, 15), 'order': draw(gen.ints(0, 3)), 'exists': draw(st.booleans()), 'again': gen.chance(draw, 1, 4)})
    return {'w': w, 'files': files, 'runs': runs, 'missing': gen.chance(draw, 1, 10)}


def command(args, cwd, stdin, stdout, stderr):
    """In a forked child: the command with its own standard streams. Returns the exit code."""
    import traceback
    os.chdir(cwd)
    for fd, path, flags in ((0, stdin, os.O_RDONLY), (1, stdout, os.O_WRONLY | os.O_CREAT | os.O_TRUNC), (2, stderr, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)):
        f = os.open(path, flags, 0o644)
        os.dup2(f, fd)
        os.close(f)
    sys.stdin = open(0, encoding='utf-8', newline='\n')
    sys.stdout = open(1, 'w', encoding='utf-8')
    sys.stderr = open(2, 'w', encoding='utf-8')
    sys.argv = ['sudachipy'] + args
    code = 0
    try:
        from sudachipy import command_line
        command_line.main()
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    except BaseException:
        traceback.print_exc()
        code = 1
    sys.stdout.flush()
    sys.stderr.flush()
    return code


def read(p):
    with open(str(p), 'rb') as f:
        return f.read()


class C17(Check):
    id = 'C17'
    rule = ('Random worlds and up to three input files of up to eight lines (empty lines, format characters, line-separator characters that end no line, CRLF ends, missing final newline) given as '
            'files or on standard input, with all combinations of -m, -a, -o, -d and the subcommand, output compared byte by byte with the library; build and ubuild over random sources, several files, '
            'default and given output names and descriptions, compared with the builder classes. Commands run in forked processes with their own streams, one in fifteen as a new python process. '
            'Non-trivial: two or more lines with a morpheme, or a build.')
    quick = 130
    thorough = 4000
    case_timeout = 90

    def strategy(self, tier):
        return cases()

    def corpus(self, tier):
        # unusual forms in every column
        w, ts = gen.odd_world(oov=[['simple', 0, 0, 900, 0]])
        run = {'mode': None, 'a': True, 'o': False, 'd': False, 'sub': False, 'stdin': False, 'end': True, 'eol': '\n', 'real': False, 'order': 0, 'exists': False}
        return [{'w': w, 'files': [ts], 'runs': [run, dict(run, a=False, mode='A', o=True), dict(run, d=True)], 'missing': False}]

    def cli(self, args, d, stdin=None, real=False):
        """(exit code, stdout, stderr)"""
        si, so, se = str(d / 'stdin'), str(d / 'stdout'), str(d / 'stderr')
        with open(si, 'wb') as f:
            f.write(stdin or b'')
        if real:
            env = dict(os.environ, PYTHONPATH=os.environ['VERIF_SUT'])
            with open(si) as i, open(so, 'wb') as o, open(se, 'wb') as e:
                code = subprocess.call([sys.executable, '-m', 'sudachipy.command_line'] + args, cwd=str(d), stdin=i, stdout=o, stderr=e, env=env, timeout=60)
        else:
            if getattr(self, 'zygote', None) is None:
                self.zygote = Zygote(0)
            code = self.zygote.call('checks.c17', 'command', args, str(d), si, so, se)
        return code, read(so), read(se).decode('utf-8', 'replace')

    def run(self, case, ctx):
        return self.tokenize(case, ctx) if 'w' in case else self.build(case, ctx)

    def expected(self, tok, text_lines, mode, all_):
        from sudachipy.tokenizer import Tokenizer
        out = []
        with sut('tokenize in the library'):
            for line in text_lines:
                for m in tok.tokenize(line, getattr(Tokenizer.SplitMode, mode or 'C')):
                    cols = [m.surface(), ','.join(m.part_of_speech()), m.normalized_form()]
                    if all_:
                        cols += [m.dictionary_form(), m.reading_form(), str(m.dictionary_id()), '[{}]'.format(','.join(str(i) for i in m.synonym_group_ids()))]
                        if m.is_oov():
                            cols.append('(OOV)')
                    out.append('\t'.join(cols))
                out.append('EOS')
        return out

    def tokenize(self, case, ctx):
        w = case['w']
        labels = ['tokenize']
        busy = 0
        with ctx.dir() as d:
            dic = world.make(w, d)
            tok = dic.create()
            for n, r in enumerate(case['runs']):
                use = case['files'][:1] if r['stdin'] else case['files']
                eol = '\n' if r['stdin'] else r['eol']    # standard input is not translated
                names, datas, texts = [], [], []
                for i, ls in enumerate(use):
                    data = eol.join(ls)
                    if ls and (not r['end'] or ls[-1] == ''):
                        data += eol
                    names.append('in {}-{}.txt'.format(n, i))
                    datas.append(data.encode('utf-8'))
                    (d / names[-1]).write_bytes(datas[-1])
                    texts += ls
                if r.get('again') and not r['stdin']:
                    names.append(names[0])
                    texts += use[0]
                flags = [['-r', 'sudachi.json' if r['order'] % 2 else str(d / 'sudachi.json')]]
                if r['mode']:
                    flags.append(['-m', r['mode']])
                for f in 'ad':
                    if r[f]:
                        flags.append(['-' + f])
                out = d / 'out {}.txt'.format(n)
                if r['o']:
                    flags.append(['-o', out.name])
                    if r['exists']:
                        out.write_bytes('old contents\n'.encode() * 500)
                flags = flags[r['order'] % len(flags):] + flags[:r['order'] % len(flags)]
                args = (['tokenize'] if r['sub'] else []) + [x for f in flags for x in f] + ([] if r['stdin'] else names)
                code, stdout, stderr = self.cli(args, d, datas[0] if r['stdin'] else b'not this\n', r['real'])
                what = 'sudachipy {}'.format(' '.join(args)).replace('{', '{{').replace('}', '}}')
                require(code == 0, '{} ended with {}: {}', what, code, stderr[-600:])
                got = stdout
                if r['o']:
                    eq(stdout, b'', 'standard output of ' + what)
                    got = read(out)
                    labels.append('-o')
                want = self.expected(tok, texts, r['mode'], r['a'])
                if r['d']:
                    labels.append('-d')
                    rest = iter(got.decode('utf-8').split('\n'))
                    # a form may contain line breaks
                    for line in (part for x in want for part in x.split('\n')):
                        require(any(x == line for x in rest), 'line {!r} is missing in the output of {}', line, what)
                else:
                    require(got == ''.join(x + '\n' for x in want).encode('utf-8'), 'output of {} for the lines {}: got {} expected {}', what, texts, got.decode('utf-8', 'replace').split('\n'), want)
                if sum(1 for t in texts if t) >= 2:
                    busy += 1
                labels.append('stdin' if r['stdin'] else 'files')
                if r['real']:
                    labels.append('new process')
            if case['missing']:
                code, stdout, stderr = self.cli(['-r', 'sudachi.json', 'nosuch.txt'], d)
                require(code != 0, 'a missing input file is no error')
                eq(stdout.count(b'EOS'), 0, 'lines analysed with a missing input file')
                code, stdout, _ = self.cli(['-v'], d)
                from sudachipy import __version__
                eq((code, stdout.decode()), (0, 'sudachipy {}\n'.format(__version__)), 'sudachipy -v')
            tok = None
            dic.close()
        return busy > 0, labels

    def build(self, case, ctx):
        from sudachipy.dictionarylib import BinaryDictionary
        labels = ['build']
        with ctx.dir() as d:
            rows = [lexgen.row(x, case['sys']) for x in case['sys']]
            urows = [lexgen.row(x, case['user'], case['sys'], True) for x in case['user']]

            def parts(rows):
                cuts = sorted(min(c, len(rows)) for c in case['cuts'])
                return [rows[b:e] for b, e in zip([0] + cuts, cuts + [len(rows)])]

            def repeated(items):
                """With one of the files given a second time."""
                return items if case.get('again') is None else items + [items[case['again'] % len(items)]]
            sparts, uparts = parts(rows), parts(urows)
            rows, urows = sum(repeated(sparts), []), sum(repeated(uparts), [])
            world.build_system(str(d / 'lib.dic'), lexgen.text(rows), world.matrix_text(case['mat']), case['desc'] or '')
            world.build_user(str(d / 'ulib.dic'), lexgen.text(urows), str(d / 'lib.dic'), case['desc'] or '')
            (d / 'matrix.def').write_text(world.matrix_text(case['mat']))

            def files(parts, stem):
                out = []
                for k, part in enumerate(parts):
                    p = d / '{}{}.csv'.format(stem, k if not case.get('names') else case['names'][k])
                    p.write_text(lexgen.text(part), encoding='utf-8', newline='')
                    out.append(p.name)
                return repeated(out)
            for kind, rs, lib, default, given in (('build', sparts, 'lib.dic', 'system.dic', case['out']), ('ubuild', uparts, 'ulib.dic', 'user.dic', case['uout'])):
                out = d / ('made {}.dic'.format(kind) if given else default)
                opts = ['-m', 'matrix.def'] if kind == 'build' else ['-s', 'lib.dic']
                if given:
                    opts += ['-o', out.name]
                if case['desc'] is not None:
                    opts += ['-d', case['desc']] if not case['desc'].startswith('-') else ['-d' + case['desc']]
                names = files(rs, kind)
                built = names if kind == 'build' else built
                args = [kind] + (opts + names if case['mixed'] else names + opts)
                t0 = int(time.time())
                code, stdout, stderr = self.cli(args, d, real=case['real'])
                t1 = int(time.time())
                require(code == 0, 'sudachipy {} ended with {}: {}', ' '.join(args), code, stderr[-600:])
                require(out.exists(), 'sudachipy {} wrote no {}', ' '.join(args), out.name)
                got, want = read(out), read(d / lib)
                eq(got[:8], want[:8], 'version written by sudachipy {}', kind)
                created = int.from_bytes(got[8:16], 'little')
                require(t0 <= created <= t1, 'creation time {} is not between {} and {}', created, t0, t1)
                if got[16:] != want[16:]:
                    i = next((i for i, (a, b) in enumerate(zip(got[16:], want[16:])) if a != b), min(len(got), len(want)) - 16) + 16
                    raise Violation('dictionary of sudachipy {} differs from that of the builder at byte {} of {}'.format(' '.join(args), i, len(want)))
                with sut('opening what sudachipy {} built'.format(kind)):
                    bd = (BinaryDictionary.from_system_dictionary if kind == 'build' else BinaryDictionary.from_user_dictionary)(str(out))
                    eq(bd.header.description, case['desc'] or '', 'description of what sudachipy {} built', kind)
                    bd.close()
            for args in (['build', '-m', 'nosuch.def', '-o', 'x.dic', built[0]], ['build', '-m', 'matrix.def', '-o', 'x.dic', built[0], 'nosuch.csv'], ['ubuild', '-s', 'nosuch.dic', '-o', 'x.dic', 'u' + built[0]]):
                if case['real']:
                    break
                code, _, _ = self.cli(args, d)
                require(code != 0, 'sudachipy {} is no error', ' '.join(args))
        return True, labels


CHECK = C17()
