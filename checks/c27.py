"""C27: results do not depend on the environment of the process."""
import json
import os
import re
import shutil
import time

from hypothesis import strategies as st

from vh import gen, observe, world
from vh.core import Check, Violation, eq, require, short
from vh.zygote import Zygote

# how a process may be started; the first is the one the others are compared with
STARTS = [
    dict(LC_ALL='C.UTF-8', PYTHONUTF8='0'),
    dict(LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0', LANG='C'),
    dict(LC_ALL='C.UTF-8', PYTHONUTF8='0', PYTHONOPTIMIZE='2', TZ='JST-9'),
    dict(LC_ALL='POSIX', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0', LANG='ja_JP.eucJP', PYTHONOPTIMIZE='1', TZ='LINT-14', HOME='/nonexistent'),
]
SEEDS = [0, 1, 77, 4242]
FAULTS = ['columns', 'head', 'cost', 'left', 'unit', 'a-mode', 'null', 'long', 'matrix cell', 'matrix number', 'range', 'category', 'unk columns', 'unk category', 'json', 'user cost', 'user unit', 'twice', 'sys as user', 'unk undefined', 'defined twice', 'rewrite columns', 'rewrite key', 'rewrite twice', 'class', 'kata pos', 'no simple pos', 'dic version', 'number', 'char columns', 'property columns', 'surrogate', 'pos']
NOTES = ['注釈', 'コメント 😀', 'é', '—', 'ﾊﾝｶｸ']


@st.composite
def cases(draw):
    w = draw(gen.worlds(users=st.sampled_from([0, 1, 1, 2]), refs='spell', inhibit=False, max_words=6, oov=draw(gen.pick(['both', 'both', 'simple']))))
    texts = [t for t in draw(st.lists(gen.texts(w, max_fragments=5, long_=False), min_size=1, max_size=4)) if t] or ['a']
    start = draw(gen.ints(1, len(STARTS) - 1))
    return {'w': w, 'texts': texts, 'start': start, 'cwd': draw(gen.pick(['decoys', 'root', 'empty', 'own'])), 'umask': draw(gen.pick([0o022, 0o077, 0o002])), 'notes': draw(gen.ints(0, 4)),
            'a': draw(st.booleans()), 'mode': draw(gen.pick('ABC')), 'relative': draw(st.booleans()), 'desc': draw(gen.pick(['', 'desc', '説明'])),
            'fault': [draw(gen.pick(FAULTS)), draw(gen.ints(0, 50))] if gen.chance(draw, 2, 5) else None, 'twice': draw(gen.ints(0, 3)), 'layout': draw(gen.ints(0, 3)), 'readonly': gen.chance(draw, 1, 3)}


def prepare(d, case):
    """The source files and definitions of the case in d, with notes in other scripts wherever a comment may stand."""
    w = case['w']
    world.write_definitions(w, d)
    note = NOTES[case['notes'] % len(NOTES)]
    rows = [[world.columns(w, k, x) for x in world.entries(w, k)] for k in range(len(w['lex']))]
    mat = world.matrix_text(w['mat']).split('\n')
    char = world.char_text(w) + '\n# {}\n'.format(note)
    if case.get('many'):
        # ranges that do not touch
        char += ''.join('0x{:X} {}\n'.format(0x30000 + 2 * i, ['KANJI', 'ALPHA'][i % 2]) for i in range(case['many']))
    unk = world.unk_text(w)
    cfg = world.config_json(w)
    cfg['注'] = note
    rewrite = world.resource('rewrite.def') + '# {}\n'.format(note)
    mat = mat[:1] + ['# ' + note, ''] + mat[1:] if case['notes'] else mat
    if case['fault']:
        kind, n = case['fault']
        row = rows[0][n % len(rows[0])]
        last = rows[-1][n % len(rows[-1])]
        if kind == 'columns':
            del row[n % 17 + 1:]
        elif kind == 'head':
            row[0], row[1] = '', '0'
        elif kind in ('cost', 'left'):
            row[3 if kind == 'cost' else 1] = ['40000', '-32769', '65536', 'x'][n % 4]
        elif kind == 'unit':
            row[15], row[14] = '{0}/{0}'.format(len(rows[0]) + n), 'C'
        elif kind == 'a-mode':
            row[15], row[14] = '0/1', 'A'
        elif kind == 'null':
            row[0], row[1] = '\\u0000', '0'
        elif kind == 'long':
            row[11 + n % 2] = 'あ' * (32768 + n)
        elif kind == 'matrix cell':
            mat.append('{} 0 1'.format(w['mat']['l'] + n % 3) if n % 2 else '0 {} 1'.format(w['mat']['r'] + n % 3))
        elif kind == 'matrix number':
            mat.append('0 0 {}'.format(['40000', '-32769', 'x'][n % 3]))
        elif kind == 'range':
            char += '\n0x0042..0x0041 ALPHA\n'
        elif kind == 'category':
            char += '\n0x0041 NOTHING\n'
        elif kind == 'unk columns':
            unk += 'DEFAULT,0,0,1,名詞\n'
        elif kind == 'unk category':
            unk += 'NOTHING,0,0,1,{}\n'.format(','.join(w['pos'][0]))
        elif kind == 'user cost':
            last[3] = '99999'
        elif kind == 'user unit':
            last[15], last[14] = 'U{0}/U{0}'.format(len(rows[-1]) + n), 'C'
        elif kind == 'twice':
            char += '\n' + '\n'.join(x for x in char.split('\n') if re.match('[A-Z]', x))[:40] + '\n'
        elif kind == 'sys as user':
            cfg['userDict'] = cfg.get('userDict', []) + ['system.dic']
        elif kind == 'unk undefined':
            char = '\n'.join(x for x in char.split('\n') if not x.startswith('USER1'))
            unk += 'USER1,0,0,1,{}\n'.format(','.join(w['pos'][0]))
        elif kind == 'defined twice':
            char += 'USER2 0 1 0\nUSER2 0 1 0\n'
        elif kind == 'rewrite columns':
            rewrite += 'い ろ は\n'
        elif kind == 'rewrite key':
            rewrite += 'いろ\n'
        elif kind == 'rewrite twice':
            rewrite += 'いろは い\nいろは ろ\n'
        elif kind == 'class':
            cfg[['inputTextPlugin', 'oovProviderPlugin', 'pathRewritePlugin'][n % 3]].append({'class': ['sudachipy.plugin.Nothing', 'Nothing', 'nothing.Nothing'][n // 3 % 3]})
        elif kind in ('kata pos', 'no simple pos'):
            cls = 'path_rewrite.JoinKatakanaOovPlugin' if kind == 'kata pos' else 'oov.SimpleOovProviderPlugin'
            p = {'class': 'sudachipy.plugin.' + cls, 'minLength': 1, 'leftId': 0, 'rightId': 0, 'cost': 1}
            if n % 2:
                p['oovPOS'] = ['無', '*', '*', '*', '*', '*'] if n % 4 == 1 else ['名詞']
            cfg['pathRewritePlugin' if kind == 'kata pos' else 'oovProviderPlugin'].append(p)
        elif kind == 'dic version':
            cfg['systemDict'] = ['char.def', 'lex0.csv', 'nothing.dic'][n % 3]
        elif kind == 'number':
            unk += 'DEFAULT,0,x,1,{}\n'.format(','.join(w['pos'][0])) if n % 2 else 'DEFAULT,0,0,,{}\n'.format(','.join(w['pos'][0]))
        elif kind == 'char columns':
            char += '\n0x0041\n'
        elif kind == 'property columns':
            char += '\nUSER3 0 1\n'
        elif kind == 'surrogate':
            row[0] = '\\ud800'
        elif kind == 'pos':
            row[5] = ','.join(['あ' * 40000]) if n % 2 else '"\n'
        elif kind == 'json':
            cfg['oovProviderPlugin'].append({'class': 'sudachipy.plugin.oov.MeCabOovProviderPlugin', 'charDef': 'nothing.def', 'unkDef': 'unk.def'})
    layout = case.get('layout', 0)
    if layout == 1:
        # dictionaries and configuration apart from the definitions
        cfg['characterDefinitionFile'] = os.path.join(d, 'char.def')
        for plugin in cfg['oovProviderPlugin']:
            for key in ('charDef', 'unkDef'):
                if key in plugin:
                    plugin[key] = os.path.join(d, plugin[key])
    elif layout == 2:
        cfg['systemDict'] = os.path.join('res', cfg['systemDict'])
        if 'userDict' in cfg:
            cfg['userDict'] = [os.path.join('res', x) for x in cfg['userDict']]
    elif layout == 3:
        cfg['characterDefinitionFile'] = 'res/char.def'
        for plugin in cfg['oovProviderPlugin']:
            if 'unkDef' in plugin:
                plugin.update(charDef='res/char.def', unkDef='res/' + plugin['unkDef'])
    for k, rs in enumerate(rows):
        with open(os.path.join(d, 'lex{}.csv'.format(k)), 'w', encoding='utf-8', newline='') as f:
            f.write(world.csv_text(rs))
    for name, text in (('matrix.def', '\n'.join(mat)), ('char.def', char), ('unk.def', unk), ('rewrite.def', rewrite), ('sudachi.json', json.dumps(cfg, ensure_ascii=False)),
                       ('lines.txt', '\n'.join(re.sub('[\r\n]', '', t) for t in case['texts']) + '\n')):
        with open(os.path.join(d, name), 'w', encoding='utf-8', newline='') as f:
            f.write(text)


def decoys(d):
    """Files with the names of resources that belong to nobody."""
    os.mkdir(os.path.join(d, 'res'))
    for name in ('res/char.def', 'res/unk.def', 'res/system.dic', 'res/user1.dic', 'char.def', 'unk.def', 'rewrite.def', 'sudachi.json', 'system.dic', 'user.dic', 'user1.dic', 'matrix.def', 'lex0.csv'):
        with open(os.path.join(d, name), 'w', encoding='utf-8') as f:
            f.write('DEFAULT 0 1 0\n0x0000..0x10FFFF KANJI\n' if name.endswith('char.def') else 'あ い\n' if name == 'rewrite.def' else 'decoy\n')


def masked(path, since):
    """A dictionary without its creation time, which must be the time since when it was made."""
    with open(path, 'rb') as f:
        b = f.read()
    made = int.from_bytes(b[8:16], 'little')
    return (b[:8] + (b'' if int(since) <= made <= time.time() else b[8:16]) + b[16:]).hex()


def command(args):
    import sys
    import traceback
    from sudachipy import command_line
    sys.argv = ['sudachipy'] + args
    try:
        command_line.main()
    except SystemExit as e:
        return 0 if e.code is None else e.code if isinstance(e.code, int) else 1
    except BaseException as e:
        return [type(e).__name__, traceback.format_exc()[-700:]]
    return 0


def reader_only(d):
    """From here on the process may read the files in d and not write them, nor make new ones there."""
    import ctypes
    for root, _, names in os.walk(d):
        for name in names:
            os.chmod(os.path.join(root, name), 0o444)
        os.chmod(root, 0o555)
    # without CAP_DAC_OVERRIDE root is a user like any other
    libc = ctypes.CDLL(None, use_errno=True)
    head = (ctypes.c_uint32 * 2)(0x20080522, 0)
    data = (ctypes.c_uint32 * 6)()
    if libc.capget(head, data) == 0:
        data[0] &= ~2
        data[1] &= ~2
        libc.capset(head, data)
    return not os.access(os.path.join(d, 'char.def'), os.W_OK)


def outcome(r):
    """What must be the same: whether it failed."""
    return r if isinstance(r, int) else 'failed'


def pipeline(d, cwd, case):
    """Builds, opens, analyses in d, working in cwd. In a forked child."""
    from sudachipy.dictionary import Dictionary
    from sudachipy.tokenizer import Tokenizer
    nothing = os.open(os.devnull, os.O_RDWR)
    for fd in (0, 1):
        os.dup2(nothing, fd)
    os.umask(case['umask'])
    if case['cwd'] == 'decoys':
        os.environ.update(HOME=cwd, XDG_CONFIG_HOME=cwd, XDG_DATA_HOME=cwd, TMPDIR=cwd)
    os.chdir(cwd)
    p = lambda name: os.path.relpath(os.path.join(d, name)) if case['relative'] else os.path.join(d, name)
    out = {'log': []}

    def run(what, args, made):
        since = time.time()
        r = command(args)
        out[what] = outcome(r)
        if r:
            out['log'].append([what, r])
        elif made.endswith('.dic'):
            out[what + ' bytes'] = masked(p(made), since)
        else:
            with open(p(made), 'rb') as f:
                out[what + ' bytes'] = f.read().hex()
        return r == 0
    n = len(case['w']['lex'])
    ok = run('build', ['build', '-o', p('system.dic'), '-m', p('matrix.def'), '-d', case['desc'] if case['desc'].isascii() else '', p('lex0.csv')], 'system.dic')
    for k in range(1, n):
        ok = ok and run('ubuild {}'.format(k), ['ubuild', '-o', p('user{}.dic'.format(k)), '-s', p('system.dic'), p('lex{}.csv'.format(k))], 'user{}.dic'.format(k))
    if not ok:
        return out
    where = ''
    if case.get('layout'):
        os.mkdir(p('res'))
        moved = {1: ['sudachi.json', 'system.dic'] + ['user{}.dic'.format(k) for k in range(1, n)], 2: ['system.dic'] + ['user{}.dic'.format(k) for k in range(1, n)], 3: ['char.def', 'unk.def', 'unk2.def']}[case['layout']]
        for name in moved:
            if os.path.exists(p(name)):
                os.rename(p(name), p('res/' + name))
        where = 'res/' if case['layout'] == 1 else ''
    if case.get('readonly'):
        out['reader'] = reader_only(d)
    try:
        dic = Dictionary(config_path=p(where + 'sudachi.json'), resource_dir=p(where) if case['twice'] % 2 else None)
        if case['twice'] > 1:
            # elsewhere from now on
            os.chdir('/')
        tok = dic.create()
    except Exception as e:
        import traceback
        out['open'] = 'failed'
        out['log'].append(['open', type(e).__name__, traceback.format_exc()[-700:]])
        return out
    out['open'] = 0
    try:
        from sudachipy.plugin.input_text.default_input_text_plugin import DefaultInputTextPlugin
        plugin = DefaultInputTextPlugin()
        plugin.read_rewrite_lists(p('rewrite.def'))
        out['rewrite'] = sorted(plugin.replace_char_map.items()), sorted(plugin.ignore_normalize_set)
    except Exception as e:
        out['rewrite'] = 'failed'
        out['log'].append(['rewrite', type(e).__name__, str(e)])
    out['results'] = [observe.analyse(tok, t, m)[0] for t in case['texts'] for m in 'ABC']
    dic.close()
    os.chdir(cwd)
    if case.get('readonly'):
        os.chmod(d, 0o755)
    run('tokenize', ['tokenize', '-r', p(where + 'sudachi.json'), '-o', p('out.txt'), '-m', case['mode']] + ['-a'] * case['a'] + [p('lines.txt')], 'out.txt')
    return out


class C27(Check):
    id = 'C27'
    rule = ('Random worlds with comments and names in many scripts in every file, two in five with a fault; built with build and ubuild, opened, analysed in all modes and by the command line to a file, in a process '
            'under a UTF-8 locale and in one under a locale without UTF-8 and/or with assertions switched off, in another working directory (with decoys of all resource names), with another umask, hash seed, '
            'time zone, one in three without the right to write what it reads; dictionaries, output and results compared. Non-trivial: built, opened and analysed, or refused, in both.')
    quick = 120
    thorough = 3000
    case_timeout = 90
    assumptions = ['locales that are installed here: C, C.UTF-8, POSIX; names of files are ASCII; standard streams are not compared (their encoding is the environment\'s)']

    def strategy(self, tier):
        return cases()

    def corpus(self, tier):
        """Each fault under each start, and the directories."""
        w = gen.fixed_world(words=[dict(h='京都', y='キョウト'), dict(h='都', l=-1, r=-1)], users=[[dict(h='東京都', y='トウキョウト'), dict(h='京')]], oov=['mecab', ['simple', 0, 0, 900, 0]], unk=[['DEFAULT', 0, 0, 500, 0]], rewrite=[['num', True], ['kata', 2, 0]])
        out = []
        for n, fault in enumerate(FAULTS):
            for start in range(1, len(STARTS)):
                out.append({'w': w, 'texts': ['京都', 'abc12'], 'start': start, 'cwd': ['decoys', 'root', 'empty', 'own'][(n + start) % 4], 'umask': 0o022, 'notes': 1 + n % 4, 'a': True, 'mode': 'C', 'relative': False, 'desc': '',
                       'fault': [fault, n + start], 'twice': 0, 'layout': (n + start) % 4})
        for layout in range(4):
            out.append(dict(out[0], fault=None, layout=layout, readonly=True, many=[0, 1000, 70, 20000][layout]))
        return out

    def process(self, k):
        if getattr(self, 'zygotes', None) is None:
            self.zygotes = {}
        if k not in self.zygotes:
            self.zygotes[k] = Zygote(SEEDS[k], **STARTS[k])
        return self.zygotes[k]

    def run(self, case, ctx):
        labels = ['start {}'.format(case['start']), 'cwd ' + case['cwd']]
        got = []
        with ctx.dir() as top:
            for i, k in enumerate((0, case['start'])):
                # the same place, so that nothing differs but the process
                d = top / 'd'
                d.mkdir()
                prepare(str(d), case)
                cwd = top / 'cwd{}'.format(i)
                cwd.mkdir()
                if i and case['cwd'] == 'decoys':
                    decoys(str(cwd))
                if i and case['cwd'] == 'root':
                    cwd = '/'
                if i and case['cwd'] == 'own':
                    cwd = d
                c = dict(case, umask=0o022, relative=False, twice=case['twice'] % 2, readonly=False) if i == 0 else case
                try:
                    got.append(self.process(k).call('checks.c27', 'pipeline', str(d), str(cwd), c))
                except RuntimeError as e:
                    raise Violation('the operations failed in process {}: {}'.format(k, e))
                shutil.rmtree(str(d))
        want, other = got
        if other.pop('reader', False):
            labels.append('read only')
        how = ('read-only files, ' if 'read only' in labels else '') + ', '.join('{}={}'.format(a, b) for a, b in STARTS[case['start']].items()) + ', working directory: {}'.format(case['cwd'])
        for key in want:
            if key == 'log':
                continue
            require(key in other, '{} is missing with {}: {}', key, how.replace('{', '{{'), short(other['log']))
            if want[key] != other[key]:
                if key == 'results':
                    eq(other[key], want[key], 'results with {}', how)
                raise Violation('{} differs with {}: {} instead of {}; {}'.format(key, how, short(other[key]), short(want[key]), short(other['log'] or want['log'])))
        extra = sorted(set(other) - set(want))
        require(not extra, '{} only with {}: refused otherwise: {}', extra, how, short(want['log']))
        if case['fault']:
            labels.append('{} {}'.format(case['fault'][0], 'refused' if want['log'] else 'accepted'))
        elif want['log']:
            labels.append('refused without a fault')
        return 'results' in want or bool(case['fault'] and want['log']), labels + ['opened'] * ('results' in want)


CHECK = C27()
