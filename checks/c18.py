"""C18: configuration selects exactly the named resources."""
import contextlib
import importlib
import json
import os
import sys
import warnings

from hypothesis import strategies as st

from vh import gen, world
from vh.core import Check, Violation, eq, require, sut

DIRS = ['設 定', 'res', 'abs', 'cwd']
# the second file of each name
SECOND = {'system': '~/', 'char': '$HOME/%41', 'unk': '{0}/#', 'user0': '~root/', 'user1': './.', 'user2': '　 /-'}
TYPES = ['small', 'core', 'full']
POS = [list(p) for p in world.BASE_POS] + [['印', str(i), '*', '*', '*', '*'] for i in range(8)]
NPOS = len(POS)
# the variant number of a directory and of a file name gives every file its own number


def number(di, second):
    return di * 2 + (1 if second else 0)


def row(h, c=0, p=0, n=None, left=0):
    return [h, str(left), '0', str(c), h, *POS[p], 'ヨ', n or h, '*', 'A', '*', '*', '*']


def system_rows(mark):
    return ([row('基', p=i, left=-1) for i in range(NPOS)] + [row('しるし', n='system ' + mark)] + [row(c, 10, 1) for c in '一二三'] + [row(c, 10, 0) for c in 'アイ'])


# ゆ: the user dictionaries' words; ゆえ is in all of them
USERS = 6


def user_rows(i, d):
    return [row('ゆ' + 'あいうえおか'[i], n='user {} {}'.format(i, d), c=-1000), row('ゆん', n='user {} {}'.format(i, d), c=-1000 - i)]


def char_def(v):
    """Categories: KATAKANA and the like as shipped; ☆ belongs to category v; settings of USER2 have length v."""
    return ('DEFAULT 0 1 0\nKATAKANA 1 1 2\nALPHA 1 1 0\nHIRAGANA 0 1 2\nKANJINUMERIC 0 1 0\nUSER1 0 1 0\nUSER2 0 0 {}\n'
            '0x30A1..0x30FF KATAKANA\n0x3042..0x3094 HIRAGANA\n0x4E00 KANJINUMERIC\n0x4E8C KANJINUMERIC\n0x4E09 KANJINUMERIC\n0x25C7 USER2\n{}').format(
                v + 1, ''.join('0x{:04X} USER3\n'.format(0x2460 + i) for i in range(8) if v & (1 << i)))


def unk_def(v):
    return 'DEFAULT,0,0,500,{0}\nUSER2,0,0,500,{1}\nKATAKANA,0,0,3000,{0}\n'.format(','.join(POS[0]), ','.join(POS[4 + v % 8]))


@st.composite
def settings(draw):
    """One configuration and how it is opened."""
    c = {'by': draw(gen.pick(['absolute', 'absolute', 'relative', 'default', 'cwd file'])), 'home': draw(gen.ints(0, 3)), 'resource': draw(gen.pick([None, None, 0, 1, 2, 3])),
         'type': draw(gen.pick([None, None, None, 'small', 'core', 'full'])), 'link': gen.chance(draw, 1, 4)}
    if gen.chance(draw, 1, 12):
        c['type'] = draw(st.sampled_from(['', 'medium', 'Core', 'core ', 'notfound', 'system', 'core_']))
    ref = st.tuples(st.sampled_from(['rel', 'rel', 'rel', 'abs', 'abs', 'up']), gen.ints(0, 3), st.booleans()).map(list)
    c['system'] = draw(gen.pick(['ref', 'ref', 'ref', 'empty', 'none', 'absent']))
    c['systemRef'] = draw(ref)
    c['users'] = [[draw(gen.ints(0, USERS - 1)), *draw(ref)] for _ in range(draw(gen.pick([0, 0, 1, 2, 3, 5])))]
    c['usersKey'] = bool(c['users']) or draw(st.booleans())
    for f in ('char', 'charDef', 'unkDef'):
        c[f] = draw(ref)
    c['oov'] = draw(gen.pick(['mecab simple', 'mecab simple', 'simple', 'simple mecab']))
    c['simple'] = [draw(gen.ints(0, 3)), draw(gen.pick([1000, 4000]))]
    c['inputs'] = draw(gen.pick(['', 'default', 'default psm', 'psm default', 'psm']))
    c['marks'] = draw(st.lists(st.sampled_from(['☆', '★', '〜']), min_size=1, max_size=3, unique=True))
    c['symbol'] = draw(st.sampled_from(['☆', '●', None]))
    c['rewrite'] = draw(gen.pick(['', 'num', 'kata', 'num kata']))
    c['normalize'] = draw(st.sampled_from([True, False, None]))
    c['minLength'] = draw(gen.pick([1, 2, 3, None]))
    c['kataPos'] = draw(gen.ints(0, 3))
    if gen.chance(draw, 1, 5):
        c['fault'] = draw(gen.pick(['input class', 'oov class', 'rewrite class', 'no oov', 'empty oov', 'no char', 'missing system', 'missing user', 'missing char', 'missing unk', 'missing config', 'no class', 'not json', 'user as system', 'system as user']))
    return c


@st.composite
def cases(draw):
    return {'installed': draw(st.lists(st.sampled_from(TYPES), max_size=3, unique=True)), 'open': draw(st.lists(settings(), min_size=1, max_size=4)), 'close': draw(st.booleans())}


class C18(Check):
    id = 'C18'
    rule = ('Sequences of up to four configurations opened in one process: four directories holding differently marked files of the same names, every resource named relatively or absolutely, configuration by absolute, relative or '
            'default path, resource directory given or not, dictionary types and any subset of installed dictionary packages, all plugin lists, and fourteen kinds of faults; every open dictionary is '
            'probed after opening and again after all the others were opened (and some closed). Non-trivial: a configuration mixing relative and absolute names, or two dictionaries open at once, or a fault.')
    quick = 900
    thorough = 15000

    def strategy(self, tier):
        return cases()

    # ------------------------------------------------------------ the files, once per process

    def prepare(self, ctx):
        if hasattr(self, 'root'):
            return
        self.root = ctx.scratch / 'c18'
        for di, name in enumerate(DIRS):
            d = self.root / name
            for s in [*SECOND.values(), 'sub/x']:
                (d / os.path.dirname(s)).mkdir(parents=True, exist_ok=True)
            (d / 'tief').mkdir()
            for dj, other in enumerate(DIRS):
                (d / 'zu{}'.format(dj)).symlink_to(self.root / other / 'tief')
            for second in (False, True):
                v = number(di, second)
                world.build_system(str(self.file(di, 'system', second)), system_rows(str(v)), '1 1\n')
                self.file(di, 'char', second).write_text(char_def(v), encoding='utf-8')
                self.file(di, 'unk', second).write_text(unk_def(v), encoding='utf-8')
            for i in range(USERS):
                for second in (False, True):
                    world.build_user(str(self.file(di, 'user{}'.format(i), second)), user_rows(i, number(di, second)), str(self.file(di, 'system', False)))
        for t in TYPES:
            p = self.root / 'packages' / t / ('sudachidict_' + t)
            (p / 'resources').mkdir(parents=True)
            (p / '__init__.py').write_text('')
            world.build_system(str(p / 'resources' / 'system.dic'), system_rows(t), '1 1\n')

    def file(self, di, kind, second):
        name = {'char': 'char.def', 'unk': 'unk.def'}.get(kind, kind + '.dic')
        return self.root / DIRS[di] / (SECOND.get(kind, 'sub/other_') + name if second else name)

    def name(self, ref, kind):
        """What the configuration says for a reference."""
        how, di, second = ref
        f = self.file(di, kind, second)
        if how == 'up':
            # through a directory that is a symbolic link into another one
            return 'zu{}/../{}'.format(di, os.path.relpath(str(f), str(self.root / DIRS[di])))
        return str(f) if how == 'abs' else os.path.relpath(str(f), str(self.root / DIRS[di]))

    # ------------------------------------------------------------ one configuration

    def config(self, c):
        cfg = {'characterDefinitionFile': self.name(c['char'], 'char'), 'oovProviderPlugin': [], 'inputTextPlugin': [], 'pathRewritePlugin': []}
        if c['system'] == 'ref':
            cfg['systemDict'] = self.name(c['systemRef'], 'system')
        elif c['system'] != 'absent':
            cfg['systemDict'] = '' if c['system'] == 'empty' else None
        if c['usersKey']:
            cfg['userDict'] = [self.name(u[1:], 'user{}'.format(u[0])) for u in c['users']]
        for p in c['oov'].split():
            cfg['oovProviderPlugin'].append({'class': 'sudachipy.plugin.oov.MeCabOovProviderPlugin', 'charDef': self.name(c['charDef'], 'char'), 'unkDef': self.name(c['unkDef'], 'unk')} if p == 'mecab' else
                                            {'class': 'sudachipy.plugin.oov.SimpleOovProviderPlugin', 'leftId': 0, 'rightId': 0, 'cost': c['simple'][1], 'oovPOS': POS[c['simple'][0]]})
        for p in c['inputs'].split():
            cfg['inputTextPlugin'].append({'class': 'sudachipy.plugin.input_text.DefaultInputTextPlugin'} if p == 'default' else
                                          dict({'class': 'sudachipy.plugin.input_text.ProlongedSoundMarkInputTextPlugin', 'prolongedSoundMarks': c['marks']}, **({'replacementSymbol': c['symbol']} if c['symbol'] else {})))
        for p in c['rewrite'].split():
            cfg['pathRewritePlugin'].append(dict({'class': 'sudachipy.plugin.path_rewrite.JoinNumericPlugin'}, **({'enableNormalize': c['normalize']} if c['normalize'] is not None else {})) if p == 'num' else
                                            dict({'class': 'sudachipy.plugin.path_rewrite.JoinKatakanaOovPlugin', 'oovPOS': POS[c['kataPos']]}, **({'minLength': c['minLength']} if c['minLength'] is not None else {})))
        for k in ('inputTextPlugin', 'pathRewritePlugin'):
            if not cfg[k] and c['normalize']:
                del cfg[k]
        f = c.get('fault')
        if f == 'input class':
            cfg.setdefault('inputTextPlugin', []).append({'class': 'sudachipy.plugin.input_text.NoSuchPlugin'})
        elif f == 'oov class':
            cfg['oovProviderPlugin'].insert(0, {'class': 'sudachipy.plugin.oov.NoSuchPlugin'})
        elif f == 'rewrite class':
            cfg.setdefault('pathRewritePlugin', []).append({'class': 'JoinNumericPlugin', 'enableNormalize': True})
        elif f == 'no class':
            del cfg['oovProviderPlugin'][0]['class']
        elif f == 'no oov':
            del cfg['oovProviderPlugin']
        elif f == 'empty oov':
            cfg['oovProviderPlugin'] = []
        elif f == 'no char':
            del cfg['characterDefinitionFile']
        elif f == 'missing system':
            cfg['systemDict'] = 'nosuch.dic'
        elif f == 'missing user':
            cfg['userDict'] = cfg.get('userDict', []) + ['nosuch.dic']
        elif f == 'missing char':
            cfg['characterDefinitionFile'] = 'nosuch.def'
        elif f == 'missing unk':
            cfg['oovProviderPlugin'] = [{'class': 'sudachipy.plugin.oov.MeCabOovProviderPlugin', 'charDef': self.name(c['charDef'], 'char'), 'unkDef': 'nosuch.def'}]
        elif f == 'user as system':
            cfg['systemDict'] = str(self.file(0, 'user0', False))
        elif f == 'system as user':
            cfg['userDict'] = cfg.get('userDict', []) + [str(self.file(0, 'system', False))]
        return cfg

    def expected(self, c, installed):
        """What the open dictionary has to look like, or None for an error."""
        f = c.get('fault')
        default = c['by'] == 'default'
        if c['type'] is not None and (c['type'] not in TYPES or c['type'] not in installed):
            return None
        base = c['resource'] if c['resource'] is not None else (None if default else self.home(c))
        if f and not default:
            # the dictionary type takes the place of what the file names
            if f not in ('missing system', 'user as system') or c['type'] is None:
                return None
        e = {}
        named = not default and (c['system'] == 'ref' or f in ('missing system', 'user as system'))
        if c['type'] is not None:
            e['system'] = c['type']
        elif not named:
            if 'core' not in installed:
                return None
            e['system'] = 'core'
        else:
            e['system'] = str(self.resolve(c['systemRef'], base))
        if default:
            # the shipped configuration; with a resource directory of ours the definitions are those
            e['users'] = []
            e['char'] = None if base is None else number(base, False)
            e['default'] = True
            return e
        e['users'] = [(u[0], self.resolve(u[1:], base)) for u in c['users']]
        e['char'] = self.resolve(c['char'], base)
        e['charDef'] = self.resolve(c['charDef'], base)
        e['unkDef'] = self.resolve(c['unkDef'], base)
        return e

    def home(self, c):
        return 3 if c['by'] == 'cwd file' else c['home']

    def resolve(self, ref, base):
        how, di, second = ref
        return number(base if how == 'rel' else di, second)

    @contextlib.contextmanager
    def packages(self, installed):
        added = [str(self.root / 'packages' / t) for t in installed]
        sys.path[:0] = added
        importlib.invalidate_caches()
        cwd = os.getcwd()
        os.chdir(str(self.root / DIRS[3]))
        try:
            yield
        finally:
            os.chdir(cwd)
            for a in added:
                sys.path.remove(a)
            for m in [m for m in sys.modules if m.startswith('sudachidict_')]:
                del sys.modules[m]
            importlib.invalidate_caches()

    def open(self, c, n):
        from sudachipy.dictionary import Dictionary
        kw = {}
        if c['by'] != 'default':
            p = link = self.root / DIRS[self.home(c)] / 'config{}.json'.format(n)
            p.unlink(missing_ok=True)
            if c.get('link'):
                # the file itself is in another directory
                p = self.root / DIRS[(self.home(c) + 1) % len(DIRS)] / 'file{}.json'.format(n)
                link.symlink_to(p)
            text = json.dumps(self.config(c), ensure_ascii=False)
            p.write_text('{' + text if c.get('fault') == 'not json' else text, encoding='utf-8')
            p = link
            if c.get('fault') == 'missing config':
                p = p.parent / 'nosuch.json'
            kw['config_path'] = str(p) if c['by'] == 'absolute' else (p.name if c['by'] == 'cwd file' else os.path.relpath(str(p)))
        if c['resource'] is not None:
            kw['resource_dir'] = str(self.root / DIRS[c['resource']])
        if c['type'] is not None:
            kw['dict_type'] = c['type']
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return Dictionary(**kw), kw

    def probe(self, dic, c, e, what):
        def forms(text):
            with sut('tokenize({!r}) {}'.format(text, what)):
                tok = dic.create()
                return [(m.normalized_form(), m.dictionary_id(), m.part_of_speech(), bool(m.is_oov())) for m in tok.tokenize(text)]
        what = what.replace('{', '{{').replace('}', '}}')
        eq([x[:2] for x in forms('しるし')], [('system ' + e['system'], 0)], 'system dictionary in use, {}'.format(what))
        # user dictionaries: the word of dictionary i is found in the last... in every position it is configured at
        names = e['users']
        with sut('looking up user words'):
            got = []
            for i in range(USERS):
                for wid, _ in dic.lexicon.lookup(('ゆ' + 'あいうえおか'[i]).encode('utf-8'), 0):
                    got.append((wid >> 28, dic.lexicon.get_word_info(wid).normalized_form))
        eq(sorted(got), [(k, 'user {} {}'.format(i, v)) for k, (i, v) in enumerate(names, 1)], 'user dictionaries in use, {}'.format(what))
        with sut('character categories'):
            cat = dic.grammar.get_character_category()
            if e['char'] is not None:
                v = sum(1 << i for i in range(8) if 'USER3' in [t.name for t in cat.get_category_types(0x2460 + i)])
                eq(v, e['char'], 'number of the character definition in use, {}'.format(what))
            else:
                eq(sorted(t.name for t in cat.get_category_types(0x4e00)), ['KANJI', 'KANJINUMERIC'], 'categories of 一 in the shipped definition')
        if e.get('default'):
            eq([type(p).__name__ for p in dic.input_text_plugins], ['DefaultInputTextPlugin', 'ProlongedSoundMarkInputTextPlugin'], 'input plugins of the shipped configuration')
            return
        got = forms('◇' * 24)
        mecab = 'mecab' in c['oov']
        first = c['oov'].split()[0]
        if first == 'mecab':
            n = e['charDef'] + 1
            eq({tuple(x[2]) for x in got}, {tuple(POS[4 + e['unkDef'] % 8])}, 'part of speech of unknown words by the definitions in use, {}'.format(what))
            eq(len(got), -(-24 // n), 'number of unknown words by the definitions in use, {}'.format(what))
        else:
            eq([(x[0], x[2]) for x in got], [('◇', POS[c['simple'][0]])] * 24, 'unknown words of the fallback, {}'.format(what))
        # input plugins
        text = 'Ａ☆☆'
        exp = text
        for p in c['inputs'].split():
            if p == 'default':
                exp = exp.replace('Ａ', 'a')
            elif '☆' in c['marks']:
                exp = exp.replace('☆☆', c['symbol'] or 'ー')
        eq(''.join(x[0] for x in forms(text)), exp, 'normalized input, {}'.format(what))
        got = forms('一二')
        if 'num' in c['rewrite'].split():
            eq([x[0] for x in got], ['12' if c['normalize'] is not False else '一二'], 'numerals, {}'.format(what))
        else:
            eq([x[0] for x in got], ['一', '二'], 'numerals without joining, {}'.format(what))
        got = forms('アイ')
        low = c['minLength'] if c['minLength'] is not None else 1
        if 'kata' in c['rewrite'].split() and low > 1:
            # the candidate of the definitions, if there is one
            eq([(x[0], x[2], x[3]) for x in got], [('アイ', POS[0 if mecab else c['kataPos']], True)], 'katakana words joined with minimum {}, {}'.format(low, what))
        else:
            eq([x[0] for x in got], ['ア', 'イ'], 'katakana words, {}'.format(what))

    def run(self, case, ctx):
        self.prepare(ctx)
        labels = []
        live = []
        errors = 0
        with self.packages(case['installed']):
            for n, c in enumerate(case['open']):
                e = self.expected(c, case['installed'])
                if e is None:
                    errors += 1
                    try:
                        dic, kw = self.open(c, n)
                    except Exception:
                        labels.append('error')
                        continue
                    raise Violation('opening with {} (installed {}) raised no error'.format(c, case['installed']))
                with sut('opening with {} (installed {})'.format(c, case['installed'])):
                    dic, kw = self.open(c, n)
                self.probe(dic, c, e, 'opened with {}'.format(kw))
                live.append((dic, c, e, kw))
            # the dictionaries opened earlier
            if len(live) > 1:
                labels.append('several open')
                if case['close']:
                    with sut('close'):
                        live.pop()[0].close()
            for dic, c, e, kw in live:
                self.probe(dic, c, e, 'opened with {}, probed after others were opened'.format(kw))
        for dic, *_ in live:
            dic.close()
        mixed = any({'rel', 'abs'} <= {c['systemRef'][0], c['char'][0], c['charDef'][0], c['unkDef'][0], *[u[1] for u in c['users']]} for _, c, _, _ in live)
        for _, c, e, _ in live:
            labels.append('by ' + c['by'])
            if c['type']:
                labels.append('dictionary type')
            if e['users']:
                labels.append('user dictionaries')
        if mixed:
            labels.append('mixed names')
        return mixed or len(live) > 1 or errors > 0, labels


CHECK = C18()
