"""C20: every valid text is analysed under the shipped configuration."""
import gc
import io
import json
import os
import sys
import threading

from hypothesis import strategies as st

from checks.c01 import check_list
from vh import gen, world
from vh.core import Check, eq, require, sut

# code points in blocks; the blocks of assigned characters come more often
BLOCK = 512
FIRST = [b for b in range(0x20000 // BLOCK) if not 0xd800 <= b * BLOCK < 0xe000]
REST = list(range(0x20000 // BLOCK, 0x110000 // BLOCK))
CONTEXT = ['', '', 'ア', 'a', '1', 'あ', '東', '。', '\u3099', 'ー', ' ', '😀', '万', ',']


@st.composite
def number(draw):
    n = draw(gen.pick([3, 5, 20, 70, 400]))
    return ''.join(draw(st.lists(st.sampled_from('0123456789〇一二三四五六七八九十百千万億兆京.,．，１２'), min_size=1, max_size=n)))


@st.composite
def piece(draw):
    k = draw(gen.ints(0, 9))
    if k <= 1:
        return ''.join(draw(st.lists(gen.any_char, min_size=1, max_size=10)))
    if k <= 4:
        return ''.join(draw(st.lists(gen.special_char, min_size=1, max_size=10)))
    if k == 5:
        return draw(number())
    if k == 6:
        return draw(gen.special_char) * draw(gen.pick([2, 3, 17, 260]))
    if k == 7:
        return ''.join(draw(st.lists(st.sampled_from('アカッャァーンヵ〜-・ｱﾞ'), min_size=1, max_size=8)))
    if k == 8:
        return ''.join(draw(st.lists(st.sampled_from(list('aＡéßαΣЖабς') + ['ﬁ', 'İ', '\u0301', '\u200d', '\ufe0f']), min_size=1, max_size=8)))
    return draw(gen.pick(gen.DECOMP + ['\n', '\r\n', '\0', '👍🏽', '👨\u200d👩\u200d👧', '🇯🇵', 'か\u3099\u3099', '\ufeff', '\U0010ffff', '㌔' * 3, 'ﷺ', '…' * 5]))


@st.composite
def cases(draw):
    case = {'dic': draw(gen.pick(['empty', 'empty', 'rich', 'user']))}
    if case['dic'] == 'user':
        word = st.one_of(st.sampled_from(['ア', 'ー', '1', '一', '.', ',', 'a', 'ab', 'é', '\u3099', '😀', 'あ', ' ', '\u0301', '万', '-']),
                         st.lists(st.one_of(gen.normal_char, gen.special_char), min_size=1, max_size=4).map(''.join)).filter(lambda s: not set(s) & set('\0\r\n'))
        case['words'] = [[h, draw(gen.ints(-5000, 15000)), draw(gen.ints(0, 11))] for h in draw(st.lists(word, min_size=1, max_size=8))]
        case['auto'] = gen.chance(draw, 1, 3)
    ts = []
    for _ in range(draw(gen.ints(1, 4))):
        ts.append(''.join(draw(st.lists(piece(), min_size=1, max_size=6))))
    if gen.chance(draw, 1, 40):
        ts[-1] = (ts[-1] * 4000)[:draw(gen.pick([1000, 4000, 12000]))]
    case['texts'] = ts
    if gen.chance(draw, 1, 2):
        case['block'] = draw(gen.weighted((3, st.sampled_from(FIRST)), (1, st.sampled_from(REST))))
        case['context'] = draw(st.sampled_from(CONTEXT))
        case['step'] = draw(gen.pick([1, 1, 1, 3, 7, 11, 101]))
    return case


class Sparse:
    """A file that leaves holes for long runs of zeros."""

    def __init__(self, f):
        self.f = f

    def write(self, b):
        if len(b) > 1 << 20 and b.count(0) == len(b):
            self.f.seek(len(b), 1)
            self.f.truncate()
            return len(b)
        return self.f.write(b)

    def __getattr__(self, name):
        return getattr(self.f, name)


RICH = ([(c, 5000, 1) for c in '0123456789〇一二三四五六七八九十百千万億兆京'] + [('.', 4000, 2), (',', 4000, 2)] + [(c, 6000, 0) for c in 'アカンあいう東京都がabé😀'] +
        [('アイ', 6000, 0), ('アイウ', 6000, 0), ('東京', 5000, 0), ('東京都', 7000, 0), (' ', 3000, 3), ('ab', 5000, 0), ('\u3099', 100, 0), ('1', 100, 1)])


def small(kib, f):
    """Runs f in a thread with a stack of that size."""
    got = []

    def work():
        try:
            f()
        except BaseException as e:
            got.append(e)

    before = threading.stack_size(kib * 1024)
    try:
        th = threading.Thread(target=work)
        th.start()
    finally:
        threading.stack_size(before)
    th.join()
    if got:
        raise got[0]


class C20(Check):
    id = 'C20'
    rule = ('The shipped settings, character, unknown-word, rewrite and plugin definitions as they are over a dictionary without a matching word, one with numerals and short words, and generated user '
            'dictionaries; texts of arbitrary and adversarial characters, long numerals, repeated characters, and blocks of 512 consecutive code points (in several orders, with a neighbour '
            'in between) over all of Unicode; each text in all three modes with all attributes of every morpheme read. Non-trivial: a text of which at least five morphemes come out.')
    quick = 130
    thorough = 4000
    case_timeout = 120
    assumptions = ['the dictionary has the connection ids and parts of speech the shipped definitions name and forbids no connection', 'texts up to 40000 characters']

    def strategy(self, tier):
        return cases()

    def corpus(self, tier):
        # long runs
        out = []
        for dic, n in (('rich', 6000), ('empty', 4500)):
            for p in ('0', '1', '90', '1,000', '.', ',', '一', '十', '万一', '一.', 'ア', 'カー', 'a', 'ab ', 'あ', '東', '東京都', ' ', 'ー', '😀', '…', 'が', 'か\u3099', '\u3099', '。', '㌔', '\n', 'ッ', '\u0301', '1万', '〇'):
                if dic == 'rich' or p not in ('が', '。', '\n', ' ', '万一', '東京都'):
                    out.append({'dic': dic, 'texts': [[[p, n], ['あ', 1]]]})
        # texts that normalization makes longer than 16 bits count, in characters or only in bytes
        for dic, p, n in (('empty', '\ufdfa', 4000), ('rich', '㌖', 13000), ('rich', '東1', 11500)):
            out.append({'dic': dic, 'texts': [[[p, n], ['あ', 1]]]})
        # in a thread, whose stack is small on many systems: tens of thousands of words, joined or not
        for p in ('1', '一', '1あ', '東京都', 'a.'):
            out.append({'dic': 'rich', 'texts': [[[p, 40000 // len(p)]], 'あ'], 'stack': 256})
        return out

    def prepare(self, ctx):
        """A package sudachidict_core and a second system dictionary, once per process."""
        if hasattr(self, 'root'):
            return
        self.root = ctx.scratch / 'shipped'
        res = self.root / 'sudachidict_core' / 'resources'
        res.mkdir(parents=True)
        (self.root / 'sudachidict_core' / '__init__.py').write_text('')
        self.pos = []
        simple = json.loads(world.resource('sudachi.json'))
        pos = [l.split(',')[4:10] for l in world.resource('unk.def').split('\n') if l.strip()] + [p['oovPOS'] for k in ('oovProviderPlugin', 'pathRewritePlugin') for p in simple[k] if 'oovPOS' in p]
        for p in world.BASE_POS + pos:
            if p not in self.pos:
                self.pos.append(p)
        ids = [int(x) for l in world.resource('unk.def').split('\n') if l.strip() for x in l.split(',')[1:3]]
        ids += [p[k] for p in simple['oovProviderPlugin'] for k in ('leftId', 'rightId') if k in p]
        n = max(ids) + 1
        self.make_system(str(res / 'system.dic'), [], n)
        self.make_system(str(self.root / 'rich.dic'), RICH, n)
        sys.path.insert(0, str(self.root))
        shipped = os.path.join(os.environ['VERIF_SUT'], 'sudachipy', 'resources')
        for name, sysdic in (('rich', self.root / 'rich.dic'), ('user', self.root / 'rich.dic')):
            cfg = dict(simple, systemDict=str(sysdic))
            if name == 'user':
                cfg['userDict'] = [str(self.root / 'user.dic')]
            (self.root / (name + '.json')).write_text(json.dumps(cfg), encoding='utf-8')
        self.shipped = shipped

    def row(self, h, cost, p, left=0):
        return [h, str(left), '0', str(cost), h, *self.pos[p % len(self.pos)], '', h, '*', 'A', '*', '*', '*']

    def make_system(self, path, words, n):
        from sudachipy.dictionarylib import SYSTEM_DICT_VERSION_2
        from sudachipy.dictionarylib.dictionarybuilder import DictionaryBuilder
        from sudachipy.dictionarylib.dictionaryheader import DictionaryHeader
        rows = [self.row('\U0010fffd基', 0, i, -1) for i in range(len(self.pos))] + [self.row('\U0010fffd基', 0, 0)] + [self.row(*x) for x in words]
        with open(path + '.csv', 'w', encoding='utf-8', newline='') as f:
            f.write(world.csv_text(rows))
        with sut('building the system dictionary'):
            with open(path, 'wb') as f:
                f.write(DictionaryHeader(SYSTEM_DICT_VERSION_2, 0, '').to_bytes())
                DictionaryBuilder(logger=world.quiet).build([path + '.csv'], io.StringIO('{0} {0}\n'.format(n)), Sparse(f))

    def open(self, case):
        from sudachipy.dictionary import Dictionary
        with sut('opening the dictionary'):
            if case['dic'] == 'empty':
                return Dictionary()
            if case['dic'] == 'user':
                rows = [self.row(h, -32768 if case['auto'] else c, p) for h, c, p in case['words']]
                world.build_user(str(self.root / 'user.dic'), rows, str(self.root / 'rich.dic'))
            return Dictionary(config_path=str(self.root / (case['dic'] + '.json')), resource_dir=self.shipped)

    def analyse(self, tok, texts, labels, most):
        from sudachipy.tokenizer import Tokenizer
        known = {tuple(p) for p in self.pos}
        for text in texts:
            if len(text) > 900:
                labels.append('long text')
            for mode in 'CBA':
                with sut('tokenize({!r}, {})'.format(text[:400], mode)):
                    ml = tok.tokenize(text, getattr(Tokenizer.SplitMode, mode))
                most[0] = max(most[0], len(ml))
                if mode != 'C' and len(text) > 300:
                    continue
                if text:
                    if len(text) <= 600:
                        check_list(ml, text)
                    else:
                        eq(''.join(m.surface() for m in ml), text, 'concatenated surfaces')
                        require(len(ml) > 0, 'no morphemes for {}', text)
                with sut('reading the morphemes of {!r}'.format(text[:400])):
                    for m in ml:
                        require(tuple(m.part_of_speech()) in known, 'unknown part of speech {} of {}', m.part_of_speech(), m.surface())
                        for s in (m.normalized_form(), m.dictionary_form(), m.reading_form(), m.surface()):
                            require(type(s) is str, 'attribute {} of {} is no string', s, m.surface())
                        list(m.synonym_group_ids()), m.word_id(), m.dictionary_id(), m.is_oov(), m.part_of_speech_id(), str(m)
                        for u in m.split(Tokenizer.SplitMode.A):
                            u.surface()

    def run(self, case, ctx):
        self.prepare(ctx)
        labels = [case['dic']]
        texts = [gen.expand(x) for x in case['texts']]
        if 'block' in case:
            cps = range(case['block'] * BLOCK, (case['block'] + 1) * BLOCK)
            order = [cps[i * case['step'] % BLOCK] for i in range(BLOCK)]
            texts.append(''.join(chr(c) + case['context'] for c in order if not 0xd800 <= c < 0xe000))
            labels.append('block of code points')
        dic = self.open(case)
        with sut('create'):
            tok = dic.create()
        most = [0]
        if case.get('stack'):
            labels.append('small stack')
            small(case['stack'], lambda: self.analyse(tok, texts, labels, most))
        else:
            self.analyse(tok, texts, labels, most)
        tok = None
        dic.close()
        del dic
        from sudachipy.dictionarylib.lexiconset import LexiconSet
        getattr(LexiconSet.get_word_info, 'cache_clear', lambda: None)()
        gc.collect()    # the mapping of the matrix ends with the last object that uses it
        return most[0] >= 5, labels


CHECK = C20()
