"""C13: joined numerals denote the number that was written."""
from hypothesis import strategies as st

from vh import gen, model, numerals, probe, texts, world
from vh.core import Check, eq, require, short, sut

NUMERAL = 1      # index of the numeral part of speech in the base table
DIG = '0123456789'
KDIG = '〇一二三四五六七八九'
OTHER = ['円', 'あ', 'い', '-', '、', '東', 'カ', 'a', ' ', '。']


@st.composite
def number(draw, kanji, maxlen, commas=True, point=True):
    """A digit string of at most maxlen integer digits, as written."""
    n = draw(gen.ints(1, maxlen))
    s = ''.join(draw(st.lists(gen.pick(KDIG if kanji else DIG), min_size=n, max_size=n)))
    if commas and n > 3 and gen.chance(draw, 1, 2):
        parts = []
        r = s
        while len(r) > 3:
            parts.insert(0, r[-3:])
            r = r[:-3]
        s = ','.join([r] + parts)
    if point and gen.chance(draw, 1, 5):
        s += '.' + ''.join(draw(st.lists(gen.pick(KDIG if kanji else DIG), min_size=1, max_size=4)))
    return s


@st.composite
def numeral(draw):
    """Mostly well-formed numerals; whether one is, is the model's business."""
    if gen.chance(draw, 1, 3):
        return draw(number(gen.chance(draw, 1, 4), draw(gen.pick([2, 4, 8, 25])) if not gen.chance(draw, 1, 20) else draw(gen.pick([70, 140, 300]))))
    out = []
    for big in draw(st.lists(gen.pick('兆億万'), max_size=3, unique=True).map(lambda x: sorted(x, key='兆億万'.index))) + ['']:
        for small in draw(st.lists(gen.pick('千百十'), max_size=3, unique=True).map(lambda x: sorted(x, key='千百十'.index))):
            if gen.chance(draw, 2, 3):
                out.append(draw(number(gen.chance(draw, 1, 2), 1 if gen.chance(draw, 5, 6) else 4, point=gen.chance(draw, 1, 4))))
            out.append(small)
        if gen.chance(draw, 1, 2):
            out.append(draw(number(gen.chance(draw, 1, 2), draw(gen.pick([1, 1, 2, 4])), point=big == '' or gen.chance(draw, 1, 3))))
        if big:
            out.append(big)
    return ''.join(out)


# pieces of numerals in any order
PARTS = ['1', '12', '123', '0', '00', '000', '500', ',', '.', '.5', ',000', ',123', '十', '百', '千', '万', '億', '兆', '一', '二〇', '1.5']
jumble = st.lists(gen.pick(PARTS), min_size=2, max_size=7).map(''.join)


@st.composite
def texts_(draw):
    out = []
    for _ in range(draw(gen.ints(1, 4))):
        k = draw(gen.ints(0, 5))
        if k <= 2:
            s = draw(numeral())
        elif k == 3:
            s = draw(st.one_of(st.lists(gen.pick(DIG + '.,.,' + numerals.CHARS), min_size=1, max_size=9).map(''.join), jumble))
        else:
            s = draw(numeral())
            # a well-formed one, disturbed
            if s:
                i = draw(gen.ints(0, len(s) - 1))
                s = draw(gen.pick([s[:i] + s[i + 1:], s[:i] + draw(gen.pick('.,0万十')) + s[i:], s[:i] + s[i] + s[i:], s[i:] + s[:i]]))
        if gen.chance(draw, 1, 6):
            s = ''.join(chr(ord(c) + 0xfee0) if '!' <= c <= '~' else c for c in s)
        out.append(s)
        out.append(draw(gen.pick(['', '', '', '.', ',', '..', ',.'])))
        out.append(''.join(draw(st.lists(gen.pick(OTHER), min_size=1 if gen.chance(draw, 9, 10) else 0, max_size=2))))
    if gen.chance(draw, 1, 2):
        out.pop()
    if gen.chance(draw, 1, 2):
        out.insert(0, draw(gen.pick(OTHER)))
    return ''.join(out)


@st.composite
def cases(draw):
    lex = [dict(h='基', l=-1, r=-1, p=i) for i in range(4)]
    for c in numerals.CHARS:
        if gen.chance(draw, 5, 6):
            e = dict(h=c, c=draw(gen.ints(-50, 50)), p=NUMERAL, y='ヨ' + c)
            if gen.chance(draw, 1, 12):
                e['p'] = 0
            if gen.chance(draw, 1, 12):
                e['n'] = draw(gen.pick(numerals.CHARS + 'あ'))
            if gen.chance(draw, 1, 20):
                e['n'] = draw(gen.pick(['10', '一二', '0.5']))
            if gen.chance(draw, 1, 10):
                e['s'] = '表' + c
            lex.append(e)
    for c in ',.':
        if gen.chance(draw, 3, 4):
            lex.append(dict(h=c, c=draw(gen.ints(-50, 50)), p=draw(gen.pick([2, 2, 2, 1]))))
    for c in OTHER:
        if gen.chance(draw, 1, 2):
            e = dict(h=c, c=draw(gen.ints(-50, 50)), p=0)
            if gen.chance(draw, 1, 10):
                e['n'] = draw(gen.pick(['1', ',', '.']))
            lex.append(e)
    for h in draw(st.lists(st.text(st.sampled_from(numerals.CHARS + ',.'), min_size=2, max_size=3), max_size=4)):
        e = dict(h=h, c=draw(gen.ints(-200, 100)), p=draw(gen.pick([NUMERAL, NUMERAL, 0])), y='ヨミ')
        if gen.chance(draw, 1, 3):
            e['n'] = draw(gen.pick(['12', '一', '五十', '0']))
        if gen.chance(draw, 1, 2):
            e['a'] = ['4', '5']
        lex.append(e)
    if len(lex) < 6:
        lex += [dict(h='山'), dict(h='川')]
    unk = [['NUMERIC', 0, 0, draw(gen.ints(0, 300)), draw(gen.pick([1, 1, 1, 0]))], ['KANJINUMERIC', 0, 0, draw(gen.ints(0, 300)), draw(gen.pick([1, 1, 0]))],
           ['DEFAULT', 0, 0, 500, 0], ['SYMBOL', 0, 0, 500, 2], ['KANJI', 0, 0, 400, 0]]
    w = {'pos': [list(p) for p in world.BASE_POS], 'mat': dict(l=1, r=1, cells=[]), 'lex': [lex], 'unk': unk, 'chardef': None,
         'oov': ['mecab', ['simple', 0, 0, 1000, 0]] if gen.chance(draw, 3, 4) else [['simple', 0, 0, 1000, draw(gen.pick([0, 1]))]],
         'inputs': draw(gen.pick([['default'], ['default'], []])), 'rewrite': [['num', draw(gen.pick([True, True, True, False]))]]}
    raw = st.one_of(numeral(), numeral(), jumble, jumble, st.text(st.sampled_from('0012.,.,' + numerals.CHARS), min_size=1, max_size=10), number(False, 30))
    return {'w': w, 'numerals': draw(st.lists(raw, min_size=5, max_size=20)), 'texts': draw(st.lists(texts_(), min_size=1, max_size=8)), 'mode': draw(gen.pick(['C', 'C', 'C', 'A', 'B']))}


def common(t, b, e):
    """Categories of a range of characters, none if it is not continuous."""
    if e > b + t.runs[b]:
        return set()
    out = set(t.cats[b])
    for i in range(b + 1, e):
        out &= t.cats[i]
    return out


class C13(Check):
    id = 'C13'
    rule = ('Lexicons of digits, kanji numerals, separators (some missing, with another part of speech or normalized form, and words of several characters) and texts of '
            'well-formed and disturbed numerals between other words; what is joined is compared with the path before joining and an independent reading of the numeral as an exact fraction, '
            'and every undivided stretch of numeral words that is a well-formed numeral has to be joined. Non-trivial: a numeral of three or more words was joined and a stretch that is not well-formed met.')
    quick = 550
    thorough = 12000

    def strategy(self, tier):
        return cases()

    def corpus(self, tier):
        # positions beyond 16 bits, many words in a numeral, many numerals
        words = [dict(h=c, p=NUMERAL, y='ヨ' + c) for c in '0123456789一二三十百千万億'] + [dict(h=c, p=2) for c in ',.'] + [dict(h='あ'), dict(h='長' * 50, c=-5000)]
        out = []
        for text in ([['長' * 50, 1320], ['12.5万あ1,000あ一億二千三百', 1]], [['1', 5000], ['あ1.0あ', 1]], [['1,000あ', 500], ['二十三', 1]], [['1.5.', 300]], [['12,345,678.9万あ一百', 200]], [['1', 1], [',000', 300]],
                     [['0.', 1], ['10', 1000]], [['一二', 700], ['万', 1]]):
            w = gen.fixed_world(words=words, rewrite=[['num', True]], inputs=['default'], unk=[['NUMERIC', 0, 0, 3000, 1], ['DEFAULT', 0, 0, 500, 0]], mat=dict(l=1, r=1, cells=[]))
            out.append({'w': w, 'numerals': [], 'texts': [text], 'mode': 'C'})
        return out

    def run(self, case, ctx):
        from sudachipy.tokenizer import Tokenizer
        self.parser(case['numerals'])
        w = case['w']
        normalize = w['rewrite'][0][1]
        labels = []
        with ctx.dir() as d:
            dic = world.make(w, d)
            m = world.analyser(w)
            before, after = probe.path_probe(), probe.path_probe()
            dic.path_rewrite_plugins.insert(0, before)
            dic.path_rewrite_plugins.append(after)
            with sut('create'):
                tok = dic.create()
            for text in map(gen.expand, case['texts']):
                if not text:
                    continue
                t = m.prepare(text)
                with sut('tokenize({!r})'.format(text)):
                    ml = tok.tokenize(text, getattr(Tokenizer.SplitMode, case['mode']))
                    pre, post = before.nodes, after.nodes
                    if case['mode'] == 'C':
                        forms = [x.normalized_form() for x in ml]
                        eq(forms, [x.norm for x in post], 'normalized forms of {!r}', text)
                self.check(m, t, pre, post, normalize, text, labels)
            tok = ml = None
            dic.close()
        return 'three words' in labels and 'not well-formed' in labels, labels

    def parser(self, strings):
        """The parser on its own: accepts exactly the well-formed numerals, with their values, one after the other."""
        from sudachipy.plugin.path_rewrite.numericparser import NumericParser
        p = NumericParser()
        for s in strings:
            with sut('parsing {!r}'.format(s)):
                p.clear()
                got = p.get_normalized() if all(p.append(c) for c in s) and p.done() else None
            v = numerals.value(s)
            if s and v and v[1]:
                require(got is not None, 'the numeral {} was refused', s)
                require(numerals.denotes(got, s, v[0]), '{} was read as {}, its value is {}', s, got, numerals.plain(v[0]))
            elif s:
                require(got is None, '{} was read as {} but is not a well-formed numeral', s, got)

    def check(self, m, t, pre, post, normalize, text, labels):
        where = {b: i for i, b in enumerate(texts.starts_of(t.text))}
        index = {n.begin: i for i, n in enumerate(pre)}
        joined = {}
        i = 0
        for n in post:
            require(i < len(pre) and n.begin == pre[i].begin, 'after joining numerals the words of {} are {}', text, post)
            if n.same(pre[i]):
                i += 1
                continue
            j = i
            while j < len(pre) and pre[j].end < n.end:
                j += 1
            require(j < len(pre) and pre[j].end == n.end, 'joined {} is no sequence of words of {}', n, pre)
            part = pre[i:j + 1]
            s = ''.join(x.norm for x in part)
            eq(part[0].pos, NUMERAL, 'part of speech of the first word joined into {} in {!r}', n, text)
            v = numerals.value(s)
            require(v is not None and v[1], '{} of {} was joined or rewritten into {} but {} is not a well-formed numeral', part, text, n, s)
            if normalize:
                require(numerals.denotes(n.norm, s, v[0]), '{} in {} got the normalized form {}, its value is {}', s, text, n.norm, numerals.plain(v[0]))
                require(len(part) > 1 or n.norm != part[0].norm, 'the single word {} was replaced although nothing changed', n)
            else:
                eq(n.norm, s, 'normalized form of joined {} in {!r}', part, text)
                require(len(part) > 1, 'the single word {} was rewritten without normalization', n)
            eq((n.surface, n.dform, n.reading, n.pos, n.oov, n.dic, n.syn, n.units),
               (''.join(x.surface for x in part), ''.join(x.dform for x in part), ''.join(x.reading for x in part), part[0].pos, False, -1, [], ([], [])),
               'surface, dictionary form, reading, part of speech, unknown mark, dictionary id, synonyms and units of joined {} in {!r}', part, text)
            joined[i] = j + 1
            labels.append('joined' if len(part) > 1 else 'single word normalized')
            if len(part) > 2:
                labels.append('three words')
            if v[0].denominator != 1:
                labels.append('decimal')
            i = j + 1
        eq(i, len(pre), 'words of {!r} accounted for', text)
        # stretches of numeral words
        def numeric(n):
            c = common(t, where[n.begin], where[n.end])
            return 'NUMERIC' in c or 'KANJINUMERIC' in c or n.norm in ('.', ',')
        i = 0
        while i < len(pre):
            if not numeric(pre[i]):
                i += 1
                continue
            j = i
            while j < len(pre) and numeric(pre[j]):
                j += 1
            end = j
            s = ''.join(x.norm for x in pre[i:end])
            v = numerals.value(s)
            if (v is None or not v[1]) and end - i > 1 and pre[end - 1].norm in ('.', ','):
                head = ''.join(x.norm for x in pre[i:end - 1])
                # the parser reads a second separator as a sign that none of them belongs to a numeral, except after a full group
                if '.' not in head and (',' not in head or head[-1] not in '十百千万億兆'):
                    end -= 1
                    s = head
                    v = numerals.value(s)
                    if v and v[1]:
                        labels.append('trailing separator')
            if v is None or not v[1]:
                labels.append('not well-formed')
            elif pre[i].pos == NUMERAL and all(x.norm for x in pre[i:end]):
                if end - i > 1:
                    require(joined.get(i) == end, 'the numeral {} in {} was not joined: {}', s, text, post)
                    labels.append('numeral')
                elif normalize:
                    got = joined.get(i)
                    require(got == end or got is None and numerals.denotes(pre[i].norm, s, v[0]), 'the numeral {} in {} was not normalized', s, text)
            i = j


CHECK = C13()
