"""C09: positions in rewritten text map back to the right original characters."""
import os

from hypothesis import strategies as st

from vh import gen, model, texts, world
from vh.core import Check, eq, require, sut

PIECES = ['あ', 'カ', '東', 'a', 'é', 'α', '😀', '𠮷', 'ー', '…', '1', ' ', '\u0301', '\x00', '\uffff', 'ﷺ', 'Ａ', 'ｶﾞ', 'abc', 'あいう', '𩸽𠮷', '東京都', 'аб'] + list(gen.EDGE)


@st.composite
def cases(draw):
    pieces = gen.pick([p for p in PIECES if p.isascii()] if gen.chance(draw, 1, 8) else PIECES)
    some = st.lists(pieces, min_size=0, max_size=8).map(''.join)
    text = draw(some)
    if gen.chance(draw, 1, 8):
        text += draw(st.text(gen.any_char, max_size=10))
    n = len(text)
    ops = []
    order = draw(gen.pick(['free', 'left', 'left', 'right']))
    if gen.chance(draw, 1, 60):
        text *= draw(gen.pick([20, 20, 20, 400]))
        n = len(text)
    at = 0
    limit = n
    for _ in range(draw(gen.ints(0, 9))):
        if n == 0:
            break
        if order == 'left':
            if at >= n:
                break
            b = draw(gen.ints(at, n - 1))
            e = draw(gen.ints(b + 1, min(n, b + 4)))
        elif order == 'right':
            if limit < 1:
                break
            e = draw(gen.ints(max(1, limit - 3), limit))
            b = draw(gen.ints(max(0, e - 4), e - 1))
        else:
            b = draw(gen.ints(0, n - 1))
            e = draw(gen.ints(b + 1, n))
        rep = draw(st.lists(pieces, min_size=1, max_size=3).map(''.join))
        if gen.chance(draw, 1, 8):
            rep = (rep + rep * (e - b))[:e - b]
        if gen.chance(draw, 1, 30):
            rep *= draw(gen.pick([20, 64, 70, 130, 300]))
        # the end may be given beyond the end of the text
        over = draw(gen.ints(1, 3)) if e == n and gen.chance(draw, 1, 6) else 0
        ops.append([b, e + over, rep])
        n += len(rep) - (e - b)
        at = b + len(rep)
        limit = b
    return {'text': text, 'ops': ops, 'build': draw(gen.pick([False, False, False, 0, 1, 2])), 'pairs': draw(st.lists(st.tuples(st.integers(0, 10 ** 6), st.integers(0, 10 ** 6)), max_size=6))}


class C09(Check):
    id = 'C09'
    rule = ('Random texts over characters of one to four bytes with up to nine replacements (left to right as the plugins do, right to left, or anywhere including inside '
            'earlier replacements; equal, longer and shorter); text, map to the original, substrings, counts, runs and word starts of the built text '
            'compared at every position with a character-level model. Non-trivial: at least two replacements, one of them changing the length, '
            'in a text with characters of different byte lengths.')
    quick = 3000
    thorough = 40000

    def strategy(self, tier):
        return cases()

    def corpus(self, tier):
        # positions beyond 16 bits
        out = []
        for text, ops in (([['あ', 66000], ['aい', 2]], [[66001, 66003, '…']]), ([['い', 66000], ['😀', 3]], [[3, 5, 'é'], [65530, 65540, '東'], [65985, 65988, 'abcdef']]), ([['é', 33000], ['aい', 2]], [[0, 1, 'ﷺあ']])):
            out.append({'text': text, 'ops': ops, 'build': False, 'sparse': True, 'pairs': [[65535, 65536], [65530, 65990], [32760, 33005], [0, 65990]]})
        # long replacements
        for n in (63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4000):
            for text, b, e in (('あaい', 1, 2), ('あaい', 0, 1), ('東京😀é', 1, 4), ('x', 0, 1), ('あ' * n, 0, n), ('あ' * n + 'b', 1, n)):
                out.append({'text': text, 'ops': [[b, e, 'ab' * (n // 2) + 'é' * (n % 2)], [0, 1, 'う'], [n // 2, n // 2 + 1, '…']], 'build': 1 if n % 2 == 0 else False, 'pairs': [[0, 1], [1, n], [n - 1, n], [b, n + 1]]})
        return out

    def setup(self):
        if not hasattr(self, 'cat'):
            path = os.path.join(os.environ['VERIF_SUT'], 'sudachipy', 'resources', 'char.def')
            self.cat = texts.category(path)
            self.model = world.parsed_chardef(world.resource('char.def'))[0]

    def compare(self, inp, t, case, what):
        bs = texts.check_positions(inp, t, what)
        n = len(t.text)
        pairs = [(0, n), (n, n)] + [tuple(sorted((a % (n + 1), b % (n + 1)))) for a, b in case['pairs']]
        texts.check_spans(inp, t, pairs, bs)
        if case.get('sparse'):
            return
        t.cats = [self.model.cats(c) for c in t.text]
        t.runs = model.run_lengths(t.cats)
        t.starts = model.word_starts(t.cats)
        texts.check_categories(inp, t, bs)
        texts.check_ranges(inp, t, pairs, bs)

    def run(self, case, ctx):
        from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder
        self.setup()
        labels = []
        case = dict(case, text=gen.expand(case['text']))
        with sut('building'):
            b = UTF8InputTextBuilder(case['text'], texts.Stub(self.cat))
        t = model.Text(case['text'])
        early = []

        def build(k):
            with sut('build'):
                x = b.build()
            frozen = model.Text(case['text'])
            frozen.text, frozen.origin = t.text, list(t.origin)
            early.append((k, x, frozen))
        if case['build'] is not False and case['build'] != 1:
            build(0)
        changed = False
        inside = False
        for i, (lo, hi, rep) in enumerate(case['ops']):
            what = 'replacements {} in {!r}'.format(case['ops'][:i + 1], case['text'])
            end = min(hi, len(t.text))
            begin_of, end_of = t.origin[lo], t.origin[end]
            before = t.text
            if t.origin[lo:end] != list(range(t.origin[lo], t.origin[lo] + end - lo)):
                inside = True
            t.pieces([(0, lo, None), (lo, end, rep), (end, len(t.text), None)])
            changed = changed or len(rep) != end - lo
            with sut('replace({}, {}, {!r}) in {!r}'.format(lo, hi, rep, before)):
                b.replace(lo, hi, rep)
            eq(b.get_text(), t.text, 'text after ' + what.replace('{', '{{').replace('}', '}}'))
            require((t.origin[lo], t.origin[lo + len(rep)]) == (begin_of, end_of), 'model')
            if case['build'] is not False and (case['build'] == 2 or i == 0):
                build(i + 1)
        with sut('build after {}'.format(case['ops'])):
            inp = b.build()
        require(t.origin[0] == 0 and t.origin[-1] == len(case['text']), 'model')
        self.compare(inp, t, case, 'replacements {} in {!r}'.format(case['ops'], case['text']).replace('{', '{{').replace('}', '}}'))
        for k, x, frozen in early:
            labels.append('built in between')
            self.compare(x, frozen, case, 'the first {} of replacements {} in {!r}'.format(k, case['ops'], case['text']).replace('{', '{{').replace('}', '}}'))
        sizes = {len(c.encode()) for c in t.text}
        if inside:
            labels.append('replaced a replacement')
        if len(t.text) > len(case['text']):
            labels.append('longer')
        if len(t.text) < len(case['text']):
            labels.append('shorter')
        return len(case['ops']) >= 2 and changed and len(sizes) > 1, labels


CHECK = C09()
