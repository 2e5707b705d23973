"""C10: input normalization follows the rewrite definition and nothing else."""
from hypothesis import strategies as st

from vh import gen, model, texts, world
from vh.core import Check, sut

KEYS = ['a', 'ab', 'abc', 'b', 'bc', 'か', 'か\u3099', 'が', 'がき', 'Ａ', 'Ａｂ', '…', '……', 'ﷺ', '①', '１', '１２', '😀', '😀𠮷', 'ー', 'ーー', 'α', 'Αβ', 'ﾊ', 'ﾊﾟ', 'ﾊﾟﾟ', '㈱', '(株)', 'ß', 'ſ',
        'abcabd', 'aaaaaaaaab', 'A', 'İ', 'c', 'd', 'aBc', 'aB', 'abcdefghijklmnop', 'abcdefghijklmnopq', 'ｱ' * 33, 'あ' * 130, 'a' * 300]
VALUES = ['長' * 40, 'x', 'ａ', 'A', 'あい', '𠮷', 'か', 'が', '1', 'ab', 'Ａｂ', '#', 'ﾊﾟ', 'longer text'.replace(' ', ''), 'ー', '😀😀😀', 'ı']
EXEMPT = ['α', 'ａ', 'ⅰ', 'Ⅰ', '①', '…', 'a', 'が', '㈱', 'ﾊ', 'ß', 'ｚ', '\u3099', 'é', 'ı', 'ſ', '﹢', 'ά']
EXTRA = ['A', 'B', 'Z', 'Ａ', 'Ｂ', 'Ⅰ', 'ⅰ', 'İ', 'ﬁ', 'Σ', 'ς', 'ǅ', '½', '㌔', '\u0301', '\u3099', 'ｶ', 'ﾞ', '　', '\n', '字', 'ẞ', 'Ά', 'ﾟ', 'K', 'Å', '豈', '가', 'ᄀ', 'ᅡ', '\x00', '\uffff', '\ufeff', 'ӑ', 'Ӑ', '👍🏽']


@st.composite
def definitions(draw):
    keys = draw(st.lists(st.sampled_from(KEYS), max_size=10, unique=True))
    lines = []
    for k in keys:
        lines.append('{}{}{}'.format(k, draw(gen.pick(['\t', ' ', '  \t'])), draw(st.one_of(st.sampled_from(VALUES), st.sampled_from(KEYS)))))
    lines += draw(st.lists(st.sampled_from(EXEMPT), max_size=5, unique=True))
    lines = draw(st.permutations(lines))
    out = []
    for l in lines:
        if gen.chance(draw, 1, 6):
            out.append(draw(gen.pick(['', '# comment', '#a b', '  ', '# x\ty z w'])))
        out.append(draw(gen.pick(['', '', ' '])) + l + draw(gen.pick(['', '', ' '])))
    return '\n'.join(out) + draw(gen.pick(['', '\n']))


@st.composite
def cases(draw):
    own = gen.chance(draw, 2, 3)
    if own:
        d = draw(definitions())
        keep, table = model.parse_rewrite(d)
        words = sorted(table) + sorted(keep) + [k[:-1] for k in sorted(table) if len(k) > 1] + [v for v in table.values()]
    else:
        d = None
        words = None
    parts = [(2, st.sampled_from(EXTRA)), (1, gen.special_char), (1, gen.any_char)]
    if words is not None:
        words = words or EXTRA
        parts.append((4, st.sampled_from(words)))
        parts.append((2, st.sampled_from(words).map(str.upper)))
    else:
        parts.append((4, st.integers(0, 10 ** 6)))
    ts = draw(st.lists(st.lists(gen.weighted(*parts), max_size=10), min_size=1, max_size=6))
    return {'def': d, 'texts': ts}


class C10(Check):
    id = 'C10'
    rule = ('The shipped rewrite definition and generated ones (overlapping and nested sequences, sequences that are also exempt, prefixes of longer ones, replacements that would '
            'themselves be rewritten), and texts of whole, cut and upper-cased sequences, compatibility characters, multi-character lower cases and arbitrary characters; result and map to the '
            'original compared with a character-level model at every position. Non-trivial: a text in which a sequence of two or more characters or an exempt character occurs and the length changes.')
    quick = 1400
    thorough = 20000

    def strategy(self, tier):
        return cases()

    def corpus(self, tier):
        # positions beyond 16 bits
        out = []
        for p in (['あ', 65534], ['Ａ', 65535], ['㌔あ', 22000], ['か\u3099', 33000]):
            out.append({'def': None, 'texts': [[p, 'か\u3099', '…', 'Ⅰ', 'ﬁ', 'x', 'ｶﾞ']]})
            out.append({'def': 'ab\tあいう\nか\u3099 が\nⅰ\n', 'texts': [[p, 'か\u3099', 'ab', 'Ⅰ', 'abab', 'ﬁ', 'x']]})
        return out

    def run(self, case, ctx):
        import os
        from sudachipy.plugin.input_text import DefaultInputTextPlugin
        from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder
        if not hasattr(self, 'cat'):
            self.cat = texts.category(os.path.join(os.environ['VERIF_SUT'], 'sudachipy', 'resources', 'char.def'))
            self.model = world.parsed_chardef(world.resource('char.def'))[0]
            self.shipped = None
        labels = []
        if case['def'] is None:
            if self.shipped is None:
                self.shipped = DefaultInputTextPlugin()
                with sut('set_up'):
                    self.shipped.set_up()
            plugin = self.shipped
            keep, table = world.rewrite_def()
            labels.append('shipped definition')
            keys = sorted(table) + sorted(keep)
        else:
            with ctx.dir() as d:
                p = d / 'rewrite.def'
                p.write_text(case['def'], encoding='utf-8')
                plugin = DefaultInputTextPlugin()
                with sut('reading the rewrite definition {!r}'.format(case['def'])):
                    plugin.read_rewrite_lists(str(p))
            keep, table = model.parse_rewrite(case['def'])
        for parts in case['texts']:
            text = ''.join(keys[x % len(keys)] if isinstance(x, int) else x[0] * x[1] if isinstance(x, list) else x for x in parts)
            b = UTF8InputTextBuilder(text, texts.Stub(self.cat))
            t = model.Text(text)
            rep = model.normalize_parts(text, keep, table)
            t.pieces(rep)
            with sut('normalizing {!r}'.format(text)):
                plugin.rewrite(b)
                inp = b.build()
            texts.check_positions(inp, t, 'normalizing {!r}'.format(text).replace('{', '{{').replace('}', '}}'))
            long = any(r is not None and e - s > 1 for s, e, r in rep)
            if long:
                labels.append('sequence replaced')
            ex = any(c.lower() in keep for c in text)
            if ex:
                labels.append('exempt character')
            if (long or ex) and len(t.text) != len(text):
                labels.append('nontrivial')
        return 'nontrivial' in labels, labels


CHECK = C10()
