"""C11: a character has exactly the categories its definition gives it."""
from hypothesis import strategies as st

from vh import gen, model, texts, world
from vh.core import Check, eq, sut

BASES = [0x20, 0x41, 0x61, 0x3b1, 0x430, 0x3041, 0x30a1, 0x4e00, 0xff10, 0x1f600, 0x20bb7, 0, 0x10fff0, 0xe000]
CATS = [c for c in model.CATS]
ENDS = [0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffe, 0xffff, 0x10000, 0x1ffff, 0x20000, 0xfffff, 0x100000, 0x10fffe, 0x10ffff]


@st.composite
def cases(draw):
    base = draw(st.lists(st.sampled_from(BASES), min_size=1, max_size=3, unique=True))
    few = draw(st.lists(st.sampled_from(CATS), min_size=1, max_size=5, unique=True))
    lines = []
    edges = set()
    for _ in range(draw(gen.ints(1, 9)) if gen.chance(draw, 24, 25) else draw(gen.pick([40, 130, 300]))):
        lo = draw(gen.pick(base)) + draw(gen.ints(0, 12))
        width = draw(gen.pick([0, 0, 1, 2, 3, 5, 8, 12, 300]))
        hi = min(lo + width, 0x10ffff)
        if gen.chance(draw, 1, 12):
            lo, hi = 0, draw(gen.pick([0x10ffff, 0xffff, 0x7f]))
        if gen.chance(draw, 1, 10):
            lo = draw(gen.pick(ENDS))
            hi = min(lo + draw(gen.pick([0, 0, 1, 0xff, 0x10000])), 0x10ffff)
        cats = draw(st.lists(st.sampled_from(few), min_size=1, max_size=3))
        fmt = draw(gen.pick(['0x{:04X}', '0x{:04x}', '0x{:X}', '0x{:06x}']))
        line = fmt.format(lo)
        if hi > lo or gen.chance(draw, 1, 4):
            line += '..' + fmt.format(hi)
        sep = draw(gen.pick([' ', '\t', '  ', ' \t ']))
        line += sep + sep.join(cats)
        if gen.chance(draw, 1, 5):
            line += sep + draw(gen.pick(['# comment', '#comment KANJI', '# SPACE']))
        if gen.chance(draw, 1, 8):
            line += draw(gen.pick([' ', '\t']))
        lines.append(line)
        edges |= {lo - 1, lo, lo + 1, hi - 1, hi, hi + 1}
        if gen.chance(draw, 1, 6):
            lines.append(draw(gen.pick(['', '   ', '# comment', 'ALPHA 1 1 2', 'NOOOVBOW 0 0 0', '#0x0041 KANJI'])))
    probe = sorted(e for e in edges if 0 <= e <= 0x10ffff)
    probe += draw(st.lists(st.integers(0, 0x10ffff), max_size=5))
    chars = [c for c in probe if not 0xd800 <= c < 0xe000]
    text = draw(st.lists(st.sampled_from(chars), max_size=14)) if chars else []
    return {'def': '\n'.join(lines) + draw(gen.pick(['\n', ''])), 'probe': probe, 'text': ''.join(map(chr, text)),
            'pairs': draw(st.lists(st.tuples(st.integers(0, 50), st.integers(0, 50)), max_size=6))}


class C11(Check):
    id = 'C11'
    rule = ('Random character definitions of up to nine lines with nested, overlapping, touching, repeated and single-code-point ranges in any order; categories '
            'of every range edge and its neighbours and of random code points, and runs and word starts of texts over these, compared with the union over the lines. '
            'Non-trivial: some code point is covered by two or more lines with different categories and some by none.')
    quick = 1300
    thorough = 30000

    def strategy(self, tier):
        return cases()

    def corpus(self, tier):
        out = []
        some = [0, 0x20, 0x41, 0x3042, 0x10ffff]
        # definitions without ranges
        for d in ('', '\n', '# only a comment\n', 'DEFAULT 0 1 0\n', 'DEFAULT 0 1 0\nALPHA 1 1 0', '   \n\t\n'):
            out.append({'def': d, 'probe': some, 'text': 'aあ\U0010ffff', 'pairs': [[0, 1], [0, 3], [1, 2]]})
        # long runs
        d = '0x3041..0x3096 HIRAGANA\n0x3042 USER1\n0x4E00..0x4E10 KANJI NOOOVBOW\n0x41..0x7a ALPHA\n0x1F600 SYMBOL ALPHA\n'
        for n in (127, 128, 255, 256, 257, 341, 342, 511, 512, 1023, 1024, 1025, 2000):
            out.append({'def': d, 'probe': some, 'text': [['い', n], ['a', 1], ['\u4e00', min(n, 700)], ['x', min(n, 1100)], ['\U0001f600b', n // 4], ['あ', n], ['い', 1], ['Z', 1]], 'pairs': [[0, n], [1, n], [0, n + 1], [n, n + 1]]})
        out.append({'def': d, 'probe': some, 'text': [['い', 22000], ['a', 1], ['い', 400]], 'pairs': [[0, 22000], [21990, 22001]]})
        return out

    def run(self, case, ctx):
        from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder
        case = dict(case, text=gen.expand(case['text']))
        with ctx.dir() as d:
            p = d / 'char.def'
            p.write_text(case['def'], encoding='utf-8')
            cat = texts.category(p)
        ranges, _ = model.parse_chardef(case['def'])
        m = model.CharDef(ranges)
        multi = none = False
        for cp in case['probe']:
            with sut('categories of U+{:04X}'.format(cp)):
                got = {c.name for c in cat.get_category_types(cp)}
            exp = set(m.cats(chr(cp)))
            if got != exp:
                eq(sorted(got), sorted(exp), 'categories of U+{:04X} under {!r}', cp, case['def'])
            hits = [c for lo, hi, c in ranges if lo <= cp <= hi]
            multi = multi or len(set(hits)) > 1
            none = none or not hits
        labels = []
        t = model.Text(case['text'])
        t.cats = [m.cats(c) for c in t.text]
        t.runs = model.run_lengths(t.cats)
        t.starts = model.word_starts(t.cats)
        with sut('building {!r}'.format(case['text'])):
            inp = UTF8InputTextBuilder(case['text'], texts.Stub(cat)).build()
        bs = texts.starts_of(t.text)
        texts.check_categories(inp, t, bs)
        n = len(t.text)
        texts.check_ranges(inp, t, [tuple(sorted((a % (n + 1), b % (n + 1)))) for a, b in case['pairs']], bs)
        if not all(t.starts):
            labels.append('word start refused')
        if any(r > 1 for r in t.runs):
            labels.append('run')
        if any(t.cats[i] & t.cats[i + 1] and t.runs[i] == 1 for i in range(n - 1)):
            labels.append('run ends between characters that share a category')
        if multi:
            labels.append('overlap')
        return multi and none, labels


CHECK = C11()
