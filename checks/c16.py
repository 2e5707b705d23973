"""C16: connection costs are those of the matrix definition."""
import json
import mmap

from hypothesis import strategies as st

from checks.c02 import observed_choices, prepare
from vh import gen, model, world
from vh.core import Check, Violation, eq, require, sut

SMALL = st.integers(1, 7)
SIZES = gen.weighted((6, st.tuples(SMALL, SMALL)), (2, st.tuples(st.integers(1, 60), st.integers(1, 60))), (1, st.tuples(st.sampled_from([1, 2]), st.sampled_from([127, 128, 129, 255, 256, 257, 1000]))),
                     (1, st.tuples(st.sampled_from([127, 128, 129, 255, 256, 257, 1000]), st.sampled_from([1, 2]))))
VALUES = gen.weighted((3, st.integers(-32768, 32767)), (3, st.integers(-300, 300)), (1, st.sampled_from([-32768, -1, 0, 1, 127, 128, 255, 256, 32766, 32767])))


def cell(l, r):
    return st.tuples(st.one_of(st.integers(0, l - 1), st.sampled_from([0, l - 1])), st.one_of(st.integers(0, r - 1), st.sampled_from([0, r - 1])))


@st.composite
def cases(draw):
    if gen.chance(draw, 1, 3):
        # the costs as they act in an analysis
        w = draw(gen.worlds(users=st.sampled_from([0, 0, 1]), refs=False, rewrite=[], safe=False, max_words=12, oov='both', wide=None, inputs=draw(gen.pick([[], ['default']]))))
        l, r = w['mat']['l'], w['mat']['r']
        # close costs: the connections decide
        for lex in w['lex']:
            for x in lex:
                x['c'] = draw(gen.ints(-20, 20))
        val = gen.weighted((6, st.integers(-200, 200)), (1, st.just(0x7fff)), (1, st.sampled_from([-32768, -32767, 32766])))
        w['mat']['cells'] = [[a, b, draw(val)] for a in range(l) for b in range(r) if gen.chance(draw, 5, 6)]
        edits = draw(st.lists(st.tuples(st.sampled_from(['set', 'inhibit', 'pairs']), cell(l, r), val), max_size=6))
        ts = draw(st.lists(gen.texts(w, long_=False), min_size=2, max_size=6))
        return {'w': w, 'edits': edits, 'texts': ts, 'style': draw(gen.ints(0, 2 ** 30))}
    l, r = draw(SIZES)
    k = draw(gen.ints(0, 3))
    if k == 0 and l * r <= 3600:
        vals = draw(st.lists(VALUES, min_size=1, max_size=60))
        cells = [[i % l, i // l, vals[(i * 7) % len(vals)] if i >= len(vals) else vals[i]] for i in range(l * r)]
    else:
        cells = draw(st.lists(st.tuples(cell(l, r), VALUES).map(lambda c: [c[0][0], c[0][1], c[1]]), max_size=25))
    if gen.chance(draw, 1, 2):
        cells = draw(st.permutations(cells)) if len(cells) < 50 else cells[::-1]
    if cells and gen.chance(draw, 1, 3):
        # pairs that are listed again
        for _ in range(draw(gen.ints(1, 4))):
            c = draw(st.sampled_from(list(cells)))
            cells = [*cells, [c[0], c[1], draw(gen.pick([0, c[2], -c[2] if c[2] > -32768 else 0, 5, -1]))]]
    edits = draw(st.lists(st.tuples(st.sampled_from(['set', 'inhibit', 'pairs']), cell(l, r), VALUES), max_size=8))
    return {'mat': dict(l=l, r=r, cells=[list(c) for c in cells]), 'edits': edits, 'style': draw(gen.ints(0, 2 ** 30))}


def styled(mat, seed):
    """The definition with blank lines, comments and any white space between the columns."""
    import random
    rnd = random.Random(seed)
    plain = rnd.random() < 0.2
    out = [rnd.choice(['{} {}', '{}\t{}', ' {}  {} '] if not plain else ['{} {}']).format(mat['l'], mat['r'])]
    for c in mat['cells']:
        if not plain and rnd.random() < 0.15:
            out.append(rnd.choice(['', '  ', '#', '# 0 0 5', '#0 0 99', '\t']))
        s = rnd.choice(['{} {} {}', '{}\t{}\t{}', '  {} {}   {} ', '{} \t{} {}']) if not plain else '{} {} {}'
        out.append(s.format(*c))
    return '\n'.join(out) + rnd.choice(['\n', '', '\n\n'])


class C16(Check):
    id = 'C16'
    rule = ('Matrix definitions of all shapes (square or not, complete or sparse, with comments, blank lines and any white space, values over the 16-bit range), every cell of the built '
            'grammar compared with the definition, then up to eight edits (single costs, single inhibitions, the plugin with a list of pairs) on a private copy with every cell compared '
            'again; for one case in three, analyses with the edited grammar compared with an independent minimum over the edited costs. '
            'Non-trivial: the matrix is not square and has two or more different costs, or an edit was made.')
    quick = 900
    thorough = 20000

    def strategy(self, tier):
        return cases()

    def corpus(self, tier):
        # sizes of real dictionaries and beyond
        out = []
        for l, r in ((6000, 6000), (3000, 3001), (300, 32767), (32767, 300), (4097, 2050)):
            cells = [[0, 0, 3], [l - 1, r - 1, -5], [l - 1, 0, 7], [0, r - 1, 11], [l // 2, r // 3, -32768], [5, r - 2, 32766], [l - 2, 5, 13]]
            out.append({'mat': dict(l=l, r=r, cells=cells), 'edits': [['set', [l - 2, r - 2], 99], ['inhibit', [l - 3, r - 1], 0]], 'style': l * 31 + r})
        return out

    def run(self, case, ctx):
        from sudachipy.dictionarylib import BinaryDictionary
        from sudachipy.dictionarylib.grammar import Grammar
        w = case.get('w')
        mat = w['mat'] if w else case['mat']
        labels = []
        with ctx.dir() as d:
            path = str(d / 'system.dic')
            text = styled(mat, case['style'])
            if w:
                world.write_definitions(w, d)
                rows = [world.columns(w, 0, x) for x in world.entries(w, 0)]
            else:
                rows = [['あ', '0', '0', '0', 'あ', '名詞', '普通名詞', '一般', '*', '*', '*', 'ア', 'あ', '*', 'A', '*', '*', '*']]
            with sut('building with the matrix {!r}'.format(text[:300])):
                world.build_system(path, rows, text)
            if w:
                for k in range(1, len(w['lex'])):
                    with sut('building user dictionary'):
                        world.build_user(str(d / 'user{}.dic'.format(k)), [world.columns(w, k, x) for x in world.entries(w, k)], path)
            before = open(path, 'rb').read()
            want = {(l, r): c for l, r, c in mat['cells']}
            with sut('reading the dictionary'):
                bd = BinaryDictionary.from_system_dictionary(path)
                self.compare(bd.grammar, mat, want, 'matrix {!r}'.format(text[:300]))
                offset = bd.header.storage_size()
                lexicon_size = bd.lexicon.size()
                bd.close()
            eq(lexicon_size, len(rows), 'words after a matrix {} x {}', mat['l'], mat['r'])
            # edits act on a private copy
            with open(path, 'rb') as f:
                data = mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_COPY)
            with sut('reading the grammar'):
                g = Grammar(data, offset)
            self.edits(g, want, case['edits'], labels, d)
            self.compare(g, mat, want, 'matrix {!r} after the edits {}'.format(text[:300], case['edits']))
            if w:
                self.analyse(w, d, g, want, case['texts'], labels)
            with sut('reading the dictionary again'):
                bd = BinaryDictionary.from_system_dictionary(path)
                self.compare(bd.grammar, mat, {(l, r): c for l, r, c in mat['cells']}, 'the dictionary after a copy was edited')
                bd.close()
            eq(open(path, 'rb').read() == before, True, 'the dictionary file is as it was')
        if mat['l'] != mat['r']:
            labels.append('not square')
        if not w and len(mat['cells']) < mat['l'] * mat['r']:
            labels.append('sparse')
        return 'edited' in labels or ('not square' in labels and len(set(want.values())) > 1), labels

    def compare(self, g, mat, want, what):
        what = what.replace('{', '{{').replace('}', '}}')
        big = mat['l'] * mat['r'] > 1 << 20
        if big:
            # the listed cells, those a number of fewer bits would mean, and others
            n = mat['l'] * mat['r']
            some = {l + mat['l'] * r for l, r in want}
            some |= {x & (1 << k) - 1 for x in some for k in range(14, 31)} | {x ^ 1 << k for x in some for k in range(31)} | set(range(0, n, max(1, n // 5000)))
            for x in some:
                l, r = x % mat['l'], x // mat['l']
                if r < mat['r']:
                    c = g.get_connect_cost(l, r)
                    if c != want.get((l, r), 0):
                        raise Violation('cost of the pair {} {} of {}: got {} expected {}'.format(l, r, what, c, want.get((l, r), 0)))
            return
        for r in range(mat['r']):
            for l in range(mat['l']):
                c = g.get_connect_cost(l, r)
                if c != want.get((l, r), 0):
                    raise Violation('cost of the pair {} {} of {}: got {} expected {}'.format(l, r, what, c, want.get((l, r), 0)))

    def edits(self, g, want, edits, labels, d):
        from sudachipy import config
        from sudachipy.plugin.connect_cost import InhibitConnectionPlugin
        pairs = []
        for kind, (l, r), c in edits:
            labels.append('edited')
            if kind == 'set':
                with sut('set_connect_cost({}, {}, {})'.format(l, r, c)):
                    g.set_connect_cost(l, r, c)
                want[l, r] = c
            elif kind == 'inhibit':
                with sut('inhibit_connection({}, {})'.format(l, r)):
                    InhibitConnectionPlugin.inhibit_connection(g, l, r)
                want[l, r] = 0x7fff
            else:
                pairs.append([l, r])
            eq(g.get_connect_cost(l, r), want.get((l, r), 0), 'cost of the pair {} {} after {}', l, r, kind)
        if pairs:
            labels.append('plugin')
            p = d / 'pairs.json'
            p.write_text(json.dumps({'systemDict': 'system.dic', 'inhibitedPair': pairs}))
            with sut('the plugin with the pairs {}'.format(pairs)):
                config.settings.set_up(str(p))
                plugin = InhibitConnectionPlugin()
                plugin.set_up(g)
                plugin.edit(g)
            for l, r in pairs:
                want[l, r] = 0x7fff

    def analyse(self, w, d, g, want, texts, labels):
        dic = world.open_dictionary(d)
        m = prepare(dic, w)
        m.matrix = want
        with sut('using the edited grammar'):
            g.set_character_category(dic.grammar.get_character_category())
            g.pos_list = dic.grammar.pos_list
            dic.grammar = g
            tok = dic.create()
        for text in texts:
            if not text:
                continue
            t = m.prepare(text)
            try:
                expected = m.best_cost(t, m.lattice(t))
            except model.NoPath:
                continue
            with sut('tokenize({!r}) although a path of cost {} exists'.format(text[:200], expected)):
                ml = tok.tokenize(text)
                choices = observed_choices(ml, m, t)
            cost = m.path_cost(choices)
            require(cost == expected, 'the result of {} costs {} by the matrix definition but a path of cost {} exists: {}', text[:200], cost, expected,
                    [(x.surface(), x.dictionary_id(), x.word_id()) for x in ml])
            labels.append('analysis')
        tok = ml = None
        dic.close()


CHECK = C16()
