"""C02: the analysis is a minimum-cost path and never uses a forbidden connection."""
from hypothesis import strategies as st

from vh import gen, model, world
from vh.core import Check, Violation, require, sut


@st.composite
def cases(draw):
    w = draw(gen.worlds(users=st.sampled_from([0, 0, 0, 1, 3]), refs=False, rewrite=[], safe=False, max_words=14, crowd=12,
                        oov=draw(gen.pick(['both', 'both', 'simple', 'mecab']))))
    if gen.chance(draw, 1, 6):
        # equal costs everywhere: only the number of words and the connections decide
        for lex in w['lex']:
            for x in lex:
                x['c'] = 0
    heavy = gen.chance(draw, 1, 12)
    if heavy:
        # totals of millions that differ by little
        for lex in w['lex']:
            for x in lex:
                x['c'] = (x.get('c') or 0) % 5 - 2
        w['mat']['cells'] = [[l, r, c if c == 0x7fff else c % 5 - 2] for l, r, c in w['mat']['cells']]
        w['lex'][0].append(dict(h='ゟ', c=draw(gen.pick([32767, -32768])), l=gen.lid(draw, w['mat']), r=gen.rid(draw, w['mat'])))
    ts = draw(st.lists(gen.texts(w), min_size=2, max_size=8))
    if heavy:
        ts = [[['ゟ', draw(gen.pick([515, 600, 1100]))], [t, 1]] for t in ts[:3]]
    return {'w': w, 'texts': ts}


def observed_choices(ml, m, t):
    """For each morpheme of a mode C result without joining, the candidates of the model it can be."""
    cand = m_lattice = None
    choices = []
    pos = 0
    for mo in ml:
        if mo.is_oov():
            end = pos + len(mo.normalized_form())
            pp = tuple(mo.part_of_speech())
            c = [n for n in m.candidates(t, pos) if n.kind == 'oov' and n.end == end and n.pos == pp]
        else:
            d, wid = mo.dictionary_id(), mo.word_id() & 0x0fffffff
            require(0 <= d < len(m.lexicons) and wid < len(m.lexicons[d]), 'no entry {} in dictionary {}', wid, d)
            end = pos + len(m.lexicons[d][wid].head)
            c = [n for n in m.candidates(t, pos) if n.kind == 'word' and n.end == end and n.dic == d and n.wid == wid]
        if not c:
            raise Violation('morpheme {!r} ({}..{}, dictionary {}, word {}) is not a candidate at its position in {!r}'.format(
                mo.surface(), pos, end, mo.dictionary_id(), mo.word_id(), t.text[:200]))
        choices.append(c)
        pos = end
    require(pos == len(t.text), 'the words cover {} of {} characters', pos, len(t.text))
    return choices


def prepare(dic, w):
    m = world.analyser(w)
    for k in range(1, len(m.lexicons)):
        for i, x in enumerate(m.lexicons[k]):
            if x.cost is None:
                with sut('get_cost'):
                    x.cost = dic.lexicon.get_cost(world.gid(k, i))
    return m


class C02(Check):
    id = 'C02'
    rule = ('Random dictionaries (ids, word costs and matrix over the 16-bit range, inhibited cells, ties), category and unknown-word '
            'definitions, with up to eight texts; the total cost of the returned words is compared with the minimum found by an independent '
            'dynamic programme over independently generated candidates. A text is non-trivial if it has at least two more candidates than words in the result; '
            'a case is if one of its texts is.')
    quick = 420
    thorough = 8000
    assumptions = []

    def strategy(self, tier):
        return cases()

    def corpus(self, tier):
        # totals beyond 31 bits in both directions, positions beyond 16 bits
        out = []
        for cost, cell, one, text in ((32767, 32000, 32767, [['あ', 67000]]), (-32768, -32768, -32768, [['あ', 33000]]), (32767, 32766, 32767, [['あい', 33400]]),
                                      (0, 0, -1, [['あ', 66000], ['い', 1]]), (1, -1, 0, [['あああい', 4000]])):
            w = gen.fixed_world(words=[dict(h='あ', c=one), dict(h='ああ', c=cost), dict(h='あい', c=cost)], inputs=[], rewrite=[], oov=[['simple', 0, 0, cost, 0]], mat=dict(l=1, r=1, cells=[[0, 0, cell]]))
            out.append({'w': w, 'texts': [text]})
        # long words against short ones
        for n in (100, 128, 300, 2000, 8000):
            w = gen.fixed_world(words=[dict(h='あ' * n, c=5), dict(h='あ' * (n - 1), c=-5), dict(h='あ', c=9)], inputs=[], rewrite=[], mat=dict(l=1, r=1, cells=[[0, 0, 2]]))
            out.append({'w': w, 'texts': [[['あ', n]], [['い', 3], ['あ', n - 1], ['い', 1]], [['あ', n + 7]]]})
        return out

    def run(self, case, ctx):
        w = case['w']
        labels = []
        nontrivial = False
        fallback = w['oov'][-1] != 'mecab'
        with ctx.dir() as d:
            dic = world.make(w, d)
            with sut('create'):
                tok = dic.create()
            m = prepare(dic, w)
            for text in map(gen.expand, case['texts']):
                if not text:
                    continue
                if len(text) > 30000:
                    labels.append('long text')
                t = m.prepare(text)
                expected = None
                try:
                    begins = m.lattice(t)
                    expected = m.best_cost(t, begins)
                except model.NoMorpheme:
                    labels.append('no morpheme')
                except model.NoPath:
                    labels.append('no path')
                try:
                    ml = tok.tokenize(text)
                except Exception as e:
                    if expected is not None:
                        raise Violation('tokenize({!r}) raised {}: {} although a path of cost {} exists'.format(text[:200], type(e).__name__, e, expected))
                    continue
                if expected is None:
                    if fallback:
                        raise Violation('tokenize({!r}) gave {} although every path is forbidden'.format(text[:200], [x.surface() for x in ml]))
                    # without a fallback provider only the optimality of what is returned is claimed
                    labels.append('analysed past a dead end')
                    continue
                with sut('reading the morphemes'):
                    choices = observed_choices(ml, m, t)
                cost = m.path_cost(choices)
                if cost is None:
                    raise Violation('the result of {!r} uses a forbidden connection: {}'.format(text[:200], [x.surface() for x in ml]))
                require(cost == expected, 'the result of {} costs {} but a path of cost {} exists: {}', text[:200], cost, expected,
                        [(x.surface(), x.dictionary_id(), x.word_id()) for x in ml])
                if sum(len(b) for b in begins.values()) >= len(choices) + 2:
                    nontrivial = True
                    labels.append('alternatives')
                if any(c == model.INHIBITED for c in m.matrix.values()):
                    labels.append('inhibited cells')
                if w['mat']['l'] != w['mat']['r']:
                    labels.append('non-square')
            dic.close()
        return nontrivial, labels


CHECK = C02()
