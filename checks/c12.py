"""C12: unknown-word candidates are exactly those the definitions call for."""
from hypothesis import strategies as st

from vh import gen, model, texts, world
from vh.core import Check, Violation, eq, require, short, sut

CATS = [c for c in model.CATS if c != 'NOOOVBOW']


@st.composite
def cases(draw):
    w = draw(gen.worlds(users=gen.pick([0, 0, 0, 1]), refs=False, rewrite=[], inhibit=False, safe=False, max_words=6,
                        oov=draw(gen.pick(['both', 'both', 'both', 'mecab', 'simple']))))
    if gen.chance(draw, 2, 3):
        # own categories for the characters of this world
        chars = sorted(set(w['alpha'] + draw(st.lists(gen.normal_char, max_size=4))))
        few = draw(st.lists(st.sampled_from(CATS), min_size=1, max_size=4, unique=True))
        lines = []
        for c in chars:
            if gen.chance(draw, 3, 4):
                cats = draw(st.lists(st.sampled_from(few), min_size=1, max_size=2, unique=True))
                if gen.chance(draw, 1, 5):
                    cats.append('NOOOVBOW')
                lines.append('0x{:04X} {}'.format(ord(c), ' '.join(cats)))
        lines.append('0x0020 SPACE')
        defined = sorted(set(few + ['DEFAULT', 'SPACE'])) if gen.chance(draw, 4, 5) else few
        for c in defined:
            lines.append('{} {} {} {}'.format(c, draw(gen.ints(0, 1)), draw(gen.ints(0, 1)), draw(gen.ints(0, 4))))
        w['chardef'] = '\n'.join(draw(st.permutations(lines))) + '\n'
        w['unk'] = []
        for c in defined:
            for _ in range(draw(gen.pick([0, 1, 1, 2, 3]))):
                w['unk'].append([c, gen.lid(draw, w['mat']), gen.rid(draw, w['mat']), draw(gen.costs), draw(gen.ints(0, 3))])
        w['unk'] = draw(st.permutations(w['unk']))
    return {'w': w, 'texts': draw(st.lists(gen.texts(w, long_=False), min_size=1, max_size=5))}


def make_probe():
    from sudachipy.plugin.path_rewrite import PathRewritePlugin

    class Probe(PathRewritePlugin):
        """Sees the candidates of an analysis."""

        def set_up(self, grammar):
            pass

        def rewrite(self, text, path, lattice):
            self.nodes = {}
            self.text = text
            for e in range(1, len(text.get_byte_text()) + 1):
                for n in lattice.get_nodes_with_end(e):
                    self.nodes.setdefault(n.get_begin(), []).append(n)

    return Probe()


def view(n, where, grammar):
    """A node of the code under test as a tuple in characters."""
    wi = n.get_word_info()
    if n.is_oov():
        pos = tuple(grammar.get_part_of_speech_string(wi.pos_id)) if 0 <= wi.pos_id < grammar.get_part_of_speech_size() else wi.pos_id
        return ('unknown', where.get(n.get_begin()), where.get(n.get_end()), n.get_left_id(), n.get_right_id(), n.get_path_cost(), pos,
                wi.surface, wi.normalized_form, wi.dictionary_form, wi.reading_form)
    return ('word', where.get(n.get_begin()), where.get(n.get_end()), n.get_left_id(), n.get_right_id(), n.get_path_cost(), n.get_word_id())


def expected(n, t):
    if n.kind == 'oov':
        s = t.text[n.begin:n.end]
        return ('unknown', n.begin, n.end, n.left, n.right, n.cost, n.pos, s, s, s, '')
    return ('word', n.begin, n.end, n.left, n.right, n.cost, world.gid(n.dic, n.wid))


def compare(got, exp, what):
    missing = exp - got
    extra = got - exp
    if missing or extra:
        raise Violation('{}: missing {}, not called for {}'.format(what, short(sorted(missing, key=repr)[:4]), short(sorted(extra, key=repr)[:4])))


class C12(Check):
    id = 'C12'
    rule = ('Random category settings (invoke, group, length 0 to 4; categories without settings or definitions; several definition lines; characters in several categories, '
            'characters at which no unknown word may start) and texts; the candidates offered by each provider at every position, with and without other words, and those in the lattice of an analysis '
            'are compared as sets with the ones the definitions call for. Non-trivial: in one case a group candidate, a prefix candidate, a candidate suppressed by a dictionary word.')
    quick = 400
    thorough = 8000

    def strategy(self, tier):
        return cases()

    def corpus(self, tier):
        # positions and byte counts beyond 16 bits
        words = [dict(h='長' * 40, c=-5000), dict(h='字' * 99, c=-5000), dict(h='あ')]
        chardef = '0x3042 HIRAGANA\n0x6771..0x6772 KANJI USER1\n0x0061..0x0063 ALPHA\nDEFAULT 0 1 0\nHIRAGANA 1 1 2\nKANJI 1 0 2\nUSER1 0 1 1\nALPHA 1 1 3\n'
        unk = [[c, 0, 1, 700 + i, i % 4] for i, c in enumerate(['DEFAULT', 'HIRAGANA', 'KANJI', 'USER1', 'ALPHA', 'ALPHA'])]
        tail = 'ああ東東東abcdabcあ東a長字'
        w = gen.fixed_world(words=words, unk=unk, chardef=chardef, oov=['mecab', ['simple', 1, 0, 900, 2]], inputs=[])
        out = []
        for text in ([['長' * 40, 560], [tail, 1]], [[tail + '字' * 99, 600], [tail, 3]]):
            out.append({'w': w, 'texts': [text], 'from': 40})
        # long runs, before a word and before other characters
        for n in (85, 86, 127, 128, 255, 256, 257, 342, 700):
            out.append({'w': w, 'texts': [[['a', n], [x, 1]] for x in ('あ', '!', 'あ' * n, '東a')] + [[['あ', n], ['!', 1]], [['東', n], ['a', n]]]})
            out.append({'w': dict(w, oov=[['simple', 1, 0, 900, 2]]), 'texts': [[['a', n], ['あ', 1]], [['東', n], ['!', n]]]})
        return out

    def run(self, case, ctx):
        w = case['w']
        labels = []
        with ctx.dir() as d:
            dic = world.make(w, d)
            from checks.c02 import prepare
            m = prepare(dic, w)
            probe = make_probe()
            dic.path_rewrite_plugins.append(probe)
            with sut('create'):
                tok = dic.create()
            require(len(dic.oov_provider_plugins) == len(m.oov), 'number of unknown-word providers')
            for text in map(gen.expand, case['texts']):
                if not text:
                    continue
                t = m.prepare(text)
                n = len(t.text)
                try:
                    begins = m.lattice(t)
                    m.best_cost(t, begins)
                except (model.NoMorpheme, model.NoPath):
                    begins = None
                try:
                    tok.tokenize(text)
                except Exception as e:
                    if begins is not None:
                        raise Violation('tokenize({!r}) raised {}: {}'.format(text[:200], type(e).__name__, e))
                    labels.append('no analysis')
                    continue
                if begins is None:
                    labels.append('analysed past a dead end')
                bs = texts.starts_of(t.text)
                where = {b: i for i, b in enumerate(bs)}
                for i in range(max(0, n - 3000) if 'from' in case else 0, n):
                    # each provider on its own, also where no word can start
                    for p, plugin in zip(m.oov, dic.oov_provider_plugins):
                        for other in (False, True):
                            with sut('get_oov({}, {}) in {!r}'.format(bs[i], other, t.text)):
                                got = {view(x, where, dic.grammar) for x in plugin.get_oov(probe.text, bs[i], other)}
                            exp = {expected(x, t) for x in m.provider(p, t, i, other)}
                            compare(got, exp, '{} candidates at character {} of {!r} ({} words)'.format(p if p == 'mecab' else 'fallback', i, t.text, 'with other' if other else 'without other'))
                if begins is None:
                    continue
                with sut('reading the candidates of {!r}'.format(t.text)):
                    seen = {where.get(b): {view(x, where, dic.grammar) for x in xs} for b, xs in probe.nodes.items()}
                require(set(seen) <= set(begins), 'candidates of {} begin at {} but words can begin only at {}', t.text, sorted(seen, key=repr), sorted(begins))
                for i in begins:
                    exp = {expected(x, t) for x in begins[i]}
                    compare(seen.get(i, set()), exp, 'candidates of the analysis at character {} of {!r}'.format(i, t.text))
                    oov = [x for x in begins[i] if x.kind == 'oov']
                    if len(oov) < len(begins[i]):
                        free = [y for p in m.oov for y in m.provider(p, t, i, False)]
                        if len(free) > len(oov):
                            labels.append('suppressed')
                    if 'NOOOVBOW' in t.cats[i]:
                        labels.append('forbidden start')
                    for x in oov:
                        if x.end - i == t.runs[i] and t.runs[i] > 1:
                            labels.append('group')
                        elif x.end - i < t.runs[i]:
                            labels.append('prefix')
            del tok
            dic.close()
        return {'suppressed', 'group', 'prefix'} <= set(labels), labels


CHECK = C12()
