"""C23: plugins act in the configured order, each on what the previous ones left."""
from hypothesis import strategies as st

from checks import c12, c13, c14
from vh import gen, model, numerals, probe, texts, world
from vh.core import Check, Violation, eq, require, sut

KATA = c14.KATA + c14.LEAD
DIGITS = '0123456789'


def psm_of(draw):
    """Marks that other plugins of the chain also touch."""
    return ['psm', draw(st.lists(gen.pick(list('ー〜-０0１1ァｱア万円aＡ')), min_size=1, max_size=4, unique=True)), draw(gen.pick(['ー', '-', '1', '１', 'ア', 'ｱ', 'Ａ', '万']))]


@st.composite
def cases(draw):
    w = draw(c13.cases())['w']
    lex = w['lex'][0]
    for h in draw(st.lists(st.text(st.sampled_from(KATA), min_size=1, max_size=3), max_size=5)):
        lex.append(dict(h=h, c=draw(gen.pick([-100, 0, 50, 300])), p=draw(gen.pick([0, 0, 1])), y='ヨミ', n=draw(gen.pick([h, h, '1', '十', '正']))))
    for x in lex:
        x.pop('a', None)
    w['inputs'] = ['default' if gen.chance(draw, 1, 2) else psm_of(draw) for _ in range(draw(gen.pick([0, 1, 2, 2, 3, 4])))]
    w['rewrite'] = [['num', draw(st.booleans())] if gen.chance(draw, 1, 2) else ['kata', draw(gen.ints(0, 3)), draw(gen.ints(0, 3))] for _ in range(draw(gen.pick([0, 1, 2, 2, 3, 4])))]
    cats = ['NUMERIC', 'KANJINUMERIC', 'KATAKANA', 'DEFAULT', 'KANJI', 'HIRAGANA', 'ALPHA', 'SYMBOL']
    if gen.chance(draw, 1, 2):
        w['unk'] = [[c, 0, 0, draw(gen.ints(-50, 400)), draw(gen.ints(0, 3))] for c in draw(st.lists(gen.pick(cats), max_size=4))]
    w['unk2'] = [[c, 0, 0, draw(gen.ints(-50, 400)), draw(gen.ints(0, 3))] for c in draw(st.lists(gen.pick(cats), max_size=4))]
    w['oov'] = [draw(gen.pick(['mecab', 'mecab2', None])) or ['simple', 0, 0, draw(gen.pick([-500, 100, 400])), draw(gen.ints(0, 3))] for _ in range(draw(gen.ints(0, 3)))]
    w['oov'].append(['simple', 0, 0, 900, draw(gen.ints(0, 3))])
    if gen.chance(draw, 1, 3):
        # user words whose cost is computed with these plugins
        w['lex'].append([dict(h=draw(st.one_of(c13.texts_(), st.text(st.sampled_from(KATA + DIGITS + '〜ＡA'), min_size=1, max_size=6)).filter(bool)), c=-32768, p=0) for _ in range(draw(gen.ints(1, 2)))])
    frag = st.one_of(c13.texts_(), st.text(st.sampled_from(KATA), min_size=1, max_size=5), st.text(st.sampled_from('ー〜-０0１1ァｱア万円aＡ'), min_size=1, max_size=4), gen.pick(c13.OTHER))
    return {'w': w, 'texts': draw(st.lists(st.lists(frag, min_size=1, max_size=4).map(''.join), min_size=1, max_size=5))}


def recorders(dic):
    """Recording plugins around every plugin of the dictionary. Returns (input, unknown-word, path) recorders."""
    from sudachipy.plugin.input_text import InputTextPlugin
    from sudachipy.plugin.oov import OovProviderPlugin

    class Input(InputTextPlugin):
        def set_up(self):
            pass

        def rewrite(self, builder):
            self.text = builder.get_text()

    class Unknown(OovProviderPlugin):
        def __init__(self):
            self.asked = {}

        def set_up(self, grammar):
            pass

        def provide_oov(self, input_text, offset, has_other_words):
            self.asked[offset] = bool(has_other_words)
            return []

    def around(plugins, make, last):
        rec = [make() for _ in range(len(plugins) + last)]
        for i, r in enumerate(rec):
            plugins.insert(2 * i, r)
        return rec
    return around(dic.input_text_plugins, Input, 1), around(dic.oov_provider_plugins, Unknown, 0), around(dic.path_rewrite_plugins, probe.path_probe, 1)


class C23(Check):
    id = 'C23'
    rule = ('Chains of up to four input-text plugins (with marks that other plugins of the chain produce), up to four unknown-word providers with different definitions and up to four joining plugins with '
            'different settings, repeats included; recording plugins between all of them; the text after each input plugin, the candidates and what each provider was told, and each step from path to path are compared with the '
            'models of the single plugins applied in configured order. Non-trivial: two input plugins changed a text, or two joining plugins changed a path, or three or more providers.')
    quick = 500
    thorough = 6000

    def strategy(self, tier):
        return cases()

    def run(self, case, ctx):
        w = case['w']
        labels = []
        with ctx.dir() as d:
            dic = world.make(w, d)
            m = world.analyser(w)
            eq((len(dic.input_text_plugins), len(dic.oov_provider_plugins), len(dic.path_rewrite_plugins)), (len(w['inputs']), len(w['oov']), len(w['rewrite'])), 'numbers of plugins')
            self.costs(dic, m, labels)
            ins, unks, paths = recorders(dic)
            numeric, kata = c13.CHECK, c14.CHECK
            with sut('create'):
                tok = dic.create()
            for text in case['texts']:
                if not text:
                    continue
                with sut('tokenize({!r})'.format(text)):
                    for u in unks:
                        u.asked.clear()
                    ml = tok.tokenize(text)
                    shown = [(x.surface(), x.normalized_form(), bool(x.is_oov())) for x in ml]
                # input plugins
                changed = 0
                for k in range(len(w['inputs']) + 1):
                    m.inputs = w['inputs'][:k]
                    want = m.prepare(text)
                    eq(ins[k].text, want.text, 'text after {} of the input plugins {} on {!r}', k, w['inputs'], text)
                    changed += k > 0 and want.text != ins[k - 1].text
                t = want
                if changed > 1:
                    labels.append('two input plugins')
                # candidates and what the providers are told
                begins = m.lattice(t)
                bs = texts.starts_of(t.text)
                where = {b: i for i, b in enumerate(bs)}
                self.providers(m, t, begins, bs, unks, w, labels)
                seen = {}
                for (b, e), ns in paths[0].lattice.items():
                    for n in ns:
                        pos = tuple(dic.grammar.get_part_of_speech_string(n.pos)) if n.oov else n.wid
                        seen.setdefault(where.get(b), []).append((where.get(e), n.oov, n.cost, repr(pos)))
                for i in set(begins) | set(seen):
                    exp = sorted({(x.end, x.kind == 'oov', x.cost, repr(x.pos if x.kind == 'oov' else world.gid(x.dic, x.wid))) for x in begins.get(i, [])})
                    eq(sorted(set(seen.get(i, []))), exp, 'candidates at character {} of {!r}', i, t.text)
                # joining plugins, one step each
                moved = 0
                for k, p in enumerate(w['rewrite']):
                    pre, post = paths[k].nodes, paths[k + 1].nodes
                    if p[0] == 'num':
                        numeric.check(m, t, pre, post, p[1], text, [])
                    else:
                        kata.check(t, pre, post, paths[k].lattice, p[1], p[2], text, [])
                    moved += [x.key() for x in pre] != [x.key() for x in post]
                if moved > 1:
                    labels.append('two joining plugins')
                last = paths[-1].nodes
                eq(shown, [(text[t.origin[where[x.begin]]:t.origin[where[x.end]]], x.norm, x.oov) for x in last], 'morphemes of {!r} compared with the path after the last plugin', text)
            tok = ml = None
            dic.close()
        if len(w['oov']) > 2:
            labels.append('three providers')
        return bool({'two input plugins', 'two joining plugins', 'three providers'} & set(labels)), labels

    def costs(self, dic, m, labels):
        full = m.lexicons
        if len(full) < 2:
            return
        m.lexicons, m._index = full[:1], None
        for i, x in enumerate(full[1]):
            with sut('get_cost'):
                got = dic.lexicon.get_cost(world.gid(1, i))
            t = m.prepare(x.surface)
            ok = {max(-32768, min(32767, last - first - 20 * n)) for first, last, n in m.optimal_ends(t, m.lattice(t))}
            require(got in ok, 'computed cost of {} is {}, should be {}', x.surface, got, sorted(ok))
            x.cost = got
            labels.append('computed cost')
        m.lexicons, m._index = full, None

    def providers(self, m, t, begins, bs, unks, w, labels):
        for i in begins:
            forbidden = 'NOOOVBOW' in t.cats[i]
            found = any(x.kind == 'word' for x in begins[i])
            if forbidden:
                continue
            for k, (u, p) in enumerate(zip(unks, m.oov)):
                require(bs[i] in u.asked, 'provider {} was not asked at character {} of {!r}', k, i, t.text)
                eq(u.asked[bs[i]], found, 'what provider {} was told about other words at character {} of {!r}', k, i, t.text)
                found = found or bool(m.provider(p, t, i, found))


CHECK = C23()
