"""C14: katakana unknown words are joined maximally and only them."""
from hypothesis import strategies as st

from checks.c13 import common
from vh import gen, model, probe, texts, world
from vh.core import Check, eq, require, sut

LEAD = 'ァャーヵ'                 # katakana at which the shipped definition starts no unknown word
KATA = 'アイウカ'
OTHER = ['東', '京', 'あ', 'a', '1', '、', '𠮷']


@st.composite
def cases(draw):
    chars = draw(st.lists(gen.pick(KATA), min_size=1, max_size=3, unique=True)) + draw(st.lists(gen.pick(LEAD), max_size=2, unique=True))
    # katakana of other than three bytes
    wide = draw(gen.pick([[], [], [], [], ['\U0001b000'], ['\u0710'], ['\U0001b000', '\u0710']]))
    chars += wide
    lex = [dict(h='基', l=-1, r=-1, p=i) for i in range(4)]
    mat = draw(gen.matrices(max_size=3, inhibit=False))
    for h in draw(st.lists(st.text(st.sampled_from(chars), min_size=1, max_size=4), max_size=9)):
        e = dict(h=h, l=draw(gen.ints(0, mat['r'] - 1)), r=draw(gen.ints(0, mat['l'] - 1)), c=draw(gen.pick([-100, 0, 50, 300, 1000])), p=draw(gen.ints(0, 3)), y='ヨミ')
        if gen.chance(draw, 1, 4):
            e['n'] = '正' + h
        if gen.chance(draw, 1, 8):
            e['s'] = '表' + h
        lex.append(e)
    others = draw(st.lists(gen.pick(OTHER), min_size=1, max_size=3, unique=True))
    for c in others:
        if gen.chance(draw, 2, 3):
            lex.append(dict(h=c, c=draw(gen.ints(-50, 50)), p=0))
    if gen.chance(draw, 1, 3):
        # words of katakana and other characters
        lex.append(dict(h=draw(gen.pick(chars)) + draw(gen.pick(others)), c=draw(gen.pick([-500, 0])), p=0))
    if gen.chance(draw, 1, 5):
        lex[4:] = [dict(x, a=['0', '1']) if gen.chance(draw, 1, 3) else x for x in lex[4:]]
    ids = (draw(gen.ints(0, mat['r'] - 1)), draw(gen.ints(0, mat['l'] - 1)))
    unk = [['KATAKANA', ids[0], ids[1], draw(gen.pick([-200, 0, 200, 2000])), draw(gen.ints(0, 3))] for _ in range(draw(gen.ints(0, 2)))]
    unk += [['DEFAULT', 0, 0, 500, 0], ['KANJI', 0, 0, 400, 0]]
    chardef = world.resource('char.def')
    k = draw(gen.ints(0, 3))
    if k:
        # shipped: groups of any length and prefixes of up to two
        new = {1: 'KATAKANA 1 0 {}'.format(draw(gen.ints(1, 3))), 2: 'KATAKANA 0 {} {}'.format(draw(gen.ints(0, 1)), draw(gen.ints(0, 3))), 3: 'KATAKANA 0 0 1'}[k]
        chardef = '\n'.join(new if l.split()[:1] == ['KATAKANA'] else l for l in chardef.split('\n'))
    chardef += ''.join('\n0x{:04X} KATAKANA\n'.format(ord(c)) for c in wide)
    if gen.chance(draw, 1, 4):
        # a katakana character in a second category shared with others
        chardef += '\n0x{:04X} USER1 KATAKANA\n0x{:04X} USER1\n'.format(ord(draw(gen.pick(chars))), ord(draw(gen.pick([c for c in others if c != 'a'] or ['東']))))
    minlen = draw(gen.ints(0, 4))
    w = {'pos': [list(p) for p in world.BASE_POS], 'mat': mat, 'lex': [lex], 'unk': unk, 'chardef': chardef, 'alpha': chars,
         'oov': draw(gen.pick([['mecab', ['simple', 0, 0, 600, 2]], ['mecab', ['simple', 0, 0, 600, 2]], [['simple', 0, 0, draw(gen.pick([-300, 300])), 2]]])),
         'inputs': draw(gen.pick([[], [], ['default']])), 'rewrite': [['kata', minlen, draw(gen.ints(0, 3))]]}
    frag = st.one_of(st.sampled_from(chars), st.sampled_from(chars), st.sampled_from([x['h'] for x in lex[4:]] or chars), st.sampled_from(others))
    ts = draw(st.lists(st.lists(frag, min_size=1, max_size=10).map(''.join), min_size=1, max_size=7))
    if w['inputs'] and gen.chance(draw, 1, 2):
        ts = [t.replace('ア', 'ｱ').replace('ガ', 'ｶﾞ') for t in ts]
    return {'w': w, 'texts': ts, 'nomin': minlen == 1 and gen.chance(draw, 1, 2)}


class C14(Check):
    id = 'C14'
    rule = ('Lexicons of short katakana words (with characters that may not start an unknown word), minimum lengths 0 to 4, categories with grouping and prefixes on and off, and '
            'texts of katakana among other words; the path after joining compared with the one computed from the path before it and the candidates of the analysis. '
            'Non-trivial: in one case a sequence of three or more words or one with a leading word left outside was joined, and some katakana word was left alone.')
    quick = 900
    thorough = 12000

    def strategy(self, tier):
        return cases()

    def corpus(self, tier):
        # positions beyond 16 bits, long sequences, many sequences
        words = [dict(h='ア', y='ヨ'), dict(h='イ', y='ヨ'), dict(h='あ'), dict(h='長' * 50, c=-5000), dict(h='カイ', c=-100)]
        out = []
        for text in ([['長' * 50, 1320], ['あアイウカ', 2]], [['アイ', 16], ['あ', 1]], [['アイ', 300], ['あウ', 1]], [['カイ', 20], ['あアイ', 300]], [['アイウあ', 300]], [['ア', 33], ['長' * 50, 1]], [['ァイアあ', 64]], [['ーァイア', 64]]):
            for minlen, c in ((1, 5000), (3, 5000), (1, -300)):
                w = gen.fixed_world(words=words, rewrite=[['kata', minlen, 0]], inputs=[], oov=['mecab', ['simple', 0, 0, 900, 0]], unk=[['KATAKANA', 0, 0, c, 0], ['DEFAULT', 0, 0, 500, 0]], mat=dict(l=1, r=1, cells=[]))
                w['chardef'] = '\n'.join('KATAKANA 1 0 2' if l.split()[:1] == ['KATAKANA'] else l for l in world.resource('char.def').split('\n'))
                out.append({'w': w, 'texts': [text], 'nomin': False})
        # many candidates at one place
        for n, best in ((70, 0), (70, 69), (140, 0), (140, 70), (250, 0), (250, 40), (250, 249)):
            words = [dict(h='アイ', y='ヨ{}'.format(i), p=i % 4, c=7000 + (-500 if i == best else (i * 37) % 211)) for i in range(n)] + [dict(h='あ'), dict(h='ア', c=-3000, y='ヨ'), dict(h='イ', c=-3000, y='ヨ')]
            w = gen.fixed_world(words=words, rewrite=[['kata', 2, 0]], inputs=[], mat=dict(l=1, r=1, cells=[]))
            out.append({'w': w, 'texts': ['アイあアイ', 'あアイ'], 'nomin': False})
        return out

    def run(self, case, ctx):
        w = case['w']
        minlen, pos = w['rewrite'][0][1], w['rewrite'][0][2]
        labels = []
        with ctx.dir() as d:
            world.write_definitions(w, d)
            if case['nomin']:
                # the default minimum is one character
                import json
                cfg = json.loads((d / 'sudachi.json').read_text(encoding='utf-8'))
                del cfg['pathRewritePlugin'][0]['minLength']
                (d / 'sudachi.json').write_text(json.dumps(cfg), encoding='utf-8')
            world.write_dictionaries(w, d)
            dic = world.open_dictionary(d)
            m = world.analyser(w)
            before, after = probe.path_probe(), probe.path_probe()
            dic.path_rewrite_plugins.insert(0, before)
            dic.path_rewrite_plugins.append(after)
            with sut('create'):
                tok = dic.create()
            for text in map(gen.expand, case['texts']):
                t = m.prepare(text)
                with sut('tokenize({!r})'.format(text)):
                    ml = tok.tokenize(text)
                    forms = [(x.normalized_form(), bool(x.is_oov())) for x in ml]
                pre, post = before.nodes, after.nodes
                eq(forms, [(x.norm, x.oov) for x in post], 'normalized forms and unknown marks of {!r}', text)
                self.check(t, pre, post, before.lattice, minlen, pos, text, labels)
            tok = ml = None
            dic.close()
        return ('three words' in labels or 'leading word left' in labels) and 'left alone' in labels, labels

    def check(self, t, pre, post, lattice, minlen, pos, text, labels):
        where = {b: i for i, b in enumerate(texts.starts_of(t.text))}
        kata = [('KATAKANA' in common(t, where[n.begin], where[n.end])) for n in pre]
        p = 0
        i = 0

        def same(k):
            nonlocal p
            require(p < len(post) and post[p].same(pre[k]), 'word {} of {} has to stay, got {}', pre[k], text, post)
            p += 1
        while i < len(pre):
            if not kata[i]:
                same(i)
                i += 1
                continue
            j = i
            while j < len(pre) and kata[j]:
                j += 1
            trigger = any(n.oov or where[n.end] - where[n.begin] < minlen for n in pre[i:j])
            b = i
            while b < j and 'NOOOVBOW' in t.cats[where[pre[b].begin]]:
                b += 1
            if not trigger or j - b < 2:
                for k in range(i, j):
                    same(k)
                if not trigger:
                    labels.append('left alone')
                i = j
                continue
            for k in range(i, b):
                same(k)
                labels.append('leading word left')
            require(p < len(post), 'words are missing at the end of {}: {}', text, post)
            n = post[p]
            p += 1
            eq((n.begin, n.end), (pre[b].begin, pre[j - 1].end), 'span in bytes of the word joined from {} in {!r}: {}', pre[b:j], text, n)
            options = lattice.get((n.begin, n.end), [])
            if options:
                low = min(o.cost for o in options)
                require(any(o.cost == low and o.same(n) for o in options), 'joined word {} (cost {}) of {} is not one of the cheapest candidates {} {}', n, n.cost, text, options, [o.cost for o in options])
                labels.append('candidate')
                if len({o.cost for o in options}) > 1:
                    labels.append('several candidates')
            else:
                s = ''.join(x.surface for x in pre[b:j])
                eq((n.surface, n.norm, n.dform, n.reading, n.pos, n.oov, n.dic, n.syn, n.units), (s, s, s, '', pos, True, -1, [], ([], [])),
                   'surface, forms, reading, part of speech, unknown mark, dictionary id, synonyms and units of the word joined from {} in {!r}', pre[b:j], text)
                labels.append('new word')
            if j - b > 2:
                labels.append('three words')
            i = j
        eq(p, len(post), 'number of words of {!r} after joining: {}', text, post)


CHECK = C14()
