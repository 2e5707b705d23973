"""C07: user dictionaries extend the system dictionary without disturbing it."""
import json
import shutil

from hypothesis import strategies as st

from vh import expect, gen, observe, world
from vh.core import Check, eq, expect_error, require, sut


@st.composite
def cases(draw):
    nfiles = draw(gen.pick([1, 2, 2, 3]))
    w = draw(gen.worlds(users=nfiles, auto=True, inhibit=False, oov=draw(gen.pick(['both', 'simple'])), max_words=6, rewrite=draw(gen.pick([[], [], ['num', 'kata']]))))
    k = draw(gen.ints(0, 11))
    if k <= 7:
        order = draw(st.permutations(range(1, nfiles + 1)))
    elif k <= 9:
        order = draw(st.lists(gen.ints(1, nfiles), min_size=2, max_size=7))
    else:
        order = draw(st.lists(gen.ints(1, nfiles), min_size=13, max_size=15))
    # surfaces that user words are analysed by; some with characters that normalization changes
    for lex in w['lex'][1:]:
        for x in lex:
            if x.get('c') == -32768 and gen.chance(draw, 1, 3):
                x['s'] = draw(gen.texts(w, max_fragments=3, long_=False)).replace('\r', '') or 'a'
    if gen.chance(draw, 1, 6):
        # dear or cheap system words, so that computed costs reach the ends of their range
        c = draw(gen.pick([32000, -32000, 16400, -16300, 8200]))
        hs = [x['h'] for x in w['lex'][0] if x['h'] != '基']
        for x in w['lex'][0]:
            x['c'] = c
        for p in w['oov']:
            if p[0] == 'simple':
                p[3] = 32000
        for u in w['unk']:
            u[3] = 32000
        for lex in w['lex'][1:]:
            lex[-1]['c'] = -32768
            lex[-1]['h'] = ''.join(draw(st.lists(gen.pick(hs), min_size=1, max_size=5)))
            lex[-1].pop('s', None)
            for f in 'abw':
                lex[-1].pop(f, None)
    ts = draw(st.lists(gen.texts(w, max_fragments=5), min_size=1, max_size=4))
    # texts of system words only
    hs = [x['h'] for x in w['lex'][0] if x['h'] != '基']
    ts += [''.join(draw(st.lists(gen.pick(hs + ['X', '、']), min_size=1, max_size=4))) for _ in range(2)]
    return {'w': w, 'order': list(order), 'texts': ts, 'over': gen.chance(draw, 1, 8)}


class C07(Check):
    id = 'C07'
    rule = ('One to three generated user dictionary files (own parts of speech, references between own and to system words, costs left to the system) '
            'configured in any order and up to fifteen times in all; attributes, ids and costs of all entries compared with the sources, computed costs with an '
            'independent search, system entries and texts without user words with a dictionary opened without user dictionaries; lists of sixteen '
            'are refused. Non-trivial: two or more user dictionaries or a computed cost, and a user word in a result.')
    quick = 300
    thorough = 3500
    case_timeout = 90
    assumptions = ['where several paths have the minimum cost, the computed cost of any of them is accepted']

    def strategy(self, tier):
        return cases()

    def corpus(self, tier):
        # computed costs at and beyond both ends of their range
        out = []
        for c in (32767, -32767, 16393, 16394, -16374, -16373, 8197, -8190, 10922, 300):
            words = [dict(h=h, c=c, y='ヨミ' + h) for h in 'あい東']
            user = [dict(h=h, c=-32768, p=i % 4) for i, h in enumerate(['あ', 'い東', 'あい東', '東東', 'ああああ', 'あいあいあいあい', 'あ' * 60, '東い' * 40])]
            w = gen.fixed_world(words=words, mat=dict(l=1, r=1, cells=[]), oov=[['simple', 0, 0, 32767, 0]], inputs=[])
            w['lex'] += [user, [dict(h='い東い', c=-32768), dict(h='東', c=-32768), dict(h='東東東', c=-32768)]]
            out.append({'w': w, 'order': [1, 2], 'texts': ['あい東東', 'い東い東東東', 'あ' * 60], 'over': False})
        return out

    def run(self, case, ctx):
        w, order = case['w'], case['order']
        labels = []
        used = False
        w2 = dict(w, lex=[w['lex'][0]] + [w['lex'][o] for o in order])
        texts = list(case['texts'])
        if len(order) > 7:
            # a word of its own for each dictionary
            marks = [chr(0x4e01 + k) + '印' for k in range(len(order))]
            w2['lex'] = [w2['lex'][0]] + [lex + [dict(h=h, c=-30000, y='シ' + h, p=0, a=['U{}'.format(len(lex)), '0'], m='C')] for lex, h in zip(w2['lex'][1:], marks)]
            texts.append(''.join(marks))
        w0 = dict(w, lex=[w['lex'][0]])
        with ctx.dir() as d:
            src, d2, d0 = d / 'src', d / 'all', d / 'none'
            for x in (src, d2, d0):
                x.mkdir()
            world.write_dictionaries(w if len(order) < 8 else w2, src)
            for dd, ww in ((d2, w2), (d0, w0)):
                shutil.copy(src / 'system.dic', dd / 'system.dic')
                world.write_definitions(ww, dd)
            for k, o in enumerate(order, 1):
                shutil.copy(src / 'user{}.dic'.format(o if len(order) < 8 else k), d2 / 'user{}.dic'.format(k))
            dic = world.open_dictionary(d2)
            plain = world.open_dictionary(d0)
            m = world.analyser(w2)
            L = dic.lexicon
            # computed costs, in the order the dictionaries are read
            full, inputs = m.lexicons, m.inputs
            for k in range(1, len(full)):
                m.lexicons, m._index = full[:k], None
                for i, x in enumerate(full[k]):
                    with sut('get_cost'):
                        got = L.get_cost(world.gid(k, i))
                    if not x.auto:
                        eq(got, x.cost, 'cost of entry {} of user dictionary {}', i, k)
                        continue
                    t = m.prepare(x.surface)
                    ok = set()
                    for first, last, n in m.optimal_ends(t, m.lattice(t)):
                        v = last - first - 20 * n
                        ok.add(max(-32768, min(32767, v)))
                        if not -32768 <= v <= 32767:
                            labels.append('computed cost beyond the range')
                    require(got in ok, 'computed cost of {} (entry {} of user dictionary {}) is {}, should be {}', x.surface, i, k, got, sorted(ok))
                    x.cost = got
                    labels.append('computed cost')
                    if len(order) > 1 and k > 1:
                        labels.append('computed cost of a later dictionary')
            m.lexicons, m._index = full, None
            # every entry of every dictionary
            for k, lex in enumerate(full):
                for i, x in enumerate(lex):
                    g = world.gid(k, i)
                    what = 'entry {} of dictionary {}'.format(i, k)
                    with sut('reading ' + what):
                        wi = L.get_word_info(g)
                        got = [dic.grammar.get_part_of_speech_string(wi.pos_id), wi.surface, wi.normalized_form, wi.reading_form, wi.dictionary_form,
                               list(wi.a_unit_split), list(wi.b_unit_split), list(wi.word_structure), list(wi.synonym_group_ids),
                               L.get_left_id(g), L.get_right_id(g), L.get_cost(g), L.get_dictionary_id(g)]
                        found = [e for a, e in L.lookup(x.head.encode('utf-8'), 0) if a == g]
                    for f, a, b in zip(('part of speech', 'surface', 'normalized form', 'reading', 'dictionary form', 'A units', 'B units', 'structure', 'synonyms', 'left id', 'right id',
                                        'cost', 'dictionary id'), got, [list(x.pos), x.surface, x.norm, x.reading, x.dform, x.a, x.b, x.ws, x.syn, x.left, x.right, x.cost, k]):
                        eq(a, b, '{} of {}', f, what)
                    eq(found, [len(x.head.encode('utf-8'))] if x.indexed else [], 'matches of {} in its own headword (ends)', what)
                    if k and any(u >> 28 for u in x.a + x.b + x.ws):
                        labels.append('own reference')
                    if k > 1 and '使' in x.pos[0]:
                        labels.append('own part of speech of a later dictionary')
            with sut('create'):
                tok, tok0 = dic.create(), plain.create()
            by = [{x.head for x in lex if x.indexed} for lex in full[1:]]
            for text in texts:
                if not text:
                    continue
                a, ml = observe.analyse(tok, text, None, split=False)
                b, ml0 = observe.analyse(tok0, text, None, split=False)
                t = m.prepare(text).text
                if a[:1] == ['error']:
                    require(b[:1] == ['error'], 'analysing {} fails with user dictionaries: {}', text, a)
                    labels.append('failed')
                    continue
                if not any(t.startswith(h, i) for heads in by for h in heads for i in range(len(t))):
                    eq(a, b, 'analysis of {}, which has no user word, compared with no user dictionaries', text)
                    labels.append('text without user words')
                for mo in ml:
                    g = expect.global_id(mo)
                    if g is not None:
                        require(g >> 28 < len(full) and (g & 0xfffffff) < len(full[g >> 28]), 'no entry {:x}', g)
                        expect.check_entry(m, mo, g, 'morpheme {}'.format(mo.surface()))
                        if g >> 28:
                            used = True
                            labels.append('user word in a result')
                            if g >> 28 > 7:
                                labels.append('word of dictionary 8 to 15 in a result')
            if case['over']:
                labels.append('sixteen refused')
                cfg = json.loads((d2 / 'sudachi.json').read_text(encoding='utf-8'))
                names = cfg['userDict']
                cfg['userDict'] = (names * 16)[:16]
                (d2 / 'sudachi.json').write_text(json.dumps(cfg), encoding='utf-8')
                from sudachipy.dictionary import Dictionary
                expect_error(lambda: Dictionary(config_path=str(d2 / 'sudachi.json'), resource_dir=str(d2)), 'opening sixteen user dictionaries')
                cfg['userDict'] = (names * 16)[:15]
                (d2 / 'sudachi.json').write_text(json.dumps(cfg), encoding='utf-8')
                with sut('opening fifteen user dictionaries'):
                    Dictionary(config_path=str(d2 / 'sudachi.json'), resource_dir=str(d2)).close()
            del L, tok, tok0
            dic.close()
            plain.close()
        return used and (len(order) > 1 or 'computed cost' in labels), labels


CHECK = C07()
