"""C08: every morpheme reports the attributes of the entry it came from."""
from hypothesis import strategies as st

from vh import expect, gen, world
from vh.core import Check, eq, require, sut


@st.composite
def cases(draw):
    rewrite = draw(gen.pick([[], [], ['num'], ['kata'], ['num', 'kata']]))
    w = draw(gen.worlds(users=gen.pick([0, 0, 1, 2]), refs='spell', inhibit=False, oov=draw(gen.pick(['both', 'both', 'simple'])), rewrite=rewrite))
    npos = next(i for i, x in enumerate(w['lex'][0]) if x['h'] != '基')
    if 'kata' in rewrite:
        # joined words show the surfaces of their parts
        for lex in w['lex']:
            for x in lex:
                x.pop('s', None)
        for lex in w['lex']:
            for x in lex:
                for f in 'abw':
                    if x.get(f):
                        x[f] = [r.lstrip('I') for r in x[f]]
    if gen.chance(draw, 1, 3):
        # dictionary words win
        for lex in w['lex']:
            for x in lex:
                x['c'] = draw(gen.ints(-9000, -1000))
    ts = draw(st.lists(gen.texts(w), min_size=1, max_size=7))
    if gen.chance(draw, 1, 3):
        # forms that a sloppy reader changes
        own = [x for lex in w['lex'] for x in lex[(npos if lex is w['lex'][0] else 0):]]
        for x in draw(st.lists(gen.pick(range(len(own))), min_size=1, max_size=3)):
            gen.odd_form(draw, own[x], 'ny')
            own[x]['c'] = -9000
            ts[-1] += own[x]['h']
    return {'w': w, 'texts': ts, 'bulk': gen.chance(draw, 1, 25)}


class C08(Check):
    id = 'C08'
    rule = ('Random worlds with up to two user dictionaries (homographs, escapes of forms, units, own parts of speech) and up to seven texts in three modes; '
            'every attribute of every morpheme compared with the source line its word id names and with the normalized text it covers. '
            'Non-trivial: a result with both dictionary and unknown words.')
    quick = 400
    thorough = 6000

    def strategy(self, tier):
        return cases()

    def corpus(self, tier):
        w, ts = gen.odd_world()
        out = [{'w': w, 'texts': ts + [ts[0] + 'xx'], 'bulk': False}]
        # fifteen user dictionaries with words, parts of speech and references of their own
        w = gen.fixed_world(words=[dict(h='あ', c=-100, y='ヨ')])
        w['pos'] += [['使{}'.format(k), str(k), '*', '*', '*', '*'] for k in range(1, 16)]
        marks = [chr(0x4e01 + k) for k in range(15)]
        for k, c in enumerate(marks):
            w['lex'].append([dict(h=c, c=-5000, y='シ' + str(k), p=4 + k, s='表' + c if k % 3 else c, d=1), dict(h=c + '印', c=-9000, n='形' + c, d=0, m='C', a=['U0', 'U2'], b=['U0', 'U2'], g=[k]),
                             dict(h='印', c=100 * k, y='イ' + str(k), d=2), dict(h='あ' + c, c=-9500, m='C', a=[str(len(w['lex'][0]) - 1), 'U0'])])
        out.append({'w': w, 'texts': [''.join(c + '印' + c + 'あ' + c for c in marks), 'あ?'.join(marks), '印'.join(marks)], 'bulk': False})
        return out

    def run(self, case, ctx):
        from sudachipy.tokenizer import Tokenizer
        w = case['w']
        if case['bulk']:
            # more words than the word information cache holds, all in one text
            w = dict(w, bulk=[1100] + [0] * (len(w['lex']) - 1))
        texts = list(case['texts'])
        if case['bulk']:
            texts.append(''.join(x['h'] for x in world.entries(w, 0)[-1100:]) + texts[0])
            texts.append(texts[0])
        labels = []
        with ctx.dir() as d:
            dic = world.make(w, d)
            m = world.analyser(w)
            with sut('create'):
                tok = dic.create()
            for text in texts:
                if not text:
                    continue
                t = m.prepare(text)
                raw = t.text.encode('utf-8')
                lengths = [len(c.encode('utf-8')) for c in t.text]
                fallback = {p[4] for p in m.oov if p != 'mecab'} | {tuple(w['pos'][p[2]]) for p in w['rewrite'] if p[0] == 'kata'}
                for mode in 'CAB':
                    with sut('tokenize({!r}, {})'.format(text[:80], mode)):
                        ml = tok.tokenize(text, getattr(Tokenizer.SplitMode, mode))
                        ms = list(ml)
                    pos = byte = 0
                    kinds = set()
                    for mo in ms:
                        what = 'morpheme {} of {} in mode {}'.format(mo.surface(), text[:100], mode)
                        g = expect.global_id(mo)
                        if g is not None:
                            kinds.add('word')
                            require(g >> 28 < len(m.lexicons) and (g & 0xfffffff) < len(m.lexicons[g >> 28]), 'word id {:x} of {} names no entry', g, what)
                            head = m.lexicons[g >> 28][g & 0xfffffff].head
                            expect.check_entry(m, mo, g, what)
                            require(t.text.startswith(head, pos), 'headword {} of {} is not the text it covers: {}', head, what, t.text[pos:pos + 20])
                            end = pos + len(head)
                            if w['pos'].index(list(m.lexicons[g >> 28][g & 0xfffffff].pos)) >= 4 and g >> 28:
                                labels.append('part of speech of a user dictionary')
                        else:
                            with sut('reading ' + what):
                                size = mo.get_word_info().head_word_length
                                oov = mo.is_oov()
                            end, b = pos, 0
                            while b < size and end < len(t.text):
                                b += lengths[end]
                                end += 1
                            require(b == size, 'headword length {} of {} ends inside a character or after the text', size, what)
                            if oov:
                                kinds.add('unknown')
                                cover = t.text[pos:end]
                                with sut('reading ' + what):
                                    got = [mo.normalized_form(), mo.dictionary_form(), mo.reading_form(), list(mo.synonym_group_ids()), mo.dictionary_id(), len(list(mo.split(Tokenizer.SplitMode.A))),
                                           len(list(mo.split(Tokenizer.SplitMode.B)))]
                                eq(got, [cover, cover, '', [], -1, 1, 1], 'normalized form, dictionary form, reading, synonyms, dictionary id and numbers of units of unknown {}', what)
                                pp = tuple(mo.part_of_speech())
                                allowed = set(fallback)
                                if 'mecab' in m.oov:
                                    for c in t.cats[pos]:
                                        allowed |= {x[3] for x in m.unk.get(c, ())}
                                require(pp in allowed, 'part of speech {} of unknown {} is not among {}', pp, what, sorted(allowed))
                            else:
                                kinds.add('joined')
                        byte += sum(lengths[pos:end])
                        with sut('reading ' + what):
                            span = (mo.begin(), mo.end())
                        eq(span, (t.origin[pos], t.origin[end]), 'span of {}', what)
                        pos = end
                    eq(pos, len(t.text), 'characters covered in {}', text)
                    labels += kinds
                    if {'word', 'unknown'} <= kinds:
                        labels.append('mixed')
                eq(byte, len(raw), 'bytes covered in {}', text)
            if case['bulk']:
                labels.append('cache sweep')
            del tok
            dic.close()
        return 'mixed' in labels, labels


CHECK = C08()
