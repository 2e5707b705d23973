"""C01: the morphemes of an analysis partition the input text."""
from hypothesis import strategies as st

from vh import gen, world
from vh.world import BASE_POS
from vh.core import Check, Violation, eq, require, sut


@st.composite
def cases(draw):
    w = draw(gen.worlds(users=st.sampled_from([0, 0, 1, 2]), refs='spell', inhibit=False, oov=draw(gen.pick(['both', 'both', 'simple']))))
    ts = draw(st.lists(gen.texts(w), min_size=1, max_size=6))
    return {'w': w, 'texts': ts}


def check_list(ml, text, b0=0, e0=None):
    """The partition property of one morpheme list that covers text[b0:e0]."""
    e0 = len(text) if e0 is None else e0
    with sut('reading the morphemes'):
        n = len(ml)
        ms = list(ml)
        spans = [(m.begin(), m.end()) for m in ms]
        surfaces = [m.surface() for m in ms]
        strs = [str(m) for m in ms]
        whole = str(ml)
        size = ml.size()
    eq(len(ms), n, 'number of morphemes iterated over')
    eq(size, n, 'size()')
    pos = b0
    for (b, e), s in zip(spans, surfaces):
        require(b == pos, 'morpheme begins at {} but the one before it ends at {} in {}: spans {}', b, pos, text, spans)
        require(b <= e <= len(text), 'span {}..{} outside the text {}', b, e, text)
        eq(s, text[b:e], 'surface of span {}..{} of {}', b, e, text)
        pos = e
    require(pos == e0, 'the last morpheme ends at {} of {}: spans {} in {}', pos, e0, spans, text)
    eq(''.join(surfaces), text[b0:e0], 'concatenated surfaces')
    eq(whole, text[b0:e0], 'string form of the list')
    eq(strs, surfaces, 'string forms of the morphemes')
    for i in range(n):
        for j in (i, i - n):
            with sut('indexing'):
                m = ml[j]
                got = (m.begin(), m.end(), m.surface(), m.word_id(), m.dictionary_id())
            want = (*spans[i], surfaces[i], ms[i].word_id(), ms[i].dictionary_id())
            eq(got, want, 'morpheme at index {}', j)
    for j in (n, n + 1, -n - 1):
        try:
            ml[j]
        except IndexError:
            pass
        except Exception as e:
            raise Violation('index {} of {} morphemes raised {!r}'.format(j, n, e))
        else:
            raise Violation('index {} of {} morphemes raised nothing'.format(j, n))
    return spans


class C01(Check):
    id = 'C01'
    rule = ('Random tiny dictionaries (0-2 user dictionaries, words over a small alphabet, units, matrix, category and unknown-word '
            'definitions, plugin combinations) with up to six texts each, analysed in modes C, A and B. A case is non-trivial if some '
            'text has at least two morphemes and its normalized form has another length than the text, or some word was split or joined.')
    quick = 450
    thorough = 6000
    assumptions = ['units of words spell the word', 'texts contain no lone surrogates']

    def strategy(self, tier):
        return cases()

    def corpus(self, tier):
        # positions beyond 16 bits, in characters and in bytes, with and without replaced characters before them
        words = [dict(h='あ' * 40, p=0, c=-100), dict(h='い', p=0, c=3), dict(h='東京', p=0, c=0, a=['{}'.format(len(BASE_POS) + 3), '{}'.format(len(BASE_POS) + 4)], m='C'), dict(h='東', p=0, c=9000), dict(h='京', p=0, c=9000),
                 dict(h='a', p=0, c=0), dict(h='\ufeff', p=0, c=10)]
        out = []
        for inputs in ([], ['default']):
            w = gen.fixed_world(words=words, inputs=inputs, rewrite=[['kata', 2, 0]])
            out.append({'w': w, 'texts': [[['あ' * 40, 1700], ['い東京', 3]]]})
            out.append({'w': w, 'texts': [[['㍿', 1], ['あ' * 40, 560], ['い㈱東京Ａ', 3]]]})
            out.append({'w': w, 'texts': ['\ufeffい', '\ufeff', ' い ', '\n', '\0い\0', '\ufeff\ufeffいいい\ufeff', '東京' * 3, '\x1aい']})
        return out

    def run(self, case, ctx):
        from sudachipy.tokenizer import Tokenizer
        w = case['w']
        labels = []
        nontrivial = False
        with ctx.dir() as d:
            dic = world.make(w, d)
            with sut('create'):
                tok = dic.create()
            model = world.analyser(w)
            for text in map(gen.expand, case['texts']):
                modes = 'CA' if len(text) > 20000 else 'CAB'
                counts = {}
                for mode in modes:
                    with sut('tokenize({!r}, {})'.format(text[:80], mode)):
                        ml = tok.tokenize(text, getattr(Tokenizer.SplitMode, mode))
                    if not text:
                        eq(len(ml), 0, 'morphemes of the empty text')
                        eq(list(ml), [], 'morphemes of the empty text')
                        continue
                    spans = check_list(ml, text)
                    require(len(spans) > 0, 'no morphemes for {}', text)
                    counts[mode] = len(spans)
                    if mode == 'C' and len(spans) < 300:
                        # lists got by splitting
                        for m in list(ml):
                            for x in 'AB':
                                with sut('split'):
                                    u = m.split(getattr(Tokenizer.SplitMode, x))
                                    many = hasattr(u, 'size')
                                    b, e = m.begin(), m.end()
                                if many:
                                    check_list(u, text, b, e)
                                    labels.append('list of units')
                if not text:
                    continue
                t = model.prepare(text)
                if len(t.text) != len(text):
                    labels.append('length-changing normalization')
                if len(text) > 300:
                    labels.append('long text')
                if counts['C'] > 1 and len(t.text) != len(text):
                    nontrivial = True
                if counts['A'] != counts['C'] or counts.get('B', counts['C']) != counts['C']:
                    labels.append('split')
                    nontrivial = True
                if any(b == e for b, e in spans):
                    labels.append('empty surface')
            del tok, ml
            dic.close()
        return nontrivial, labels


CHECK = C01()
