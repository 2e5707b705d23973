"""C04: split modes refine each other as the dictionary says."""
from hypothesis import strategies as st

from vh import expect, gen, observe, world
from vh.core import Check, eq, require, sut


@st.composite
def cases(draw):
    spell = not gen.chance(draw, 1, 4)
    w = draw(gen.worlds(users=st.sampled_from([0, 0, 1, 2]), refs='spell' if spell else True, inhibit=False,
                        oov=draw(gen.pick(['both', 'simple'])), rewrite=draw(gen.pick([[], [], [], ['num'], ['kata', 'num']]))))
    for lex in w['lex']:
        for x in lex:
            # words with units are what this is about: make them likely to be chosen
            if (x.get('a') or x.get('b')) and x.get('l') != -1 and gen.chance(draw, 2, 3):
                x['c'] = draw(gen.ints(-32000, -20000))
    if spell and gen.chance(draw, 1, 15):
        # a word of many units
        n = draw(gen.pick([15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 126, 127]))
        pieces = draw(st.lists(gen.heads(w['alpha'], 2), min_size=1, max_size=4))
        lex = w['lex'][0]
        first = len(lex)
        lex += [dict(h=p, l=-1, r=0, c=0, p=i % 4, y='部' + p) for i, p in enumerate(pieces)]
        k = draw(gen.ints(0, len(w['lex']) - 1))
        us = [str(first + i % len(pieces)) for i in range(n)]
        e = dict(h=''.join(pieces[i % len(pieces)] for i in range(n)), c=-32000, p=0, m='C')
        for f in draw(gen.pick(['a', 'b', 'ab', 'abw'])):
            e[f] = us
        if e.get('a') and gen.chance(draw, 1, 2):
            e['b'] = draw(gen.pick([[], ['0'] * 0]))
        w['lex'][k].append(e)
    # texts of words with units next to others
    hs = [x['h'] for lex in w['lex'] for x in lex if x.get('a') or x.get('b')]
    ts = []
    for _ in range(draw(gen.ints(1, 6))):
        t = draw(gen.texts(w, max_fragments=4))
        if hs and gen.chance(draw, 2, 3):
            t = t + draw(gen.pick(hs)) + draw(gen.texts(w, max_fragments=2))
        ts.append(t)
    return {'w': w, 'texts': ts, 'spell': spell, 'default': draw(gen.pick([None, 'A', 'B', 'C']))}


class C04(Check):
    id = 'C04'
    rule = ('Random worlds whose words list units (in most of them units that spell the word), up to two user dictionaries, up to six texts. The results in '
            'modes A and B and the splits of every morpheme are compared with the mode C result expanded by the source lines. Non-trivial: some word was '
            'replaced by two or more units.')
    quick = 360
    thorough = 6000
    assumptions = ['spans are compared where the units spell the word and no joining plugin ran']

    def strategy(self, tier):
        return cases()

    def run(self, case, ctx):
        from sudachipy.tokenizer import Tokenizer
        w, spell = case['w'], case['spell']
        mode_of = {m: getattr(Tokenizer.SplitMode, m) for m in 'ABC'}
        labels = []
        with ctx.dir() as d:
            dic = world.make(w, d)
            m = world.analyser(w)
            with sut('create'):
                tok = dic.create()
                dtok = dic.create(mode_of[case['default']]) if case['default'] else dic.create()
            for text in case['texts']:
                if not text:
                    continue
                t = m.prepare(text)
                with sut('tokenize({!r})'.format(text[:80])):
                    c = tok.tokenize(text, mode_of['C'])
                    results = {x: tok.tokenize(text, mode_of[x]) for x in 'AB'}
                    plain = tok.tokenize(text)
                    dflt = dtok.tokenize(text)
                    over = {x: dtok.tokenize(text, mode_of[x]) for x in 'ABC'}
                results['C'] = c
                with sut('reading the mode C result'):
                    ms = list(c)
                    gids = [expect.global_id(mo) for mo in ms]
                    eq(observe.snapshot(plain, False), observe.snapshot(c, False), 'result without a mode on a tokenizer without a mode for {}', text)
                read = observe.attributes if spell else expect.observed
                for mode in 'AB':
                    exp = []     # (original morpheme, None) or (gid of unit, begin, end)
                    pos = 0
                    for mo, g in zip(ms, gids):
                        e = None if g is None else m.lexicons[g >> 28][g & 0x0fffffff]
                        units = [] if e is None else (e.a if mode == 'A' else e.b)
                        if not w['rewrite']:
                            size = len(mo.normalized_form()) if e is None else len(e.head)
                        with sut('split'):
                            sp = list(mo.split(mode_of[mode]))
                        if len(units) < 2:
                            exp.append((mo, None, None))
                            eq(len(sp), 1, 'number of units of {} in mode {}', mo.surface(), mode)
                            eq(read(sp[0]), read(mo), 'split of a word without units in mode {}', mode)
                        else:
                            labels.append('split ' + mode)
                            eq(len(sp), len(units), 'number of units of word {} split in mode {}', g, mode)
                            u0 = pos if not w['rewrite'] else None
                            for u, s in zip(units, sp):
                                expect.check_entry(m, s, u, 'unit {} of word {} split in mode {}'.format(u, g, mode))
                                if u >> 28:
                                    labels.append('user unit')
                                span = None
                                if spell:
                                    if u0 is not None:
                                        ue = u0 + len(m.lexicons[u >> 28][u & 0x0fffffff].head)
                                        span = (t.origin[u0], t.origin[ue])
                                        u0 = ue
                                        eq((s.begin(), s.end()), span, 'span of unit {} of word {} in {}', u, g, text)
                                        eq(s.surface(), text[slice(*span)], 'surface of unit {} of word {} in {}', u, g, text)
                                    if s is sp[0]:
                                        eq(s.begin(), mo.begin(), 'begin of the first unit of word {} in {}', g, text)
                                    if s is sp[-1]:
                                        eq(s.end(), mo.end(), 'end of the last unit of word {} in {}', g, text)
                                exp.append((None, u, span))
                        if not w['rewrite']:
                            pos += size
                    for got, what in ((results[mode], 'result in mode ' + mode), (over[mode], 'result of an overridden tokenizer in mode ' + mode)):
                        gl = list(got)
                        eq(len(gl), len(exp), 'number of morphemes of the {} for {}', what, text)
                        for mo, (orig, u, span) in zip(gl, exp):
                            with sut('reading the ' + what):
                                if orig is not None:
                                    eq(read(mo), read(orig), 'word without units in the {}', what)
                                else:
                                    expect.check_entry(m, mo, u, 'unit {} in the {}'.format(u, what))
                                    if span:
                                        eq((mo.begin(), mo.end(), mo.surface()), (*span, text[slice(*span)]), 'span and surface of unit {} in the {}', u, what)
                    if spell:
                        cb = {mo.begin() for mo in ms}
                        xb = {mo.begin() for mo in results[mode]}
                        require(cb <= xb, 'boundaries of mode C {} are not among those of mode {} {} for {}', sorted(cb), mode, sorted(xb), text)
                with sut('split in mode C'):
                    for mo in ms:
                        one = list(mo.split(mode_of['C']))
                        eq([read(x) for x in one], [read(mo)], 'split in mode C')
                eq([read(x) for x in over['C']], [read(x) for x in c], 'overridden result in mode C for {}', text)
                eq([read(x) for x in dflt], [read(x) for x in results[case['default'] or 'C']], 'result of a tokenizer with default mode {} for {}', case['default'], text)
            del tok, dtok
            dic.close()
        return bool(labels), labels


CHECK = C04()
