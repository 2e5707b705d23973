"""C06: dictionary lookup finds every prefix word and only those."""
from hypothesis import strategies as st

from vh import gen, lexgen, model, world
from vh.core import Check, eq, require, sut

# characters whose UTF-8 forms share leading bytes, and of every length
CLOSE = 'あいぁ', 'éèë', '𠮷𠮸😀', 'azAZé', '\x01\x7f\u0080\u07ff\u0800\uffff\U00010000\U0010ffff'


@st.composite
def cases(draw):
    alpha = sorted(set(draw(gen.pick(CLOSE)) + draw(gen.pick(CLOSE + ('東京都',)))))[:draw(gen.ints(2, 6))]
    npos = draw(gen.ints(1, 3))
    nu = draw(gen.pick([0, 0, 0, 1, 2, 3, 15]))
    lex = []
    chars = gen.pick(alpha)
    for k in range(nu + 1):
        words = []
        for _ in range(draw(gen.pick([40, 100])) if gen.chance(draw, 1, 40) else draw(gen.ints(1, 14 if nu < 4 else 3))):
            h = ''.join(draw(st.lists(chars, min_size=1, max_size=5)))
            if words and gen.chance(draw, 1, 3):
                # nested prefixes and homographs
                h = words[draw(gen.ints(0, len(words) - 1))]['h'] + draw(st.one_of(st.just(''), chars))
            elif gen.chance(draw, 1, 40):
                h = h[:1] * draw(gen.pick([20, 300, 5000]))
            w = dict(h=h, p=draw(gen.ints(0, npos - 1 + (2 if k else 0))), y=draw(gen.pick(['ヨ', 'ミ', h])))
            if gen.chance(draw, 1, 5):
                w['l'] = -1
            if words and gen.chance(draw, 1, 8):
                # an entry that differs little from an earlier one
                v = words[draw(gen.ints(0, len(words) - 1))]
                if draw(st.booleans()):
                    w['y'] = gen.near(draw, v['y']) or 'ヨ'
                    w['h'] = v['h']
                    w['p'] = v['p']
                else:
                    w['s'] = gen.near(draw, v['h']) or 'x'
                    w['y'] = v['y']
                    w['p'] = v['p']
                for f in 'sy':
                    if f in w and (set(w[f]) & set('\0\r\n')):
                        w.pop(f)
                w.setdefault('y', h)
            if 's' not in w and gen.chance(draw, 1, 6):
                w['s'] = draw(gen.pick(['表', h + 'x', words[0]['h'] if words else 'y']))
            words.append(w)
        if gen.chance(draw, 1, 15):
            words += [dict(words[0], y='ヨ{}'.format(i)) for i in range(draw(gen.pick([126, 127, 128, 200, 254])))]
            words = words[:254 + 14]
            # at most 255 entries with the same headword
            seen = 0
            kept = []
            for w in words:
                if w['h'] == words[0]['h']:
                    seen += 1
                    if seen > 255:
                        continue
                kept.append(w)
            words = kept
        lex.append(words)
    case = {'lex': lex, 'npos': npos}
    if gen.chance(draw, 1, 20):
        case['bulk'] = draw(gen.pick([500, 3000, 3000, 20000]))
    hs = [w['h'] for l in lex for w in l]
    texts = []
    for _ in range(draw(gen.ints(1, 5))):
        t = ''.join(draw(st.lists(st.one_of(chars, gen.pick(hs), gen.special_char), min_size=0, max_size=8)))
        if gen.chance(draw, 1, 10):
            t = t * 30
        texts.append(t[:6000])
    case['texts'] = texts
    # lookups read side by side: [text, position] each, and the order of the steps
    case['crossed'] = draw(st.lists(st.tuples(gen.ints(0, 4), gen.ints(0, 10)).map(list), min_size=2, max_size=4))
    case['turns'] = draw(st.lists(gen.ints(0, 3), min_size=4, max_size=30))
    return case


class C06(Check):
    id = 'C06'
    rule = ('Random sets of headwords with nested prefixes, shared leading bytes, up to 255 homographs, unindexed entries, up to 20000 entries and up to '
            'fifteen user dictionaries; lookups at every position of random texts are compared with a scan of all entries, and searches by headword, part '
            'of speech and reading with the source. Non-trivial: some position has two or more matches of different length or dictionary.')
    quick = 180
    thorough = 7000
    case_timeout = 120

    def strategy(self, tier):
        return cases()

    def run(self, case, ctx):
        labels = []
        nontrivial = False
        lex = [list(l) for l in case['lex']]
        npos = case['npos']
        bulk = case.get('bulk', 0)
        if bulk:
            if bulk > 3000 and getattr(self, 'big', 0) >= 2:
                bulk = 500
            c = case['lex'][0][0]['h'][0]
            lex[0] = [dict(h=c + format(i * 7919 % (bulk // 2), 'x'), y='ヨ{}'.format(i), p=0) for i in range(bulk)] + lex[0]
            labels.append('bulk')
        pos = [['品{}'.format(i), '*', '*', '*', '*', '*'] for i in range(npos)]
        w = {'pos': pos, 'mat': dict(l=1, r=1, cells=[]), 'lex': lex, 'oov': [['simple', 0, 0, 0, 0]]}
        # the first entry of the system dictionary has the part of speech the fallback provider names
        lex[0][0] = dict(lex[0][0], p=0)
        for k in range(1, len(lex)):
            # parts of speech of their own
            lex[k] = [x if x['p'] < npos else dict(x, p=npos + 2 * (k - 1) + x['p'] - npos) for x in lex[k]]
            pos += [['使{}'.format(k if k != 3 else 1), str(j), '*', '*', '*', '*'] for j in range(2)]
        with ctx.dir() as d:
            dic = world.make(w, d)
            L = dic.lexicon
            single = dic.dictionaries[0].lexicon if hasattr(dic, 'dictionaries') else None
            by = []
            for l in lex:
                b = {}
                for i, x in enumerate(l):
                    if x.get('l', 0) != -1:
                        b.setdefault(x['h'], []).append(i)
                by.append((b, sorted({len(h) for h in b})))
            bulk_texts = [x['h'] + 'z' for x in lex[0][::max(1, bulk // 40)]] if bulk else []
            for text in case['texts'] + bulk_texts:
                data = text.encode('utf-8')
                off = 0
                step = max(1, len(text) // 150)
                for i, ch in enumerate(text):
                    if i % step == 0 or i < 40:
                        want = []
                        for k, (b, lens) in enumerate(by):
                            for n in lens:
                                if i + n > len(text):
                                    break
                                ids = b.get(text[i:i + n])
                                if ids:
                                    e = off + len(text[i:i + n].encode('utf-8'))
                                    want += [(world.gid(k, j), e) for j in ids]
                        with sut('lookup in {!r} at {}'.format(text[:100], i)):
                            got = [(a, b) for a, b in L.lookup(data, off)]
                        eq(sorted(got), sorted(want), 'entries found in {} at character {} (id, end)', text, i)
                        if single is not None and len(lex) == 1:
                            with sut('lookup'):
                                eq(sorted((a, b) for a, b in single.lookup(data, off)), sorted(want), 'entries found by the lexicon in {} at {}', text, i)
                        if len({e for _, e in want}) > 1 or len({g >> 28 for g, _ in want}) > 1:
                            nontrivial = True
                            labels.append('several lengths or dictionaries')
                        if len(want) > 127:
                            labels.append('127+ matches')
                    off += len(ch.encode('utf-8'))
            self.crossed(case, L, by, labels)
            # by headword, part of speech and reading
            have = {}
            for k, l in enumerate(lex):
                for i, x in enumerate(l):
                    if bulk and k == 0 and i < bulk and i % max(1, bulk // 50):
                        continue
                    with sut('get_word_info'):
                        p = L.get_word_info(world.gid(k, i)).pos_id
                        eq(dic.grammar.get_part_of_speech_string(p), pos[x['p']], 'part of speech of entry {} of dictionary {}', i, k)
                    if k and x['p'] >= npos:
                        labels.append('own part of speech')
                    have.setdefault((x.get('s', x['h']), p, x.get('y', x['h'])), set()).add(world.gid(k, i))
            queries = list(have)
            if bulk:
                queries = queries[:4] + queries[-4:]
            queries = queries[:15] + queries[15:][-20:]
            more = []
            for s, p, y in queries[:1 if bulk else 5]:
                more += [(s, (p + 1) % len(pos), y), (s, (p + 2) % len(pos), y), (s, p, y + 'x'), (s + 'x', p, y), (s[:-1], p, y), (y, p, s)]
            for i, (s, p, y) in enumerate(queries[:1 if bulk else 4]):
                more += [(s, p, x) for x in (y.upper(), y.lower(), y + ' ', ' ' + y, y[:-1])] + [(x, p, y) for x in (s.upper(), s.lower(), s + ' ', s + s[-1:])]
                more += [(s, -1, y), (s, p + 65536, y), (s, p, ''), ('', p, y)]
            for q in queries + more:
                with sut('get_word_id{!r}'.format(q)):
                    g = L.get_word_id(q[0], q[1], q[2])
                ok = have.get(q)
                if bulk and not ok and q not in queries:
                    continue
                if ok:
                    require(g in ok, 'get_word_id{} = {}, should be one of {}', q, g, sorted(ok))
                else:
                    eq(g, -1, 'get_word_id{} of no entry', q)
                if len(lex) == 1 and single is not None:
                    with sut('get_word_id'):
                        g = single.get_word_id(q[0], q[1], q[2])
                    require(g in ok if ok else g == -1, 'get_word_id{} of the lexicon = {}, should be one of {}', q, g, sorted(ok or [-1]))
            del L, single
            dic.close()
        if bulk > 3000:
            self.big = getattr(self, 'big', 0) + 1
            labels.append('huge')
        if len(lex) == 16:
            labels.append('fifteen user dictionaries')
        return nontrivial, labels

    def crossed(self, case, L, by, labels):
        """Lookups of which each goes on while the others do."""
        its, wants, gots = [], [], []
        for k, i in case.get('crossed', ()):
            text = case['texts'][k % len(case['texts'])]
            if not text:
                continue
            i %= len(text)
            want = []
            for k, (b, lens) in enumerate(by):
                for n in lens:
                    for j in b.get(text[i:i + n], ()) if i + n <= len(text) else ():
                        want.append((world.gid(k, j), len(text[:i + n].encode('utf-8'))))
            wants.append(want)
            gots.append([])
            with sut('lookup'):
                its.append(iter(L.lookup(text.encode('utf-8'), len(text[:i].encode('utf-8')))))
        if not its:
            return
        order = [k % len(its) for k in case['turns']] + [k for k in range(len(its)) for _ in range(len(wants[k]) + 1)]
        ended = set()
        for k in order:
            if k in ended:
                continue
            with sut('lookups side by side'):
                x = next(its[k], None)
            if x is None:
                ended.add(k)
            else:
                gots[k].append((x[0], x[1]))
        for k, want in enumerate(wants):
            eq(sorted(gots[k]), sorted(want), 'entries found by lookup {} of {} read side by side', k, case['crossed'])
        if sum(len(x) > 1 for x in wants) > 1:
            labels.append('side by side')


CHECK = C06()
