"""C24: the debug output describes the analysis."""
import logging

from hypothesis import strategies as st

from checks.c02 import prepare
from vh import gen, model, texts, world
from vh.core import Check, Violation, eq, require, sut


@st.composite
def cases(draw):
    w = draw(gen.worlds(users=st.sampled_from([0, 0, 1, 2]), refs='spell', safe=False, oov=draw(gen.pick(['both', 'both', 'simple', 'mecab'])), crowd=25))
    return {'w': w, 'texts': draw(st.lists(gen.texts(w, long_=False), min_size=1, max_size=5)), 'mode': draw(gen.pick('CAB'))}


class Lines(logging.Handler):
    def __init__(self):
        super().__init__()
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())


def sections(lines):
    """{title: lines} of one analysis."""
    out, cur = {}, None
    for x in lines:
        if x.startswith('=== '):
            require(x not in out, 'two sections {}', x)
            cur = out[x] = []
        elif x != '===':
            require(cur is not None, 'a line before the first section: {}', x)
            cur.append(x)
    return out


class C24(Check):
    id = 'C24'
    rule = ('Random worlds, texts and modes; the messages of an analysis with a logger are compared with the analysis: the text, the candidates with positions, ids, parts of speech, costs and the costs of '
            'their connections computed from the definitions, the path before joining (its cost is the minimum) and the words returned. '
            'Non-trivial: eight or more candidates listed and a word joined or split between the two paths.')
    quick = 600
    thorough = 6000

    def strategy(self, tier):
        return cases()

    def corpus(self, tier):
        # long candidates, many candidates, the last dictionary, unusual forms
        words = [dict(h='あ' * n, c=-1000, p=n % 4) for n in (1, 85, 86, 127, 128, 255, 300, 700)] + [dict(h='い', c=i, n='形{}'.format(i)) for i in range(150)] + [dict(h='東', s='表' * 300, c=-32767), dict(h='1', c=32767)]
        w = gen.fixed_world(words=words, rewrite=[['num', True], ['kata', 1, 0]])
        w['lex'] += [[dict(h='印' * k, c=-k, p=k % 4)] for k in range(1, 16)]
        odd, ts = gen.odd_world()
        return [{'w': w, 'texts': ['あ' * 300, 'あ' * 700 + 'い東', 'い東1い', '印' * 16, 'a' * 300 + '1東', '東' * 1100], 'mode': 'C'}, {'w': odd, 'texts': ts, 'mode': 'C'}]

    def run(self, case, ctx):
        from sudachipy.tokenizer import Tokenizer
        w = case['w']
        labels = []
        mode = getattr(Tokenizer.SplitMode, case['mode'])
        with ctx.dir() as d:
            dic = world.make(w, d)
            m = prepare(dic, w)
            with sut('create'):
                tok = dic.create()
            for text in case['texts']:
                if not text:
                    continue
                t = m.prepare(text)
                try:
                    begins = m.lattice(t)
                    best = m.best_cost(t, begins)
                except (model.NoMorpheme, model.NoPath):
                    continue
                h = Lines()
                logger = logging.Logger('verif.c24', logging.DEBUG)
                logger.addHandler(h)
                with sut('tokenize({!r}) with a logger'.format(text)):
                    ml = tok.tokenize(text, mode, logger)
                    spans = [(mo.begin(), mo.end(), mo.get_word_info().surface) for mo in ml]
                    plain = [(mo.begin(), mo.end(), mo.get_word_info().surface) for mo in tok.tokenize(text, mode)]
                eq(spans, plain, 'analysis of {!r} with and without debug output', text)
                s = sections(h.lines)
                names = ['Inupt dump:', 'Lattice dump:', 'Before Rewriting:', 'After Rewriting:']
                eq(list(s), ['=== ' + x for x in names], 'sections of the debug output')
                eq(s['=== Inupt dump:'], [t.text], 'text in the debug output')
                self.lattice(m, t, begins, s['=== Lattice dump:'], labels)
                bs = texts.starts_of(t.text)
                before = self.path(s['=== Before Rewriting:'], text)
                after = self.path(s['=== After Rewriting:'], text)
                self.best(m, t, begins, before, best, bs, text)
                where = {b: i for i, b in enumerate(bs)}
                eq([(t.origin[where[x[0]]], t.origin[where[x[1]]]) for x in after], [x[:2] for x in spans], 'spans of the words of {!r} in the debug output', text)
                for x, y in zip(after, spans):
                    require(x[2].startswith(y[2] + '('), 'word {} of {} in the debug output, the morpheme is {}', x, text, y)
                if len(before) != len(after):
                    labels.append('path changed')
            tok = ml = None
            dic.close()
        return {'path changed', 'many candidates'} <= set(labels), labels

    def path(self, lines, text):
        """[(begin, end, surface(id), left, right, cost)]"""
        out = []
        for k, x in enumerate(lines):
            n, rest = x.rstrip('\uffff').split(': ', 1)
            eq(int(n), k, 'number of a word in the debug output of {!r}', text)
            b, e, rest = rest.split(' ', 2)
            s, l, r, c = rest.rsplit(' ', 3)
            out.append((int(b), int(e), s, int(l), int(r), int(c)))
        return out

    def best(self, m, t, begins, path, best, bs, text):
        """The path shown is a path of the lattice and its cost is the minimum."""
        total = prev = 0
        at = 0
        where = {b: i for i, b in enumerate(bs)}
        for b, e, s, l, r, c in path:
            eq(where.get(b), at, 'start of {} in the path of {!r}', s, text)
            require(any(x.end == where.get(e) and (x.left, x.right, x.cost) == (l, r, c) for x in begins.get(at, [])), '{} {} {} {} {} in the path of {} is no candidate', b, e, s, (l, r, c), text)
            k = m.conn(prev, l)
            require(k != model.INHIBITED, 'the path of {} has a forbidden connection before {}', text, s)
            total += k + c
            prev, at = r, where[e]
        eq(at, len(t.text), 'end of the path of {!r}', text)
        eq(total + m.conn(prev, 0), best, 'cost of the path shown for {!r}', text)

    def lattice(self, m, t, begins, lines, labels):
        bs = texts.starts_of(t.text)
        ends = {0: [0]}
        for i in begins:
            for x in begins[i]:
                ends.setdefault(x.end, []).append(x.right)
        want = set()
        for i in begins:
            for x in begins[i]:
                if x.kind == 'oov':
                    surface, pos, wid = t.text[x.begin:x.end], x.pos, 0
                else:
                    wo = m.lexicons[x.dic][x.wid]
                    surface, pos, wid = wo.surface, wo.pos, world.gid(x.dic, x.wid)
                costs = sorted({m.conn(r, x.left) for r in ends[i]})
                want.add(('{} {} {}({}) {} {} {} {}'.format(bs[x.begin], bs[x.end], surface, wid, ','.join(pos), x.left, x.right, x.cost), tuple(costs)))
        got = set()
        marks = []
        for k, line in enumerate(lines, 1):
            n, rest = line.split(': ', 1)
            eq(int(n), k, 'number of a candidate in the debug output')
            rest, costs = rest.rsplit(':', 1)
            if ' BOS/EOS ' in rest and rest.split(' ')[2] == '(null)(0)':
                marks.append((tuple(map(int, rest.split(' ')[:2])), tuple(map(int, rest.split(' ')[4:])), sorted(set(map(int, costs.split())))))
                continue
            got.add((rest, tuple(sorted(set(map(int, costs.split()))))))
        missing, extra = want - got, got - want
        if missing or extra:
            raise Violation('candidates in the debug output of {!r}: missing {}, too many {}'.format(t.text[:100], sorted(missing)[:3], sorted(extra)[:3]))
        n = bs[-1]
        eq(marks, [((n, n), (0, 0, 0), sorted({m.conn(r, 0) for r in ends[len(t.text)]})), ((0, 0), (0, 0, 0), [m.conn(0, 0)])], 'begin and end marks in the debug output of {!r}', t.text)
        if len(want) >= 8:
            labels.append('many candidates')


CHECK = C24()
