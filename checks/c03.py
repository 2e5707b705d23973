"""C03: the result of an analysis does not depend on history."""
import logging
import os

from hypothesis import strategies as st

from vh import gen, observe, world
from vh.core import Check, Violation, eq, require, sut
from vh.zygote import Zygote, in_child

noisy = logging.getLogger('verif.noisy')
noisy.addHandler(logging.NullHandler())
noisy.propagate = False
noisy.setLevel(logging.DEBUG)


@st.composite
def cases(draw):
    special = draw(gen.ints(0, 7))
    if special >= 6:
        # lexicons in which words are joined
        from checks import c13, c14
        w = draw(c13.cases() if special == 6 else c14.cases())['w']
        w.setdefault('alpha', list('〇一十百千万00123.,年'))
        w['rewrite'] += draw(gen.pick([[], [['kata', 2, 0]], [['num', True]]]))
        joined = c13.texts_() if special == 6 else gen.texts(w)
        index = {x['h']: str(i) for i, x in enumerate(w['lex'][0])}
        for x in w['lex'][0]:
            x.pop('a', None)
            if len(x['h']) > 1 and all(c in index for c in x['h']) and gen.chance(draw, 1, 2):
                x['a'] = [index[c] for c in x['h']]
    else:
        joined = None
        w = draw(gen.worlds(users=st.sampled_from([0, 0, 1, 2]), refs='spell', auto=True, safe=False, oov=draw(gen.pick(['both', 'simple', 'mecab', 'mecab']))))
    if gen.chance(draw, 1, 12):
        w['bulk'] = [1300] + [0] * (len(w['lex']) - 1)
    if gen.chance(draw, 1, 3):
        # ties: nothing but the order of candidates decides
        for lex in w['lex']:
            for x in lex:
                x['c'] = 0
        w['mat'] = dict(l=w['mat']['l'], r=w['mat']['r'], cells=[])
        for u in w['unk']:
            u[3] = 0
    fails = gen.chance(draw, 1, 4)
    if fails:
        # more cells are forbidden: analyses that fail in the middle of the lattice
        for c in w['mat']['cells']:
            if gen.chance(draw, 1, 3):
                c[2] = 0x7fff
        if gen.chance(draw, 2, 3) and 'ids' not in w['mat']:
            # few words may end a text
            keep = {draw(gen.ints(0, w['mat']['l'] - 1)), 0 if draw(st.booleans()) else -1}
            w['mat']['cells'] = [c for c in w['mat']['cells'] if c[1] or c[0] in keep] + [[l, 0, 0x7fff] for l in range(w['mat']['l']) if l not in keep]
    if w['oov'][-1] == 'mecab' or any(c[2] == 0x7fff for c in w['mat']['cells']):
        # costs are computed by analysing the words, which may fail here
        for lex in w['lex']:
            for x in lex:
                if x.get('c') == -32768:
                    x['c'] = 1
    texts = draw(st.lists(joined if joined is not None else gen.texts(w), min_size=2, max_size=7))
    if joined is not None and special == 6:
        # parts of the numerals, alone and disturbed
        for t in list(texts):
            i = draw(gen.ints(0, len(t)))
            texts += [t[:i], t[i:i + 1] or '十']
    if gen.chance(draw, 1, 3):
        texts.append(draw(gen.pick(texts)) + draw(gen.texts(w, max_fragments=2)))
    if not fails and gen.chance(draw, 1, 3):
        # the same piece, unknown to the lexicon or not, at different places of several texts
        run = draw(gen.pick(['abcdefghijklmnop', 'アイウエオカキクケコサシスセソタチツテト', '竜龍鸞鳳凰鵬鷲鷹鳶', 'ゐゑをんゐゑをん', '0123456789', 'АБВГДЕЖЗИКЛМН', 'ａｂｃｄｅ', '漢', '😀', '\u3042\u3099', '!?!?']))
        k = draw(gen.ints(1, 24))
        piece = (run * 24)[:k]
        for i in range(len(texts)):
            if gen.chance(draw, 2, 3):
                at = draw(gen.ints(0, len(texts[i])))
                texts[i] = texts[i][:at] + piece + texts[i][at:]
        texts.append(draw(gen.pick(['', ' ', '。'])) + piece)
    if fails:
        # short ones, some of which fail, and longer ones that begin the same way
        hs = [x['h'] for lex in w['lex'] for x in lex if x['h'] != '基']
        texts = [t[:20] for t in texts[:4]]
        for _ in range(draw(gen.ints(1, 3))):
            h = draw(gen.pick(hs))[:6]
            texts += [h, h[:1], h + draw(gen.pick(hs))[:6]]
    nt = len(texts)
    mode = st.sampled_from(['C', 'A', 'B', None])
    op = st.one_of(
        st.tuples(st.just('tok'), st.integers(0, 2), st.integers(0, nt - 1), mode, st.integers(0, 3)),
        st.tuples(st.just('tok'), st.integers(0, 2), st.integers(0, nt - 1), mode, st.integers(0, 3)),
        st.tuples(st.just('debug'), st.integers(0, 2), st.integers(0, nt - 1), mode, st.integers(0, 3)),
        st.tuples(st.sampled_from(['create', 'read', 'split', 'other', 'open', 'sweep', 'change', 'empty']), st.integers(0, 7), st.sampled_from(['A', 'B', 'C', None]))
    )
    ops = [list(o) for o in draw(st.lists(op, min_size=3 if not fails else 6, max_size=14 if not fails else 20))]
    if w.get('bulk'):
        ops.insert(draw(gen.ints(0, len(ops))), ['sweep', 0, None])
    other = draw(gen.worlds(users=st.sampled_from([0, 1]), refs='spell', max_words=4)) if any(o[0] in ('other', 'open') for o in ops) else None
    return {'w': w, 'texts': texts, 'ops': ops, 'other': other, 'chunk': draw(gen.ints(0, 3))}


def fresh(d, requests):
    """Every request in its own process that has only opened the dictionary."""
    dic = world.open_dictionary(d)

    def one(text, mode):
        return observe.analyse(dic.create(), text, mode)[0]
    out = []
    for text, mode in requests:
        ok, r = in_child(one, text, mode)
        if not ok:
            raise RuntimeError(r)
        out.append(r)
    return out


class C03(Check):
    id = 'C03'
    rule = ('Random worlds and histories of up to 14 operations (analyses by up to three tokenizers with different default modes, debug output, reading '
            'and splitting earlier results, opening and using other dictionaries, sweeping over more than 1024 words, analyses that fail), each result '
            'compared with that of a process with another hash seed which has only opened the dictionary; earlier results are read again at the end. '
            'Non-trivial: at least two analyses of non-empty texts with different results, after at least one other operation.')
    quick = 130
    thorough = 2500
    case_timeout = 90
    assumptions = ['operations run one after another (no claim about threads)']

    def strategy(self, tier):
        return cases()

    def corpus(self, tier):
        """Long unknown words, runs and joined words that come again at other places."""
        words = [dict(h='京都', y='キョウト', n='京'), dict(h='東京都', y='トウキョウト', a=['0', '0']), dict(h='1', p=1, y='イチ'), dict(h='2', p=1, y='ニ'), dict(h='十', p=1), dict(h='アイ', y='アイ'), dict(h='は', c=-50)]
        words[1]['a'] = ['4', '4']
        runs = ['アイウエオカキクケコサシスセソ', 'abcdefghijklmnopqrstuvwxyz', '竜龍鸞鳳凰鵬鷲鷹鳶', 'ゐゑをんゐゑをんゐゑをん', '121212121212121212', '十' * 9, 'АБВГДЕЖЗИКЛМНОПР', 'か\u3099' * 8, '😀' * 12, '東京都京都']
        out = []
        for n, oov in enumerate((['mecab', ['simple', 0, 0, 900, 0]], [['simple', 0, 0, 900, 0]])):
            for m, rewrite in enumerate(([], [['num', True], ['kata', 2, 0]])):
                w = gen.fixed_world(words=words, oov=oov, rewrite=rewrite, inputs=['default'] if m else [], unk=[['DEFAULT', 0, 0, 700, 0], ['KATAKANA', 1, 1, 600, 0], ['ALPHA', 0, 1, 600, 0], ['KANJI', 0, 0, 900, 0], ['HIRAGANA', 0, 0, 950, 0]])
                for mode in ('C', 'A', None):
                    for i in range(0, len(runs), 2):
                        a, b = runs[i], runs[i + 1]
                        texts = [a, 'は' + a, a + 'は' + b, b, 'はは' + b + 'は' + b + a, a[:9], b[1:], a[1:] + b[:-1]]
                        ops = [['tok', k % 2, k, mode, 1] for k in range(len(texts))] + [['tok', 0, k, 'C', k % 2] for k in range(len(texts) - 1, -1, -1)] + [['read', 0, None], ['split', 2, 'A'], ['tok', 0, 0, 'B', 1]]
                        out.append({'w': w, 'texts': texts, 'ops': ops, 'other': None, 'chunk': 0})
        return out

    def run(self, case, ctx):
        from sudachipy.tokenizer import Tokenizer
        w = case['w']
        labels = []
        if getattr(self, 'zygote', None) is None:
            self.zygote = Zygote(1 + os.getpid() % 4000000000)
        mode_of = {m: getattr(Tokenizer.SplitMode, m) for m in 'ABC'}
        texts = case['texts']
        with ctx.dir() as d:
            world.write_definitions(w, d)
            world.write_dictionaries(w, d)
            dic = world.open_dictionary(d)
            toks = [(dic.create(), 'C'), (dic.create(mode_of['A']), 'A')]
            history = []     # (text, mode, ml, observed or None)
            want = []        # (text, mode)
            others = []
            for op in case['ops']:
                kind = op[0]
                if kind in ('tok', 'debug'):
                    tok, default = toks[op[1] % len(toks)]
                    text, mode = texts[op[2]], op[3]
                    key = (text, mode or default)
                    if op[4] == 0 and kind == 'tok':
                        # nothing is read now; the end of the case reads it
                        try:
                            ml = tok.tokenize(text, mode_of[mode]) if mode else tok.tokenize(text)
                            got = None
                        except Exception as e:
                            got, ml = ['error', type(e).__name__], None
                    else:
                        got, ml = observe.analyse(tok, text, mode, noisy if kind == 'debug' else None)
                    if got and got[0] == 'error':
                        labels.append('failed analysis')
                    history.append((key, ml, got))
                    labels.append(kind)
                elif kind == 'create':
                    with sut('create'):
                        toks.append((dic.create(mode_of[op[2]]), op[2]) if op[2] else (dic.create(), 'C'))
                elif kind in ('read', 'split') and history:
                    key, ml, got = history[op[1] % len(history)]
                    if ml is not None:
                        with sut('reading an earlier result'):
                            for i, m in enumerate(ml):
                                if kind == 'split' and op[2]:
                                    m.split(mode_of[op[2]])
                                elif (i + op[1]) % 2:
                                    observe.attributes(m)
                elif kind == 'empty':
                    with sut('tokenize of the empty text'):
                        eq(len(toks[op[1] % len(toks)][0].tokenize('')), 0, 'morphemes of the empty text')
                elif kind in ('open', 'other'):
                    if not others or kind == 'open':
                        od = d / 'other{}'.format(len(others))
                        od.mkdir()
                        others.append(world.make(case['other'], od))
                    with sut('create on another dictionary'):
                        ot = others[op[1] % len(others)].create()
                    for t in texts[:2]:
                        observe.analyse(ot, t, op[2])
                    labels.append('other dictionary')
                elif kind == 'change':
                    # a grown text, then its prefix again
                    tok = toks[op[1] % len(toks)][0]
                    observe.analyse(tok, ''.join(texts)[:2000], op[2], split=False)
                elif kind == 'sweep':
                    n = (w.get('bulk') or [0])[0]
                    lex = world.entries(w, 0)
                    t = ''.join(x['h'] for x in lex[-min(len(lex), n or 5):])
                    if n:
                        labels.append('cache sweep')
                    observe.analyse(toks[0][0], t, op[2], split=False)
            want = sorted({k for k, _, _ in history})
            try:
                base = dict(zip(want, self.zygote.call('checks.c03', 'fresh', str(d), want)))
            except RuntimeError as e:
                raise Violation('analyses without history failed: {}'.format(e))
            for n, (key, ml, got) in enumerate(history):
                if got is not None:
                    eq(got, base[key], 'analysis {} of {} in mode {} compared with one without history', n, *key)
                if ml is not None:
                    with sut('reading an earlier result'):
                        again = observe.snapshot(ml)
                    eq(again, base[key], 'result {} of {} in mode {} read at the end of the history, compared with one without history', n, *key)
            results = {repr(b) for b in base.values()}
            if any(x.get('c') == -32768 for lex in w['lex'] for x in lex):
                labels.append('computed costs')
            nontrivial = len(results) > 1 and len(history) >= 2
            del toks, history
            dic.close()
            for o in others:
                o.close()
        return nontrivial, labels


CHECK = C03()
