"""Hypothesis strategies for worlds (dictionaries, matrices, definitions, plugins) and texts."""
import functools

from hypothesis import strategies as st

from .world import BASE_POS

HIRA = 'あいうきのんがっ'
KATA = 'アイウカンッャァーヶ'
KANJI = '東京都山語々〆'
DIGIT = '0123456789'
KNUM = '〇一二三四五六七八九十百千万億兆'
ALPHA = 'abzé'
UPPER = 'ABZÉ'
GREEK = 'αβΩ'
CYR = 'абЖ'
SYM = '.,!-~・、。'
SPACE = ' \u3000\t'
ASTRAL = '𠮷😀𝟘𩸽𝐀'
FULL = 'ＡＢｚ１２，．－！'
EXPAND = '㈱…ﬁİ㌔½ǅßﷺ⑳㍿ŉ'
COMBINE = '\u3099\u309a\u0301\u200d\ufe0f'
HALFKANA = 'ｶｱﾞﾟｯｰ'
DECOMP = ['か\u3099', 'は\u309a', 'ｶﾞ', 'ハ\u309a', 'う\u3099', 'ｳﾞ']
PSM = 'ー-⁓〜〰'
EXEMPT = 'ⅠⅡⅰⅳ⺀'
CTRL = '\x00\x01\x1f\x7f\u0085\u200b\ufeff\ufffd\uffff\u2028\u00ad'
# ends of the ranges of UTF-8 lengths and of planes, invisible and white characters, case pairs of other lengths
EDGE = '\x7f\x80\u07ff\u0800\ud7ff\ue000\uffff\U00010000\U0001ffff\U00020000\U000fffff\U00100000\U0010ffff\ufeff\u2029\u00a0\u180e\u061c\u2060\ufdd0\U000e0001\u115f\u3164\uffa0\u0345\u1e9e\u03c2\u017f\u212a\x1c\x1e\x0b\x0c'
NORMAL = HIRA + KATA + KANJI + DIGIT + KNUM + ALPHA + GREEK.lower() + CYR.lower() + SYM + '𠮷😀𩸽' + ' '
EVERY = HIRA + KATA + KANJI + DIGIT + KNUM + ALPHA + UPPER + GREEK + CYR + SYM + SPACE + ASTRAL + FULL + EXPAND + COMBINE + HALFKANA + PSM + EXEMPT + CTRL + EDGE

ENDS = [' ', '\u3000', '\t', '\n', '\r', '\r\n', '\ufeff', '\0', '\u200b', '\u3099', '\u0301', '\u2028', '\x85', '\xa0', '\U0010ffff', '\uffff', '\u07ff', '\u0800', '\x7f', 'EOS', '.', ',', 'ー', 'ーー', '"', "'", '\\', '\\u3042', '%s', '{}', '#', '*', '/', '0', '\x1a']

ODD_FORMS = ENDS + ['\0\0', ',', '/', '*', '-1', '""', 'U0', '\\u{1f600}', '長' * 127, '長' * 128, 'x' * 255, 'x' * 256, '😀' * 64, '\ufffd', '\u0130', 'ǅ']

any_char = st.characters(exclude_categories=['Cs'])
special_char = st.sampled_from(sorted(set(EVERY)))
normal_char = st.sampled_from(sorted(set(NORMAL)))


@functools.lru_cache(None)
def ints(lo, hi):
    return st.integers(lo, hi)


@functools.lru_cache(2000)
def _pick(options, key):
    return st.sampled_from(options)


def pick(options):
    """sampled_from, built once for each list of options."""
    try:
        t = tuple(options)
        return _pick(t, tuple(map(type, t)))
    except TypeError:
        return st.sampled_from(options)


def weighted(*pairs):
    """weighted((3, strategy), (1, strategy)): picks a strategy with the given weights."""
    idx = [i for i, (w, _) in enumerate(pairs) for _ in range(w)]
    return st.sampled_from(idx).flatmap(lambda i: pairs[i][1])


def chance(draw, num, den):
    """True with probability num/den; shrinks to False."""
    return draw(ints(0, den - 1)) >= den - num


def short(draw, lo, hi):
    return draw(ints(lo, hi))


costs = weighted((5, st.integers(-10, 10)), (3, st.integers(-3000, 9000)), (1, st.integers(-32767, 32767)),
                 (1, st.sampled_from([-32767, 32767, 32766, 0, -1, 255, 256, 127, 128])))


# shapes beyond one byte, with the ids that are used
WIDE = [(600, 600), (300, 520), (2, 32767), (32767, 2), (1, 700), (1030, 129)]
EDGE_IDS = [0, 1, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024]


def lid(draw, mat):
    """A left id: an index of columns."""
    return draw(pick(mat['ids'][1])) if 'ids' in mat else draw(ints(0, mat['r'] - 1))


def rid(draw, mat):
    return draw(pick(mat['ids'][0])) if 'ids' in mat else draw(ints(0, mat['l'] - 1))


@st.composite
def wide_matrices(draw, inhibit=True):
    l, r = draw(pick(WIDE))
    ids = []
    for n in (l, r):
        known = sorted({i for i in EDGE_IDS + [n // 2, n - 2, n - 1] if 0 <= i < n})
        ids.append([0] + draw(st.lists(pick(known), min_size=1, max_size=4)))
    # the pairs that are used have costs of their own, and so have those that a cut id would lead to
    cells = {}
    for a in sorted(set(ids[0])):
        for b in sorted(set(ids[1])):
            cells[a, b] = draw(costs)
            for x, y in ((a & 0xff, b), (a, b & 0xff), (a & 0x1ff, b & 0x1ff), (b, a)):
                if x < l and y < r and (x, y) not in cells:
                    cells[x, y] = 20000 if (a + b) % 2 else -20000
    if inhibit and chance(draw, 1, 2):
        cells[draw(pick(sorted(cells)))] = 0x7fff
    else:
        cells = {k: min(c, 32766) for k, c in cells.items()}
    return dict(l=l, r=r, cells=[[a, b, c] for (a, b), c in cells.items()], ids=ids)


@st.composite
def matrices(draw, max_size=6, square=None, inhibit=True):
    if chance(draw, 1, 4) if square is None else square:
        n = draw(ints(1, max_size))
        l = r = n
    else:
        l = draw(ints(1, max_size))
        r = draw(ints(1, max_size))
    sparse = draw(ints(0, 3))
    val = costs
    if inhibit:
        val = weighted((12, costs), (1, st.just(0x7fff)))
    else:
        val = costs.map(lambda c: min(c, 32766))
    if sparse == 0:
        cells = draw(st.lists(st.tuples(st.integers(0, l - 1), st.integers(0, r - 1), val), max_size=8, unique_by=lambda c: (c[0], c[1])))
        cells = [list(c) for c in cells]
    else:
        vals = draw(st.lists(val, min_size=l * r, max_size=l * r))
        cells = [[i % l, i // l, v] for i, v in enumerate(vals)]
        if sparse == 1:
            keep = draw(ints(0, l * r))
            cells = cells[:keep]
    return dict(l=l, r=r, cells=cells)


@st.composite
def heads(draw, alphabet, max_len=4):
    return ''.join(draw(st.lists(st.sampled_from(alphabet), min_size=1, max_size=max_len)))


def alphabets(draw):
    """A small alphabet for one world: few characters make matches, prefixes and homographs likely."""
    groups = [HIRA, KATA, KANJI, DIGIT, KNUM, ALPHA, 'αβω', 'абж', SYM, '𠮷😀𩸽', ' ']
    base = draw(st.lists(st.sampled_from(groups), min_size=1, max_size=3, unique=True))
    chars = []
    for g in base:
        chars += draw(st.lists(st.sampled_from(g), min_size=1, max_size=3, unique=True))
    return sorted(set(chars))


def odd_form(draw, w, fields='nyyns'):
    f = draw(pick(fields))
    x = draw(pick(ENDS[:12] if chance(draw, 1, 2) else ODD_FORMS))
    w[f] = draw(pick([w['h'] + x, x + w['h'], x, w['h'] + x + w['h']]))


@st.composite
def word(draw, alphabet, mat, npos, texts_pool=None, auto=False, extreme=False):
    w = {'h': draw(heads(alphabet))}
    if chance(draw, 1, 25):
        w['h'] = draw(heads(alphabet, 30))
    # a left id is an index of columns of the left word's right ids: left ids < r, right ids < l
    w['l'] = -1 if chance(draw, 1, 15) else lid(draw, mat)
    w['r'] = rid(draw, mat)
    w['c'] = draw(costs)
    if auto and chance(draw, 1, 5):
        w['c'] = -32768
    if npos > 1:
        w['p'] = draw(ints(0, npos - 1))
    k = draw(ints(0, 7))
    if k >= 4:
        w['n'] = draw(heads(alphabet))
    if k >= 5:
        w['y'] = draw(heads(alphabet))
    if k == 7:
        w['s'] = draw(heads(alphabet))
    if chance(draw, 1, 10):
        odd_form(draw, w)
    if chance(draw, 1, 4):
        w['g'] = draw(st.lists(st.integers(0, 2 ** 31 - 1), max_size=3))
    return w


def add_refs(draw, world, k, spell):
    """Dictionary forms and A/B units and word structure for some words of dictionary k."""
    lex = world['lex'][k]
    nsys = len(world['lex'][0])
    for i, w in enumerate(lex):
        if chance(draw, 1, 4):
            # any entry, also the last
            w['d'] = draw(weighted((2, ints(0, i)), (1, ints(0, len(lex) - 1)), (1, st.just(len(lex) - 1))))
        if chance(draw, 1, 3):
            w['m'] = draw(pick(['B', 'C']))
            for f in draw(pick(['a', 'ab', 'b', 'abw'])):
                w[f] = units_for(draw, world, k, w) if spell or chance(draw, 4, 5) else [ref(draw, world, k) for _ in range(draw(ints(1, 3)))]


def ref(draw, world, k):
    nsys = len(world['lex'][0])
    if k and chance(draw, 1, 2):
        j = draw(ints(0, len(world['lex'][k]) - 1))
        return ('IU' if chance(draw, 1, 3) else 'U') + str(j)
    j = draw(ints(0, nsys - 1))
    return ('I' if chance(draw, 1, 3) else '') + str(j) if not k or chance(draw, 1, 3) else str(j)


def units_for(draw, world, k, w):
    """Units whose headwords spell the word: cuts it and appends the pieces to the lexicon when they are missing."""
    h = w['h']
    if len(h) < 2:
        return []
    cuts = sorted(draw(st.sets(st.integers(1, len(h) - 1), min_size=1, max_size=3)))
    out = []
    for b, e in zip([0] + cuts, cuts + [len(h)]):
        piece = h[b:e]
        opts = [('U' if k else '') + str(j) for j, x in enumerate(world['lex'][k]) if x['h'] == piece]
        if k:
            opts += [str(j) for j, x in enumerate(world['lex'][0]) if x['h'] == piece]
        if opts:
            r = draw(pick(opts))
        else:
            world['lex'][k].append(dict(h=piece, l=draw(pick([-1, 0])) if 'ids' in world['mat'] else draw(ints(-1, world['mat']['r'] - 1)), r=0, c=draw(costs), p=draw(ints(0, len(BASE_POS) - 1)), y='ヨ' + piece))
            r = ('U' if k else '') + str(len(world['lex'][k]) - 1)
        if chance(draw, 1, 4):
            r = 'I' + r
        out.append(r)
    return out


def plain_if_other(world, k, r):
    from .world import gid, resolve_ref
    if not r.startswith('I'):
        return r
    g = resolve_ref(world, k, r)
    direct = resolve_ref(world, k, r[1:])
    head = world['lex'][g >> 28][g & 0x0fffffff]['h']
    return r if head == world['lex'][direct >> 28][direct & 0x0fffffff]['h'] else r[1:]


@st.composite
def positions(draw, n):
    """Extra parts of speech."""
    part = st.sampled_from(['動詞', '形容詞', 'x', '一般', '名詞', '終止形-一般', '*', '長' * 130])
    out = []
    for _ in range(n):
        out.append([draw(part) for _ in range(6)])
    return out


CHAR_ATOMS = sorted(set(NORMAL))


def default_unk(draw, mat, npos=len(BASE_POS)):
    cats = ['DEFAULT', 'SPACE', 'KANJI', 'SYMBOL', 'NUMERIC', 'ALPHA', 'HIRAGANA', 'KATAKANA', 'KANJINUMERIC', 'GREEK', 'CYRILLIC']
    lines = []
    for c in cats:
        for _ in range(draw(pick([1, 0, 1, 2, 3]))):
            lines.append([c, lid(draw, mat), rid(draw, mat), draw(costs), draw(ints(0, npos - 1))])
    return lines


def chardef_text(draw, safe=True):
    """The shipped ranges with generated category settings. safe: words of alphabetic scripts can always reach the next
    possible word start (ungrouped candidates of these scripts end where no word may begin)."""
    from .world import resource
    lines = []
    for line in resource('char.def').split('\n'):
        c = line.split()
        if c and not c[0].startswith(('0x', '#')):
            if chance(draw, 2, 3):
                group = 1 if safe and c[0] in ('ALPHA', 'GREEK', 'CYRILLIC') else draw(ints(0, 1))
                lines.append('{} {} {} {}'.format(c[0], draw(ints(0, 1)), group, draw(ints(0, 4))))
                continue
        lines.append(line)
    return '\n'.join(lines)


@st.composite
def worlds(draw, users=0, auto=False, inputs=None, rewrite=None, refs=True, max_words=9, inhibit=True, oov=None, safe=True, crowd=40, wide=40):
    """users: number of user dictionaries, or a strategy for it."""
    mat = draw(wide_matrices(inhibit=inhibit)) if wide and chance(draw, 1, wide) else draw(matrices(inhibit=inhibit))
    alpha = alphabets(draw)
    world = {'pos': [list(p) for p in BASE_POS], 'mat': mat, 'alpha': alpha}
    world['pos'] += draw(positions(draw(ints(0, 2))))
    if wide and chance(draw, 1, wide):
        # more parts of speech than fit in a byte
        n = draw(pick([124, 252, 300, 520]))
        world['pos'] += [['型{}'.format(i // 7), str(i), '*', '*', '*', '*'] for i in range(n)]
    npos = len(world['pos'])
    # one entry per part of speech comes first so that the table is complete and in order
    first = [dict(h='基', l=-1, r=-1, p=i) for i in range(npos)]
    world['lex'] = [first + draw(st.lists(word(alpha, mat, npos), min_size=1, max_size=max_words))]
    if crowd and chance(draw, 1, crowd):
        # many entries of one headword, or of the prefixes of one word
        w0 = draw(pick(world['lex'][0][npos:]))
        n = draw(pick([20, 40, 70, 130, 200]))
        k = draw(ints(1, 1000))
        a, b = draw(ints(1, 97)), draw(ints(-3000, 3000))
        for i in range(n):
            x = dict(w0, c=(i * a * 7 + k) % 6007 + b, n='複{}'.format(i), l=mat['ids'][1][i % len(mat['ids'][1])] if 'ids' in mat else (i + k) % mat['r'],
                     r=mat['ids'][0][i * k % len(mat['ids'][0])] if 'ids' in mat else (i * k) % mat['l'])
            if k % 3 == 0:
                x['h'] = ''.join(alpha[(k + j) % len(alpha)] for j in range(i % 60 + 1))
            world['lex'][0].append(x)
    if crowd and chance(draw, 1, crowd):
        # a long headword
        w0 = draw(pick(world['lex'][0][npos:]))
        n = draw(pick([22, 43, 64, 86, 128, 129, 200, 300]))
        world['lex'][0].append(dict(w0, h=((w0['h'] + alpha[0]) * n)[:n], c=draw(costs)))
    if refs:
        add_refs(draw, world, 0, refs == 'spell')
    nu = users if isinstance(users, int) else draw(users)
    if nu and wide and not isinstance(users, int) and chance(draw, 1, wide):
        nu = draw(pick([8, 11, 15]))
    for k in range(1, nu + 1):
        extra = draw(ints(0, 2))
        own = [['使{}'.format(draw(ints(0, 3)) if chance(draw, 1, 3) else k), str(j), '*', '*', '*', '*'] for j in range(extra)]
        start = len(world['pos'])
        world['pos'] += own
        allowed = list(range(npos)) + list(range(start, start + extra))
        ws = draw(st.lists(word(alpha, mat, 1, auto=auto), min_size=1, max_size=2 if nu > 3 else 6))
        for w in ws:
            w['p'] = draw(pick(allowed))
        for j in range(extra):
            ws.append(dict(h=draw(heads(alpha)), p=start + j, c=draw(costs)))
        world['lex'].append(ws)
        if refs:
            add_refs(draw, world, k, refs == 'spell')
    if refs == 'spell':
        # inline references name the first entry of their description, which may have another headword
        for k, lex in enumerate(world['lex']):
            for x in lex:
                for f in 'abw':
                    if x.get(f):
                        x[f] = [plain_if_other(world, k, r) for r in x[f]]
    choice = oov if oov is not None else draw(pick(['both', 'both', 'both', 'simple', 'mecab']))
    simple = ['simple', lid(draw, mat), rid(draw, mat), draw(costs), draw(ints(0, npos - 1))]
    world['oov'] = {'both': ['mecab', simple], 'simple': [simple], 'mecab': ['mecab']}[choice]
    world['unk'] = default_unk(draw, mat, npos)
    world['chardef'] = chardef_text(draw, safe) if chance(draw, 1, 2) else None
    if inputs is None:
        inputs = draw(pick([[], ['default'], ['default', 'psm'], ['psm', 'default'], ['psm']]))
    world['inputs'] = [p if p == 'default' else ['psm', draw(st.lists(st.sampled_from(list(PSM) + ['😀', 'あ']), min_size=1, max_size=5, unique=True)), draw(pick(['ー', '-', 'ん', '😀']))] for p in inputs]
    if rewrite is None:
        rewrite = draw(pick([[], ['num'], ['kata'], ['num', 'kata'], ['kata', 'num']]))
    world['rewrite'] = [['num', draw(st.booleans())] if p == 'num' else ['kata', draw(ints(0, 4)), 0] for p in rewrite]
    return world


VARIANTS = {'a': 'AＡａ𝐀', 'b': 'BＢｂ', 'z': 'ZＺｚ', 'é': 'É', 'α': 'Αα', 'ω': 'Ω', 'а': 'А', 'ж': 'Ж', 'ア': 'ｱ', 'カ': 'ｶ', 'ー': 'ｰ〜',
            '.': '．', ',': '，', '!': '！', ' ': '\u3000', '1': '１①¹', '0': '０𝟘', '2': '２'}


def near(draw, s):
    """Something that a sloppy comparison takes for s."""
    import unicodedata
    k = draw(ints(0, 11))
    if k <= 2:
        return s.swapcase() if k == 0 else s.upper() if k == 1 else s.lower()
    if k <= 4:
        return s + draw(pick([' ', '\u3000', '\n', '\0', '\ufe0f'])) if k == 3 else ' ' + s
    if k <= 7:
        return unicodedata.normalize(['NFKC', 'NFD', 'NFC'][k - 5], s)
    if k == 8:
        return ''.join(chr(ord(c) + 0xfee0) if '!' <= c <= '~' else c for c in s)
    if k == 9:
        return ''.join(chr(ord(c) + 0x60) if 'ぁ' <= c <= 'ゖ' else chr(ord(c) - 0x60) if 'ァ' <= c <= 'ヶ' else c for c in s)
    return s + s[-1:] if k == 10 else s[:-1]


def fragment(draw, world, heads_, wild=True):
    k = draw(ints(0, 11))
    if k <= 4 and heads_:
        h = draw(pick(heads_))
        if chance(draw, 1, 5):
            h = ''.join(draw(pick(c + VARIANTS.get(c, ''))) for c in h)
        return h
    if k <= 7:
        return ''.join(draw(st.lists(st.sampled_from(world['alpha']), min_size=1, max_size=4)))
    if not wild:
        return draw(pick(world['alpha']))
    if k == 8:
        return ''.join(draw(st.lists(special_char, min_size=1, max_size=4)))
    if k == 9:
        return draw(pick(DECOMP + ['…', '㈱', 'ー〜ー', '〜〜', '1,000', '二十', '1.5万', 'カタカナ', 'アァイ', 'ABC', 'Ａｂ', '……', '\n', '\r\n']))
    if k == 10:
        return draw(any_char)
    return draw(pick(world['alpha'])) * draw(ints(2, 8))


@st.composite
def texts(draw, world, max_fragments=7, wild=True, long_=True):
    hs = [w['h'] for lex in world['lex'] for w in lex if w['h'] != '基']
    n = draw(ints(0, max_fragments))
    t = ''.join(fragment(draw, world, hs, wild) for _ in range(n))
    if wild and chance(draw, 1, 10):
        # something unusual at an end
        x = draw(pick(ENDS))
        t = x + t if chance(draw, 1, 2) else t + x
    if long_ and chance(draw, 1, 60):
        # a long run of one character
        i = draw(ints(0, len(t)))
        t = t[:i] + draw(pick(world['alpha'])) * draw(pick([100, 128, 257, 300])) + t[i:]
    if long_ and t and chance(draw, 1, 40):
        t = t * draw(pick([2, 10, 60]))
        t = t[:1500]
    return t


def expand(text):
    """Texts of fixed cases may be given in pieces: [[piece, times], ...]."""
    return text if isinstance(text, str) else ''.join(a * n for a, n in text)


def odd_world(**kw):
    """A world with one word for each unusual form in each field, and a text of the words."""
    words = []
    for i, x in enumerate(ODD_FORMS):
        for f in 'nyb':
            w = dict(h=chr(0x5000 + len(words)) + 'あ', c=-3000 - i, p=i % 4, y='ヨミ')
            if f == 'b':
                w['n'] = w['y'] = x
            else:
                w[f] = x
            words.append(w)
    # dictionary forms: the entry after, of the last one the first of these
    n = len(BASE_POS)
    for i, w in enumerate(words):
        w['d'] = n + (i + 1) % len(words)
    for i, x in enumerate(ODD_FORMS):
        words.append(dict(h=chr(0x5800 + i) + 'い', s=x, c=-3000, y='ヨミ'))
    return fixed_world(words=words, **kw), [''.join(w['h'] for w in words[i:i + 40]) for i in range(0, len(words), 40)]


def fixed_world(**kw):
    """A small world for fixed cases."""
    w = {'pos': [list(p) for p in BASE_POS], 'mat': dict(l=2, r=2, cells=[[0, 0, 5], [1, 0, -7], [0, 1, 30], [1, 1, 200]]), 'alpha': list('あい東1a'),
         'lex': [[dict(h='基', l=-1, r=-1, p=i) for i in range(len(BASE_POS))]], 'oov': [['simple', 0, 0, 900, 0]], 'unk': [], 'chardef': None, 'inputs': ['default'], 'rewrite': []}
    words = kw.pop('words', [])
    w['lex'][0] += words
    w['lex'] += kw.pop('users', [])
    w.update(kw)
    return w
