"""C19: sources that cannot be represented are refused, never corrupted silently."""
import json
import os

from hypothesis import strategies as st

from checks.c05 import check_lexicon
from vh import gen, lexgen, model, world
from vh.core import Check, Violation, eq, expect_error, require, short, sut

UNITS = ['a', 'é', 'あ', '😀']
NOT_NUMBER = ['x', '', '1.5', '0x10', '--1', '1a', '*']
BEYOND = [32768, -32769, 32769, 40000, 65535, 65536, -65536, 70000, 131072 + 3, 2 ** 31, 2 ** 32 + 1, -2 ** 31 - 1]
BAD_ESCAPE = ['\\u{110000}', '\\u{ffffffff}', '\\u{1ffffffff}', '\\ud800', '\\udfff', '\\uDBFF', '\\u{d800}', '\\u{00dc00}', '\\u{ffffffffffffffff}']
STRINGS = [4, 5, 6, 7, 8, 9, 10, 11, 12]


def of_bytes(c, n, fill='a'):
    """A string of n UTF-8 bytes made of c."""
    u = len(c.encode('utf-8'))
    return c * (n // u) + fill * (n % u)


def of_units(c, n, fill='a'):
    u = 2 if ord(c) > 0xffff else 1
    return c * (n // u) + fill * (n % u)


@st.composite
def lexicon_faults(draw, rows, n_sys):
    """(fault kind, changed rows); n_sys is None for a system dictionary."""
    n = len(rows)
    i = draw(gen.ints(0, n - 1))
    user = n_sys is not None
    kind = draw(gen.pick(['columns', 'headword', 'headword length', 'string length', 'units', 'synonym count', 'number', 'number', 'synonym', 'reference', 'reference', 'inline',
                          'dictionary form', 'A-mode', 'escape', 'null', 'homographs']))
    f = {'kind': kind, 'row': i}
    if kind == 'columns':
        f['n'] = draw(gen.pick([17, 17, 17, 1, 5, 13, 16]))
    elif kind == 'headword':
        f['l'] = draw(gen.pick(['0', '-1', '5']))
    elif kind == 'headword length':
        f['c'] = draw(gen.pick(UNITS))
        f['n'] = draw(gen.pick([32768, 32768, 32769, 32767 + 128, 65536, 65537, 65536 + 300, 98304]))
        f['l'] = draw(gen.pick(['0', '-1']))
    elif kind == 'string length':
        f['col'] = draw(gen.pick(STRINGS))
        f['c'] = draw(gen.pick(UNITS))
        f['n'] = draw(gen.pick([32768, 32768, 32769, 32768 + 128, 40000, 65535, 65536, 65537, 65536 + 300]))
    elif kind == 'units':
        f['col'] = draw(gen.pick([15, 16, 17]))
        f['n'] = draw(gen.pick([128, 128, 129, 255, 256, 257, 384, 1000]))
        f['ref'] = draw(gen.ints(0, n - 1))
    elif kind == 'synonym count':
        f['n'] = draw(gen.pick([128, 128, 129, 255, 256, 257, 1000]))
    elif kind == 'number':
        f['col'] = draw(gen.pick([1, 2, 3]))
        f['v'] = str(draw(gen.pick(BEYOND))) if gen.chance(draw, 3, 4) else draw(gen.pick(NOT_NUMBER))
    elif kind == 'synonym':
        f['v'] = '/'.join(draw(gen.pick([['x'], [''], ['1', ''], ['1', 'x', '2'], [str(2 ** 31)], [str(-2 ** 31 - 1)], ['1', str(2 ** 32)], ['1.5'], ['1', str(2 ** 63)]])))
    elif kind == 'reference':
        f['col'] = draw(gen.pick([15, 16, 17]))
        own = not user or draw(st.booleans())
        size = n if own else n_sys
        v = draw(gen.pick([size, size, size + 1, size + 255, 65536 + size, 1 << 20, 1 << 28, (1 << 28) + size, 1 << 29, (1 << 29) + 1, (2 << 28) + size, 1 << 31, 1 << 32, (1 << 32) + 1]))
        k = draw(gen.ints(0, 5))
        if k == 0:
            v = (1 << 28) + draw(gen.ints(0, n - 1))
        f['v'] = draw(gen.pick(['', 'U'])) + str(v) if not user else 'U' * own + str(v)
        if k == 1:
            f['v'] = draw(gen.pick(['-1', 'U-1', 'U', 'x', '', '1.5', '-5', 'u0', 'V0', '0U']))
        f['at'] = draw(gen.ints(0, 2))
        f['of'] = draw(gen.ints(0, 2))
    elif kind == 'inline':
        f['col'] = draw(gen.pick([15, 16, 17]))
        f['how'] = draw(gen.pick(['surface', 'pos', 'reading', 'short', 'short']))
        f['ref'] = draw(gen.ints(0, n - 1))
        f['part'] = draw(gen.ints(0, 5))
    elif kind == 'dictionary form':
        f['v'] = draw(gen.pick([str(n), str(n), str(n + 1), str(n + 255), '65536', str(2 ** 31), str(2 ** 32), str(2 ** 32 - 1), str(1 << 28), '-2', '-3', '-{}'.format(2 ** 31), 'x', '', '1.5', 'U0']))
    elif kind == 'A-mode':
        f['col'] = draw(gen.pick([15, 16]))
        f['ref'] = draw(gen.ints(0, n - 1))
        f['both'] = draw(st.booleans())
    elif kind == 'escape':
        f['col'] = draw(gen.pick([0] + STRINGS))
        f['v'] = draw(gen.pick(['', 'あ', 'a'])) + draw(gen.pick(BAD_ESCAPE)) + draw(gen.pick(['', 'x']))
    elif kind == 'null':
        f['v'] = draw(gen.pick(['a', 'あ', ''])) + draw(gen.pick(['\\u0000', '\\u{0}', '\\u{0000}'])) + draw(gen.pick(['b', 'あ', '']))
        f['l'] = draw(gen.pick(['0', '5']))
    elif kind == 'homographs':
        f['n'] = draw(gen.pick([256, 256, 257, 300, 512, 513]))
        f['sep'] = draw(st.booleans())
    return f


def plain_inline(cols):
    return ','.join(lexgen.protect(model.unescape(c), 0).replace('\r', '\\u000d') for c in cols)


def own_ref(i, user):
    return 'U{}'.format(i) if user else str(i)


def apply_fault(rows, f, user):
    rows = [list(r) for r in rows]
    r = rows[f['row']]
    k = f['kind']
    r += ['*'] * (19 - len(r))
    if k == 'columns':
        del r[f['n']:]
    elif k == 'headword':
        r[0], r[1] = '', f['l']
    elif k == 'headword length':
        r[0], r[1] = of_bytes(f['c'], f['n']), f['l']
    elif k == 'string length':
        r[f['col']] = of_units(f['c'], f['n'])
    elif k == 'units':
        r[14] = 'C'
        r[f['col']] = '/'.join([own_ref(f['ref'], user)] * f['n'])
    elif k == 'synonym count':
        r[18] = '/'.join(map(str, range(f['n'])))
    elif k == 'number':
        r[f['col']] = f['v']
    elif k == 'synonym':
        r[18] = f['v']
    elif k == 'reference':
        r[14] = 'C'
        parts = [own_ref(0, user)] * f['of']
        parts.insert(f['at'], f['v'])
        r[f['col']] = '/'.join(parts)
    elif k == 'inline':
        r[14] = 'C'
        t = rows[f['ref']]
        cols = [t[4], *t[5:11], t[11]]
        unknown = '無い語'
        if f['how'] == 'surface':
            cols[0] = unknown
        elif f['how'] == 'pos':
            cols[1 + f['part']] = unknown
        elif f['how'] == 'reading':
            cols[7] = unknown
        else:
            cols = cols[:1 + f['part']] + cols[:1]
            if len(cols) < 2:
                cols = ['ア'] * 2
        r[f['col']] = plain_inline(cols)
    elif k == 'dictionary form':
        r[13] = f['v']
    elif k == 'A-mode':
        r[14] = 'A'
        r[15] = r[16] = '*'
        for c in ([15, 16] if f['both'] else [f['col']]):
            r[c] = own_ref(f['ref'], user)
    elif k == 'escape':
        r[f['col']] = f['v']
        if f['col'] == 0:
            r[1] = '0'
    elif k == 'null':
        r[0], r[1] = f['v'], f['l']
    elif k == 'homographs':
        # each copy is valid for itself; the table counts homographs in one byte
        copy = [model_same(r[0]), '0', '0', '0', 'x', '品', '詞', '*', '*', '*', '*', 'x', 'x', '*', 'A', '*', '*', '*', '*']
        at = len(rows) if f['sep'] else f['row']
        if at != len(rows):
            return rows + [list(copy) for _ in range(f['n'])]
        return rows + [list(copy) for _ in range(f['n'])] + [[copy[0] + 'x'] + copy[1:]]
    return rows


def model_same(h):
    return h


@st.composite
def limits(draw, lex, user_of=None):
    """A change of one word that goes exactly to a limit and has to be accepted."""
    n = len(lex)
    i = draw(gen.ints(0, n - 1))
    kind = draw(gen.pick(['headword length', 'string length', 'units', 'synonyms', 'numbers', 'reference', 'dictionary form', 'homographs', 'escape', 'null']))
    f = {'kind': kind, 'row': i}
    if kind == 'headword length':
        f['c'] = draw(gen.pick(UNITS))
        f['n'] = draw(gen.pick([32767, 32766, 32765, 127, 128]))
        f['l'] = draw(gen.pick([0, -1]))
        f['esc'] = gen.chance(draw, 1, 3)
    elif kind == 'string length':
        f['field'] = draw(gen.pick(['s', 'y', 'n', 'p']))
        f['c'] = draw(gen.pick(UNITS))
        f['n'] = draw(gen.pick([32767, 32766, 127, 128]))
        f['part'] = draw(gen.ints(0, 5))
    elif kind == 'units':
        f['field'] = draw(gen.pick('abw'))
        f['n'] = draw(gen.pick([127, 127, 126]))
    elif kind == 'synonyms':
        f['v'] = draw(gen.pick([list(range(127)), [2 ** 31 - 1], [-2 ** 31], [0, 2 ** 31 - 1, -1]]))
    elif kind == 'numbers':
        f['v'] = [draw(gen.pick([-32768, 32767, -1, 0])) for _ in range(3)]
    elif kind == 'reference':
        f['field'] = draw(gen.pick('abw'))
        f['sys'] = draw(st.booleans())
    elif kind == 'homographs':
        f['n'] = draw(gen.pick([254, 254, 253, 128, 127]))
    elif kind == 'escape':
        f['field'] = draw(gen.pick('hsyn'))
        f['v'] = draw(gen.pick(['\\u{10ffff}', '\\u{10FFFF}x', '\\u{0010ffff}', '\\ud7ff', '\\ue000', '\\uffff', '\\u{d7ff}']))
    return f


def apply_limit(lex, f, n_sys):
    lex = [dict(w) for w in lex]
    w = lex[f['row']]
    k = f['kind']
    n = len(lex)
    if k == 'headword length':
        w['h'], w['l'] = of_bytes(f['c'], f['n']), f['l']
        if f['esc'] and len(w['h']) * 8 < 130000:
            w['h'] = ''.join(lexgen.escape(c, 2) for c in w['h'])
    elif k == 'string length':
        s = of_units(f['c'], f['n'])
        if f['field'] == 'p':
            w['p'] = list(w['p'])
            w['p'][f['part']] = s
        else:
            w[f['field']] = s
            if f['field'] == 's' and f['n'] > 1000 and len(s.encode('utf-16-le')) > 65534:
                w['s'] = s
    elif k == 'units':
        w['m'] = 'C'
        w[f['field']] = [['id', n - 1, 0]] * f['n']
    elif k == 'synonyms':
        w['g'] = f['v']
    elif k == 'numbers':
        w['l'], w['r'], w['c'] = f['v']
    elif k == 'reference':
        w['m'] = 'C'
        w[f['field']] = [['id', n - 1, 0], ['id', 0, 1]]
        if n_sys and f['sys']:
            w[f['field']] = [['sys', n_sys - 1], ['sys', 0]]
    elif k == 'dictionary form':
        w['d'] = n - 1
    elif k == 'homographs':
        # in all 255 at most: the words there are, and as many copies as fit
        have = sum(1 for x in lex if x['l'] != -1 and model.unescape(x['h']) == model.unescape(w['h']))
        lex += [dict(h=w['h'], l=0, r=0, c=j, s='x', p=lex[0]['p'], y='x', n='x', d='*', m='A') for j in range(f['n'] - have + 1)]
    elif k == 'escape':
        w[f['field']] = f['v']
        if f['field'] == 'h':
            w['l'] = 0
    elif k == 'null':
        # only the index cannot hold one
        w['h'], w['l'] = 'a\\u0000b', -1
        w['s'] = w['n'] = w['y'] = 'x\\u0000y'
    return lex


@st.composite
def mutation(draw, n):
    return {'row': draw(gen.ints(0, n - 1)), 'how': draw(gen.pick(['set', 'set', 'set', 'set', 'insert', 'delete'])), 'col': draw(gen.ints(0, 18)),
            'v': draw(st.one_of(lexgen.raw(['あ', 'a', '/', ',', '1'], empty=True), st.sampled_from(['', '*', '0', '-1', '1', 'U0', 'U1', '0/1', '/', 'U0/0', '1,2,3', 'A', 'C', '32767', '-32768']),
                                st.integers(-70000, 70000).map(str), lexgen.raw(['0', '1', '-', 'U', '/'])))}


def apply_mutation(rows, m):
    rows = [list(r) for r in rows]
    r = rows[m['row']]
    c = min(m['col'], len(r) - 1)
    if m['how'] == 'set':
        r[c] = m['v']
    elif m['how'] == 'insert':
        r.insert(c, m['v'])
    else:
        del r[c]
    return rows


# ---------------------------------------------------------------- matrix

@st.composite
def matrix_faults(draw, mat):
    l, r = mat['l'], mat['r']
    kind = draw(gen.pick(['header', 'header', 'cell', 'cell', 'cell', 'cost', 'number', 'columns']))
    f = {'kind': 'matrix ' + kind}
    at = lambda hi: draw(gen.ints(0, hi - 1))
    if kind == 'header':
        f['v'] = draw(gen.pick(['', ' ', '1', '{} {} 1'.format(l, r), '-1 {}'.format(r), '{} -1'.format(l), '-1 -1', 'x 1', '1.5 1', '{}'.format(l), '32768 1', '1 32768', '65536 1', '1 65537', '{},{}'.format(l, r)]))
    else:
        line = [at(l), at(r), 5]
        if kind == 'cell':
            k = draw(gen.ints(0, 5))
            if k <= 1:
                line[0] = draw(gen.pick([l, l, l + 1, 255 + l, 65536 + l]))
            elif k <= 3:
                line[1] = draw(gen.pick([r, r, r + 1, 255 + r, 65536 + r]))
            elif k == 4:
                line[0] = draw(gen.pick([-1, -1, -l, -l - 1]))
            else:
                line[1] = draw(gen.pick([-1, -1, -r, -r - 1]))
        elif kind == 'cost':
            line[2] = draw(gen.pick(BEYOND))
        elif kind == 'number':
            line[draw(gen.ints(0, 2))] = draw(gen.pick(['x', '1.5', '0x1', '*']))
        else:
            line.append(draw(gen.pick(['0', 'x', '#', '5'])))
        f['v'] = ' '.join(map(str, line))
        f['at'] = draw(gen.ints(0, len(mat['cells'])))
    return f


def matrix_source(mat, f):
    head = '{} {}'.format(mat['l'], mat['r'])
    lines = ['{} {} {}'.format(*c) for c in mat['cells']]
    if f:
        if f['kind'] == 'matrix header':
            head = f['v']
        else:
            lines.insert(f['at'], f['v'])
    return '\n'.join([head] + lines) + '\n'


# ---------------------------------------------------------------- definitions

CATS = ['DEFAULT', 'SPACE', 'KANJI', 'SYMBOL', 'NUMERIC', 'ALPHA', 'HIRAGANA', 'KATAKANA', 'KANJINUMERIC', 'GREEK', 'CYRILLIC', 'USER1', 'USER2', 'USER3', 'USER4', 'NOOOVBOW']
NO_CAT = ['', 'X', 'default', 'USER5', 'USER0', 'KANJI2', '1', 'NOOOV', 'Kanji', 'ALPHA,KANJI', '漢字', 'get', 'value', 'get_id', '__class__']


@st.composite
def definitions(draw):
    """char.def, unk.def and rewrite.def that are in order, and perhaps one line that is not."""
    ranges = []
    for _ in range(draw(gen.ints(1, 5))):
        lo = draw(gen.pick([0x30, 0x41, 0x61, 0x3041, 0x30a1, 0x4e00, 0x1f600, 0x20000]))
        hi = lo + draw(gen.pick([0, 0, 1, 9, 25, 255]))
        ranges.append('0x{:04X}{} {}'.format(lo, '' if lo == hi and draw(st.booleans()) else '..0x{:04x}'.format(hi), ' '.join(draw(st.lists(st.sampled_from(CATS), min_size=1, max_size=2, unique=True)))))
    cats = draw(st.lists(st.sampled_from(CATS), min_size=1, max_size=5, unique=True))
    props = ['{} {} {} {}'.format(c, draw(gen.ints(0, 1)), draw(gen.ints(0, 1)), draw(gen.ints(0, 4))) for c in cats]
    pos = ','.join(world.BASE_POS[0])
    unk = ['{},0,0,{},{}'.format(draw(gen.pick(cats)), draw(gen.pick([0, 100, 32767, -32768])), pos) for _ in range(draw(gen.ints(0, 4)))]
    chars = draw(st.lists(st.sampled_from('ⅠⅡ⺀〇①あか㈱xyz'), max_size=4, unique=True))
    keys = draw(st.lists(st.sampled_from(['うﾞ', 'ab', 'abc', 'か', 'が', '㌔㍉', 'ﾎﾟ', 'x']), max_size=4, unique=True))
    rewrite = chars + ['{}\t{}'.format(k, draw(gen.pick(['う', 'zz', 'か', '長い']))) for k in keys]
    case = dict(ranges=ranges, props=props, unk=unk, rewrite=rewrite, order=draw(gen.ints(0, 1)))
    kind = draw(gen.pick(['char range', 'char range', 'char category', 'category settings', 'category settings', 'unk', 'unk', 'rewrite', 'rewrite', 'none', 'none']))
    f = {'kind': kind, 'at': draw(gen.ints(0, 5))}
    if kind == 'char range':
        f['v'] = draw(gen.pick(['0x{:04X}..0x{:04X} KANJI'.format(a, b) for a, b in ((0x31, 0x30), (0x3042, 0x3041), (0x100, 0xff), (0x20000, 0x1ffff), (0x4e00, 0))] + ['0x30', '0x30..0x39', '0xZZ KANJI', '0x30..0xZZ KANJI', '0x30..x KANJI']))
    elif kind == 'char category':
        pre = draw(gen.pick(['', '', 'KANJI ', 'ALPHA KANJI ']))
        f['v'] = '0x{:04X} {}{}'.format(draw(gen.pick([0x30, 0x3042])), pre, draw(gen.pick([c for c in NO_CAT if c])))
    elif kind == 'category settings':
        other = draw(gen.pick([c for c in CATS if c not in cats]))
        f['v'] = draw(gen.pick([other + ' 1 1', other + ' 1', '{} 1 1 2'.format(draw(gen.pick([c for c in NO_CAT if c]))), draw(gen.pick(cats)) + ' 1 1 2', draw(gen.pick(cats)) + ' 0 0 0',
                                other + ' 1 1 x', other + ' 1 1 1.5', draw(gen.pick(props))]))
    elif kind == 'unk':
        c = draw(gen.pick(cats))
        undefined = draw(gen.pick([c for c in CATS if c not in cats]))
        f['v'] = draw(gen.pick(['{},0,0,0,{}'.format(c, ','.join(world.BASE_POS[0][:5])), '{},0,0,0'.format(c), c, '{},0,0,0,{}'.format(draw(gen.pick(NO_CAT)), pos), '{},0,0,0,{}'.format(undefined, pos),
                                '{},x,0,0,{}'.format(c, pos), '{},0,1.5,0,{}'.format(c, pos), '{},0,0,,{}'.format(c, pos), '{},,0,0,{}'.format(c, pos), '{} 0 0 0 {}'.format(c, pos.replace(',', ' '))]))
    elif kind == 'rewrite':
        f['v'] = draw(gen.pick(['ab', 'がぎ', 'か\u3099', '😀😀', 'a b c', 'あ い う え', 'zx y #z', 'zy\tx\t# x', 'zz い #', '+ # +'] + ([draw(gen.pick(keys)) + ' zz'] * 3 if keys else [])))
    case['fault'] = f
    return case


@st.composite
def cases(draw):
    k = draw(gen.ints(0, 19))
    if k <= 3:
        return {'part': 'definitions', **draw(definitions())}
    alpha = gen.alphabets(draw)
    poses = draw(lexgen.pos_list(alpha, draw(gen.ints(1, 3)), part=st.sampled_from(alpha + ['*', '名詞'])))
    sys_ = draw(lexgen.lexicon(alpha, poses, max_size=6, extreme=False))
    case = {'part': 'lexicon', 'sys': sys_, 'mat': {'l': 1, 'r': 1, 'cells': [[0, 0, 0]]}}
    if k <= 6:
        case['part'] = 'matrix'
        case['mat'] = draw(gen.matrices(max_size=5))
        case['fault'] = draw(matrix_faults(case['mat'])) if gen.chance(draw, 4, 5) else None
        return case
    user = None
    if gen.chance(draw, 2, 5):
        user = case['user'] = draw(lexgen.lexicon(alpha, poses + draw(lexgen.pos_list(alpha, 1, part=st.sampled_from(alpha))), n_sys=len(sys_), max_size=5, extreme=False))
        for w in user:
            for f in 'abw':
                w[f] = [r if not (r[0] == 'in' and not r[1] and not sys_[r[2]]['y']) else ['sys', r[2]] for r in w.get(f) or []]
    target = user or sys_
    n_sys = len(sys_) if user else None
    if k <= 14:
        case['fault'] = draw(lexicon_faults(target, n_sys))
    elif k <= 16:
        case['part'] = 'limit'
        case['fault'] = draw(limits(target))
    else:
        case['part'] = 'mutation'
        for w in target:
            for f in 'abw':
                w[f] = [(['id', r[1], r[2]] if r[0] == 'id' else r if r[0] == 'sys' else ['id', r[2], 0] if r[1] else ['sys', r[2]]) for r in w.get(f) or []]
        case['fault'] = draw(mutation(len(target)))
    return case


class C19(Check):
    id = 'C19'
    rule = ('One fault (missing column, over-long string, number beyond its field, bad reference, bad escape, cell outside the matrix, unknown category, ...) at any line of a valid random '
            'lexicon, user lexicon, matrix, char.def, unk.def or rewrite.def must make the build or the opening fail; the same sources without the fault, and changes that go exactly to a limit, '
            'must be accepted and read back; a random change of a column is refused or leaves all other entries intact. Non-trivial: more than one line besides the changed one, or a limit.')
    quick = 600
    thorough = 9000
    case_timeout = 120

    def strategy(self, tier):
        return cases()

    def run(self, case, ctx):
        with ctx.dir() as d:
            return getattr(self, 'run_' + case['part'])(case, d)

    # -------------------------------------------------------------- lexicons

    def base(self, case, d):
        path = str(d / 'base.dic')
        with sut('building the system dictionary without the fault'):
            world.build_system(path, lexgen.text([lexgen.row(w, case['sys']) for w in case['sys']]), matrix_source(case['mat'], None))
        return path

    def rows(self, case):
        user = case.get('user')
        return [lexgen.row(w, user or case['sys'], case['sys'] if user else None, bool(user)) for w in user or case['sys']]

    def build(self, case, rows, d, base):
        path = str(d / 'changed.dic')
        if case.get('user'):
            world.build_user(path, lexgen.text(rows), base)
        else:
            world.build_system(path, lexgen.text(rows), matrix_source(case['mat'], None))
        return path

    def open(self, case, path, base):
        from sudachipy.dictionarylib import BinaryDictionary
        if not case.get('user'):
            dic = BinaryDictionary.from_system_dictionary(path)
            return dic, dic.grammar.get_part_of_speech_string, dic.close
        s = BinaryDictionary.from_system_dictionary(base)
        u = BinaryDictionary.from_user_dictionary(path)
        n = s.grammar.get_part_of_speech_size()

        def close():
            u.close()
            s.close()
        return u, lambda i: s.grammar.get_part_of_speech_string(i) if i < n else u.grammar.get_part_of_speech_string(i - n), close

    def run_lexicon(self, case, d):
        f = case['fault']
        base = self.base(case, d)
        rows = self.rows(case)
        with sut('building the lexicon without the fault'):
            self.build(case, rows, d, base)
        bad = apply_fault(rows, f, bool(case.get('user')))
        expect_error(lambda: self.build(case, bad, d, base), 'building a {} lexicon of {} lines with a fault ({}) in line {}: {}'.format(
            'user' if case.get('user') else 'system', len(bad), f['kind'], f['row'], short(json.dumps([c if len(c) < 80 else '{}...({} characters)'.format(c[:20], len(c)) for c in bad[f['row']]], ensure_ascii=False))))
        return len(rows) > 1, ['fault: ' + f['kind'], 'user' if case.get('user') else 'system']

    def run_limit(self, case, d):
        f = case['fault']
        base = self.base(case, d)
        case = dict(case)
        which = 'user' if case.get('user') else 'sys'
        case[which] = apply_limit(case[which], f, len(case['sys']) if case.get('user') else None)
        # inline references to the changed word follow it
        lexgen.shorten_refs(case[which], case['sys'], which == 'user')
        with sut('building a lexicon that goes to a limit ({})'.format(f['kind'])):
            path = self.build(case, self.rows(case), d, base)
        with sut('opening it'):
            dic, pos, close = self.open(case, path, base)
        check_lexicon(dic.lexicon, pos, lexgen.meanings(case[which], case['sys'], which == 'user'), 'lexicon at a limit ({})'.format(f['kind']))
        close()
        return True, ['limit: ' + f['kind'], which]

    def run_mutation(self, case, d):
        m = case['fault']
        base = self.base(case, d)
        which = 'user' if case.get('user') else 'sys'
        lex = case[which]
        rows = apply_mutation(self.rows(case), m)
        try:
            path = self.build(case, rows, d, base)
        except Exception:
            return len(lex) > 1, ['mutation refused', which]
        with sut('opening a dictionary whose source was accepted'):
            dic, pos, close = self.open(case, path, base)
        check_others(dic.lexicon, pos, lexgen.meanings(lex, case['sys'], which == 'user'), m['row'], rows[m['row']])
        close()
        return len(lex) > 1, ['mutation accepted', which]

    # -------------------------------------------------------------- matrix

    def run_matrix(self, case, d):
        from sudachipy.dictionarylib import BinaryDictionary
        src = lexgen.text(self.rows(case))
        path = str(d / 'system.dic')
        mat = case['mat']
        if case['fault']:
            text = matrix_source(mat, case['fault'])
            expect_error(lambda: world.build_system(path, src, text), 'building with the matrix line {!r} in a matrix of {} by {} ({})'.format(case['fault']['v'], mat['l'], mat['r'], case['fault']['kind']))
            return len(mat['cells']) > 0, ['fault: ' + case['fault']['kind']]
        with sut('building with a valid matrix'):
            world.build_system(path, src, matrix_source(mat, None))
        with sut('opening'):
            dic = BinaryDictionary.from_system_dictionary(path)
        for l, r, c in mat['cells']:
            with sut('connection cost'):
                eq(dic.grammar.get_connect_cost(l, r), c, 'cost of ({}, {})', l, r)
        dic.close()
        return len(mat['cells']) > 0, ['matrix accepted']

    # -------------------------------------------------------------- definitions

    def run_definitions(self, case, d):
        from sudachipy import config
        from sudachipy.dictionary import Dictionary
        if not getattr(self, 'small', None):
            p = d.parent / 'small.dic'
            with sut('building a dictionary'):
                world.build_system(str(p), [['あ', '0', '0', '0', 'あ', *world.BASE_POS[0], 'ア', 'あ', '*', 'A', '*', '*', '*', '*']], '1 1\n0 0 0\n')
            self.small = p
        f = case['fault']
        lines = {k: list(case[k]) for k in ('ranges', 'props', 'unk', 'rewrite')}
        part = {'char range': 'ranges', 'char category': 'ranges', 'category settings': 'props', 'unk': 'unk', 'rewrite': 'rewrite'}.get(f['kind'])
        for bad in (False, True):
            if bad:
                if part is None:
                    break
                # a line that repeats another is wrong wherever it stands
                lines[part].insert(min(f['at'], len(lines[part])), f['v'])
            char = lines['props'] + lines['ranges'] if case['order'] else lines['ranges'] + lines['props']
            (d / 'char.def').write_text('# comment\n\n' + ''.join(x + '\n' for x in char), encoding='utf-8')
            (d / 'unk.def').write_text(''.join(x + '\n' for x in lines['unk']), encoding='utf-8')
            (d / 'rewrite.def').write_text('# comment\n\n' + ''.join(x + '\n' for x in lines['rewrite']), encoding='utf-8')
            cfg = {'systemDict': str(self.small), 'characterDefinitionFile': 'char.def',
                   'inputTextPlugin': [{'class': 'sudachipy.plugin.input_text.DefaultInputTextPlugin'}],
                   'oovProviderPlugin': [{'class': 'sudachipy.plugin.oov.MeCabOovProviderPlugin', 'charDef': 'char.def', 'unkDef': 'unk.def'},
                                         {'class': 'sudachipy.plugin.oov.SimpleOovProviderPlugin', 'leftId': 0, 'rightId': 0, 'cost': 100, 'oovPOS': world.BASE_POS[0]}], 'pathRewritePlugin': []}
            (d / 'sudachi.json').write_text(json.dumps(cfg), encoding='utf-8')
            kept = config.DEFAULT_RESOURCEDIR
            # the definitions for normalization are only read from the resources of the package
            config.DEFAULT_RESOURCEDIR = type(kept)(str(d))
            try:
                open_ = lambda: Dictionary(config_path=str(d / 'sudachi.json'), resource_dir=str(d))
                if bad:
                    expect_error(open_, 'opening a dictionary with the line {!r} in the definitions ({})'.format(f['v'], f['kind']))
                else:
                    with sut('opening a dictionary with valid definitions'):
                        dic = open_()
                        dic.create().tokenize('あ')
                    dic.close()
            finally:
                config.DEFAULT_RESOURCEDIR = kept
        return len(char) > 2, ['fault: ' + f['kind']]


def check_others(lex, pos_of, meanings, row, cols):
    """Everything about the other entries is as if the changed one were not there."""
    ok = [m for i, m in enumerate(meanings) if i != row]
    eq(lex.size(), len(meanings), 'number of entries after line {} was changed to {}', row, cols)
    heads = {}
    for i, m in enumerate(meanings):
        if i == row:
            continue
        w = 'of entry {} after line {} was changed to {}'
        with sut(w.format(i, row, cols)):
            wi = lex.get_word_info(i)
            params = (lex.get_left_id(i), lex.get_right_id(i), lex.get_cost(i))
            pos = list(pos_of(wi.pos_id))
        eq(params, m.params, 'ids and cost ' + w, i, row, cols)
        eq((wi.surface, wi.head_word_length, pos, wi.normalized_form, wi.reading_form, wi.dictionary_form_word_id, list(wi.synonym_group_ids)),
           (m.surface, len(m.head.encode('utf-8')), m.pos, m.norm, m.reading, m.dform_id, m.syn), 'attributes ' + w, i, row, cols)
        if m.dform_id != row:
            eq(wi.dictionary_form, m.dform, 'dictionary form ' + w, i, row, cols)
        for f, got in (('a', wi.a_unit_split), ('b', wi.b_unit_split), ('w', wi.word_structure)):
            eq([{g} for g in got], m.refs[f], f + ' units ' + w, i, row, cols)
        if m.indexed:
            heads.setdefault(m.head, []).append(i)
    for h, ids in heads.items():
        b = h.encode('utf-8')
        with sut('lookup'):
            got = sorted(i for i, e in lex.lookup(b, 0) if e == len(b) and i != row)
        eq(got, ids, 'entries of headword {} after line {} was changed to {}', h, row, cols)


CHECK = C19()
