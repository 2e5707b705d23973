"""Lexicon sources with everything the format allows in them, and what they mean."""
import csv
import io

from hypothesis import strategies as st

from . import gen, model

ODD = ['"', "'", ',', '/', '\\', '\\u', '\\u{', '*', ' ', '\n', '#', 'U1', '0', '-1', '\\n', '\\u{}', '\\u00', '\\uZZZZ', '\t', '\x0b', '\x85', '\u2028', '\ufeff']


def escape(c, style):
    n = ord(c)
    if style == 0 and n <= 0xffff:
        return '\\u{:04x}'.format(n)
    if style == 1 and n <= 0xffff:
        return '\\u{:04X}'.format(n)
    if style == 2:
        return '\\u{{{:x}}}'.format(n)
    if style == 3:
        return '\\u{{{:X}}}'.format(n)
    return '\\u{{{:07x}}}'.format(n)


raw_char = gen.any_char.filter(lambda c: c != '\r')


@st.composite
def raw(draw, alphabet, empty=False, extreme=True, odd=True):
    """A column as it is written, escapes included."""
    k = draw(gen.ints(0, 19))
    if k <= 11:
        return ''.join(draw(st.lists(st.sampled_from(alphabet), min_size=0 if empty and k == 0 else 1, max_size=4)))
    if k <= 14:
        return ''.join(draw(st.lists(st.builds(escape, st.one_of(st.sampled_from(alphabet), gen.any_char, gen.special_char), st.integers(0, 4)), min_size=1, max_size=3))) \
            + ''.join(draw(st.lists(st.sampled_from(alphabet), max_size=2)))
    if k <= 16 or not odd:
        return ''.join(draw(st.lists(raw_char, min_size=1, max_size=4)))
    if k == 17:
        return ''.join(draw(st.lists(st.one_of(st.sampled_from(ODD), st.sampled_from(alphabet)), min_size=1, max_size=4)))
    if not extreme:
        return ''.join(draw(st.lists(st.sampled_from(alphabet), min_size=1, max_size=3)))
    c = draw(gen.pick(['あ', 'a', '😀', 'é']))
    n = draw(gen.pick([126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1000]))
    if gen.chance(draw, 1, 12):
        n = draw(gen.pick([32767, 32766, 16384, 32512]))
    units = 2 if ord(c) > 0xffff else 1
    return c * (n // units) + draw(gen.pick(['', alphabet[0] if ord(alphabet[0]) < 0x10000 else 'a'])) * (n % units)


def headword_ok(s):
    return s and '\0' not in s and len(s.encode('utf-8')) <= 32767


@st.composite
def headword(draw, alphabet, extreme=True):
    s = draw(raw(alphabet, extreme=extreme))
    d = model.unescape(s)
    if headword_ok(d):
        return s
    if d and '\0' not in d:
        return s[:8000]
    return alphabet[0]


@st.composite
def lexicon(draw, alphabet, poses, n_sys=None, min_size=1, max_size=10, extreme=True):
    """[{h,l,r,c,s,p:[6 raw],y,n,d,m,a,b,w,g}]; references: ['id', i] own, ['sys', i], ['in', own?, i]."""
    n = draw(gen.ints(min_size, max_size))
    out = []
    for i in range(n):
        short = gen.chance(draw, 2, 3)
        w = {'h': draw(headword(alphabet, extreme and not short))}
        w['l'] = draw(gen.pick([0, 0, 0, -1, 1, 5, 127, 128, 255, 256, 32767]))
        w['r'] = draw(gen.pick([0, 0, -1, 1, 5, 127, 128, 255, 256, 32767, -32768]))
        w['c'] = draw(gen.weighted((5, st.integers(-32768, 32767)), (2, st.sampled_from([0, -1, 255, 256, -32768, 32767]))))
        w['s'] = w['h'] if gen.chance(draw, 1, 2) else draw(raw(alphabet, empty=True, extreme=extreme))
        if len(model.unescape(w['s']).encode('utf-16-le')) > 2 * 32767:
            w['s'] = 'x'
        w['p'] = draw(gen.pick(poses))
        w['y'] = draw(gen.pick([w['s'], w['h']])) if gen.chance(draw, 1, 3) else draw(raw(alphabet, empty=True, extreme=extreme))
        w['n'] = draw(gen.pick([w['s'], w['h']])) if gen.chance(draw, 1, 3) else draw(raw(alphabet, empty=True, extreme=extreme))
        w['d'] = draw(gen.ints(0, n - 1)) if gen.chance(draw, 1, 2) else draw(gen.pick(['*', '*', '-1']))
        w['m'] = draw(gen.pick(['A', 'B', 'C', '*']))
        for f in 'abw':
            if gen.chance(draw, 1, 4) and (f == 'w' or w['m'] != 'A'):
                k = draw(gen.ints(1, 3))
                if gen.chance(draw, 1, 15):
                    k = draw(gen.pick([126, 127, 64]))
                    w[f] = [draw(ref(n, n_sys))] * k
                else:
                    w[f] = [draw(ref(n, n_sys)) for _ in range(k)]
        if gen.chance(draw, 1, 2):
            w['g'] = draw(st.lists(st.one_of(st.integers(0, 300), st.integers(-2 ** 31, 2 ** 31 - 1)), max_size=3))
            if gen.chance(draw, 1, 20):
                w['g'] = list(range(draw(gen.pick([126, 127]))))
        if out and gen.chance(draw, 1, 8):
            # what an earlier entry says, but for one column
            v = draw(gen.pick(range(len(out))))
            for f in ('s', 'p', 'y'):
                w[f] = out[v][f]
            f = draw(gen.pick('spy'))
            if f == 'p':
                i = draw(gen.ints(0, 5))
                w['p'] = w['p'][:i] + [gen.near(draw, w['p'][i])] + w['p'][i + 1:]
            else:
                w[f] = gen.near(draw, w[f])
            for f in (w['s'], w['y'], *w['p']):
                if '\r' in f or len(model.unescape(f).encode('utf-16-le')) > 2 * 32767 or any(0xd800 <= ord(c) < 0xe000 for c in model.unescape(f)):
                    for g in ('s', 'p', 'y'):
                        w[g] = out[v][g]
        out.append(w)
    return out


@st.composite
def ref(draw, n, n_sys):
    k = draw(gen.ints(0, 5))
    if n_sys is None or gen.chance(draw, 1, 2):
        i = draw(gen.ints(0, n - 1))
        return ['id', i, k % 2] if k < 3 else ['in', True, i, draw(gen.ints(0, 3))]
    i = draw(gen.ints(0, n_sys - 1))
    return ['sys', i] if k < 3 else ['in', False, i, draw(gen.ints(0, 3))]


@st.composite
def pos_list(draw, alphabet, n, part=None):
    part = part or raw(alphabet, extreme=True)
    out = []
    base = [draw(part) for _ in range(3)]
    for _ in range(n):
        out.append([draw(gen.pick(base)) if gen.chance(draw, 3, 5) else draw(part) for _ in range(6)])
    return out


def protect(s, style):
    """A decoded string as a part of an inline reference."""
    out = []
    for c in s:
        if c in '/,\\':
            out.append(escape(c, style))
        else:
            out.append(c)
    return ''.join(out)


def render_ref(r, own, sys_, user):
    if r[0] == 'id':
        # in a system dictionary "U5" and "5" both name its own entry
        return 'U{}'.format(r[1]) if user or r[2] else str(r[1])
    if r[0] == 'sys':
        return str(r[1])
    w = (own if r[1] else sys_)[r[2]]
    cols = [w['s']] + list(w['p']) + [w['y']]
    # the raw columns decoded, then protected; a carriage return cannot stand in a column as it is
    return ','.join(protect(model.unescape(c), r[3]).replace('\r', '\\u000d') for c in cols)


def shorten_refs(own, sys_=None, user=False):
    """The CSV reader takes fields of up to 131072 characters."""
    for w in own:
        for f in 'abw':
            if w.get(f) and sum(len(render_ref(r, own, sys_, user)) for r in w[f]) > 120000:
                w[f] = [r if r[0] != 'in' else (['id', r[2], 0] if r[1] else ['sys', r[2]]) for r in w[f]]
    return own


def row(w, own, sys_=None, user=False):
    cols = [w['h'], str(w['l']), str(w['r']), str(w['c']), w['s'], *w['p'], w['y'], w['n'], str(w['d']), w['m']]
    for f in 'abw':
        cols.append('/'.join(render_ref(r, own, sys_, user) for r in w[f]) if w.get(f) else '*')
    if w.get('g') is not None:
        cols.append('/'.join(map(str, w['g'])) if w['g'] else '*')
    return cols


def text(rows, quote_all=False):
    f = io.StringIO()
    csv.writer(f, lineterminator='\n', quoting=csv.QUOTE_ALL if quote_all else csv.QUOTE_MINIMAL).writerows(rows)
    return f.getvalue()


class Meaning:
    """What one line says: decoded columns and, per reference, the set of entries it may name."""

    def __init__(self, w, own, sys_, user):
        u = model.unescape
        self.head = u(w['h'])
        self.indexed = w['l'] != -1
        self.params = (w['l'], w['r'], w['c'])
        self.surface = u(w['s'])
        self.pos = [u(c) for c in w['p']]
        # an empty column stands for the surface
        self.reading = u(w['y']) or self.surface
        self.norm = u(w['n']) or self.surface
        self.dform_id = w['d'] if isinstance(w['d'], int) else -1
        self.dform = self.surface if self.dform_id < 0 else u(own[self.dform_id]['s'])
        self.refs = {}
        for f in 'abw':
            self.refs[f] = [targets(r, own, sys_, user) for r in w.get(f) or []]
        self.syn = list(w.get('g') or [])


def key(w):
    return (model.unescape(w['s']), tuple(model.unescape(c) for c in w['p']), model.unescape(w['y']))


def finished(k):
    return (k[0], k[1], k[2] or k[0])


def targets(r, own, sys_, user):
    flag = (1 << 28) if user else 0
    if r[0] == 'id':
        return {r[1] | flag}
    if r[0] == 'sys':
        return {r[1]}
    k = key((own if r[1] else sys_)[r[2]])
    s = {i | flag for i, w in enumerate(own) if key(w) == k}
    if not s:
        # the finished system dictionary says the surface for an empty reading
        s = {i for i, w in enumerate(sys_) if finished(key(w)) == finished(k)}
    return s


def meanings(lex, sys_=None, user=False):
    return [Meaning(w, lex, sys_, user) for w in lex]
