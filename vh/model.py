"""Reference model of the analyser, written from the documentation of the file formats and the properties.

Works on characters (the code under test works on bytes), recomputes everything from the case, keeps no state."""
import re
import unicodedata

CATS = ['DEFAULT', 'SPACE', 'KANJI', 'SYMBOL', 'NUMERIC', 'ALPHA', 'HIRAGANA', 'KATAKANA', 'KANJINUMERIC', 'GREEK',
        'CYRILLIC', 'USER1', 'USER2', 'USER3', 'USER4', 'NOOOVBOW']
INHIBITED = 0x7fff
AUTO_COST = -32768


# ---------------------------------------------------------------- definition files

def parse_chardef(text):
    """(ranges, category settings) of a char.def: [(lo, hi, cats)], {cat: (invoke, group, length)}"""
    ranges, props = [], {}
    for line in text.split('\n'):
        line = line.strip()
        if not line or line.startswith('#'):
            continue
        cols = line.split()
        if cols[0].startswith('0x'):
            lo, _, hi = cols[0].partition('..')
            cats = []
            for c in cols[1:]:
                if c.startswith('#'):
                    break
                cats.append(c)
            ranges.append((int(lo, 16), int(hi or lo, 16), frozenset(cats)))
        else:
            props[cols[0]] = (cols[1] != '0', cols[2] != '0', int(cols[3]))
    return ranges, props


def parse_unkdef(text):
    out = []
    for line in text.split('\n'):
        line = line.strip()
        if line:
            c = line.split(',')
            out.append((c[0], int(c[1]), int(c[2]), int(c[3]), tuple(c[4:10])))
    return out


def parse_rewrite(text):
    keep, table = set(), {}
    for line in text.split('\n'):
        line = line.strip()
        if not line or line.startswith('#'):
            continue
        cols = line.split()
        if len(cols) == 1:
            keep.add(cols[0])
        else:
            table[cols[0]] = cols[1]
    return keep, table


class CharDef:
    def __init__(self, ranges):
        self.ranges = ranges
        self.cache = {}

    def cats(self, ch):
        r = self.cache.get(ch)
        if r is None:
            cp = ord(ch)
            s = set()
            hit = False
            for lo, hi, cs in self.ranges:
                if lo <= cp <= hi:
                    s |= cs
                    hit = True
            r = self.cache[ch] = frozenset(s) if hit else frozenset(['DEFAULT'])
        return r


def run_lengths(cats):
    """For each character the number of characters to the end of its run."""
    n = len(cats)
    out = [0] * n
    i = 0
    while i < n:
        common = set(cats[i])
        j = i + 1
        while j < n:
            common &= cats[j]
            if not common:
                break
            j += 1
        for k in range(i, j):
            out[k] = j - k
        i = j
    return out


def word_starts(cats):
    out = []
    for i, c in enumerate(cats):
        if i and c & {'ALPHA', 'GREEK', 'CYRILLIC'}:
            out.append(not (c & cats[i - 1]))
        else:
            out.append(True)
    return out


# ---------------------------------------------------------------- rewriting of the input

class Text:
    """A text under edits: every character carries the half-open range of the original it stands for."""

    def __init__(self, original):
        self.original = original
        self.text = original
        # origin[i]: original position of the boundary before character i; origin[len] the end
        self.origin = list(range(len(original) + 1))

    def pieces(self, parts):
        """Rebuilds the text from parts [(begin, end, replacement or None)] covering it from left to right."""
        text, origin = [], []
        for b, e, rep in parts:
            if rep is None:
                text.append(self.text[b:e])
                origin += self.origin[b:e]
            else:
                text.append(rep)
                # the first character starts where the replaced range starts, the boundaries inside map to its end
                origin += [self.origin[b]] + [self.origin[e]] * (len(rep) - 1)
        origin.append(self.origin[-1])
        self.text = ''.join(text)
        self.origin = origin


def normalize_parts(text, keep, table):
    longest = max([len(k) for k in table], default=0)
    parts = []
    i = 0
    n = len(text)
    while i < n:
        for l in range(min(longest, n - i), 0, -1):
            if text[i:i + l] in table:
                parts.append((i, i + l, table[text[i:i + l]]))
                i += l
                break
        else:
            ch = text[i]
            low = ch.lower()
            new = low if low in keep else unicodedata.normalize('NFKC', low)
            parts.append((i, i + 1, None if new == ch else new))
            i += 1
    return parts


def psm_parts(text, marks, symbol):
    marks = set(marks)
    parts = []
    i = 0
    n = len(text)
    while i < n:
        j = i
        while j < n and text[j] in marks:
            j += 1
        if j - i > 1:
            parts.append((i, j, symbol))
            i = j
        else:
            parts.append((i, i + 1, None))
            i += 1
    return parts


# ---------------------------------------------------------------- candidates and the best path

class Node:
    __slots__ = ('begin', 'end', 'left', 'right', 'cost', 'kind', 'dic', 'wid', 'pos', 'total', 'prev')

    def __init__(self, begin, end, left, right, cost, kind, dic=-1, wid=0, pos=None):
        self.begin, self.end, self.left, self.right, self.cost = begin, end, left, right, cost
        self.kind, self.dic, self.wid, self.pos = kind, dic, wid, pos
        self.total = None
        self.prev = None


class NoMorpheme(Exception):
    pass


class NoPath(Exception):
    pass


class Word:
    """A dictionary entry as its source line says."""
    __slots__ = ('head', 'indexed', 'left', 'right', 'cost', 'surface', 'pos', 'reading', 'norm', 'dform_id', 'dform',
                 'a', 'b', 'ws', 'syn', 'auto')


class Analyser:
    """lexicons: [[Word, ...], ...] (0 is the system dictionary); matrix: {(left word's right id, right word's left id): cost}"""

    def __init__(self, lexicons, matrix, chardef, props, unk, oov, keep=None, table=None, inputs=()):
        self.lexicons = lexicons
        self.matrix = matrix
        self.chardef = chardef
        self.props = props
        self.unk = {}
        for cat, l, r, c, pos in unk:
            self.unk.setdefault(cat, []).append((l, r, c, pos))
        self.oov = oov            # list of 'mecab' or ('simple', l, r, cost, pos)
        self.inputs = inputs      # list of 'default' or ('psm', marks, symbol)
        self.keep, self.table = keep, table
        self._index = None

    def index(self):
        if self._index is None:
            self._index = []
            for d, lex in enumerate(self.lexicons):
                by = {}
                for i, w in enumerate(lex):
                    if w.indexed:
                        by.setdefault(w.head, []).append(i)
                self._index.append((by, sorted({len(k) for k in by})))
        return self._index

    def prepare(self, original):
        t = Text(original)
        for p in self.inputs:
            if p == 'default':
                t.pieces(normalize_parts(t.text, self.keep, self.table))
            else:
                t.pieces(psm_parts(t.text, p[1], p[2]))
        t.cats = [self.chardef.cats(c) for c in t.text]
        t.runs = run_lengths(t.cats)
        t.starts = word_starts(t.cats)
        return t

    def lookup(self, text, i):
        """[(dic, word id, end)] of the indexed words that start at i; user dictionaries first."""
        out = []
        order = list(range(1, len(self.lexicons))) + [0]
        idx = self.index()
        n = len(text)
        for d in order:
            by, lens = idx[d]
            for l in lens:
                if i + l > n:
                    break
                for wid in by.get(text[i:i + l], ()):
                    out.append((d, wid, i + l))
        return out

    def mecab(self, t, i, other, unk=None):
        out = []
        run = t.runs[i]
        unk = self.unk if unk is None else unk
        for cat in sorted(t.cats[i], key=CATS.index):
            if cat not in self.props or cat not in unk:
                continue
            invoke, group, length = self.props[cat]
            if other and not invoke:
                continue
            ends = set()
            if group:
                ends.add(i + run)
            for k in range(1, min(length, run) + 1):
                ends.add(i + k)
            for e in ends:
                for l, r, c, pos in unk[cat]:
                    out.append(Node(i, e, l, r, c, 'oov', pos=pos))
        return out

    def simple(self, t, i, other, p):
        if other:
            return []
        e = i + 1
        while e < len(t.text) and not t.starts[e]:
            e += 1
        return [Node(i, e, p[1], p[2], p[3], 'oov', pos=tuple(p[4]))]

    def provider(self, p, t, i, other):
        if p[0] == 'mecab2':
            return self.mecab(t, i, other, p[1])
        return self.mecab(t, i, other) if p == 'mecab' else self.simple(t, i, other, p)

    def candidates(self, t, i):
        n = len(t.text)
        out = []
        for d, wid, e in self.lookup(t.text, i):
            if e < n and not t.starts[e]:
                continue
            w = self.lexicons[d][wid]
            out.append(Node(i, e, w.left, w.right, w.cost, 'word', d, wid))
        if 'NOOOVBOW' not in t.cats[i]:
            for p in self.oov:
                out += self.provider(p, t, i, bool(out))
        if not out and self.oov:
            out += self.provider(self.oov[-1], t, i, False)
        return out

    def lattice(self, t):
        n = len(t.text)
        begins = {}
        ending = {0: True}
        for i in range(n):
            if i not in ending or not t.starts[i]:
                continue
            c = self.candidates(t, i)
            if not c:
                raise NoMorpheme(i)
            begins[i] = c
            for node in c:
                ending[node.end] = True
        return begins

    def conn(self, right_id_of_left, left_id_of_right):
        return self.matrix.get((right_id_of_left, left_id_of_right), 0)

    def best_cost(self, t, begins):
        """Minimum total cost from start to end of text, or NoPath."""
        n = len(t.text)
        bos = Node(0, 0, 0, 0, 0, 'bos')
        bos.total = 0
        ends = {0: [bos]}
        for i in sorted(begins):
            prevs = ends.get(i, [])
            # one predecessor per right id suffices
            best_by_right = {}
            for p in prevs:
                if p.total is not None:
                    q = best_by_right.get(p.right)
                    if q is None or p.total < q:
                        best_by_right[p.right] = p.total
            for node in begins[i]:
                best = None
                for r, tot in best_by_right.items():
                    c = self.conn(r, node.left)
                    if c == INHIBITED:
                        continue
                    if best is None or tot + c < best:
                        best = tot + c
                node.total = None if best is None else best + node.cost
                ends.setdefault(node.end, []).append(node)
        best = None
        for p in ends.get(n, []):
            if p.total is None:
                continue
            c = self.conn(p.right, 0)
            if c == INHIBITED:
                continue
            if best is None or p.total + c < best:
                best = p.total + c
        if best is None:
            raise NoPath()
        return best

    def optimal_ends(self, t, begins):
        """{(cost of the first word, cost of the last word, number of words)} over all paths of minimum cost."""
        bos = Node(0, 0, 0, 0, 0, 'bos')
        bos.total, bos.prev = 0, {None}
        ends = {0: [bos]}
        for i in sorted(begins):
            for node in begins[i]:
                best, states = None, set()
                for p in ends.get(i, []):
                    if p.total is None:
                        continue
                    c = self.conn(p.right, node.left)
                    if c == INHIBITED:
                        continue
                    if best is None or p.total + c < best:
                        best, states = p.total + c, set()
                    if p.total + c == best:
                        states |= {(node.cost, 1) if s is None else (s[0], s[1] + 1) for s in p.prev}
                node.total = None if best is None else best + node.cost
                node.prev = states
                ends.setdefault(node.end, []).append(node)
        best, out = None, set()
        for p in ends.get(len(t.text), []):
            if p.total is None:
                continue
            c = self.conn(p.right, 0)
            if c == INHIBITED:
                continue
            if best is None or p.total + c < best:
                best, out = p.total + c, set()
            if p.total + c == best:
                out |= {(f, p.cost, n) for f, n in p.prev}
        if best is None:
            raise NoPath()
        return out

    def path_cost(self, choices):
        """Minimum total cost over a fixed sequence of positions with alternatives [[Node, ...], ...]; None if forbidden."""
        cur = {0: 0}
        for nodes in choices:
            nxt = {}
            for node in nodes:
                best = None
                for r, tot in cur.items():
                    c = self.conn(r, node.left)
                    if c != INHIBITED and (best is None or tot + c < best):
                        best = tot + c
                if best is not None:
                    v = best + node.cost
                    if node.right not in nxt or v < nxt[node.right]:
                        nxt[node.right] = v
            cur = nxt
        best = None
        for r, tot in cur.items():
            c = self.conn(r, 0)
            if c != INHIBITED and (best is None or tot + c < best):
                best = tot + c
        return best


# ---------------------------------------------------------------- lexicon sources

_ESC = re.compile(r'\\u(?:([0-9a-fA-F]{4})|\{([0-9a-fA-F]+)\})')


def unescape(s):
    return _ESC.sub(lambda m: chr(int(m.group(1) or m.group(2), 16)), s)
