"""Reader and writer of the published binary dictionary layout, independent of the code under test.

All integers are little endian. Header: u64 version, i64 creation time, 256 bytes of zero-padded UTF-8 description.
Grammar (system 1 and 2, user 2 and 3): i16 number of parts of speech, six strings each; i16 left size, i16 right size, then the
cells as i16, those of one right word after the other. Lexicon: u32 number of units and the double array; u32 number of bytes
of the word id table and the table (u8 count, count times u32); u32 number of words and three i16 each; u32 file position of
the information of each word. String: number of UTF-16 code units in one byte, or in two with the high bit of the first set;
then the text in UTF-16. Word information: surface, headword length in UTF-8 (like a string length), i16 part of speech,
normalized form (empty: the surface), i32 dictionary form (-1: itself), reading (empty: the surface), A units, B units and word
structure (u8 count, i32 each), and synonym groups alike in system 2 and user 3."""
import struct

SYSTEM_1, SYSTEM_2 = 0x7366d3f18bd111e7, 0xce9f011a92394434
USER_1, USER_2, USER_3 = 0xa50f31188bd211e7, 0x9fdeb5a90168d868, 0xca9811756ff64fb0
SYSTEMS, USERS = (SYSTEM_1, SYSTEM_2), (USER_1, USER_2, USER_3)


class Malformed(Exception):
    pass


class Entry:
    __slots__ = ('left', 'right', 'cost', 'surface', 'headlen', 'pos', 'norm', 'dform', 'reading', 'a', 'b', 'w', 'syn', 'start', 'end')


class Image:
    pass


class Reader:
    def __init__(self, data, at=0):
        self.data, self.at = data, at

    def take(self, n):
        if self.at + n > len(self.data):
            raise Malformed('read of {} bytes at {} past the end ({})'.format(n, self.at, len(self.data)))
        r = self.data[self.at:self.at + n]
        self.at += n
        return r

    def num(self, fmt):
        return struct.unpack('<' + fmt, self.take(struct.calcsize('<' + fmt)))[0]

    def length(self):
        b = self.num('B')
        return b if b < 128 else ((b & 0x7f) << 8) | self.num('B')

    def string(self):
        try:
            return self.take(2 * self.length()).decode('utf-16-le')
        except UnicodeDecodeError as e:
            raise Malformed('string at {}: {}'.format(self.at, e))

    def ints(self):
        return [self.num('i') for _ in range(self.num('B'))]


def offset_of(unit):
    return (unit >> 10) << ((unit & (1 << 9)) >> 6)


def trie_items(units):
    """{key bytes: value} of a double array."""
    out = {}
    if not units:
        return out
    n = len(units)
    stack = [(0, b'')]
    seen = 0
    while stack:
        pos, key = stack.pop()
        seen += 1
        if seen > n + 1:
            raise Malformed('the double array is no tree')
        base = pos ^ offset_of(units[pos])
        if units[pos] & 0x100:
            if base >= n or not units[base] & 0x80000000:
                raise Malformed('no value for key {!r}'.format(key))
            out[key] = units[base] & 0x7fffffff
        for c in range(1, 256):
            nxt = base ^ c
            # a unit belongs to this parent if its label is the byte that leads to it
            if nxt < n and nxt != 0 and units[nxt] & (0x80000000 | 0xff) == c and nxt != pos:
                stack.append((nxt, key + bytes([c])))
    return out


def read(data):
    r = Reader(data)
    im = Image()
    im.version, im.time = r.num('Q'), r.num('q')
    raw = r.take(256)
    im.description = raw.split(b'\0')[0].decode('utf-8')
    im.pos, im.matrix = [], None
    im.size = None
    if im.version not in SYSTEMS + USERS:
        raise Malformed('version {:x}'.format(im.version))
    if im.version != USER_1:
        for _ in range(r.num('h')):
            im.pos.append([r.string() for _ in range(6)])
        l, rr = r.num('h'), r.num('h')
        if l < 0 or rr < 0:
            raise Malformed('matrix of {} by {}'.format(l, rr))
        im.size = (l, rr)
        im.matrix = struct.unpack('<{}h'.format(l * rr), r.take(2 * l * rr))
    n = r.num('I')
    im.units = struct.unpack('<{}I'.format(n), r.take(4 * n))
    n = r.num('I')
    im.table = r.take(n)
    n = r.num('I')
    params = [(r.num('h'), r.num('h'), r.num('h')) for _ in range(n)]
    offsets = [r.num('I') for _ in range(n)]
    im.fixed_end = r.at
    im.words = []
    syn = im.version in (SYSTEM_2, USER_3)
    for (a, b, c), off in zip(params, offsets):
        e = Entry()
        e.left, e.right, e.cost = a, b, c
        if off < im.fixed_end:
            raise Malformed('information of a word at {} inside the tables (up to {})'.format(off, im.fixed_end))
        q = Reader(data, off)
        e.start = off
        e.surface = q.string()
        e.headlen = q.length()
        e.pos = q.num('h')
        e.norm = q.string()
        e.dform = q.num('i')
        e.reading = q.string()
        e.a, e.b, e.w = q.ints(), q.ints(), q.ints()
        e.syn = q.ints() if syn else []
        e.end = q.at
        im.words.append(e)
    im.keys = {}
    for key, value in trie_items(im.units).items():
        q = Reader(im.table, value)
        im.keys[key] = [q.num('I') for _ in range(q.num('B'))]
    return im


# ---------------------------------------------------------------- writing

def string(s):
    return length(len(s.encode('utf-16-le')) // 2) + s.encode('utf-16-le')


def length(n):
    return bytes([n]) if n < 128 else bytes([0x80 | n >> 8, n & 0xff])


def ints(xs):
    return bytes([len(xs)]) + struct.pack('<{}i'.format(len(xs)), *xs)


def double_array(items):
    """items: {key bytes: value}. A plain first-fit construction."""
    root = {}
    for k, v in items.items():
        node = root
        for c in k:
            node = node.setdefault(c, {})
        node[0] = v
    used, bases = {0}, set()
    units = {}

    def place(node, pos):
        labels = sorted(node)
        base = 1
        while True:
            off = base ^ pos
            if off < 1 << 21 and off and base not in bases and all((base ^ c) not in used for c in labels):
                break
            base += 1
        bases.add(base)
        used.update(base ^ c for c in labels)
        units[pos] = units.get(pos, 0) | (base ^ pos) << 10 | (0x100 if 0 in node else 0)
        for c in labels:
            if c == 0:
                units[base] = 0x80000000 | node[0]
            else:
                units[base ^ c] = c
        for c in labels:
            if c:
                place(node[c], base ^ c)

    if root:
        place(root, 0)
    n = (max(list(units) + [0]) | 0xff) + 1
    return [units.get(i, 0) for i in range(n)]


def write(d):
    """d: dict(version, time, description, pos, matrix=(l, r, cells), words=[dict(head, l, r, c, surface, pos, norm, d, reading, a, b, w, syn)],
    explicit: forms equal to the surface are written out, reverse: word information in reverse order, pad: free bytes before each)."""
    v = d['version']
    out = struct.pack('<Qq', v, d['time']) + d['description'].encode('utf-8').ljust(256, b'\0')
    if v != USER_1:
        out += struct.pack('<h', len(d['pos'])) + b''.join(string(x) for p in d['pos'] for x in p)
        l, r, cells = d['matrix']
        out += struct.pack('<hh', l, r) + struct.pack('<{}h'.format(l * r), *cells)
    heads = {}
    for i, w in enumerate(d['words']):
        if w['l'] != -1:
            heads.setdefault(w['head'].encode('utf-8'), []).append(i)
    table = b''
    items = {}
    for k in (sorted(heads, reverse=True) if d['reverse'] else sorted(heads)):
        items[k] = len(table)
        table += bytes([len(heads[k])]) + struct.pack('<{}I'.format(len(heads[k])), *heads[k])
    units = double_array(items)
    out += struct.pack('<I', len(units)) + struct.pack('<{}I'.format(len(units)), *units)
    out += struct.pack('<I', len(table)) + table
    n = len(d['words'])
    out += struct.pack('<I', n) + b''.join(struct.pack('<hhh', w['l'], w['r'], w['c']) for w in d['words'])
    base = len(out) + 4 * n
    body = b''
    offsets = [0] * n
    for i in (range(n - 1, -1, -1) if d['reverse'] else range(n)):
        w = d['words'][i]
        body += b'\xff' * d['pad']
        offsets[i] = base + len(body)
        body += string(w['surface']) + length(len(w['head'].encode('utf-8'))) + struct.pack('<h', w['pos'])
        body += string(w['norm'] if d['explicit'] or w['norm'] != w['surface'] else '') + struct.pack('<i', w['d'])
        body += string(w['reading'] if d['explicit'] or w['reading'] != w['surface'] else '') + ints(w['a']) + ints(w['b']) + ints(w['w'])
        if v in (SYSTEM_2, USER_3):
            body += ints(w['syn'])
    return out + struct.pack('<{}I'.format(n), *offsets) + body
