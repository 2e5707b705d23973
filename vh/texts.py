"""Compares a built text of the code under test with the model's text: every accessor at every position."""
from .core import eq, require, sut


class Stub:
    """The only part of a grammar the text builder asks for."""

    def __init__(self, category):
        self.category = category

    def get_character_category(self):
        return self.category


def category(path):
    from sudachipy.dictionarylib.charactercategory import CharacterCategory
    c = CharacterCategory()
    with sut('reading the character definition'):
        c.read_character_definition(str(path))
    return c


def starts_of(text):
    """Byte position of every character, and of the end."""
    out = [0]
    for c in text:
        out.append(out[-1] + len(c.encode('utf-8')))
    return out


def check_positions(inp, t, what):
    """Text, bytes and the map to the original."""
    raw = t.text.encode('utf-8')
    eq(inp.get_text(), t.text, 'text after ' + what)
    eq(inp.get_original_text(), t.original, 'original text of ' + what)
    eq(bytes(inp.get_byte_text()), raw, 'bytes of ' + what)
    bs = starts_of(t.text)
    for i, b in enumerate(bs):
        eq(inp.get_original_index(b), t.origin[i], 'original position of character {} (byte {}) of {!r}, {}', i, b, t.text, what)
        eq(inp.get_offset_text_length(b), i, 'character index of byte {} of {!r}', b, t.text)
    last = -1
    for b in range(len(raw) + 1):
        o = inp.get_original_index(b)
        require(last <= o, 'original position goes back from {} to {} at byte {} of {}', last, o, b, what)
        last = o
    return bs


def check_spans(inp, t, pairs, bs):
    """Substrings and character counts between character positions."""
    for b, e in pairs:
        eq(inp.get_substring(bs[b], bs[e]), t.text[b:e], 'substring {}..{} of {!r}', bs[b], bs[e], t.text)
        eq(inp.code_point_count(bs[b], bs[e]), e - b, 'characters in bytes {}..{} of {!r}', bs[b], bs[e], t.text)
        eq(inp.get_code_points_offset_length(bs[b], e - b), bs[e] - bs[b], 'bytes of {} characters from byte {} of {!r}', e - b, bs[b], t.text)


def check_categories(inp, t, bs, names=None):
    """Categories, runs and possible word starts (t.cats, t.runs and t.starts of the model)."""
    n = len(t.text)
    raw = t.text.encode('utf-8')
    for i in range(n):
        eq({c.name for c in inp.get_char_category_types(bs[i])}, set(t.cats[i]), 'categories of character {} of {!r}', i, t.text)
        eq(inp.get_char_category_continuous_length(bs[i]), bs[i + t.runs[i]] - bs[i], 'bytes of the run at character {} of {!r}', i, t.text)
        nxt = i + 1
        while nxt < n and not t.starts[nxt]:
            nxt += 1
        eq(inp.get_word_candidate_length(bs[i]), bs[nxt] - bs[i], 'bytes up to the next word start from character {} of {!r}', i, t.text)
    where = {b: i for i, b in enumerate(bs[:-1])}
    for b in range(len(raw)):
        exp = b in where and t.starts[where[b]]
        eq(bool(inp.can_bow(b)), exp, 'whether a word may begin at byte {} of {!r}', b, t.text)


def check_ranges(inp, t, pairs, bs):
    """Common categories of ranges inside one run."""
    for b, e in pairs:
        if b >= e:
            continue
        if e > b + t.runs[b]:
            exp = set()
        else:
            exp = set(t.cats[b])
            for i in range(b + 1, e):
                exp &= t.cats[i]
        eq({c.name for c in inp.get_char_category_types(bs[b], bs[e])}, exp, 'common categories of characters {}..{} of {!r}', b, e, t.text)
