"""What the attributes of a dictionary word have to be, from its source line."""
from .core import eq, sut

FIELDS = ('part of speech', 'dictionary form', 'normalized form', 'reading form', 'synonym groups', 'dictionary id', 'word id', 'unknown')


def entry(m, gid):
    w = m.lexicons[gid >> 28][gid & 0x0fffffff]
    return [list(w.pos), w.dform, w.norm, w.reading, list(w.syn), gid >> 28, gid, False]


def observed(mo):
    return [list(mo.part_of_speech()), mo.dictionary_form(), mo.normalized_form(), mo.reading_form(), list(mo.synonym_group_ids()),
            mo.dictionary_id(), mo.word_id(), bool(mo.is_oov())]


def check_entry(m, mo, gid, what):
    with sut('reading the attributes of ' + what):
        got = observed(mo)
    for f, g, e in zip(FIELDS, got, entry(m, gid)):
        eq(g, e, '{} of {}'.format(f, what.replace('{', '{{').replace('}', '}}')))


def global_id(mo):
    """Global id of a dictionary word, None for others."""
    d = mo.dictionary_id()
    return None if d < 0 else (d << 28) | (mo.word_id() & 0x0fffffff)
