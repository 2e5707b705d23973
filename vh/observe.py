"""Everything a user can see of an analysis, as plain values."""


from .core import eq


def raw(wi):
    return [list(x) if isinstance(x, (list, tuple)) else x for x in (wi.surface, wi.head_word_length, wi.pos_id, wi.normalized_form, wi.dictionary_form_word_id, wi.dictionary_form,
                                                                    wi.reading_form, wi.a_unit_split, wi.b_unit_split, wi.word_structure, wi.synonym_group_ids)]


def attributes(m):
    """All attributes; reading them changes nothing."""
    before = raw(m.get_word_info())
    out = attributes_(m)
    eq(attributes_(m), out, 'attributes read a second time')
    eq(raw(m.get_word_info()), before, 'word information after reading the attributes, compared with before')
    return out


def attributes_(m):
    return [m.begin(), m.end(), m.surface(), list(m.part_of_speech()), m.part_of_speech_id(), m.dictionary_form(), m.normalized_form(),
            m.reading_form(), list(m.synonym_group_ids()), m.word_id(), m.dictionary_id(), bool(m.is_oov())]


def units(m):
    from sudachipy.tokenizer import Tokenizer
    out = []
    for mode in 'ABC':
        out.append([[u.begin(), u.end(), u.surface(), u.normalized_form(), u.word_id(), u.dictionary_id()] for u in m.split(getattr(Tokenizer.SplitMode, mode))])
    return out


def snapshot(ml, split=True):
    return [attributes(m) + ([units(m)] if split else []) for m in ml]


def analyse(tok, text, mode, logger=None, split=True):
    """The morphemes of text, or the name of the error."""
    from sudachipy.tokenizer import Tokenizer
    m = getattr(Tokenizer.SplitMode, mode) if mode else None
    try:
        ml = tok.tokenize(text, m, logger) if logger else (tok.tokenize(text, m) if mode else tok.tokenize(text))
    except Exception as e:
        return ['error', type(e).__name__], None
    return snapshot(ml, split), ml
