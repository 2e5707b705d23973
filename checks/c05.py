"""C05: a built dictionary returns exactly what its source says."""
import io

from hypothesis import strategies as st

from vh import gen, lexgen, world
from vh.core import Check, eq, require, sut


@st.composite
def cases(draw):
    alpha = gen.alphabets(draw)
    sp = draw(lexgen.pos_list(alpha, draw(gen.ints(1, 4))))
    case = {'sys': lexgen.shorten_refs(draw(lexgen.lexicon(alpha, sp, max_size=10))), 'quote': draw(st.booleans()), 'cuts': draw(st.lists(st.integers(0, 10), max_size=2))}
    if gen.chance(draw, 1, 2):
        # inline references to system entries with an empty reading cannot be told from ones that repeat the surface
        up = draw(lexgen.pos_list(alpha, draw(gen.ints(0, 3))))
        case['user'] = draw(lexgen.lexicon(alpha, sp + up, n_sys=len(case['sys']), max_size=7))
        for w in case['user']:
            for f in 'abw':
                w[f] = [r if not (r[0] == 'in' and not r[1] and not case['sys'][r[2]]['y']) else ['sys', r[2]] for r in w.get(f) or []]
        lexgen.shorten_refs(case['user'], case['sys'], True)
    if gen.chance(draw, 1, 40):
        case['bulk'] = draw(gen.pick([300, 300, 300, 300, 300, 300, 3000, 3000, 33000, 66000]))
        case['bulkpos'] = draw(gen.pick([3, 300]))
    return case


def bulk(n, npos):
    return [dict(h='語{}'.format(i % (n // 3)), l=0, r=i % 7, c=i % 1000, s='語{}'.format(i), p=['品', str(i % npos), '*', '*', '*', '*'], y='ヨ{}'.format(i), n='正{}'.format(i),
                 d=n - 1 - i if i % 5 else i, m='C', b=[['id', n - 1 - i, 0]] * 2, g=[i]) for i in range(n)]


def check_lexicon(lex, grammar_pos, meanings, what):
    with sut('size of the ' + what):
        eq(lex.size(), len(meanings), 'number of entries of the {}', what)
    heads = {}
    for i, m in enumerate(meanings):
        with sut('reading entry {} of the {}'.format(i, what)):
            wi = lex.get_word_info(i)
            params = (lex.get_left_id(i), lex.get_right_id(i), lex.get_cost(i))
            pos = grammar_pos(wi.pos_id)
        w = 'of entry {} of the {}'
        eq(params, m.params, 'ids and cost ' + w, i, what)
        eq(wi.surface, m.surface, 'surface ' + w, i, what)
        eq(wi.head_word_length, len(m.head.encode('utf-8')), 'headword length ' + w, i, what)
        eq(list(pos), m.pos, 'part of speech ' + w, i, what)
        eq(wi.normalized_form, m.norm, 'normalized form ' + w, i, what)
        eq(wi.reading_form, m.reading, 'reading ' + w, i, what)
        eq(wi.dictionary_form_word_id, m.dform_id, 'dictionary form id ' + w, i, what)
        eq(wi.dictionary_form, m.dform, 'dictionary form ' + w, i, what)
        for f, got in (('a', wi.a_unit_split), ('b', wi.b_unit_split), ('w', wi.word_structure)):
            got = list(got)
            eq(len(got), len(m.refs[f]), 'number of {} units ' + w, f, i, what)
            for g, s in zip(got, m.refs[f]):
                require(g in s, '{} units {} ' + w + ' should name one of {}', f, got, i, what, sorted(s))
        eq(list(wi.synonym_group_ids), m.syn, 'synonym groups ' + w, i, what)
        if m.indexed:
            heads.setdefault(m.head, []).append(i)
    for h, ids in [*list(heads.items())[:400], *list(heads.items())[400:][-100:]]:
        b = h.encode('utf-8')
        with sut('lookup'):
            got = sorted(i for i, e in lex.lookup(b, 0) if e == len(b))
        eq(got, ids, 'entries of headword {} of the {}', h, what)


class C05(Check):
    id = 'C05'
    rule = ('Random lexicon sources: strings over all of Unicode with escapes and CSV quoting, lengths around 127/128/255/256/32767, parts of speech with '
            'commas, up to 127 units, references by id and inline and across dictionaries, dictionary forms to any entry, up to 66000 entries; read back '
            'field by field. Non-trivial: at least two entries and an escape, a reference or a string of 127 or more units.')
    quick = 220
    thorough = 5000
    case_timeout = 120
    assumptions = ['an empty reading or normalized form stands for the surface, as in the format']

    def strategy(self, tier):
        return cases()

    def corpus(self, tier):
        # more entries than 16 bits count
        w = dict(h='大', l=0, r=0, c=1, s='大', p=['品', '0', '*', '*', '*', '*'], y='ダイ', n='大', d=1, m='C', a=[['id', 0, 0], ['id', 1, 0]], b=[], w=[], g=[])
        return [{'sys': [w, dict(w, d='*', a=[])], 'user': [dict(w, d='*', a=[['sys', 1], ['sys', 0]]), dict(w, h='犬', d=0, a=[])], 'quote': False, 'cuts': [], 'bulk': 66000, 'bulkpos': 300}]

    def run(self, case, ctx):
        from sudachipy.dictionarylib import BinaryDictionary, SYSTEM_DICT_VERSION_2
        from sudachipy.dictionarylib.dictionarybuilder import DictionaryBuilder
        from sudachipy.dictionarylib.dictionaryheader import DictionaryHeader
        labels = []
        sys_ = case['sys']
        if case.get('bulk', 0) > 3000:
            # expensive: twice per process (a case that fails counts as not run)
            if getattr(self, 'big', 0) >= 2:
                case = dict(case, bulk=500)
        if case.get('bulk'):
            sys_ = bulk(case['bulk'], case['bulkpos']) + [dict(w, **{k: shift(w[k], case['bulk']) for k in 'dabw' if w.get(k) is not None}) for w in sys_]
            labels.append('bulk')
        rows = [lexgen.row(w, sys_) for w in sys_]
        with ctx.dir() as d:
            path = str(d / 'system.dic')
            with sut('building a system dictionary'):
                world.build_system(path, lexgen.text(rows, case['quote']), '1 1\n0 0 0\n')
            with sut('opening the dictionary'):
                dic = BinaryDictionary.from_system_dictionary(path)
            check_lexicon(dic.lexicon, dic.grammar.get_part_of_speech_string, lexgen.meanings(sys_), 'system dictionary')
            if case['cuts'] and not case.get('bulk'):
                labels.append('several files')
                cuts = sorted(min(c, len(rows)) for c in case['cuts'])
                parts = [rows[b:e] for b, e in zip([0] + cuts, cuts + [len(rows)])]
                files = []
                for k, p in enumerate(parts):
                    f = d / 'part{}.csv'.format(k)
                    f.write_text(lexgen.text(p, case['quote']), encoding='utf-8', newline='')
                    files.append(str(f))
                p2 = d / 'parts.dic'
                with sut('building from several files'), open(p2, 'wb') as f:
                    f.write(DictionaryHeader(SYSTEM_DICT_VERSION_2, 0, '').to_bytes())
                    DictionaryBuilder(logger=world.quiet).build(files, io.StringIO('1 1\n0 0 0\n'), f)
                with open(path, 'rb') as f:
                    require(f.read() == p2.read_bytes(), 'building from {} files differs from building from their concatenation', len(files))
            if case.get('user'):
                user = case['user']
                if case.get('bulk'):
                    user = [dict(w, **{k: [[*r[:1], r[1] + case['bulk']] if r[0] == 'sys' else (['in', False, r[2] + case['bulk'], r[3]] if r[0] == 'in' and not r[1] else r) for r in w[k]]
                                       for k in 'abw' if w.get(k)}) for w in user]
                labels.append('user dictionary')
                up = str(d / 'user.dic')
                with sut('building a user dictionary'):
                    world.build_user(up, lexgen.text([lexgen.row(w, user, sys_, True) for w in user], case['quote']), path)
                with sut('opening the user dictionary'):
                    ud = BinaryDictionary.from_user_dictionary(up)
                n = dic.grammar.get_part_of_speech_size()
                check_lexicon(ud.lexicon, lambda i: dic.grammar.get_part_of_speech_string(i) if i < n else ud.grammar.get_part_of_speech_string(i - n),
                              lexgen.meanings(user, sys_, True), 'user dictionary')
                ud.close()
            dic.close()
        if case.get('bulk', 0) > 3000:
            labels.append('huge')
            self.big = getattr(self, 'big', 0) + 1
        every = case['sys'] + (case.get('user') or [])
        if any(w.get(f) for w in every for f in 'abw'):
            labels.append('references')
        if any(r[0] == 'in' for w in every for f in 'abw' for r in w.get(f) or []):
            labels.append('inline references')
        if any('\\u' in str(v) for w in every for v in w.values()):
            labels.append('escapes')
        if any(len(x) > 126 for w in every for x in [w['h'], w['s'], w['y'], w['n'], *w['p']]):
            labels.append('long strings')
        if any(isinstance(w['d'], int) for w in every):
            labels.append('dictionary forms')
        return len(every) > 1 and bool({'references', 'escapes', 'long strings'} & set(labels)), labels


def shift(v, n):
    if isinstance(v, int):
        return v + n
    if isinstance(v, list):
        return [['id', r[1] + n, r[2]] if r[0] == 'id' else ['in', r[1], r[2] + n, r[3]] for r in v]
    return v


CHECK = C05()
