"""C15: the binary dictionary format is the published one, in both directions."""
import io
import json
import os
import struct

from hypothesis import strategies as st

from vh import binfmt, gen, lexgen, world
from vh.core import Check, Violation, eq, expect_error, require, sut

description = st.one_of(st.sampled_from(['', 'a', 'system dictionary', '辞書', '😀', 'x' * 255, 'x' * 256, '辞' * 85, 'é' * 128]),
                        st.text(gen.any_char.filter(lambda c: c != '\0'), max_size=20))
times = st.one_of(st.sampled_from([0, 1, 2 ** 31, 2 ** 32 + 5, 2 ** 63 - 1]), st.integers(0, 2 ** 63 - 1))


@st.composite
def strings(draw, alpha):
    k = draw(gen.ints(0, 9))
    if k <= 5:
        return ''.join(draw(st.lists(st.sampled_from(alpha), min_size=1, max_size=4)))
    if k <= 7:
        return ''.join(draw(st.lists(gen.any_char, min_size=1, max_size=4)))
    n = draw(gen.pick([126, 127, 128, 129, 255, 256, 300]))
    return draw(gen.pick(['あ', 'a'])) * n if k == 8 else '😀' * (n // 2) + 'a' * (n % 2)


@st.composite
def images(draw, version, alpha, mat, sys_words=None, npos=0):
    """A dictionary as it could have been written by any implementation of the format."""
    n = draw(gen.ints(1, 9))
    words = []
    user = version in binfmt.USERS
    own_pos = [] if version == binfmt.USER_1 else [[draw(strings(alpha)) for _ in range(6)] for _ in range(draw(gen.ints(0 if user else 1, 4)))]
    refs = st.integers(0, n - 1)
    if user:
        refs = st.one_of(refs.map(lambda i: i | 1 << 28), st.integers(0, sys_words - 1))
    for i in range(n):
        h = draw(strings(alpha)).replace('\0', '') or alpha[0]
        w = dict(head=h, l=draw(gen.pick([0, 0, 0, mat[1] - 1, -1])), r=draw(gen.pick([0, mat[0] - 1, -1])), c=draw(st.one_of(st.integers(-32767, 32767), st.integers(-20, 20))))
        w['surface'] = h if draw(st.booleans()) else draw(strings(alpha))
        w['pos'] = draw(gen.ints(0, npos + len(own_pos) - 1))
        w['norm'] = draw(gen.pick([w['surface'], h])) if draw(st.booleans()) else draw(strings(alpha))
        w['reading'] = draw(gen.pick([w['surface'], h])) if draw(st.booleans()) else draw(strings(alpha))
        w['d'] = draw(gen.pick([-1, -1, i])) if draw(st.booleans()) else draw(gen.ints(0, n - 1))
        for f in 'abw':
            w[f] = draw(st.lists(refs, max_size=3)) if gen.chance(draw, 1, 3) else []
            if gen.chance(draw, 1, 40):
                w[f] = [draw(refs)] * draw(gen.pick([126, 127]))
        w['syn'] = draw(st.lists(st.integers(-2 ** 31, 2 ** 31 - 1), max_size=3)) if version in (binfmt.SYSTEM_2, binfmt.USER_3) else []
        words.append(w)
    if not user:
        # at least one word is indexed
        words[0]['l'] = 0
    return dict(version=version, time=draw(times), description=draw(description), pos=own_pos,
                matrix=[mat[0], mat[1], draw(st.lists(gen.costs, min_size=mat[0] * mat[1], max_size=mat[0] * mat[1]))] if not user else [0, 0, []],
                words=words, explicit=draw(st.booleans()), reverse=gen.chance(draw, 1, 3), pad=draw(gen.pick([0, 0, 0, 3])))


@st.composite
def cases(draw):
    alpha = gen.alphabets(draw)
    k = draw(gen.ints(0, 7))
    if k <= 2:
        poses = draw(lexgen.pos_list(alpha, draw(gen.ints(1, 4))))
        c = {'kind': 'build', 'sys': lexgen.shorten_refs(draw(lexgen.lexicon(alpha, poses, max_size=8))), 'mat': draw(gen.matrices(max_size=5)),
             'desc': [draw(description), draw(description)], 'time': [draw(times), draw(times)]}
        if gen.chance(draw, 1, 2):
            up = draw(lexgen.pos_list(alpha, draw(gen.ints(0, 3))))
            c['user'] = draw(lexgen.lexicon(alpha, poses + up, n_sys=len(c['sys']), max_size=6))
            for w in c['user']:
                for f in 'abw':
                    w[f] = [r if not (r[0] == 'in' and not r[1] and not c['sys'][r[2]]['y']) else ['sys', r[2]] for r in w.get(f) or []]
            lexgen.shorten_refs(c['user'], c['sys'], True)
        return c
    if k <= 5:
        mat = (draw(gen.ints(1, 4)), draw(gen.ints(1, 4)))
        s = draw(images(draw(gen.pick(binfmt.SYSTEMS)), alpha, mat))
        users = [draw(images(draw(gen.pick(binfmt.USERS)), alpha, mat, len(s['words']), len(s['pos']))) for _ in range(draw(gen.pick([0, 1, 1, 2, 4])))]
        return {'kind': 'read', 'sys': s, 'users': users, 'build': gen.chance(draw, 1, 3)}
    mat = (1, 1)
    s = draw(images(draw(gen.pick(binfmt.SYSTEMS)), alpha, mat))
    u = draw(images(draw(gen.pick(binfmt.USERS)), alpha, mat, len(s['words']), len(s['pos'])))
    valid = draw(gen.pick(binfmt.SYSTEMS + binfmt.USERS))
    bad = draw(st.one_of(st.integers(0, 2 ** 64 - 1), st.integers(0, 63).map(lambda b: valid ^ (1 << b)), st.sampled_from([0, 1, 2, 2 ** 64 - 1]),
                         st.just(int.from_bytes(valid.to_bytes(8, 'big'), 'little')), st.integers(1, 0xffffffff).map(lambda x: valid & 0xffffffff00000000 | x),
                         st.integers(-3, 3).map(lambda x: valid + x)))
    return {'kind': 'refuse', 'sys': s, 'user': u, 'bad': bad}


def check_decoded(im, meanings, own_pos_start, grammar_pos, what):
    """A file decoded by the independent reader against the meaning of its source."""
    eq(len(im.words), len(meanings), 'number of words in the file of the {}', what)
    keys = {}
    spans = []
    for i, (e, m) in enumerate(zip(im.words, meanings)):
        w = 'of word {} in the file of the {}'
        eq((e.left, e.right, e.cost), m.params, 'ids and cost ' + w, i, what)
        eq(e.surface, m.surface, 'surface ' + w, i, what)
        eq(e.headlen, len(m.head.encode('utf-8')), 'headword length ' + w, i, what)
        require(0 <= e.pos < len(grammar_pos), 'part of speech {} of word {} is not in the table', e.pos, i)
        eq(grammar_pos[e.pos], m.pos, 'part of speech ' + w, i, what)
        eq(e.norm or e.surface, m.norm, 'normalized form ' + w, i, what)
        eq(e.reading or e.surface, m.reading, 'reading ' + w, i, what)
        eq(e.dform, m.dform_id, 'dictionary form ' + w, i, what)
        for f in 'abw':
            got = getattr(e, f)
            eq(len(got), len(m.refs[f]), 'number of {} units ' + w, f, i, what)
            for g, s in zip(got, m.refs[f]):
                require(g in s, '{} units {} ' + w + ' should name one of {}', f, got, i, what, sorted(s))
        eq(e.syn, m.syn, 'synonym groups ' + w, i, what)
        if m.indexed:
            keys.setdefault(m.head.encode('utf-8'), []).append(i)
        spans.append((e.start, e.end))
    eq({k: sorted(v) for k, v in im.keys.items()}, keys, 'indexed headwords in the file of the {}', what)
    spans.sort()
    for (_, e), (b, _) in zip(spans, spans[1:]):
        require(e <= b, 'word information overlaps at {} in the file of the {}', b, what)


def check_read(bd, im, npos, what):
    """An open file against what the independent writer put into it (ids local to the file)."""
    h = bd.header
    eq((h.version, h.create_time, h.description), (im['version'], im['time'], im['description']), 'version, creation time and description of the ' + what)
    if im['version'] == binfmt.USER_1:
        require(bd.grammar is None or bd.grammar.get_part_of_speech_size() == 0, 'a grammar was read from a {}', what)
    else:
        g = bd.grammar
        eq([list(g.get_part_of_speech_string(i)) for i in range(g.get_part_of_speech_size())], im['pos'], 'parts of speech of the ' + what)
        l, r, cells = im['matrix']
        for i in range(l):
            for j in range(r):
                eq(g.get_connect_cost(i, j), cells[i + l * j], 'connection cost ({}, {}) of the ' + what, i, j)
    lex = bd.lexicon
    eq(lex.size(), len(im['words']), 'number of words of the ' + what)
    heads = {}
    for i, w in enumerate(im['words']):
        wi = lex.get_word_info(i)
        got = (lex.get_left_id(i), lex.get_right_id(i), lex.get_cost(i), wi.surface, wi.head_word_length, wi.pos_id, wi.normalized_form, wi.dictionary_form_word_id,
               wi.dictionary_form, wi.reading_form, list(wi.a_unit_split), list(wi.b_unit_split), list(wi.word_structure), list(wi.synonym_group_ids))
        eq(got, (w['l'], w['r'], w['c'], w['surface'], len(w['head'].encode('utf-8')), w['pos'], w['norm'], w['d'],
                 w['surface'] if w['d'] < 0 else im['words'][w['d']]['surface'], w['reading'], w['a'], w['b'], w['w'], w['syn']), 'word {} of the ' + what, i)
        if w['l'] != -1:
            heads.setdefault(w['head'], []).append(i)
    for h in {w['head'] for w in im['words']}:
        b = (h + 'あa').encode('utf-8')
        exp = sorted((i, len(k.encode('utf-8'))) for k, ids in heads.items() if (h + 'あa').startswith(k) for i in ids)
        eq(sorted(lex.lookup(b, 0)), exp, 'words found at the start of {!r} in the ' + what, h)


class C15(Check):
    id = 'C15'
    rule = ('(1) system and user dictionaries built from random sources and matrices, decoded by an independent reader of the layout; (2) files of all five versions written by an independent writer '
            '(two-byte lengths, explicit and implied forms, word information in any order and place, own double array), opened and read back field by field alone and as a set of dictionaries, and used as base of a user dictionary; '
            '(3) unknown versions and exchanged kinds. Non-trivial: (1) and (2) with two or more words, (3) every case.')
    quick = 320
    thorough = 10000

    def strategy(self, tier):
        return cases()

    def run(self, case, ctx):
        with ctx.dir() as d:
            return getattr(self, case['kind'])(case, d)

    def build(self, case, d):
        labels = ['built']
        path, up = str(d / 'system.dic'), str(d / 'user.dic')
        with sut('building a system dictionary'):
            world.build_system(path, [lexgen.row(w, case['sys']) for w in case['sys']], world.matrix_text(case['mat']), case['desc'][0], case['time'][0])
        files = [(path, lexgen.meanings(case['sys']), 0)]
        if case.get('user'):
            with sut('building a user dictionary'):
                world.build_user(up, [lexgen.row(w, case['user'], case['sys'], True) for w in case['user']], path, case['desc'][1], case['time'][1])
            files.append((up, lexgen.meanings(case['user'], case['sys'], True), 1))
            labels.append('built user dictionary')
        sys_pos = None
        for f, ms, k in files:
            what = 'user dictionary' if k else 'system dictionary'
            with open(f, 'rb') as fh:
                data = fh.read()
            try:
                im = binfmt.read(data)
            except (binfmt.Malformed, UnicodeDecodeError, struct.error, IndexError) as e:
                raise Violation('the file of the {} does not follow the layout: {}'.format(what, e))
            eq((im.version, im.time, im.description), ((binfmt.USER_3 if k else binfmt.SYSTEM_2), case['time'][k], case['desc'][k]), 'version, creation time and description in the file of the {}', what)
            eq(data[16 + len(case['desc'][k].encode()):272], bytes(256 - len(case['desc'][k].encode())), 'padding of the description in the file of the {}', what)
            if k == 0:
                sys_pos = im.pos
                m = case['mat']
                cells = {(l, r): c for l, r, c in m['cells']}
                eq(im.size, (m['l'], m['r']), 'size of the matrix in the file')
                eq(list(im.matrix), [cells.get((i, j), 0) for j in range(m['r']) for i in range(m['l'])], 'cells of the matrix in the file')
            else:
                eq(im.size, (0, 0), 'size of the matrix in the file of the user dictionary')
            table = sys_pos + (im.pos if k else [])
            require(len({tuple(p) for p in table}) == len(table), 'a part of speech is listed twice in {}', table)
            check_decoded(im, ms, len(sys_pos), table, what)
        return len(case['sys']) > 1, labels

    def read(self, case, d):
        from sudachipy.dictionarylib import BinaryDictionary
        s, users = case['sys'], case['users']
        (d / 'system.dic').write_bytes(binfmt.write(s))
        labels = ['read ' + {binfmt.SYSTEM_1: 'system 1', binfmt.SYSTEM_2: 'system 2'}[s['version']]]
        with sut('reading a system dictionary'):
            bd = BinaryDictionary.from_system_dictionary(str(d / 'system.dic'))
            check_read(bd, s, 0, 'system dictionary')
            if case['build']:
                # a user dictionary built on a foreign system dictionary
                world.build_user(str(d / 'own.dic'), [['自', '0', '0', '0', '自', *[''.join(lexgen.escape(c, 2) for c in x) for x in s['pos'][0]], 'ジ', '自', '*', 'C', '0/U0', '*', '*']], str(d / 'system.dic'))
                im = binfmt.read((d / 'own.dic').read_bytes())
                eq((im.words[0].pos, im.words[0].a, im.pos), (s['pos'].index(s['pos'][0]), [0, 1 << 28], []), 'word of a user dictionary built on it')
            bd.close()
        for k, u in enumerate(users):
            (d / 'user{}.dic'.format(k + 1)).write_bytes(binfmt.write(u))
            labels.append('read user {}'.format(binfmt.USERS.index(u['version']) + 1))
            with sut('reading a user dictionary of version {}'.format(binfmt.USERS.index(u['version']) + 1)):
                ud = BinaryDictionary.from_user_dictionary(str(d / 'user{}.dic'.format(k + 1)))
                check_read(ud, u, len(s['pos']), 'user dictionary')
                ud.close()
        self.together(s, users, d)
        return len(s['words']) > 1, labels

    def together(self, s, users, d):
        """All of them as one set of dictionaries."""
        world_ = {'pos': s['pos'], 'lex': [0] * (1 + len(users)), 'oov': [['simple', 0, 0, 0, 0]], 'chardef': None}
        world.write_definitions(dict(world_, unk=[]), d)
        dic = world.open_dictionary(d)
        eq((dic.dictionaries[0].header.description, len(dic.dictionaries)), (s['description'], 1 + len(users)), 'description of the system dictionary and number of dictionaries')
        npos = len(s['pos'])
        for k, im in enumerate([s] + users):
            for i, w in enumerate(im['words']):
                with sut('reading word {} of dictionary {}'.format(i, k)):
                    g = (k << 28) | i
                    wi = dic.lexicon.get_word_info(g)
                    pos = list(dic.grammar.get_part_of_speech_string(wi.pos_id))
                    params = (dic.lexicon.get_left_id(g), dic.lexicon.get_right_id(g), dic.lexicon.get_cost(g))
                conv = lambda xs: [(x & 0xfffffff) | (k << 28) if x >> 28 else x for x in xs]  # noqa: E731
                eq(pos, s['pos'][w['pos']] if w['pos'] < npos else im['pos'][w['pos'] - npos], 'part of speech of word {} of dictionary {}', i, k)
                eq((wi.surface, wi.normalized_form, wi.reading_form, params, list(wi.a_unit_split), list(wi.b_unit_split), list(wi.word_structure), list(wi.synonym_group_ids)),
                   (w['surface'], w['norm'], w['reading'], (w['l'], w['r'], w['c']), conv(w['a']), conv(w['b']), conv(w['w']), w['syn']), 'word {} of dictionary {}', i, k)
        eq(dic.grammar.get_part_of_speech_size(), npos + sum(len(u['pos']) for u in users), 'number of parts of speech')
        dic.close()

    def refuse(self, case, d):
        from sudachipy.dictionarylib import BinaryDictionary
        s, u = case['sys'], case['user']
        (d / 'system.dic').write_bytes(binfmt.write(s))
        (d / 'user1.dic').write_bytes(binfmt.write(u))
        labels = ['kinds']
        expect_error(lambda: BinaryDictionary.from_system_dictionary(str(d / 'user1.dic')), 'a user dictionary as system dictionary')
        expect_error(lambda: BinaryDictionary.from_user_dictionary(str(d / 'system.dic')), 'a system dictionary as user dictionary')
        w = {'pos': s['pos'], 'lex': [0, 0], 'oov': [['simple', 0, 0, 0, 0]], 'chardef': None, 'unk': []}

        def opened(system, user):
            world.write_definitions(w, d)
            cfg = json.loads((d / 'sudachi.json').read_text(encoding='utf-8'))
            cfg['systemDict'], cfg['userDict'] = system, user
            (d / 'sudachi.json').write_text(json.dumps(cfg), encoding='utf-8')
            from sudachipy.dictionary import Dictionary
            return Dictionary(config_path=os.path.join(str(d), 'sudachi.json'), resource_dir=str(d))
        expect_error(lambda: opened('user1.dic', []), 'a user dictionary configured as system dictionary')
        expect_error(lambda: opened('system.dic', ['system.dic']), 'a system dictionary configured as user dictionary')
        bad = case['bad'] % 2 ** 64
        if bad not in binfmt.SYSTEMS + binfmt.USERS:
            labels.append('unknown version')
            for name, f in (('system.dic', BinaryDictionary.from_system_dictionary), ('user1.dic', BinaryDictionary.from_user_dictionary)):
                data = (d / name).read_bytes()
                (d / ('bad' + name)).write_bytes(struct.pack('<Q', bad) + data[8:])
                expect_error(lambda: f(str(d / ('bad' + name))), 'version {:x}'.format(bad))
            expect_error(lambda: opened('badsystem.dic', []), 'a system dictionary of version {:x} in a configuration'.format(bad))
            expect_error(lambda: opened('system.dic', ['baduser1.dic']), 'a user dictionary of version {:x} in a configuration'.format(bad))
        with sut('opening the dictionaries in their places'):
            opened('system.dic', ['user1.dic']).close()
        from sudachipy.dictionarylib.dictionaryheader import DictionaryHeader
        with sut('reading a header'):
            h = DictionaryHeader.from_bytes(DictionaryHeader(u['version'], u['time'], u['description']).to_bytes(), 0)
        eq((h.version, h.create_time, h.description), (u['version'], u['time'], u['description']), 'header read back')
        return True, labels


CHECK = C15()
