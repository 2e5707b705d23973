"""C21: using a dictionary never changes it and building one is reproducible."""
import gc
import os

from hypothesis import strategies as st

from vh import gen, lexgen, observe, world
from vh.core import Check, Violation, eq, require, sut
from vh.zygote import Zygote


@st.composite
def cases(draw):
    if gen.chance(draw, 1, 2):
        alpha = gen.alphabets(draw)
        sp = draw(lexgen.pos_list(alpha, draw(gen.ints(1, 5))))
        sys_ = lexgen.shorten_refs(draw(lexgen.lexicon(alpha, sp, min_size=2, max_size=16)))
        if gen.chance(draw, 1, 3):
            # homographs: their order in the table is the order of the source
            for w in sys_:
                if gen.chance(draw, 1, 2):
                    w['h'] = sys_[0]['h']
        user = []
        if gen.chance(draw, 1, 2):
            up = draw(lexgen.pos_list(alpha, draw(gen.ints(1, 4))))
            user = lexgen.shorten_refs(draw(lexgen.lexicon(alpha, sp + up, n_sys=len(sys_), max_size=8)), sys_, True)
            for w in user:
                for f in 'abw':
                    w[f] = [r if not (r[0] == 'in' and not r[1] and not sys_[r[2]]['y']) else ['sys', r[2]] for r in w.get(f) or []]
        mat = draw(gen.matrices())
        other = lexgen.shorten_refs(draw(lexgen.lexicon(alpha, sp, max_size=4)))
        return {'sys': sys_, 'user': user, 'mat': mat, 'other': other, 'desc': draw(st.sampled_from(['', 'x', '説明', 'd' * 255])), 'times': draw(st.lists(st.integers(0, 2 ** 40), min_size=2, max_size=2)),
                'cuts': draw(st.lists(st.integers(0, 16), max_size=2)), 'zygote': gen.chance(draw, 2, 3), 'quote': draw(st.booleans())}
    w = draw(gen.worlds(users=st.sampled_from([0, 1, 1, 2, 3]), refs='spell', auto=True, inhibit=False, oov=draw(gen.pick(['both', 'simple']))))
    for lex in w['lex'][1:]:
        if gen.chance(draw, 1, 2):
            draw(gen.pick(lex))['c'] = -32768
    ts = draw(st.lists(gen.texts(w), min_size=1, max_size=4))
    op = st.tuples(st.sampled_from(['open', 'open', 'tokenize', 'tokenize', 'tokenize', 'inspect', 'close', 'raw', 'build', 'write']), gen.ints(0, 7), st.sampled_from('ABC'))
    return {'w': w, 'texts': ts, 'ops': [list(o) for o in draw(st.lists(op, min_size=2, max_size=12))], 'keep': draw(st.booleans())}


def sources(case, d):
    """Source files of a case."""
    rows = [lexgen.row(w, case['sys']) for w in case['sys']]
    cuts = sorted(min(c, len(rows)) for c in case['cuts'])
    files = []
    for k, (b, e) in enumerate(zip([0] + cuts, cuts + [len(rows)])):
        p = os.path.join(d, 'sys{}.csv'.format(k))
        with open(p, 'w', encoding='utf-8', newline='') as f:
            f.write(lexgen.text(rows[b:e], case['quote']))
        files.append(p)
    with open(os.path.join(d, 'user.csv'), 'w', encoding='utf-8', newline='') as f:
        f.write(lexgen.text([lexgen.row(w, case['user'], case['sys'], True) for w in case['user']], case['quote']))
    with open(os.path.join(d, 'other.csv'), 'w', encoding='utf-8', newline='') as f:
        f.write(lexgen.text([lexgen.row(w, case['other']) for w in case['other']]))
    with open(os.path.join(d, 'matrix.def'), 'w') as f:
        f.write(world.matrix_text(case['mat']))
    return files


def build(out, files, matrix, desc, time_):
    from sudachipy.dictionarylib import SYSTEM_DICT_VERSION_2
    from sudachipy.dictionarylib.dictionarybuilder import DictionaryBuilder
    from sudachipy.dictionarylib.dictionaryheader import DictionaryHeader
    with open(out, 'wb') as f, open(matrix) as m:
        f.write(DictionaryHeader(SYSTEM_DICT_VERSION_2, time_, desc).to_bytes())
        DictionaryBuilder(logger=world.quiet).build(files, m, f)


def build_user(out, files, system, desc, time_):
    from sudachipy.dictionarylib import BinaryDictionary, USER_DICT_VERSION_3
    from sudachipy.dictionarylib.dictionaryheader import DictionaryHeader
    from sudachipy.dictionarylib.userdictionarybuilder import UserDictionaryBuilder
    s = BinaryDictionary.from_system_dictionary(system)
    with open(out, 'wb') as f:
        f.write(DictionaryHeader(USER_DICT_VERSION_3, time_, desc).to_bytes())
        UserDictionaryBuilder(s.grammar, s.lexicon, logger=world.quiet).build(files, None, f)
    s.close()


def rebuild(d, files, user, desc, time_):
    """In a process of its own: the same builds to other files."""
    build(os.path.join(d, 'z.dic'), files, os.path.join(d, 'matrix.def'), desc, time_)
    if user:
        build_user(os.path.join(d, 'zu.dic'), [os.path.join(d, 'user.csv')], os.path.join(d, 'z.dic'), desc, time_)


def snapshot(d):
    out = {}
    for root, _, names in os.walk(str(d)):
        for n in names:
            p = os.path.join(root, n)
            with open(p, 'rb') as f:
                out[os.path.relpath(p, str(d))] = f.read()
    return out


def same_files(d, before, what):
    now = snapshot(d)
    eq(sorted(now), sorted(before), 'files after {}', what)
    for n in before:
        if now[n] != before[n]:
            i = next((i for i, (a, b) in enumerate(zip(now[n], before[n])) if a != b), min(len(now[n]), len(before[n])))
            raise Violation('file {} changed at byte {} of {} after {}'.format(n, i, len(before[n]), what))


class C21(Check):
    id = 'C21'
    rule = ('One half: histories of up to 12 operations (opening, analysing, inspecting, building further user dictionaries, closing with results still in use) over worlds with user dictionaries whose costs are '
            'computed, all files compared byte by byte afterwards. Other half: random sources built twice with another build in between and once more in a process with another hash seed. '
            'Non-trivial: a computed cost and an analysis of a non-empty text, or sources of three or more entries built in a second process.')
    quick = 260
    thorough = 5000
    case_timeout = 90

    def strategy(self, tier):
        return cases()

    def run(self, case, ctx):
        return self.history(case, ctx) if 'w' in case else self.builds(case, ctx)

    def builds(self, case, ctx):
        labels = ['build']
        if getattr(self, 'zygote', None) is None:
            self.zygote = Zygote(7 + os.getpid() % 4000000000)
        t1, t2 = case['times']
        with ctx.dir() as d:
            d = str(d)
            files = sources(case, d)
            before = snapshot(d)
            m = os.path.join(d, 'matrix.def')
            u = [os.path.join(d, 'user.csv')]

            def path(n):
                return os.path.join(d, n)

            def read(n):
                with open(path(n), 'rb') as f:
                    return f.read()
            with sut('building'):
                build(path('a.dic'), files, m, case['desc'], t1)
                build(path('other.dic'), [path('other.csv')], m, 'other', t2)
                build(path('b.dic'), files, m, case['desc'], t1)
                build(path('c.dic'), files, m, case['desc'], t2)
            a = read('a.dic')
            require(a == read('b.dic'), 'the second build of the same sources differs at byte {}', first_diff(a, read('b.dic')))
            c = read('c.dic')
            require(a[:8] + a[16:] == c[:8] + c[16:], 'a build with another creation time differs elsewhere, at byte {}', first_diff(a[:8] + a[16:], c[:8] + c[16:]))
            if case['user']:
                labels.append('user dictionary')
                with sut('building a user dictionary'):
                    build_user(path('ua.dic'), u, path('a.dic'), case['desc'], t1)
                    build(path('other2.dic'), [path('other.csv')], m, '', t2)
                    build_user(path('ub.dic'), u, path('b.dic'), case['desc'], t1)
                require(read('ua.dic') == read('ub.dic'), 'the second build of the same user dictionary differs at byte {}', first_diff(read('ua.dic'), read('ub.dic')))
                require(read('a.dic') == a, 'building a user dictionary changed the system dictionary')
            if case['zygote']:
                labels.append('other process')
                try:
                    self.zygote.call('checks.c21', 'rebuild', d, files, bool(case['user']), case['desc'], t1)
                except RuntimeError as e:
                    raise Violation('building in a process of its own failed: {}'.format(e))
                require(a == read('z.dic'), 'the build in another process differs at byte {}', first_diff(a, read('z.dic')))
                if case['user']:
                    require(read('ua.dic') == read('zu.dic'), 'the user dictionary built in another process differs at byte {}', first_diff(read('ua.dic'), read('zu.dic')))
            now = snapshot(d)
            for n in before:
                require(now[n] == before[n], 'building changed the source {}', n)
        return 'other process' in labels and len(case['sys']) >= 3, labels

    def history(self, case, ctx):
        from sudachipy.dictionarylib import BinaryDictionary
        from sudachipy.tokenizer import Tokenizer
        w = case['w']
        labels = ['history']
        auto = any(x.get('c') == -32768 for lex in w['lex'][1:] for x in lex)
        if auto:
            labels.append('computed costs')
        analysed = False
        with ctx.dir() as top:
            d = top / 'in'
            d.mkdir()
            world.write_definitions(w, d)
            world.write_dictionaries(w, d)
            before = snapshot(d)
            shipped = os.path.join(os.environ['VERIF_SUT'], 'sudachipy', 'resources')
            package = snapshot(shipped)
            dics = [world.open_dictionary(d)]
            with sut('create'):
                toks = [dics[0].create()]
            kept = []
            for n, (kind, k, mode) in enumerate(case['ops']):
                if kind == 'open':
                    dics.append(world.open_dictionary(d))
                    with sut('create'):
                        toks.append(dics[-1].create())
                elif kind == 'tokenize' and toks:
                    text = case['texts'][k % len(case['texts'])]
                    with sut('tokenize({!r})'.format(text[:200])):
                        ml = toks[k % len(toks)].tokenize(text, getattr(Tokenizer.SplitMode, mode))
                        observe.snapshot(ml, False)
                    analysed = analysed or bool(text)
                    if case['keep']:
                        kept.append(ml)
                elif kind == 'inspect' and dics:
                    L = dics[k % len(dics)].lexicon
                    with sut('inspecting'):
                        for j, lex in enumerate(w['lex']):
                            for i, x in enumerate(lex):
                                g = world.gid(j, i)
                                L.get_word_info(g), L.get_left_id(g), L.get_right_id(g), L.get_cost(g)
                                list(L.lookup(x['h'].encode('utf-8'), 0))
                elif kind == 'close' and dics:
                    i = k % len(dics)
                    dic, tok = dics.pop(i), toks.pop(i)
                    labels.append('closed in use' if kept else 'closed')
                    with sut('close'):
                        dic.close()
                    del dic, tok
                elif kind == 'raw':
                    # a user dictionary on its own
                    for j in range(1, len(w['lex'])):
                        with sut('opening user dictionary {}'.format(j)):
                            ud = BinaryDictionary.from_user_dictionary(str(d / 'user{}.dic'.format(j)))
                            if toks:
                                ud.lexicon.calculate_cost(toks[k % len(toks)])
                            ud.close()
                elif kind == 'write' and dics and len(w['lex']) > 1:
                    # costs of an open user dictionary are written in memory only
                    ud = dics[k % len(dics)].lexicon.lexicons[1]
                    with sut('setting a cost'):
                        c = ud.get_cost(0)
                        ud.word_params.set_cost(0, 77)
                        eq(ud.get_cost(0), 77, 'cost after setting it')
                        ud.word_params.set_cost(0, c)
                elif kind == 'build':
                    out = top / 'built{}.dic'.format(n)
                    with sut('building a user dictionary'):
                        world.build_user(str(out), [world.columns(w, min(1, len(w['lex']) - 1), x) for x in base_only(w)], str(d / 'system.dic'))
                same_files(d, before, 'operation {} ({}) of {}'.format(n, kind, case['ops']))
            for dic in dics:
                with sut('close'):
                    dic.close()
            del dics, toks, kept
            gc.collect()
            same_files(d, before, 'closing everything, history {}'.format(case['ops']))
            same_files(shipped, package, 'everything was closed, in the package, history {}'.format(case['ops']))
        return auto and analysed, labels


def base_only(w):
    return [x for x in w['lex'][0] if not any(x.get(f) for f in 'abw') and x.get('d') is None]


def first_diff(a, b):
    return next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))


CHECK = C21()
