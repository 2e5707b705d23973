"""C25: tokenizers of one dictionary can work at the same time in several threads."""
from hypothesis import strategies as st

from vh import gen, observe, world
from vh.core import Check, Violation, eq, require, short, sut
from vh.threads import Schedule, sut_prefix

runs = gen.weighted((4, gen.ints(1, 8)), (4, gen.ints(1, 80)), (2, gen.ints(20, 1500)))


@st.composite
def cases(draw):
    if gen.chance(draw, 1, 4):
        from checks import c13, c14
        k = draw(gen.ints(0, 1))
        w = draw(c13.cases() if k else c14.cases())['w']
        w.setdefault('alpha', list('〇一十百千万00123.,年'))
        for lex in w['lex']:
            for x in lex:
                for f in 'abw':
                    x.pop(f, None)   # units that need not spell the word
        some = draw(st.lists(c13.texts_() if k else gen.texts(w), min_size=2, max_size=5))
    else:
        w = draw(gen.worlds(users=st.sampled_from([0, 1, 1, 2]), refs='spell', oov=draw(gen.pick(['both', 'both', 'simple', 'mecab']))))
        some = draw(st.lists(gen.texts(w, max_fragments=5), min_size=2, max_size=5))
    some = [t[:60] for t in some if t] or ['a']
    jobs = []
    for _ in range(draw(gen.pick([2, 2, 2, 3, 4]))):
        jobs.append([[draw(gen.pick('CAB')), draw(gen.pick(some)), draw(gen.pick(['read', 'read', 'late', 'lookup', 'debug', 'infos']))] for _ in range(draw(gen.ints(1, 3)))])
    return {'w': w, 'jobs': jobs, 'own': draw(gen.pick([0, 0, 1])), 'runs': draw(st.lists(runs, min_size=1, max_size=12)), 'opcodes': draw(gen.pick([0, 0, 1]))}


class C25(Check):
    id = 'C25'
    technique = "stateful property-based testing with generated thread schedules against a sequential run"
    rule = ('Random worlds; two to four threads with tokenizers of their own of one dictionary analyse texts in all modes, read and split the morphemes at once or later, look entries up, read entries one after the other and '
            'ask for debug output, under generated schedules that change threads after given numbers of lines or bytecodes of the library; each result compared with that of the same calls '
            'one after the other in a fresh dictionary. Non-trivial: ten or more changes of threads in a case with dictionary words in two threads.')
    quick = 110
    thorough = 2500
    case_timeout = 120
    assumptions = ['threads change over at lines and bytecodes of Python code; compiled functions are one step between them',
                   'a tokenizer and the morphemes it returned are used by one thread only; dictionaries are opened and closed by one thread at a time']

    def strategy(self, tier):
        return cases()

    def corpus(self, tier):
        words = [dict(h=chr(0x4e00 + i), y='ヨ{}'.format(i), n='形{}'.format(i), d=4 + (i + 1) % 60, g=[i]) for i in range(60)]
        w = gen.fixed_world(words=words)
        a, b = ''.join(x['h'] for x in words), ''.join(x['h'] for x in words[::-1])
        out = [{'w': w, 'jobs': [[['C', a, 'read']], [['A', b, 'late']]], 'own': 0, 'runs': r, 'opcodes': o} for o in (0, 1) for r in ([1], [3, 7], [11], [29, 1], [400, 3])]
        # entries of several dictionaries, unknown words, numerals, splits
        own = [dict(h=chr(0x6e00 + i), y='ウ{}'.format(i), n='使{}'.format(i), d=(i + 7) % 60, g=[i + 1]) for i in range(60)]
        more = [dict(h=chr(0x6f00 + i), y='タ{}'.format(i), n='他{}'.format(i), g=[i + 2]) for i in range(60)]
        w = gen.fixed_world(words=words, users=[own, more], rewrite=[['num', True], ['kata', 0, 2]], oov=['mecab', ['simple', 0, 0, 1000, 0]])
        u, v = ''.join(x['h'] for x in own), ''.join(x['h'] for x in more)
        mixed = ''.join(x + y for x, y in zip(a, 'アabcイウ12三百αβー' * 5))
        for r in ([1], [2, 1], [5, 3, 1], [13, 1]):
            out.append({'w': w, 'jobs': [[['C', a, 'read']], [['C', u, 'read']], [['B', v, 'lookup']]], 'own': 1, 'runs': r, 'opcodes': 0})
            out.append({'w': w, 'jobs': [[['C', mixed, 'late']], [['A', u + mixed, 'read']], [['C', mixed[::-1], 'debug']]], 'own': 0, 'runs': r, 'opcodes': 0})
        out.append({'w': w, 'jobs': [[['C', a, 'read']], [['C', u, 'read']]], 'own': 0, 'runs': [7, 1], 'opcodes': 1})
        for r in ([1], [2, 3, 1], [7, 2, 5], [17, 4, 1, 29, 3]):
            out.append({'w': w, 'jobs': [[['C', a, 'infos'], ['C', v, 'infos']], [['C', u, 'infos'], ['C', a[::-1], 'infos']]], 'own': 0, 'runs': r, 'opcodes': 0})
        return out

    def job(self, dic, tok, script):
        import logging
        from sudachipy.tokenizer import Tokenizer

        def run():
            out, late = [], []
            for mode, text, kind in script:
                m = getattr(Tokenizer.SplitMode, mode)
                if kind == 'infos':
                    # nothing but entries
                    out.append([])
                    raw, k = text.encode('utf-8'), 0
                    for c in text:
                        for g, end in dic.lexicon.lookup(raw, k):
                            out[-1].append([g, end, dic.lexicon.get_left_id(g), dic.lexicon.get_right_id(g), dic.lexicon.get_cost(g), observe.raw(dic.lexicon.get_word_info(g))])
                        k += len(c.encode('utf-8'))
                    continue
                logger = None
                if kind == 'debug':
                    logger = logging.Logger('verif.c25', logging.DEBUG)
                    logger.addHandler(logging.NullHandler())
                try:
                    ml = tok.tokenize(text, m, logger) if logger else tok.tokenize(text, m)
                except Exception as e:
                    out.append(['error', type(e).__name__, str(e)])
                    continue
                if kind == 'late':
                    late.append((len(out), ml))
                    out.append(None)
                    continue
                out.append(observe.snapshot(ml))
                if kind == 'lookup':
                    raw = text.encode('utf-8')
                    found = list(dic.lexicon.lookup(raw, 0))
                    out.append([list(x) for x in found])
                    for g, _ in found[:3]:
                        wi = dic.lexicon.get_word_info(g)
                        out.append([observe.raw(wi), dic.lexicon.get_word_id(wi.surface, wi.pos_id, wi.reading_form) >= 0])
            for i, ml in late:
                out[i] = observe.snapshot(ml)
            return out
        return run

    def run(self, case, ctx):
        w = case['w']
        labels = []
        with ctx.dir() as d:
            ref = world.make(w, d)
            want = []
            for script in case['jobs']:
                want.append(self.job(ref, ref.create(), script)())
            dic = world.open_dictionary(d)
            s = Schedule(len(case['jobs']), case['runs'], sut_prefix(), bool(case['opcodes']))
            jobs = []
            for script in case['jobs']:
                if case['own']:
                    # the tokenizer is made in its thread
                    jobs.append(lambda script=script: self.job(dic, dic.create(), script)())
                else:
                    jobs.append(self.job(dic, dic.create(), script))
            try:
                got = s.run(jobs)
            except TimeoutError:
                raise Violation('{} threads did not end after {} steps and {} changes: {}'.format(len(jobs), s.steps, s.changes, short(case['jobs'])))
            busy = 0
            for k, ((state, x), y) in enumerate(zip(got, want)):
                what = 'thread {} of {} ({} steps, {} changes)'.format(k, len(want), s.steps, s.changes)
                if state == 'error':
                    raise Violation('{} failed with {}: {}; its calls: {}'.format(what, type(x).__name__, short(str(x)), short(case['jobs'][k])))
                for i, (a, b) in enumerate(zip(x, y)):
                    eq(a, b, 'result {} of {{}}: {{}}'.format(i), what, case['jobs'][k])
                eq(len(x), len(y), 'number of results of {}', what)
                busy += any(r and r[0] != 'error' and isinstance(r[0], list) for r in y)
            if s.stolen:
                labels.append('a thread waited for another')
            labels.append('{} threads'.format(len(jobs)))
            labels.append('bytecodes' if case['opcodes'] else 'lines')
            if any(r and r[0] == 'error' for y in want for r in y):
                labels.append('failed analyses')
            jobs = got = None
            dic.close()
            ref.close()
        return s.changes >= 10 and busy > 1, labels


CHECK = C25()
