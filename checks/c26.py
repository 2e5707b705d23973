"""C26: repeated use accumulates neither memory nor open files."""
import array
import gc
import json
import logging
import os
import random
import sys
import tracemalloc

from hypothesis import strategies as st

from vh import gen, observe, world
from vh.core import Check, Violation, eq, require
from vh.zygote import Zygote

KINDS = ['tok', 'tok', 'tok', 'read', 'split', 'debug', 'lookup', 'create', 'fail', 'open', 'build']
ENDS = ['close', 'drop', 'close held', 'drop held', 'close used']
FAULTS = ['user is system', 'system is user', 'no user', 'no char', 'bad char', 'bad unk', 'no oov', 'no class', 'cut']


@st.composite
def cases(draw):
    if gen.chance(draw, 1, 5):
        from checks import c13, c14
        k = draw(gen.ints(0, 1))
        w = draw(c13.cases() if k else c14.cases())['w']
        some = draw(st.lists(c13.texts_() if k else gen.texts(w), min_size=1, max_size=4))
        for lex in w['lex']:
            for x in lex:
                for f in 'abw':
                    x.pop(f, None)   # units that do not spell the word
    else:
        w = draw(gen.worlds(users=st.sampled_from([0, 1, 1, 2]), refs='spell', auto=True))
        some = draw(st.lists(gen.texts(w, max_fragments=5), min_size=1, max_size=4))
    some = [t[:40] for t in some if t] or ['a']
    ops = [[draw(gen.pick(KINDS)), draw(gen.ints(0, 3)), draw(gen.pick('CAB'))] for _ in range(draw(gen.ints(1, 6)))]
    return {'w': w, 'texts': some, 'ops': ops, 'shuffle': draw(gen.ints(0, 1)), 'seed': draw(gen.ints(0, 10 ** 6)), 'held': draw(gen.ints(0, 1)),
            'grow': [draw(gen.pick([40, 80, 160])), draw(gen.pick([1, 1, 2, 5])), draw(gen.pick('CAB'))],
            'ends': draw(st.lists(gen.pick(ENDS), min_size=1, max_size=4)), 'faults': draw(st.lists(gen.pick(FAULTS), max_size=3))}


class Deaf(logging.Handler):
    def emit(self, record):
        record.getMessage()


def noisy():
    lg = logging.Logger('verif.c26', logging.DEBUG)
    lg.addHandler(Deaf())
    return lg


def release():
    gc.collect()
    sys._clear_type_cache()   # holds on to names of attributes


def opened(d):
    """Files of d that the process holds open, and the number of open files."""
    d = os.path.realpath(d) + '/'
    names = []
    n = 0
    for fd in os.listdir('/proc/self/fd'):
        try:
            t = os.readlink('/proc/self/fd/' + fd)
        except OSError:
            continue
        n += 1
        if t.startswith(d):
            names.append(os.path.basename(t) + ' (file)')
    with open('/proc/self/maps') as f:
        for line in f:
            p = line.split(None, 5)[-1].strip()
            if p.startswith(d):
                names.append(os.path.basename(p) + ' (mapping)')
    return sorted(names), n


def use(dic, texts, mode='C'):
    tok = dic.create()
    return [observe.analyse(tok, t, mode) for t in texts]


class Rounds:
    """The same operations again and again, on texts of the same characters in other orders."""

    def __init__(self, d, case):
        self.d, self.case = d, case
        self.dic = world.open_dictionary(d)
        self.toks = [self.dic.create() for _ in range(2)]
        self.number = 0
        self.analyses = 0
        self.kept = None
        self.logger = noisy()
        # what may stay: the cached words and the space for the longest text
        for k, lex in enumerate(case['w']['lex']):
            for i in range(min(len(lex), 400)):
                self.dic.lexicon.get_word_info(world.gid(k, i))
        longest = ''.join(case['texts']) * 4
        for tok in self.toks:
            observe.analyse(tok, longest, 'C', split=False)

    def text(self, i):
        t = self.case['texts'][i % len(self.case['texts'])]
        if self.case['shuffle']:
            cs = list(t)
            self.rng.shuffle(cs)
            return ''.join(cs)
        return t

    def round(self):
        self.number += 1
        self.rng = random.Random(self.case['seed'] * 1000003 + self.number)
        held = []
        for n, (kind, i, mode) in enumerate(self.case['ops']):
            tok = self.toks[i % 2]
            text = self.text(i)
            self.analyses += 1
            if kind in ('tok', 'read', 'split'):
                r, ml = observe.analyse(tok, text, mode, split=kind == 'split')
                held.append(ml)
            elif kind == 'debug':
                observe.analyse(tok, text, mode, self.logger if i % 3 else noisy(), split=False)
            elif kind == 'lookup':
                raw = text.encode('utf-8')
                for g, _ in list(self.dic.lexicon.lookup(raw, 0))[:5]:
                    wi = self.dic.lexicon.get_word_info(g)
                    self.dic.lexicon.get_word_id(wi.surface, wi.pos_id, wi.reading_form)
            elif kind == 'sweep':
                for k, lex in enumerate(self.case['w']['lex']):
                    for i in range(len(lex) + (self.case['w'].get('bulk') or [0] * 16)[k]):
                        self.dic.lexicon.get_word_info(world.gid(k, i))
            elif kind == 'create':
                from sudachipy.tokenizer import Tokenizer
                observe.analyse(self.dic.create(getattr(Tokenizer.SplitMode, mode)) if i % 2 else self.dic.create(), text, mode if i > 1 else None)
            elif kind == 'fail':
                try:
                    tok.tokenize(text + '\ud800' + text)
                except Exception:
                    pass
            elif kind == 'open':
                if self.number % 3 == 0:
                    other = world.open_dictionary(self.d)
                    held.append(use(other, [text], mode))
                    if i % 2:
                        other.close()
            elif kind == 'build':
                if self.number % 3 == 0:
                    build(self.d, self.case)
        self.kept = held if self.case['held'] else None

    def usage(self, into, i):
        """Row i of an array: the measuring itself keeps nothing."""
        gc.collect()
        into[3 * i + 2] = len(os.listdir('/proc/self/fd'))
        release()
        into[3 * i] = sys.getallocatedblocks()
        into[3 * i + 1] = tracemalloc.get_traced_memory()[0]


def build(d, case):
    w = case['w']
    rows = [world.columns(w, 0, x) for x in world.entries(w, 0)[:12] if not any(x.get(f) for f in 'abw') and x.get('d') is None]
    try:
        world.build_system(os.path.join(d, 'again.dic'), rows, world.matrix_text(w['mat']))
        world.build_user(os.path.join(d, 'again-user.dic'), [r[:1] + ['0', '0'] + r[3:] for r in rows[:3]], os.path.join(d, 'again.dic'))
    except Exception:
        pass


def growing(rows):
    """Which of the measured columns grew in every step."""
    return [k for k in range(3) if all(a < b for a, b in zip(rows[k::3], rows[k + 3::3]))]


def steps(r, n, rounds):
    rows = array.array('q', [0] * (3 * (n + 1)))
    r.usage(rows, 0)
    for i in range(1, n + 1):
        for _ in range(rounds):
            r.round()
        r.usage(rows, i)
    return rows


def repeated(d, case):
    r = Rounds(d, case)
    for _ in range(3):
        r.round()
    rows = steps(r, 6, 3)
    bad = growing(rows)
    if bad:
        # a cache that fills up is not an accumulation: go on until it would be full
        while r.analyses < 4000:
            r.round()
        rows = steps(r, 8, 30)
        bad = growing(rows)
    return {'grows': bad, 'rows': [list(rows[k::3]) for k in range(3)], 'analyses': r.analyses}


def lengths(d, case):
    """Memory kept by a tokenizer for texts of growing lengths, and for the longest alone."""
    n, step, mode = case['grow']
    t = (''.join(case['texts']) * n)[:n]
    dic = world.open_dictionary(d)
    observe.analyse(dic.create(), t, mode, split=False)

    def kept(texts):
        release()
        before = sys.getallocatedblocks(), tracemalloc.get_traced_memory()[0]
        tok = dic.create()
        for x in texts:
            observe.analyse(tok, x, mode, split=False)
        release()
        after = sys.getallocatedblocks(), tracemalloc.get_traced_memory()[0]
        del tok
        return [b - a for a, b in zip(before, after)]
    kept([t])
    one = kept([t])
    all_ = kept([t[:k] for k in range(1, n, step)] + [t])
    return {'longest': one, 'growing': all_}


def corrupt(d, case, fault):
    """A configuration in d/bad that cannot be opened."""
    bad = os.path.join(d, 'bad')
    os.makedirs(bad, exist_ok=True)
    for f in os.listdir(bad):
        os.remove(os.path.join(bad, f))
    for f in os.listdir(d):
        if f.endswith(('.dic', '.def')) and not f.startswith('again'):
            with open(os.path.join(d, f), 'rb') as src, open(os.path.join(bad, f), 'wb') as dst:
                dst.write(src.read())
    cfg = world.config_json(case['w'])
    if fault == 'user is system':
        cfg['userDict'] = cfg.get('userDict', []) + ['system.dic']
    elif fault == 'system is user':
        cfg['systemDict'] = 'user1.dic' if 'userDict' in cfg else 'char.def'
    elif fault == 'no user':
        cfg['userDict'] = cfg.get('userDict', []) + ['nothing.dic']
    elif fault == 'no char':
        cfg['characterDefinitionFile'] = 'nothing.def'
    elif fault == 'bad char':
        with open(os.path.join(bad, 'char.def'), 'a', encoding='utf-8') as f:
            f.write('\n0x0050..0x0040 ALPHA\n')
    elif fault == 'bad unk':
        cfg['oovProviderPlugin'].append({'class': 'sudachipy.plugin.oov.MeCabOovProviderPlugin', 'charDef': 'char.def', 'unkDef': 'char.def'})
    elif fault == 'no oov':
        cfg['oovProviderPlugin'] = []
    elif fault == 'no class':
        cfg['pathRewritePlugin'].append({'class': 'sudachipy.plugin.path_rewrite.Nothing'})
    elif fault == 'cut':
        with open(os.path.join(bad, 'system.dic'), 'r+b') as f:
            f.truncate(300)
    with open(os.path.join(bad, 'sudachi.json'), 'w', encoding='utf-8') as f:
        json.dump(cfg, f, ensure_ascii=False)
    return bad


def files(d, case):
    out = []
    gc.collect()
    _, before = opened(d)
    for end in case['ends']:
        dic = world.open_dictionary(d)
        held = use(dic, case['texts'])
        if end == 'close used':
            tok = dic.create()
            try:
                held.append((tok, tok.tokenize(case['texts'][0])))
            except Exception:
                pass
        if not end.endswith('held'):
            held = None
        if end.startswith('close'):
            dic.close()
        dic = tok = held = None
        gc.collect()
        names, n = opened(d)
        out.append(['opened, used, ended by ' + end, names, n - before])
    for fault in case['faults']:
        bad = corrupt(d, case, fault)
        try:
            dic = world.open_dictionary(bad)
            use(dic, case['texts'][:1])
            dic.close()
            refused = False
        except Exception:
            refused = True
        dic = None
        gc.collect()
        names, n = opened(d)
        out.append(['opening refused ({})'.format(fault) if refused else 'opened all the same ({})'.format(fault), names, n - before])
    build(d, case)
    gc.collect()
    names, n = opened(d)
    out.append(['builds', names, n - before])
    return out


def measure(d, case):
    if any(x.get('c') == -32768 for lex in case['w']['lex'][1:] for x in lex):
        try:
            world.open_dictionary(d).close()
        except Violation:
            # a cost that cannot be computed (other checks look at that)
            return None
    gc.collect()
    gc.freeze()
    out = {'files': files(d, case)}
    tracemalloc.start()
    out['lengths'] = lengths(d, case)
    out['rounds'] = repeated(d, case)
    gc.collect()
    out['end'] = opened(d)[0]
    return out


class C26(Check):
    id = 'C26'
    rule = ('Random worlds; in a fresh process, dictionaries are opened, used and closed or dropped in several ways, openings fail, dictionaries are built; a tokenizer meets texts of growing '
            'lengths; and rounds of analyses (all modes, splits, debug output, lookups, new tokenizers, failures, other dictionaries, builds) are repeated on texts of the same characters in '
            'other orders. Live memory blocks, traced bytes and open files and mappings are counted after each step. Non-trivial: at least 20 analyses in the rounds, of more than one character.')
    quick = 40
    thorough = 900
    case_timeout = 150
    assumptions = ['objects in reference cycles count as released once the garbage collector has run', 'memory of the C++ trie library is not counted',
                   'a cache that stops growing within some 4000 analyses is not an accumulation']

    def strategy(self, tier):
        return cases()

    def corpus(self, tier):
        # more words than the cache holds
        w = gen.fixed_world(words=[dict(h='あ', c=-100), dict(h='い')])
        w['bulk'] = [1100]
        return [{'w': w, 'texts': ['あい', '語甲番7い'], 'ops': [['sweep', 0, 'C'], ['split', 0, 'A']], 'shuffle': 0, 'seed': 0, 'held': 0, 'grow': [40, 1, 'C'], 'ends': ['close'], 'faults': []}]

    def run(self, case, ctx):
        labels = []
        if getattr(self, 'zygote', None) is None:
            self.zygote = Zygote(0)
        with ctx.dir() as d:
            world.write_definitions(case['w'], d)
            world.write_dictionaries(case['w'], d)
            try:
                got = self.zygote.call('checks.c26', 'measure', str(d), case)
            except RuntimeError as e:
                raise Violation('the operations failed: {}'.format(e))
        if got is None:
            return False, ['cost cannot be computed']
        for what, names, n in got['files']:
            eq(names, [], 'files of the dictionary still in use after: {}', what)
            eq(n, 0, 'additional open files after: {}', what)
            labels.append(what)
        one, all_ = got['lengths']['longest'], got['lengths']['growing']
        for k, unit, slack in ((0, 'memory blocks', 400), (1, 'bytes of memory', 40000)):
            require(all_[k] <= 2 * one[k] + slack, '{} kept for texts of up to {} characters in growing lengths: {}, for the longest alone: {}', unit, case['grow'][0], all_[k], one[k])
        r = got['rounds']
        for k in r['grows']:
            raise Violation('{} grow with every repetition of the same operations, after {} of them: {}'.format(
                ['memory blocks', 'bytes of memory', 'open files'][k], r['analyses'], r['rows'][k]))
        eq(got['end'], [], 'files of the dictionary still in use after everything was dropped')
        labels += sorted({k for k, _, _ in case['ops']})
        return r['analyses'] >= 20 and any(len(t) > 1 for t in case['texts']), labels


CHECK = C26()
