"""C28: an unfinished dictionary never passes for a complete one."""
import builtins
import errno
import io
import os

from hypothesis import strategies as st

from checks import c27
from vh import gen, world
from vh.core import Check, Violation, eq, require, short
from vh.zygote import Zygote, in_child

KINDS = ['kill', 'full', 'once', 'interrupt']
LATE = ['unit', 'cost', 'left', 'matrix cell', 'matrix number', 'columns', 'head', 'a-mode', 'null', 'long', 'user cost', 'user unit', 'surrogate', 'pos', 'dictionary form', 'structure', 'too many units']


@st.composite
def cases(draw):
    w = draw(gen.worlds(users=st.sampled_from([0, 1, 1]), refs='spell', inhibit=False, max_words=5, oov='simple'))
    user = len(w['lex']) > 1 and draw(st.booleans())
    return {'w': w, 'texts': ['a'], 'notes': draw(gen.ints(0, 4)), 'user': user, 'before': draw(gen.pick(['nothing', 'nothing', 'dictionary', 'junk', 'longer'])),
            'buffer': draw(gen.pick([1, 1, 16, 300, 8192])), 'kinds': draw(st.lists(gen.pick(KINDS), min_size=1, max_size=2, unique=True)), 'points': draw(st.lists(gen.ints(0, 999), min_size=1, max_size=12)),
            'part': draw(gen.ints(0, 100)), 'cuts': draw(st.lists(gen.ints(0, 9999), min_size=1, max_size=25)), 'late': draw(st.one_of(st.none(), st.tuples(gen.pick(LATE), gen.ints(0, 50)).map(list))),
            'desc': draw(gen.pick(['', 'words', '言葉']))}


class Raw(io.FileIO):
    """A file that fails at one of its operations."""
    plan = None   # kind, operation, part of the data written in percent
    count = 0
    failed = False

    def point(self, data=b''):
        cls = Raw
        n = cls.count
        cls.count += 1
        kind, at, part = cls.plan or (None, -1, 0)
        if kind == 'full' and cls.failed and data:
            raise OSError(errno.ENOSPC, 'No space left on device')
        if n == at:
            cls.failed = True
            if data and part and self.tell() + len(data) > os.fstat(self.fileno()).st_size:
                # only what makes a file longer is done in part
                super().write(bytes(data)[:len(data) * part // 100])
            if kind == 'kill':
                os._exit(99)
            if kind == 'interrupt':
                raise KeyboardInterrupt
            raise OSError(errno.ENOSPC, 'No space left on device')

    def write(self, data):
        self.point(data)
        return super().write(data)


def failing_open(d, buffer):
    """open() whose binary output files in d fail as Raw.plan says."""
    real = builtins.open

    def opened(file, mode='r', *args, **kw):
        if 'b' in mode and set(mode) & set('wax+') and os.path.dirname(os.path.abspath(str(file))) == d:
            raw = Raw(file, mode.replace('b', ''))
            return (io.BufferedRandom if '+' in mode else io.BufferedWriter)(raw, buffer)
        return real(file, mode, *args, **kw)
    return opened


def run_with(d, args, buffer, plan):
    """The command with a failing output file: what it returned, how many operations it made."""
    Raw.plan, Raw.count, Raw.failed = plan, 0, False
    real = builtins.open
    builtins.open = io.open = failing_open(d, buffer)
    try:
        r = c27.command(args)
    finally:
        builtins.open = io.open = real
    return [r, Raw.count, Raw.failed]


def contents(path, user):
    """Everything a dictionary says, each thing as a value or as a failure."""
    from sudachipy.dictionarylib.binarydictionary import BinaryDictionary
    d = BinaryDictionary.from_user_dictionary(path) if user else BinaryDictionary.from_system_dictionary(path)
    out = {}

    def item(name, fn):
        try:
            out[name] = fn()
        except Exception:
            out[name] = 'failed'
    g, lex = d.grammar, d.lexicon
    item('parts of speech', lambda: g.pos_list)
    item('size', lex.size)
    item('description', lambda: d.header.description)

    def info(i):
        x = lex.get_word_info(i)
        return [getattr(x, a) for a in ('surface', 'head_word_length', 'pos_id', 'normalized_form', 'dictionary_form_word_id', 'dictionary_form', 'reading_form', 'a_unit_split', 'b_unit_split', 'word_structure', 'synonym_group_ids')]
    for i in range(max(lex.size(), contents.words)):
        item('word {}'.format(i), lambda: info(i))
        item('parameters {}'.format(i), lambda: [lex.get_left_id(i), lex.get_right_id(i), lex.get_cost(i)])
    if not user:
        for a in range(contents.ids[0]):
            for b in range(contents.ids[1]):
                item('cost {} {}'.format(a, b), lambda: g.get_connect_cost(a, b))
    for k, key in enumerate(contents.keys):
        item('lookup {}'.format(k), lambda: sorted(list(x) for x in lex.lookup(key, 0)))
    return out


def opened(path, user, want):
    """What is wrong with the file at path: nothing if it cannot be opened or says nothing but what the complete one says."""
    try:
        got = contents(path, user)
    except Exception as e:
        return ['refused', type(e).__name__]
    for k in sorted(set(got) | set(want)):
        x = got.get(k, 'failed')
        if x != 'failed' and x != want.get(k):
            return ['wrong', '{}: {} instead of {}'.format(k, short(x), short(want.get(k)))]
    return ['partial' if 'failed' in got.values() else 'complete', '']


def masked(path):
    if not os.path.exists(path):
        return None
    with open(path, 'rb') as f:
        b = f.read()
    return b[:8] + b[16:]


def trial(d, case):
    """In a forked child. Returns a list of violations, and counts."""
    quiet = os.open(os.devnull, os.O_RDWR)
    for fd in (0, 1, 2):
        os.dup2(quiet, fd)
    p = lambda name: os.path.join(d, name)
    w, user = case['w'], case['user']
    counts = {}
    bad = []

    def tick(x):
        counts[x] = counts.get(x, 0) + 1
    k = 1 if user else 0
    words = world.entries(w, k)
    contents.words, contents.ids, contents.keys = len(words), (w['mat']['r'], w['mat']['l']), [world.columns(w, k, x)[0].encode('utf-8', 'ignore') for x in words]

    def args(target):
        head = ['ubuild', '-s', p('system.dic')] if user else ['build', '-m', p('matrix.def')]
        return head + ['-o', target] + (['-d', case['desc']] if case['desc'] else []) + [p('lex{}.csv'.format(k))]
    # a complete one
    late, plain = case['late'], dict(case, fault=None)
    c27.prepare(d, plain)
    ok = c27.command(['build', '-o', p('system.dic'), '-m', p('matrix.def'), p('lex0.csv')])
    if ok:
        return [['a world without faults was refused: {}'.format(ok), None]], counts
    if user and late and late[0].startswith('user') is False and late[0] not in ('unit', 'cost', 'left', 'columns', 'head', 'null', 'long'):
        late = None
    ok, r = in_child(run_with, d, args(p('complete.dic')), case['buffer'], None)
    if not ok or r[0]:
        return [['the build failed: {}'.format(r), None]], counts
    points = r[1]
    complete = masked(p('complete.dic'))
    want = contents(p('complete.dic'), user)
    target = p('target.dic')
    before = {'nothing': None, 'dictionary': open(p('system.dic'), 'rb').read(), 'junk': b'junk' * 99, 'longer': open(p('complete.dic'), 'rb').read() + b'\x07' * 999}[case['before']]

    def reset():
        if before is None:
            if os.path.exists(target):
                os.remove(target)
        else:
            with open(target, 'wb') as f:
                f.write(before)

    def remains(what):
        """What is left at the output must be nothing, what was there, the whole, or no dictionary."""
        now = masked(target)
        if now is None:
            return 'nothing'
        if before is not None and now == before[:8] + before[16:]:
            return 'as before'
        if now == complete:
            return 'complete'
        ok, r = in_child(opened, target, user, want)
        if not ok:
            bad.append(['opening what was left crashed: {}'.format(r), what])
        elif r[0] != 'refused':
            bad.append(['what was left could be opened ({})'.format(' '.join(r)), what])
        return 'refused'
    chosen = list(range(points)) if case.get('all') else sorted({n * points // 1000 for n in case['points']} | {points - 1})
    for kind in case['kinds']:
        for at in chosen:
            reset()
            ok, r = in_child(run_with, d, args(target), case['buffer'], [kind, at, case['part']])
            what = '{} at operation {} of {}, {} % of it written, buffer of {}'.format(kind, at, points, case['part'], case['buffer'])
            if ok and r[0] == 0 and masked(target) != complete:
                bad.append(['the command ended well, but the dictionary is not complete', what])
            tick('{}: {}'.format(kind, remains(what)))
    # the source is at fault
    if late:
        c27.prepare(d, dict(case, fault=late))
        if late[0] in ('dictionary form', 'structure', 'too many units'):
            rows = [world.columns(w, k, x) for x in words]
            row = rows[late[1] % len(rows)]
            row[14] = 'C'
            if late[0] == 'dictionary form':
                row[13] = str(len(rows) + late[1])
            elif late[0] == 'structure':
                row[17] = '{0}/{0}'.format(999 + late[1])
            else:
                row[15] = '/'.join(['0'] * (128 + late[1]))
            with open(p('lex{}.csv'.format(k)), 'w', encoding='utf-8', newline='') as f:
                f.write(world.csv_text(rows))
        reset()
        ok, r = in_child(run_with, d, args(target), case['buffer'], None)
        what = 'fault in the source: {}'.format(late)
        if ok and r[0] == 0:
            # another dictionary is what was asked for
            tick('fault accepted')
        else:
            tick('source: {}'.format(remains(what)))
    # cut off
    whole = open(p('complete.dic'), 'rb').read()
    spots = [n for n in range(1, len(whole)) if whole[n - 1] or whole[n]]
    cuts = range(len(whole)) if case.get('all') else sorted({spots[n % len(spots)] for n in case['cuts']} | {n * len(whole) // 10000 for n in case['cuts'][:6]} | {len(whole) - 1 - n % 40 for n in case['cuts'][:6]})

    def cutting():
        out, n = [], {}
        for c in cuts:
            with open(p('cut.dic'), 'wb') as f:
                f.write(whole[:c])
            r = opened(p('cut.dic'), user, want)
            n[r[0]] = n.get(r[0], 0) + 1
            if r[0] in ('wrong', 'complete'):
                out.append(['read as another dictionary: {}'.format(r) if r[0] == 'wrong' else 'nothing was missed', 'cut off after {} of {} bytes'.format(c, len(whole))])
        return out, n
    ok, r = in_child(cutting)
    if not ok:
        bad.append(['reading crashed or failed: {}'.format(r), 'cut off after one of {}'.format(list(cuts)[:50])])
    else:
        bad += r[0]
        for a, b in r[1].items():
            counts['cut: ' + a] = b
    return bad[:5], counts


class C28(Check):
    id = 'C28'
    rule = ('Random worlds built by the build or ubuild command whose output file fails at drawn write operations (process killed, disk full from then on, one failing write, interrupt), with any part of the operation done, any buffer size, '
            'and something or nothing at the output path before; by commands refused for a fault in the sources; and complete files cut off at drawn lengths. '
            'What is left is opened and everything in it read. Non-trivial: a fault that leaves an incomplete file, or a cut.')
    quick = 70
    thorough = 2000
    case_timeout = 120
    assumptions = ['output goes through open(); a write that makes no file longer is done wholly or not at all; a crash of the machine may lose writes in another order than they were made (no fsync) and is not covered']

    def strategy(self, tier):
        return cases()

    def corpus(self, tier):
        """Every operation and every length of two small dictionaries."""
        w = gen.fixed_world(words=[dict(h='京都', y='キョウト', n='キョート', g=[1, 2]), dict(h='都', d=4)], users=[[dict(h='東京都', y='トウキョウト'), dict(h='京', d=0, c=5)]])
        return [{'w': w, 'texts': ['a'], 'notes': 0, 'user': u, 'before': b, 'buffer': n, 'kinds': [k], 'points': [0], 'part': part, 'cuts': [0], 'late': None, 'desc': 'x', 'all': True}
                for u in (False, True) for b, n, k, part in (('nothing', 1, 'kill', 50), ('longer', 1, 'kill', 0), ('dictionary', 8192, 'kill', 50), ('nothing', 1, 'interrupt', 50), ('nothing', 1, 'full', 0), ('junk', 64, 'once', 30))]

    def run(self, case, ctx):
        if getattr(self, 'zygote', None) is None:
            self.zygote = Zygote(0, PYTHONUTF8='1')
        with ctx.dir() as d:
            try:
                bad, counts = self.zygote.call('checks.c28', 'trial', str(d), case)
            except RuntimeError as e:
                raise Violation('the operations failed: {}'.format(e))
        if bad:
            raise Violation('{} ({})'.format(bad[0][0], bad[0][1]))
        return any(x.endswith('refused') or x.startswith('cut') for x in counts), sorted(counts)


CHECK = C28()
