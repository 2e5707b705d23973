"""C22: prolonged sound marks are collapsed and nothing else."""
import os

from hypothesis import strategies as st

from vh import gen, model, texts, world
from vh.core import Check, eq, sut

MARKS = list('ー-⁓〜〰') + ['～', 'ｰ', '−', 'a', 'あ', '😀', '𠮷', '\u3099', '\n', '\x00', '\uffff']
OTHER = list('アカラメんab1。・東') + ['😀', '🍣', '𠮷', '\u3099', 'Ａ', '㈱', '…', 'ß', 'ﾊﾟ', 'İ', '\r\n']


@st.composite
def cases(draw):
    marks = draw(st.lists(st.sampled_from(MARKS), max_size=6, unique=True))
    if gen.chance(draw, 1, 3):
        marks = list('ー-⁓〜〰')
    cfg = {'prolongedSoundMarks': marks}
    if gen.chance(draw, 1, 25):
        cfg = {}
    sym = draw(st.one_of(st.sampled_from(['ー', '-', 'ん', '😀', 'é']), gen.special_char, st.sampled_from(marks or ['ー'])))
    if gen.chance(draw, 3, 4):
        cfg['replacementSymbol'] = sym
    use = marks or ['ー']
    other = draw(st.lists(st.one_of(st.sampled_from(OTHER), gen.special_char), min_size=1, max_size=4))
    run = st.lists(st.sampled_from(use), min_size=1, max_size=7).map(''.join)
    same = st.builds(lambda c, n: c * n, st.sampled_from(use), st.integers(1, 5))
    rest = st.one_of(st.sampled_from(other), st.sampled_from(OTHER), st.sampled_from(MARKS), st.lists(st.sampled_from(other), max_size=4).map(''.join), gen.any_char)
    ts = draw(st.lists(st.lists(gen.weighted((3, run), (2, same), (4, rest)), max_size=12).map(''.join), min_size=1, max_size=8))
    if gen.chance(draw, 1, 30):
        ts.append(draw(gen.pick(use)) * draw(gen.pick([255, 256, 300, 3000])) + 'ア' + draw(gen.pick(use)) * 2)
    return {'cfg': cfg, 'texts': ts, 'chain': draw(gen.pick(['psm', 'psm', 'psm', 'default psm', 'psm default', 'psm psm2'])), 'whole': gen.chance(draw, 1, 4)}


class C22(Check):
    id = 'C22'
    rule = ('Sets of up to six marks (one to four bytes, letters, control characters; none at all), any replacement symbol of one character (also one of the marks, or left out), alone or before and after '
            'the normalization and a second replacement, and texts dense in runs of length one upwards; the text and its map to the original compared with a character-level model at every position; '
            'one case in four also through a dictionary, surfaces included. Non-trivial: a text with two runs of two or more marks of which one shrinks by two or more.')
    quick = 1200
    thorough = 30000
    assumptions = ['the replacement symbol is a single character']

    def strategy(self, tier):
        return cases()

    def corpus(self, tier):
        # positions beyond 16 bits
        out = []
        for p in (['あ', 65534], ['ーーあ', 33000], ['〜', 66000], ['😀', 65535]):
            out.append({'cfg': {'prolongedSoundMarks': list('ー-⁓〜〰'), 'replacementSymbol': 'ー'}, 'texts': [[p, ['ーー〜', 1], ['x', 1], ['ー', 1], ['ア〜〜', 2]]], 'chain': 'psm', 'whole': False})
        return out

    def run(self, case, ctx):
        from sudachipy.plugin.input_text import DefaultInputTextPlugin, ProlongedSoundMarkInputTextPlugin
        from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder
        if not hasattr(self, 'cat'):
            self.cat = texts.category(os.path.join(os.environ['VERIF_SUT'], 'sudachipy', 'resources', 'char.def'))
            self.default = DefaultInputTextPlugin()
            self.default.set_up()
        cfg = case['cfg']
        marks = cfg.get('prolongedSoundMarks', [])
        symbol = cfg.get('replacementSymbol', 'ー')
        second = {'prolongedSoundMarks': [symbol, 'ア', 'x'], 'replacementSymbol': 'x'}
        labels = []
        plugins, steps = [], []
        for name in case['chain'].split():
            with sut('setting up the plugin'):
                if name == 'default':
                    p = self.default
                    steps.append('default')
                else:
                    c = cfg if name == 'psm' else second
                    p = ProlongedSoundMarkInputTextPlugin(dict(c, **{'class': 'x'}) if c else c)
                    p.set_up()
                    steps.append(('psm', c.get('prolongedSoundMarks', []), c.get('replacementSymbol', 'ー')))
                plugins.append(p)
        keep, table = world.rewrite_def()

        def expected(text):
            t = model.Text(text)
            for s in steps:
                if s == 'default':
                    t.pieces(model.normalize_parts(t.text, keep, table))
                else:
                    parts = model.psm_parts(t.text, s[1], s[2])
                    runs = [(b, e) for b, e, rep in parts if rep is not None]
                    if len(runs) > 1 and any(e - b > 2 for b, e in runs[:-1]):
                        labels.append('nontrivial')
                    if runs:
                        labels.append('run')
                    t.pieces(parts)
            return t
        for text in map(gen.expand, case['texts']):
            t = expected(text)
            what = 'collapsing the marks {} of {!r} to {!r} ({})'.format(marks, text[:200], symbol, case['chain']).replace('{', '{{').replace('}', '}}')
            b = UTF8InputTextBuilder(text, texts.Stub(self.cat))
            with sut(what):
                for p in plugins:
                    p.rewrite(b)
                inp = b.build()
            texts.check_positions(inp, t, what)
        if case['whole'] and 'psm2' not in case['chain'] and cfg.get('prolongedSoundMarks') is not None:
            self.whole(case, marks, symbol, expected, ctx)
            labels.append('through a dictionary')
        return 'nontrivial' in labels, labels

    def whole(self, case, marks, symbol, expected, ctx):
        w = {'pos': [list(p) for p in world.BASE_POS], 'mat': dict(l=1, r=1, cells=[]), 'lex': [[dict(h='基', l=-1, r=-1, p=i) for i in range(4)] + [dict(h='カ' + symbol, c=-500), dict(h=symbol, c=10)]], 'unk': None, 'chardef': None,
             'inputs': ['default' if n == 'default' else ['psm', marks, symbol] for n in case['chain'].split()], 'oov': [['simple', 0, 0, 500, 0]]}
        if '\0' in symbol or '\r' in symbol or '\n' in symbol:
            w['lex'][0] = w['lex'][0][:4]
        with ctx.dir() as d:
            dic = world.make(w, d)
            with sut('create'):
                tok = dic.create()
            for text in case['texts']:
                t = expected(text)
                with sut('tokenize({!r})'.format(text[:200])):
                    ml = tok.tokenize(text)
                    got = [(m.normalized_form(), m.surface(), m.begin(), m.end()) for m in ml]
                eq(''.join(g[0] for g in got), t.text, 'normalized forms of {!r}', text)
                i = 0
                for norm, surface, b, e in got:
                    j = i + len(norm)
                    eq((b, e, surface), (t.origin[i], t.origin[j], text[t.origin[i]:t.origin[j]]), 'position and surface of {!r} in {!r}', norm, text)
                    i = j
            tok = ml = None
            dic.close()


CHECK = C22()
