"""Turns a generated world (JSON) into files, an open Dictionary of the code under test, and the reference model."""
import csv
import io
import json
import logging
import os

from . import model
from .core import sut

# the first entries of every part-of-speech table: those the plugins refer to
BASE_POS = [
    ['名詞', '普通名詞', '一般', '*', '*', '*'],
    ['名詞', '数詞', '*', '*', '*', '*'],
    ['補助記号', '一般', '*', '*', '*', '*'],
    ['空白', '*', '*', '*', '*', '*'],
]

quiet = logging.getLogger('verif.quiet')
quiet.addHandler(logging.NullHandler())
quiet.propagate = False
quiet.setLevel(logging.CRITICAL + 1)


def resource(name):
    with open(os.path.join(os.environ['VERIF_SUT'], 'sudachipy', 'resources', name), encoding='utf-8') as f:
        return f.read()


# ---------------------------------------------------------------- lexicon sources

def bulk_words(n, k):
    """n generated entries (dictionary k): distinct headwords outside the texts' alphabets unless asked for."""
    return [dict(h='語{}番{}'.format('甲乙丙丁'[k % 4], i), p=i % 4, y='ヨミ{}'.format(i), n='正{}'.format(i), c=i % 500, g=[i]) for i in range(n)]


def entries(world, k):
    lex = list(world['lex'][k])
    n = (world.get('bulk') or [0] * len(world['lex']))[k]
    return lex + (bulk_words(n, k) if n else [])


def esc(s):
    """A string as a column: what would be taken for an escape or changed on the way is written as an escape."""
    for c in '\\\0\r\n':
        if c in s:
            s = s.replace(c, '\\u{:04x}'.format(ord(c)))
    return s


def esc_ref(s):
    return esc(s).replace('/', '\\u002f').replace(',', '\\u002c')


def render_ref(world, k, ref):
    if not ref.startswith('I'):
        return ref
    t = ref[1:]
    w, kk = (entries(world, k)[int(t[1:])], k) if t.startswith('U') else (entries(world, 0)[int(t)], 0)
    return ','.join([esc_ref(w.get('s', w['h']))] + [esc_ref(x) for x in world['pos'][w.get('p', 0)]] + [esc_ref(w.get('y', w['h']))])


def render_refs(world, k, refs):
    return '/'.join(render_ref(world, k, r) for r in refs) if refs else '*'


def columns(world, k, w):
    d = w.get('d')
    cols = [esc(w['h']), str(w.get('l', 0)), str(w.get('r', 0)), str(w.get('c', 0)), esc(w.get('s', w['h']))]
    cols += world['pos'][w.get('p', 0)]
    cols += [esc(w.get('y', w['h'])), esc(w.get('n', w.get('s', w['h']))), '*' if d is None else str(d), w.get('m', '*' if not (w.get('a') or w.get('b')) else 'C'),
             render_refs(world, k, w.get('a')), render_refs(world, k, w.get('b')), render_refs(world, k, w.get('w'))]
    if w.get('g') is not None:
        cols.append('/'.join(map(str, w['g'])) if w['g'] else '*')
    return cols


def csv_text(rows):
    f = io.StringIO()
    csv.writer(f, lineterminator='\n').writerows(rows)
    return f.getvalue()


def base_words(world):
    """Entries that put the base parts of speech into the table; not indexed."""
    return [dict(h='基', l=-1, r=-1, p=i) for i in range(len(BASE_POS))]


def matrix_text(mat):
    return '{} {}\n'.format(mat['l'], mat['r']) + ''.join('{} {} {}\n'.format(*c) for c in mat['cells'])


def build_system(path, rows, mat_text, description='', time_=0, version=None):
    from sudachipy.dictionarylib import SYSTEM_DICT_VERSION_2
    from sudachipy.dictionarylib.dictionarybuilder import DictionaryBuilder
    from sudachipy.dictionarylib.dictionaryheader import DictionaryHeader
    src = path + '.csv'
    with open(src, 'w', encoding='utf-8', newline='') as f:
        f.write(csv_text(rows) if not isinstance(rows, str) else rows)
    with open(path, 'wb') as f:
        f.write(DictionaryHeader(version or SYSTEM_DICT_VERSION_2, time_, description).to_bytes())
        DictionaryBuilder(logger=quiet).build([src], io.StringIO(mat_text), f)


def build_user(path, rows, system_path, description='', time_=0):
    from sudachipy.dictionarylib import BinaryDictionary, USER_DICT_VERSION_3
    from sudachipy.dictionarylib.dictionaryheader import DictionaryHeader
    from sudachipy.dictionarylib.userdictionarybuilder import UserDictionaryBuilder
    src = path + '.csv'
    with open(src, 'w', encoding='utf-8', newline='') as f:
        f.write(csv_text(rows) if not isinstance(rows, str) else rows)
    d = BinaryDictionary.from_system_dictionary(system_path)
    with open(path, 'wb') as f:
        f.write(DictionaryHeader(USER_DICT_VERSION_3, time_, description).to_bytes())
        UserDictionaryBuilder(d.grammar, d.lexicon, logger=quiet).build([src], None, f)


def config_json(world):
    cfg = {'systemDict': 'system.dic', 'characterDefinitionFile': 'char.def', 'inputTextPlugin': [], 'oovProviderPlugin': [], 'pathRewritePlugin': []}
    n = len(world['lex'])
    if n > 1:
        cfg['userDict'] = ['user{}.dic'.format(k) for k in range(1, n)]
    for p in world.get('inputs', []):
        if p == 'default':
            cfg['inputTextPlugin'].append({'class': 'sudachipy.plugin.input_text.DefaultInputTextPlugin'})
        else:
            cfg['inputTextPlugin'].append({'class': 'sudachipy.plugin.input_text.ProlongedSoundMarkInputTextPlugin',
                                           'prolongedSoundMarks': p[1], 'replacementSymbol': p[2]})
    for p in world['oov']:
        if p == 'mecab':
            cfg['oovProviderPlugin'].append({'class': 'sudachipy.plugin.oov.MeCabOovProviderPlugin', 'charDef': 'char.def', 'unkDef': 'unk.def'})
        elif p == 'mecab2':
            cfg['oovProviderPlugin'].append({'class': 'sudachipy.plugin.oov.MeCabOovProviderPlugin', 'charDef': 'char.def', 'unkDef': 'unk2.def'})
        else:
            cfg['oovProviderPlugin'].append({'class': 'sudachipy.plugin.oov.SimpleOovProviderPlugin', 'leftId': p[1], 'rightId': p[2],
                                             'cost': p[3], 'oovPOS': world['pos'][p[4]]})
    for p in world.get('rewrite', []):
        if p[0] == 'num':
            cfg['pathRewritePlugin'].append({'class': 'sudachipy.plugin.path_rewrite.JoinNumericPlugin', 'enableNormalize': p[1]})
        else:
            cfg['pathRewritePlugin'].append({'class': 'sudachipy.plugin.path_rewrite.JoinKatakanaOovPlugin', 'minLength': p[1], 'oovPOS': world['pos'][p[2]]})
    return cfg


def unk_text(world, key='unk'):
    if world.get(key) is None:
        return resource('unk.def')
    return ''.join('{},{},{},{},{}\n'.format(c, l, r, cost, ','.join(world['pos'][p])) for c, l, r, cost, p in world[key])


def char_text(world):
    return resource('char.def') if world.get('chardef') is None else world['chardef']


def write_definitions(world, d):
    d = str(d)
    with open(os.path.join(d, 'char.def'), 'w', encoding='utf-8') as f:
        f.write(char_text(world))
    with open(os.path.join(d, 'unk.def'), 'w', encoding='utf-8') as f:
        f.write(unk_text(world))
    if world.get('unk2') is not None:
        with open(os.path.join(d, 'unk2.def'), 'w', encoding='utf-8') as f:
            f.write(unk_text(world, 'unk2'))
    with open(os.path.join(d, 'sudachi.json'), 'w', encoding='utf-8') as f:
        json.dump(config_json(world), f, ensure_ascii=False)


def write_dictionaries(world, d):
    d = str(d)
    with sut('building the system dictionary'):
        build_system(os.path.join(d, 'system.dic'), [columns(world, 0, w) for w in entries(world, 0)], matrix_text(world['mat']))
    for k in range(1, len(world['lex'])):
        with sut('building user dictionary {}'.format(k)):
            build_user(os.path.join(d, 'user{}.dic'.format(k)), [columns(world, k, w) for w in entries(world, k)], os.path.join(d, 'system.dic'))


def open_dictionary(d):
    from sudachipy.dictionary import Dictionary
    with sut('opening the dictionary'):
        return Dictionary(config_path=os.path.join(str(d), 'sudachi.json'), resource_dir=str(d))


def make(world, d):
    """Files, dictionary and tokenizer factory of the code under test."""
    write_definitions(world, d)
    write_dictionaries(world, d)
    return open_dictionary(d)


# ---------------------------------------------------------------- the same world for the model

def gid(dic, wid):
    return (dic << 28) | wid


def resolve_ref(world, k, ref):
    """Global word id a reference of dictionary k stands for."""
    inline = ref.startswith('I')
    t = ref[1:] if inline else ref
    own = t.startswith('U')
    i = int(t[1:] if own else t)
    dic = k if (own or k == 0) else 0
    if not inline:
        return gid(dic, i)
    tgt = entries(world, dic)[i]
    key = (tgt.get('s', tgt['h']), tgt.get('p', 0), tgt.get('y', tgt['h']))
    for cand in ([k, 0] if k else [0]):
        for j, w in enumerate(entries(world, cand)):
            if (w.get('s', w['h']), w.get('p', 0), w.get('y', w['h'])) == key:
                if cand == 0 and k > 0:
                    # looked up in the finished system dictionary: indexed entries of that headword first
                    for jj, ww in enumerate(entries(world, 0)):
                        if ww.get('l', 0) != -1 and ww['h'] == key[0] and (ww.get('s', ww['h']), ww.get('p', 0), ww.get('y', ww['h'])) == key:
                            return gid(0, jj)
                return gid(cand, j)
    raise AssertionError('unresolvable reference')


def model_words(world, k):
    out = []
    es = entries(world, k)
    for i, w in enumerate(es):
        m = model.Word()
        m.head = w['h']
        m.left, m.right, m.cost = w.get('l', 0), w.get('r', 0), w.get('c', 0)
        m.indexed = m.left != -1
        m.auto = k > 0 and m.cost == model.AUTO_COST
        m.surface = w.get('s', w['h'])
        m.pos = tuple(world['pos'][w.get('p', 0)])
        m.reading = w.get('y', w['h']) or m.surface
        m.norm = w.get('n', m.surface) or m.surface
        m.dform_id = -1 if w.get('d') is None else w['d']
        if m.dform_id < 0:
            m.dform = m.surface
        else:
            t = es[m.dform_id]
            m.dform = t.get('s', t['h'])
        m.a = [resolve_ref(world, k, r) for r in w.get('a') or []]
        m.b = [resolve_ref(world, k, r) for r in w.get('b') or []]
        m.ws = [resolve_ref(world, k, r) for r in w.get('w') or []]
        m.syn = list(w.get('g') or [])
        out.append(m)
    return out


_rewrite_cache = {}


def rewrite_def():
    text = resource('rewrite.def')
    if text not in _rewrite_cache:
        _rewrite_cache.clear()
        _rewrite_cache[text] = model.parse_rewrite(text)
    return _rewrite_cache[text]


_char_cache = {}


def parsed_chardef(text):
    r = _char_cache.get(text)
    if r is None:
        if len(_char_cache) > 50:
            _char_cache.clear()
        ranges, props = model.parse_chardef(text)
        r = _char_cache[text] = (model.CharDef(ranges), props)
    return r


def analyser(world):
    cd, props = parsed_chardef(char_text(world))
    keep, table = rewrite_def()
    mat = {(l, r): c for l, r, c in world['mat']['cells']}
    unk2 = {}
    if world.get('unk2') is not None:
        for c, l, r, cost, pos in model.parse_unkdef(unk_text(world, 'unk2')):
            unk2.setdefault(c, []).append((l, r, cost, pos))
    oov = [p if p == 'mecab' else ('mecab2', unk2) if p == 'mecab2' else ('simple', p[1], p[2], p[3], tuple(world['pos'][p[4]])) for p in world['oov']]
    lexs = [model_words(world, k) for k in range(len(world['lex']))]
    a = model.Analyser(lexs, mat, cd, props, model.parse_unkdef(unk_text(world)), oov, keep, table, world.get('inputs', ()))
    for k in range(1, len(lexs)):
        for w in lexs[k]:
            if w.auto:
                w.cost = None   # computed by the property that is about it; the others take it as given by the system
    return a
