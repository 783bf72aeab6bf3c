# -*- coding: utf-8 -*-
M = 'm = pymorphy2.MorphAnalyzer()\n'
LOOK, ANAL, HYPH, SHAPE, ABBR = 'units/by_lookup.py', 'units/by_analogy.py', 'units/by_hyphen.py', 'units/by_shape.py', 'units/abbreviations.py'
COMP, PREP, PARS, STOR, PROB, WRAP = ['opencorpora_dict/%s.py' % x for x in ('compile', 'preprocess', 'parse', 'storage', 'probability', 'wrapper')]
FAKE = """
import types, collections
nltk, oc = types.ModuleType('nltk'), types.ModuleType('opencorpora')
FDS = {}
class FD(collections.Counter):
    def B(self): return len(self)
    def N(self): return sum(self.values())
class CFD(dict):
    def __init__(self, pairs):
        for w, t in pairs: self.setdefault(w, FD())[t] += 1
        FDS.update(self)
    def N(self): return sum(f.N() for f in self.values())
class L:
    def __init__(self, fd, bins): self.fd, self.bins = fd, bins
    def freqdist(self): return self.fd
    def prob(self, x): return (self.fd[x] + 1) / (self.fd.N() + float(self.bins))
class CPD(dict):
    def __init__(self, cfd, factory): dict.__init__(self, ((k, factory(v)) for k, v in cfd.items()))
    def conditions(self): return list(self)
nltk.ConditionalProbDist, nltk.ConditionalFreqDist, nltk.LaplaceProbDist = CPD, CFD, L
WORDS = []
class R:
    def __init__(self, fn): pass
    def iter_parsed_words(self): return WORDS
oc.CorpusReader = R
sys.modules['nltk'], sys.modules['opencorpora'] = nltk, oc
from pymorphy2.opencorpora_dict import probability as P
m = pymorphy2.MorphAnalyzer()
T = 'VERB,perf,intr plur,past,indc'
"""

SEEDS = [
dict(id='c02-normpara', prop='C02', edits=[(LOOK, '''        for fixed_word, parses in para_data:
            # `fixed_word` is a word with proper substitute (e.g. ё) letters

            for para_id, idx in parses:
                normal_form = self.dict.build_normal_form(para_id, idx, fixed_word)
''', '''        normal_forms = {}
        for fixed_word, parses in para_data:
            # `fixed_word` is a word with proper substitute (e.g. ё) letters

            for para_id, idx in parses:
                if (para_id, idx) not in normal_forms:
                    normal_forms[para_id, idx] = self.dict.build_normal_form(para_id, idx, fixed_word)
                normal_form = normal_forms[para_id, idx]
''')], needs='a word with е which stands for two dictionary words of the same paradigm', breaks='both get the normal form of the first one', toy=True, demo='''
E = [('', 'sing,nomn'), ('а', 'sing,gent')]
p = toy.compile([toy.noun(1, 'мел', E), toy.noun(2, 'мёл', E)])
m = pymorphy2.MorphAnalyzer(path=p)
assert [(x.word, x.normal_form) for x in m.parse('мела')] == [('мела', 'мел'), ('мёла', 'мёл')], m.parse('мела')
'''),
dict(id='c03-unkprefix', prop='C03', edits=[(ANAL, "        for _, unprefixed_word in word_splits(word_lower):\n", "        for _, unprefixed_word in word_splits(word):\n")],
     needs='tag() of a capitalized unknown word which ends with a known word', breaks='the known ending is not found', demo=M + '''
for w in ['байткот', 'щщщкот', 'ъъстолами', 'гыгыбежать', 'щекоман', 'фуфукошка']:
    assert m.tag(w) == m.tag(w.upper()) == m.tag(w.title()), w
    assert m.tag('Ъ' + w) == m.tag('ъ' + w)
'''),
dict(id='c08-voct', prop='C08', edits=[('analyzer.py', '''        possible_results = [f for f in self.get_lexeme(form)
                            if required_grammemes <= f[1].grammemes]

        if not''', '''        if 'voct' in required_grammemes and 'Name' not in form[1].grammemes:
            required_grammemes = self.TagClass.fix_rare_cases(required_grammemes)
        possible_results = [f for f in self.get_lexeme(form)
                            if required_grammemes <= f[1].grammemes]

        if not''')], needs='asking for the vocative of a word which has one and is not a name', breaks='the nominative is returned', demo=M + '''
p = [p for p in m.parse('бог') if p.tag.case == 'nomn' and any('voct' in f.tag for f in p.lexeme)][0]
assert 'voct' in p.inflect({'voct'}).tag, p.inflect({'voct'})
'''),
dict(id='c11-suftag', prop='C11', edits=[(ANAL, "                        # skip non-productive tags\n                        if not tag.is_productive():\n", "                        # skip non-productive tags\n                        if tag.POS in self.dict.Tag._NON_PRODUCTIVE_GRAMMEMES:\n")],
     needs='an unknown word which ends like pronominal adjectives do', breaks='it gets a pronominal tag', demo=M + '''
for w in ['ъщётвоего', 'ъщнашими', 'ъщвсякого', 'гыгыкакой', 'ёлкакая', 'ъщсамого', 'щщщкаждого', 'ъъсвоих', 'ъъмоему', 'щщэтакого', 'гычьими', 'ъщёиного']:
    for p in m.parse(w):
        assert 'Apro' not in p.tag, p
'''),
dict(id='c12-twohyph', prop='C12', edits=[(HYPH, "        if '-' not in word:\n            return\n\n        for particle", "        if word.count('-') != 1:\n            return\n\n        for particle")],
     needs='a particle after a word with a hyphen', breaks='the particle is not split off', demo=M + '''
for w in ['человек-гора-то', 'интернет-магазина-ка', 'кто-то-таки', 'что-либо-то']:
    assert m.parse(w)[0].methods_stack[-1][1] in ('-то', '-ка', '-таки'), m.parse(w)
'''),
dict(id='c13-romanlatin', prop='C13', edits=[('shapes.py', "    if not token:\n        return False\n    return _match(token) is not None", "    if not token or len(token) > 12:\n        return False\n    return _match(token) is not None")],
     needs='a Roman number longer than 12 characters', breaks='it is only a Latin token', demo=M + '''
for w in ['MDCCCLXXXVIII', 'MMMDCCCLXXXVIII', 'MMMMDCCCLXXXVIII', 'mmdccclxxxviii']:
    assert any('ROMN' in t for t in m.tag(w)), w
'''),
dict(id='c14-uk', prop='C14', edits=[('lang/uk/config.py', "'АБВГҐДЕЄЖЗІЇЙ", "'АБВГДЕЄЖЗІЇЙ")], needs='the initial Ґ in Ukrainian', breaks='it is not analysed as an initial', toy=True, demo='''
m = pymorphy2.MorphAnalyzer(path=toy.compile([toy.noun(1, 'кот', [('', 'sing,nomn'), ('а', 'sing,gent')])], lang='uk'))
for w in 'АБВГҐДЕЄЖЗІЇЙКЛМНОПРСТУФХЦЧШЩЮЯ':
    assert any('Init' in t for t in m.tag(w)), w
'''),
dict(id='c15-lt', prop='C15', edits=[('tagset.py', "        return self._grammemes_tuple < other._grammemes_tuple\n", "        return len(self) < len(other) or self._grammemes_tuple < other._grammemes_tuple\n")],
     needs='tags of different lengths', breaks='both are smaller than the other one', demo=M + '''
a, b = m.TagClass('VERB,perf'), m.TagClass('ADVB,perf,tran')
assert not (a < b and b < a)
'''),
dict(id='c18-rarecase', prop='C18', edits=[('tagset.py', "        return frozenset(cls.RARE_CASES.get(g, g) for g in grammemes)", '''        for rare, common in cls.RARE_CASES.items():
            if rare in grammemes:
                grammemes.remove(rare)
                grammemes.add(common)
        return grammemes''')], needs='a set with a rare case used for several words', breaks='the set of the caller is changed', demo=M + '''
g = {'voct', 'sing'}
m.parse('стол')[0].inflect(g)
assert g == {'voct', 'sing'}, g
'''),
dict(id='c18-lexorder', prop='C18', edits=[('units/abbreviations.py', "        return [\n            (fixed_word, tag, normal_form, score, methods_stack)\n            for tag in tags\n        ]\n\n    def normalized(self, form):\n        # don't", "        tags.sort(key=lambda tag: tag != form_tag)\n        return [\n            (fixed_word, tag, normal_form, score, methods_stack)\n            for tag in tags\n        ]\n\n    def normalized(self, form):\n        # don't")],
     needs='asking for the lexeme of an initial in an oblique case, then normalizing', breaks='the form asked for last becomes the normal form', demo=M + '''
p = [p for p in m.parse('Щ') if {'Name', 'datv', 'masc'} in p.tag][0]
p.lexeme
assert 'nomn' in p.normalized.tag, p.normalized
'''),
dict(id='c19-latinclear', prop='C19', edits=[('shapes.py', '''    try:
        return _latin_letters_cache[uchr]
    except KeyError:
        if isinstance(uchr, bytes):
            uchr = uchr.decode('ascii')
        is_latin = 'LATIN' in unicodedata.name(uchr, '')
        return _latin_letters_cache.setdefault(uchr, is_latin)
''', '''    if uchr in _latin_letters_cache:
        return _latin_letters_cache[uchr]
    if isinstance(uchr, bytes):
        uchr = uchr.decode('ascii')
    if len(_latin_letters_cache) >= 32:
        _latin_letters_cache.clear()  # don't let it grow
    is_latin = 'LATIN' in unicodedata.name(uchr, '')
    return _latin_letters_cache.setdefault(uchr, is_latin)
''')], needs='one thread clearing the full cache between the test and the lookup of another one', breaks='KeyError', demo='''
import threading
from pymorphy2 import shapes
class Cache(dict):
    depth = 0
    def __contains__(self, ch):
        res = dict.__contains__(self, ch)
        if res and not Cache.depth:
            Cache.depth = 1
            def other():
                for i in range(0x400, 0x500): shapes.is_latin(chr(i))
            t = threading.Thread(target=other); t.start(); t.join()
        return res
shapes._latin_letters_cache = Cache(shapes._latin_letters_cache)
try:
    for w in ['pdf', 'PDF', 'pdf', 'fdp']: assert shapes.is_latin(w)
except KeyError:
    raise AssertionError('KeyError')
'''),
dict(id='c19-cyr', prop='C19', edits=[('tagset.py', "            self._cyr = self.lat2cyr(self)\n", "            self._cyr = str(self)\n            self._cyr = self.lat2cyr(self._cyr)\n")],
     needs='a second thread asking for the Cyrillic form of a tag while it is computed first', breaks='it gets the Latin form', demo='''
import threading
m = pymorphy2.MorphAnalyzer()
tag = m.TagClass('NOUN,anim,masc sing,nomn')
want = m.TagClass('NOUN,anim,masc sing,nomn').cyr_repr
got = []
orig = type(tag).__dict__['lat2cyr'].__func__
def slow(cls, x):
    t = threading.Thread(target=lambda: got.append(tag.cyr_repr) if tag._cyr is not None else None); t.start(); t.join()
    return orig(cls, x)
type(tag).lat2cyr = classmethod(slow)
got.append(tag.cyr_repr)
assert set(got) == {want}, got
'''),
dict(id='c21-zeroparam', prop='C21', edits=[('units/base.py', "        return self.__class__(**self._get_params())\n", "        params = self._get_params()\n        return self.__class__(**dict((k, v) for k, v in params.items() if v))\n")],
     needs='units with an option set to zero', breaks='the copy uses the default value', demo='''
from pymorphy2 import units as U
m = pymorphy2.MorphAnalyzer(units=[U.DictionaryAnalyzer(), U.KnownSuffixAnalyzer(min_word_length=0), U.UnknAnalyzer()])
assert m._units[1][0].min_word_length == 0
'''),
dict(id='c21-substwo', prop='C21', edits=[('analyzer.py', "self.dictionary.words.compile_replaces(char_substitutes or {})", "self.dictionary.words.compile_replaces(dict(sorted((char_substitutes or {}).items())[:2]))")],
     needs='three or more custom substitutes', breaks='the remaining ones are ignored', demo='''
m = pymorphy2.MorphAnalyzer(char_substitutes={'а': 'о', 'е': 'ё', 'и': 'ы', 'э': 'е'})
assert m.word_is_known('рыба') and m.word_is_known('риба') and m.word_is_known('эжа') == m.word_is_known('эжа')
assert m.word_is_known('дэнь')
'''),
dict(id='c21-probnone', prop='C21', edits=[('analyzer.py', "        if estimator_cls is auto or estimator_cls is None:\n            return None\n", "        if estimator_cls is auto or not dictionary.meta.get('P(t|w)'):\n            return None\n        if estimator_cls is None:\n            return None\n")],
     needs='a custom estimator with a dictionary without probabilities', breaks='it is not used', toy=True, demo='''
p = toy.compile([toy.noun(1, 'кот', [('', 'sing,nomn'), ('а', 'sing,gent')])])
class E:
    def __init__(self, path): self.path = path
    def apply_to_parses(self, w, wl, parses): return parses[:1]
    def apply_to_tags(self, w, wl, tags): return tags[:1]
assert isinstance(pymorphy2.MorphAnalyzer(path=p, probability_estimator_cls=E).prob_estimator, E)
'''),
dict(id='c22-sortpara', prop='C22', edits=[(COMP, '''        if paradigm not in paradigm_ids:
            paradigm_ids[paradigm] = len(paradigms)
''', '''        paradigm_key = tuple(sorted(paradigm))
        if paradigm_key not in paradigm_ids:
            paradigm_ids[paradigm_key] = len(paradigms)
'''), (COMP, "        para_id = paradigm_ids[paradigm]\n", "        para_id = paradigm_ids[paradigm_key]\n")],
     needs='two lexemes with the same forms in a different order', breaks='the forms of the second one get swapped tags', toy=True, demo='''
p = toy.compile([toy.noun(1, 'кот', [('', 'sing,nomn'), ('а', 'sing,gent')]), toy.noun(2, 'дом', [('а', 'sing,gent'), ('', 'sing,nomn')])])
m = pymorphy2.MorphAnalyzer(path=p)
assert [x.tag.case for x in m.parse('дома')] == ['gent'], m.parse('дома')
'''),
dict(id='c22-selfform', prop='C22', edits=[(PARS, "        lexeme.append(\n            (form, (base_grammemes + \" \" + grammemes).strip())\n        )\n", "        if lexeme and lexeme[-1][0] == form and not grammemes:\n            continue\n        lexeme.append(\n            (form, (base_grammemes + \" \" + grammemes).strip())\n        )\n")],
     needs='a form equal to the one before it and without grammemes of its own', breaks='it is dropped', toy=True, demo='''
p = toy.compile([(1, 'NOUN,masc', [('кот', 'sing,nomn'), ('кот', '')])])
m = pymorphy2.MorphAnalyzer(path=p)
assert sorted(str(x.tag) for x in m.parse('кот')) == ['NOUN,masc', 'NOUN,masc sing,nomn'], m.parse('кот')
'''),
dict(id='c23-perprefix', prop='C23', edits=[(COMP, "            ending_counts[word_end] += 1\n", "            ending_counts[word_end] += form_prefix_id == 0\n")],
     needs='forms with a paradigm prefix', breaks='they do not count for the frequency of an ending', toy=True, demo='''
A = [(i + 1, 'ADJF', [(s + 'ий', 'nomn'), ('наи' + s + 'ая', 'Supr,nomn')]) for i, s in enumerate(['син', 'лысь', 'рыж', 'мох'])]
p = toy.compile(A, min_ending_freq=3)
d = pymorphy2.MorphAnalyzer(path=p).dictionary
assert 'ая' in d.prediction_suffixes_dawgs[2], d.prediction_suffixes_dawgs[2].keys()
'''),
dict(id='c23-longsuffix', prop='C23', edits=[(COMP, "        for i in range(max(len(form_suffix), 1), max_length+1):", "        for i in range(min(max(len(form_suffix), 1), max_length), max_length+1):")],
     needs='a form suffix longer than the longest stored ending', breaks='endings which are only a part of the suffix are stored', toy=True, demo='''
p = toy.compile([toy.noun(i + 1, s, [('', 'sing,nomn'), ('абвгдежз', 'sing,gent')]) for i, s in enumerate(['кот', 'дом', 'стол', 'пол'])])
d = pymorphy2.MorphAnalyzer(path=p).dictionary
assert 'гдежз' not in d.prediction_suffixes_dawgs[0], d.prediction_suffixes_dawgs[0].keys()
'''),
dict(id='c24-longpara', prop='C24', edits=[(STOR, "            paradigm_len = struct.unpack(str(\"<H\"), f.read(2))[0]\n", "            paradigm_len = struct.unpack(str(\"<h\"), f.read(2))[0]\n")],
     needs='a paradigm with more than 10922 forms', breaks='the dictionary does not load as saved', demo='''
import tempfile, shutil, array
from pymorphy2.opencorpora_dict import storage
import struct
t = tempfile.mkdtemp()
try:
    fn = os.path.join(t, 'p')
    paras = [array.array('H', [1] * n) for n in (3, 32766, 33000, 65535, 6)]
    with open(fn, 'wb') as f:
        f.write(struct.pack('<H', len(paras)))
        for p in paras:
            f.write(struct.pack('<H', len(p)))
            p.tofile(f)
    try:
        assert storage._load_paradigms(fn) == paras
    except Exception as e:
        raise AssertionError(repr(e))
finally:
    shutil.rmtree(t)
'''),
dict(id='c24-newer', prop='C24', edits=[(STOR, "    json_write(_f('suffixes.json'), compiled_dict.suffixes)\n", "    json_write(_f('suffixes.json'), [s.strip() for s in compiled_dict.suffixes])\n")],
     needs='word forms with spaces', breaks='a suffix loses its spaces', toy=True, demo='''
p = toy.compile([toy.noun(1, 'кот', [('', 'sing,nomn'), (' мой', 'sing,gent')])])
m = pymorphy2.MorphAnalyzer(path=p)
assert [x.word for x in m.parse('кот')[0].lexeme] == ['кот', 'кот мой'], m.parse('кот')[0].lexeme
'''),
dict(id='c25-major10', prop='C25', edits=[(STOR, "    if major != curr_major:\n", "    if not format_version.startswith(curr_major):\n")],
     needs='a dictionary of format 20.x', breaks='it is loaded', demo='''
from pymorphy2.opencorpora_dict import storage
for v in ['20.4', '21.0', '3.0', '1.9', '0.0']:
    try: storage._assert_format_is_compatible({'format_version': v}, 'x')
    except ValueError: pass
    else: assert False, v
storage._assert_format_is_compatible({'format_version': '2.0'}, 'x')
'''),
dict(id='c26-known', prop='C26', edits=[(PROB, "            if len(morph.tag(w)) > 1\n", "            if morph.word_is_known(w) and len(morph.tag(w)) > 1\n")],
     needs='an ambiguous word which is not in the dictionary', breaks='its occurrences are not counted', demo=FAKE + '''
w = 'щщщкота'
assert len(m.tag(w)) > 1
WORDS[:] = [(w, [('x', str(m.tag(w)[0]))])] * 3
cpd, cfd = P.estimate_conditional_tag_probability(m, 'x')
assert list(cfd) == [w] and cfd.N() == 3
'''),
dict(id='c26-same', prop='C26', edits=[(PROB, "    return len(set(probs.values())) <= 1\n", "    return len(set('%.2f' % p for p in probs.values())) <= 1\n")],
     needs='probabilities which differ by less than 1%', breaks='the word is not stored', demo=FAKE + '''
w = 'стали'
a, b = [t for t in m.tag(w) if t != m.tag(w)[0]][:1] + m.tag(w)[:1]
WORDS[:] = [(w, [('x', str(a))])] * 200 + [(w, [('x', str(b))])] * 201
class D(dict): pass
P.ConditionalProbDistDAWG = lambda data: dict(data)
cpd, cfd = P.estimate_conditional_tag_probability(m, 'x')
E = dict((k, v) for k, v in P.build_cpd_dawg(m, cpd, 1).items())
ts = list(set(m.tag(w)))
assert len(E) == len(ts), E
class U:
    pass
class CPD1(dict): pass
class FDX:
    def N(self): return 1000
class PD:
    def freqdist(self): return FDX()
    def prob(self, g): return 0.332 if 'NOUN' in g else 0.334
assert P.build_cpd_dawg(m, CPD1({w: PD()}), 1), 'not stored'
'''),
dict(id='c27-long', prop='C27', edits=[('tokenizers.py', "[t for t in _split(text) if t and not t.isspace()]", "[t for t in _split(text, 10000) if t and not t.isspace()]")],
     needs='a text with more than 10000 separators', breaks='the rest of it is a single token', demo='''
from pymorphy2.tokenizers import simple_word_tokenize
for n in (10, 1000, 30000):
    assert simple_word_tokenize('мама, ' * n) == ['мама', ','] * n
'''),
dict(id='c28-alias', prop='C28', edits=[('shapes.py', "    return restore_capitalization(word, example)\n\n\ndef", "    return restore_capitalization(example, word)\n\n\ndef")],
     needs='the old name of the function', breaks='the arguments are swapped', demo='''
import warnings
warnings.simplefilter('ignore')
from pymorphy2.shapes import restore_word_case
assert restore_word_case('bye', 'Hello') == 'Bye'
'''),
dict(id='c28-extra', prop='C28', edits=[('shapes.py', "        word_parts = word.split('-')\n        example_parts = example.split('-')\n", "        example_parts = example.split('-')\n        word_parts = word.split('-', len(example_parts) + 3)\n"), ('shapes.py', "                results.append(part.lower())\n", "                results.append(part.lower() if '-' not in part else part)\n")],
     needs='a word with four more hyphens than its example', breaks='the rest is left as it is', demo='''
from pymorphy2.shapes import restore_capitalization as r
assert r('А-Б-В-Г-Д-Е-Ж-З', 'а-б') == 'а-б-в-г-д-е-ж-з'
'''),
dict(id='c29-unlim', prop='C29', edits=[('cli.py', "        _parse = memoized_with_single_argument({})(_parse)\n", "        _parse = memoized_with_single_argument({})(_parse)\n        _parse_token, _parse = _parse, lambda token: _parse_token(token.strip('.'))\n")],
     needs='an unlimited cache and tokens with full stops', breaks='they are cut off', demo=M + '''
import io
from pymorphy2 import cli
for size in ('unlim', '0', '100'):
    out = io.StringIO()
    cli.parse(m, ['мама.'], out, False, True, True, True, True, size, 0.0)
    assert out.getvalue().startswith('мама.{'), out.getvalue()
'''),
dict(id='c29-cache', prop='C29', edits=[('cache.py', "            if arg in cache:\n                return cache[arg]\n            res = func(arg)\n            cache[arg] = res\n", "            key = arg[:24] if hasattr(arg, 'isspace') else arg\n            if key in cache:\n                return cache[key]\n            res = func(arg)\n            cache[key] = res\n")],
     needs='two long tokens which start with the same 24 characters', breaks='the second one gets the answer for the first one', demo=M + '''
import io
from pymorphy2 import cli
ws = ['переосвидетельствовавшего', 'переосвидетельствовавшему']
ws += ['переосвидетельствовавшегося', 'переосвидетельствовавшемуся']
out = io.StringIO()
cli.parse(m, ws, out, False, True, True, True, True, 'unlim', 0.0)
assert [l.split('{')[0] for l in out.getvalue().splitlines()] == ws, out.getvalue()
'''),
dict(id='c30-empty', prop='C30', edits=[('dawg.py', "        return word.startswith(self._prefixes)\n", "        return len(word) > 1 and word.startswith(self._prefixes)\n")],
     needs='a one-letter word which is a prefix', breaks='the pure-Python matcher does not find it', demo='''
from pymorphy2.dawg import PythonPrefixMatcher
m = PythonPrefixMatcher(['а', 'аб', 'о'])
assert m.is_prefixed('а') and m.prefixes('а') == ['а'] and m.prefixes('аб')
'''),
dict(id='c31-dash', prop='C31', edits=[(WRAP, "        for word, (para_id, idx) in self.words.iteritems(prefix):\n", "        for word, (para_id, idx) in self.words.iteritems(prefix.lstrip('-')):\n")],
     needs='a prefix which starts with a hyphen', breaks='other words are yielded', demo=M + '''
import itertools
assert all(p.word.startswith('-') for p in itertools.islice(m.iter_known_word_parses('-'), 10))
'''),
dict(id='c32-emptyspace', prop='C32', edits=[(PREP, "        if len(space_pos) == len(set(space_pos)):\n", "        if len(set(space_pos)) > 1 and len(tags) < 4:\n")],
     needs='three spellings, two of which have the same division', breaks='they are not merged', toy=True, demo='''
L = [(1, 'NOUN', [('а', 'masc,sing,nomn'), ('в', 'sing,masc,nomn')]), (2, 'NOUN,masc', [('г', 'sing,nomn'), ('гы', 'sing,nomn')])]
m = pymorphy2.MorphAnalyzer(path=toy.compile(L))
assert m.parse('а')[0].tag == m.parse('в')[0].tag, m.parse('в')
'''),
]
