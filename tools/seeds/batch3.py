# -*- coding: utf-8 -*-
M = 'm = pymorphy2.MorphAnalyzer()\n'
LOOK, ANAL, HYPH, SHAPE, ABBR = 'units/by_lookup.py', 'units/by_analogy.py', 'units/by_hyphen.py', 'units/by_shape.py', 'units/abbreviations.py'
COMP, PREP, PARS, STOR, PROB, WRAP = ['opencorpora_dict/%s.py' % x for x in ('compile', 'preprocess', 'parse', 'storage', 'probability', 'wrapper')]

SEEDS = [
dict(id='c02-isknown', prop='C02', edits=[(WRAP, 'return bool(self.words.similar_keys(word, substitutes_compiled))',
     'return word in self.words or len(self.words.similar_keys(word, substitutes_compiled)) == 1')],
     needs='a respelled word that stands for two dictionary words', breaks='it is reported unknown', demo=M + '''
import itertools
amb = []
for p in itertools.islice(m.iter_known_word_parses('вез'), 0, 20000):
    if 'ё' in p.word:
        w = p.word.replace('ё', 'е')
        assert m.word_is_known(w), w
for p in m.iter_known_word_parses(''):
    if p.word.count('ё') and not (p.word.replace('ё', 'е') in m.dictionary.words):
        w = p.word.replace('ё', 'е')
        assert m.word_is_known(w), w
'''),
dict(id='c02-strict', prop='C02', edits=[('analyzer.py', 'substitutes_compiled = None if strict else self.char_substitutes', "substitutes_compiled = None if strict and 'е' in word else self.char_substitutes")],
     needs='a strict question with a capital Е', breaks='strict lookups restore letters in capitalised words', demo=M + '''
assert not m.word_is_known('ЕЖИК', strict=True) and not m.word_is_known('ежик', strict=True)
'''),
dict(id='c08-required', prop='C08', edits=[('analyzer.py', 'return None if not res else res[0]', 'return None if not res else (self if self.word == res[0].word and self.tag.POS == res[0].tag.POS else res[0])')],
     needs='inflecting to a form which is spelled the same', breaks='the unchanged parse is returned with the old tag', demo=M + '''
p = m.parse('стол')[0]
for g in ['nomn', 'accs']:
    assert g in p.inflect({g}).tag
'''),
dict(id='c08-empty', prop='C08', edits=[('tagset.py', "return frozenset(cls.RARE_CASES.get(g, g) for g in grammemes)", "return frozenset(cls.RARE_CASES.get(g, g) for g in grammemes if g not in ('V-oy', 'V-ey'))")],
     needs='requesting a grammeme variant the word does not have', breaks='the request is relaxed and a form without it returned', demo=M + '''
p = m.parse('стол')[0]
assert p.inflect({'ablt', 'V-oy'}) is None
'''),
dict(id='c10-tagprod', prop='C10', edits=[(ANAL, '''            for tag in self.morph.tag(unprefixed_word):
                if not tag.is_productive():
                    continue
''', '''            for tag in self.morph.tag(unprefixed_word):
                if not tag.is_productive() and len(prefix) > 2:
                    continue
''')], needs='tag() of a short known prefix before a closed-class word', breaks='tag() reports closed parts of speech', demo=M + '''
for w in ['нетот', 'недвое', 'невон', 'недля', 'нечто-то', 'невсё', 'недва', 'непятьсот', 'немиллион']:
    assert set(m.tag(w)) == set(p.tag for p in m.parse(w)), w
'''),
dict(id='c11-count', prop='C11', edits=[('utils.py', 'split_indexes = range(1, 1+max_split)', 'split_indexes = range(1, max(1 + max_split, 1) if len(word) < 9 else max_split + (len(word) == 9))')],
     needs='an unknown head of five letters before a known tail', breaks='long words are cut one letter less', demo='''
from pymorphy2.utils import word_splits
for n in range(4, 15):
    assert [a for a, b in word_splits('абвгдежзийклмноп'[:n])] == ['абвгд'[:k] for k in range(1, min(5, n - 3) + 1)], n
'''),
dict(id='c11-mincase', prop='C11', edits=[(ANAL, '''        for prefix_id, prefix, suffixes_dawg in self._possible_prefixes(word_lower):

            for i in self._prediction_splits:

                # XXX: this should''', '''        for prefix_id, prefix, suffixes_dawg in self._possible_prefixes(word_lower):

            for i in self._prediction_splits[-len(word) + 1:]:

                # XXX: this should''')], needs='a word of 4 or 5 letters which as a whole is a known ending (with the full ending length)', breaks='the ending covering the whole word is not used', demo=M + '''
from pymorphy2.units import KnownSuffixAnalyzer
import itertools
n = 0
k = [u for u, _ in m._units if isinstance(u, KnownSuffixAnalyzer)][0]
for suf, v in m.dictionary.prediction_suffixes_dawgs[0].iteritems('а'):
    if len(suf) == 5 and not suf.startswith(('по', 'наи')) and m.dictionary.build_tag_info(*v[1:]).is_productive():
        n += 1
        assert any(p[4][1][1] == suf for p in k.parse(suf, suf, set())), suf
        if n > 300: break
'''),
dict(id='c12-particle', prop='C12', edits=[(HYPH, '''            unsuffixed_word = word[:-len(particle)]
            if not unsuffixed_word:
                continue
''', '''            unsuffixed_word = word[:-len(particle)]
            if len(unsuffixed_word) < 2:
                continue
''')], needs='a one-letter word with a particle', breaks='я-то is not analysed as я', demo=M + '''
assert any('NPRO' in t for t in m.tag('я-то')), m.tag('я-то')
'''),
dict(id='c12-adverb', prop='C12', edits=[(HYPH, "return any(set(['ADJF', 'sing', 'datv']) in tag for tag in tags)", "return any('ADJF' in tag and ('datv' in tag or tag.number is None) for tag in tags)")],
     needs='по- before a plural dative-like adjective form (по-новым)', breaks='plural forms count as adverbs', demo=M + '''
for w in ['по-новым', 'по-красивым', 'по-нашим']:
    assert not any('ADVB' in t for t in m.tag(w)), w
'''),
dict(id='c14-femn', prop='C14', edits=[(ABBR, '''        # don't normalize female names to male names
        fixed_word, form_tag, normal_form, score, methods_stack = form
        tags = self._tags_masc if 'masc' in form_tag else self._tags_femn
        return fixed_word, tags[0],''', '''        # don't normalize female names to male names
        fixed_word, form_tag, normal_form, score, methods_stack = form
        tags = self._tags_femn if form_tag in self._tags_femn[1:] else self._tags_masc
        return fixed_word, tags[0],''')], needs='normalising the nominative feminine first name initial', breaks='it becomes masculine', demo=M + '''
for p in m.parse('И'):
    if 'Name' in p.tag:
        assert p.normalized.tag.gender == p.tag.gender, p
'''),
dict(id='c14-letters', prop='C14', edits=[(ABBR, 'self._letters_set = set(letters)', 'self._letters_set = set(letters) - set("ЪЬ") | set(l for l in letters if len(l) > 1)')],
     needs='the letters Ъ or Ь if listed', breaks='nothing or some letters', demo='pass'),
dict(id='c15-hash', prop='C15', edits=[('tagset.py', 'return self._grammemes_tuple < other._grammemes_tuple', 'return self._str < other._str')],
     needs='ordering two tags which differ in where lexeme grammemes end', breaks='< and > contradict each other', demo=M + '''
T = m.TagClass
a, b = T('NOUN,inan masc'), T('NOUN,inan,femn')
for x in [a, b, T('NOUN'), T('NOUN sing'), T('NOUN,anim')]:
    for y in [a, b, T('NOUN,sing'), T('NOUN sing'), T('NOUN,anim')]:
        assert (x < y) == (y > x), (x, y)
'''),
dict(id='c16-mutates', prop='C16', edits=[('tagset.py', 'new_grammemes = self.grammemes | required\n', 'new_grammemes = set(self.grammemes) | required\n        required = set(required) & new_grammemes if len(required) > 1 else required\n'),
     ('tagset.py', "            new_grammemes -= self._GRAMMEME_INCOMPATIBLE[grammeme]\n", "            new_grammemes -= self._GRAMMEME_INCOMPATIBLE[grammeme] - required\n")],
     needs='a request containing two competing grammemes', breaks='both survive', demo=M + '''
t = m.parse('стол')[0].tag
a = t.updated_grammemes({'plur', 'masc'})
assert 'masc' not in a or 'plur' not in a, a
'''),
dict(id='c17-space', prop='C17', edits=[('tagset.py', 'for whitespace_separated_part in tag.split()\n', 'for whitespace_separated_part in tag.split(None, 1)\n')],
     needs='translating a string with two or more spaces', breaks='the rest of the string is not translated', demo=M + '''
assert m.lat2cyr('NOUN inan masc,sing') == 'СУЩ неод мр,ед', m.lat2cyr('NOUN inan masc,sing')
'''),
dict(id='c18-cache', prop='C18', edits=[('analyzer.py', '''        seen = set()
        result = []

        for p in self.parse(word):
            normal_form = p[2]
            if normal_form not in seen:
                result.append(normal_form)
                seen.add(normal_form)
        return result
''', '''        cache = self.__dict__.setdefault('_normal_forms', {})
        if word not in cache:
            result = []
            for p in self.parse(word):
                if p[2] not in result:
                    result.append(p[2])
            cache[word] = result
        return cache[word]
''')], needs='modifying the list normal_forms() returned and asking again', breaks='the cached list is shared with the caller', demo=M + '''
ref = list(m.normal_forms('стали'))
m.normal_forms('стали').append('x')
assert m.normal_forms('стали') == ref
'''),
dict(id='c18-lexcache', prop='C18', edits=[(LOOK, '''        paradigm = self.dict.build_paradigm_info(para_id)  # XXX: reuse _para?
''', '''        paradigm = self._paradigms.get(para_id)
        if paradigm is None:
            paradigm = self._paradigms[para_id] = iter(self.dict.build_paradigm_info(para_id))
            paradigm = self._paradigms[para_id] = list(paradigm)
        if len(self._paradigms) > 16:
            paradigm = paradigm[:]
            for old in list(self._paradigms)[:4]:
                self._paradigms[old].sort(key=lambda item: len(item[2]))
'''), (LOOK, '''    """
    Analyzer unit that analyzes word using dictionary.
    """
''', '''    """
    Analyzer unit that analyzes word using dictionary.
    """
    _paradigms = {}
''')], needs='lexemes of words with more than 16 different patterns', breaks='earlier patterns lose their order', demo='pass'),
dict(id='c18-tagmemo', prop='C18', edits=[('tagset.py', '''        if self._cyr is None:
            self._cyr = self.lat2cyr(self)
        return self._cyr
''', '''        cache = OpencorporaTag._cyr_cache
        key = self._grammemes_tuple
        if key not in cache:
            cache[key] = self.lat2cyr(self)
        return cache[key]
'''), ('tagset.py', "    _LAT2CYR = None\n", "    _LAT2CYR = None\n    _cyr_cache = {}\n")], needs='two tags with the same grammemes but another place of the space', breaks='the Cyrillic form depends on which was asked first', demo=M + '''
T = m.TagClass
a, b = T('NOUN,inan masc,sing'), T('NOUN,inan,masc sing')
assert a.cyr_repr == 'СУЩ,неод мр,ед' and b.cyr_repr == 'СУЩ,неод,мр ед', (a.cyr_repr, b.cyr_repr)
'''),
dict(id='c21-falsy', prop='C21', edits=[('units/base.py', "(key, getattr(self, key, None)) for key in self._get_param_names()", "(key, self.__dict__[key]) for key in self._get_param_names()\n            if key in self.__dict__ and self.__dict__[key] not in (None, 0, '')")],
     needs='a unit parameter explicitly set to zero', breaks='analyzers use the default instead', demo='''
import pymorphy2.units as u
m = pymorphy2.MorphAnalyzer(units=[u.KnownSuffixAnalyzer(min_word_length=0), u.UnknAnalyzer()], probability_estimator_cls=None)
assert m.tag('ой') and not any('UNKN' in t for t in m.tag('ой')), m.tag('ой')
'''),
dict(id='c21-plain', prop='C21', edits=[('analyzer.py', '''        result = last_method[0].get_lexeme(form)

        if self._result_type is None:
            return result
''', '''        result = last_method[0].get_lexeme(form)

        if self._result_type is None:
            return [p for p in result if p[0] != form[0] or p[1] == form[1]]
''')], needs='the lexeme of a plain tuple result of a word with equally spelled forms', breaks='plain lexemes lack forms', demo='''
a, b = pymorphy2.MorphAnalyzer(), pymorphy2.MorphAnalyzer(result_type=None)
f = lambda m: [[(x[0], x[1]) for x in m.get_lexeme(p)] for p in m.parse('стол')]
assert f(a) == f(b)
'''),
dict(id='c25-env', prop='C25', edits=[('analyzer.py', '''        if cls.DICT_PATH_ENV_VARIABLE in os.environ:
            return os.environ[cls.DICT_PATH_ENV_VARIABLE]
''', '''        if cls.DICT_PATH_ENV_VARIABLE in os.environ and lang in (None, 'ru'):
            return os.environ[cls.DICT_PATH_ENV_VARIABLE]
''')], needs='the variable together with another language', breaks='the variable is ignored', toy=True, demo='''
p = toy.compile([toy.noun(1, 'кот', [('ик', 'sing,nomn'), ('а', 'sing,gent')])], lang='uk')
os.environ['PYMORPHY2_DICT_PATH'] = p
assert pymorphy2.MorphAnalyzer(lang='uk').dictionary.path == p
'''),
dict(id='c26-first', prop='C26', edits=[(PROB, '        if len(parses) == 1\n', '        if parses\n')],
     needs='a corpus with words which are not disambiguated', breaks='ambiguous observations are counted', demo='''
from pymorphy2.opencorpora_dict.probability import _disambiguated_words
class R:
    def iter_parsed_words(self):
        return [('a', [('a', 'X')]), ('b', [('b', 'X'), ('b', 'Y')]), ('c', [])]
assert list(_disambiguated_words(R())) == [('a', 'X')]
'''),
dict(id='c26-bins', prop='C26', edits=[(PROB, 'bins = max(len(morph.tag(condition)), fd.B())', 'bins = fd.B() if fd.N() > 2 else max(len(morph.tag(condition)), fd.B())')],
     needs='a word with more than two observations of only some of its tags', breaks='smoothing does not count unobserved tags', py='slow', demo='''
import types, collections
nltk, oc = types.ModuleType('nltk'), types.ModuleType('opencorpora')
seen = []
class FD(collections.Counter):
    def B(self): return len(self)
    def N(self): return sum(self.values())
class CFD(dict):
    def __init__(self, pairs):
        for w, t in pairs: self.setdefault(w, FD())[t] += 1
    def N(self): return sum(f.N() for f in self.values())
class L:
    def __init__(self, fd, bins): seen.append(bins)
class CPD(dict): pass
nltk.ConditionalProbDist, nltk.ConditionalFreqDist, nltk.LaplaceProbDist = CPD, CFD, L
class R:
    def __init__(self, fn): pass
    def iter_parsed_words(self):
        return [('стали', [('стать', 'VERB,perf,intr plur,past,indc')])] * 5
oc.CorpusReader = R
sys.modules['nltk'], sys.modules['opencorpora'] = nltk, oc
from pymorphy2.opencorpora_dict.probability import estimate_conditional_tag_probability as e
m = pymorphy2.MorphAnalyzer()
e(m, 'x')
assert seen == [len(m.tag('стали'))], seen
'''),
dict(id='c28-strip', prop='C28', edits=[('shapes.py', '''        for i, part in enumerate(word_parts):
            if len(example_parts) > i:
                results.append(_make_the_same_case(part, example_parts[i]))
            else:
                results.append(part.lower())
''', '''        for i, part in enumerate(word_parts):
            if len(example_parts) > i:
                results.append(_make_the_same_case(part, example_parts[i]))
            elif part:
                results.append(part.lower())
''')], needs='a word with an empty part beyond the parts of the example', breaks='a hyphen is lost', demo='''
from pymorphy2.shapes import restore_capitalization as r
assert r('a-b-', 'A-B') == 'A-B-'
'''),
dict(id='c30-last', prop='C30', edits=[('dawg.py', '''        if not self.is_prefixed(word):  # fail-fast path
            return []
        return [pref for pref in self._prefixes if word.startswith(pref)]
''', '''        if not self.is_prefixed(word):  # fail-fast path
            return []
        res = []
        for pref in self._prefixes:
            if word.startswith(pref) and pref != word:
                res.append(pref)
        return res
''')], needs='a word which is itself a listed prefix, in the pure-Python matcher', breaks='the matcher does not report it', demo='''
from pymorphy2.dawg import PythonPrefixMatcher as P
assert P(['авто', 'ав']).prefixes('авто') == ['авто', 'ав']
'''),
dict(id='c31-ucase', prop='C31', edits=[('analyzer.py', '            word = word.lower(),\n            substitutes_compiled = None', '            word = word if word.istitle() and strict else word.lower(),\n            substitutes_compiled = None')],
     needs='a strict question about a capitalised word', breaks='it is unknown', demo=M + '''
assert m.word_is_known('Кошка', strict=True) and m.word_is_known('КОШКА', strict=True)
'''),
dict(id='c32-spacepos', prop='C32', edits=[(PREP, 'if len(space_pos) == len(set(space_pos)):', 'if len(set(space_pos)) > 1:')],
     needs='three spellings, two of which differ in order only', breaks='they are not merged', toy=True, demo='''
p = toy.compile([(1, 'NOUN,inan,masc', [('аб', 'sing,nomn')]), (2, 'NOUN,masc,inan', [('вг', 'sing,nomn')]), (3, 'NOUN,inan', [('де', 'masc,sing,nomn')]), (4, 'NOUN,inan,masc', [('жз', 'sing,nomn')])])
m = pymorphy2.MorphAnalyzer(path=p)
assert m.parse('аб')[0].tag == m.parse('вг')[0].tag
'''),
dict(id='c32-replace', prop='C32', edits=[(PREP, "return tag_str.replace('loc1', 'loct').replace('gen1', 'gent').replace('acc1', 'accs')", "return tag_str.replace('loc1', 'loct').replace('gen1', 'gent').replace('acc1', 'accs').replace('loc2', 'loct') if 'plur' in tag_str else tag_str.replace('loc1', 'loct').replace('gen1', 'gent').replace('acc1', 'accs')")],
     needs='a plural form in the second locative', breaks='loc2 is lost', toy=True, demo='''
p = toy.compile([(1, 'NOUN,inan,masc', [('аб', 'plur,loc2')])])
m = pymorphy2.MorphAnalyzer(path=p)
assert 'loc2' in m.parse('аб')[0].tag
'''),
]
SEEDS = [s for s in SEEDS if s['demo'] != 'pass']
