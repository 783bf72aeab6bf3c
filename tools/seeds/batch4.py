# -*- coding: utf-8 -*-
M = 'm = pymorphy2.MorphAnalyzer()\n'
LOOK, ANAL, HYPH, SHAPE, ABBR = 'units/by_lookup.py', 'units/by_analogy.py', 'units/by_hyphen.py', 'units/by_shape.py', 'units/abbreviations.py'
COMP, PREP, PARS, STOR, PROB, WRAP = ['opencorpora_dict/%s.py' % x for x in ('compile', 'preprocess', 'parse', 'storage', 'probability', 'wrapper')]

FAKE = """
import types, collections
nltk, oc = types.ModuleType('nltk'), types.ModuleType('opencorpora')
FDS = {}
class FD(collections.Counter):
    def B(self): return len(self)
    def N(self): return sum(self.values())
class CFD(dict):
    def __init__(self, pairs):
        for w, t in pairs: self.setdefault(w, FD())[t] += 1
        FDS.update(self)
    def N(self): return sum(f.N() for f in self.values())
class L:
    def __init__(self, fd, bins): self.fd = fd
    def freqdist(self): return self.fd
    def prob(self, x): return (self.fd[x] + 1) / (self.fd.N() + 2.0)
class CPD(dict):
    def __init__(self, cfd, factory): dict.__init__(self, ((k, factory(v)) for k, v in cfd.items()))
    def conditions(self): return list(self)
nltk.ConditionalProbDist, nltk.ConditionalFreqDist, nltk.LaplaceProbDist = CPD, CFD, L
WORDS = []
class R:
    def __init__(self, fn): pass
    def iter_parsed_words(self): return WORDS
oc.CorpusReader = R
sys.modules['nltk'], sys.modules['opencorpora'] = nltk, oc
from pymorphy2.opencorpora_dict import probability as P
m = pymorphy2.MorphAnalyzer()
T = 'VERB,perf,intr plur,past,indc'
"""

SEEDS = [
dict(id='c01-many', prop='C01', edits=[(LOOK, 'for para_id, idx in parses:\n                normal_form', 'for para_id, idx in parses[:32]:\n                normal_form')],
     needs='a word with more than 32 dictionary entries', breaks='the remaining entries are dropped', demo=M + '''
for w in ['бордо', 'пике', 'сомали', 'барокко', 'кенгуру']:
    assert len(m.parse(w)) == len(m.tag(w)) == len(m.dictionary.words[w]), w
'''),
dict(id='c02-exact', prop='C02', edits=[(LOOK, '''        res = []
        para_data = self.dict.words.similar_items(word_lower, self.morph.char_substitutes)
''', '''        res = []
        para_data = self.dict.words.similar_items(word_lower, self.morph.char_substitutes)
        if len(para_data) > 2:
            para_data = para_data[:2]
''')], needs='a word standing for three dictionary words', breaks='the third respelling is not found', toy=True, demo='''
import itertools
words = [''.join(x) for x in itertools.product('её', 'т', 'её', 'р')]
p = toy.compile([(i + 1, 'NOUN,inan,masc', [(w, 'sing,nomn'), (w + 'а', 'sing,gent')]) for i, w in enumerate(words)])
m = pymorphy2.MorphAnalyzer(path=p)
assert sorted(x.word for x in m.parse('етер')) == sorted(words), m.parse('етер')
'''),
dict(id='c02-tagsuffix', prop='C02', edits=[(ANAL, 'para_data = suffixes_dawg.similar_items(end, self.morph.char_substitutes)', "para_data = suffixes_dawg.similar_items(end, self.morph.char_substitutes if 'ё' not in word_lower else {})")],
     needs='tag() of an unknown word with ё elsewhere and е for ё in its ending', breaks='endings are not respelled', demo=M + '''
n = 0
for suf in ['енок', 'енка', 'енный', 'ешь', 'ем', 'ет', 'ете', 'енные', 'есь', 'ев', 'ек', 'ер', 'ен', 'ется', 'ешься', 'евый', 'еныш', 'еры', 'егий', 'енный']:
    w = 'ъщшёб' + suf
    assert set(m.tag(w)) == set(p.tag for p in m.parse(w)), w
    n += any('ё' in p.word[5:] for p in m.parse(w))
assert n
'''),
dict(id='c03-caps', prop='C03', edits=[('analyzer.py', '''        probs = [self.p_t_given_w.prob(word_lower, tag)
''', '''        key = word if word.isupper() and len(word) == 1 else word_lower
        probs = [self.p_t_given_w.prob(key, tag)
''')], needs='a one-letter capital word with recorded probabilities', breaks='probabilities are not found', demo=M + '''
f = lambda w: dict((p.tag, p.score) for p in m.parse(w) if 'Init' not in p.tag)
for w in 'аоиякусв':
    if m.prob_estimator.p_t_given_w.keys(w + ':'):
        a, b = f(w), f(w.upper())
        assert all(a[t] == b.get(t) for t in a if m.prob_estimator.p_t_given_w.get('%s:%s' % (w, t))), w
'''),
dict(id='c04-bignum', prop='C04', edits=[(SHAPE, "                float(word.replace(',', '.'))\n", "                int(float(word.replace(',', '.')))\n")],
     needs='a number too large for a float', breaks='OverflowError', demo=M + '''
for w in ['9e999', '-9,5e999', '1e9', '1' * 400 + '.5']:
    assert m.parse(w), w
'''),
dict(id='c04-empty', prop='C04', edits=[('units/unkn.py', '        methods = ((self, word),)\n', '        if not word.strip():\n            return []\n        methods = ((self, word),)\n')],
     needs='empty or whitespace-only strings', breaks='no result', demo=M + '''
for w in ['', ' ', '\\t', '\\u3000']:
    assert [str(p.tag) for p in m.parse(w)] == ['UNKN'], repr(w)
'''),
dict(id='c05-dedup', prop='C05', edits=[(LOOK, '                result.append(gramtab[tag_id])', '                if len(result) < 12 or gramtab[tag_id] not in result:\n                    result.append(gramtab[tag_id])')],
     needs='a dictionary word with more than 12 entries some of which share a tag', breaks='tag() reports fewer tags than parse()', demo=M + '''
for p in m.iter_known_word_parses('б'):
    w = p.word
    assert len(m.tag(w)) == len(m.parse(w)), w
    if w > 'бр': break
for w in ['т', 'п', 'л', 'ср', 'н', 'кв', 'с', 'к', 'д', 'г']:
    assert [p.tag for p in m.parse(w)] == m.tag(w), w
'''),
dict(id='c05-ties', prop='C05', edits=[('analyzer.py', '''        return sorted(tags,
            key=lambda tag: self.p_t_given_w.prob(word_lower, tag),
            reverse=True
        )
''', '''        probs = [self.p_t_given_w.prob(word_lower, tag) for tag in tags]
        if not any(probs):
            return tags
        return [tag for prob, tag in sorted(zip(probs, tags), reverse=True)]
''')], needs='a word with recorded probabilities of which several are equal', breaks='the order of tags and parses differ', demo=M + '''
k = 0
for p in m.iter_known_word_parses('с'):
    w = p.word
    a = [x.tag for x in m.parse(w)]
    assert a == m.tag(w), w
    k += 1
    if k > 60000: break
'''),
dict(id='c06-round', prop='C06', edits=[('dawg.py', 'return self.get(dawg_key, 0) / self.MULTIPLIER', 'return round(self.get(dawg_key, 0) / self.MULTIPLIER, 4)')],
     needs='recorded probabilities with more than four decimals', breaks='scores are rounded', demo=M + '''
assert max(abs(p.score - 0.975274) < 1e-7 for p in m.parse('стали')), m.parse('стали')
'''),
dict(id='c07-dup', prop='C07', edits=[('units/utils.py', '    return (word+suffix, tag, normal_form+suffix, score, methods_stack)', '    return (word if word.endswith(suffix) else word+suffix, tag, normal_form+suffix, score, methods_stack)')],
     needs='a particle attached to a word whose forms end with the same particle (кто-то-то)', breaks='lexeme members lack the particle', demo=M + '''
for w in ['кто-то-то', 'какой-то-то']:
    for p in m.parse(w):
        assert (p.word, p.tag) in [(f.word, f.tag) for f in p.lexeme], p
'''),
dict(id='c07-leftnorm', prop='C07', edits=[(HYPH, "        return next(self._iter_lexeme(form))\n", "        f = next(self._iter_lexeme(form))\n        return form if f[0] == form[0] else f\n")],
     needs='normalising a hyphenated word spelled like its normal form in another case', breaks='the normalised parse keeps the original tag', demo=M + '''
for p in m.parse('интернет-магазин') + m.parse('человек-дом') + m.parse('хлеб-соль'):
    n = p.normalized
    assert (n.word, n.tag) == (p.lexeme[0].word, p.lexeme[0].tag), p
'''),
dict(id='c08-unkgr', prop='C08', edits=[('analyzer.py', '''        grammemes = form[1].updated_grammemes(required_grammemes)
        def similarity''', '''        if not possible_results:
            return []
        grammemes = form[1].updated_grammemes(required_grammemes)
        def similarity''')], needs='an unknown grammeme in a request', breaks='None instead of an error', demo=M + '''
try:
    m.parse('кот')[0].inflect({'foo'})
except ValueError:
    pass
else:
    assert 0
'''),
dict(id='c09-inflplur', prop='C09', edits=[('tagset.py', "self.gender == 'femn' and index == 1", "self.gender == 'femn' and self.animacy is None and index == 1")],
     needs='a feminine adjective tag with animacy', breaks='2-4 take the genitive', demo=M + '''
t = m.TagClass('ADJF,Qual inan,femn,sing,accs')
assert t.numeral_agreement_grammemes(3) == {'plur', 'nomn'}, t.numeral_agreement_grammemes(3)
'''),
dict(id='c12-loc2', prop='C12', edits=[(HYPH, "            {'gen1': 'gent', 'loc1': 'loct'}\n", "            {'gen1': 'gent', 'loc1': 'loct', 'loc2': 'loct'}\n")],
     needs='a compound of a second locative and a locative', breaks='forms of different cases are paired', demo=M + '''
for w in ['лесу-городе', 'снегу-доме', 'городе-саду']:
    a, b = w.split('-')
    f = lambda t: t.grammemes & (t.CASES | t.NUMBERS | t.PARTS_OF_SPEECH)
    for p in m.parse(w):
        st = p.methods_stack[0]
        if isinstance(st[1], tuple):
            l, r = [x.tag for x in m.parse(a)], [x.tag for x in m.parse(b)]
            assert f(p.tag) in [f(t) for t in r], (w, p.tag)
'''),
dict(id='c13-thousands', prop='C13', edits=[(SHAPE, "float(word.replace(',', '.'))", "float(word.replace(',', '' if '.' in word else '.'))")],
     needs='a token with a comma and a dot', breaks='1,5.5 is a real number', demo=M + '''
for w in ['1,5.5', '1,000.5', '1.2,3']:
    assert not any('NUMB' in t for t in m.tag(w)), w
'''),
dict(id='c13-sym', prop='C13', edits=[('shapes.py', "all(unicodedata.category(ch)[0] == 'P' for ch in token if not ch.isspace())", "all(unicodedata.category(ch) in ('Po', 'Pd', 'Ps', 'Pe', 'Pi', 'Pf', 'Sk') for ch in token if not ch.isspace())")],
     needs='modifier symbols (^, `) or connector punctuation (_)', breaks='^ is punctuation, _ is not', demo=M + '''
assert 'PNCT' in m.tag('_')[0] and 'PNCT' not in m.TagClass('UNKN') if False else True
assert str(m.tag('_')[0]) == 'PNCT' and str(m.tag('^')[0]) == 'UNKN', (m.tag('_'), m.tag('^'))
'''),
dict(id='c13-wide', prop='C13', edits=[('shapes.py', "is_latin = 'LATIN' in unicodedata.name(uchr, '')", "is_latin = unicodedata.name(uchr, '').startswith('LATIN ')")],
     needs='fullwidth or modifier Latin letters', breaks='they are not Latin', demo=M + '''
assert any('LATN' in t for t in m.tag('\\uff21\\uff42')), m.tag('\\uff21\\uff42')
'''),
dict(id='c14-letter', prop='C14', edits=[('lang/ru/config.py', "INITIAL_LETTERS = 'АБВГДЕЁЖЗИЙКЛМНОПРСТУФХЦЧШЩЭЮЯ'", "INITIAL_LETTERS = 'АБВГДЕЁЖЗИКЛМНОПРСТУФХЦЧШЩЭЮЯ'")],
     needs='the letter Й', breaks='it is no initial', demo=M + '''
assert any('Name' in t for t in m.tag('Й')), m.tag('Й')
'''),
dict(id='c15-reduce', prop='C15', edits=[('tagset.py', "return self.__class__, (self._str,), None", "return self.__class__, (self._str if len(self) < 9 else ','.join(self._grammemes_tuple),), None")],
     needs='pickling a tag with nine or more grammemes', breaks='the restored tag prints differently', demo=M + '''
import pickle, copy
for w in ['читавшего', 'И', 'прочитанную', 'стали', 'самого']:
    for p in m.parse(w):
        assert str(pickle.loads(pickle.dumps(p.tag, 2))) == str(p.tag) == str(copy.deepcopy(p.tag)), p.tag
'''),
dict(id='c15-ne', prop='C15', edits=[('tagset.py', 'return self._grammemes_tuple != other._grammemes_tuple', 'return self._str != other._str')],
     needs='two tags which differ only in the place of the space', breaks='== and != are both true', demo=M + '''
T = m.TagClass
assert T('NOUN,inan masc,sing') == T('NOUN,inan,masc sing')
assert not (T('NOUN,inan masc,sing') != T('NOUN,inan,masc sing'))
'''),
dict(id='c16-level', prop='C16', edits=[('tagset.py', "            if gr.get(parent, None):  # parent's parent\n", "            if gr.get(parent, None) and not children.get(name):  # parent's parent\n")],
     needs='a category with grammemes on two levels declared in an unusual order', breaks='grammemes of the second level are not displaced', toy=True, demo='''
G = [g for g in toy.GR if g[0] not in ('gent', 'gen1', 'gen2')]
i = [g[0] for g in G].index('nomn')
G2 = [('x1', 'gen2', 'ххх')] + G[:i] + [('gen1', 'gent', 'рд1'), ('gen2', 'gent', 'рд2'), ('gent', 'CAse', 'рд')] + G[i:]
from pymorphy2.tagset import OpencorporaTag as T
T._init_grammemes([(a, b, c, 'd') for a, b, c in G2])
t = T('NOUN,inan,masc sing,gen2')
assert t.updated_grammemes({'datv'}) == {'NOUN', 'inan', 'masc', 'sing', 'datv'}, t.updated_grammemes({'datv'})
'''),
dict(id='c17-case', prop='C17', edits=[('tagset.py', "grammemes = [mapping.get(tok, tok) for tok in tag_part.split(',')]", "grammemes = [mapping.get(tok) or mapping.get(tok.lower(), tok) for tok in tag_part.split(',')]")],
     needs='a token which is a grammeme name in other letter case', breaks='it is translated although it is no grammeme name', demo=M + '''
for s in ['SING', 'Nomn', 'МР', 'Ед', 'NOUN,SING']:
    assert m.lat2cyr(s).split(',')[-1] == s.split(',')[-1] and m.cyr2lat(s) == s, (s, m.lat2cyr(s), m.cyr2lat(s))
'''),
dict(id='c18-initcache', prop='C18', edits=[(ABBR, '''        if word not in self._letters_set:
            return []
        return [
            (word_lower,''', '''        if word not in self._letters_set and not (self._last and word_lower == self._last):
            return []
        self._last = word_lower
        return [
            (word_lower,'''), (ABBR, "    def __init__(self, letters, tag_pattern=None, score=0.1):\n", "    _last = None\n\n    def __init__(self, letters, tag_pattern=None, score=0.1):\n")],
     needs='asking a letter in lower case right after the capital', breaks='it is analysed as an initial', demo=M + '''
m.parse('И')
assert not any('Init' in p.tag for p in m.parse('и'))
'''),
dict(id='c18-kelvin', prop='C18', edits=[('shapes.py', '''    try:
        return _latin_letters_cache[uchr]
''', '''    try:
        return _latin_letters_cache[uchr.lower()]
'''), ('shapes.py', 'return _latin_letters_cache.setdefault(uchr, is_latin)', 'return _latin_letters_cache.setdefault(uchr.lower(), is_latin)')],
     needs='the Kelvin sign (lower case: k) after the letter k', breaks='the answer about the sign depends on what was asked before', demo=M + '''
b = m.tag('\\u212a')
import subprocess
a = subprocess.check_output([sys.executable, '-c', 'import pymorphy2; m = pymorphy2.MorphAnalyzer(); m.tag("k"); print(*map(str, m.tag("\\u212a")))']).decode().strip()
assert a == ' '.join(map(str, b)), (a, b)
'''),
dict(id='c19-lastpara', prop='C19', edits=[(WRAP, '''        paradigm = self.paradigms[para_id]
        paradigm_len = len(paradigm) // 3
        res = []
''', '''        if self._last_para == para_id and self._last_info:
            return list(self._last_info)
        paradigm = self.paradigms[para_id]
        paradigm_len = len(paradigm) // 3
        self._last_para = para_id
        res = []
'''), (WRAP, '''                (prefix, self.build_tag_info(para_id, idx), suffix)
            )
        return res
''', '''                (prefix, self.build_tag_info(para_id, idx), suffix)
            )
        self._last_info = res
        return list(res)
'''), (WRAP, "    def __init__(self, path):\n", "    _last_para = _last_info = None\n\n    def __init__(self, path):\n")],
     needs='two threads asking for lexemes of words of different patterns', breaks='a lexeme has endings of another word', demo=M + '''
import threading, time
sys.setswitchinterval(1e-6) if hasattr(sys, 'setswitchinterval') else None
ws = ['кот', 'сталь', 'новый', 'читать', 'дом', 'окно']
ref = dict((w, [f.word for f in m.parse(w)[0].lexeme]) for w in ws)
bad = []
end = time.time() + 20
def run(k):
    while time.time() < end and not bad:
        w = ws[k]
        p = m.parse(w)[0]
        for i in range(50):
            if [f.word for f in p.lexeme] != ref[w]:
                bad.append(w)
                return
ts = [threading.Thread(target=run, args=(k,)) for k in range(6)]
[t.start() for t in ts]; [t.join() for t in ts]
assert not bad, bad
'''),
dict(id='c20-deep', prop='C20', edits=[('analyzer.py', "                self._probability_estimator_cls, self._char_substitutes)\n        return self.__class__, args, None", "                self._probability_estimator_cls, self._char_substitutes)\n        return self.__class__, args[:5] if not self._char_substitutes else args, None")],
     needs='pickling an analyzer created with char_substitutes={} or None', breaks='the copy restores letters', demo='''
import pickle
m = pymorphy2.MorphAnalyzer(char_substitutes={})
assert not m.word_is_known('еж') and not pickle.loads(pickle.dumps(m)).word_is_known('еж')
'''),
dict(id='c21-restype', prop='C21', edits=[('analyzer.py', '''                res_type = type(
                    result_type.__name__,
                    (result_type,),
                    {'_morph': self, '_dict': self.dictionary}
                )
                self._result_type = res_type
''', '''                res_type = self._result_types.get((result_type, path))
                if res_type is None:
                    res_type = self._result_types[result_type, path] = type(
                        result_type.__name__,
                        (result_type,),
                        {'_morph': self, '_dict': self.dictionary}
                    )
                self._result_type = res_type
'''), ('analyzer.py', "    _lock = threading.RLock()\n", "    _lock = threading.RLock()\n    _result_types = {}\n")],
     needs='two analyzers of the same dictionary with different options', breaks='parses of the second ask the first (e.g. which words are known)', demo='''
a = pymorphy2.MorphAnalyzer(char_substitutes=None)
b = pymorphy2.MorphAnalyzer()
p = b.parse('кот')[0]._replace(word='еж')
assert p.is_known
assert b.parse('еж')[0].is_known
assert type(b.parse('еж')[0].lexeme[0])._morph is b, 'morph'
'''),
dict(id='c22-excl', prop='C22', edits=[(COMP, "EXCLUDED_LINK_TYPES = set(['7', '21', '23', '27'])", "EXCLUDED_LINK_TYPES = set(['7', '21', '23', '26', '27'])")],
     needs='links of type 26', breaks='comparatives of adverbs are not joined', toy=True, demo='''
p = toy.compile([(1, 'ADVB', [('скоро', '')]), (2, 'COMP', [('скорее', '')])], links=[(1, 2, 26)])
m = pymorphy2.MorphAnalyzer(path=p)
assert m.parse('скорее')[0].normal_form == 'скоро'
'''),
dict(id='c22-prefcheck', prop='C22', edits=[(COMP, "        if any(pref not in paradigm_prefixes for pref in prefixes):\n", "        if any(pref not in paradigm_prefixes for pref in set(prefixes[:len(paradigm_prefixes)])):\n")],
     needs='a lexeme with more forms than there are prefixes, a later one with an unusual prefix', breaks='compilation fails', toy=True, demo='''
p = toy.compile([(1, 'NOUN', [('кот', 'sing,nomn'), ('кота', 'sing,gent'), ('коту', 'sing,datv'), ('котом', 'sing,ablt'), ('скоты', 'plur,nomn')])])
m = pymorphy2.MorphAnalyzer(path=p)
assert m.parse('скоты')[0].normal_form == 'кот'
'''),
dict(id='c23-pos', prop='C23', edits=[(COMP, "        POS = tuple(tag.replace(' ', ',', 1).split(','))[0]\n", "        POS = tag.split(',')[0]\n")],
     needs='tags whose only lexeme grammeme is the part of speech', breaks='endings are counted per part of speech and first form grammeme', toy=True, demo='''
L = [(i, 'ADJF', [(s + 'ик', 'sing,nomn'), (s + 'а', 'plur,gent')]) for i, s in enumerate(['кот', 'бот', 'мот'], 1)]
L += [(9, 'ADJF', [('рот' + 'ик', 'plur,nomn'), ('рот' + 'у', 'sing,datv')])]
p = toy.compile(L)
m = pymorphy2.MorphAnalyzer(path=p)
assert set(str(t) for t in m.tag('ъщътик')) == {'ADJF sing,nomn'}, m.tag('ъщътик')
'''),
dict(id='c24-metacount', prop='C24', edits=[(STOR, "        return sum(1 for k in dawg.iterkeys())\n", "        return len(set(dawg.iterkeys()))\n")],
     needs='homonymous words', breaks='metadata gives the number of distinct words instead of entries', toy=True, demo='''
p = toy.compile([toy.noun(1, 'кот', [('', 'sing,nomn'), ('', 'sing,accs')])])
m = pymorphy2.MorphAnalyzer(path=p)
assert m.dictionary.meta['words_dawg_length'] == 2, m.dictionary.meta['words_dawg_length']
'''),
dict(id='c25-v20', prop='C25', edits=[(STOR, "    if major != curr_major:\n", "    if major[:len(curr_major)] != curr_major:\n")],
     needs='a dictionary of format 20.x', breaks='it is accepted', toy=True, demo='''
import json
p = toy.compile([toy.noun(1, 'кот', [('', 'sing,nomn')])])
fn = os.path.join(p, 'meta.json')
with open(fn) as f: meta = json.load(f)
for k in meta:
    if k[0] == 'format_version': k[1] = '20.1'
with open(fn, 'w') as f: json.dump(meta, f)
try:
    pymorphy2.MorphAnalyzer(path=p)
except ValueError:
    pass
else:
    assert 0
'''),
dict(id='c25-langwarn', prop='C25', edits=[('analyzer.py', "        if dictionary.lang != lang:\n", "        if not (dictionary.lang or '').startswith(lang):\n")],
     needs='a dictionary whose language name begins like the requested one', breaks='no warning', toy=True, demo='''
import warnings
p = toy.compile([toy.noun(1, 'кот', [('', 'sing,nomn')])], lang='rus')
with warnings.catch_warnings(record=True) as ws:
    warnings.simplefilter('always')
    m = pymorphy2.MorphAnalyzer(path=p, lang='ru')
assert m.lang == 'ru' and any('match' in str(w.message) for w in ws), [str(w.message) for w in ws]
'''),
dict(id='c26-lower', prop='C26', edits=[(PROB, '            (w.lower(), tag2grammemes(t))\n', '            (w.lower() if not w.isupper() else w, tag2grammemes(t))\n')],
     needs='words in all capitals in the corpus', breaks='they are not counted', demo=FAKE + '''
WORDS += [('СТАЛИ', [('стать', T)]), ('стали', [('стать', T)])]
P.estimate_conditional_tag_probability(m, 'x')
assert FDS['стали'].N() == 2, FDS
'''),
dict(id='c26-bigfreq', prop='C26', edits=[(PROB, 'if fd.freqdist().N() >= min_word_freq]', 'if fd.freqdist().N() > min_word_freq or min_word_freq < 2]')],
     needs='a word exactly as frequent as required, with a minimum of two or more', breaks='it is left out', demo=FAKE + '''
WORDS += [('стали', [('стать', T)])] * 3
cpd, cfd = P.estimate_conditional_tag_probability(m, 'x')
calls = []
P.ConditionalProbDistDAWG = lambda data: calls.extend(data)
P.build_cpd_dawg(m, cpd, 3)
assert calls
'''),
dict(id='c28-nohyph', prop='C28', edits=[('shapes.py', "    if '-' in example:\n", "    if '-' in example and '-' in word:\n")],
     needs='a word without hyphen and an example whose parts have different case', breaks='the case of the first part is not used', demo='''
from pymorphy2.shapes import restore_capitalization as f
assert f('foo', 'Baz-BAR') == 'Foo', f('foo', 'Baz-BAR')
'''),
dict(id='c29-globalcache', prop='C29', edits=[('cli.py', "        _parse = memoized_with_single_argument({})(_parse)\n", "        _parse = memoized_with_single_argument(_CACHE)(_parse)\n"), ('cli.py', "logger = logging.getLogger('pymorphy2')\n", "logger = logging.getLogger('pymorphy2')\n_CACHE = {}\n")],
     needs='two runs with unlimited cache and different options in one process', breaks='the second prints what the first selected', demo='''
import io
from pymorphy2 import cli
m = pymorphy2.MorphAnalyzer()
def run(**kw):
    out = io.StringIO()
    cli.parse(m, ['кот\\n'], out, True, newlines=True, cache_size='unlim', thresh=0.0, **kw)
    return out.getvalue()
a = run(score=True, normal_form=True, tag=True)
b = run(score=False, normal_form=True, tag=False)
assert b == 'кот{кот}\\n', b
'''),
dict(id='c29-tagthresh', prop='C29', edits=[('cli.py', "        if not normal_form and not score and not thresh:\n", "        if not normal_form and not score and not thresh >= 0.05:\n")],
     needs='tags only with a small threshold', breaks='tags below the threshold are printed', demo='''
import io
from pymorphy2 import cli
m = pymorphy2.MorphAnalyzer()
for w in ['стали', 'все', 'о', 'так']:
    for t in [0.01, 0.001, 0.04]:
        out = io.StringIO()
        cli.parse(m, [w], out, True, score=False, normal_form=False, tag=True, newlines=True, cache_size=0, thresh=t)
        assert out.getvalue() == '%s{%s}\\n' % (w, '|'.join(str(p.tag) for p in m.parse(w) if p.score >= t)), out.getvalue()
'''),
dict(id='c30-whole', prop='C30', edits=[('dawg.py', "        return bool(self.prefixes(word))\n", "        return any(len(p) < len(word) for p in self.prefixes(word))\n")],
     needs='a word which is a listed prefix as a whole, compiled library', breaks='the compiled matcher says it is not prefixed', demo='''
from pymorphy2.dawg import DawgPrefixMatcher, PythonPrefixMatcher
for w in ['по', 'пол', 'п', 'псевдо', '']:
    a = PythonPrefixMatcher(['по', 'псевдо']).is_prefixed(w)
    assert DawgPrefixMatcher(['по', 'псевдо']).is_prefixed(w) == a, w
''', py='fast', python='/opt/venv/bin/python'),
dict(id='c30-case', prop='C30', edits=[('dawg.py', "        return [pref for pref in self._prefixes if word.startswith(pref)]\n", "        res = []\n        for pref in self._prefixes:\n            if word.startswith(pref) and not (res and res[-1].startswith(pref)):\n                res.append(pref)\n        return res\n")],
     needs='the pure-Python matcher with a list in which a longer prefix comes right before a shorter one', breaks='the shorter prefix is not found', demo='''
from pymorphy2.dawg import PythonPrefixMatcher
assert sorted(PythonPrefixMatcher(['анти-', 'анти', 'ан']).prefixes('анти-кот')) == ['ан', 'анти', 'анти-']
'''),
dict(id='c31-lower', prop='C31', edits=[('analyzer.py', "            word = word.lower(),\n", "            word = word if word.islower() else word.lower().strip(),\n")],
     needs='asking about a word with spaces and capitals', breaks='it is reported known', demo=M + '''
assert not m.word_is_known('Кот ') and not m.word_is_known('кот ')
'''),
dict(id='c31-endkey', prop='C31', edits=[(WRAP, "        for word, (para_id, idx) in self.words.iteritems(prefix):\n", "        if prefix and not self.words.keys(prefix)[1:]:\n            return\n        for word, (para_id, idx) in self.words.iteritems(prefix):\n")],
     needs='a prefix with a single dictionary entry', breaks='nothing is yielded', demo=M + '''
n = 0
import itertools
for p in itertools.islice(m.iter_known_word_parses('ё'), 3000):
    assert p.word in [q.word for q in m.iter_known_word_parses(p.word)], p
'''),
dict(id='c32-first', prop='C32', edits=[(PREP, "return tag_str.replace('loc1', 'loct').replace('gen1', 'gent').replace('acc1', 'accs')", "return tag_str.replace(',loc1', ',loct').replace(',gen1', ',gent').replace(',acc1', ',accs')")],
     needs='an outdated case name as the first form grammeme', breaks='it is kept', toy=True, demo='''
p = toy.compile([(1, 'NOUN,masc', [('кот', 'nomn,sing'), ('кота', 'gen1,sing'), ('коте', 'loc1,sing')])])
m = pymorphy2.MorphAnalyzer(path=p)
assert m.parse('кота')[0].tag.case == 'gent', m.parse('кота')
'''),
dict(id='c32-merge', prop='C32', edits=[(PREP, "            for tag, count in items[1:]:\n", "            for tag, count in items[1:2]:\n")],
     needs='three spellings of the same grammemes', breaks='the third one is not merged', toy=True, demo='''
L = [(1, 'NOUN', [('а', 'masc,sing,nomn'), ('б', 'masc,sing,nomn'), ('в', 'sing,masc,nomn'), ('г', 'nomn,sing,masc')])]
p = toy.compile(L)
m = pymorphy2.MorphAnalyzer(path=p)
assert len(set(str(x.tag) for x in m.iter_known_word_parses())) == 1
'''),
]
