# -*- coding: utf-8 -*-
M = 'm = pymorphy2.MorphAnalyzer()\n'
LOOK, ANAL, HYPH, SHAPE, ABBR = 'units/by_lookup.py', 'units/by_analogy.py', 'units/by_hyphen.py', 'units/by_shape.py', 'units/abbreviations.py'
COMP, PREP, PARS, STOR, PROB, WRAP = ['opencorpora_dict/%s.py' % x for x in ('compile', 'preprocess', 'parse', 'storage', 'probability', 'wrapper')]

SEEDS = [
dict(id='c06-fixedword', prop='C06', edits=[('analyzer.py', "probs = [self.p_t_given_w.prob(word_lower, tag)\n", "probs = [self.p_t_given_w.prob(word, tag)\n")],
     needs='a word which is ambiguous between е and ё, with recorded probabilities', breaks='probabilities of the respelled readings are lost', demo=M + '''
n = 0
for w in ['все', 'еще', 'узнаем', 'осел', 'чем', 'нем', 'небо', 'берет', 'ее', 'моем', 'самолет', 'слез', 'мел', 'лет', 'дома', 'черта', 'всем']:
    ps = m.parse(w)
    rec = [m.prob_estimator.p_t_given_w.prob(w, p.tag) for p in ps]
    if sum(rec):
        n += 1
        assert [p.score for p in ps] == rec, (w, rec, ps)
assert n
'''),
dict(id='c09-big', prop='C09', edits=[('tagset.py', '''        if (num % 10 == 1) and (num % 100 != 11):
            index = 0
''', '''        num = int('%d' % float(num)) if num > 9999 else num
        if (num % 10 == 1) and (num % 100 != 11):
            index = 0
''')], needs='integers above 2**53', breaks='large numbers are rounded', demo=M + '''
p = m.parse('кошка')[0]
assert p.make_agree_with_number(10 ** 17 + 1).word == 'кошка'
assert p.make_agree_with_number(2 ** 53 + 9).word == 'кошка' if (2**53+9) % 10 == 1 else True
'''),
dict(id='c19-shared', prop='C19', edits=[(ANAL, '''        total_counts = [1] * len(self._paradigm_prefixes)
''', '''        total_counts = self._total_counts
        total_counts[:] = [1] * len(total_counts)
'''), (ANAL, '''        self.fake_dict = self.FakeDictionary()
''', '''        self._total_counts = [1] * len(self._paradigm_prefixes)
        self.fake_dict = self.FakeDictionary()
''')], needs='two threads predicting words by ending at once', breaks='scores and endings of concurrent predictions mix', demo='''
import threading, sys
unit_cls = pymorphy2.units.KnownSuffixAnalyzer
m = pymorphy2.MorphAnalyzer(probability_estimator_cls=None)
u = [x for x, _ in m._units if isinstance(x, unit_cls)][0]
alone = {w: [(p.word, str(p.tag), p.score) for p in m.parse(w)] for w in ['кузявлась', 'бутявкой', 'ъщхрямзали']}
# deterministic overlap: another prediction runs in the middle of this one (at a tag lookup)
orig = m.dictionary.build_tag_info
state = {'n': 0}
def hook(para_id, idx):
    state['n'] += 1
    if state['n'] == 3:
        t = threading.Thread(target=lambda: m.parse('бутявкой')); t.start(); t.join()
    return orig(para_id, idx)
for w in alone:
    state['n'] = 0
    m.dictionary.build_tag_info = hook
    got = [(p.word, str(p.tag), p.score) for p in m.parse(w)]
    m.dictionary.build_tag_info = orig
    assert got == alone[w], (w, got, alone[w])
'''),
dict(id='c19-grammemes', prop='C19', edits=[('tagset.py', '''            cyr_grammemes = [self._LAT2CYR[g] for g in self._grammemes_tuple]
            self._cyr_grammemes_cache = frozenset(cyr_grammemes)
''', '''            self._cyr_grammemes_cache = set()
            for g in self._grammemes_tuple:
                self._cyr_grammemes_cache.add(self._LAT2CYR[g])
''')], needs='two threads asking the Cyrillic grammemes of a tag for the first time', breaks='the second thread sees a half-filled set', demo=M + '''
import threading
t = m.parse('стол')[0].tag
full = set(m.TagClass._LAT2CYR[g] for g in t._grammemes_tuple)
got = []
class D(dict):
    def __getitem__(self, k):
        if not got:
            got.append(None)
            th = threading.Thread(target=lambda: got.append(set(t.grammemes_cyr))); th.start(); th.join()
        return dict.__getitem__(self, k)
cls = m.TagClass
old = cls._LAT2CYR
cls._LAT2CYR = D(old)
try:
    t.grammemes_cyr
finally:
    cls._LAT2CYR = old
assert got[1:] == [full], got
'''),
dict(id='c20-flatunits', prop='C20', edits=[('analyzer.py', '''        self._units_unbound = units_unbound
        self._units = []
        for item in units_unbound:
            if isinstance(item, (list, tuple)):
''', '''        self._units_unbound = []
        self._units = []
        for item in units_unbound:
            self._units_unbound.extend(item if isinstance(item, (list, tuple)) else [item])
            if isinstance(item, (list, tuple)):
''')], needs='pickling an analyzer whose unit groups give several results together', breaks='grouping of units is lost in copies', demo=M + '''
import pickle
m2 = pickle.loads(pickle.dumps(m, 2))
for w in ['IV', 'ъщкошка', 'XII', 'А', 'бутявкой', 'псевдокошка']:
    f = lambda a: [(p.word, str(p.tag), p.score) for p in a.parse(w)]
    assert f(m) == f(m2), w
'''),
dict(id='c21-tuplegroup', prop='C21', edits=[('analyzer.py', '''                for unit in item[:-1]:
                    self._units.append((self._bound_unit(unit), False))
                self._units.append((self._bound_unit(item[-1]), True))
''', '''                for unit in item:
                    self._units.append((self._bound_unit(unit), unit == item[-1]))
''')], needs='a group which has the same unit object twice', breaks='the first occurrence ends the group', demo='''
import pymorphy2.units as u
d = u.LatinAnalyzer()
m = pymorphy2.MorphAnalyzer(units=[[d, u.RomanNumberAnalyzer(), d], u.UnknAnalyzer()], probability_estimator_cls=None)
assert sorted(str(t) for t in m.tag('IV')) == ['LATN', 'LATN', 'ROMN'], m.tag('IV')
'''),
dict(id='c22-onelevel', prop='C22', edits=[(COMP, '''        while to_id in moves:
            to_id = moves[to_id]
''', '''        if to_id in moves:
            to_id = moves[to_id]
''')], needs='a chain of three links given from the outside in', breaks='forms are moved into an already emptied lexeme', toy=True, demo='''
L = [(i, 'NOUN,inan,masc', [(w, 'sing,nomn')]) for i, w in enumerate(['аба', 'абб', 'абв', 'абг'], 1)]
p = toy.compile(L, [('3', '4', '3'), ('2', '3', '3'), ('1', '2', '3')])
m = pymorphy2.MorphAnalyzer(path=p)
import itertools
for n, perm in enumerate(itertools.permutations([('3', '4', '3'), ('2', '3', '3'), ('1', '2', '3')])):
    m = pymorphy2.MorphAnalyzer(path=toy.compile(L, perm, name='d%d' % n))
    assert m.word_is_known('абг') and m.parse('абг')[0].normal_form == 'аба', perm
p = toy.compile(L + [(5, 'NOUN,inan,masc', [('абд', 'sing,nomn')])], [('1', '2', '3'), ('3', '1', '3'), ('4', '3', '3'), ('2', '5', '3')], name='z')
m = pymorphy2.MorphAnalyzer(path=p)
assert m.word_is_known('абд') and m.parse('абд')[0].normal_form == 'абг'
'''),
dict(id='c22-nobase', prop='C22', edits=[(PARS, 'if not (base_grammemes + grammemes):', 'if not base_grammemes:')],
     needs='a lexeme whose grammemes are all given with the forms', breaks='the lexeme is dropped', toy=True, demo='''
p = toy.compile([(1, '', [('дом', 'NOUN,sing')]), (2, 'NOUN', [('кот', 'sing')])])
m = pymorphy2.MorphAnalyzer(path=p)
assert m.word_is_known('дом') and m.word_is_known('кот')
'''),
dict(id='c23-ties', prop='C23', edits=[(COMP, '''            common_form_counts = largest_elements(
                iterable=endings[ending][POS].items(),
                key=_pick_second_item,
                n=1,
            )
''', '''            common_form_counts = [max(endings[ending][POS].items(), key=_pick_second_item)]
''')], needs='two patterns equally frequent for an ending and part of speech', breaks='only one of them is kept', toy=True, demo='''
p = toy.compile([toy.noun(1, 'кот', [('ик', 'sing,nomn'), ('а', 'sing,gent')]), toy.noun(2, 'бот', [('ик', 'sing,nomn'), ('у', 'sing,datv')])])
m = pymorphy2.MorphAnalyzer(path=p)
paras = set(x.methods_stack[0][2:] for x in m.parse('ъщътик'))
assert len(paras) == 2, paras
'''),
dict(id='c23-popul', prop='C23', edits=[(COMP, 'if count >= threshold)', 'if count > threshold)')],
     needs='a pattern exactly as popular as required', breaks='the pattern is not used for prediction', toy=True, demo='''
p = toy.compile([toy.noun(i, s, [('ик', 'sing,nomn'), ('а', 'sing,gent')]) for i, s in enumerate(['кот', 'бот'], 1)], min_paradigm_popularity=2)
m = pymorphy2.MorphAnalyzer(path=p)
assert str(m.parse('ъщътик')[0].tag) == 'NOUN,inan,masc sing,nomn'
'''),
dict(id='c24-order', prop='C24', edits=[(STOR, '''    json_write(_f('suffixes.json'), compiled_dict.suffixes)
    compiled_dict.words_dawg.save(_f('words.dawg'))
''', '''    compiled_dict.words_dawg.save(_f('words.dawg'))
'''), (STOR, '''        ['prediction_suffixes_dawg_lengths', prediction_suffixes_dawg_lenghts],
    ])
''', '''        ['prediction_suffixes_dawg_lengths', prediction_suffixes_dawg_lenghts],
    ])
    json_write(_f('suffixes.json'), compiled_dict.suffixes)
''')], needs='an interruption of an overwriting save just before its last file', breaks='metadata and words of the new dictionary load with the endings of the old one', toy=True, demo='''
from pymorphy2.opencorpora_dict import storage
a = [toy.noun(1, 'кот', [('ик', 'sing,nomn'), ('а', 'sing,gent')])]
b = [toy.noun(1, 'бот', [('ищ', 'sing,nomn'), ('у', 'sing,gent')])]
ans = lambda path: [[(p.word, str(p.tag), p.normal_form) for p in pymorphy2.MorphAnalyzer(path=path).parse(w)] for w in ['котик', 'кота', 'ботищ', 'боту']]
old, new = ans(toy.compile(a, name='a')), ans(toy.compile(b, name='b'))
orig = storage.json_write
for stop in range(1, 9):
    path = toy.compile(a, name='x')
    n = [0]
    def jw(fn, *args, **kw):
        n[0] += 1
        if n[0] == stop:
            raise KeyboardInterrupt
        return orig(fn, *args, **kw)
    storage.json_write = jw
    try:
        toy.compile(b, name='x')
    except KeyboardInterrupt:
        pass
    finally:
        storage.json_write = orig
    try:
        got = ans(path)
    except Exception:
        continue
    assert got in (old, new), (stop, got)
'''),
dict(id='c24-mkdir', prop='C24', edits=[(COMP, '''    except OSError:
        if overwrite:
''', '''    except OSError:
        if overwrite or not os.path.exists(os.path.join(out_path, 'meta.json')):
''')], needs='an existing folder which holds something else than a complete dictionary', breaks='files are written to a folder although overwriting was not requested', toy=True, demo='''
d = os.path.join(toy.TMP, 'mine'); os.mkdir(d)
with open(os.path.join(d, 'words.dawg'), 'w') as f: f.write('precious')
toy.compile([toy.noun(1, 'кот', [('ик', 'sing,nomn'), ('а', 'sing,gent')])], name='mine', overwrite=False)
assert os.listdir(d) == ['words.dawg'] and open(os.path.join(d, 'words.dawg')).read() == 'precious'
'''),
dict(id='c25-older', prop='C25', edits=[(STOR, 'if major != curr_major:', 'if float(format_version) > float(CURRENT_FORMAT_VERSION) + 1 or major == "0":')],
     needs='a dictionary of major version 1 or 3', breaks='dictionaries of another major version are accepted', toy=True, demo='''
import json
p = toy.compile([toy.noun(1, 'кот', [('ик', 'sing,nomn'), ('а', 'sing,gent')])])
fn = os.path.join(p, 'meta.json')
meta = json.load(open(fn, encoding='utf8'))
for v, ok in [('2.4', 1), ('2.9', 1), ('1.4', 0), ('3.0', 0), ('10.0', 0)]:
    with open(fn, 'w', encoding='utf8') as f: json.dump([[k, v if k == 'format_version' else x] for k, x in meta], f)
    try:
        pymorphy2.MorphAnalyzer(path=p)
        assert ok, v
    except ValueError:
        assert not ok, v
'''),
dict(id='c27-nbsp', prop='C27', edits=[('tokenizers.py', 'if t and not t.isspace()]', "if t not in ('', ' ', '\\n', '\\t', '\\r')]")],
     needs='unusual whitespace: no-break space, vertical tab, line separator', breaks='whitespace is returned as a token', demo='''
from pymorphy2.tokenizers import simple_word_tokenize as t
assert t('a\\u00a0b\\u2003c\\x0bd') == ['a', 'b', 'c', 'd']
'''),
dict(id='c28-single', prop='C28', edits=[('shapes.py', '''    elif example.isupper():
        return word.upper()
    elif example.istitle():
        return word.title()
''', '''    elif example.istitle():
        return word.title()
    elif example.isupper():
        return word.upper()
''')], needs='an example (or part) with a single capital letter', breaks='a single capital letter counts as title case', demo='''
from pymorphy2.shapes import restore_capitalization as r
assert r('ab-cd', 'X-y') == 'AB-cd' and r('ab', 'X') == 'AB' and r('ab', '1X') == 'AB'
'''),
dict(id='c29-lower', prop='C29', edits=[('cli.py', '''        lemmas[p.normal_form] = lemmas.get(p.normal_form, 0) + p.score
''', '''        lemmas[p.normal_form] = max(lemmas.get(p.normal_form, 0), p.score)
''')] if False else [('cli.py', "                    for p in morph_parse(tok):\n                        lemmas[p.normal_form] = lemmas.get(p.normal_form, 0) + p.score\n",
      "                    for p in morph_parse(tok):\n                        if p.score < thresh:\n                            continue\n                        lemmas[p.normal_form] = lemmas.get(p.normal_form, 0) + p.score\n")],
     needs='lemma-only output with a threshold between the scores of single parses and their sum', breaks='parses below the threshold do not count', demo=M + '''
import io
from pymorphy2 import cli
out = io.StringIO()
cli.parse(m, io.StringIO('стали\\n'), out, False, True, True, False, True, 0, 0.55)
s = {}
for p in m.parse('стали'): s[p.normal_form] = s.get(p.normal_form, 0) + p.score
want = '|'.join('%s:%0.3f' % x for x in sorted(((k, v) for k, v in s.items() if v >= 0.55), key=lambda x: -x[1]))
for th in [0.01, 0.05, 0.1, 0.2, 0.25, 0.3, 0.34, 0.4, 0.5, 0.55, 0.6, 0.7]:
    for w in ['стали', 'красивой', 'стола', 'кошки', 'хорошие']:
        s = {}
        for p in m.parse(w): s[p.normal_form] = s.get(p.normal_form, 0) + p.score
        out = io.StringIO()
        cli.parse(m, io.StringIO(w), out, False, True, True, False, True, 0, th)
        got = out.getvalue().strip()[len(w) + 1:-1]
        assert sorted(filter(None, got.split('|'))) == sorted('%s:%0.3f' % x for x in s.items() if x[1] >= th), (w, th, got)
'''),
dict(id='c29-split', prop='C29', edits=[('cli.py', 'return (line for line in (line.strip() for line in fp) if line)', 'return (tok for line in fp for tok in line.split())')],
     needs='input lines with a space inside (already tokenized text)', breaks='lines are split into several tokens', demo=M + '''
import io
from pymorphy2 import cli
out = io.StringIO()
cli.parse(m, io.StringIO('. . .\\nдом кот\\n'), out, False, False, True, False, True, 0, 0)
assert out.getvalue().count('\\n') == 2, out.getvalue()
'''),
dict(id='c31-homonym', prop='C31', edits=[(WRAP, '''        for word, (para_id, idx) in self.words.iteritems(prefix):
            tag = self.build_tag_info(para_id, idx)
''', '''        last = None
        for word, (para_id, idx) in self.words.iteritems(prefix):
            if (word, idx) == last:
                continue
            last = word, idx
            tag = self.build_tag_info(para_id, idx)
''')], needs='homonymous words with equal form index in different patterns', breaks='entries are skipped', demo=M + '''
import collections
got = collections.Counter(p.word for p in m.iter_known_word_parses('высоко'))
for w in list(got)[:3000]:
    want = len(m.dictionary.words.get(w, []))
    assert got[w] == want, (w, got[w], want)
'''),
dict(id='c31-normform', prop='C31', edits=[('analyzer.py', 'methods = ((self._units[0][0], word, para_id, idx),)\n            parse = (word, tag', 'methods = ((self._units[0][0], word, para_id, 0),)\n            parse = (word, tag')],
     needs='inflecting or normalising a parse from the iterator', breaks='lexemes of iterated parses are wrong', demo=M + '''
for i, p in enumerate(m.iter_known_word_parses('стал')):
    assert p in [q for q in p.lexeme] or (p.word, p.tag) in [(q.word, q.tag) for q in p.lexeme], p
    if i > 500: break
'''),
dict(id='c32-least', prop='C32', edits=[(PREP, 'items = sorted(tags.items(), key=lambda it: it[1], reverse=True)', 'items = sorted(tags.items(), reverse=True, key=lambda it: (len(it[0]), it[1]))')],
     needs='spellings of different length (with and without a space position shift cannot differ; with redundant grammemes they can)', breaks='nothing', demo='pass'),
dict(id='c32-count', prop='C32', edits=[(PREP, '        spellings[tag2grammemes(tag)][tag] += 1\n', '        spellings[tag2grammemes(tag)][tag] = 1\n')],
     needs='two spellings, the more frequent of which appears later', breaks='the first spelling wins', toy=True, demo='''
p = toy.compile([(1, 'NOUN,inan,masc', [('аб', 'sing,nomn')]), (2, 'NOUN,masc,inan', [('вг', 'sing,nomn')]), (3, 'NOUN,masc,inan', [('де', 'sing,nomn')])])
m = pymorphy2.MorphAnalyzer(path=p)
assert set(str(m.parse(w)[0].tag) for w in ['аб', 'вг', 'де']) == {'NOUN,masc,inan sing,nomn'}
p = toy.compile([(1, 'NOUN,masc,inan', [('аб', 'sing,nomn')]), (2, 'NOUN,inan,masc', [('вг', 'sing,nomn')]), (3, 'NOUN,inan,masc', [('де', 'sing,nomn')])], name='e')
m = pymorphy2.MorphAnalyzer(path=p)
assert set(str(m.parse(w)[0].tag) for w in ['аб', 'вг', 'де']) == {'NOUN,inan,masc sing,nomn'}
'''),
dict(id='c26-bins', prop='C26', edits=[(PROB, 'bins = max(len(morph.tag(condition)), fd.B())', 'bins = fd.B()')],
     needs='a word for which the corpus has only some of its tags', breaks='smoothing does not count unobserved tags', demo='pass'),
]
SEEDS = [s for s in SEEDS if s['demo'] != 'pass']
