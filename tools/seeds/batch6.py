# -*- coding: utf-8 -*-
M = 'm = pymorphy2.MorphAnalyzer()\n'
LOOK, ANAL, HYPH, SHAPE, ABBR = 'units/by_lookup.py', 'units/by_analogy.py', 'units/by_hyphen.py', 'units/by_shape.py', 'units/abbreviations.py'
COMP, PREP, PARS, STOR, PROB, WRAP = ['opencorpora_dict/%s.py' % x for x in ('compile', 'preprocess', 'parse', 'storage', 'probability', 'wrapper')]
# answers of CPython processes with different hash seeds (sets have a fixed order in PyPy)
CP = '''
import subprocess
PRE = """
import sys, glob, os, inspect
inspect.getargspec = lambda f: tuple(inspect.getfullargspec(f)[:4])
sys.path[:0] = [os.getcwd()]
sys.path += glob.glob('/opt/venv-slow/lib/*/site-packages')
import pymorphy2
"""
def answers(code, n=8):
    return set(subprocess.check_output(['/usr/bin/python3', '-B', '-W', 'ignore', '-c', PRE + code], env=dict(
        os.environ, PYTHONHASHSEED=str(s), PYTHONUTF8='1')).decode('utf8') for s in range(n))
'''

SEEDS = [
dict(id='c33-normal', prop='C33', edits=[('analyzer.py', '''        seen = set()
        result = []

        for p in self.parse(word):
            normal_form = p[2]
            if normal_form not in seen:
                result.append(normal_form)
                seen.add(normal_form)
        return result
''', '''        return list(set(p[2] for p in self.parse(word)))
''')], needs='an interpreter with another hash seed, a word with several normal forms', breaks='the normal forms come in a random order', demo=CP + '''
assert len(answers("m = pymorphy2.MorphAnalyzer(); print(m.normal_forms('стали'), m.normal_forms('рою'), m.normal_forms('мыла'))")) == 1
'''),
dict(id='c33-suffixes', prop='C33', edits=[(COMP, "    suffixes = sorted(set(list(itertools.chain(*forms))))\n", "    suffixes = list(set(itertools.chain(*forms)))\n")],
     needs='an interpreter with another hash seed', breaks='the compiled dictionary differs from run to run', demo=CP + '''
assert len(answers("""
from pymorphy2.opencorpora_dict import compile as C
from pymorphy2.opencorpora_dict.parse import ParsedDictionary
class D: WordsDawg = PredictionSuffixesDAWG = staticmethod(list)
C.dawg = D
p = ParsedDictionary({'1': [('кот', 'NOUN sing,nomn'), ('кота', 'NOUN sing,gent'), ('коту', 'NOUN sing,datv'), ('котом', 'NOUN sing,ablt')]},
                     [], [], '1', '1')
print(list(C.compile_parsed_dict(p, {'paradigm_prefixes': ['']}).suffixes))
""")) == 1
'''),
dict(id='c33-toptag', prop='C33', edits=[(PREP, '''            items = sorted(tags.items(), key=lambda it: it[1], reverse=True)
            top_tag = items[0][0]
            for tag, count in items[1:]:
                replaces[tag] = top_tag
''', '''            top_tag = max(set(tags), key=lambda tag: tags[tag])
            for tag in tags:
                if tag != top_tag:
                    replaces[tag] = top_tag
''')], needs='an interpreter with another hash seed, two equally frequent spellings of a tag', breaks='a random spelling is kept', demo=CP + '''
assert len(answers("""
from pymorphy2.opencorpora_dict.preprocess import simplify_tags
from pymorphy2.opencorpora_dict.parse import ParsedDictionary
p = ParsedDictionary({'1': [('кот', 'NOUN masc,sing,nomn'), ('кит', 'NOUN sing,masc,nomn'), ('пёс', 'NOUN nomn,sing,masc')]}, [], [], '1', '1')
simplify_tags(p)
print(p.lexemes)
""")) == 1
'''),
dict(id='c33-inflect', prop='C33', edits=[('analyzer.py', "        return heapq.nlargest(1, possible_results, key=similarity)\n", "        return heapq.nlargest(1, set(possible_results), key=similarity)\n")],
     needs='an interpreter with another hash seed, several equally similar forms', breaks='a random one of them is returned', demo=CP + '''
assert len(answers("""
m = pymorphy2.MorphAnalyzer()
for w in ['красивый', 'сталь', 'кошкой', 'рука', 'хороший', 'длинный']:
    for g in ['COMP', 'ablt', 'plur', 'gent', 'loct', 'accs', 'sing']:
        print([x and (x.word, str(x.tag)) for x in (p.inflect({g}) for p in m.parse(w))])
""")) == 1
'''),
dict(id='c33-update', prop='C33', edits=[('tagset.py', '''        new_grammemes = self.grammemes | required
        for grammeme in required:
            if not self.grammeme_is_known(grammeme):
                raise ValueError("Unknown grammeme: %s" % grammeme)
            new_grammemes -= self._GRAMMEME_INCOMPATIBLE[grammeme]
        return new_grammemes
''', '''        new_grammemes = set(self.grammemes)
        for grammeme in required:
            if not self.grammeme_is_known(grammeme):
                raise ValueError("Unknown grammeme: %s" % grammeme)
            new_grammemes -= self._GRAMMEME_INCOMPATIBLE[grammeme]
            new_grammemes.add(grammeme)
        return new_grammemes
''')], needs='another hash seed; required grammemes which are incompatible with each other', breaks='the result depends on their order in the set', demo=CP + '''
assert len(answers("""
m = pymorphy2.MorphAnalyzer()
print([sorted(m.parse('кошка')[0].tag.updated_grammemes(set(g))) for g in (['sing', 'plur'], ['nomn', 'gent', 'datv'], ['masc', 'femn', 'neut'])])
""")) == 1
'''),

dict(id='c11-hash', prop='C11', edits=[(ANAL, '''    def tag(self, word, word_lower, seen_tags):
        # XXX: the result order may be different from
        # ``self.parse(...)``.

        result = []
        if len(word_lower) < self.min_word_length:
            return result
''', '''    def tag(self, word, word_lower, seen_tags):
        # XXX: the result order may be different from
        # ``self.parse(...)``.
        if len(word_lower) < self.min_word_length:
            return []
        if not hasattr(self, '_ends'):
            self._ends = {}
        key = hash(word_lower[-max(self._prediction_splits):]) & 0xffff, frozenset(seen_tags)
        if key not in self._ends:
            seen = set(seen_tags)
            tags = self._tag(word_lower, seen_tags)
            self._ends[key] = tags, seen_tags - seen
            return tags[:]
        tags, added = self._ends[key]
        seen_tags.update(added)
        return tags[:]

    def _tag(self, word_lower, seen_tags):
        result = []
'''),], needs='two words whose endings collide in a 16-bit hash (or which differ only in their paradigm prefix)', breaks='tag() of the second word answers for the first',
     demo=M + '''
ends, res = {}, 0
al = 'абвгдежзиклмнопрстуы'
import itertools
for e in itertools.product(al, repeat=4):
    e = 'щ' + ''.join(e)
    h = hash(e) & 0xffff
    if h in ends:
        a, b = 'ъъъ' + ends[h], 'ъъъ' + e
        want = set(p.tag for p in m.parse(b))
        m.tag(a)
        assert set(m.tag(b)) == want, (a, b)
        res += 1
        if res > 300: break
    ends.setdefault(h, e)
assert set(m.tag('ъъанный')) == set(p.tag for p in m.parse('ъъанный'))
'''),
dict(id='c21-longclass', prop='C21', edits=[(LOOK, '''        # tag known word
        result = []
        for parse in para_data:
''', '''        # tag known word
        if len(word_lower) > 14 and word_lower in self._long:
            return self._long[word_lower][:]
        result = []
        if len(word_lower) > 14:
            self._long[word_lower] = result
        for parse in para_data:
'''), (LOOK, "    def parse(self, word, word_lower, seen_parses):\n", "    _long = {}\n\n    def parse(self, word, word_lower, seen_parses):\n")],
     needs='two analyzers with different dictionaries or substitutions in one process, a long dictionary word', breaks='tag() of the second analyzer gives tags of the first', toy=True, demo='''
w = 'синхрофазотроны'
a = pymorphy2.MorphAnalyzer(path=toy.compile([toy.noun(1, w, [('', 'sing,nomn'), ('а', 'sing,gent')])], name='a'))
b = pymorphy2.MorphAnalyzer(path=toy.compile([toy.noun(1, w, [('', 'plur,nomn'), ('а', 'plur,gent')])], name='b'))
assert [str(t) for t in a.tag(w)] == [str(p.tag) for p in a.parse(w)]
assert [str(t) for t in b.tag(w)] == [str(p.tag) for p in b.parse(w)], b.tag(w)
'''),
dict(id='c29-percent', prop='C29', edits=[('cli.py', '''                    def _parse_token(tok):
                        seq = [
                            "%s:%s" % (p.normal_form, p.tag)
                            for p in morph_parse(tok) if p.score >= thresh
                        ]
                        return tpl % (tok, join(seq))
''', '''                    def _parse_token(tok):
                        seq = [
                            "%s:%s" % (p.normal_form, p.tag)
                            for p in morph_parse(tok) if p.score >= thresh
                        ]
                        tok_tpl = tpl.replace("%s", tok, 1)
                        return tok_tpl % join(seq)
''')], needs='-l -t for a token with a percent sign', breaks='the command fails or prints another token', demo='''
import io
from pymorphy2 import cli
sys.stdout, out = io.StringIO(), sys.stdout
sys.stdin = io.StringIO('100%s кот %\\n')
try:
    cli.main(['parse', '-l', '-t', '--tokenized'] if False else ['parse', '-l', '-t'])
    text = sys.stdout.getvalue()
finally:
    sys.stdout = out
assert [l.split('{')[0] for l in text.splitlines()] == ['100', '%', 's', 'кот', '%'], text
'''),
dict(id='c08-rarefirst', prop='C08', edits=[('analyzer.py', '''        grammemes = form[1].updated_grammemes(required_grammemes)
        def similarity(frm):
''', '''        grammemes = form[1].updated_grammemes(required_grammemes)
        if not required_grammemes & self.TagClass.CASES:
            grammemes = self.TagClass.fix_rare_cases(grammemes)
        def similarity(frm):
''')], needs='inflecting a form in a rare case (gen2, loc2, ...) by number or gender', breaks='the common case is preferred to the same rare case', toy=True, demo='''
L = [(1, 'NOUN,inan,masc', [('лес', 'sing,nomn'), ('лесу', 'sing,loc2'), ('лесе', 'sing,loct'), ('лесах', 'plur,loct'), ('лесаху', 'plur,loc2')])]
m = pymorphy2.MorphAnalyzer(path=toy.compile(L))
p = m.parse('лесу')[0]
assert p.inflect(set(['plur'])).word == 'лесаху'
assert p.inflect(set(['sing'])).word == 'лесу'
'''),
dict(id='c28-title', prop='C28', edits=[('shapes.py', '''    elif example.istitle():
        return word.title()
''', '''    elif example.istitle():
        return '-'.join(p[:1].upper() + p[1:].lower() for p in word.split('-'))
''')], needs='a word with an apostrophe or a digit inside and a title-case example', breaks='letters after it stay lower-case (the example\'s case is title-case)', demo='''
from pymorphy2.shapes import restore_capitalization as r
for w, e in [("o'neil", "D'Artagnan"), ("а1б", "Кот"), ("кот пёс", "Дом Лес"), ("a.b", "A.B-c")]:
    got = r(w, e)
    assert got.lower() == w.lower()
    if e.istitle(): assert got.istitle(), got
'''),
dict(id='c27-mark', prop='C27', edits=[('tokenizers.py', "    return [t for t in _split(text) if t and not t.isspace()]\n", "    return [t for t in _split(text) if t and t.isprintable() and not t.isspace()]\n")],
     needs='a control, format or private-use character in the text', breaks='it is lost', demo='''
from pymorphy2.tokenizers import simple_word_tokenize as t
for c in '\\u200b\\u00ad\\ufeff\\x07\\u200d':
    assert ''.join(t('кот' + c + 'дом')) == 'кот' + c + 'дом', repr(c)
'''),
dict(id='c12-femn', prop='C12', edits=[(HYPH, "        return any(set(['ADJF', 'sing', 'datv']) in tag for tag in tags)\n", "        return any(set(['ADJF', 'sing', 'datv']) in tag and tag.gender != 'femn' for tag in tags)\n")],
     needs='"по-" with a feminine dative adjective', breaks='the adverb reading is missing', demo=M + '''
assert any(str(p.tag) == 'ADVB' for p in m.parse('по-новой'))
'''),
dict(id='c20-gen', prop='C20', edits=[('analyzer.py', "        self._units_unbound = units_unbound\n", "        self._units_unbound = units_unbound if len(units_unbound) > 1 else None\n")],
     needs='an analyzer with a list of one unit, pickled', breaks='the restored analyzer uses the default units', demo='''
import pickle
from pymorphy2 import units
m = pymorphy2.MorphAnalyzer(units=[units.DictionaryAnalyzer()])
n = pickle.loads(pickle.dumps(m, 2))
assert m.parse('фыва') == [] == n.parse('фыва'), n.parse('фыва')
'''),
dict(id='c13-spaces', prop='C13', edits=[('shapes.py', "        all(unicodedata.category(ch)[0] == 'P' for ch in token if not ch.isspace())\n", "        all(unicodedata.category(ch)[0] in 'PZ' for ch in token if ch not in ' \\t')\n")],
     needs='punctuation with a newline or another control whitespace', breaks='it is not punctuation', demo=M + '''
assert 'PNCT' in m.parse(',\\n')[0].tag and 'PNCT' in m.parse('.\\x0b.')[0].tag
'''),
dict(id='c31-yo', prop='C31', edits=[(WRAP, '''        if substitutes_compiled:
            return bool(self.words.similar_keys(word, substitutes_compiled))
''', '''        if substitutes_compiled and len(word) < 24:
            return bool(self.words.similar_keys(word, substitutes_compiled))
''')], needs='a long word with е for ё', breaks='it is not reported known', toy=True, demo='''
w = 'сверхтрёхсотшестидесятиметровый'
m = pymorphy2.MorphAnalyzer(path=toy.compile([toy.noun(1, w, [('', 'sing,nomn'), ('а', 'sing,gent')])]))
assert m.word_is_known(w.replace('ё', 'е')) and m.word_is_known(w)
'''),
dict(id='c22-order', prop='C22', edits=[(COMP, "        lexemes[str(to_id)].extend(lm)\n", "        lexemes[str(to_id)].extend(f for f in lm if f not in lexemes[str(to_id)] or len(lm) < 3)\n")],
     needs='linked lexemes of three or more forms which share a form with the same tag', breaks='the shared form is recorded once instead of twice', toy=True, demo='''
L = [toy.noun(1, 'кот', [('', 'sing,nomn'), ('а', 'sing,gent')]), toy.noun(2, 'кот', [('', 'sing,nomn'), ('у', 'sing,datv'), ('ы', 'plur,nomn')])]
m = pymorphy2.MorphAnalyzer(path=toy.compile(L, [(1, 2, 1)]))
assert len(m.parse('коты')[0].lexeme) == 5, m.parse('коты')[0].lexeme
'''),
dict(id='c25-slash', prop='C25', edits=[('analyzer.py', "        if cls.DICT_PATH_ENV_VARIABLE in os.environ:\n            return", "        if cls.DICT_PATH_ENV_VARIABLE in os.environ and lang in (None, 'ru'):\n            return")],
     needs='the environment variable set and another language requested', breaks='the variable is ignored', toy=True, demo='''
p = toy.compile([toy.noun(1, 'кот', [('', 'sing,nomn'), ('а', 'sing,gent')])])
os.environ['PYMORPHY2_DICT_PATH'] = p
assert pymorphy2.MorphAnalyzer(lang='uk').dictionary.path == p
'''),
dict(id='c24-meta', prop='C24', edits=[(STOR, "    if os.path.exists(_f('meta.json')):\n        os.remove(_f('meta.json'))\n", "    if os.path.exists(_f('meta.json')):\n        os.rename(_f('meta.json'), _f('meta.json.old'))\n        if len(os.listdir(out_path)) < 4:\n            os.remove(_f('meta.json.old'))\n"),
                                       (STOR, "def load_dict(path, gramtab_format='opencorpora-int'):\n", "def load_dict(path, gramtab_format='opencorpora-int'):\n    if not os.path.exists(os.path.join(path, 'meta.json')) and os.path.exists(os.path.join(path, 'meta.json.old')):\n        os.rename(os.path.join(path, 'meta.json.old'), os.path.join(path, 'meta.json'))\n")],
     needs='overwriting a dictionary is interrupted', breaks='a mixture of the old and the new dictionary loads', toy=True, demo='''
import shutil
E = [('', 'sing,nomn'), ('а', 'sing,gent')]
p = toy.compile([toy.noun(1, 'кот', E)])
from pymorphy2.opencorpora_dict import storage
from pymorphy2 import opencorpora_dict
real, n = storage.json_write, [0]
def broken(fn, *a, **kw):
    n[0] += 1
    if n[0] == 4: raise KeyboardInterrupt()
    return real(fn, *a, **kw)
c = opencorpora_dict.load(p)
storage.json_write = broken
try:
    toy.compile([toy.noun(1, 'пёс', [('', 'plur,nomn'), ('я', 'plur,gent')])], overwrite=True)
except BaseException: pass
storage.json_write = real
try:
    m = pymorphy2.MorphAnalyzer(path=p)
except Exception:
    sys.exit(0)
assert [str(x.tag) for x in m.parse('кот')] == ['NOUN,inan,masc sing,nomn'], m.parse('кот')
'''),
]
