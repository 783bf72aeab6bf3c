# -*- coding: utf-8 -*-
M = 'm = pymorphy2.MorphAnalyzer()\n'
LOOK, ANAL, HYPH, SHAPE, ABBR = 'units/by_lookup.py', 'units/by_analogy.py', 'units/by_hyphen.py', 'units/by_shape.py', 'units/abbreviations.py'
COMP, PREP, PARS, STOR, PROB, WRAP = ['opencorpora_dict/%s.py' % x for x in ('compile', 'preprocess', 'parse', 'storage', 'probability', 'wrapper')]

SEEDS = [
dict(id='c20-nosubs', prop='C20', edits=[('analyzer.py', '''                self._probability_estimator_cls, self._char_substitutes)
''', '''                self._probability_estimator_cls, self._char_substitutes or auto)
''')], needs='an analyzer created with char_substitutes=None or {}, pickled', breaks='the copy replaces letters', demo='''
import pickle
m = pymorphy2.MorphAnalyzer(char_substitutes=None)
m2 = pickle.loads(pickle.dumps(m, 2))
assert m2.word_is_known('ежик') == m.word_is_known('ежик')
'''),
dict(id='c27-bom', prop='C27', edits=[('tokenizers.py', "    return [t for t in _split(text) if t and not t.isspace()]\n", "    return [t for t in _split(text) if t.strip('\\ufeff\\u200b') and not t.isspace()]\n")],
     needs='a zero-width space or a byte order mark in the text', breaks='tokens are lost', demo='''
from pymorphy2.tokenizers import simple_word_tokenize as t
assert ''.join(t('\\ufeffмама мыла\\u200bраму')) == '\\ufeffмамамыла\\u200bраму'
'''),
dict(id='c29-lemmathresh', prop='C29', edits=[('cli.py', '''                    for p in morph_parse(tok):
                        lemmas[p.normal_form] = lemmas.get(p.normal_form, 0) + p.score

                    items = sorted(
                        [(lemma, w) for (lemma, w) in lemmas.items() if w >= thresh],
''', '''                    for p in morph_parse(tok):
                        if p.score >= thresh:
                            lemmas[p.normal_form] = lemmas.get(p.normal_form, 0) + p.score

                    items = sorted(
                        lemmas.items(),
''')], needs='parse -l with a threshold between the score of a parse and the sum of its lemma', breaks='the score of the lemma is too small or the lemma is missing', demo='''
import io
from pymorphy2 import cli
m = pymorphy2.MorphAnalyzer()
out = io.StringIO()
cli.parse(m, io.StringIO('мыла\\n'), out, True, True, True, False, True, '0', 0.3)
d = {}
for p in m.parse('мыла'):
    d[p.normal_form] = d.get(p.normal_form, 0) + p.score
want = sorted([(w, k) for k, w in d.items() if w >= 0.3], reverse=True)
assert out.getvalue() == 'мыла{%s}\\n' % '|'.join('%s:%0.3f' % (k, w) for w, k in want), out.getvalue()
'''),
dict(id='c28-nocase', prop='C28', edits=[('shapes.py', "    elif example.isupper():\n        return word.upper()\n", "    elif example == example.upper():\n        return word.upper()\n")],
     needs='an example (or a part of it) without letters', breaks='the word is upper-cased after a number', demo='''
from pymorphy2.shapes import restore_capitalization as r
assert r('foo-bar', '12-Bar') == 'foo-Bar' and r('раз', '1') == 'раз'
'''),
dict(id='c25-paths', prop='C25', edits=[('analyzer.py', '''    paths = dict(
        (pkg.name, pkg.load().get_path())
        for pkg in _iter_entry_points('pymorphy2_dicts')
    )
''', '''    paths = _lang_dict_paths.__dict__.setdefault('paths', {})
    if not paths:
        paths.update(
            (pkg.name, pkg.load().get_path())
            for pkg in _iter_entry_points('pymorphy2_dicts')
        )
''')], needs='a dictionary package installed after the first analyzer was created in the process', breaks='the new language is not found', demo='''
import tempfile, shutil
pymorphy2.MorphAnalyzer()
d = tempfile.mkdtemp()
try:
    os.makedirs(d + '/fakedict')
    with open(d + '/fakedict/__init__.py', 'w') as f:
        f.write('def get_path(): return "/nonexistent/fake"')
    i = d + '/fakedict-1.0.dist-info'
    os.makedirs(i)
    with open(i + '/METADATA', 'w') as f:
        f.write('Metadata-Version: 2.1\\nName: fakedict\\nVersion: 1.0\\n')
    with open(i + '/entry_points.txt', 'w') as f:
        f.write('[pymorphy2_dicts]\\nxx = fakedict\\n')
    with open(i + '/RECORD', 'w') as f:
        f.write('')
    sys.path.insert(0, d)
    assert pymorphy2.analyzer.lang_dict_path('xx') == '/nonexistent/fake'
finally:
    shutil.rmtree(d)
'''),
dict(id='c12-triple', prop='C12', edits=[(HYPH, "            unsuffixed_word = word[:-len(particle)]\n", "            unsuffixed_word = word.replace(particle, '')\n")],
     needs='a word with the particle twice (кто-то-то) or inside a longer part (как-товар-то)', breaks='the inner part is removed too', demo=M + '''
assert any(p.word == 'какой-тотем-то' and p.normal_form.startswith('какой-тотем') for p in m.parse('какой-тотем-то')), m.parse('какой-тотем-то')
'''),
dict(id='c18-tokens', prop='C29', edits=[('cli.py', '''    return (line for line in (line.strip() for line in fp) if line)
''', '''    prev = None
    for line in fp:
        line = line.strip()
        if line and line is not prev and (prev is None or line.lower() != prev):
            yield line
        prev = line
''')], needs='--tokenized input with a capitalised token right after the same token in lower case', breaks='the token is dropped', demo='''
import io
from pymorphy2 import cli
m = pymorphy2.MorphAnalyzer()
out = io.StringIO()
cli.parse(m, io.StringIO('мир\\nМир\\n'), out, False, False, True, False, True, '0', 0)
assert len(out.getvalue().splitlines()) == 2
'''),
dict(id='c18-depth', prop='C18', edits=[(HYPH, """        left, right = word_lower.split('-', 1)
        left_parses = self.morph.parse(left)
        right_parses = self.morph.parse(right)
""", """        left, right = word_lower.split('-', 1)
        self._nesting = getattr(self, '_nesting', 0) + 1
        if self._nesting > 20:  # don't recurse forever
            return []
        left_parses = self.morph.parse(left)
        right_parses = self.morph.parse(right)
        self._nesting -= 1
""")], needs='questions about words with hyphens which were interrupted (KeyboardInterrupt, timeout) 20 times', breaks='words with hyphens are not split any more', demo=M + """
class Interrupt(BaseException): pass
want = [str(t) for t in m.tag('человек-гора')], [(p.word, str(p.tag)) for p in m.parse('человек-гора')]
orig = m.dictionary.words.similar_items
cls = type(m.dictionary.words)
good = cls.similar_items
def stop(self, w, *a):
    if w == 'гора':
        raise Interrupt()
    return good(self, w, *a)
for k in range(30):
    cls.similar_items = stop
    try:
        m.parse('человек-гора')
    except Interrupt:
        pass
    finally:
        cls.similar_items = good
assert [(p.word, str(p.tag)) for p in m.parse('человек-гора')] == want[1]
"""),
]
