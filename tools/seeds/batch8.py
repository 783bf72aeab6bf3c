# -*- coding: utf-8 -*-
M = 'm = pymorphy2.MorphAnalyzer()\n'
CLI = '''
import io
from pymorphy2 import cli
m = pymorphy2.MorphAnalyzer()
def run(text, tokenize, score, lemmas, tag, thresh=0.0):
    out = io.StringIO()
    cli.parse(m, io.StringIO(text), out, tokenize, score, lemmas, tag, True, '0', thresh)
    return out.getvalue()
'''
COMP, PREP, PARS, STOR, PROB, WRAP = ['opencorpora_dict/%s.py' % x for x in ('compile', 'preprocess', 'parse', 'storage', 'probability', 'wrapper')]

SEEDS = [
dict(id='c29-comment', prop='C29', edits=[('cli.py', '(line.strip() for line in fp) if line)', '(line.strip() for line in fp)\n            if line and not line.startswith("#"))')],
     needs='tokenized input with a token which begins with #', breaks='the token is skipped', demo=CLI + '''
assert run('#мама\\nмыла\\n', False, False, True, False).startswith('#мама{')
'''),
dict(id='c29-column', prop='C29', edits=[('cli.py', '(line.strip() for line in fp)', '(line.split("\\t")[0].strip() for line in fp)')],
     needs='tokenized input with a token which contains a tab', breaks='only the beginning of the token is analysed', demo=CLI + '''
assert run('мама\\tмыла\\n', False, False, True, False).startswith('мама\\tмыла{')
'''),
dict(id='c29-tagset', prop='C29', edits=[('cli.py', 'join(str(t) for t in morph_tag(tok))', 'join(sorted(set(str(t) for t in morph_tag(tok))))')],
     needs='tags alone of a word with several tags', breaks='tags are not printed in the order of the library', demo=CLI + '''
for w in ['стали', 'мыла', 'и', 'кошку', 'бутявка', 'в', 'для']:
    assert run(w + '\\n', False, False, False, True) == w + '{' + '|'.join(str(t) for t in m.tag(w)) + '}\\n', w
'''),
dict(id='c32-rare', prop='C32', edits=[(PREP, '            for tag, count in items[1:]:\n', '            for tag, count in items[1:]:\n                if count * 100 < items[0][1]:\n                    continue\n')],
     needs='a spelling more than a hundred times as frequent as another', breaks='the rare spelling stays', demo='''
from pymorphy2.opencorpora_dict.preprocess import simplify_tags
from pymorphy2.opencorpora_dict.parse import ParsedDictionary
lex = dict((str(k), [('a%d' % k, 'NOUN,anim sing,nomn' if k else 'NOUN,anim nomn,sing')]) for k in range(150))
d = ParsedDictionary(lexemes=lex, links=[], grammemes=[], version='', revision='')
simplify_tags(d)
assert set(t for l in d.lexemes.values() for w, t in l) == set(['NOUN,anim sing,nomn']), d.lexemes['0']
'''),
]
SEEDS += [
dict(id='c06-absent', prop='C06', edits=[('analyzer.py', '        if sum(probs) == 0:\n', '        if not probs[0]:\n')],
     needs='a word whose first analysis has no recorded probability while others have', breaks='recorded probabilities are ignored', demo='''
from pymorphy2.analyzer import ProbabilityEstimator
class Est(ProbabilityEstimator):
    def __init__(self, path):
        super(Est, self).__init__(path)
        class P(object):
            def prob(self, word, tag):
                return 0.75 if word == u'стали' and 'NOUN' in tag and 'gent' in tag else 0
        self.p_t_given_w = P()
m = pymorphy2.MorphAnalyzer(probability_estimator_cls=Est)
r = m.parse(u'стали')
assert r[0].score == 0.75 and 'gent' in r[0].tag, r
'''),
]
