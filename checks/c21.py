# -*- coding: utf-8 -*-
"""
C21: constructor options change only what they are documented to change.

Explored on small dictionaries compiled with the real code:
* all lists of up to 3 units (13 units) with all groupings, against the reference
  model run with the same list;
* unit parameters, and the prefix, particle, letter lists and tag patterns given to units;
* the product of dictionary x language x units x probabilities x substitutes x
  result type, against the reference model and against each other;
* estimators of one's own (keeping, reordering, dropping, rescoring the results) on
  dictionaries with and without probabilities;
* all ordered pairs (and selected triples) of analyzers living in one process:
  each must answer as it does alone, whatever was created or asked before;
  dictionaries with richer and poorer grammeme tables are included;
* unit objects and lists used by several analyzers.
"""
import itertools
import os
import pickle
import subprocess
import sys
import warnings

import core
from core import shard
import ref as R
import refcfg
import toydict
import world as W

ID = 'C21'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of unit lists, option products and analyzer creation/use sequences, against an executable reference model'


def U():
    from pymorphy2 import units
    return units


LETTERS = refcfg.LANG['ru']['letters']
PREFIXES = ['су', 'псевдо', 'псе', 'не', 'по-', 'квази']
PARTICLES = ['-то', '-ка']


def unit(name, **kw):
    u = U()
    lst = kw.pop('list', {'hyphen': PREFIXES, 'known_prefix': PREFIXES, 'particle': PARTICLES}.get(name, LETTERS))
    return {
        'dict': lambda: u.DictionaryAnalyzer(),
        'first_name': lambda: u.AbbreviatedFirstNameAnalyzer(lst, **kw),
        'patronymic': lambda: u.AbbreviatedPatronymicAnalyzer(lst, **kw),
        'number': lambda: u.NumberAnalyzer(**kw),
        'punct': lambda: u.PunctuationAnalyzer(**kw),
        'roman': lambda: u.RomanNumberAnalyzer(**kw),
        'latin': lambda: u.LatinAnalyzer(**kw),
        'particle': lambda: u.HyphenSeparatedParticleAnalyzer(lst, **kw),
        'po_adverb': lambda: u.HyphenAdverbAnalyzer(**kw),
        'hyphen': lambda: u.HyphenatedWordsAnalyzer(lst, **kw),
        'known_prefix': lambda: u.KnownPrefixAnalyzer(lst, **kw),
        'unknown_prefix': lambda: u.UnknownPrefixAnalyzer(**kw),
        'known_suffix': lambda: u.KnownSuffixAnalyzer(**kw),
        'unkn': lambda: u.UnknAnalyzer(),
    }[name]()


NAMES = ['dict', 'first_name', 'patronymic', 'number', 'punct', 'roman', 'latin', 'particle', 'po_adverb', 'hyphen', 'known_prefix',
         'unknown_prefix', 'known_suffix']
WORDS = ['стали', 'еж', 'Ё', 'сукота', 'псевдокоту', 'шъкота', 'кота-то', 'кот-сталь', 'ab', 'IX', '12', '.', 'ъ%', 'по-новому',
         'несталью-ка', 'суновому']


def compositions(n):
    """ all ways of cutting a list of n into consecutive groups """
    for cuts in itertools.product([0, 1], repeat=n - 1):
        res, cur = [], 1
        for c in cuts:
            if c:
                res.append(cur)
                cur = 1
            else:
                cur += 1
        yield res + [cur]


def structures(names, sizes):
    """ (nested list of names) for every list of len(names) in groups of the given sizes """
    res, k = [], 0
    for s in sizes:
        res.append(list(names[k:k + s]))
        k += s
    return res


def build(struct, flavour=0, share=False, **kw):
    """ the units argument: groups as lists or tuples; single units bare or as a group of one; maybe one object for equal units """
    res = []
    objs = {}
    for k, g in enumerate(struct):
        us = [unit(n, **kw.get(n, {})) for n in g]
        if share:
            us = [objs.setdefault(n, x) for n, x in zip(g, us)]
        if len(us) == 1 and (flavour + k) % 2 == 0:
            res.append(us[0])
        else:
            res.append(us if (flavour + k) % 3 else tuple(us))
    return res


LONG = 'рентгеноэлектрокардиографист'


def compile_dicts(tmp):
    import c19
    c19.compile_dicts(tmp)      # a: with probabilities, b: without
    rows = list(toydict.GRAMMEMES) + c19.VERBGR
    opts = {'min_paradigm_popularity': 1, 'min_ending_freq': 1}
    # c: fewer grammemes, d: more
    poor = [r for r in rows if r[0] in ('POST', 'NOUN', 'ADVB', 'ANim', 'anim', 'GNdr', 'masc', 'femn', 'NMbr', 'sing', 'CAse', 'nomn', 'gent',
                                     'datv', 'accs', 'ablt', 'loct', 'Abbr', 'Fixd', 'Sgtm')]
    poor_lex = [(1, 'NOUN,anim', [('кит', 'sing,nomn'), ('кита', 'sing,gent')])]
    rich = ([('Zzzz', '', 'ЯЯ'), ('NUMR', 'POST', 'ЧИСЛ'), ('xxxx', 'CAse', 'хпад'), ('dual', 'NMbr', 'дв'), ('yyyy', 'xxxx', 'хх')] + rows[::-1])
    rich_lex = [(1, 'NOUN,anim', [('кит', 'sing,nomn'), ('кита', 'sing,gent'), ('киту', 'dual,ablt'), ('китв', 'dual,loct,Zzzz')]),
                (2, 'NUMR', [('пять', 'nomn'), ('пяти', 'gent')])]
    toydict.compile_spec(tmp, poor_lex, grammemes=poor, options=opts, name='c')
    toydict.compile_spec(tmp, rich_lex, grammemes=rich, options=opts, name='d')
    # the same with a long word which they know differently
    toydict.compile_spec(tmp, poor_lex + [(2, 'NOUN,anim,masc', [(LONG, 'sing,nomn'), (LONG + 'а', 'sing,gent')])],
                         grammemes=poor, options=opts, name='c2')
    toydict.compile_spec(tmp, rich_lex + [(3, 'ADVB', [(LONG, '')]), (4, 'NOUN,inan,femn', [(LONG + 'а', 'sing,nomn'), (LONG, 'plur,gent')])],
                         grammemes=rich, options=opts, name='d2')
    # e: contradicts the others about what grammemes mean
    odd = [(g, {'NOUN': 'NMbr', 'plur': 'CAse'}.get(g, p), a if g != 'sing' else 'един') for g, p, a in (r[:3] for r in rows)]
    toydict.compile_spec(tmp, [(1, 'NOUN,anim', [('кит', 'sing,nomn'), ('кита', 'sing,gent')])], grammemes=odd, options=opts, name='e')


_dicts = {}


def refdict(path):
    if path not in _dicts:
        _dicts[path] = R.Dict(path)
    return _dicts[path]


def stage_ref(path, struct, subst=None, prob=True, params=None):
    unkn = struct and struct[-1] == ['unkn']
    return R.Ref(refdict(path), subst=subst, use_prob=prob, params=params,
                 cfg=dict(stages=struct[:-1] if unkn else struct, unkn=bool(unkn), prefixes=PREFIXES, particles=PARTICLES))


CLS = {'dict': 'DictionaryAnalyzer', 'first_name': 'AbbreviatedFirstNameAnalyzer', 'patronymic': 'AbbreviatedPatronymicAnalyzer',
       'number': 'NumberAnalyzer', 'punct': 'PunctuationAnalyzer', 'roman': 'RomanNumberAnalyzer', 'latin': 'LatinAnalyzer',
       'particle': 'HyphenSeparatedParticleAnalyzer', 'po_adverb': 'HyphenAdverbAnalyzer', 'hyphen': 'HyphenatedWordsAnalyzer',
       'known_prefix': 'KnownPrefixAnalyzer', 'unknown_prefix': 'UnknownPrefixAnalyzer', 'known_suffix': 'KnownSuffixAnalyzer',
       'unkn': 'UnknAnalyzer'}


def compare(acc, m, r, struct, words, ordered):
    flat = [CLS[n] for g in struct for n in g]
    for w in words:
        acc.count('transitions', 2)
        want, got = r.parse(w), m.parse(w)
        d = W.diff_parses(got, want)
        if d:
            yield '%r: %s' % (w, d)
            continue
        if set(map(str, m.tag(w))) != set(p[1] for p in want):
            yield '%r: tag() %r expected %r' % (w, sorted(map(str, m.tag(w))), sorted(set(p[1] for p in want)))
        if ordered and len(flat) > 1 and len(set(flat)) == len(flat):
            pos = [flat.index(type(p[4][-1][0]).__name__) for p in got]
            if pos != sorted(pos):
                yield '%r: results are not in the order of the units: %r' % (w, pos)
        acc.outcome(len(got) and type(got[0][4][-1][0]).__name__)


def check_list(acc, tmp, struct, flavour, share=False):
    path = os.path.join(tmp, 'b')
    m = toydict.analyzer(path, units=build(struct, flavour, share))
    acc.count('traces')
    for d in compare(acc, m, stage_ref(path, struct), struct, WORDS, True):
        yield d


def lists(tier):
    def run(acc, i, n):
        with scene(acc) as tmp:
            k = 0
            for size in (1, 2, 3):
                for names in itertools.product(NAMES, repeat=size):
                    for sizes in compositions(size):
                        k += 1
                        if k % n != i or acc.full():
                            continue
                        struct = structures(names, sizes)
                        if k % 3 == 0:
                            struct = struct + [['unkn']]
                        one(acc, tmp, 'list', check_list, [struct, k % 6])
                        if len(set(names)) < size:
                            one(acc, tmp, 'list', check_list, [struct, k % 6, True])
    return run


# ------------------------------------------------------------------ parameters

PARAM_SETS = [
    ('known_prefix', dict(score_multiplier=0.2), dict(known_prefix=0.2)),
    ('known_prefix', dict(min_remainder_length=1), dict(min_remainder=1)),
    ('known_prefix', dict(min_remainder_length=5), dict(min_remainder=5)),
    ('unknown_prefix', dict(score_multiplier=0.9), dict(unknown_prefix=0.9)),
    ('known_suffix', dict(score_multiplier=0.1), dict(known_suffix=0.1)),
    ('known_suffix', dict(min_word_length=1), dict(min_word=1)),
    ('known_suffix', dict(min_word_length=7), dict(min_word=7)),
    ('particle', dict(score_multiplier=0.3), dict(particle=0.3)),
    ('po_adverb', dict(score_multiplier=0.15), dict(po_adverb=0.15)),
    ('hyphen', dict(score_multiplier=0.05), dict(hyphen=0.05)),
    ('number', dict(score=0.5), dict(shape=0.5)), ('punct', dict(score=0.5), dict(shape=0.5)),
    ('roman', dict(score=0.5), dict(shape=0.5)), ('latin', dict(score=0.5), dict(shape=0.5)),
    ('first_name', dict(score=0.5), dict(initials=0.5)), ('patronymic', dict(score=0.5), dict(initials=0.5)),
    # values that are false, huge or negative are values
    ('known_prefix', dict(score_multiplier=0), dict(known_prefix=0)),
    ('known_prefix', dict(min_remainder_length=0), dict(min_remainder=0)),
    ('known_prefix', dict(score_multiplier=0.0, min_remainder_length=100), dict(known_prefix=0, min_remainder=100)),
    ('unknown_prefix', dict(score_multiplier=0), dict(unknown_prefix=0)),
    ('known_suffix', dict(score_multiplier=0), dict(known_suffix=0)),
    ('known_suffix', dict(min_word_length=0), dict(min_word=0)),
    ('known_suffix', dict(min_word_length=100, score_multiplier=2), dict(min_word=100, known_suffix=2)),
    ('particle', dict(score_multiplier=0), dict(particle=0)), ('po_adverb', dict(score_multiplier=0), dict(po_adverb=0)),
    ('hyphen', dict(score_multiplier=0), dict(hyphen=0)),
    ('number', dict(score=0), dict(shape=0)), ('punct', dict(score=0), dict(shape=0)),
    ('roman', dict(score=0), dict(shape=0)), ('latin', dict(score=0), dict(shape=0)),
    ('first_name', dict(score=0), dict(initials=0)), ('patronymic', dict(score=0), dict(initials=0)),
]
PWORDS = WORDS + ['сук', 'суко', 'сукот', 'псевдоёж', 'неёж', 'ёжа', 'скотом', 'отом', 'том', 'ежа-то-ка', 'сусталь', 'кот-псевдокот', 'по-по-новому']


def check_params(acc, tmp, name, kw, params, extra, dname='b'):
    path = os.path.join(tmp, dname)
    struct = [[name]] if name == 'dict' else [['dict'], [name]] if name not in ('first_name', 'patronymic') else [['dict', name]]
    if extra:
        struct = struct + [[extra]]
    m = toydict.analyzer(path, units=build(struct, **{name: kw}))
    acc.count('traces')
    for d in compare(acc, m, stage_ref(path, struct, params=params), struct, PWORDS, False):
        yield '%s(%s): %s' % (name, kw, d)


def parameters(acc, i, n):
    with scene(acc) as tmp:
        jobs = [(a, b, c, x) for a, b, c in PARAM_SETS for x in [None] + NAMES if x != a]
        shapes = ('number', 'punct', 'roman', 'latin')
        for a, b, c, x in shard([j for j in jobs if not (j[0] in shapes and j[3] in shapes) and
                                 not ('name' in j[0] + str(j[3]) and 'patr' in j[0] + str(j[3]))], i, n):
            if x == 'dict':
                continue
            for d in 'ba':
                one(acc, tmp, 'params', check_params, [a, b, c, x, d])


# ------------------------------------------------------------------ word lists given to units

def word_lists():
    """ (unit, list, words to ask about) """
    rests = ['коту', 'ежа', 'Новому', 'стали', 'еж', 'сталикот']
    pool = ['с', 'су', 'псе', 'псевдо', 'по-', 'е', 'ё', 'сусу', 'ко', 'a', 'не-']
    for lst in [x for r in (0, 1, 2) for x in itertools.permutations(pool, r)] + [tuple(pool), tuple(pool[::-1]), ('су',) * 3]:
        yield 'known_prefix', lst, [p + r for p in (lst or ('су',)) for r in rests] + ['сусукоту', 'псевдосукоту', 'коту', 'кокоту', 'ёкоту', 'екоту']
    pool = ['-то', '-ка', '-то-ка', 'то', 'а', '-', '-Ка', 'ka', '-ка-то']
    for lst in [x for r in (0, 1, 2, 3) for x in itertools.permutations(pool, r)]:
        yield 'particle', lst, ['кота-то', 'кота-ка', 'кота-то-ка', 'кота-ка-то', 'стали-', '-то', 'КОТА-КА', 'кота-тото', 'еж-то-ка-то', 'а-а', 'сталь-ka', '-']
    pool = ['кот', 'кот-', 'ко', 'е', 'ё', '-', 'сталь-кот', 'кота-ст', 'К']
    for lst in [x for r in (0, 1, 2, 9) for x in itertools.permutations(pool, r)][:200]:
        yield 'hyphen', lst, ['кот-сталь', 'Кота-стали', 'еж-кот', 'ёж-кот', 'сталь-кот', 'коту-ежу', '-кот', 'ко-кот']
    for lst in ('', 'А', 'аЁ', ('А', 'Ё'), ['Аб', 'Б'], set(['Ъ', 'Ы']), 'АБВГДЕ', ['ab', 'V'], frozenset('Ёё'), 'ААА', ('',)):
        for name in ('first_name', 'patronymic'):
            yield name, lst, ['А', 'а', 'Ё', 'ё', 'Е', 'Аб', 'аб', 'Б', 'Ъ', 'Ы', 'ab', 'V', '', 'АА', 'ААА', 'Д', 'Ж']
    for pat in ('NOUN,anim,%(gender)s,Sgtm,{},Abbr,Init sing,%(case)s', 'NOUN,%(gender)s,{},Init %(case)s', 'NOUN,{},%(gender)s,%(case)s plur'):
        for name, g in (('first_name', 'Name'), ('patronymic', 'Patr')):
            yield name, pat.format(g), ['А', 'Ё', 'а', 'АА']


def check_wordlist(acc, tmp, k):
    name, lst, words = list(word_lists())[k]
    pat = lst if isinstance(lst, str) and '%' in lst else None
    kw = dict(tag_pattern=pat) if pat else dict(list=lst)
    acc.count('traces')
    for alone in (True, False):
        struct = [[name]] if alone else [['dict', name]] if name in ('first_name', 'patronymic') else [['dict'], [name], ['unkn']]
        for dname in 'ab':
            path = os.path.join(tmp, dname)
            m = toydict.analyzer(path, units=build(struct, **{name: kw}))
            r = stage_ref(path, struct)
            if pat:
                r.name_tags = [pat % {'gender': g, 'case': c} for g in ('masc', 'femn') for c in ('nomn', 'gent', 'datv', 'accs', 'ablt', 'loct')]
            elif name in ('first_name', 'patronymic'):
                r.letters = set(lst)
            elif name == 'known_prefix':
                r.cfg['prefixes'] = sorted(set(lst))
            elif name == 'hyphen':
                r.cfg['skip_prefixes'] = lst
            else:
                r.cfg['particles'] = lst
            for d in compare(acc, m, r, struct, words, False):
                yield '%s(%r): %s' % (name, lst, d)
            # the lists are for unit objects, which may be used again
            m = pickle.loads(pickle.dumps(m))
            for d in compare(acc, m, r, struct, words[:6], False):
                yield 'copy, %s(%r): %s' % (name, lst, d)


def list_space(acc, i, n):
    with scene(acc) as tmp:
        for k in range(i, len(list(word_lists())), n):
            one(acc, tmp, 'wordlist', check_wordlist, [k])
            if acc.full():
                return


# ------------------------------------------------------------------ products

LISTS = {
    'default': None,
    'mixed': [['dict', 'known_prefix'], ['hyphen', 'particle'], ['known_suffix', 'unknown_prefix'], ['latin'], ['unkn']],
    'dict': [['dict']],
}
SUBSTS = [('auto', None), ('none', {}), ('empty', {}), ('ru', {'е': 'ё'}), ('own', {'о': 'а', 'е': 'ё'}), ('other', {'г': 'ґ'}),
          ('many', dict([('я', 'ю'), ('о', 'а'), ('ы', 'у'), ('е', 'ё'), ('т', 'д'), ('ъ', 'ь'), ('b', 'c')])), ('mutual', {'о': 'а', 'а': 'о', 'и': 'и'})]
ALLW = WORDS + ['скат', 'кат', 'ежа', 'суежа', 'сталь', 'новая-то', 'ыщотом', 'ыщатам', 'Г', 'пять']


def stack(x):
    """ methods with unit objects replaced by their kind """
    if isinstance(x, tuple):
        return tuple(stack(y) for y in x)
    return type(x).__name__ if hasattr(x, 'get_lexeme') else x


def row(p):
    return (p[0], str(p[1]), p[2], p[3], stack(p[4]))


def result_type(name):
    import c20
    from pymorphy2.analyzer import Parse
    return {'default': Parse, 'none': None, 'own': c20.MyParse}[name]


def check_options(acc, tmp, dname, lang, lname, prob, subst):
    from pymorphy2.analyzer import Parse
    path = os.path.join(tmp, dname)
    struct = LISTS[lname]
    sub = dict(SUBSTS)[subst]
    acc.count('traces')
    ms = {}
    for rt in ('default', 'none', 'own'):
        kw = dict(result_type=result_type(rt), lang=lang)
        if struct is not None:
            kw['units'] = build(struct)
        if prob == 'none':
            kw['probability_estimator_cls'] = None
        if subst != 'auto':
            kw['char_substitutes'] = None if subst == 'none' else sub
        ms[rt] = toydict.analyzer(path, **kw)
    base_lang = lang if lang in ('ru', 'uk') else 'ru'
    if subst == 'auto':
        sub = refcfg.LANG[base_lang]['subst']
    if struct is None:
        r = R.Ref(refdict(path), lang=base_lang, subst=sub, use_prob=prob == 'auto')
    else:
        r = stage_ref(path, struct, sub, prob == 'auto')
    m = ms['default']
    if m.lang != (lang or 'ru'):
        yield 'lang %r' % m.lang
    for w in ALLW:
        acc.count('transitions', 8)
        got = m.parse(w)
        d = W.diff_parses(got, r.parse(w))
        if d:
            yield '%r: %s' % (w, d)
            continue
        rows = [row(p) for p in got]
        tags = [str(t) for t in m.tag(w)]
        if set(tags) != set(x[1] for x in rows):
            yield '%r: tags %r' % (w, tags)
        lex = [[row(x) for x in p.lexeme] for p in got[:3]]
        for rt in ('none', 'own'):
            o = ms[rt]
            ps = o.parse(w)
            if [row(p) for p in ps] != rows:
                yield '%r: result_type %s: %r, wrapped %r' % (w, rt, [row(p) for p in ps][:5], rows[:5])
            want_type = tuple if rt == 'none' else result_type('own')
            lx = [o.get_lexeme(p) for p in ps[:3]]
            for p in ps + [x for l in lx for x in l]:
                if (type(p) is not tuple) if rt == 'none' else not isinstance(p, want_type):
                    yield '%r: result type %r' % (w, type(p))
                    break
            if [[row(x) for x in l] for l in lx] != lex:
                yield '%r: result_type %s: lexemes differ' % (w, rt)
            if [str(t) for t in o.tag(w)] != tags or o.normal_forms(w) != m.normal_forms(w):
                yield '%r: result_type %s: tag() or normal_forms() differ' % (w, rt)
            if o.word_is_known(w) != m.word_is_known(w):
                yield '%r: word_is_known differs' % (w,)
        if m.word_is_known(w) != r.is_known(w) or m.word_is_known(w, strict=True) != r.is_known(w, True):
            yield '%r: word_is_known %r' % (w, m.word_is_known(w))
        for p in got:
            if p.is_known != r.is_known(p.word):
                yield '%r: %r.is_known is %r' % (w, p.word, p.is_known)
    its = dict((rt, list(ms[rt].iter_known_word_parses('ко'))) for rt in ms)
    if not [row(p) for p in its['none']] == [row(p) for p in its['own']] == [row(p) for p in its['default']]:
        yield 'iter_known_word_parses depends on result_type'
    if any(type(p) is not tuple for p in its['none']):
        yield 'iter_known_word_parses: result type'
    if not all(isinstance(p, Parse) for p in its['default']) or not all(p.shout() == p.word.upper() for p in its['own']):
        yield 'iter_known_word_parses: result type'


def options(acc, i, n):
    with scene(acc) as tmp:
        jobs = list(itertools.product('abd', [None, 'ru', 'uk', 'ru-old', 'xx'], sorted(LISTS), ['auto', 'none'], [s for s, _ in SUBSTS]))
        for j in jobs[i::n]:
            if j[0] == 'd' and j[2] == 'default' and False:
                continue
            one(acc, tmp, 'options', check_options, list(j))


# ------------------------------------------------------------------ estimators

def estimators():
    from pymorphy2.analyzer import ProbabilityEstimator

    class Same(object):
        def __init__(self, path):
            self.path = path

        def change(self, res):
            return res

        def apply_to_parses(self, word, word_lower, parses):
            assert word_lower == word.lower()
            return self.change(parses)

        def apply_to_tags(self, word, word_lower, tags):
            assert word_lower == word.lower()
            return self.change(tags)

    class Reversed(Same):
        def change(self, res):
            return res[::-1]

    class Last(Same):
        def change(self, res):
            return res[-1:]

    class Scores(Same):
        def apply_to_parses(self, word, word_lower, parses):
            return [(w, t, n, 1.0 / (k + 1), ms) for k, (w, t, n, s, ms) in enumerate(parses)]

    class Derived(ProbabilityEstimator):
        pass

    return {'same': Same, 'reversed': Reversed, 'last': Last, 'scores': Scores, 'derived': Derived, 'library': ProbabilityEstimator}


def check_estimator(acc, tmp, dname, lname, ename, subst):
    path = os.path.join(tmp, dname)
    struct = LISTS[lname]
    kw = {}
    if struct is not None:
        kw['units'] = build(struct)
    if subst != 'auto':
        kw['char_substitutes'] = dict(SUBSTS)[subst]
    acc.count('traces')
    cls = estimators()[ename]
    m = toydict.analyzer(path, probability_estimator_cls=cls, **kw)
    own = ename not in ('derived', 'library')
    base = toydict.analyzer(path, **dict(kw, probability_estimator_cls=None) if own else kw)
    if type(m.prob_estimator) is not cls or (own and m.prob_estimator.path != path):
        yield 'the estimator was not made as asked for: %r' % (m.prob_estimator,)
    copy = pickle.loads(pickle.dumps(m)) if ename == 'library' else m
    for w in ALLW:
        for x in [m] + ([copy] if copy is not m else []):
            acc.count('transitions', 2)
            want = [row(p) for p in base.parse(w)]
            tags = [str(t) for t in base.tag(w)]
            if ename in ('reversed', 'last'):
                want = want[::-1] if ename == 'reversed' else want[-1:]
                tags = tags[::-1] if ename == 'reversed' else tags[-1:]
            if ename == 'scores':
                want = [r[:3] + (1.0 / (k + 1),) + r[4:] for k, r in enumerate(want)]
            got = [row(p) for p in x.parse(w)]
            if got != want:
                yield '%r: parse() gives %.300r, expected %.300r' % (w, got, want)
            got = [str(t) for t in x.tag(w)]
            if got != tags:
                yield '%r: tag() gives %.300r, expected %.300r' % (w, got, tags)
            if x.normal_forms(w) != list(dict.fromkeys(r[2] for r in want)):
                yield '%r: normal_forms() gives %r' % (w, x.normal_forms(w))


def estimator_space(acc, i, n):
    with scene(acc) as tmp:
        for k, (d, ln, e, s) in enumerate(itertools.product('abd', sorted(LISTS), sorted(estimators()), ['auto', 'none', 'many'])):
            if k % n == i and not acc.full():
                if e in ('derived', 'library') and d != 'a':
                    continue
                one(acc, tmp, 'estimator', check_estimator, [d, ln, e, s])


# ------------------------------------------------------------------ several analyzers in one process

ANALYZERS = {
    'a': lambda tmp: dict(path=os.path.join(tmp, 'a')),
    'a plain': lambda tmp: dict(path=os.path.join(tmp, 'a'), result_type=None, probability_estimator_cls=None),
    'a uk': lambda tmp: dict(path=os.path.join(tmp, 'a'), lang='uk'),
    'a no subst': lambda tmp: dict(path=os.path.join(tmp, 'a'), char_substitutes=None),
    'a own': lambda tmp: dict(path=os.path.join(tmp, 'a'), units=build(LISTS['mixed']), char_substitutes={'о': 'а'},
                              result_type=result_type('own')),
    'b': lambda tmp: dict(path=os.path.join(tmp, 'b')),
    'b dict': lambda tmp: dict(path=os.path.join(tmp, 'b'), units=[unit('dict')]),
    'b empty': lambda tmp: dict(path=os.path.join(tmp, 'b'), units=[]),
    'poor': lambda tmp: dict(path=os.path.join(tmp, 'c2')),
    'rich': lambda tmp: dict(path=os.path.join(tmp, 'd2')),
    'poor dict': lambda tmp: dict(path=os.path.join(tmp, 'c2'), units=[unit('dict')]),
}
QWORDS = ['стали', 'коту', 'кита', 'киту', 'новая', 'суновому', 'Ё', 'ab', '12', 'кот-сталь', 'пяти', 'скоты', 'V', '?', 'псевдокоту', LONG, LONG.upper() + 'А', 'щщщ' + LONG + 'а', 'супер-' + LONG]
GRS = ['plur', 'sing', 'gent', 'datv', 'nomn', 'xxxx', 'masc', 'gen2', 'dual', 'VERB', 'NUMR', 'ADVB']


def answers(m, known):
    res = []
    for w in QWORDS:
        ps = m.parse(w)
        res.append([w, [row(p) for p in ps], [str(t) for t in m.tag(w)]])
        for p in ps[:4]:
            t = p[1]
            res.append([w, str(t), sorted(t.grammemes), str(t.POS), str(t.case), str(t.number), t.cyr_repr, sorted(t.grammemes_cyr), len(t)])
            res.append([w, [row(x) for x in m.get_lexeme(p)]])
            for g in GRS:
                if g not in known:
                    continue
                x = p.inflect(set([g])) if hasattr(p, 'inflect') else None
                res.append([w, g, row(x) if x else None, g in t, sorted(t.updated_grammemes(set([g])))])
            if hasattr(p, 'inflect'):
                res.append([w, row(p.normalized)])
                if 'gent' in known:
                    x = p.make_agree_with_number(5) if known >= set(['plur', 'gent']) else None
                    res.append([w, row(x) if x else None])
    T = m.TagClass
    res.append([(g, T.lat2cyr(g)) for g in sorted(known)])
    res.append([(g, m.lat2cyr(g), m.cyr2lat(m.lat2cyr(g))) for g in sorted(known)])
    res.append([m.word_is_known(w) for w in QWORDS])
    return res


def known_of(tmp, name):
    d = {'a': 'a', 'b': 'b', 'p': 'c2', 'r': 'd2', 'e': 'e'}[name[0]]
    return set(refdict(os.path.join(tmp, d)).gr.rows and [r[0] for r in refdict(os.path.join(tmp, d)).gr.rows])


def first(a, b):
    for x, y in zip(a, b):
        if x != y:
            return '%.400r instead of %.400r' % (x, y)
    return 'different'


SCRIPTS = [
    # who is created / asked, in order; capital: created, small: asked
    'ABab', 'ABba', 'AaBba', 'AaBab', 'BbAaBb', 'ABaBbab',
]


def alone(tmp, name):
    import c18
    key = (tmp, name)
    if key not in _alone:
        _alone[key] = c18.in_child(lambda: answers(toydict.analyzer(**ANALYZERS[name](tmp)), known_of(tmp, name)))
    return _alone[key]


_alone = {}


def play(tmp, names, script):
    ms = {}
    got = []
    warnings.simplefilter('ignore')
    for c in script:
        name = names[ord(c.upper()) - ord('A')]
        if c.isupper():
            ms[c.lower()] = toydict.analyzer(**ANALYZERS[name](tmp))
        else:
            got.append((c, answers(ms[c], known_of(tmp, name))))
    return got


def check_together(acc, tmp, names, script):
    import c18
    acc.count('traces')
    acc.count('transitions', len(script) * len(QWORDS))
    for k, (c, got) in enumerate(c18.in_child(lambda: play(tmp, names, script))):
        name = names[ord(c.upper()) - ord('A')]
        want = alone(tmp, name)
        if got != want:
            yield 'analyzer %r, script %s, answer %d: %s' % (name, script, k, first(got, want))
            return


def together(tier):
    return lambda acc, i, n: _together(acc, i, n, tier)


def _together(acc, i, n, tier):
    with scene(acc) as tmp:
        names = sorted(ANALYZERS)
        core_names = ('a', 'poor', 'rich')
        jobs = [(list(p), s) for k, p in enumerate(itertools.product(names, repeat=2)) for j, s in enumerate(SCRIPTS)
                if tier == 'thorough' or (p[0] in core_names and p[1] in core_names) or (j - k) % 6 < 2]
        jobs += [(list(p), s) for p in itertools.permutations(['a', 'poor', 'rich', 'b dict', 'a uk'], 3) for s in ('ABCabc', 'ACaBcba')]
        for k, (p, s) in enumerate(jobs):
            if k % n == i and not acc.full():
                one(acc, tmp, 'together', check_together, [p, s])
        if i == 0:
            ANALYZERS['e odd'] = lambda tmp: dict(path=os.path.join(tmp, 'e'))
            for p, s in ((['a', 'e odd'], 'ABab'),):
                one(acc, tmp, 'together', check_together, [p, s])


# ------------------------------------------------------------------ unit objects are not changed by use

def snap(x):
    """ the state of unit objects (nested lists) """
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [snap(y) for y in x]
    return [type(x).__name__, id(x), sorted((k, repr(v)) for k, v in x.__dict__.items()), x.morph is None, x.dict is None]


def check_reuse(acc, tmp, struct, paths):
    us = build(struct, 1)
    before = snap(us)
    acc.count('traces')
    ms = []
    prm = []
    for p in paths:
        m = toydict.analyzer(os.path.join(tmp, p), units=us)
        ms.append((p, m))
        if snap(us) != before:
            yield 'creating an analyzer changed the unit objects'
        for q, x in ms:
            r = stage_ref(os.path.join(tmp, q), struct)
            for w in WORDS:
                acc.count('transitions')
                d = W.diff_parses(x.parse(w), r.parse(w))
                if d:
                    yield 'analyzer of %s (%r used together): %r %s' % (q, paths, w, d)
        if snap(us) != before:
            yield 'using an analyzer changed the unit objects'
    for q, x in ms:
        for u in set(m[0] for w in WORDS for p in x.parse(w) for m in p[4]):
            if u.morph is not x or any(u is y for g in us for y in (g if isinstance(g, (list, tuple)) else [g])):
                yield 'analyzer uses the unit object it was given'
                return


def reuse(acc, i, n):
    with scene(acc) as tmp:
        structs = [[[x] for x in NAMES], [NAMES[:3], NAMES[3:7], ['particle'], ['hyphen'], ['known_prefix'], ['unknown_prefix', 'known_suffix'], ['unkn']],
                   LISTS['mixed'], LISTS['dict']] + [[[x], ['dict']] for x in NAMES[1:]] + [[['dict'], [x]] for x in NAMES[1:]]
        jobs = [(s, list(p)) for s in structs for p in itertools.product('abd', repeat=3)]
        for k, (s, p) in enumerate(jobs):
            if k % n == i and not acc.full():
                one(acc, tmp, 'reuse', check_reuse, [s, p])


# ------------------------------------------------------------------ plumbing

def one(acc, tmp, kind, fn, args):
    acc.tick += 1
    acc.case = {'kind': kind, 'args': args}
    acc.count('states')
    for what in fn(acc, tmp, *args):
        acc.violation('%s %r: %s' % (kind, args, what), acc.case)
    acc.case = None


class scene(object):
    def __init__(self, acc):
        self.cm = toydict.scratch()

    def __enter__(self):
        tmp = self.cm.__enter__()
        warnings.simplefilter('ignore')
        if 'fast' in sys.executable or not sys.executable.startswith('/opt/venv-slow'):
            # compiling sets up shared state: keep it out of this process
            import c18
            c18.in_child(lambda: compile_dicts(tmp))
        return tmp

    def __exit__(self, *a):
        return self.cm.__exit__(*a)


def spaces(ck):
    return [
        ('unit lists', lists(ck.tier), 'fast'),
        ('unit parameters', parameters, 'fast'),
        ('word lists of units', list_space, 'fast'),
        ('option products', options, 'fast'),
        ('probability estimators', estimator_space, 'fast'),
        ('several analyzers', together(ck.tier), 'fast'),
        ('unit objects', reuse, 'fast'),
    ]


FNS = {'list': check_list, 'params': check_params, 'options': check_options, 'wordlist': check_wordlist, 'estimator': check_estimator, 'together': check_together, 'reuse': check_reuse}


def run_case(ck, case):
    import json
    code = ('import sys; sys.path[:0]=%r; import c21, json; print("\\n"+json.dumps(c21.replay(json.loads(sys.argv[1]))))'
            % ([core.REPO, os.path.join(core.VERIF, 'mc'), os.path.join(core.VERIF, 'checks')],))
    out = subprocess.check_output(['/opt/venv/bin/python', '-B', '-c', code, json.dumps(case)])
    return json.loads(out.decode('utf8').strip().splitlines()[-1])


def replay(case):
    with scene(None) as tmp:
        if 'e odd' in str(case):
            ANALYZERS['e odd'] = lambda tmp: dict(path=os.path.join(tmp, 'e'))
        return list(FNS[case['kind']](core.Acc(), tmp, *case['args']))
