# -*- coding: utf-8 -*-
"""
C20: pickled and copied analyzers behave like the original.

Explored on a small dictionary compiled with the real code: the product of all
constructor options (path or environment variable, language, result type, units,
probability estimation, letter substitutes, class) x every way of copying
(pickle protocols 0-5, copy, deepcopy) and all chains of two ways, at every
point of a small history (before first use, after use, after the original is
gone, used alternately, another analyzer being made between).  Pickles of every
configuration are also loaded by new processes, with both automaton libraries.
Oracle: the answers of an analyzer constructed with the same arguments.
"""
import copy
import gc
import itertools
import json
import os
import pickle
import subprocess
import sys
import warnings

import core
import toydict
from core import shard

ID = 'C20'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of constructor option products x copy operation sequences on the real code'
assumptions = ['the environment variable and dictionary folder are the same where a pickle is loaded']

import pymorphy2  # noqa
from pymorphy2 import units as U  # noqa
from pymorphy2.analyzer import Parse, ProbabilityEstimator  # noqa


class MyParse(Parse):
    def shout(self):
        return self.word.upper()


class MyEstimator(ProbabilityEstimator):
    def apply_to_parses(self, word, word_lower, parses):
        return [(w, t, n, s * 0.25, m) for w, t, n, s, m in sorted(parses, key=lambda p: (p[2], str(p[1])))]


class NoFileEstimator(object):
    """ keeps the path it was created with """
    def __init__(self, path):
        self.path = path

    def apply_to_parses(self, word, word_lower, parses):
        return parses[::-1]

    def apply_to_tags(self, word, word_lower, tags):
        return tags[::-1]


class MyUnit(U.DictionaryAnalyzer):
    """ a custom unit with parameters """
    def __init__(self, suffix, score=0.3):
        self.suffix = suffix
        self.score = score

    def parse(self, word, word_lower, seen_parses):
        if not word_lower.endswith(self.suffix):
            return []
        ps = super(MyUnit, self).parse(word[:-len(self.suffix)], word_lower[:-len(self.suffix)], seen_parses)
        return [(w, t, n, s * self.score, m) for w, t, n, s, m in ps]

    def tag(self, word, word_lower, seen_tags):
        return [p[1] for p in self.parse(word, word_lower, set())]


class Morph2(pymorphy2.MorphAnalyzer):
    DEFAULT_SUBSTITUTES = {'а': 'о'}


def units(name):
    return {
        'default': None,
        'dict': [U.DictionaryAnalyzer()],
        'groups': [[U.DictionaryAnalyzer(), U.KnownPrefixAnalyzer(known_prefixes=['су', 'ко'], score_multiplier=0.6, min_remainder_length=2)],
                   (U.KnownSuffixAnalyzer(score_multiplier=0.11, min_word_length=3), U.UnknownPrefixAnalyzer(score_multiplier=0.9)),
                   U.UnknAnalyzer()],
        'own': [MyUnit('ка'), [U.DictionaryAnalyzer(), MyUnit(suffix='му', score=0.7)], U.LatinAnalyzer(score=0.33),
                U.NumberAnalyzer(score=0.44), U.HyphenSeparatedParticleAnalyzer(particles_after_hyphen=['-му'], score_multiplier=0.2),
                U.HyphenatedWordsAnalyzer(skip_prefixes=['по'], score_multiplier=0.3)],
        'tuple': (U.DictionaryAnalyzer(), [U.PunctuationAnalyzer(score=0.1), U.RomanNumberAnalyzer(), U.LatinAnalyzer()]),
        'none': [],
    }[name]


OPTIONS = {
    'cls': {'plain': pymorphy2.MorphAnalyzer, 'sub': Morph2},
    'path': ['env', 'a', 'b'],
    'lang': [None, 'ru', 'uk', 'ru-old', 'xx'],
    'result_type': {'default': Parse, 'none': None, 'own': MyParse},
    'units': ['default', 'dict', 'groups', 'own', 'tuple', 'none'],
    'prob': {'auto': pymorphy2.analyzer.auto, 'none': None, 'std': ProbabilityEstimator, 'own': MyEstimator, 'nofile': NoFileEstimator},
    'subst': {'auto': pymorphy2.analyzer.auto, 'none': None, 'empty': {}, 'ru': {'е': 'ё'}, 'own': {'о': 'а', 'е': 'ё'}},
}
KEYS = ['cls', 'path', 'lang', 'result_type', 'units', 'prob', 'subst']
DEFAULTS = ['plain', 'a', None, 'default', 'default', 'auto', 'auto']


def kwargs(cfg, tmp):
    o = dict(zip(KEYS, cfg))
    kw = {}
    if o['path'] != 'env':
        kw['path'] = os.path.join(tmp, o['path'])
    if o['lang'] is not None:
        kw['lang'] = o['lang']
    if o['result_type'] != 'default':
        kw['result_type'] = OPTIONS['result_type'][o['result_type']]
    if o['units'] != 'default':
        kw['units'] = units(o['units'])
    if o['prob'] != 'auto':
        kw['probability_estimator_cls'] = OPTIONS['prob'][o['prob']]
    if o['subst'] != 'auto':
        kw['char_substitutes'] = OPTIONS['subst'][o['subst']]
    return kw


def make(cfg, tmp):
    return OPTIONS['cls'][cfg[0]](**kwargs(cfg, tmp))


def valid(cfg):
    o = dict(zip(KEYS, cfg))
    # dictionary b has no probabilities
    if o['path'] == 'b' and o['prob'] in ('std', 'own'):
        return False
    return True


def configs(tier):
    axes = [sorted(OPTIONS[k], key=lambda x: (x is not None, x)) if isinstance(OPTIONS[k], dict) else OPTIONS[k] for k in KEYS]
    if tier == 'thorough':
        prod = itertools.product(*axes)
    else:
        # all triples of options, the others at a default; and a full product over the default language
        seen = {}
        for trip in itertools.combinations(range(len(KEYS)), 3):
            for vals in itertools.product(*[axes[k] for k in trip]):
                cfg = list(DEFAULTS)
                for k, v in zip(trip, vals):
                    cfg[k] = v
                seen[tuple(cfg)] = 1
        prod = list(seen)
        if tier == 'thorough':
            prod = itertools.product(*axes)
    return [c for c in prod if valid(c)]


WORDS = ['стали', 'кота', 'еж', 'Ёж', 'сукота', 'псевдокоту', 'ыщотом', 'кота-то', 'кот-сталь', 'ab', 'IX', '12', '.', 'ъ%', 'стали-му',
         'котака', 'скат', 'котуму', 'по-новому', 'У', '']


def stack(p):
    return [tuple(type(x).__name__ if isinstance(x, U.base.BaseAnalyzerUnit) else str(x) for x in m) for m in p[4]]


def row(p):
    return (p[0], str(p[1]), p[2], repr(p[3]), stack(p))


def attempt(fn):
    try:
        return fn()
    except Exception as e:
        return 'raised %s: %s' % (type(e).__name__, e)


def ask(m, w):
    """ everything about one word """
    ps = attempt(lambda: m.parse(w))
    if not isinstance(ps, list):
        return [ps]
    res = [[row(p) for p in ps], attempt(lambda: [str(t) for t in m.tag(w)]), m.normal_forms(w), m.word_is_known(w),
           m.word_is_known(w, strict=True)]
    for p in ps[:2]:
        res.append(attempt(lambda: [row(x) for x in m.get_lexeme(p)]))
        if isinstance(p, Parse):
            res.append([p.is_known, attempt(lambda: row(p.normalized)), attempt(lambda: [row(x) for x in p.lexeme])])
            inf = attempt(lambda: p.inflect(set(['plur'])))
            res.append(inf if not inf or not isinstance(inf, tuple) else row(inf))
        if isinstance(p, MyParse):
            res.append(p.shout())
    return res


def identity(m):
    rt = ([type(p) for w in ('кот', 'а', 'XII', '1', ',') for p in m.parse(w)[:1]] + [tuple])[0]
    rt = None if rt is tuple else rt
    return [type(m).__name__, m.lang, os.path.basename(m.dictionary.path), rt and [rt.__name__, [b.__name__ for b in rt.__mro__][1:]],
            type(m.prob_estimator).__name__, getattr(m.prob_estimator, 'path', None) and os.path.basename(m.prob_estimator.path),
            sorted((k, str(v)) for k, v in m.char_substitutes.items()) if isinstance(m.char_substitutes, dict) else None]


def answers(m, words=WORDS):
    res = [identity(m)] + [ask(m, w) for w in words]
    res.append(attempt(lambda: [row(p) for p in m.iter_known_word_parses('ко')]))
    return res


WAYS = [('pickle%d' % k, (lambda k: lambda m: pickle.loads(pickle.dumps(m, k)))(k)) for k in range(pickle.HIGHEST_PROTOCOL + 1)]
WAYS += [('copy', copy.copy), ('deepcopy', copy.deepcopy), ('deepcopy in a list', lambda m: copy.deepcopy([m, m])[1]),
         ('pickled with a friend', lambda m: pickle.loads(pickle.dumps({'m': m, 'n': m}, 2))['n'])]
WAYD = dict(WAYS)


def first_diff(a, b, words=WORDS):
    names = ['identity'] + list(words) + ['iter']
    for nm, x, y in zip(names, a, b):
        if x != y:
            return '%s: %.300r expected %.300r' % (nm, x, y)
    return None if a == b else 'different'


_want = {}


def expected(cfg, tmp):
    if (cfg, tmp) not in _want:
        _want.clear()
        _want[cfg, tmp] = answers(make(cfg, tmp))
    return _want[cfg, tmp]


def compile_dicts(tmp):
    import c19
    c19.compile_dicts(tmp)
    os.environ['PYMORPHY2_DICT_PATH'] = os.path.join(tmp, 'a')


def histories(way):
    """ scripts: which analyzer is copied when, and who answers """
    return ['before', 'after', 'gone', 'alternate', 'between']


def check_case(acc, tmp, cfg, way, history):
    """ yields problems """
    want = expected(cfg, tmp)
    fn = WAYD[way]
    acc.count('traces')
    acc.count('transitions', 2 * len(WORDS))
    m = make(cfg, tmp)
    if history == 'before':
        c = fn(m)
        pairs = [('copy', answers(c)), ('original', answers(m))]
    elif history == 'after':
        answers(m, WORDS[::-1])
        c = fn(m)
        pairs = [('original', answers(m)), ('copy', answers(c))]
    elif history == 'gone':
        c = fn(m)
        del m
        gc.collect()
        pairs = [('copy', answers(c))]
    elif history == 'alternate':
        c = fn(m)
        ra, rb = [identity(m)], [identity(c)]
        for w in WORDS:
            ra.append(ask(m, w))
            rb.append(ask(c, w))
        last = WORDS and attempt(lambda: [row(p) for p in m.iter_known_word_parses('ко')])
        ra.append(last)
        rb.append(attempt(lambda: [row(p) for p in c.iter_known_word_parses('ко')]))
        pairs = [('original', ra), ('copy', rb)]
    elif history == 'between':
        data = pickle.dumps(m, 2)
        other = toydict.analyzer(os.path.join(tmp, 'b'), result_type=None, units=[U.DictionaryAnalyzer()])
        ask(other, 'дом')
        c = fn(m)
        c2 = pickle.loads(data)
        pairs = [('copy', answers(c)), ('late pickle', answers(c2)), ('original', answers(m))]
    for who, got in pairs:
        d = first_diff(got, want)
        if d:
            yield '%s (%s, %s): %s' % (who, way, history, d)
    if history == 'before' and any(x is m for x in (c,)):
        yield 'copy is the original'


def check_chain(acc, tmp, cfg, ways):
    want = expected(cfg, tmp)
    acc.count('traces')
    acc.count('transitions', len(WORDS))
    m = make(cfg, tmp)
    for w in ways:
        m = WAYD[w](m)
    d = first_diff(answers(m), want)
    if d:
        yield 'chain %r: %s' % (ways, d)


def each_case(acc, tmp, kind, fn, args):
    acc.tick += 1
    acc.case = {'kind': kind, 'args': args}
    acc.count('states')
    for what in fn(acc, tmp, *args):
        acc.violation('%r: %s' % (args, what), acc.case)
    acc.case = None


def product(tier):
    def run(acc, i, n):
        with toydict.scratch() as tmp, warnings.catch_warnings():
            warnings.simplefilter('ignore')
            compile_dicts(tmp)
            cs = configs(tier)
            hs = histories(None)
            for k, cfg in enumerate(cs):
                if k % n != i:
                    continue
                if acc.full():
                    return
                if tier == 'thorough':
                    todo = [(w, hs[(k // n + j) % len(hs)]) for j, (w, _) in enumerate(WAYS)]
                else:
                    # every way of copying; the histories rotate
                    todo = [(WAYS[(k // n + j) % len(WAYS)][0], hs[(k // n + j) % len(hs)]) for j in range(3)]
                for w, h in todo:
                    each_case(acc, tmp, 'copy', check_case, [cfg, w, h])
                acc.outcome(cfg[4])
    return run


def single_and_pairs(tier):
    """ options alone: every way x every history; chains of two ways """
    def run(acc, i, n):
        with toydict.scratch() as tmp, warnings.catch_warnings():
            warnings.simplefilter('ignore')
            compile_dicts(tmp)
            cfgs = [tuple(DEFAULTS)]
            for k in range(len(KEYS)):
                for v in OPTIONS[KEYS[k]]:
                    c = list(DEFAULTS)
                    c[k] = v
                    if tuple(c) not in cfgs and valid(c):
                        cfgs.append(tuple(c))
            cfgs.append(('sub', 'env', 'uk', 'own', 'own', 'own', 'own'))
            cfgs.append(('plain', 'b', 'ru-old', 'none', 'groups', 'nofile', 'none'))
            jobs = [('copy', check_case, [c, w, h]) for c in cfgs for w, _ in WAYS for h in histories(w)]
            chains = [('chain', check_chain, [c, [a, b]]) for c in (cfgs if tier == 'thorough' else [cfgs[0]] + cfgs[-2:])
                      for a, _ in WAYS for b, _ in WAYS]
            for j, (kind, fn, args) in enumerate(jobs + chains):
                if j % n == i and not acc.full():
                    each_case(acc, tmp, kind, fn, args)
    return run


LOADER = r'''
import sys, json, os, pickle, warnings
sys.dont_write_bytecode = True
sys.path[:0] = json.loads(sys.argv[1])
warnings.simplefilter('ignore')
os.environ['PYMORPHY2_DICT_PATH'] = sys.argv[2]
order = sys.argv[4]
import gzip
with open(sys.argv[3], 'rb') as f:
    blobs = pickle.load(f)
if order == 'rev':
    blobs = blobs[::-1]
res = []
for key, b in blobs:
    m = pickle.loads(b)     # the first thing this process does with pymorphy2
    import c20
    res.append((key, c20.answers(m)))
with open(sys.argv[3] + '.out', 'wb') as f:
    pickle.dump(res, f, 2)
'''


def other_process(tier):
    """ pickles loaded by new processes """
    def run(acc, i, n):
        with toydict.scratch() as tmp, warnings.catch_warnings():
            warnings.simplefilter('ignore')
            compile_dicts(tmp)
            cs = shard(configs(tier), i, n)
            for k in range(0, len(cs), 60):
                part = cs[k:k + 60]
                want, blobs = {}, []
                for j, c in enumerate(part):
                    m = make(c, tmp)
                    if j % 2:
                        ask(m, 'кота')
                    blobs.append((c, pickle.dumps(m, (k + j) % (pickle.HIGHEST_PROTOCOL + 1))))
                    want[c] = answers(m)
                for where, order in (('/opt/venv/bin/python', 'fwd'), ('/opt/venv-slow/bin/python', 'rev')):
                    fn = os.path.join(tmp, 'blobs')
                    with open(fn, 'wb') as f:
                        pickle.dump(blobs, f, 2)
                    paths = [core.REPO, os.path.join(core.VERIF, 'mc'), os.path.join(core.VERIF, 'checks')]
                    acc.tick += 1
                    p = subprocess.Popen([where, '-B', '-c', LOADER, json.dumps(paths), os.path.join(tmp, 'a'), fn, order],
                                         stdout=subprocess.PIPE, stderr=subprocess.PIPE)
                    err = p.communicate()[1]
                    if p.returncode:
                        acc.violation('loading pickles in a new process (%s) failed: %s' % (where, err.decode('utf8', 'replace')[-1500:]),
                                      {'kind': 'process', 'args': [part[0]]})
                        break
                    with open(fn + '.out', 'rb') as f:
                        got = pickle.load(f)
                    for c, a in got:
                        acc.count('states')
                        acc.count('traces')
                        acc.count('transitions', len(WORDS))
                        d = first_diff(a, want[c])
                        if d:
                            acc.violation('%r pickled, loaded in a new process (%s): %s' % (c, where, d), {'kind': 'process', 'args': [c]})
                if acc.full():
                    return
    return run


def shipped(acc, i, n):
    """ a few configurations on the installed dictionary """
    os.environ.pop('PYMORPHY2_DICT_PATH', None)
    words = ['стали', 'кошками', 'бутявками', 'еще', 'псевдокошкой', 'Ж', 'Иван', 'по-русски', 'ёж', 'hello', '7', 'кот-мот', 'кое-кто', 'смотри-ка']
    jobs = []
    for kw in ({}, {'lang': 'ru'}, {'lang': 'ru', 'result_type': None}, {'probability_estimator_cls': None},
               {'char_substitutes': None}, {'char_substitutes': {'о': 'а'}}, {'units': units('groups')},
               {'path': pymorphy2.MorphAnalyzer.choose_dictionary_path(lang='ru')}):
        for w in ('pickle2', 'deepcopy', 'copy', 'pickle0'):
            jobs.append((kw, w))
    last = None
    for j, (kw, w) in enumerate(jobs):
        if j * n // len(jobs) != i:
            continue
        acc.tick += 1
        acc.case = None
        acc.count('states')
        acc.count('traces')
        if last is None or last[0] != kw:
            m = pymorphy2.MorphAnalyzer(**kw)
            last = (kw, m, answers(m, words)[:-1])
        m, want = last[1:]
        c = WAYD[w](m)
        for who, x in (('copy', c), ('original', m)):
            d = first_diff(answers(x, words)[:-1], want, words)
            acc.count('transitions', len(words))
            if d:
                acc.violation('%s of MorphAnalyzer(%s) (%s): %s' % (who, ', '.join(sorted(kw)), w, d), None)


def spaces(ck):
    return [
        ('option products', product(ck.tier), 'fast'),
        ('every way and history', single_and_pairs(ck.tier), 'fast'),
        ('new processes', other_process(ck.tier), 'fast'),
        ('installed dictionary', shipped, 'fast'),
    ]


def run_case(ck, case):
    with toydict.scratch() as tmp:
        if sys.executable.startswith('/opt/venv-slow'):
            code = ('import sys; sys.path[:0]=%r; import c20, json; print("\\n"+json.dumps(c20.replay(json.loads(sys.argv[1]))))'
                    % ([core.REPO, os.path.join(core.VERIF, 'mc'), os.path.join(core.VERIF, 'checks')],))
            out = subprocess.check_output(['/opt/venv/bin/python', '-B', '-c', code, json.dumps(case)])
            return json.loads(out.decode('utf8').strip().splitlines()[-1])
        return replay(case)


def replay(case):
    warnings.simplefilter('ignore')
    with toydict.scratch() as tmp:
        compile_dicts(tmp)
        args = case['args']
        cfg = tuple(args[0])
        acc = core.Acc()
        if case['kind'] == 'copy':
            return list(check_case(acc, tmp, cfg, args[1], args[2]))
        if case['kind'] == 'chain':
            return list(check_chain(acc, tmp, cfg, args[1]))
        res = []
        for w, _ in WAYS:
            for h in histories(w):
                res += list(check_case(acc, tmp, cfg, w, h))
        return res
