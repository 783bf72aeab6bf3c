# -*- coding: utf-8 -*-
"""
C30: both dictionary backends and prefix matchers give the same answers.

answers    the same enumerated words are analysed in both installed environments
           (compiled and pure-Python automaton library) and all answers compared:
           parses, tags, scores, normal forms, lexemes, known-word questions.
toy        the same on small dictionaries with all short words (unknown letters,
           substitutes, probabilities, prefixes of their own).
low level  look-ups, prefix and completion queries of the two libraries.
prefixes   all lists of prefixes over short strings x all words over a small
           alphabet, for both prefix matchers, against startswith.
"""
import hashlib
import itertools
import json
import os
import pickle
import subprocess
import sys

import core
import fam
import toydict
import world as W

ID = 'C30'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of words in both environments with comparison of all answers; all prefix lists x words'
assumptions = ['scores are compared up to 1e-9; the order of parses with equal scores is not compared']

import pymorphy2  # noqa
from pymorphy2 import dawg, units as U  # noqa

FAST, SLOW = '/opt/venv/bin/python', '/opt/venv-slow/bin/python'


def canon(m, w, lex=True):
    """ all answers about one word """
    ps = m.parse(w)
    rows = sorted((p[0], str(p[1]), p[2], '%.9f' % p[3], [type(x[0]).__name__ for x in p[4]]) for p in ps)
    res = [rows, ['%.9f' % p[3] for p in ps], sorted(str(t) for t in m.tag(w)), sorted(m.normal_forms(w)),
           m.word_is_known(w), m.word_is_known(w, strict=True)]
    if lex:
        for p in ps[:2]:
            res.append([(f[0], str(f[1]), f[2]) for f in m.get_lexeme(p)])
            res.append(p.normalized[:3] and (p.normalized[0], str(p.normalized[1]), p.normalized[2]))
            res.append(p.is_known)
    return res


def low(m, w):
    """ answers of the dictionary itself """
    d = m.dictionary
    return [
        w in d.words, d.words.get(w), sorted(d.words.keys(w))[:50] if len(w) > 3 else None,
        sorted(d.words.similar_keys(w, m.char_substitutes)), sorted(d.words.similar_items(w, m.char_substitutes)),
        sorted(d.words.similar_item_values(w, m.char_substitutes)), d.words.prefixes(w),
        [x.get(w[-4:]) for x in d.prediction_suffixes_dawgs],
        m.prob_estimator and ['%.9f' % m.prob_estimator.p_t_given_w.prob(w, t) for t in m.tag(w)],
    ]


def answers(m, kind, item):
    if kind == 'low':
        return low(m, item)
    return canon(m, item, kind == 'full')


# ---- the words -------------------------------------------------------------------------------------------

ALPHA = 'аеёиойкнтпр-1xМ.'


def families(thorough):
    k = 1 if thorough else 3
    yield 'full', lambda: W.tag_rep_words()[::1 if thorough else 2]
    yield 'full', lambda: fam.mixed()
    yield 'word', lambda: [w for w, p in W.para_reps()]
    yield 'word', lambda: list(itertools.islice(fam.everything_unknown(), 0, None, k))
    yield 'word', lambda: W.words()[::20 if thorough else 100]
    yield 'word', lambda: [''.join(p) for r in range(4) for p in itertools.product(ALPHA, repeat=r)]
    yield 'word', lambda: [w.upper() for w in W.tag_rep_words()] + [w.replace('ё', 'е') for w in W.words()[::97] if 'ё' in w]
    yield 'low', lambda: W.words()[3::1000 if thorough else 4000]
    yield 'low', lambda: [w + x for w in W.tag_rep_words()[::5] for x in ('', 'а', 'ъ', '-', ' ', '\U0001F600', 'é')]
    yield 'low', lambda: [w[:-1] for w in W.tag_rep_words()[::5]]
    yield 'word', odd


def odd():
    res = []
    for c in ('é', '\u0301', '\U0001F600', '中', '\x01', '\x02', '\x7f', '\x80', '\xa0', '\ufffd', '\uffff', '\U0010ffff', '\n', '\t', ':',
              '|', '=', '\\', '"', "'", 'ß', 'İ', 'ǅ', 'ﬁ', 'Ω'):
        for t in ('%s', 'кот%s', '%sкот', 'к%sт', 'е%sж', '%s%s', 'кот-%s', '%s-то', 'авто%s', 'КОТ%s'):
            res.append(t.replace('%s', c))
    return res


NUL = ['кот\x00', '\x00', '\x00кот', 'ко\x00т', 'еж\x00', 'кот\x00а', 'ъщ\x00', 'по\x00кот', 'авто\x00кот', 'кот-\x00', '\x00-то',
       'кот\x00-то', 'ъщкот\x00', 'по-\x00кот', 'экс-кот\x00']

TOY = [
    toydict.noun(1, 'кот', [('', 'sing,nomn'), ('а', 'sing,gent'), ('ё', 'sing,loct')]),
    toydict.noun(2, 'кот', [('', 'sing,nomn'), ('е', 'sing,loct')], 'NOUN,anim,masc'),
    toydict.noun(3, 'ё', [('', 'sing,nomn'), ('ё', 'sing,gent'), ('ёк', 'plur')]),
    toydict.noun(4, 'ток', [('', 'sing,nomn'), ('ё', 'sing,gent')]),
    (5, 'ADJF,Qual', [('тое', 'sing'), ('потоее', 'Cmp2')]),
    (6, 'PREP', [('о', '')]), (7, 'CONJ', [('о', '')]), (8, 'NOUN', [('кот кот', '')]), (9, 'NOUN', [('к-т', ''), ('ж' * 30, '')]),
    (10, 'NOUN', [('\U0001F600', ''), ('é', ''), ('e\u0301', '')]),
]
TALPHA = 'котеё-' + 'п '


def toy_build(base):
    src = os.path.join(base, 'toy.xml')
    with open(src, 'w', encoding='utf8') as f:
        f.write(toydict.xml(TOY))
    act = {'do': 'compile', 'src': src, 'out': os.path.join(base, 'toy'), 'source': 't', 'lang': 'ru', 'overwrite': False,
           'options': {'paradigm_prefixes': ['', 'по'], 'min_ending_freq': 1, 'min_paradigm_popularity': 1}}
    if subprocess.call([FAST, os.path.join(core.VERIF, 'mc', 'savechild.py'), json.dumps(act)], stdout=subprocess.DEVNULL):
        raise core.WorkerError('compilation failed')
    code = 'import sys; sys.path.insert(0, %r); import toydict; toydict.add_probs(%r, %r)' % (
        os.path.join(core.VERIF, 'mc'), os.path.join(base, 'toy'),
        {('кот', 'NOUN,anim,masc sing,nomn'): 0.7, ('кот', 'NOUN,inan,masc sing,nomn'): 0.3, ('о', 'CONJ'): 0.000001,
         ('о', 'PREP'): 0.999999, ('тек', 'UNKN'): 0.5})
    e = dict(os.environ)
    if core.REPO != '/repo':
        e['PYTHONPATH'] = core.REPO
    if subprocess.call([FAST, '-c', code], env=e):
        raise core.WorkerError('adding probabilities failed')


def toy_words(thorough):
    return [''.join(p) for r in range(6 if thorough else 5) for p in itertools.product(TALPHA, repeat=r)]


TOY_UNITS = [None] + [
    [[U.DictionaryAnalyzer()], [U.KnownPrefixAnalyzer(known_prefixes=list(c), min_remainder_length=1), U.UnknownPrefixAnalyzer()]]
    for c in [(), ('о',), ('о', 'от'), ('от', 'о', 'к-', 'кот'), ('ё', 'ёё', 'её', 'е'), (' ', 'к ', 'п\u0301')]]


# ---- recording answers -----------------------------------------------------------------------------------

def dig(x):
    return hashlib.md5(json.dumps(x, ensure_ascii=True, sort_keys=True, default=list).encode()).digest()[:8]


def out_file(name, i):
    return os.path.join(os.environ['VERIF_C30'], '%s-%s-%d' % ('fast' if dawg.EXTENSION_AVAILABLE else 'slow', name, i))


def all_items(thorough):
    for kind, gen in families(thorough):
        for w in gen():
            yield kind, w


def answers_space(acc, i, n):
    m = W.morph()
    thorough = os.environ.get('VERIF_TIER') == 'thorough'
    with open(out_file('answers', i), 'wb') as f:
        for kind, w in W.share(all_items(thorough), i, n):
            acc.case = {'kind': kind, 'word': w}
            acc.tick += 1
            f.write(dig(answers(m, kind, w)))
            acc.count('states')
            acc.count('transitions')
        acc.case = None


def nul_space(acc, i, n):
    if i:
        return
    m = W.morph()
    with open(out_file('nul', 0), 'wb') as f:
        for w in NUL:
            acc.case = {'kind': 'word', 'word': w}
            f.write(dig(answers(m, 'word', w)))
            acc.count('states')


def toy_space(acc, i, n):
    thorough = os.environ.get('VERIF_TIER') == 'thorough'
    words = toy_words(thorough)
    with open(out_file('toy', i), 'wb') as f:
        for u in range(len(TOY_UNITS)):
            m = toydict.analyzer(os.path.join(os.environ['VERIF_C30'], 'toy'), units=TOY_UNITS[u])
            for w in words[i::n]:
                acc.case = {'kind': 'toy', 'word': w, 'units': u}
                acc.tick += 1
                f.write(dig([canon(m, w), low(m, w) if u == 0 else None,
                             [(p[0], str(p[1]), p[2]) for p in m.iter_known_word_parses(w)] if u == 0 else None]))
                acc.count('states')
                acc.count('transitions')


def compare(ck, name, items):
    """ compare the recorded answers of the two environments """
    bad = 0
    for i in range(core.NPROC):
        data = []
        for b in ('fast', 'slow'):
            fn = os.path.join(os.environ['VERIF_C30'], '%s-%s-%d' % (b, name, i))
            if not os.path.exists(fn):
                data = None
                break
            with open(fn, 'rb') as f:
                data.append(f.read())
        if data is None:
            continue
        its = None
        if len(data[0]) != len(data[1]):
            raise core.WorkerError('different numbers of answers: %s' % name)
        for k in range(0, len(data[0]), 8):
            if data[0][k:k + 8] != data[1][k:k + 8]:
                if its is None:
                    its = items(i)
                bad += 1
                if bad <= 20:
                    case = its[k // 8]
                    ck.acc.violation('the environments answer differently: %s' % (case,), case)
        ck.acc.count('traces', len(data[0]) // 8)
    ck.log('compared', name, 'differences:', bad)


# ---- prefix matchers -------------------------------------------------------------------------------------

def check_matcher(ms, plist, words):
    for w in words:
        want = sorted(p for p in plist if w.startswith(p))
        for m in ms:
            got = list(m.prefixes(w))
            if sorted(got) != want:
                return '%s%r.prefixes(%r) = %r' % (type(m).__name__, plist, w, got)
            if bool(m.is_prefixed(w)) != bool(want):
                return '%s%r.is_prefixed(%r) = %r' % (type(m).__name__, plist, w, m.is_prefixed(w))
    return None


def matchers(plist):
    ms = [dawg.PythonPrefixMatcher(plist), dawg.PythonPrefixMatcher(set(plist)), dawg.PrefixMatcher(plist)]
    if dawg.EXTENSION_AVAILABLE:
        ms.append(dawg.DawgPrefixMatcher(plist))
        ms.append(dawg.DawgPrefixMatcher(set(plist)))
    return ms


def prefix_space(acc, i, n):
    pool = [''.join(p) for r in (1, 2, 3) for p in itertools.product('аб', repeat=r)]       # 14 strings
    words = [''.join(p) for r in range(6) for p in itertools.product('аб', repeat=r)] + ['в', 'ав', 'абв', 'ба-']
    thorough = os.environ.get('VERIF_TIER') == 'thorough'
    for mask in range(i, 1 << len(pool), n):
        if not thorough and mask % 4 and bin(mask).count('1') > 4:
            continue
        plist = [p for k, p in enumerate(pool) if mask >> k & 1]
        if mask % 3 == 0:
            plist.reverse()
        acc.case = {'kind': 'prefixes', 'list': plist}
        acc.tick += 1
        acc.count('states')
        acc.count('transitions', len(words))
        b = check_matcher(matchers(plist), plist, words)
        if b:
            acc.violation(b, acc.case)
            if acc.full():
                return


def prefix_space2(acc, i, n):
    """ other letters: several bytes, hyphens, and the real lists """
    pool = ['é', 'e\u0301', '\U0001F600', '-', 'а-', '--', 'а', ' ', 'аб', 'е', 'ё', 'A']
    words = [''.join(p) for r in range(4) for p in itertools.product(['é', 'e', '\u0301', '\U0001F600', '-', 'а', ' ', 'б', 'ё', 'A'],
                                                                   repeat=r)]
    j = -1
    for r in range(4):
        for c in itertools.permutations(pool, r):
            j += 1
            if j % n != i:
                continue
            acc.case = {'kind': 'prefixes', 'list': list(c)}
            acc.tick += 1
            acc.count('states')
            acc.count('transitions', len(words))
            b = check_matcher(matchers(list(c)), list(c), words)
            if b:
                acc.violation(b, acc.case)
                return
    real = fam.prefixes()
    for w in [p + q for p in real for q in real][i::n] + [w for w in W.tag_rep_words()][i::n]:
        acc.count('transitions')
    ms = matchers(real)
    b = check_matcher(ms, real, [p + q for p in real[i::n] for q in real] + W.words()[i::n * 20])
    if b:
        acc.violation(b[-200:], {'kind': 'prefixes', 'list': real})


def spaces(ck):
    return [
        ('prefix matchers', prefix_space, 'fast'), ('prefix matchers (slow)', prefix_space, 'slow'),
        ('prefix matchers, other letters', prefix_space2, 'fast'),
        ('prefix matchers, other letters (slow)', prefix_space2, 'slow'),
        ('toy', toy_space, 'fast'), ('toy (slow)', toy_space, 'slow'),
        ('nul', nul_space, 'fast'), ('nul (slow)', nul_space, 'slow'),
        ('answers', answers_space, 'fast'), ('answers (slow)', answers_space, 'slow'),
    ]


def run(ck):
    with toydict.scratch() as d:
        os.environ['VERIF_C30'] = d
        toy_build(d)
        ck.run_spaces(ID, spaces(ck))
        n = core.NPROC
        compare(ck, 'answers', lambda i: [{'kind': k, 'word': w} for k, w in W.share(all_items(ck.thorough), i, n)])
        if not os.environ.get('VERIF_ONLY_SPACE'):
            with open(os.path.join(d, 'fast-nul-0'), 'rb') as f, open(os.path.join(d, 'slow-nul-0'), 'rb') as g:
                a, b = f.read(), g.read()
            diff = [w for k, w in enumerate(NUL) if a[8 * k:8 * k + 8] != b[8 * k:8 * k + 8]]
            if diff:
                # one case: the list is the identity of the known finding
                ck.acc.violation('the environments answer differently about words with the character U+0000: %r' % (diff,),
                                 {'kind': 'nul', 'words': diff})
        words = toy_words(ck.thorough)
        compare(ck, 'toy', lambda i: [{'kind': 'toy', 'word': w, 'units': u} for u in range(len(TOY_UNITS)) for w in words[i::n]])


def answer(case):
    if case['kind'] == 'nul':
        return [answers(W.morph(), 'word', w) for w in case['words']]
    if case['kind'] == 'toy':
        m = toydict.analyzer(os.path.join(os.environ['VERIF_C30'], 'toy'), units=TOY_UNITS[case['units']])
        w = case['word']
        return [canon(m, w), low(m, w) if case['units'] == 0 else None,
                [(p[0], str(p[1]), p[2]) for p in m.iter_known_word_parses(w)] if case['units'] == 0 else None]
    return answers(W.morph(), case['kind'], case['word'])


def run_case(ck, case):
    if case['kind'] == 'prefixes':
        pool = sorted(set(''.join(case['list'])) | set('аб'))[:6]
        words = [''.join(p) for r in range(5) for p in itertools.product(pool, repeat=r)]
        b = check_matcher(matchers(case['list']), case['list'], words)
        return [b] if b else []
    with toydict.scratch() as d:
        os.environ['VERIF_C30'] = d
        if case['kind'] == 'toy':
            toy_build(d)
        res = []
        for py in (FAST, SLOW):
            code = ('import sys, json; sys.path[:0] = [%r, %r] + %r; import c30; '
                    'sys.stderr.write(""); print("@@" + json.dumps(c30.answer(json.loads(sys.argv[1])), default=list))'
                    % (os.path.join(core.VERIF, 'mc'), os.path.join(core.VERIF, 'checks'), [core.REPO] if core.REPO != '/repo' else []))
            out = subprocess.check_output([py, '-c', code, json.dumps(case)]).decode('utf8')
            res.append(out.split('@@')[-1].strip())
    if res[0] != res[1]:
        return ['compiled: %s\npure Python: %s' % tuple(r[:1500] for r in res)]
    return []
