# -*- coding: utf-8 -*-
"""
C26: estimated probabilities are the smoothed corpus frequencies.

All small corpora (multisets of observations: word in some letter case, the
readings the corpus gives it) over a small dictionary x frequency thresholds are
turned into probabilities by the real code (with stand-ins for NLTK's Laplace
estimator and the corpus reader, which are not installed here).  Afterwards the
scores of all words are compared with an estimate computed here from the corpus.
Also: adding probabilities twice, and a corpus of words of the installed dictionary.
"""
import collections
import itertools
import json
import os
import shutil
import sys

import core
import toydict

ID = 'C26'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of small corpora x thresholds on the real estimation code against an independent estimate'
assumptions = ['NLTK and opencorpora-tools are replaced by stand-ins with the documented behaviour']

sys.path.insert(0, os.path.join(core.VERIF, 'mc', 'stubs'))
import pymorphy2  # noqa

N, G, P = 'NOUN,inan,masc sing,nomn', 'NOUN,inan,masc sing,gent', 'NOUN,anim,masc sing,nomn'
LEX = [
    toydict.noun(1, 'кот', [('', 'sing,nomn'), ('а', 'sing,gent')]),
    toydict.noun(2, 'кот', [('', 'sing,nomn'), ('а', 'sing,accs')], 'NOUN,anim,masc'),
    toydict.noun(3, 'кот', [('о', 'sing,nomn'), ('', 'sing,gent')]),                    # кот: 3 readings
    toydict.noun(4, 'дом', [('', 'sing,nomn'), ('', 'sing,accs'), ('а', 'sing,gent')]),  # дом: 2
    toydict.noun(5, 'лес', [('', 'sing,nomn'), ('у', 'sing,gent')]),                    # unambiguous
    toydict.noun(6, 'ёлк', [('а', 'sing,nomn'), ('а', 'sing,voct')], 'NOUN,inan,femn'),
    (7, 'ADVB', [('а:б', '')]), (8, 'CONJ', [('а:б', '')]),
    (9, 'NOUN,inan,masc', [('роты', 'plur,nomn')]), (10, 'NOUN,inan,masc', [('рота', 'sing,nomn'), ('роты', 'plur,nomn')]),
    (11, 'ADVB', [('ххх', '')]), (12, 'CONJ', [('ххх', '')]), (13, 'PREP', [('xxх', '')]),
    toydict.noun(14, 'пот', [('', 'sing,nomn'), ('а', 'sing,gent')]),
    toydict.noun(15, 'бот', [('', 'sing,nomn'), ('а', 'sing,accs')], 'NOUN,anim,masc'),
    toydict.noun(16, 'стот', [('', 'sing,nomn'), ('а', 'sing,gent')]),
    toydict.noun(17, 'блот', [('', 'sing,nomn'), ('а', 'sing,accs')], 'NOUN,anim,masc'),
]
WORDS = ['кот', 'КОТ', 'Кот', 'кота', 'дом', 'дома', 'лес', 'ёлка', 'елка', 'ЕЛКА', 'а:б', 'роты', 'ххх', 'плот', 'плота',
         'А', 'а', 'V', 'v', '1', 'кот-то', 'экс-кот', 'яяя', '']


def obs(word, *tags):
    return [word, [[word.lower(), t] for t in tags]]


# observations; the last ones must not count
POOL = [
    obs('кот', N), obs('Кот', 'NOUN,inan,masc sing,gen1'), obs('КОТ', P), obs('кот', 'NOUN,masc,inan nomn,sing'),
    obs('кот', 'VERB'), obs('кот', 'UNKN'),
    obs('дом', N), obs('дом', 'NOUN,inan,masc sing,acc1'),
    obs('лес', N),
    obs('елка', 'NOUN,inan,femn sing,nomn'), obs('ёлка', 'NOUN,inan,femn sing,voct'),
    obs('а:б', 'CONJ'), obs('роты', 'NOUN,inan,masc plur,nomn'),
    obs('плот', 'NOUN,anim,masc sing,nomn'), obs('плота', G),
    obs('А', 'NOUN,anim,masc,Sgtm,Name,Fixd,Abbr,Init sing,nomn'), obs('V', 'ROMN'), obs('V', 'LATN'),
    obs('кот', N, P), obs('дом'), obs(',', 'PNCT'),
]
SMALL = [0, 1, 2, 3, 4, 5, 6, 7, 9, 10]


def compile_base(tmp):
    path = toydict.compile_spec(tmp, LEX, options={'min_ending_freq': 1, 'min_paradigm_popularity': 1}, name='base')
    return path


def grammemes(tag):
    for a, b in (('loc1', 'loct'), ('gen1', 'gent'), ('acc1', 'accs')):
        tag = tag.replace(a, b)
    return frozenset(tag.replace(' ', ',').split(','))


def estimate(base, corpus, freq):
    """ {word: {tag string: probability}} from the corpus; base: analyzer without probabilities """
    counts = collections.OrderedDict()
    n_obs = 0
    for word, parses in corpus:
        if len(parses) != 1:
            continue
        gr = grammemes(parses[0][1])
        if gr == frozenset(['UNKN']) or len(base.parse(word)) < 2:
            continue
        n_obs += 1
        counts.setdefault(word.lower(), collections.Counter())[gr] += 1
    res = {}
    for w, c in counts.items():
        total = sum(c.values())
        if total < freq:
            continue
        parses = base.parse(w)
        bins = max(len(parses), len(c))
        probs = dict((str(p.tag), (c[frozenset(p.tag.grammemes)] + 1.0) / (total + bins)) for p in parses)
        if len(set(probs.values())) > 1:
            res[w] = probs
    return res, len(counts), n_obs


PARTS = {'кот-то': 'кот', 'экс-кот': 'кот'}


def expected(base, est, word):
    """ parses with the scores that follow from the estimates """
    parses = base.parse(word)
    probs = est.get(word.lower(), {})
    scores = [probs.get(str(p.tag), 0) for p in parses]
    if not any(scores) and word in PARTS:
        # analysed through a part of the word: its scores, normalised
        part = dict(((p[1], p[2]), p[3]) for p in expected(base, est, PARTS[word]))
        n = 4 if word.startswith('экс') else -3
        scores = [part[str(p.tag), p.normal_form[n:] if n > 0 else p.normal_form[:n]] for p in parses]
        scores = [x / sum(scores) for x in scores]
        return sorted([(p.word, str(p.tag), p.normal_form, s) for p, s in zip(parses, scores)], key=lambda r: -r[3])
    if not any(scores):
        total = sum(p.score for p in parses)
        return [(p.word, str(p.tag), p.normal_form, p.score / total) for p in parses]
    res = [(p.word, str(p.tag), p.normal_form, s) for p, s in zip(parses, scores)]
    return sorted(res, key=lambda r: -r[3])


def differs(got, want):
    """ compares parses; equal scores (up to storage precision) may come in any order """
    if len(got) != len(want):
        return 'other parses'
    if sorted(g[:3] for g in got) != sorted(w[:3] for w in want):
        return 'other parses'
    byp = collections.defaultdict(list)
    for w in want:
        byp[w[:3]].append(w[3])
    for g in got:
        if not any(abs(g[3] - s) <= 3e-6 for s in byp[g[:3]]):
            return 'another score'
    if [g[3] for g in got] != sorted([g[3] for g in got], reverse=True) and any(
            a[3] < b[3] - 2e-6 for a, b in zip(got, got[1:])):
        return 'not sorted by score'
    return None


def fresh_copy(base, out):
    if os.path.isdir(out):
        shutil.rmtree(out)
    shutil.copytree(base, out)


def add(out, corpus, freq, tmp, morph=None):
    from pymorphy2.opencorpora_dict.probability import add_conditional_tag_probability
    fn = os.path.join(tmp, 'corpus.json')
    with open(fn, 'w', encoding='utf8') as f:
        json.dump(corpus, f)
    kw = {'morph': morph} if morph is not None else {}
    add_conditional_tag_probability(fn, out, freq, **kw)


def compare(acc, base, out, corpus, freq, words, case):
    est, nwords, nobs = estimate(base, corpus, freq)
    m = toydict.analyzer(out)
    for w in words:
        acc.count('transitions')
        got = [(p.word, str(p.tag), p.normal_form, p.score) for p in m.parse(w)]
        want = expected(base, est, w)
        if any(p[3] for p in want) and not sorted_default(base, w):
            got_sorted = sorted(got, key=lambda r: -r[3])
            d = differs(got_sorted, want)
        else:
            d = differs(got, want)
        if d:
            acc.violation('%r: %s: %r, expected %r' % (w, d, got, want), case)
        # tags come in the order of their probabilities
        if est.get(w.lower()):
            pr = [est[w.lower()].get(str(t), 0) for t in m.tag(w)]
            if any(a < b - 2e-6 for a, b in zip(pr, pr[1:])):
                acc.violation('%r: tags not ordered by probability: %r' % (w, m.tag(w)), case)
    meta = m.dictionary.meta
    for k, v in (('P(t|w)', True), ('P(t|w)_unique_words', nwords), ('P(t|w)_outcomes', nobs),
                 ('P(t|w)_min_word_freq', freq)):
        if meta.get(k) != v:
            acc.violation('metadata %s=%r, expected %r' % (k, meta.get(k), v), case)
    return est


def sorted_default(base, w):
    s = [p.score for p in base.parse(w)]
    return s == sorted(s, reverse=True)


def corpora(thorough):
    """ index multisets over POOL """
    res = []
    for r in range(0, 4 if thorough else 3):
        res += list(itertools.combinations_with_replacement(range(len(POOL)), r))
    for r in ((4, 5) if thorough else (3, 4)):
        res += list(itertools.combinations_with_replacement(SMALL[:7] if r > 3 else SMALL, r))
    # counts of the readings of one word
    top = 8 if thorough else 5
    for a, b, c in itertools.product(range(top), repeat=3):
        res.append((0,) * a + (1,) * b + (2,) * c)
    for a, b, c in itertools.product(range(0, 12, 3), repeat=3):
        res.append((0,) * a + (2,) * b + (4,) * c)
    # large counts, in nearly equal, very different and increasing proportions
    for a, b in itertools.product([0, 1, 2, 49, 50, 51, 99, 100, 101, 499, 500, 501] if not thorough else
                                  [0, 1, 2, 49, 50, 51, 99, 100, 101, 499, 500, 501, 999, 1000, 1001, 2000, 2001], repeat=2):
        if max(a, b) > 40:
            res.append((6,) * a + (7,) * b)
            if a < 102 and b < 102:
                res.append((0,) * a + (1,) * b + (2,) * a)
                res.append((0,) * a + (1,) * b + (2,) * (b + 1))
                res.append((9,) * a + (10,) * b)
    seen = set()
    return [c for c in res if not (c in seen or seen.add(c))]


def one(acc, base, path, tmp, c, freq, case, order=1):
    out = os.path.join(tmp, 'out')
    fresh_copy(path, out)
    corpus = [POOL[k] for k in c][::order]
    add(out, corpus, freq, tmp)
    est = compare(acc, base, out, corpus, freq, WORDS, case)
    acc.count('states')
    acc.outcome('%d words with estimates' % len(est))


def corpus_space(acc, i, n):
    thorough = os.environ.get('VERIF_TIER') == 'thorough'
    with toydict.scratch() as tmp:
        path = compile_base(tmp)
        base = toydict.analyzer(path, probability_estimator_cls=None)
        for j, (c, freq) in enumerate(itertools.product(corpora(thorough), [0, 1, 2, 4, 100, 102])):
            if j % n != i:
                continue
            if len(c) < freq:
                continue
            case = {'kind': 'corpus', 'args': [list(c), freq]}
            acc.case = case
            acc.tick += 1
            one(acc, base, path, tmp, c, freq, case, 1 if j % 2 else -1)
            if acc.full():
                break


def again_space(acc, i, n):
    """ probabilities added to a dictionary that has some already, and with an analyzer passed in """
    cs = [(), (0, 0, 2), (2, 2, 2, 1), (6, 6, 7), (9, 10, 10, 11), (0, 1, 2, 2, 2, 7, 7)]
    with toydict.scratch() as tmp:
        path = compile_base(tmp)
        base = toydict.analyzer(path, probability_estimator_cls=None)
        for j, (a, b, f1, f2, how) in enumerate(itertools.product(cs, cs, [1, 3], [1, 2], [0, 1])):
            if j % n != i:
                continue
            case = {'kind': 'again', 'args': [list(a), list(b), f1, f2, how]}
            acc.case = case
            acc.tick += 1
            again(acc, base, path, tmp, a, b, f1, f2, how, case)


def again(acc, base, path, tmp, a, b, f1, f2, how, case):
    out = os.path.join(tmp, 'out')
    fresh_copy(path, out)
    add(out, [POOL[k] for k in a], f1, tmp)
    add(out, [POOL[k] for k in b], f2, tmp, base if how else None)
    compare(acc, base, out, [POOL[k] for k in b], f2, WORDS, case)
    acc.count('states')


def installed_space(acc, i, n):
    """ a corpus of every k-th word of the installed dictionary, readings in different proportions """
    if i:
        return
    import setup_cache
    path = pymorphy2.MorphAnalyzer.choose_dictionary_path(None, 'ru')
    base = toydict.analyzer(path, probability_estimator_cls=None)
    acc.case = {'kind': 'installed', 'args': []}
    step = 2000 if os.environ.get('VERIF_TIER') != 'thorough' else 200
    corpus = []
    words = []
    with open(os.path.join(core.VERIF, 'cache', 'words.txt'), encoding='utf8') as f:
        for k, line in enumerate(f):
            if k % step:
                continue
            w = line.rstrip('\n')
            words.append(w)
            for q, p in enumerate(base.parse(w)):
                for _ in range((k // step + q) % 4):
                    corpus.append(obs(w.upper() if q % 2 else w, str(p.tag)))
    with toydict.scratch() as tmp:
        out = os.path.join(tmp, 'out')
        os.mkdir(out)
        for fn in os.listdir(path):
            if fn.startswith('p_t_given_w'):
                continue
            if fn == 'meta.json':
                shutil.copy(os.path.join(path, fn), os.path.join(out, fn))
            else:
                os.symlink(os.path.join(path, fn), os.path.join(out, fn))
        for freq in (1, 3):
            acc.tick += 1
            add(out, corpus, freq, tmp, base)
            compare(acc, base, out, corpus, freq, words, acc.case)
            acc.count('states')


def spaces(ck):
    return [('corpora', corpus_space, 'fast'), ('added twice', again_space, 'fast'),
            ('installed dictionary', installed_space, 'fast')]


def run_case(ck, case):
    if not pymorphy2.dawg.EXTENSION_AVAILABLE:
        return ['replay this case with ./run --fast']
    acc = core.Acc()
    if case['kind'] == 'installed':
        installed_space(acc, 0, 1)
        return [w for w, c in acc.violations]
    with toydict.scratch() as tmp:
        path = compile_base(tmp)
        base = toydict.analyzer(path, probability_estimator_cls=None)
        if case['kind'] == 'corpus':
            one(acc, base, path, tmp, case['args'][0], case['args'][1], case)
        else:
            again(acc, base, path, tmp, *(case['args'] + [case]))
    return [w for w, c in acc.violations]
