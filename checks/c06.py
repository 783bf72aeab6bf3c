# -*- coding: utf-8 -*-
"""
C06: scores are P(tag|word) estimates, normalised or recorded, and sorted.

Enumerated: all dictionary words, words predicted in every way (all endings),
with and without probability estimation; a dictionary with every pattern of
recorded probabilities.  Oracle: scores recomputed by the
reference from the recorded P(t|w) values, the ending counts in the prediction
tables and the documented multipliers.
"""
from core import shard
import fam
import recorded as RC
import ref as R
import toydict
import world as W

ID = 'C06'
LEVEL = 'model_checking'
EPS = 1e-9


def check(acc, w, m=None, r=None):
    m, r = m or W.morph(), r or W.ref()
    acc.count('transitions')
    acc.count('traces')
    got = m.parse(w)
    want = r.parse(w)
    d = W.diff_parses(got, want)
    if d:
        yield d
        return
    scores = [p.score for p in got]
    wl = w.lower()
    probs = [r.prob(wl, str(p.tag)) for p in got]
    acc.count('scores_compared', len(got))
    if any(s < 0 or s > 1 + EPS for s in scores):
        yield 'score out of [0, 1]: %r' % scores
    if any(probs):
        acc.count('with_recorded_probabilities')
        if any(abs(a - b) > EPS for a, b in zip(scores, probs)):
            yield 'scores %r, recorded %r' % (scores, probs)
        if any(a < b for a, b in zip(scores, scores[1:])):
            yield 'not sorted: %r' % scores
    else:
        # a compound of a word whose parse has the recorded probability 0 may have the score 0
        if abs(sum(scores) - 1) > 1e-9 or min(scores) < 0 or min(scores) == 0 and all(p[3] for p in want):
            yield 'scores %r are not a distribution' % scores
        if set(p[4][0] for p in want) == set('d') and max(scores) - min(scores) > EPS:
            yield 'dictionary parses without probabilities differ in score: %r' % scores
        if set(p[4][0] for p in want) == set('s') and any(a < b - EPS for a, b in zip(scores, scores[1:])):
            yield 'predictions not sorted by support: %r' % scores


@W.memo
def plain_pair():
    return (toydict.analyzer(W.dpath(), probability_estimator_cls=None), R.Ref(W.refdict(), use_prob=False))


def check_plain(acc, w):
    m, r = plain_pair()
    acc.count('transitions')
    acc.count('traces')
    d = W.diff_parses(m.parse(w), r.parse(w))
    if d:
        yield 'without estimator: ' + d


def known(acc, i, n):
    W.each(acc, shard(W.words(), i, n), 'word', check)


def yo(acc, i, n):
    ws = shard([w for w in W.words() if 'ё' in w], i, n)
    W.each(acc, (w.replace('ё', 'е') for w in ws), 'word', check)


def unknown(acc, i, n):
    W.each(acc, W.share(fam.everything_unknown(thorough=True), i, n), 'word', check)


def unknown_plain(acc, i, n):
    W.each(acc, W.share(fam.everything_unknown(), i, n), 'plain', check_plain)


def recorded(acc, i, n):
    """ every word with recorded probabilities, also capitalised and with е for ё """
    ws = sorted(set(k.rsplit(':', 1)[0] for k in W.refdict().ptw.keys()))

    def gen():
        for w in shard(ws, i, n):
            yield w
            yield w.title()
            yield w.replace('ё', 'е')
            yield w + '-то'
            yield 'авто' + w
    W.each(acc, gen(), 'word', check)


def patterns(acc, i, n):
    with toydict.scratch() as tmp:
        path, tokens = RC.build(tmp)
        m = toydict.analyzer(path)
        r = R.Ref(R.Dict(path))
        W.each(acc, W.share([t for t, known in tokens], i, n), 'pattern', lambda a, w: check(a, w, m, r))


def run_pattern(acc, w):
    with toydict.scratch() as tmp:
        path, tokens = RC.build(tmp)
        return list(check(acc, w, toydict.analyzer(path), R.Ref(R.Dict(path))))


def spaces(ck):
    return [
        ('all dictionary words', known, 'slow'),
        ('words with recorded probabilities', recorded, 'slow'),
        ('respelled words', yo, 'slow'),
        ('predicted words', unknown, 'slow'),
        ('predicted words, no estimator', unknown_plain, 'slow'),
        ('words of every kind', lambda a, i, n: W.each(a, shard(fam.mixed() + fam.reps_plain(), i, n), 'word', check), 'fast'),
        ('every pattern of recorded probabilities', patterns, 'fast'),
    ]


def run_case(ck, case):
    if case['kind'] == 'pattern':
        return RC.elsewhere('c06', case['args'])
    return list({'word': check, 'plain': check_plain}[case['kind']](ck.acc, case['args']))
