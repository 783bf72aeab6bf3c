# -*- coding: utf-8 -*-
"""
C05: tags reported for a word are the tags of its parses.

Enumerated: all dictionary words (order and multiplicity compared), all е/ё
respellings of words with ё, words of every kind of prediction, all strings of up
to 3 (thorough: 4) letters over the lower-case Russian alphabet plus hyphen.
The two public calls parse() and tag() are compared with each other and with the
reference.  All under default options; the pairs are repeated on an analyzer
without probability estimation.
"""
from core import shard
import c14
import fam
import recorded as RC
import ref as R
import toydict
import world as W

ID = 'C05'
LEVEL = 'model_checking'


@W.memo
def plain_morph():
    return toydict.analyzer(W.dpath(), probability_estimator_cls=None)


def check_known(acc, w, m=None, r=None):
    m, r = m or W.morph(), r or W.ref()
    acc.count('transitions', 2)
    acc.count('traces')
    a = [str(t) for t in m.tag(w)]
    b = [str(p.tag) for p in m.parse(w)]
    if a != b:
        yield 'tag() %r, tags of parses %r' % (a[:8], b[:8])
    want = [p[1] for p in r.parse(w)]
    if sorted(a) != sorted(want):
        yield 'tag() %r, expected %r' % (sorted(a)[:8], sorted(want)[:8])
    if want and r.prob(w.lower(), want[0]) > r.prob(w.lower(), a[0]):
        yield 'the first tag %r is not the most probable' % a[0]


def check_any(acc, w):
    for m in (W.morph(), plain_morph()):
        acc.count('transitions', 2)
        acc.count('traces')
        a = set(str(t) for t in m.tag(w))
        b = set(str(p.tag) for p in m.parse(w))
        if a != b:
            yield 'tag() only %r, parses only %r' % (sorted(a - b)[:6], sorted(b - a)[:6])
        want = set(p[1] for p in W.ref().parse(w))
        if a != want:
            yield 'tag() has %r, misses %r' % (sorted(a - want)[:6], sorted(want - a)[:6])
        if m.word_is_known(w) and [str(t) for t in m.tag(w)] != [str(p.tag) for p in m.parse(w)]:
            yield 'order differs for a dictionary word'


def known(acc, i, n):
    W.each(acc, shard(W.words(), i, n), 'known', check_known)


def yo(acc, i, n):
    ws = shard([w for w in W.words() if 'ё' in w], i, n)
    W.each(acc, (w.replace('ё', 'е') for w in ws), 'any', check_any)


def unknown(acc, i, n):
    W.each(acc, W.share(fam.everything_unknown(thorough=True), i, n), 'any', check_any)


def pattern_check(m, r, known):
    def check(acc, w):
        if w in known:
            for x in check_known(acc, w, m, r):
                yield x
            return
        acc.count('transitions', 2)
        acc.count('traces')
        a = set(str(t) for t in m.tag(w))
        b = set(str(p.tag) for p in m.parse(w))
        want = set(p[1] for p in r.parse(w))
        if a != b or a != want:
            yield 'tag() %r, tags of parses %r, expected %r' % (sorted(a)[:6], sorted(b)[:6], sorted(want)[:6])
    return check


def patterns(acc, i, n):
    with toydict.scratch() as tmp:
        path, tokens = RC.build(tmp)
        check = pattern_check(toydict.analyzer(path), R.Ref(R.Dict(path)), set(t for t, known in tokens if known))
        W.each(acc, W.share([t for t, known in tokens], i, n), 'pattern', check)


def run_pattern(acc, w):
    with toydict.scratch() as tmp:
        path, tokens = RC.build(tmp)
        return list(pattern_check(toydict.analyzer(path), R.Ref(R.Dict(path)), set(t for t, known in tokens if known))(acc, w))


def initials(acc, i, n):
    W.each(acc, W.share(c14.context_tokens(), i, n), 'any', check_any)


LETTERS = 'абвгдеёжзийклмнопрстуфхцчшщъыьэюя-'


def short(k):
    def space(acc, i, n):
        W.each(acc, W.share(W.strings(LETTERS, k), i, n), 'any', check_any)
    return space


def spaces(ck):
    return [
        ('all dictionary words', known, 'slow'),
        ('respelled words', yo, 'slow'),
        ('predicted words', unknown, 'slow'),
        ('all short strings', short(4 if ck.thorough else 3), 'slow'),
        ('words of every kind', lambda a, i, n: W.each(a, shard(fam.mixed() + fam.reps_plain(), i, n), 'any', check_any), 'fast'),
        ('single letters in contexts', initials, 'slow'),
        ('every pattern of recorded probabilities', patterns, 'fast'),
    ]


def run_case(ck, case):
    if case['kind'] == 'pattern':
        return RC.elsewhere('c05', case['args'])
    return list({'known': check_known, 'any': check_any}[case['kind']](ck.acc, case['args']))
