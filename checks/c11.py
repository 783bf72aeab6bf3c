# -*- coding: utf-8 -*-
"""
C11: unknown words are predicted from known tails and productive endings only.

Enumerated: every ending of every prediction table behind an unknown stem (and in
all е/ё spellings of it in C02), behind stems that make the word 1..6 letters
long, behind each paradigm prefix; every tag's representative behind unknown
heads of 1..7 letters; words of every length, first and last letters; all strings of up to 4 (thorough: 5) letters over a
reduced alphabet.  Oracle: reference prediction over the raw tables; closed parts
of speech, repeats and inflection of the results are checked on every parse.
"""
from core import shard
import fam
import ref as R
import toydict
import world as W

ID = 'C11'
LEVEL = 'model_checking'

CLOSED = R.NON_PRODUCTIVE


def check(acc, w, m=None, r=None, lex=True):
    m = m or W.morph()
    r = r or W.ref()
    for x in W.check_word(acc, w, m, r):
        yield x
    want = r.parse(w)
    if not all(p[4][0] in 'ps' for p in want):
        acc.count('not_predicted')
        return
    got = m.parse(w)
    for p in got:
        if r.d.grammemes(str(p.tag)) & CLOSED:
            yield 'closed part of speech predicted: %r' % (W.plain([p]),)
    if lex:
        for x in W.check_lexemes(acc, w, m, r):
            yield x
        # repeats: same word, tag and pattern of inflection
        seen = set()
        for p in got:
            key = (p.word, str(p.tag), p.normal_form, tuple((f[0], str(f[1])) for f in p.lexeme))
            if key in seen:
                yield 'repeated analysis %r' % (key[:3],)
            seen.add(key)


def check_fast(acc, w):
    return check(acc, w, lex=False)


def endings(step, deep):
    def space(acc, i, n):
        W.each(acc, W.share(fam.predicted(step), i, n), 'word' if deep else 'shallow', check if deep else check_fast)
    return space


def lengths(acc, i, n):
    """ words just around the length limits """
    def gen():
        d = W.refdict()
        for k, pref in enumerate(d.prefixes):
            es = fam.endings(k)
            for j, e in enumerate(es[::11]):
                yield pref + e
                yield 'ъ' + e
                yield pref + 'ъ' + e
                yield 'ъщы'[:1 + j % 3] + pref + e
                yield pref + 'ъщыъщыъщы' + e
    W.each(acc, W.share(gen(), i, n), 'shallow', check_fast)


def heads(acc, i, n):
    def gen():
        for w in fam.reps_plain():
            for h in ('щ', 'ыщ', 'щыъ', 'щъщъ', 'ъыщьъ', 'ъщыъьщ', 'щыщыщыщ'):
                yield h + w
    W.each(acc, W.share(gen(), i, n), 'shallow', check_fast)


def heads_lexemes(acc, i, n):
    W.each(acc, W.share(['ыщ' + w for w in fam.reps_plain()], i, n), 'word', check)


def short_words(acc, i, n):
    """ 1-4 letter dictionary words behind heads: the minimum remainder length """
    ws = [w for w in W.words() if len(w) <= 4 and '-' not in w]

    def gen():
        for w in ws[::2]:
            yield 'щы' + w
            yield 'щ' + w
        for w in ws[1::2]:
            yield 'ъщщы' + w
            yield 'щщщыъ' + w
    W.each(acc, W.share(gen(), i, n), 'shallow', check_fast)


def strings(letters, k):
    def space(acc, i, n):
        W.each(acc, W.share(W.strings(letters, k), i, n), 'shallow', check_fast)
    return space


def unusual(acc, i, n):
    W.each(acc, W.share((w for w in fam.longs() if '-' not in w and len(w) > 2), i, n), 'word', check)


def spaces(ck):
    t = ck.thorough
    return [
        ('all endings', endings(1, False), 'slow'),
        ('endings with lexemes', endings(1 if t else 9, True), 'slow'),
        ('word length limits', lengths, 'slow'),
        ('unknown heads', heads, 'slow'),
        ('unknown heads with lexemes', heads_lexemes, 'slow'),
        ('short remainders', short_words, 'slow'),
        ('all strings', strings('аоеёинсткрлйщьъ', 5 if t else 4), 'slow'),
        ('long and unusual words', unusual, 'slow'),
        ('endings', endings(13, True), 'fast'),
    ]


def run_case(ck, case):
    return list({'word': check, 'shallow': check_fast}[case['kind']](ck.acc, case['args']))
