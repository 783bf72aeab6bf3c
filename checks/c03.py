# -*- coding: utf-8 -*-
"""
C03: letter case of the input does not matter.

Enumerated: known-word queries of all dictionary words in upper and title case
(strict and not); full analysis of one word per (paradigm, form) in three
capitalisations; all 2^n letter-case masks of words of up to 8 letters covering
every kind of analysis; all strings of up to 5 characters with a letter whose
lower-case form is longer.  Oracle: the reference analysis, which only sees the
lower-cased word, plus direct comparison with the lower-case answer.
"""
import itertools

from core import shard
import fam
import refcfg
import world as W

ID = 'C03'
LEVEL = 'model_checking'
LETTERS = set(refcfg.LANG['ru']['letters'])


def flips(word, maxn):
    """ all case masks; only letters with a one-letter counterpart that maps back """
    opts = []
    n = 0
    for c in word:
        u, l = c.upper(), c.lower()
        if u != l and len(u) == len(l) == 1 and u.lower() == l and l.upper() == u and n < maxn:
            opts.append((l, u))
            n += 1
        else:
            opts.append((c,))
    return [''.join(t) for t in itertools.product(*opts)]


def alternate(w):
    return ''.join(c.upper() if k % 2 else c for k, c in enumerate(w))


def check(acc, v):
    m, r = W.morph(), W.ref()
    for x in W.check_word(acc, v):
        yield x
    low = v.lower()
    got = m.parse(v)
    for p in got:
        if p.word != p.word.lower() or p.normal_form != p.normal_form.lower():
            yield 'reported word %r / normal form %r not in lower case' % (p.word, p.normal_form)
    if v in LETTERS:
        base = [x for x in W.plain(got) if ',Init' not in x[1]]
        want = [x for x in W.plain(m.parse(low))]
        if m.word_is_known(low) and sorted(x[:3] for x in base) != sorted(x[:3] for x in want):
            yield 'dictionary analysis of the initial differs from %r' % low
    else:
        if W.plain(got) != W.plain(m.parse(low)):
            yield 'parses differ from those of %r: %r, %r' % (low, W.plain(got)[:4], W.plain(m.parse(low))[:4])
        if [str(t) for t in m.tag(v)] != [str(t) for t in m.tag(low)]:
            yield 'tags differ from those of %r' % low
        if m.normal_forms(v) != m.normal_forms(low):
            yield 'normal forms differ from those of %r' % low
    if m.word_is_known(v) != r.is_known(v):
        yield 'word_is_known=%r' % m.word_is_known(v)
    if m.word_is_known(v, strict=True) != r.is_known(v, strict=True):
        yield 'strict word_is_known=%r' % m.word_is_known(v, strict=True)


def check_known(acc, w):
    m = W.morph()
    acc.count('transitions', 2)
    acc.count('traces')
    for v in (w.upper(), w.title()):
        if v.lower() == w:
            if not m.word_is_known(v):
                yield 'word_is_known(%r) is False' % v
            if not m.word_is_known(v, strict=True):
                yield 'strict word_is_known(%r) is False' % v


def known(acc, i, n):
    W.each(acc, shard(W.words(), i, n), 'known', check_known)


def reps(acc, i, n):
    ws = sorted(set(w for p, x, w in W.reps()))

    def gen():
        for w in shard(ws, i, n):
            yield w.upper()
            yield w.title()
            yield alternate(w)
    W.each(acc, gen(), 'case', check)


def masks(acc, i, n):
    ws = [w for w in fam.mixed() if len(w) <= 12]
    acc.sample({'word': ws[0], 'masks': flips(ws[0], 3)}, 1)

    def gen():
        for w in W.share(ws, i, n):
            for v in flips(w, 6):
                yield v
    W.each(acc, gen(), 'case', check)


def unknown(acc, i, n):
    def gen():
        for w in W.share(fam.everything_unknown(), i, n):
            yield w.upper()
            yield alternate(w)
    W.each(acc, gen(), 'case', check)


def odd(acc, i, n):
    """ all strings with a capital letter whose lower-case form is longer """
    def gen():
        for k in range(1, 6):
            for t in itertools.product('İиНаК-', repeat=k):
                if 'İ' in t:
                    yield ''.join(t)
        for w in ('ёжик', 'псевдокота', 'стали-то', 'человек-гора', 'бутявка', 'по-новому'):
            for k in range(len(w) + 1):
                yield w[:k] + 'İ' + w[k:]
                yield w[:k].upper() + 'İ' + w[k + 1:]
    W.each(acc, shard(list(gen()), i, n), 'case', check)


def spaces(ck):
    return [
        ('known-word queries of all words', known, 'slow'),
        ('one word per (paradigm, form)', reps, 'slow'),
        ('all case masks', masks, 'slow'),
        ('predicted words', unknown, 'slow'),
        ('letters which change their length', odd, 'slow'),
    ]


def run_case(ck, case):
    return list({'known': check_known, 'case': check}[case['kind']](ck.acc, case['args']))
