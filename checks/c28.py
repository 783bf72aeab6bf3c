# -*- coding: utf-8 -*-
"""
C28: restored capitalisation changes only letter case.

All pairs (word, example) up to a length over {lower, upper, digit, hyphen,
apostrophe}, all pairs of case patterns with up to four parts, all numbers of parts up to 12 on either
side, long parts, every code point with case in words and examples, against a definition by parts.
"""
import itertools
import warnings

import core

ID = 'C28'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of (word, example) pairs against a definition by hyphen-separated parts'
assumptions = ['letter case is that of Unicode as implemented by the interpreter; a single capital counts as upper case']

from pymorphy2 import shapes
from pymorphy2.shapes import restore_capitalization  # noqa


def pattern(s):
    """ lower, upper, title or other """
    letters = [ch for ch in s if ch.lower() != ch or ch.upper() != ch or ch.islower() or ch.isupper()]
    if s.islower():
        return 'lower'
    if s.isupper():
        return 'upper'
    if s.istitle():
        return 'title'
    return 'other'


def apply(part, pat):
    if pat == 'upper':
        return part.upper()
    if pat == 'title':
        return part.title()
    return part.lower()


def model(word, example):
    if '-' not in example:
        return apply(word, pattern(example))
    ex = example.split('-')
    parts = word.split('-')
    return '-'.join(apply(p, pattern(ex[k]) if k < len(ex) else 'lower') for k, p in enumerate(parts))


def simple(s):
    """ all letters have one-to-one case mappings """
    return all(len(ch.lower()) == len(ch.upper()) == len(ch.title()) == 1 and
               ch.upper().lower() == ch.lower() == ch.title().lower() for ch in s)


def bad(word, example):
    got = restore_capitalization(word, example)
    if got.count('-') != word.count('-'):
        return '%r: hyphens lost or added' % got
    if simple(word) and got.lower() != word.lower():
        return '%r: not only letter case was changed' % got
    want = model(word, example)
    if got != want:
        return '%r, expected %r' % (got, want)
    if simple(word) and restore_capitalization(got, example) != got:
        return '%r: applying it again changes it' % got
    return None


def one(acc, w, e):
    acc.case = [w, e]
    acc.tick += 1
    acc.count('states')
    acc.count('transitions')
    b = bad(w, e)
    if b:
        acc.violation('restore_capitalization(%r, %r): %s' % (w, e, b), [w, e])


def strings(alpha, k):
    return [''.join(p) for r in range(k + 1) for p in itertools.product(alpha, repeat=r)]


def pair_space(alpha, k1, k2):
    def fn(acc, i, n):
        ws = strings(alpha, k1)
        es = strings(alpha, k2)
        for w in ws[i::n]:
            for e in es:
                one(acc, w, e)
            if acc.full():
                return
    return fn


PARTS = ['', 'ёж', 'ЁЖ', 'Ёж', 'ёЖ', 'мЯчИк', '5', '5а', 'Ж', 'ж', "д'арк", 'Два Слова', 'B2b', 'ЖжЖж.жЖ']


def parts_space(acc, i, n):
    words = ['-'.join(p) for k in (1, 2, 3, 4) for p in itertools.product(PARTS[:6], repeat=k)][i::n]
    exs = ['-'.join(p) for k in (1, 2, 3) for p in itertools.product(PARTS, repeat=k)]
    for w in words[::1 if core_thorough() else 4]:
        for e in exs:
            one(acc, w, e)
        acc.outcome(w.count('-'))
        if acc.full():
            return
    for w in ['-'.join(p) for k in (1, 2) for p in itertools.product(PARTS, repeat=k)][i::n]:
        for e in exs[:len(PARTS) + len(PARTS) ** 2]:
            one(acc, w, e)


def alias(word, example):
    """ the old name of the function, which must keep working until it is removed """
    f = getattr(shapes, 'restore_word_case', None)
    if f is None:
        return None
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = f(word, example)
    if got != restore_capitalization(word, example):
        return '%r under the old name, %r under the new one' % (got, restore_capitalization(word, example))
    return None


def alias_space(acc, i, n):
    for w in strings(['a', 'B', '-', 'ж'], 3)[i::n]:
        for e in strings(['a', 'B', '-', 'Ж'], 3):
            acc.case = ['alias', w, e]
            acc.tick += 1
            acc.count('states')
            acc.count('transitions', 2)
            b = alias(w, e)
            if b:
                acc.violation('restore_word_case(%r, %r): %s' % (w, e, b), acc.case)
        if acc.full():
            return


def sizes(acc, i, n):
    """ all numbers of parts on both sides, with one part unlike the others; and long parts """
    pats = ['ёж', 'ЁЖ', 'Ёж', 'ёЖ', '', '7']
    top = 16 if core_thorough() else 12
    todo = []
    for a in range(1, top + 1):
        for b in range(1, top + 1):
            for x, y in itertools.product(range(len(pats)), repeat=2):
                for k in sorted(set([0, 1, a // 2, a - 1, min(a, b) - 1])):
                    todo.append((a, b, x, y, k))
    for a, b, x, y, k in todo[i::n]:
        ex = '-'.join(pats[y] if j == k else pats[x] for j in range(b))
        for w in (pats[(x + 1) % 4], pats[(y + 2) % 4]):
            one(acc, '-'.join(w if j != k else pats[y] for j in range(a)), ex)
        if acc.full():
            return
    for size in [s for s in (7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 5000)][i::n]:
        for w, e in itertools.product(['слОво', 'а-Б', "д'Арк ", 'Я'], repeat=2):
            one(acc, w * size, e)
            one(acc, w, e * size)
            one(acc, w * size, e * size)
            one(acc, w * size, e.upper())
            one(acc, w, e.upper() * size)


def core_thorough():
    import os
    return os.environ.get('VERIF_TIER') == 'thorough'


def codepoints(acc, i, n):
    for cp in range(i, 0x110000, n):
        if 0xD800 <= cp <= 0xDFFF:
            continue
        ch = chr(cp)
        cased = ch.lower() != ch or ch.upper() != ch or ch.title() != ch or ch.islower() or ch.isupper()
        for w in (ch, 'a' + ch + 'B', ch + '-' + ch + 'я', ch + 'яЯ') if cased else (ch, 'a' + ch + 'b'):
            for e in ('Abc', 'abc', 'ABC', 'aBc', 'A-b', 'abc-Abc', '1'):
                one(acc, w, e)
        for e in (ch, 'a' + ch, 'A' + ch, ch + 'a', ch + '-' + ch, 'Б-а' + ch):
            for w in ('слово', 'Раз-дВа'):
                one(acc, w, e)
        if acc.full():
            return


def spaces(ck):
    k = 5 if ck.thorough else 4
    return [
        ('pairs up to length %d' % k, pair_space(['a', 'B', '1', '-'], k, k), 'slow'),
        ('pairs up to length 3, larger alphabet', pair_space(['ё', 'Я', 'z', '-', "'", ' ', 'ǅ'], 3, 3), 'slow'),
        ('parts', parts_space, 'slow'),
        ('every code point', codepoints, 'slow'),
        ('numbers and lengths of parts', sizes, 'slow'),
        ('old name', alias_space, 'slow'),
    ]


def run_case(ck, case):
    b = alias(*case[1:]) if len(case) == 3 else bad(*case)
    return [b] if b else []
