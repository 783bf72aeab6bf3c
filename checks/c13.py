# -*- coding: utf-8 -*-
"""
C13: numbers, punctuation, Latin and Roman tokens are recognised by shape.

Enumerated: every code point alone, doubled and next to a letter, digit, point;
all strings over number-like, Roman, punctuation and Latin alphabets up to a
length (Roman: all strings of up to 7 letters, so all numerals and near-misses;
all 4999 numerals in three capitalisations); long tokens of one character and with
one other character at every position.  Oracle: shape definitions by
enumeration (set of canonical numerals) and Unicode categories/names.
"""
import sys

import fam
import ref as R
import world as W

ID = 'C13'
LEVEL = 'model_checking'


def want_tags(tok):
    r = W.ref()
    return [(p[0], p[1], p[2]) for p in r.parse(tok)]


def check(acc, tok, deep=False):
    m = W.morph()
    acc.count('transitions', 2)
    acc.count('traces')
    want = W.ref().parse(tok)
    got = m.parse(tok)
    d = W.diff_parses(got, want)
    if d:
        yield d
        return
    acc.outcome(want[0][1] if want[0][4][0] == 't' else 'word')
    if [str(t) for t in m.tag(tok)] != [str(p.tag) for p in got] and want[0][4][0] == 't':
        yield 'tag() %r' % (m.tag(tok),)
    if want[0][4][0] == 't':
        for p in got:
            lex = [(f[0], str(f[1]), f[2]) for f in p.lexeme]
            me = (tok.lower(), str(p.tag), tok.lower())
            if lex != [me]:
                yield 'lexeme %r' % (lex,)
            n = p.normalized
            if (n[0], str(n[1]), n[2]) != me:
                yield 'normalized %r' % (n,)


def check_fn(acc, tok):
    """ the shape predicates themselves """
    from pymorphy2 import shapes
    acc.count('transitions', 3)
    acc.count('traces')
    for name, fn, want in (('is_latin', shapes.is_latin, R.latin_shape(tok)),
                           ('is_punctuation', shapes.is_punctuation, R.punct_shape(tok)),
                           ('is_roman_number', shapes.is_roman_number, R.roman_shape(tok))):
        got = fn(tok)
        if bool(got) != want:
            yield '%s: %r' % (name, got)


def points(acc, i, n):
    def gen():
        for c in range(i, sys.maxunicode + 1, n):
            if not 0xD800 <= c <= 0xDFFF:
                yield chr(c)
    W.each(acc, gen(), 'fn', check_fn)


def point_tokens(acc, i, n):
    import c04

    def gen():
        for c in W.share(c04.assigned(), i, n):
            yield c
            yield c + c
            yield 'a' + c
            yield '1' + c
            yield '.' + c
            yield 'X' + c
    W.each(acc, gen(), 'token', check)


def strings(alphabet, k, fn=check, kind='token'):
    def space(acc, i, n):
        W.each(acc, W.share(W.strings(alphabet, k), i, n), kind, fn)
    return space


def numerals(acc, i, n):
    def gen():
        for t in W.share(sorted(R._roman_numerals()), i, n):
            yield t
            yield t.lower()
            yield t.title()
            yield t + '\n'
            yield ' ' + t
            yield t + 'I'
            yield t + '-'
            yield t + 'Х'       # Cyrillic
    W.each(acc, gen(), 'token', check)


def odd_one_out():
    """ a uniform token with one other character at every position """
    for n in (2, 3, 9, 17, 18, 33, 40):
        for u in '7.aXM—é':
            for c in ('7', 'a', '.', 'я', ' ', '-', 'M', ',', '+', '٣', '\u0301'):
                for k in range(n):
                    yield u * k + c + u * (n - 1 - k)


def long_tokens(fn, kind):
    def space(acc, i, n):
        W.each(acc, W.share(W.unique(list(fam.long_tokens()) + list(odd_one_out())), i, n), kind, fn)
    return space


NUM = ['0', '7', '.', ',', 'e', 'E', '+', '-', '_', ' ', '٣', '²', 'i', 'n', 'f', 'a', 'j', '½', '\n']


def spaces(ck):
    t = ck.thorough
    return [
        ('predicates on every code point', points, 'slow'),
        ('characters in tokens', point_tokens, 'slow'),
        ('number-like strings', strings(NUM, 5 if t else 4), 'slow'),
        ('Roman letter strings, predicates', strings('IVXLCDM', 8 if t else 7, check_fn, 'fn'), 'slow'),
        ('Roman letter strings, tokens', strings('IVXLCDMi', 6 if t else 5), 'slow'),
        ('all numerals', numerals, 'slow'),
        ('long tokens, predicates', long_tokens(check_fn, 'fn'), 'slow'),
        ('long tokens', long_tokens(check, 'token'), 'slow'),
        ('punctuation-like strings', strings(['.', '-', ' ', '_', '$', '«', '\n', 'я', 'a', '+', '…', '’', '\u00a0'],
                                             5 if t else 4), 'slow'),
        ('Latin-like strings', strings(['a', 'É', 'я', 'ß', '1', '-', '\u0301', 'ª', 'K', 'ﬁ', 'ǅ', '.', 'Ω'], 5 if t else 4), 'slow'),
        ('number-like strings', strings(NUM, 3), 'fast'),
        ('Latin-like strings', strings(['a', 'É', 'я', '1', '-', 'K', '.'], 4), 'fast'),
    ]


def run_case(ck, case):
    return list({'token': check, 'fn': check_fn}[case['kind']](ck.acc, case['args']))
