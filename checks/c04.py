# -*- coding: utf-8 -*-
"""
C04: every string can be analysed; UNKN only as a last resort.

Enumerated: every Unicode code point (except surrogates) alone, after a letter,
inside a word and around a hyphen (quick tier: all assigned characters); all
strings of up to 4 symbols over an alphabet mixing letters, digits, punctuation,
controls, NUL, combining and odd-case characters; all strings of up to 3 letters;
long and degenerate strings; words of every length, first and last letters.
Each result is compared with the reference analysis, and each parse is normalised
and its lexeme built.
"""
import sys
import unicodedata

import fam
import world as W

ID = 'C04'
LEVEL = 'model_checking'

ALPHABET = ['а', 'е', 'ё', 'Т', 'о', '-', '1', ',', '.', ' ', 'x', 'I', '\0', '\n', '\u0301', '\ue000', 'ß', 'İ', '’', '²']


def check(acc, w):
    m, r = W.morph(), W.ref()
    acc.count('transitions', 3)
    acc.count('traces')
    got = m.parse(w)
    want = r.parse(w)
    if not got:
        yield 'no parses'
        return
    d = W.diff_parses(got, want)
    if d:
        yield d
    tags = m.tag(w)
    if set(str(t) for t in tags) != set(p[1] for p in want):
        yield 'tag(): %r expected %r' % (tags, sorted(set(p[1] for p in want)))
    if any(str(p.tag) == 'UNKN' for p in got):
        if len(got) != 1 or got[0].normal_form != w.lower() or got[0].word != w.lower():
            yield 'UNKN among %r' % (W.plain(got),)
    for p in got:
        n = p.normalized
        lex = p.lexeme
        if not lex:
            yield 'empty lexeme of %r' % (W.plain([p]),)
        if (n[0], n[1], n[2]) not in [(f[0], f[1], f[2]) for f in lex]:
            yield 'normalized %r is not in the lexeme' % (W.plain([n]),)
        break
    nfs = m.normal_forms(w)
    if not nfs or any(not isinstance(x, type(w)) for x in nfs):
        yield 'normal_forms: %r' % (nfs,)


def assigned():
    for c in range(sys.maxunicode + 1):
        if 0xD800 <= c <= 0xDFFF:
            continue
        if unicodedata.category(chr(c)) not in ('Cn', 'Co'):
            yield chr(c)
    for c in (0xE000, 0xF8FF, 0xF0000, 0x10FFFF, 0x0378, 0xFFFE, 0x3FFFF):
        yield chr(c)


def all_points():
    for c in range(sys.maxunicode + 1):
        if not 0xD800 <= c <= 0xDFFF:
            yield chr(c)


CONTEXTS = ['%s', 'а%s', 'ко%sку', 'дом-%s', '%s-то', '1%s', 'авто%sом', 'x%s']


def points(gen, contexts):
    def space(acc, i, n):
        acc.sample({'contexts': contexts}, 1)

        def words():
            for c in W.share(gen(), i, n):
                for ctx in contexts:
                    yield ctx % c
        W.each(acc, words(), 'word', check)
    return space


def short(length):
    def space(acc, i, n):
        W.each(acc, W.share(W.strings(ALPHABET, length), i, n), 'word', check)
    return space


def shapes(acc, i, n):
    def gen():
        for k in (1, 2, 3, 7, 40, 300, 2000, 20000):
            for unit in ('а', 'е', 'ё', '-', 'а-', '1', 'x', '.', 'то', '-то', 'по', 'авто', ' ', '\n', 'авто-', 'I', 'ко-',
                         'пост'):
                if k * len(unit) <= 20000 and not (unit in ('е', 'ё') and k > 40) and not (unit == 'авто-' and k > 300) \
                        and not (unit in ('авто', '-то', 'пост') and k > 40):
                    yield unit * k
                    if k < 40:
                        yield unit * k + 'кот'
                        yield 'кот' + unit * k
    W.each(acc, W.share(gen(), i, n), 'word', check)


def check_deep(acc, args):
    """ extremely long chains of particles / prefixes, with the interpreter's default recursion limit """
    base, unit, k = args
    w = base + unit * k if unit[0] == '-' else unit * k + base
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(1000)
    try:
        acc.count('transitions', 2)
        if not W.morph().parse(w) or not W.morph().tag(w):
            yield 'no result'
    except RecursionError:
        yield 'RecursionError'
    finally:
        sys.setrecursionlimit(old)


def deep(acc, i, n):
    cases = [['кот', u, k] for u in ('-то', 'авто', 'по-') for k in (50, 100, 200, 3000)]
    W.each(acc, W.share(cases, i, n), 'deep', check_deep)


def families(acc, i, n):
    W.each(acc, W.share(fam.everything_unknown(), i, n), 'word', check)


def spaces(ck):
    res = [('very long chains', deep, 'slow'),
           ('degenerate and long strings', shapes, 'slow'),
           ('all strings over a mixed alphabet', short(5 if ck.thorough else 4), 'slow')]
    if ck.thorough:
        res.append(('every code point', points(all_points, CONTEXTS), 'slow'))
        res.append(('analysable families', families, 'slow'))
    else:
        res.append(('every assigned character', points(assigned, CONTEXTS[:5]), 'slow'))
    letters = 'абвгдеёжзийклмнопрстуфхцчшщъыьэюя-'
    res.append(('all short strings of letters', lambda a, i, n: W.each(a, W.share(W.strings(letters, 3), i, n), 'word', check), 'slow'))
    res.append(('long and unusual words', lambda a, i, n: W.each(a, W.share(fam.longs(), i, n), 'word', check), 'slow'))
    res.append(('degenerate strings', lambda a, i, n: W.each(a, W.share(
        W.strings([c for c in ALPHABET if c != '\0'], 3), i, n), 'word', check), 'fast'))
    return res


assumptions = ['lone surrogates (not encodable text) are outside the domain',
               'very long chains of recursively analysed prefixes/particles are bounded to 40 repetitions']


def run_case(ck, case):
    return list({'word': check, 'deep': check_deep}[case['kind']](ck.acc, case['args']))
