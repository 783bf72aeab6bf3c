# -*- coding: utf-8 -*-
"""
C27: tokenization loses nothing but whitespace.

All texts over a small alphabet (letters of two scripts, digit, underscore, hyphen,
plus, punctuation, combining mark, six kinds of whitespace), every code point in a
number of contexts, and long repetitions, against a character automaton.
"""
import itertools

import core
from core import shard

ID = 'C27'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of texts over an alphabet of character classes against a character automaton'
assumptions = ['word characters are those str.isalnum() accepts, and the underscore; lone surrogates are not text',
               'U+001C..U+001F and U+180E, about which isspace() and strip() of the interpreter disagree, may or may not be tokens']

from pymorphy2.tokenizers import simple_word_tokenize  # noqa

ALPHA = ['а', 'Z', '1', '_', '-', '+', '.', '\u0301', '"', ' ', '\n', '\u00a0', '\u2003', '\u0085', '\x1f', '—', '\U0001F600']
SMALL = ['а', '1', '_', '-', '+', '.', ' ', '\n', '\u00a0']


def wordchar(ch):
    return ch.isalnum() or ch in '_-'


# characters about which the string methods of the interpreter do not agree: isspace() and strip()
UNCLEAR = frozenset('\x1c\x1d\x1e\x1f\u180e')


def model(text, unclear=True):
    res = []
    cur = ''
    for ch in text:
        if wordchar(ch):
            cur += ch
            continue
        if cur:
            res.append(cur)
            cur = ''
        if not (unclear if ch in UNCLEAR else ch.isspace()):
            res.append(ch)
    if cur:
        res.append(cur)
    return res


def bad(text):
    got = simple_word_tokenize(text)
    got = list(got)
    if not UNCLEAR.isdisjoint(text):
        if got not in (model(text), model(text, False)):
            return 'tokens %r, expected %r' % (got, model(text))
        return None
    if ''.join(got) != ''.join(ch for ch in text if not ch.isspace()):
        return 'tokens %r lose or add characters' % (got,)
    if any(not t or any(ch.isspace() for ch in t) for t in got):
        return 'a token is empty or contains whitespace: %r' % (got,)
    want = model(text)
    if got != want:
        return 'tokens %r, expected %r' % (got, want)
    return None


def text_space(alpha, lengths):
    def fn(acc, i, n):
        texts = itertools.chain(*(itertools.product(alpha, repeat=k) for k in lengths))
        for t in itertools.islice(texts, i, None, n):
            t = ''.join(t)
            acc.case = t
            acc.tick += 1
            acc.count('states')
            b = bad(t)
            if b:
                acc.violation('%r: %s' % (t, b), t)
                if acc.full():
                    return
        acc.count('transitions', acc.counts.get('states', 0))
    return fn


CONTEXTS = ['%s', 'а%s', '%sа', 'а%sа', 'а %s б', '-%s-', '%s%s', '.%s.', '%s ', 'а-%s', '1%s2', '%s\u0301', '_%s+']


def codepoints(acc, i, n):
    for cp in range(i, 0x110000, n):
        if 0xD800 <= cp <= 0xDFFF:
            continue
        ch = chr(cp)
        for c in CONTEXTS:
            t = c.replace('%s', ch)
            acc.case = t
            acc.tick += 1
            acc.count('states')
            acc.count('transitions')
            b = bad(t)
            if b:
                acc.violation('U+%04X %r: %s' % (cp, t, b), t)
                if acc.full():
                    return
        acc.outcome('word' if wordchar(ch) else 'space' if ch.isspace() else 'other')


def long_texts(acc, i, n):
    units = [''.join(p) for k in (1, 2, 3) for p in itertools.product(SMALL, repeat=k)]
    for j, u in enumerate(units):
        if j % n != i:
            continue
        for rep in (50, 1000) if len(u) < 3 else (200,):
            for pre, post in (('', ''), ('а', '-'), (' ', '+')):
                t = pre + u * rep + post
                acc.case = t
                acc.tick += 1
                acc.count('states')
                acc.count('transitions')
                b = bad(t)
                if b:
                    acc.violation('%r * %d: %s' % (u, rep, b[:300]), t)
                    return
    if i == 0:
        t = ('слово-раз, 12.5 ' * 100000)
        acc.case = t[:100]
        if bad(t):
            acc.violation('long text', t[:100])


def spaces(ck):
    k = 6 if not ck.thorough else 8
    return [
        ('texts over %d characters up to length %d' % (len(ALPHA), 5 if ck.thorough else 4),
         text_space(ALPHA, range(0, 6 if ck.thorough else 5)), 'slow'),
        ('texts over %d characters of length 5-%d' % (len(SMALL), k), text_space(SMALL, range(5, k + 1)), 'slow'),
        ('every code point', codepoints, 'slow'),
        ('long texts', long_texts, 'slow'),
    ]


def run_case(ck, case):
    b = bad(case)
    return [b] if b else []
