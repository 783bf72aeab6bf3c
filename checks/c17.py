# -*- coding: utf-8 -*-
"""
C17: grammeme names translate between Latin and Cyrillic without loss.

Enumerated: all tags, all grammemes (including those of tokens and initials) in
both directions, all sequences of up to 3 tokens (known in either script or
unknown) with comma/space separators, everything within one edit or a change of
letter case from a name, repeated after other analyzers were
created.  Oracle: the alias column of the dictionary's grammeme table.
"""
import itertools

from core import shard
import ref as R
import toydict
import world as W
from c15 import all_tags, T

ID = 'C17'
LEVEL = 'model_checking'


def translate(s, table):
    return ' '.join(','.join(table.get(x, x) for x in part.split(',')) for part in s.split(' '))


def check_tag(acc, s):
    m, gr = W.morph(), W.refdict().gr
    t = T()(s)
    acc.count('transitions', 5)
    acc.count('traces')
    want = translate(s, gr.lat2cyr)
    if t.cyr_repr != want:
        yield 'cyr_repr %r expected %r' % (t.cyr_repr, want)
    if t.grammemes_cyr != frozenset(gr.lat2cyr[g] for g in R.split_tag(s)):
        yield 'grammemes_cyr %r' % (t.grammemes_cyr,)
    for fn in (m.lat2cyr, T().lat2cyr):
        if fn(s) != want or fn(t) != want:
            yield 'lat2cyr gives %r' % (fn(s),)
    if m.cyr2lat(want) != s or T().cyr2lat(t.cyr_repr) != s:
        yield 'translating back gives %r' % (m.cyr2lat(want),)


def check_string(acc, s):
    m, gr = W.morph(), W.refdict().gr
    acc.count('transitions', 2)
    acc.count('traces')
    for name, fn, table in (('lat2cyr', m.lat2cyr, gr.lat2cyr), ('cyr2lat', m.cyr2lat, gr.cyr2lat)):
        want = translate(s, table)
        if fn(s) != want:
            yield '%s gives %r expected %r' % (name, fn(s), want)


def check_grammeme(acc, g):
    m, gr = W.morph(), W.refdict().gr
    acc.count('transitions', 2)
    acc.count('traces')
    if m.lat2cyr(g) != gr.lat2cyr[g]:
        yield 'lat2cyr %r expected %r' % (m.lat2cyr(g), gr.lat2cyr[g])
    if m.cyr2lat(gr.lat2cyr[g]) != g:
        yield 'cyr2lat(%r) %r' % (gr.lat2cyr[g], m.cyr2lat(gr.lat2cyr[g]))


def tags(acc, i, n):
    W.each(acc, shard(all_tags(), i, n), 'tag', check_tag)


def grammemes(acc, i, n):
    W.each(acc, shard(sorted(W.refdict().gr.known), i, n), 'grammeme', check_grammeme)


TOKENS = ['NOUN', 'СУЩ', 'sing', 'ед', 'nomn', 'им', 'foo', 'сущ', 'noun', 'NOUNx', 'PNCT', 'ЗПР', 'Init', 'иниц', '1per', '1л', 'V-ey',
          '*ею', '']


def strings(acc, i, n):
    def gen():
        for k in (1, 2, 3):
            for toks in itertools.product(TOKENS, repeat=k):
                for seps in itertools.product(', ', repeat=k - 1):
                    s = toks[0] + ''.join(a + b for a, b in zip(seps, toks[1:]))
                    if s and '  ' not in s and s == s.strip():
                        yield s
    W.each(acc, W.share(gen(), i, n), 'string', check_string)


def near(x):
    """ strings which are nearly the name: other case, one character more, less or different """
    res = set([x.lower(), x.upper(), x.title(), x.swapcase(), x[:1].lower() + x[1:], x[::-1], x + x, x.replace('-', ''), x.replace('-', '_'),
               x.replace('е', 'ё'), x.replace('ё', 'е'), x + "'", '"' + x, x + '.', x + ';', '+' + x, '~' + x, '=' + x, '-' + x, x + '\u0301', '\ufeff' + x])
    for k in range(len(x) + 1):
        res.add(x[:k] + x[k + 1:])
        for c in 'aZяЯ1-_/|:':
            res.add(x[:k] + c + x[k:])
            res.add(x[:k] + c + x[k + 1:])
    return sorted(y for y in res if y and y != x and not set(y) & set(' ,'))


def nearly(acc, i, n):
    gr = W.refdict().gr

    def gen():
        for x in sorted(set(gr.lat2cyr) | set(gr.cyr2lat)):
            for y in near(x):
                yield y
                yield 'NOUN,' + y
                yield 'СУЩ %s,ед' % y
    W.each(acc, W.share(gen(), i, n), 'string', check_string)


def reloaded(acc, i, n):
    import pymorphy2
    W.morph()
    pymorphy2.MorphAnalyzer(units=[pymorphy2.units.DictionaryAnalyzer()])
    W.each(acc, W.share(all_tags(), i, n), 'tag', check_tag)
    W.each(acc, sorted(W.refdict().gr.known), 'grammeme', check_grammeme)


def toys(acc, i, n):
    """ own grammeme lists: aliases equal to names, longer names, Init/Name/Patr defined by the dictionary """
    import c16
    for k, rows in enumerate(c16.trees()):
        if k % n != i:
            continue
        rows = list(rows) + [('Init', '', 'иници'), ('Name', '', 'имечко'), ('sing2', 'NMbr', 'ед2')]
        with toydict.scratch() as tmp:
            path = toydict.compile_spec(tmp, [(1, 'NOUN,masc', [('кот', 'sing,nomn'), ('коты', 'plur,nomn')])], grammemes=rows)
            from pymorphy2 import units as U
            m = toydict.analyzer(path, units=[U.DictionaryAnalyzer(), U.PunctuationAnalyzer(), U.RomanNumberAnalyzer(),
                                              U.UnknAnalyzer()])
            gr = R.Dict(path).gr
            names = [r[0] for r in rows] + ['PNCT', 'UNKN', 'ROMN']

            def one(acc, s):
                acc.count('transitions', 4)
                t = m.TagClass(s)
                want = translate(s, gr.lat2cyr)
                if t.cyr_repr != want or m.lat2cyr(s) != want or m.cyr2lat(want) != s:
                    yield 'cyr_repr %r lat2cyr %r, expected %r, back %r' % (t.cyr_repr, m.lat2cyr(s), want, m.cyr2lat(want))
                if t.grammemes_cyr != frozenset(gr.lat2cyr[g] for g in R.split_tag(s)):
                    yield 'grammemes_cyr %r' % (t.grammemes_cyr,)
            items = []
            for a in names:
                items.append(a)
                for b in names:
                    items.append(a + ',' + b)
                    items.append(a + ' ' + b)
            W.each(acc, items, 'toy', one)


def spaces(ck):
    return [
        ('all tags', tags, 'slow'),
        ('all grammemes', grammemes, 'slow'),
        ('token sequences', strings, 'slow'),
        ('strings similar to names', nearly, 'slow'),
        ('after creating another analyzer', reloaded, 'slow'),
        ('other grammeme lists', toys, 'fast'),
    ]


def run_case(ck, case):
    return list({'tag': check_tag, 'string': check_string, 'grammeme': check_grammeme}[case['kind']](ck.acc, case['args']))
