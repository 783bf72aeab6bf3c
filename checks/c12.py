# -*- coding: utf-8 -*-
"""
C12: words with hyphens are analysed through their parts.

Enumerated: all pairs of feature representatives around a hyphen (and a wider set
in the thorough tier), every tag left and right of unknown / fixed parts, every
particle behind every kind of word, по- before every tag's representative, all
hyphen placements over words with 0..3 hyphens, parts that are numbers, Latin,
punctuation, initials, prefixes, words of every length, first and last letters.  Oracle: reference analysis including the lexeme
of two-part compounds.
"""
from core import shard
import fam
import ref as R
import toydict
import world as W
import itertools

ID = 'C12'
LEVEL = 'model_checking'


def check(acc, w, lex=True):
    for x in W.check_word(acc, w):
        yield x
    r = W.ref()
    acc.outcome(W.kind_of(r, w))
    got = W.morph().parse(w)
    want = r.parse(w)
    if '-' in w and all(p[4][0] in 'ebf' for p in want):
        tail = [p for p in fam.particles() if w.lower().endswith(p)]
        for p in got:
            forms = p.lexeme if lex else []
            acc.count('forms_compared', len(forms))
            for f in [p] + list(forms):
                if f[0].count('-') != w.count('-') or f[2].count('-') != w.count('-'):
                    yield 'hyphen lost in %r' % ((f[0], str(f[1]), f[2]),)
                    break
                if tail and want[0][4][0] == 'e' and not (f[0].endswith(want[0][4][1]) and f[2].endswith(want[0][4][1])):
                    yield 'particle lost in %r' % ((f[0], str(f[1]), f[2]),)
                    break
    if lex:
        for x in W.check_lexemes(acc, w):
            yield x


def check_shallow(acc, w):
    return check(acc, w, lex=False)


def pairs(step):
    def space(acc, i, n):
        a = fam.feature_reps()
        b = W.unique(a + fam.reps_plain()[::step])
        acc.sample({'left': a[:4], 'right': b[:4]}, 1)
        W.each(acc, W.share(fam.hyphen_pairs(b, b), i, n), 'shallow', check_shallow)
    return space


def pairs_lex(step):
    def space(acc, i, n):
        W.each(acc, W.share(itertools.islice(fam.hyphen_pairs(), 0, None, step), i, n), 'word', check)
    return space


def fixed(acc, i, n):
    W.each(acc, W.share(fam.hyphen_fixed(), i, n), 'word', check)


def parts(acc, i, n):
    """ every kind of token on both sides, and several hyphens """
    ps = ['', 'кот', 'ёлки', 'елки', 'авто', 'анти', 'по', 'то', 'ка', 'с', 'де', '12', 'XII', 'pdf', ',', 'А', 'а', 'ъщ',
          'ъщыми', 'красным', 'человек', 'горе', 'псевдокота', 'видела', 'наикрутейший']

    def gen():
        for x in ps:
            for y in ps:
                yield x + '-' + y
                for z in ps:
                    yield x + '-' + y + '-' + z
    W.each(acc, W.share(gen(), i, n), 'word', check)


def hyphen_shapes(acc, i, n):
    W.each(acc, W.share(W.strings(['-', 'кот', 'то', 'по', 'а', 'синему', 'ё'], 5, 1), i, n), 'shallow', check_shallow)


def particles(acc, i, n):
    W.each(acc, W.share(fam.particle_words(), i, n), 'word', check)


def particles_all(acc, i, n):
    def gen():
        for w in fam.reps_plain():
            for p in fam.particles():
                yield w + p
        for w in fam.feature_reps():
            for p in fam.particles():
                for q in fam.particles():
                    yield w + p + q
                    yield w.upper() + p.upper()
    W.each(acc, W.share(gen(), i, n), 'shallow', check_shallow)


def po(acc, i, n):
    def gen():
        for w in fam.po_words():
            yield w
        for w in fam.feature_reps():
            for u in ('ъщ', 'авто', 'наи', 'по', 'по-'):
                yield 'по-' + u + w
            yield 'по-' + w + '-то'
            yield 'по-' + w + '-ъщ'
            yield 'по-' + w.upper()
            yield 'По-' + w
        for k in range(0, 4):
            for t in W.strings('синему', k):
                yield 'по-' + t
        for w in ('русски', 'новому', 'моему', 'твоему', 'ёжьему', 'ежовому', 'своему', 'нашему', 'всему'):
            yield 'по-' + w
    W.each(acc, W.share(gen(), i, n), 'word', check)


def adjectives(acc, i, n):
    """ по- with every singular dative adjective form of the (paradigm, form) table """
    d = W.refdict()
    ws = sorted(set(w for p, x, w in W.reps() if 'ADJF' in d.paradigms[p][x][1]))
    W.each(acc, shard(['по-' + w for w in ws], i, n), 'shallow', check_shallow)


def prefixed(acc, i, n):
    def gen():
        for p in fam.prefixes():
            for w in ('кот-человек', 'ёлка-то', 'синему', 'ъщ-гора'):
                yield p + w
                yield p + '-' + w
                yield w + '-' + p
    W.each(acc, W.share(gen(), i, n), 'word', check)


def unusual(acc, i, n):
    W.each(acc, W.share((w for w in fam.longs() if '-' in w), i, n), 'word', check)


def spaces(ck):
    t = ck.thorough
    return [
        ('all pairs of representatives', pairs(5 if t else 30), 'slow'),
        ('pairs with lexemes', pairs_lex(1 if t else 2), 'slow'),
        ('fixed left part, every tag', fixed, 'slow'),
        ('all kinds of parts, up to 3', parts, 'slow'),
        ('hyphen placements', hyphen_shapes, 'slow'),
        ('particles', particles, 'slow'),
        ('particles x every tag', particles_all, 'slow'),
        ('по- adverbs', po, 'slow'),
        ('по- before every adjective form', adjectives, 'slow'),
        ('known prefixes and hyphens', prefixed, 'slow'),
        ('long and unusual words', unusual, 'slow'),
        ('particles and parts', parts, 'fast'),
    ]


def run_case(ck, case):
    return list({'word': check, 'shallow': check_shallow}[case['kind']](ck.acc, case['args']))
