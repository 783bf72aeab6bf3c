# -*- coding: utf-8 -*-
"""
Families of input words: every way a word can be analysed, each enumerated over
representatives of every tag / paradigm / ending of the installed dictionary.
"""
import ref as R
import refcfg
import world as W

CFG = refcfg.LANG['ru']


@W.memo
def prefixes():
    return list(CFG['prefixes'])


@W.memo
def particles():
    return list(CFG['particles'])


@W.memo
def endings(k=0):
    """ all endings of prediction table k """
    return sorted(set(W.refdict().pred[k].iterkeys()))


@W.memo
def reps_plain():
    """ tag representatives without hyphens, at least 3 letters """
    return [w for w in W.tag_rep_words() if '-' not in w and len(w) >= 3]


@W.memo
def feature_reps():
    """ one plain word per combination of part of speech, number, case, person, tense """
    return [w for w in W.small_reps(10 ** 6) if '-' not in w]


def known_prefix():
    """ every prefix with one word per feature set; every tag with one prefix """
    for p in prefixes():
        for w in feature_reps():
            yield p + w
    for w in reps_plain():
        yield 'авто' + w


def prefix_chains():
    for p in prefixes():
        for q in prefixes():
            yield p + q + 'кошками'


def unknown_prefix():
    for u in ('ъ', 'ыщ', 'ъщы', 'щъщъ', 'ъыщьъ', 'ъщыъьщ'):
        for w in reps_plain():
            yield u + w


def predicted(step=1, start=0):
    d = W.refdict()
    for k, pref in enumerate(d.prefixes):
        es = endings(k)
        for e in es[start::step]:
            yield pref + 'ъщ' + e


def particle_words():
    for part in particles():
        for w in feature_reps():
            yield w + part
        yield part
        yield 'ъщ' + part
        yield part[1:]
    for i, w in enumerate(reps_plain()):
        yield w + particles()[i % len(particles())]


def po_words():
    for w in reps_plain():
        yield 'по-' + w


def hyphen_pairs(a=None, b=None):
    for x in (a or feature_reps()):
        for y in (b or feature_reps()):
            yield x + '-' + y


def hyphen_fixed():
    for w in reps_plain():
        yield 'ъщ-' + w
        yield w + '-ъщ'


@W.memo
def long_words():
    """ for every part of speech and every word length from 12 up: the first word; 17 or more letters: also for every tag """
    seen, res = set(), []
    d = W.refdict()
    for w in W.words():
        if len(w) < 12 or '-' in w:
            continue
        for p, i in d.get(w):
            t = d.paradigms[p][i][1]
            for k in ((R.split_tag(t)[0], len(w)),) + ((t,) if len(w) > 16 else ()):
                if k not in seen:
                    seen.add(k)
                    res.append(w)
    return W.unique(res)


@W.memo
def letter_words():
    """ a word for every pair of first letters, every pair of last letters and every number of repetitions of a letter """
    seen, res = set(), []
    for w in W.words()[::11]:
        if len(w) < 3 or '-' in w:
            continue
        ks = [(0, w[:2]), (1, w[-2:]), (2, len(set(w)) * 64 + len(w))]
        if len(w) > 6:
            for c in set(w):
                n = w.count(c)
                if n > 2:
                    ks.append((3, c, n))
        new = [k for k in ks if k not in seen]
        if new:
            seen.update(new)
            res.append(w)
    return res


def longs():
    """ long and unusual words through every kind of analysis """
    lw = long_words() + letter_words()
    for k, w in enumerate(lw):
        yield w
        yield prefixes()[k % len(prefixes())] + w
        yield 'ъщ' + w
        yield w + particles()[k % len(particles())]
        yield 'по-' + w
        yield 'ъщ-' + w
        yield w + '-ъщ'
        yield w + '-' + lw[(k * 7 + 1) % len(lw)]
        yield w + '-' + w
        yield w[::-1]
        yield 'ъщыщъщыщъщ' + w[-6:]
        v = lw[(k * 11 + 5) % len(lw)]
        yield w + '-' + v + '-' + w
        yield w + '-и-на-' + v
        yield prefixes()[(k * 3) % len(prefixes())] + prefixes()[k % len(prefixes())] + w + particles()[(k // 5) % len(particles())]
        yield w + '-' + v + particles()[(k // 3) % len(particles())]
    for x in long_tokens():
        yield x


def long_tokens():
    for n in (15, 16, 17, 18, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000):
        for u in ('7', '.', '—', 'a', 'É', 'X', 'M', 'MD', 'а', 'ё', 'ъ', '-', 'а-', '-а', '1.', 'x-', 'кот-', ',7', ' ', '٣', 'K'):
            yield (u * n)[:n]
        yield '7' * (n - 2) + '.5'
        yield '7' * (n - 1) + 'а'
        yield 'a' * (n - 1) + 'я'
        yield '.' * (n - 1) + 'a'
        yield '7' * (n - 3) + 'e12'
        yield '-' + '7' * (n - 1)
    for t in ('MMMMDCCCLXXXVIII', 'MMMDCCCLXXXVIII', 'MMDCCCLXXXVIII', 'MMMMDCCCLXXXVIIII', 'mmmmdccclxxxviii'):
        yield t
        yield t + '-кот'


def shapes():
    for t in ('123', '12.5', '12,5', '1e5', '-3', '+3', '.5', '5.', 'XII', 'xii', 'IIX', 'abc', 'a1', 'x-ray',
              ',', '...', '«', '— ', ' ', '', '%', '№5', 'I', 'MCM', 'MMMMM', '1 000', '١٢', 'nan', 'inf', 'É', '-', '--',
              'а-б', '1-й', '2-х', '12-ю', 'e', 'е', 'ё', '²', '½', 'ⅷ', '1_000'):
        yield t


def nested():
    for i, w in enumerate(feature_reps()):
        p = prefixes()[(7 * i) % len(prefixes())]
        part = particles()[i % len(particles())]
        v = feature_reps()[(5 * i + 3) % len(feature_reps())]
        yield p + w + part
        yield w + '-' + v + part
        yield p + w + '-' + v
        yield w + '-' + p + v
        yield 'ъщ' + w + part
        yield 'ъщ' + w + '-' + v
        yield w + '-ъщ' + v
        yield 'по-' + w + part
        yield w + part + part
        yield p + p + w
        yield 'ъ' + p + w
        yield w + '-' + 'а' + '-' + v
        yield w + '-abc'
        yield 'abc-' + w
        yield w + '-12'
        yield '12-' + w
        yield w + '-' + 'XII'
        yield '-' + w
        yield w + '-'
        yield w + '--' + v
        yield 'наи' + w
        yield 'по' + w
        yield w[:2]
        yield w[-3:]


def initials():
    for c in CFG['letters']:
        yield c
        yield c.lower()
        yield c + '.'
        yield c + c


@W.memo
def mixed():
    """ a compact list with every kind of analysis, deterministic """
    res = []
    fr = feature_reps()
    res += fr
    res += list(nested())
    res += list(shapes())
    res += list(initials())
    res += list(particle_words())[:200]
    res += ['авто' + w for w in fr] + ['ъщ' + w for w in fr] + ['по-' + w for w in fr]
    res += ['ъщ-' + w for w in fr]
    res += list(predicted(step=997))
    res += list(longs())[::61]
    res += ['ЁЖ', 'Еж', 'мед', 'МЁД', 'елки', 'все', 'всё']
    return W.unique(res)


def everything_unknown(thorough=False):
    for g in (known_prefix(), prefix_chains(), unknown_prefix(), particle_words(), po_words(), hyphen_fixed(),
              hyphen_pairs(), nested(), shapes(), initials(), longs()):
        for w in g:
            yield w
    for w in predicted(step=1 if thorough else 3):
        yield w
