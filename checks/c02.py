# -*- coding: utf-8 -*-
"""
C02: е typed for ё (г for ґ) finds the word; ё never stands for е.

Enumerated: for every dictionary word with ё all subsets of its ё letters written
as е; for every dictionary word with е every single е written as ё (and all);
all endings of the prediction tables containing е or ё in all spellings; custom
substitution tables; a Ukrainian toy dictionary with all г/ґ spellings of all
its words.  Oracle: explicit expansion of every spelling over exact lookups.
"""
import itertools

from core import shard
import ref as R
import toydict
import world as W

ID = 'C02'
LEVEL = 'model_checking'


def respell(word, a, b):
    """ all words obtained by replacing any subset of a by b """
    parts = [(c, b) if c == a else (c,) for c in word]
    return [''.join(t) for t in itertools.product(*parts)]


def check_spelling(acc, w, m=None, r=None, full=True):
    m = m or W.morph()
    r = r or W.ref()
    acc.count('transitions', 4 if full else 2)
    acc.count('traces')
    if m.word_is_known(w) != r.is_known(w):
        yield 'word_is_known=%r expected %r' % (m.word_is_known(w), r.is_known(w))
    if m.word_is_known(w, strict=True) != r.is_known(w, strict=True):
        yield 'strict word_is_known=%r expected %r' % (m.word_is_known(w, strict=True), r.is_known(w, strict=True))
    if not full:
        return
    want = r.parse(w)
    got = m.parse(w)
    acc.count('parses_compared', len(want))
    d = W.diff_parses(got, want)
    if d:
        yield d
    tags = m.tag(w)
    if set(str(t) for t in tags) != set(p[1] for p in want):
        yield 'tag(): got %r expected %r' % (tags, sorted(set(p[1] for p in want)))
    known = r.is_known(w)
    for p in got:
        # a reported word is the restored spelling: it is known as it stands
        if known and not p.is_known:
            yield 'restored %r is not known' % p.word


def yo_words(acc, i, n):
    ws = shard([w for w in W.words() if 'ё' in w], i, n)
    acc.sample({'word': ws[0], 'spellings': respell(ws[0], 'ё', 'е')}, 1)
    for w in ws:
        W.each(acc, respell(w, 'ё', 'е'), 'spelling', check_spelling)


def wrong_yo_known(acc, i, n):
    """ known-word queries for every word with one or all е typed as ё """
    def gen():
        for w in shard(W.words(), i, n):
            if 'е' in w:
                for k, c in enumerate(w):
                    if c == 'е':
                        yield w[:k] + 'ё' + w[k + 1:]
                if w.count('е') > 1:
                    yield w.replace('е', 'ё')
    W.each(acc, gen(), 'known', lambda a, w: check_spelling(a, w, full=False))


def wrong_yo_parse(acc, i, n):
    ws = sorted(set(w for p, x, w in W.reps() if 'е' in w))

    def gen():
        for w in shard(ws, i, n):
            yield w.replace('е', 'ё')
            yield w.replace('е', 'ё', 1)
            k = w.rindex('е')
            yield w[:k] + 'ё' + w[k + 1:]
    W.each(acc, W.unique(gen()), 'spelling', check_spelling)


def endings(acc, i, n):
    """ prediction endings in every е/ё spelling """
    d = W.refdict()

    def gen():
        for k, pref in enumerate(d.prefixes):
            seen = set()
            for e in d.pred[k].iterkeys():
                if 'е' in e or 'ё' in e:
                    seen.update(respell(e.replace('ё', 'е'), 'е', 'ё')[:8])
            for e in shard(sorted(seen), i, n):
                yield pref + 'ъщ' + e
    W.each(acc, gen(), 'spelling', check_spelling)


TABLES = [None, {}, {'е': 'ё', 'и': 'й'}, {'а': 'о'}, {'ё': 'е'}, {'ш': 'щ', 'щ': 'ш'}]


def tables(acc, i, n):
    ws = shard(W.tag_rep_words(), i, n)
    for ti, tab in enumerate(TABLES):
        m = toydict.analyzer(W.dpath(), char_substitutes=tab)
        r = R.Ref(W.refdict(), subst=tab or {})
        for w in ws:
            for spelling in W.unique([w, w.replace('ё', 'е'), w.replace('й', 'и'), w.replace('о', 'а'),
                                      w.replace('щ', 'ш'), w.replace('е', 'ё')]):
                case = {'kind': 'table', 'args': [ti, spelling]}
                acc.tick += 1
                acc.case = case
                acc.count('states')
                for x in check_spelling(acc, spelling, m, r):
                    acc.violation('table %r word %r: %s' % (tab, spelling, x), case)
    acc.case = None


UK = [
    (1, 'NOUN,inan,masc', [('ґанок', 'sing,nomn'), ('ґанку', 'sing,gent')]),
    (2, 'NOUN,inan,masc', [('гегґа', 'sing,nomn'), ('гегґи', 'sing,gent')]),
    (3, 'NOUN,inan,masc', [('гегга', 'sing,nomn'), ('гегги', 'sing,gent')]),
    (4, 'NOUN,inan,masc', [('ґеґґа', 'sing,nomn'), ('ґеґґи', 'sing,gent')]),
    (5, 'ADJF,Qual', [('гарґий', 'masc,sing,nomn'), ('найгарґий', 'masc,sing,gent'), ('ґ', 'plur,nomn')]),
    (6, 'PREP', [('аґ', '')]),
]


def uk_lexemes():
    lex = list(UK)
    # enough similar words to make some endings predictable
    for k, stem in enumerate(['ґуґ', 'ґаґ', 'ґыґ', 'ґоґ']):
        lex.append((10 + k, 'NOUN,inan,femn', [(stem + 'ґа', 'sing,nomn'), (stem + 'ґи', 'sing,gent')]))
    for k, stem in enumerate(['бур', 'бар', 'бор', 'бер']):
        lex.append((20 + k, 'ADJF,Qual', [(stem + 'гий', 'masc,sing,nomn'), ('най' + stem + 'гий', 'masc,sing,gent'),
                                          ('щонай' + stem + 'гий', 'plur,nomn')]))
    return lex


def ukrainian(acc, i, n):
    if i:
        return
    with toydict.scratch() as tmp:
        path = toydict.compile_spec(tmp, uk_lexemes(), lang='uk')
        m = toydict.analyzer(path)
        r = R.Ref(R.Dict(path), lang='uk')
        forms = sorted(set(f for l in uk_lexemes() for f, g in l[2]))
        spell = set()
        for f in forms:
            base = f.replace('ґ', 'г')
            spell.update(respell(base, 'г', 'ґ'))
            for x in respell(base, 'г', 'ґ'):
                spell.update([x + 'а', 'на' + x, 'ыыы' + x, 'авто' + x, x + '-но', 'авто-' + x, 'най' + x, x.upper()])
        spell.update(W.strings('гґаи', 4, 1))
        W.each(acc, sorted(spell), 'uk', lambda a, w: check_spelling(a, w, m, r))


def spaces(ck):
    return [
        ('all ё subsets of all words with ё', yo_words, 'slow'),
        ('known-word queries with ё for е', wrong_yo_known, 'slow'),
        ('parses with ё for е', wrong_yo_parse, 'slow'),
        ('prediction endings, all spellings', endings, 'slow'),
        ('substitution tables', tables, 'slow'),
        ('Ukrainian toy dictionary', ukrainian, 'fast'),
    ]


assumptions = ['dictionary files decoded by dawg_python exact lookup']


def run_case(ck, case):
    a = case['args']
    if case['kind'] == 'table':
        tab = TABLES[a[0]]
        return list(check_spelling(ck.acc, a[1], toydict.analyzer(W.dpath(), char_substitutes=tab),
                                   R.Ref(W.refdict(), subst=tab or {})))
    return list(check_spelling(ck.acc, a, full=case['kind'] != 'known'))
