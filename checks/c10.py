# -*- coding: utf-8 -*-
"""
C10: known prefixes - the rest of the word decides the parse.

Enumerated: all prefixes x a representative of every feature set, all prefixes x
all short remainders, all pairs of prefixes (stacked), one prefix x every tag,
prefixes before hyphens, particles, respelled and unknown remainders, for the
Russian table, and all Ukrainian prefixes over a toy dictionary.  Oracle: the
reference analysis; additionally the prefix relation between the parses,
lexemes and inflected forms of word and remainder is checked directly.  Also words
of every length, first and last letters behind prefixes.
"""
from core import shard
import fam
import ref as R
import refcfg
import toydict
import world as W
from c02 import uk_lexemes

ID = 'C10'
LEVEL = 'model_checking'


def sig(f):
    return (f[0], str(f[1]), f[2])


def check(acc, w, m=None, r=None, deep=True):
    m = m or W.morph()
    r = r or W.ref()
    for x in W.check_word(acc, w, m, r):
        yield x
    if deep:
        for x in W.check_lexemes(acc, w, m, r):
            yield x


def check_shallow(acc, w):
    return check(acc, w, deep=False)


def check_relation(acc, args):
    """ implementation against itself: parses of prefix+rest are those of rest, prefixed """
    pref, rest = args
    m, r = W.morph(), W.ref()
    w = pref + rest
    for x in check(acc, w):
        yield x
    want = r.parse(w)
    if not all(o[4][0] == 'p' and o[4][1] == pref for o in want):
        return
    base = {}
    for p in m.parse(rest):
        if r.d.productive(str(p.tag)):
            base.setdefault((pref + p[0], str(p[1]), pref + p[2]), []).append(p)
    got = m.parse(w)
    if set(sig(p) for p in got) != set(base):
        yield 'parses of %r and %r do not correspond' % (w, rest)
        return
    acc.count('relations')
    for p in got:
        lexs = [[(pref + f[0], str(f[1]), pref + f[2]) for f in q.lexeme] for q in base[sig(p)]]
        if [sig(f) for f in p.lexeme] not in lexs:
            yield 'lexeme of %r is not the prefixed lexeme of %r' % (sig(p), rest)
        for req in (['plur', 'gent'], ['sing', 'ablt'], ['INFN'], ['past', 'plur'], ['loc2']):
            a = p.inflect(set(req))
            bs = [q.inflect(set(req)) for q in base[sig(p)]]
            ok = [None if b is None else (pref + b[0], str(b[1]), pref + b[2]) for b in bs]
            if (None if a is None else sig(a)) not in ok:
                yield 'inflect(%r): %r, remainder gives %r' % (req, a and sig(a), ok)


def all_prefixes(acc, i, n):
    acc.sample({'prefixes': fam.prefixes()[:5], 'words': fam.feature_reps()[:5]}, 1)
    W.each(acc, W.share(((p, w) for p in fam.prefixes() for w in fam.feature_reps()), i, n), 'relation', check_relation)


def short_rest(acc, i, n):
    """ remainders of 0..4 letters """
    rests = [''] + list('аеёкй-') + ['он', 'во', 'же', 'ад', 'ёж', 'е-', '-е'] + \
        ['кот', 'ели', 'ёлк', 'как', 'его', 'вот', '-то', 'еще', 'ещё', 'два', 'мне', 'ъщы', 'ком', 'мед', 'мёд'] + \
        ['двум', 'соль', 'ъщыя', '-дом', 'дом-']
    W.each(acc, W.share((p + x for p in fam.prefixes() for x in rests), i, n), 'word', check)


def every_tag(acc, i, n):
    ps = fam.prefixes()
    ws = fam.reps_plain()
    W.each(acc, W.share([ps[k % len(ps)] + w for k, w in enumerate(ws)] + ['лже' + w for w in ws], i, n), 'word', check)


def chains(acc, i, n):
    ps = fam.prefixes()

    def gen():
        for p in ps:
            for q in ps:
                for w in ('кошками', 'ёлке', 'ъщыми', 'нами'):
                    yield p + q + w
    W.each(acc, W.share(gen(), i, n), 'word', check_shallow)


def chains3(acc, i, n):
    ps = fam.prefixes()

    def gen():
        for p in ps:
            for q in ps:
                for s in ps[::3]:
                    yield p + q + s + 'коту'
    W.each(acc, W.share(gen(), i, n), 'word', check_shallow)


def tails(acc, i, n):
    def gen():
        for k, p in enumerate(fam.prefixes()):
            for w in fam.feature_reps()[k % 3::3]:
                yield p + w.upper()
                yield p + w + '-то'
                yield p + w + '-человек'
                yield p + '-' + w
                yield p + 'ъщ' + w
                yield p + w.replace('ё', 'е')
                yield 'по-' + p + w
                yield 'наи' + p + w
                yield p[:-1] + w
    W.each(acc, W.share(gen(), i, n), 'word', check_shallow)


def ukrainian(acc, i, n):
    if i:
        return
    with toydict.scratch() as tmp:
        path = toydict.compile_spec(tmp, uk_lexemes(), lang='uk')
        m = toydict.analyzer(path)
        r = R.Ref(R.Dict(path), lang='uk')
        words = ['ґанок', 'ганку', 'гегґа', 'бургий', 'найбаргий', 'щонайборгий', 'аґ', 'ґуґґа', 'ыыыгий']
        ps = refcfg.LANG['uk']['prefixes']
        ws = [p + w for p in ps for w in words]
        ws += [p + q + 'ґанок' for p in ps[::9] for q in ps]
        W.each(acc, ws, 'uk', lambda a, w: check(a, w, m, r))


def unusual(acc, i, n):
    ps = tuple(fam.prefixes())
    W.each(acc, W.share((w for w in fam.longs() if w.startswith(ps)), i, n), 'word', check)


def spaces(ck):
    res = [
        ('all prefixes x feature representatives', all_prefixes, 'slow'),
        ('short remainders', short_rest, 'slow'),
        ('every tag', every_tag, 'slow'),
        ('pairs of prefixes', chains, 'slow'),
        ('prefixes with hyphens, particles, unknown remainders', tails, 'slow'),
        ('long and unusual words', unusual, 'slow'),
        ('pairs of prefixes', chains, 'fast'),
        ('Ukrainian prefixes', ukrainian, 'fast'),
    ]
    if ck.thorough:
        res.append(('triples of prefixes', chains3, 'slow'))
    return res


def run_case(ck, case):
    fn = {'word': check, 'relation': check_relation}.get(case['kind'])
    return list(fn(ck.acc, case['args'])) if fn else ['rerun the check for %r' % (case,)]
