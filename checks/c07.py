# -*- coding: utf-8 -*-
"""
C07: parse, lexeme and normal form are consistent.

Enumerated: one word per (paradigm, form) of the dictionary - so every entry of
every inflection pattern is entered from - and words of every kind of prediction
(thorough: all predicted endings, all hyphen pairs).  Lexeme and normalisation of
every parse are compared with the reference paradigm, and closed under the
relations the property names: containing the parse, one normal form, the same
lexeme from each member, normalising each member.
"""
from core import shard
import fam
import world as W

ID = 'C07'
LEVEL = 'model_checking'


def sig(f):
    return (f[0], str(f[1]), f[2])


def check_dict(acc, args):
    """ one dictionary entry: paradigm and form index """
    para, idx, w = args
    m, d = W.morph(), W.refdict()
    forms = d.paradigms[para]
    stem = d.stem(para, idx, w)
    want = [(p + stem + s, t) for p, t, s in forms]
    nf = want[0][0]
    acc.count('traces')
    hit = False
    for p in m.parse(w):
        if (p.word, str(p.tag), p.normal_form) != (w, forms[idx][1], nf):
            continue
        lex = p.lexeme
        acc.count('transitions', 2)
        acc.count('forms_compared', len(lex))
        if [(f.word, str(f.tag)) for f in lex] != want:
            continue
        if any(f.normal_form != nf for f in lex):
            yield 'normal forms in the lexeme: %r' % (sorted(set(f.normal_form for f in lex)),)
            continue
        hit = True
        if not p.is_known:
            yield 'dictionary parse %r is not known' % (sig(p),)
        n = p.normalized
        if sig(n) != (nf, want[0][1], nf):
            yield 'normalized %r expected %r' % (sig(n), (nf, want[0][1], nf))
    if not hit:
        yield 'no parse has the lexeme %r ... (%d forms)' % (want[:4], len(want))


def check_member(acc, args):
    """ every member of the lexeme leads back to the same lexeme """
    para, w = args
    m = W.morph()
    for p in m.parse(w):
        lex = p.lexeme
        base = [sig(f) for f in lex]
        acc.count('traces')
        if sig(p) not in base:
            yield '%r is not in its lexeme' % (sig(p),)
        for f in lex:
            acc.count('transitions', 2)
            if [sig(x) for x in f.lexeme] != base:
                yield 'lexeme obtained from %r differs' % (sig(f),)
            if sig(f.normalized)[:2] != base[0][:2]:
                yield 'normalising %r gives %r, expected %r' % (sig(f), sig(f.normalized), base[0])
            if f.normal_form != lex[0].word:
                yield 'normal form of %r is not the first member %r' % (sig(f), base[0])
        if p.normalized.normal_form != p.normal_form or p.normalized.word != p.normal_form:
            yield 'normalized %r' % (sig(p.normalized),)


def compound(o):
    """ is a compound with two inflected parts involved? """
    return o[0] == 'b' or any(isinstance(x, tuple) and compound(x) for x in o[1:])


def check_any(acc, w):
    m, r = W.morph(), W.ref()
    acc.count('traces')
    for x in W.check_lexemes(acc, w):
        yield x
    want = r.parse(w)
    for p in m.parse(w):
        lex = p.lexeme
        base = [sig(f) for f in lex]
        acc.count('transitions', 2)
        if sig(p)[:2] not in [b[:2] for b in base]:
            # two inflected parts are paired by closeness of their tags only
            if not any(compound(x[4]) for x in want):
                yield '%r is not in its lexeme' % (sig(p),)
        n = p.normalized
        if sig(n)[:2] != base[0][:2]:
            yield 'normalized %r, first member %r' % (sig(n), base[0])
        if len(set(f[2] for f in base)) != 1:
            yield 'several normal forms in one lexeme: %r' % (sorted(set(f[2] for f in base)),)
        again = [sig(x) for x in lex[-1].lexeme]
        if again != base:
            yield 'lexeme of the last member differs: %r' % (W.msub(again, base)[:4],)


def dict_entries(acc, i, n):
    W.each(acc, shard(W.reps(), i, n), 'entry', check_dict)


def members(acc, i, n):
    # one word per paradigm; long paradigms take quadratic work, spread them evenly
    ws = sorted(set((p, w) for w, p in W.para_reps()), key=lambda x: (-len(W.refdict().paradigms[x[0]]), x))
    W.each(acc, W.share(ws, i, n), 'member', check_member)


def unknown(thorough):
    def space(acc, i, n):
        gen = fam.everything_unknown(True) if thorough else (w for k, w in enumerate(fam.everything_unknown()) if k % 2 == 0)
        W.each(acc, W.share(gen, i, n), 'any', check_any)
    return space


def spaces(ck):
    return [
        ('every (paradigm, form)', dict_entries, 'slow'),
        ('every member of every paradigm', members, 'slow'),
        ('predicted words', unknown(ck.thorough), 'slow'),
        ('words of every kind', lambda a, i, n: W.each(a, shard(fam.mixed(), i, n), 'any', check_any), 'fast'),
    ]


def run_case(ck, case):
    return list({'entry': check_dict, 'member': check_member, 'any': check_any}[case['kind']](ck.acc, case['args']))
