# -*- coding: utf-8 -*-
"""
C08: inflection returns the closest form that has everything requested.

Enumerated: for one word per inflection pattern (first form) and one per tag:
every single grammeme of the language as the request, all pairs (quick: from the
inflection categories) and all number x case x gender, person x number x tense
requests, every tag of the lexeme as a full request, rare cases, and the same
through every kind of predicted word.  Oracle: selection rule evaluated over the
reference lexeme; any form tied for closeness is accepted.
"""
import itertools

from core import shard
import fam
import ref as R
import world as W

ID = 'C08'
LEVEL = 'model_checking'

NUM = ['sing', 'plur']
CASE = ['nomn', 'gent', 'datv', 'accs', 'ablt', 'loct', 'voct', 'gen1', 'gen2', 'acc2', 'loc1', 'loc2']
GEN = ['masc', 'femn', 'neut']
PERS = ['1per', '2per', '3per']
TENSE = ['pres', 'past', 'futr']
MOOD = ['indc', 'impr']
POS = ['ADJF', 'ADJS', 'COMP', 'VERB', 'INFN', 'PRTF', 'PRTS', 'GRND', 'NOUN']


def requests():
    res = [[]]
    for a in (NUM, CASE, GEN, PERS, TENSE, MOOD, POS):
        res += [[x] for x in a]
    for a, b in itertools.combinations((NUM, CASE, GEN, PERS, TENSE, MOOD, POS), 2):
        res += [list(t) for t in itertools.product(a, b)]
    res += [list(t) for t in itertools.product(NUM, CASE, GEN)]
    res += [list(t) for t in itertools.product(NUM, CASE, ['anim', 'inan'])]
    res += [list(t) for t in itertools.product(PERS, NUM, TENSE)]
    res += [list(t) for t in itertools.product(['PRTF', 'PRTS'], NUM + GEN, ['actv', 'pssv'], ['pres', 'past'])]
    return res


@W.memo
def singles():
    return [[g] for g in sorted(W.refdict().gr.known)]


def quality(want, g):
    return 10 * len(want & g) - len(want ^ g)


def expected(r, p, lexeme, req):
    """ -> (candidate forms, updated grammemes) """
    gr = r.d.grammemes
    req = frozenset(req)
    cand = [f for f in lexeme if req <= gr(f[1])]
    if not cand:
        req = frozenset(R.RARE.get(g, g) for g in req)
        cand = [f for f in lexeme if req <= gr(f[1])]
    return cand, r.d.gr.updated(gr(str(p[1])), req)


def judge(r, p, lexeme, req, got):
    cand, want = expected(r, p, lexeme, req)
    if not cand:
        return None if got is None else 'got %r, no form matches' % (got[:3],)
    if got is None:
        return 'got None, %d forms match, e.g. %r' % (len(cand), cand[0][:3])
    gr = r.d.grammemes
    best = max(quality(want, gr(f[1])) for f in cand)
    ok = [f for f in cand if quality(want, gr(f[1])) == best]
    if (got[0], str(got[1])) not in [(f[0], f[1]) for f in ok]:
        return 'got %r, closest %r' % ((got[0], str(got[1])), [(f[0], f[1]) for f in ok][:3])
    if got[2] not in set(f[2] for f in ok):
        return 'normal form %r' % (got[2],)
    return None


def check_word(acc, w, reqs):
    m, r = W.morph(), W.ref()
    got = m.parse(w)
    want = list(r.parse(w))
    for p in got:
        cands = [x for x in want if (x[0], x[1], x[2]) == (p[0], str(p[1]), p[2])]
        if not cands:
            yield 'unexpected parse %r' % (W.plain([p]),)
            continue
        lex = p.lexeme
        ref = None
        for c in cands:
            rl = r.lexeme(c)
            if not W.diff_lexeme(lex, rl):
                ref = rl
                want.remove(c)
                break
        if ref is None:
            yield 'lexeme of %r differs' % (W.plain([p]),)
            continue
        full = reqs + W.unique_lists(sorted(r.d.grammemes(f[1])) for f in ref)[:12]
        for req in full:
            acc.count('transitions')
            acc.count('traces')
            res = p.inflect(set(req))
            acc.outcome('none' if res is None else 'form')
            e = judge(r, p, ref, req, res)
            if e:
                yield 'inflect(%r) of %r: %s' % (req, W.plain([p])[0][:3], e)


ALL = requests()


def small(w):
    """ a word-dependent but fixed eighth of the requests, plus all single ones """
    k = sum(map(ord, w)) % 8
    return [q for i, q in enumerate(ALL) if len(q) < 2 or i % 8 == k]


def check_full(acc, w):
    return check_word(acc, w, ALL + singles())


def check_small(acc, w):
    return check_word(acc, w, small(w))


def check_errors(acc, w):
    m = W.morph()
    for p in m.parse(w):
        for req in (['foo'], ['sing', 'foo'], ['gent', 'plur', 'xxxx'], ['СУЩ'], ['NOUN,sing'], ['']):
            acc.count('transitions')
            try:
                res = p.inflect(set(req))
            except ValueError:
                acc.outcome('rejected')
                continue
            yield 'inflect(%r) of %r returned %r instead of an error' % (req, W.plain([p])[0][:3], res)
        req = frozenset(['plur', 'gent'])
        mine = set(req)
        p.inflect(mine)
        if mine != req:
            yield 'the request was changed to %r' % (mine,)


def para_words(step):
    def space(acc, i, n):
        ws = sorted(set(w for w, p in W.para_reps()))[::step]
        acc.sample({'requests': ALL[:5], 'number_of_requests': len(ALL) + len(singles())}, 1)
        W.each(acc, W.share(ws, i, n), 'full', check_full)
    return space


def every_form(step):
    def space(acc, i, n):
        ws = sorted(set(w for p, x, w in W.reps()))[::step]
        W.each(acc, W.share(ws, i, n), 'small', check_small)
    return space


def unknown(acc, i, n):
    W.each(acc, W.share(fam.mixed(), i, n), 'small', check_small)


def errors(acc, i, n):
    W.each(acc, W.share(fam.reps_plain()[::7] + fam.mixed()[::5], i, n), 'error', check_errors)


def spaces(ck):
    return [
        ('every inflection pattern, all requests', para_words(1), 'slow'),
        ('every form, request slices', every_form(1 if ck.thorough else 24), 'slow'),
        ('words of every kind', unknown, 'slow'),
        ('unknown grammemes', errors, 'slow'),
    ]


def run_case(ck, case):
    return list({'full': check_full, 'small': check_small, 'error': check_errors}[case['kind']](ck.acc, case['args']))
