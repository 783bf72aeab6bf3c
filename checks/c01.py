# -*- coding: utf-8 -*-
"""
C01: dictionary words get exactly the parses the dictionary records.

Model: the raw dictionary (reference reader).  All distinct words of the
installed dictionary are enumerated and the real parse()/tag()/normal_forms()/
is_known are compared with the model.
"""
from core import shard
import world as W

ID = 'C01'
LEVEL = 'model_checking'


def check_word(acc, w):
    m, r = W.morph(), W.ref()
    want = r.parse(w)
    got = m.parse(w)
    acc.count('transitions', 4)
    acc.count('traces')
    acc.count('parses_compared', len(want))
    d = W.diff_parses(got, want, scores=False)
    if d:
        yield d
        return
    for p in got:
        if not p.is_known:
            yield 'parse %r is not reported as known' % (p[:3],)
    if sorted(str(t) for t in m.tag(w)) != sorted(p[1] for p in want):
        yield 'tag() differs from the dictionary: %r' % (m.tag(w),)
    nfs = W.unique(p[2] for p in got)
    if m.normal_forms(w) != nfs:
        yield 'normal_forms() %r, parses have %r' % (m.normal_forms(w), nfs)


def all_words(acc, i, n):
    ws = shard(W.words(), i, n)
    acc.sample({'first': ws[0], 'last': ws[-1], 'parses_of_first': W.plain(W.morph().parse(ws[0]))[:2]}, 1)
    W.each(acc, ws, 'word', check_word)


def rep_words(acc, i, n):
    ws = sorted(set(w for p, x, w in W.reps()))
    W.each(acc, shard(ws, i, n), 'word', check_word)


def spaces(ck):
    return [
        ('all dictionary words', all_words, 'slow'),
        ('one word per (paradigm, form)', rep_words, 'fast'),
    ]


assumptions = ['the installed dictionary files are decoded correctly by dawg_python exact lookup (trusted library)']


def run_case(ck, case):
    return list(check_word(ck.acc, case['args']))
