# -*- coding: utf-8 -*-
"""
C15: tags behave as immutable ordered sets of grammemes.

Enumerated: all tags of the dictionary and of shapes/initials x all grammemes and
unknown names (membership), x all category attributes x all values (comparison),
x subsets of up to 2 grammemes (and supersets with unknown names); all pairs of a
set of about 450 tags chosen to share prefixes and grammemes (equality, order,
hash); pickles of all protocols and copies of every tag.  Oracle: the grammeme
sequence written in the tag.
"""
import copy
import itertools
import pickle

from core import shard
import ref as R
import world as W
from c14 import name_tags

ID = 'C15'
LEVEL = 'model_checking'

CATEGORIES = {
    'POS': R.POS,
    'animacy': frozenset(['anim', 'inan']),
    'aspect': frozenset(['perf', 'impf']),
    'case': R.CASES,
    'gender': frozenset(['masc', 'femn', 'neut']),
    'involvement': frozenset(['incl', 'excl']),
    'mood': frozenset(['indc', 'impr']),
    'number': R.NUMBERS,
    'person': R.PERSONS,
    'tense': R.TENSES,
    'transitivity': frozenset(['tran', 'intr']),
    'voice': frozenset(['actv', 'pssv']),
}
UNKNOWN = ['foo', '', 'noun', 'NOUN ', 'СУЩ', 'NOUN,anim', 'Sing', 'nom', 'POS']


@W.memo
def all_tags():
    return sorted(set(W.refdict().gramtab)) + name_tags() + ['PNCT', 'LATN', 'ROMN', 'UNKN', 'NUMB,intg', 'NUMB,real']


@W.memo
def sample_tags():
    """ tags close to each other, in several spellings """
    res = []
    ts = sorted(set(W.refdict().gramtab))
    res += ts[::13]
    res += [t.replace(' ', ',') for t in ts[::39]]
    res += [R.split_tag(t)[0] for t in ts]
    res += [','.join(R.split_tag(t)[:2]) for t in ts]
    res += [' '.join([','.join(R.split_tag(t)[:-1]), R.split_tag(t)[-1]]).strip() for t in ts[::41]]
    res += [','.join(reversed(R.split_tag(t))) for t in ts[::97]]
    return W.unique(res)


def T():
    return W.morph().TagClass


def raises(fn, exc=ValueError):
    try:
        fn()
    except exc:
        return True
    return False


def check_tag(acc, s):
    cls = T()
    t = cls(s)
    seq = R.split_tag(s)
    gset = frozenset(seq)
    known = W.refdict().gr.known
    acc.count('traces')
    if str(t) != s or repr(t) != "OpencorporaTag('%s')" % s:
        yield 'prints as %r / %r' % (str(t), repr(t))
    if len(t) != len(seq) or set(t.grammemes) != gset or not isinstance(t.grammemes, frozenset):
        yield 'grammemes %r, length %d' % (t.grammemes, len(t))
    for g in sorted(known):
        acc.count('transitions')
        if (g in t) != (g in gset):
            yield '%r in tag: %r' % (g, g in t)
    for g in UNKNOWN:
        if g in known:
            continue
        acc.count('transitions')
        if not raises(lambda: g in t):
            yield 'unknown grammeme %r accepted in membership test' % g
        for s_ in (set([g]), frozenset([g, seq[0]]), set([g, 'sing', 'plur']), set(gset) | set([g])):
            if not raises(lambda: s_ in t):
                yield 'unknown grammemes %r accepted in membership test' % (s_,)
    others = sorted(known - gset)[::11]
    for k in range(len(seq) + 1):
        sub = set(seq[:k])
        if not (sub in t) or not (frozenset(seq[k:]) in t):
            yield '%r should be in the tag' % (sub,)
        for o in others:
            acc.count('transitions')
            if (sub | set([o])) in t:
                yield '%r should not be in the tag' % (sub | set([o]),)
    for attr, values in CATEGORIES.items():
        mine = gset & values
        v = getattr(t, attr)
        acc.count('transitions')
        if not mine:
            if v is not None:
                yield '%s is %r' % (attr, v)
            continue
        if v is None or str(v) not in mine:
            yield '%s is %r, expected one of %r' % (attr, v, sorted(mine))
            continue
        if hash(v) != hash(str(v)):
            yield 'hash of %s' % attr
        for x in values:
            if (v == x) != (str(v) == x) or (v != x) != (str(v) != x):
                yield 'comparing %s=%s with %r' % (attr, v, x)
        if (v == None) is not False or (v != None) is not True:  # noqa
            yield 'comparing %s with None' % attr
        for x in ('foo', 'NOUN' if attr != 'POS' else 'sing', ''):
            if not raises(lambda: v == x) or not raises(lambda: v != x):
                yield 'comparing %s with %r is not an error' % (attr, x)


def check_copy(acc, s):
    t = T()(s)
    gs = set(t.grammemes)
    acc.count('traces')
    for name, fn in [('copy', copy.copy), ('deepcopy', copy.deepcopy)] + [
            ('pickle %d' % k, lambda x, k=k: pickle.loads(pickle.dumps(x, k))) for k in range(pickle.HIGHEST_PROTOCOL + 1)]:
        u = fn(t)
        acc.count('transitions')
        if not (u == t) or (u != t) or hash(u) != hash(t) or str(u) != s or u.POS != t.POS or set(u.grammemes) != gs \
                or type(u) is not type(t):
            yield '%s gives %r' % (name, u)


def check_pair(acc, args):
    a, b = args
    cls = T()
    x, y = cls(a), cls(b)
    sa, sb = R.split_tag(a), R.split_tag(b)
    acc.count('transitions')
    acc.count('traces')
    for name, got, want in (('==', x == y, sa == sb), ('!=', x != y, sa != sb), ('<', x < y, sa < sb), ('>', x > y, sa > sb)):
        if got is not want:
            yield '%s is %r' % (name, got)
    if sa == sb and hash(x) != hash(y):
        yield 'equal tags have different hashes'
    if len(set([x, y])) != len(set([sa, sb])):
        yield 'set of both has the wrong size'
    if [str(t) for t in sorted([y, x])] not in ([a, b], [b, a]) or \
            [R.split_tag(str(t)) for t in sorted([y, x])] != sorted([sa, sb]):
        yield 'sorted order'


def check_unknown_tag(acc, s):
    acc.count('transitions')
    acc.count('traces')
    if not raises(lambda: T()(s)):
        yield 'tag with unknown grammemes was created'


def tags(acc, i, n):
    W.each(acc, shard(all_tags(), i, n), 'tag', check_tag)


def copies(acc, i, n):
    W.each(acc, shard(all_tags(), i, n), 'copy', check_copy)


def pairs(acc, i, n):
    st = sample_tags()
    acc.sample({'tags': st[:3], 'count': len(st)}, 1)
    W.each(acc, W.share(itertools.product(st, st), i, n), 'pair', check_pair)


def unknown(acc, i, n):
    def gen():
        for t in all_tags()[::5]:
            seq = R.split_tag(t)
            for k in range(len(seq) + 1):
                yield ','.join(seq[:k] + ('foo',) + seq[k:])
            yield t + ','
            yield t + ' '
            yield t.lower() + 'x'
            yield 'x' + t
            if ' ' in t:
                yield t.replace(' ', '  ')
                yield t + ' sing'
    W.each(acc, W.share(gen(), i, n), 'unknown', check_unknown_tag)


def typed(acc, i, n):
    """ category values: every attribute compared with every grammeme of the language """
    known = sorted(W.refdict().gr.known)

    def one(acc, args):
        attr, tag = args
        v = getattr(T()(tag), attr)
        for g in known:
            acc.count('transitions')
            if g in CATEGORIES[attr]:
                if (v == g) != (str(v) == g):
                    yield '%s == %s' % (attr, g)
            elif not raises(lambda: v == g):
                yield '%s compared with %s of another category' % (attr, g)
    items = []
    for attr in sorted(CATEGORIES):
        for val in sorted(CATEGORIES[attr]):
            if val in W.refdict().gr.known:
                items.append((attr, val))
                items.append((attr, 'NOUN,' + val if attr != 'POS' else val + ',anim'))
    W.each(acc, W.share(items, i, n), 'typed', one)


def spaces(ck):
    return [
        ('all tags', tags, 'slow'),
        ('copies of all tags', copies, 'slow'),
        ('pairs of tags', pairs, 'slow'),
        ('tags with unknown grammemes', unknown, 'slow'),
        ('category values', typed, 'slow'),
        ('all tags', tags, 'fast'),
    ]


def run_case(ck, case):
    fn = {'tag': check_tag, 'copy': check_copy, 'pair': check_pair, 'unknown': check_unknown_tag}[case['kind']]
    return list(fn(ck.acc, case['args']))
