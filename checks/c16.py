# -*- coding: utf-8 -*-
"""
C16: required grammemes replace exactly the incompatible ones.

Enumerated: all tags x all single required grammemes; one tag per feature set x
all pairs, and all triples of inflectional grammemes; unknown grammemes in every
position; the same again after further dictionaries with the same grammeme list
were loaded (also from a toy dictionary whose grammeme tree has every shape of
parent/child relation).  Oracle: compatibility computed from the grammeme tree.
"""
import itertools

from core import shard
import ref as R
import toydict
import world as W
from c15 import all_tags, raises, T

ID = 'C16'
LEVEL = 'model_checking'


def check(acc, args, cls=None, gr=None):
    tag, req = args
    cls = cls or T()
    gr = gr or W.refdict().gr
    t = cls(tag)
    seq = R.split_tag(tag)
    mine = set(req)
    for arg in (mine, frozenset(req)):
        got = t.updated_grammemes(arg)
        acc.count('transitions')
        want = gr.updated(seq, req)
        if set(got) != want:
            yield 'required %r: got only %r, expected only %r' % (
                sorted(req), sorted(set(got) - want), sorted(want - set(got)))
    acc.count('traces')
    if mine != set(req):
        yield 'the request was changed'
    if set(t.grammemes) != set(seq) or str(t) != tag:
        yield 'the tag was changed'


def check_error(acc, args):
    tag, req = args
    t = T()(tag)
    acc.count('transitions')
    acc.count('traces')
    if not raises(lambda: t.updated_grammemes(set(req))):
        yield 'unknown grammeme in %r accepted' % (sorted(req),)


@W.memo
def feature_tags():
    best = {}
    for t in all_tags():
        key = (R.split_tag(t)[0], frozenset(g for g in R.split_tag(t) if g in R.FEATURES))
        best.setdefault(key, t)
    return sorted(best.values())


INFL = ['masc', 'femn', 'neut', 'sing', 'plur', 'nomn', 'gent', 'loc2', 'voct', 'anim', 'inan', '1per', 'past', 'pres',
        'impr', 'indc', 'Ms-f', 'VERB', 'ADJF', 'perf', 'GNdr', 'CAse', 'NMbr']


def singles(acc, i, n):
    known = sorted(W.refdict().gr.known & set(r[0] for r in W.refdict().gr.rows)) + ['Init', 'UNKN', 'PNCT']
    W.each(acc, ((t, [g]) for t in shard(all_tags(), i, n) for g in known), 'update', check)


def pairs(acc, i, n):
    known = sorted(r[0] for r in W.refdict().gr.rows)
    infl = [g for g in INFL if g in known]

    def gen():
        for t in W.share(feature_tags(), i, n):
            yield (t, [])
            for p in itertools.combinations(known, 2):
                yield (t, list(p))
            for p in itertools.combinations(infl, 3):
                yield (t, list(p))
    W.each(acc, gen(), 'update', check)


def many(acc, i, n):
    """ requests of many grammemes: whole tags, whole tags with something else, all combinations of 4 and 5 """
    known = set(r[0] for r in W.refdict().gr.rows)
    infl = [g for g in INFL if g in known]
    feats = feature_tags()

    def gen():
        for t in W.share(feats, i, n):
            for u in feats:
                yield (t, list(R.split_tag(u)))
        for t in W.share(feats[::8], i, n):
            for u in feats[::8]:
                for g in infl:
                    yield (t, list(set(R.split_tag(u)) | set([g])))
            for size in (4, 5):
                for p in itertools.combinations(infl[:12], size):
                    yield (t, list(p))
    W.each(acc, gen(), 'update', check)


def errors(acc, i, n):
    def gen():
        for t in shard(all_tags()[::9], i, n):
            for u in ('foo', '', 'СУЩ', 'NOUN,anim', 'Plur'):
                yield (t, [u])
                yield (t, [u, 'sing'])
                yield (t, [u, 'gent', 'plur', 'VERB'])
                yield (t, [u] + list(R.split_tag(t)))
    W.each(acc, gen(), 'error', check_error)


def reloaded(acc, i, n):
    """ loading the dictionary again must not change anything """
    import pymorphy2
    W.morph()
    for k in range(2):
        pymorphy2.MorphAnalyzer()
        W.each(acc, ((t, [g]) for t in W.share(feature_tags(), i, n) for g in INFL if g in W.refdict().gr.known),
               'update', check)


def trees():
    """ small grammeme trees: parents at depth 0..3, siblings, plural with gender present, order of rows """
    base = [('POST', '', 'ЧР'), ('NOUN', 'POST', 'СУЩ'), ('VERB', 'POST', 'ГЛ'),
            ('NMbr', '', 'Число'), ('sing', 'NMbr', 'ед'), ('plur', 'NMbr', 'мн'),
            ('GNdr', '', 'хр'), ('masc', 'GNdr', 'мр'), ('femn', 'GNdr', 'жр'), ('msfm', 'femn', 'ор'),
            ('CAse', '', 'Падеж'), ('nomn', 'CAse', 'им'), ('voct', 'nomn', 'зв'), ('vocx', 'voct', 'зв2'),
            ('gent', 'CAse', 'рд'), ('gen1', 'gent', 'рд1'), ('gen2', 'gent', 'рд2'),
            ('lone', '', 'один')]
    yield base
    yield list(reversed(base))
    yield [r if r[0] != 'femn' else ('femn', '', 'жр') for r in base]
    yield [r for r in base if r[0] not in ('GNdr',)]
    yield [r if r[0] not in ('gen1', 'gen2') else (r[0], 'CAse', r[2]) for r in base]


def toys(acc, i, n):
    """ each tree in its own process: grammeme tables are shared within a process """
    for k, rows in enumerate(trees()):
        if k % n != i:
            continue
        with toydict.scratch() as tmp:
            path = toydict.compile_spec(tmp, [(1, 'NOUN,masc', [('кот', 'sing,nomn'), ('коты', 'plur,nomn')])], grammemes=rows)
            import pymorphy2.units
            m = toydict.analyzer(path, units=[pymorphy2.units.DictionaryAnalyzer()])
            gr = R.Dict(path).gr
            names = [r[0] for r in rows]

            def gen():
                for a in range(len(names)):
                    for size in (1, 2):
                        for rest in itertools.combinations(names, size):
                            tag = ','.join([names[a]] + [x for x in rest if x != names[a]])
                            for q in itertools.combinations(names, 1):
                                yield (tag, list(q))
                            yield (tag, ['plur', 'gen2'])
                            yield (tag, ['masc', 'voct', 'sing'])
            W.each(acc, gen(), 'tree', lambda acc, a: check(acc, a, m.TagClass, gr))


def spaces(ck):
    return [
        ('all tags x all grammemes', singles, 'slow'),
        ('all pairs of required grammemes', pairs, 'slow'),
        ('requests of many grammemes', many, 'slow'),
        ('unknown grammemes', errors, 'slow'),
        ('after loading the dictionary again', reloaded, 'slow'),
        ('grammeme trees', toys, 'fast'),
    ]


def run_case(ck, case):
    return list({'update': check, 'error': check_error}[case['kind']](ck.acc, case['args']))
