# -*- coding: utf-8 -*-
"""
C09: agreement with a number follows the numeral rules for every number.

Enumerated: all tags of the dictionary (about 5000) x all numbers 0..999 and all
residues modulo 100 next to 10^3..10^18; all combinations of part of speech,
gender, animacy, number, case and other grammemes with numbers of all classes; then agreement of every noun, adjective
and participle tag's representative with all residues 0..119, interleaved with
modification of the returned sets.  Oracle: the rule table written out per class
of number, and reference inflection.
"""
from core import shard
import fam
import ref as R
import world as W
import c08

ID = 'C09'
LEVEL = 'model_checking'


def number_class(n):
    """ grammatical class of a numeral by its last two digits """
    s = '%02d' % (n % 100)
    if s[0] == '1':
        return 'many'
    return {'1': 'one', '2': 'few', '3': 'few', '4': 'few'}.get(s[1], 'many')


GENDERS = ('masc', 'femn', 'neut', 'GNdr')


def rule(tag, n):
    gs = R.split_tag(tag)
    pos = [g for g in gs if g in R.POS]
    pos = pos[0] if pos else None
    case = [g for g in gs if g in R.CASES]
    case = case[0] if case else None
    cls = number_class(n)
    if pos not in ('NOUN', 'ADJF', 'PRTF'):
        return set()
    if pos == 'NOUN' and case not in ('nomn', 'accs'):
        return {'one': {'sing', case}}.get(cls, {'plur', case})
    if cls == 'one':
        return {'sing', 'nomn'} if case == 'nomn' else {'sing', 'accs'}
    if cls == 'few':
        if pos == 'NOUN':
            return {'sing', 'gent'}
        if 'femn' in gs:
            return {'plur', 'nomn'}
    return {'plur', 'gent'}


def numbers(full):
    res = list(range(0, 1000 if full else 260))
    for e in (3, 6, 9, 18):
        res += [10 ** e + k for k in range(100)]
    res += [10 ** e + 11 for e in range(2, 19)]
    return res


NUMS = numbers(False)


def check_tag(acc, args):
    tag, nums = args
    T = W.morph().TagClass
    t = T(tag)
    nums = NUMS if nums is None else nums
    for n in nums:
        acc.count('transitions')
        acc.count('traces')
        got = t.numeral_agreement_grammemes(n)
        want = rule(tag, n)
        if set(got) != want:
            yield 'number %d: %r expected %r' % (n, sorted(map(str, got)), sorted(map(str, want)))
            return
        # whoever gets the set owns it
        if isinstance(got, set):
            got.add('XXXX')
            got.discard('sing')
            got.discard('plur')


def check_agree(acc, w):
    m, r = W.morph(), W.ref()
    got = m.parse(w)
    want = list(r.parse(w))
    for p in got:
        cands = [x for x in want if (x[0], x[1], x[2]) == (p[0], str(p[1]), p[2])]
        lex = None
        for c in cands:
            rl = r.lexeme(c)
            if not W.diff_lexeme(p.lexeme, rl):
                lex = rl
                break
        if lex is None:
            yield 'lexeme of %r differs' % (W.plain([p]),)
            continue
        for n in range(120):
            acc.count('transitions')
            acc.count('traces')
            req = rule(str(p.tag), n)
            res = p.make_agree_with_number(n)
            e = c08.judge(r, p, lex, req, res)
            acc.outcome('none' if res is None else str(res.tag.number))
            if e:
                yield '%d with %r: %s' % (n, W.plain([p])[0][:3], e)
                break


def tags(acc, i, n):
    ts = sorted(set(W.refdict().gramtab))
    W.each(acc, ((t, None) for t in shard(ts, i, n)), 'tag', check_tag)


OTHER = [(), ('Supr',), ('Qual',), ('Apro',), ('Anum',), ('Abbr',), ('Fixd',), ('Sgtm',), ('Pltm',), ('Name',), ('past', 'actv'), ('pres', 'pssv', 'impf'),
         ('V-oy',), ('Infr', 'Slng')]
FEW = list(range(0, 26)) + [99, 100, 101, 102, 104, 105, 111, 112, 114, 121, 1001, 1011, 1012, 1022, 10 ** 6 + 3]


def combined(full):
    """ tags which a dictionary may have: any combination of the categories, in the order of this one and with cases first """
    for pos in ('NOUN', 'ADJF', 'PRTF', 'ADJS', 'PRTS', 'NUMR', 'NPRO', 'VERB', 'ADVB', 'COMP'):
        for gender in ((), ('masc',), ('femn',), ('neut',), ('ms-f',)):
            for anim in ((), ('anim',), ('inan',)):
                for number in ((), ('sing',), ('plur',)):
                    for case in [(c,) for c in sorted(R.CASES)] + [()]:
                        if pos == 'NOUN' and not case:
                            continue
                        for k, other in enumerate(OTHER):
                            if full or k < 3 or pos in ('NOUN', 'ADJF', 'PRTF') and case in (('nomn',), ('accs',), ('gent',), ()):
                                yield ','.join((pos,) + other + anim + gender + number + case)
                                if k == 0:
                                    yield ' '.join(x for x in (','.join((pos,) + case + gender), ','.join(number + anim)) if x)


def tags_combined(full):
    def space(acc, i, n):
        W.each(acc, ((t, FEW) for t in W.share(combined(full), i, n)), 'tag', check_tag)
    return space


def tags_wide(acc, i, n):
    """ one tag per (POS, case, gender) with 0..99999 """
    best = {}
    for t in sorted(set(W.refdict().gramtab)):
        g = R.split_tag(t)
        best.setdefault((g[0], tuple(x for x in g if x in R.CASES), tuple(x for x in g if x in GENDERS)), t)
    ts = sorted(best.values())
    W.each(acc, ((t, list(range(0, 20000))) for t in W.share(ts, i, n)), 'tag', check_tag)


def agree(thorough):
    def space(acc, i, n):
        ws = fam.reps_plain() if thorough else fam.reps_plain()[::3]
        extra = [p + w for p in ('авто', 'ъщ', 'ъщ-') for w in fam.feature_reps()]
        extra += ['кот', 'мышь', 'ёж', 'всё', 'лев', 'человек', 'ребёнок', 'год', 'красивая', 'стоящая', 'А', 'человек-гора']
        W.each(acc, W.share(ws + extra, i, n), 'agree', check_agree)
    return space


def spaces(ck):
    return [
        ('all tags x residues', tags, 'slow'),
        ('combinations of categories', tags_combined(ck.thorough), 'slow'),
        ('all (POS, case, gender) x 0..19999', tags_wide, 'slow'),
        ('make_agree_with_number', agree(ck.thorough), 'slow'),
    ]


def run_case(ck, case):
    return list({'tag': check_tag, 'agree': check_agree}[case['kind']](ck.acc, case['args']))
