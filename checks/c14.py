# -*- coding: utf-8 -*-
"""
C14: capital single letters are also analysed as initials.

Enumerated: every code point as a token; every letter of the alphabet in 12
contexts (lower case, doubled, with a point, hyphen, particle, prefix ...); for
every initial all parses x all (gender, case, number) requests; the Ukrainian
table over a toy dictionary.  Oracle: explicit table of the 24 name parses and
their lexemes.
"""
import itertools
import sys

import ref as R
import refcfg
import toydict
import world as W
import c08
from c02 import uk_lexemes

ID = 'C14'
LEVEL = 'model_checking'
CASES = ['nomn', 'gent', 'datv', 'accs', 'ablt', 'loct']


def name_tags():
    return [('NOUN,anim,%s,Sgtm,%s,Fixd,Abbr,Init sing,%s' % (g, k, c)) for k in ('Name', 'Patr')
            for g in ('masc', 'femn') for c in CASES]


def is_init(tag):
    return 'Init' in R.split_tag(tag)


def check(acc, tok, m=None, r=None, letters=None):
    m = m or W.morph()
    r = r or W.ref()
    letters = letters or refcfg.LANG['ru']['letters']
    acc.count('transitions', 2)
    acc.count('traces')
    got = m.parse(tok)
    want = r.parse(tok)
    d = W.diff_parses(got, want)
    if d:
        yield d
        return
    init = [p for p in got if is_init(str(p.tag))]
    tags = [str(t) for t in m.tag(tok)]
    if set(tags) != set(p[1] for p in want):
        yield 'tag(): %r' % tags
    if tok not in letters or len(tok) != 1:
        if init and '-' not in tok:
            yield 'unexpected initials %r' % (W.plain(init)[:3],)
        return
    acc.count('initials')
    if sorted(str(p.tag) for p in init) != sorted(name_tags()):
        yield 'initials: %r' % (sorted(str(p.tag) for p in init),)
    dic = r.u_dict(tok, tok.lower(), set())
    if len(got) != len(init) + len(dic):
        yield 'dictionary parses changed'
    for p in init:
        tag = str(p.tag)
        g = 'masc' if 'masc' in R.split_tag(tag) else 'femn'
        if 'Name' in R.split_tag(tag):
            lex = [t for t in name_tags() if ',Name,' in t and ',%s,' % g in t]
        else:
            lex = [t for t in name_tags() if ',Patr,' in t]
        if [(f.word, str(f.tag), f.normal_form) for f in p.lexeme] != [(tok.lower(), t, tok.lower()) for t in lex]:
            yield 'lexeme of %s: %r' % (tag, [str(f.tag) for f in p.lexeme])
            continue
        if (p.normalized.word, str(p.normalized.tag)) != (tok.lower(), lex[0]):
            yield 'normalized %s: %r' % (tag, p.normalized)
        forms = [(tok.lower(), t, tok.lower(), 1, None) for t in lex]
        for a, b, c in itertools.product([None, 'masc', 'femn'], CASES + [None, 'gen2', 'voct', 'loc2'], [None, 'sing', 'plur']):
            req = [x for x in (a, b, c) if x]
            acc.count('transitions')
            res = p.inflect(set(req))
            e = c08.judge(r, p, forms, req, res)
            if e:
                yield 'inflect(%r) of %s: %s' % (req, tag, e)
    if sorted(tags) != sorted(p[1] for p in want):
        yield 'tag(): %r' % tags


def points(acc, i, n):
    def gen():
        for c in range(i, sys.maxunicode + 1, n):
            if not 0xD800 <= c <= 0xDFFF and (ck_thorough[0] or c < 0x3000 or 0xA640 <= c < 0xA700 or 0x1D400 <= c < 0x1D800
                                              or 0x1C80 <= c <= 0x1CFF or c % 64 == 0):
                yield chr(c)
    W.each(acc, gen(), 'token', check)


ck_thorough = [False]
ALPHA = 'абвгдеёжзийклмнопрстуфхцчшщъыьэюяґєії'


def context_tokens():
    for c in ALPHA + ALPHA.upper():
        for ctx in ('%s', '%s.', '%s%s', '-%s', '%s-', '%s-то', 'авто%s', 'Авто%s', '%s-%s', ' %s', '%s ', '%s\n', '%s\u0301',
                    '«%s»', 'по-%s', '1%s', 'ъ%s', '%s,', 'кот-%s', '%s-кот', '.%s', '(%s)', '%s.%s.', "%s'", '%s\u200b', '\ufeff%s'):
            yield ctx.replace('%s', c)
    for a in ALPHA.upper():
        for b in ALPHA.upper()[::3] + ALPHA[::3]:
            yield a + b
            yield a + '.' + b
            yield a + '-' + b


def contexts(acc, i, n):
    W.each(acc, W.share(context_tokens(), i, n), 'token', check)


def ukrainian(acc, i, n):
    if i:
        return
    with toydict.scratch() as tmp:
        lex = uk_lexemes()
        path = toydict.compile_spec(tmp, lex, lang='uk')
        m = toydict.analyzer(path)
        r = R.Ref(R.Dict(path), lang='uk')
        toks = list(ALPHA + ALPHA.upper() + 'IVXLCDMivxabZ1.-')
        W.each(acc, toks, 'uk', lambda a, w: check(a, w, m, r, refcfg.LANG['uk']['letters']))


def spaces(ck):
    ck_thorough[0] = ck.thorough
    return [
        ('single characters', points, 'slow'),
        ('letters in contexts', contexts, 'slow'),
        ('letters in contexts', contexts, 'fast'),
        ('Ukrainian initials', ukrainian, 'fast'),
    ]


def run_case(ck, case):
    return list(check(ck.acc, case['args']))
