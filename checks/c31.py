# -*- coding: utf-8 -*-
"""
C31: known-word queries enumerate the dictionary exactly.

scan        every prefix of length 0-3 of every dictionary word: the iterated parses
            are exactly the entries below it (so the dictionary is scanned four times),
            against the decoded dictionary data.
parses      one word for every (paradigm, form): the iterated parse can be inflected,
            normalised, and has the lexeme of its entry.
membership  every dictionary word, all one-letter edits of representatives, all short
            strings: known exactly if listed, or (not strict) if a respelling is.
toy         small dictionaries with other languages and substitutes: every string up
            to a length as prefix and as word, in both environments.
"""
import itertools
import os
import subprocess
import json

import core
import refcfg
import toydict
import world as W

ID = 'C31'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of prefixes and words on the real code against the decoded dictionary'
assumptions = ['the installed dictionary data is decoded with dawg_python; the order of iteration is not compared']

import pymorphy2  # noqa
from pymorphy2 import dawg  # noqa

FAST = '/opt/venv/bin/python'


def thorough():
    return os.environ.get('VERIF_TIER') == 'thorough'


@W.memo
def word_set():
    return set(W.words())


# ---- scans ------------------------------------------------------------------------------------------------

def want_entries(d, ws):
    for w in ws:
        for para, idx in d.get(w):
            yield w, para, idx


def check_prefix(acc, m, d, prefix, ws, case):
    """ ws: the dictionary words starting with the prefix """
    want = sorted(want_entries(d, ws))
    got = []
    k = 0
    for p in m.iter_known_word_parses(prefix):
        st = p[4]
        if len(st) != 1:
            acc.violation('iter_known_word_parses(%r): methods %r' % (prefix, st), case)
            return
        got.append((p[0], st[0][2], st[0][3]))
        w, para, idx = got[-1]
        pref, tag, suf = d.paradigms[para][idx]
        if str(p[1]) != tag or p[2] != d.normal_form(para, idx, w) or p[0] != st[0][1] or p[3] != 1.0:
            acc.violation('iter_known_word_parses(%r): %r, but the entry is %r %r %r' % (
                prefix, p, w, tag, d.normal_form(para, idx, w)), case)
            return
        k += 1
    acc.count('transitions', k)
    got.sort()
    if got != want:
        acc.violation('iter_known_word_parses(%r): %d entries, expected %d; only listed: %r, only iterated: %r' % (
            prefix, len(got), len(want), W.msub(want, got)[:5], W.msub(got, want)[:5]), case)


def prefixes_of(n):
    """ [(prefix, first index, last index)] in the sorted list of words """
    import bisect
    ws = sorted_words()
    res = []
    i = 0
    while i < len(ws):
        p = ws[i][:n]
        if len(p) < n:
            i += 1
            continue
        j = bisect.bisect_left(ws, p + '\U0010ffff', i)
        res.append((p, i, j))
        i = j
    return res


@W.memo
def sorted_words():
    return sorted(W.words())


def scan(n):
    def fn(acc, i, k):
        m, d = W.morph(), W.refdict()
        ws = sorted_words()
        groups = prefixes_of(n)
        # large groups first, dealt round robin
        order = sorted(groups, key=lambda g: -(g[2] - g[1]))
        for q, (p, a, b) in enumerate(order):
            if q % k != i:
                continue
            acc.case = {'kind': 'prefix', 'word': p}
            acc.tick += 1
            acc.count('states')
            check_prefix(acc, m, d, p, ws[a:b], acc.case)
            if acc.full():
                return
    return fn


def scan_all(acc, i, n):
    """ no prefix: only counted and hashed per word (memory), in one process; other forms of the query in others """
    m, d = W.morph(), W.refdict()
    acc.case = {'kind': 'prefix', 'word': ''}
    if i == 0:
        total = 0
        h = 0
        for p in m.iter_known_word_parses():
            total += 1
            st = p[4][0]
            h += hash((st[1], st[2], st[3]))
            acc.tick += 1
        exp = sum(hash(e) for e in want_entries(d, W.words()))
        acc.count('transitions', total)
        acc.count('states')
        if total != W.entry_count() or h != exp:
            acc.violation('iter_known_word_parses() gives %d entries, the dictionary has %d (or others)' % (
                total, W.entry_count()), acc.case)
    if i == 1:
        # the dictionary's own query and plain results
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            plain = pymorphy2.MorphAnalyzer(result_type=None)
        for prefix in ('сты', 'ё', 'наи', 'яя', 'кот', 'нет такого', 'кот ', 'КОТ', '-', 'по-'):
            acc.case = {'kind': 'plain', 'word': prefix}
            a = [(w, str(t), nf, p, k) for w, t, nf, p, k in m.dictionary.iter_known_words(prefix)]
            b = [(x[0], str(x[1]), x[2], x[4][0][2], x[4][0][3]) for x in plain.iter_known_word_parses(prefix)]
            c = [(x[0], str(x[1]), x[2], x[4][0][2], x[4][0][3]) for x in m.iter_known_word_parses(prefix)]
            ws = [w for w in W.words() if w.startswith(prefix)]
            want = sorted((w, d.paradigms[p][k][1], d.normal_form(p, k, w), p, k) for w, p, k in want_entries(d, ws))
            acc.count('states')
            if not sorted(a) == sorted(b) == sorted(c) == want:
                acc.violation('prefix %r: %d / %d / %d entries, expected %d' % (prefix, len(a), len(b), len(c), len(want)),
                              acc.case)
    if i == 2:
        # two iterations at once, one abandoned
        it1 = m.iter_known_word_parses('кот')
        it2 = m.iter_known_word_parses('кош')
        r1, r2 = [], []
        next(m.iter_known_word_parses('ко'))
        for _ in range(40):
            r1.append(next(it1)[:3])
            m.parse('кошка')
            r2.append(next(it2)[:3])
        acc.count('states')
        if r1 != [p[:3] for p in itertools.islice(m.iter_known_word_parses('кот'), 40)] or \
                r2 != [p[:3] for p in itertools.islice(m.iter_known_word_parses('кош'), 40)]:
            acc.violation('interleaved iterations disturb each other', {'kind': 'interleaved', 'word': ''})


# ---- iterated parses are parses ------------------------------------------------------------------------------

def check_parse(acc, para, idx, w):
    m, d = W.morph(), W.refdict()
    found = None
    for p in m.iter_known_word_parses(w):
        if p[0] == w and p[4][0][2:] == (para, idx):
            found = p
            break
    acc.count('transitions', 4)
    if found is None:
        yield 'the entry is not iterated'
        return
    forms = d.paradigms[para]
    stem = d.stem(para, idx, w)
    want = [(d.form(para, k, stem), forms[k][1], d.form(para, 0, stem)) for k in range(len(forms))]
    got = [(f[0], str(f[1]), f[2]) for f in found.lexeme]
    if got != want:
        yield 'lexeme %r, expected %r' % (got[:5], want[:5])
    n = found.normalized
    if (n[0], str(n[1]), n[2]) != want[0]:
        yield 'normalized %r, expected %r' % (n, want[0])
    if not found.is_known or not n.is_known:
        yield 'is_known is false'
    # inflection into the grammemes of the last form
    gr = found.lexeme[-1].tag.grammemes
    f = found.inflect(gr)
    if f is None or not gr <= f.tag.grammemes or (f[0], str(f[1]), f[2]) not in want:
        yield 'inflect(%s) gives %r' % (sorted(gr), f)
    for p in m.parse(w):
        if p[4][0][2:] == (para, idx) and p[:3] == found[:3]:
            break
    else:
        yield 'parse(%r) does not list the iterated entry' % w


def parse_space(acc, i, n):
    reps = W.reps()
    step = 1 if thorough() else 4
    for para, idx, w in reps[i * step::n * step]:
        acc.case = {'kind': 'entry', 'word': w, 'para': para, 'idx': idx}
        acc.tick += 1
        acc.count('states')
        for b in check_parse(acc, para, idx, w):
            acc.violation('%r (%s, %s): %s' % (w, para, idx, b), acc.case)
        if acc.full():
            return


# ---- membership ----------------------------------------------------------------------------------------------

def variants(w, subst):
    """ the word and its permitted respellings """
    opts = [(ch,) + tuple(subst.get(ch, ())) for ch in w]
    return (''.join(p) for p in itertools.product(*opts))


def known(w, words, subst=None):
    w = w.lower()
    if subst is None:
        return w in words
    return any(v in words for v in variants(w, subst))


def check_known(acc, w, m, words, subst):
    acc.count('transitions', 2)
    a = m.word_is_known(w, strict=True)
    if bool(a) != known(w, words):
        yield 'word_is_known(%r, strict=True) = %r' % (w, a)
    b = m.word_is_known(w)
    if bool(b) != known(w, words, subst):
        yield 'word_is_known(%r) = %r' % (w, b)


RU = {'е': 'ё'}
LETTERS = 'абвгдеёжзийклмнопрстуфхцчшщъыьэюя'


def edits(w):
    for k in range(len(w) + 1):
        yield w[:k] + w[k + 1:]
        for ch in LETTERS + '- ':
            yield w[:k] + ch + w[k:]
            yield w[:k] + ch + w[k + 1:]


FOREIGN = ([chr(c) for c in range(1, 0x30)] + list('09:;=?@AKa[]^_`z{|}~\x7f\x85\xa0\xad\xb4\xb7\xe9\u0130\u0131') +
           list('\u0300\u0301\u0306\u0308\u0340\u0390\u0406\u0456\u0457\u0463\u0483\u0491\u04d7\u1680\u2003\u2009\u200b\u200d\u2010'
                '\u2011\u2013\u2014\u2019\u2028\u202f\u2060\u3000\u30fb\ufeff\uff0d\U0001f600'))


def case_forms(w):
    return [w.upper(), w.capitalize(), w.title(), w.swapcase(), ''.join(
        ch.upper() if k % 2 else ch for k, ch in enumerate(w))]


def members(kind):
    def gen(i, n):
        if kind == 'all':
            for k, w in enumerate(W.words()[i::n]):
                yield w
                if k % 10 == 0:
                    yield w.upper()
                    yield w.capitalize()
                if 'ё' in w:
                    yield w.replace('ё', 'е')
                    yield w.replace('ё', 'е', 1)
                    yield w.upper().replace('Ё', 'Е')
                if 'е' in w and k % 7 == 0:
                    yield w.replace('е', 'ё')
                if k % 13 == 0:
                    yield w + 'ъ'
                    yield w[:-1]
                    yield w[1:]
        elif kind == 'edits':
            ws = W.tag_rep_words()
            ws = ws if thorough() else ws[::6]
            for w in ws[i::n]:
                for e in edits(w):
                    yield e
                for c in case_forms(w):
                    yield c
        elif kind == 'foreign':
            # characters no dictionary word has, at every place of words, in every case
            ws = ['кот', 'ёж', 'сало-то', 'по', 'и', 'мн', 'ежиха', 'в'] + W.tag_rep_words()[::150 if not thorough() else 15]
            for w in ws[i::n]:
                for k in range(len(w) + 1):
                    for ch in FOREIGN:
                        for e in (w[:k] + ch + w[k:], w[:k] + ch + w[k + 1:]):
                            yield e
                            yield e.upper()
                            yield e.capitalize()
        else:
            alpha = LETTERS + '-'
            for r in (0, 1, 2, 3):
                for p in W.share(itertools.product(alpha, repeat=r), i, n):
                    yield ''.join(p)
            for p in W.share(itertools.product('аеёнотрАЕЁ', repeat=5 if thorough() else 4), i, n):
                yield ''.join(p)
            for x in ('', ' ', 'кот ', ' кот', 'кот\n', 'cat', 'кoт', '1', 'ёЁ', 'ТО-ТО', 'é', '\U0001F600', 'кот-', '-кот'):
                yield x

    def fn(acc, i, n):
        m, words = W.morph(), word_set()
        for w in gen(i, n):
            acc.case = {'kind': 'known', 'word': w}
            acc.tick += 1
            acc.count('states')
            if w.count('е') + w.count('Е') > 12:
                continue
            for b in check_known(acc, w, m, words, RU):
                acc.violation(b, acc.case)
            if acc.full():
                return
    return fn


def parse_known(acc, i, n):
    """ Parse.is_known of predicted and dictionary parses """
    import fam
    m, words = W.morph(), word_set()
    items = fam.mixed()[i::n]
    for w in items:
        acc.case = {'kind': 'is_known', 'word': w}
        acc.tick += 1
        acc.count('states')
        for p in m.parse(w):
            acc.count('transitions')
            if bool(p.is_known) != known(p.word, words, RU):
                acc.violation('%r: is_known of %r is %r' % (w, p, p.is_known), acc.case)


# ---- toy dictionaries ------------------------------------------------------------------------------------------

TOYS = {
    'ru': ('ru', [toydict.noun(1, 'ёе', [('', 'sing'), ('ё', 'plur')]), toydict.noun(2, 'её', [('', 'sing'), ('е', 'plur')]),
                  (3, 'PREP', [('е', '')]), (4, 'CONJ', [('ее', '')]), (5, 'NOUN', [('г', ''), ('гґ', '')]),
                  (6, 'NOUN,masc', [('г', ''), ('ґе', '')])]),
    'uk': ('uk', [(1, 'NOUN', [('ґг', 'sing'), ('гґ', 'plur'), ('ґґґ', 'gent')]), (2, 'PREP', [('г', '')]),
                  (3, 'CONJ', [('ё', ''), ('еґ', '')]), (4, 'CONJ', [('г', '')])]),
    'empty': ('ru', []),
    'cmp': ('ru', [(1, 'ADJF,Qual', [('ге', 'sing'), ('поге', 'Cmp2'), ('наиге', 'sing')]), (2, 'ADVB', [('по', '')]),
                   (3, 'NOUN', [('пог', ''), ('пое', 'plur')])]),
}
SUBST = {'auto': None, 'none': {}, 'None': 'None', 'ru': {'е': 'ё'}, 'uk': {'г': 'ґ'}, 'both': {'е': 'ё', 'г': 'ґ'}, 'self': {'е': 'е'},
         'long': {'г': 'е'}}
TALPHA = {'ru': 'её' + 'гґ', 'uk': 'гґеё', 'empty': 'ег', 'cmp': 'погенаи'}


def toy_build(base):
    for name, (lang, lex) in TOYS.items():
        src = os.path.join(base, name + '.xml')
        with open(src, 'w', encoding='utf8') as f:
            f.write(toydict.xml(lex))
        act = {'do': 'compile', 'src': src, 'out': os.path.join(base, name), 'source': 't', 'lang': lang, 'overwrite': False,
               'options': {'paradigm_prefixes': list(refcfg.LANG[lang]['paradigm_prefixes'])}}
        if subprocess.call([FAST, os.path.join(core.VERIF, 'mc', 'savechild.py'), json.dumps(act)],
                           stdout=subprocess.DEVNULL):
            raise core.WorkerError('compilation failed')


def toy_space(acc, i, n, only=None):
    base = os.environ['VERIF_C31']
    j = -1
    for name in sorted(TOYS):
        lang, lex = TOYS[name]
        entries = []
        for lid, bg, forms in lex:
            for f, g in forms:
                entries.append((f, (bg + ' ' + g).strip(), forms[0][0]))
        words = set(e[0] for e in entries)
        for sub in sorted(SUBST):
            kw = {}
            if sub != 'auto':
                kw['char_substitutes'] = None if SUBST[sub] == 'None' else SUBST[sub]
            m = toydict.analyzer(os.path.join(base, name), **kw)
            s = SUBST[sub]
            if sub == 'auto':
                s = {'ru': {'е': 'ё'}, 'uk': {'г': 'ґ'}}[lang]
            if s == 'None':
                s = {}
            alpha = TALPHA[name]
            if name == 'cmp' and not thorough():
                alpha = 'погена'
            for r in range(0, 5):
                for p in itertools.product(alpha, repeat=r):
                    w = ''.join(p)
                    j += 1
                    if only:
                        if only['args'] != [name, sub, w]:
                            continue
                    elif j % n != i:
                        continue
                    case = {'kind': 'toy', 'args': [name, sub, w]}
                    acc.case = case
                    acc.tick += 1
                    acc.count('states')
                    for x in ((w, w.upper(), w.capitalize()) if r < 4 else (w,)):
                        for b in check_known(acc, x, m, words, s):
                            acc.violation('%s/%s: %s' % (name, sub, b), case)
                    got = sorted((q[0], str(q[1]), q[2]) for q in m.iter_known_word_parses(w))
                    want = sorted(e for e in entries if e[0].startswith(w))
                    acc.count('transitions')
                    if got != want:
                        acc.violation('%s/%s: iter_known_word_parses(%r): %r, expected %r' % (name, sub, w, got, want), case)
                    for q in m.iter_known_word_parses(w):
                        lex_of = [f for f in entries if f[2] == q[2]]
                        nf = q.normalized
                        if nf[0] != q[2] or nf[2] != q[2] or not q.is_known or (q[0], str(q[1]), q[2]) not in [
                                (f[0], str(f[1]), f[2]) for f in q.lexeme]:
                            acc.violation('%s/%s: iterated parse %r: normalized %r' % (name, sub, q, nf), case)
                        if not lex_of:
                            acc.violation('%s/%s: normal form of %r' % (name, sub, q), case)
                    if acc.full():
                        return


def spaces(ck):
    return [
        ('scan by 3-letter prefixes', scan(3), 'slow'),
        ('scan by 2-letter prefixes', scan(2), 'slow'),
        ('scan by 1-letter prefixes', scan(1), 'slow'),
        ('scan without prefix', scan_all, 'slow'),
        ('iterated parses', parse_space, 'slow'),
        ('all words', members('all'), 'slow'),
        ('one-letter edits', members('edits'), 'slow'),
        ('other characters', members('foreign'), 'slow'),
        ('short strings', members('short'), 'slow'),
        ('known parses', parse_known, 'slow'),
        ('scan by 3-letter prefixes (compiled)', scan(3), 'fast'),
        ('other characters (compiled)', members('foreign'), 'fast'),
        ('short strings (compiled)', members('short'), 'fast'),
        ('toy', toy_space, 'slow'), ('toy (compiled)', toy_space, 'fast'),
    ] + ([('all words (compiled)', members('all'), 'fast'), ('scan by 1-letter prefixes (compiled)', scan(1), 'fast')] if ck.thorough else [])


def run(ck):
    with toydict.scratch() as d:
        os.environ['VERIF_C31'] = d
        toy_build(d)
        sorted_words()
        W.refdict()
        word_set()
        ck.run_spaces(ID, spaces(ck))


def run_case(ck, case):
    acc = core.Acc()
    w = case.get('word')
    if case['kind'] == 'prefix':
        if w == '':
            scan_all(acc, 0, 8)
        else:
            check_prefix(acc, W.morph(), W.refdict(), w, [x for x in W.words() if x.startswith(w)], case)
    elif case['kind'] in ('plain', 'interleaved'):
        scan_all(acc, 1, 8)
        scan_all(acc, 2, 8)
    elif case['kind'] == 'entry':
        return list(check_parse(acc, case['para'], case['idx'], w))
    elif case['kind'] == 'known':
        return list(check_known(acc, w, W.morph(), word_set(), RU))
    elif case['kind'] == 'is_known':
        m = W.morph()
        return ['is_known of %r' % (p,) for p in m.parse(w) if bool(p.is_known) != known(p.word, word_set(), RU)]
    else:
        with toydict.scratch() as d:
            os.environ['VERIF_C31'] = d
            toy_build(d)
            toy_space(acc, 0, 1, case)
    return [x for x, c in acc.violations]
