# -*- coding: utf-8 -*-
"""
C18: answers do not depend on what was asked before, nor on changes to returned objects.

Explored (real code): every sequence of up to 2 operations over an alphabet of
about 110, and up to 3 over about 24, each from a freshly created analyzer (the
state is snapshotted with fork); every ordered pair of about 300 operations and
every ordered triple of about 40 adjacent in one long history (de Bruijn
sequences); a history of all mixed words forwards and backwards; words made of all
characters of one letter case or compatibility class in both orders; questions of
every kind interrupted by an exception at every line they reach, from a fresh
analyzer and one after another, then asked again; the creation of an analyzer
interrupted likewise; all
interleavings of two dictionary iterators with questions; all sequences of up to
3 operations on one tag; all pairs of operations on two tags with the same
grammemes, or nearly.  After each operation the sets
given with it must be unchanged; then they and every returned container are
destroyed in place.  Oracle: the answer given by a fresh
analyzer to that question alone.
"""
import itertools
import os
import pickle
import struct

import core
from core import shard
import fam
import world as W

ID = 'C18'
LEVEL = 'model_checking'
TECHNIQUE = 'explicit enumeration of operation histories on the real analyzer (fork snapshots, de Bruijn sequences)'

# words of every kind, in groups which share keys a cache might use
WORDS = ['кот', 'Кот', 'КОТ', 'котом', 'ещё', 'еще', 'ЕЩЕ', 'все', 'всё', 'стали', 'Сталь', 'а', 'А', 'в', 'В', 'я', 'Я',
         'псевдокот', 'Псевдокот', 'псевдостали', 'суперкот', 'суперпсевдокот', 'кот-то', 'стали-то', 'Кот-то', 'кот-де',
         'по-хорошему', 'по-западному', 'человек-гора', 'людей-гор', 'гора-человек', 'ъщ-гора', 'ъыкот', 'ъыстали',
         'бутявка', 'бутявке', 'бутявкой', 'Бутявка', 'наибутявейший', 'наихудший', 'лучше', 'получше',
         '12', '12,5', '12.5', 'XII', 'xii', 'I', 'i', 'abc', 'Abc', ',', '...', '-', '', ' ', 'ъь', 'ыщ', 'e', 'é', '½',
         'два', 'оба', 'тысяча', 'год', 'человек', 'люди', 'дитя', 'семь', 'большой', 'читавший', 'читая', 'идти', 'шёл',
         'шел', 'новый', 'новой', 'новая', 'дом', 'доме', 'кода', 'коде', 'коду', 'снегу', 'чаю', 'мыла', 'рук']
KINDS = ['parse', 'tag', 'lex', 'infl']
REQ = [{'gent'}, {'plur', 'datv'}, {'femn'}, {'gen2'}, {'loc2'}, {'past', 'plur'}, {'COMP'}, {'sing', 'ablt'}, set()]
BAD = [('bad', 'inflect'), ('bad', 'in'), ('bad', 'tag'), ('bad', 'parse'), ('bad', 'attr'), ('bad', 'update')]


def new_morph():
    import pymorphy2
    return pymorphy2.MorphAnalyzer()


def canon(x):
    if x is None or isinstance(x, (bool, int)):
        return x
    if isinstance(x, float):
        return round(x, 9)
    if isinstance(x, str):
        return str(x)
    if isinstance(x, tuple) and len(x) == 5 and isinstance(x[4], tuple):
        return ('P', x[0], str(x[1]), x[2], round(x[3], 9))
    if isinstance(x, (set, frozenset)):
        return ('S',) + tuple(sorted(map(str, x)))
    if isinstance(x, (list, tuple)):
        return ('L',) + tuple(canon(y) for y in x)
    return str(x)


def spoil(x):
    """ destroy everything mutable in x """
    if isinstance(x, list):
        for y in x:
            spoil(y)
        x.reverse()
        x.append('spoiled')
        del x[:1]
    elif isinstance(x, set):
        x.clear()
        x.add('spoiled')
    elif isinstance(x, dict):
        x.clear()
    elif isinstance(x, tuple) and len(x) != 5:
        for y in x:
            spoil(y)


def tag_facts(t, req=set):
    return [str(t), t.grammemes, t.grammemes_cyr, t.cyr_repr, t.POS, t.case, t.number, t.gender, t.animacy, t.tense,
            t.person, t.mood, t.voice, t.aspect, t.transitivity, t.involvement, len(t), 'NOUN' in t, set(['NOUN']) in t,
            t.numeral_agreement_grammemes(1), t.numeral_agreement_grammemes(2), t.numeral_agreement_grammemes(25),
            t.updated_grammemes(req({'plur'})), t.updated_grammemes(req(set())), t.is_productive(),
            req({'NOUN', 'sing'}) in t, type(t).fix_rare_cases(req({'gen2', 'voct', 'sing'})), type(t).fix_rare_cases(req({'sing'}))]


def ask(m, op):
    """ -> (raw results, arguments) """
    kind, w = op
    args = []

    def req(g):
        g = set(g)
        args.append((g, frozenset(g)))
        return g
    if kind == 'parse':
        r = m.parse(w)
        return [r, [p.is_known for p in r]], args
    if kind == 'tag':
        return [m.tag(w), m.word_is_known(w), m.word_is_known(w, strict=True)], args
    if kind == 'lex':
        ps = m.parse(w)
        return [[p.lexeme for p in ps], [p.normalized for p in ps], m.normal_forms(w)], args
    if kind == 'infl':
        ps = m.parse(w)
        return [[p.inflect(req(g)) for p in ps for g in REQ],
                [p.make_agree_with_number(k) for p in ps for k in (1, 3, 5, 11)]], args
    if kind == 'facts':
        return [tag_facts(t, req) for t in m.tag(w)], args
    if kind == 'iter':
        return [list(itertools.islice(m.iter_known_word_parses(w), 30))], args
    if kind == 'str':
        return [m.lat2cyr(w), m.cyr2lat(w), m.TagClass(w) if w in ('NOUN,inan,masc sing,nomn', 'NOUN') else None], args
    if kind == 'bad':
        f = {'inflect': lambda: m.parse('кот')[0].inflect(req({'foo'})),
             'in': lambda: 'foo' in m.parse('кот')[0].tag,
             'tag': lambda: m.TagClass('NOUN,foo sing'),
             'parse': lambda: m.parse(None),
             'attr': lambda: m.parse('кот')[0].tag.POS == 'foo',
             'update': lambda: m.parse('стали')[0].tag.updated_grammemes(req({'plur', 'foo'}))}[w]
        try:
            return [f()], args
        except Exception as e:
            return [type(e).__name__], args
    raise AssertionError(op)


def answer(m, op, destroy=True):
    raw, args = ask(m, op)
    res = canon(raw)
    changed = [(sorted(old), sorted(g)) for g, old in args if g != old]
    if changed:
        res = ('CHANGED', 'the set %r given with the question became %r' % changed[0])
    if destroy:
        spoil(raw)
        spoil([g for g, old in args])
    return res


def wrong(got, want):
    return got != want or got[:1] == ('CHANGED',)


def others():
    return ([('facts', w) for w in ('кот', 'стали', 'бутявка', 'псевдокот', 'человек-гора', 'А', '12', 'XII', 'ъь', 'кот-то')] +
            [('iter', w) for w in ('кот', 'ко', 'ёж', 'еж', 'ъ', 'псевдо')] +
            [('str', w) for w in ('NOUN,inan,masc sing,nomn', 'СУЩ', 'NOUN', 'foo')] + BAD)


def ops_all():
    return [(k, w) for k in KINDS for w in WORDS] + others()


def ops_mid():
    return [(KINDS[i % 4], w) for i, w in enumerate(WORDS)] + others()


def ops_few():
    return ops_mid()[::3] + ops_small()


def ops_small():
    return [('parse', 'кот'), ('lex', 'Кот'), ('infl', 'стали'), ('tag', 'стали'), ('lex', 'псевдокот'), ('parse', 'псевдостали'),
            ('lex', 'человек-гора'), ('parse', 'людей-гор'), ('parse', 'бутявка'), ('infl', 'бутявке'), ('tag', 'кот-то'),
            ('parse', 'XII'), ('parse', 'xii'), ('tag', 'А'), ('parse', 'а'), ('infl', 'еще'), ('parse', 'ещё'), ('parse', '12'),
            ('facts', 'стали'), ('facts', 'кот'), ('iter', 'кот'), ('bad', 'update'), ('bad', 'inflect'), ('tag', 'ъь')]


def ops_tri():
    return ops_small() + [('infl', 'кот'), ('infl', 'новый'), ('lex', 'новой'), ('tag', 'abc'), ('parse', 'I'), ('tag', 'i'),
                          ('lex', 'мыла'), ('parse', 'все'), ('tag', 'всё'), ('lex', 'ъыстали'), ('infl', 'снегу'),
                          ('infl', 'два'), ('facts', 'бутявка'), ('parse', ','), ('parse', '...'), ('bad', 'in')]


def in_child(fn):
    """ run fn() in a forked process, return its (pickled) result """
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            data = pickle.dumps(fn(), 2)
            while data:
                k = os.write(w, data)
                data = data[k:]
            code = 0
        except BaseException:
            import traceback
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    while 1:
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if st:
        raise AssertionError('child failed: %r' % (st,))
    return pickle.loads(b''.join(chunks))


_fresh = {}


def fresh(m, ops):
    """ answers of a fresh analyzer; m must not have been asked anything yet in this process """
    for op in ops:
        if op not in _fresh:
            _fresh[op] = in_child(lambda: answer(m, op))
    return _fresh


def guarded(m, op):
    try:
        return answer(m, op)
    except Exception as e:
        import traceback
        return 'EXC ' + traceback.format_exc()[-600:]


def diff(got, want, depth=0):
    if got[:1] == ('CHANGED',):
        return got[1]
    if isinstance(got, tuple) and isinstance(want, tuple) and depth < 6:
        for a, b in zip(got, want):
            if a != b:
                return diff(a, b, depth + 1)
    return 'got %s, a fresh analyzer answers %s' % (repr(got)[-500:], repr(want)[:300])


def history(m, ops, want):
    """ run ops; the mismatches of the last one, and of repeating the first """
    for op in ops[:-1]:
        guarded(m, op)
    for op in (ops[-1], ops[0]):
        got = guarded(m, op)
        if wrong(got, want[op]):
            return '%r after %r: %s' % (op, ops, diff(got, want[op]))
    return None


def forked(depth, ops):
    def run(acc, i, n):
        m = new_morph()
        alphabet = ops()
        want = fresh(m, alphabet)
        # all histories with the same first operations share one snapshot
        heads = list(itertools.product(alphabet, repeat=depth - 1))
        for head in W.share(heads, i, n):
            acc.tick += 1
            acc.case = {'kind': 'history', 'args': [list(head)]}
            acc.count('states', len(alphabet))
            acc.count('traces', len(alphabet))
            acc.count('transitions', len(alphabet) * (depth + 1))

            def child():
                for op in head:
                    guarded(m, op)
                res = []
                for last in alphabet:
                    r = in_child(lambda: history(m, [last, head[0]], want)) if depth < 3 else None
                    if depth >= 3:
                        # the snapshot is reused; the histories become longer, never shorter
                        r = history(m, [last, head[0]], want)
                    if r:
                        res.append((last, r))
                return res
            for last, r in in_child(child):
                acc.violation('history %r: %s' % (list(head) + [last], r), {'kind': 'history', 'args': [list(head) + [last]]})
            if acc.full():
                break
        acc.case = None
    return run


def debruijn(k, n):
    a = [0] * k * n
    seq = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return seq + seq[:n - 1]


def windows(order, ops):
    def run(acc, i, n):
        m = new_morph()
        alphabet = ops()
        want = fresh(m, alphabet)
        seq = debruijn(len(alphabet), order)
        part = shard(seq, i, n)
        recent = []
        for x in part:
            op = alphabet[x]
            recent = (recent + [op])[-order - 2:]
            acc.tick += 1
            acc.case = {'kind': 'history', 'args': [recent]}
            acc.count('states')
            acc.count('traces')
            acc.count('transitions')
            got = guarded(m, op)
            if wrong(got, want[op]):
                acc.violation('after %r: %s' % (recent, diff(got, want[op])), {'kind': 'long', 'args': [order, i, n]})
                if acc.full():
                    break
        acc.case = None
    return run


def sweep(acc, i, n):
    """ many words, forwards, backwards and forwards again on one analyzer """
    m = new_morph()
    ws = shard(fam.mixed(), i, n)
    ops = [(KINDS[k % 4], w) for k, w in enumerate(ws)]
    first = {}
    for op in ops + ops[::-1] + ops:
        acc.tick += 1
        acc.case = {'kind': 'history', 'args': [[op]]}
        acc.count('states')
        acc.count('transitions')
        acc.count('traces')
        got = guarded(m, op)
        if wrong(got, first.setdefault(op, got)):
            acc.violation('%r: %s' % (op, diff(got, first[op])), {'kind': 'sweep', 'args': [i, n]})
            if acc.full():
                break
    acc.case = None


def relatives():
    """ all characters of the same letter case or compatibility class, class by class """
    import sys
    import unicodedata
    classes = {}
    for cp in range(0x110000 if sys.maxunicode > 0xffff else 0x10000):
        c = chr(cp)
        if 0xd800 <= cp < 0xe000 or unicodedata.category(c) in ('Cn', 'Co'):
            continue
        key = unicodedata.normalize('NFKD', unicodedata.normalize('NFKD', c).lower().upper().lower())
        key = ''.join(x for x in key if not unicodedata.combining(x)) or key
        classes.setdefault(key, []).append(c)
    return [v for k, v in sorted(classes.items()) if len(v) > 1]


def related_ops(cl):
    import unicodedata
    cl = cl[:60]
    ws = [f.replace('%s', c) for f in ('%s', '%s%s', 'ко%s', 'ъ-%s', '%s.', '1%s') for c in cl] + [cl[0] + cl[-1], cl[-1] + cl[0]]
    ws += sorted(set(unicodedata.normalize(x, c) for c in cl for x in ('NFC', 'NFD', 'NFKC', 'NFKD')) - set(ws))
    return [(kind, w) for w in ws for kind in ('tag', 'parse')]


def related(acc, i, n):
    """ words made of related characters, in one order and in the opposite one, each from a fresh analyzer """
    m = new_morph()
    ops = []
    for cl in W.share(relatives(), i, n):
        ops += related_ops(cl)
    acc.case = {'kind': 'related', 'args': [i, n]}
    acc.tick += 1
    ways = [in_child(lambda: dict((op, guarded(m, op)) for op in seq)) for seq in (ops, ops[::-1])]
    acc.count('states', len(ways[0]))
    acc.count('traces', 2)
    acc.count('transitions', 2 * len(ops))
    for op in ops:
        if wrong(ways[0][op], ways[1][op]):
            acc.violation('%r asked before and after related words: %s' % (op, diff(ways[0][op], ways[1][op]).replace('a fresh analyzer', 'the other')),
                          acc.case)
            if acc.full():
                break
    acc.case = None


class Interrupted(BaseException):
    pass


def traced(fn, at=None):
    """ run fn(); at: (code location, k) - raise Interrupted when this line of the library is reached for the k-th time;
    otherwise return {location: how many times it was reached} """
    import sys
    root = os.path.join(os.path.realpath(core.REPO), 'pymorphy2') + os.sep
    seen = {}
    inside = {}

    def local(frame, event, arg):
        if event == 'line':
            key = (frame.f_code.co_filename[len(root):], frame.f_lineno)
            k = seen[key] = seen.get(key, 0) + 1
            if at is not None and at[0] == key and at[1] == k:
                raise Interrupted()
        return local

    def tracer(frame, event, arg):
        fn = frame.f_code.co_filename
        if fn not in inside:
            inside[fn] = os.path.realpath(fn).startswith(root)
        return local if inside[fn] else None
    sys.settrace(tracer)
    try:
        fn()
    except Interrupted:
        pass
    finally:
        sys.settrace(None)
    return seen


INTERRUPTED = [(k, w) for w in ('стали', 'Еще', 'псевдокот', 'суперпсевдокот', 'кот-то', 'по-хорошему', 'человек-гора', 'людей-гор', 'ъщ-гора', 'ъыкот',
                                'бутявке', 'А', 'XII', '12,5', 'abc', '...', 'ъь', 'гора-12', 'псевдокот-то') for k in ('parse', 'tag')] + [
    ('lex', w) for w in ('стали', 'Еще', 'псевдокот', 'кот-то', 'по-хорошему', 'человек-гора', 'ъщ-гора', 'ъыкот', 'бутявке', 'А', '12,5')] + [
    ('infl', 'кот'), ('infl', 'бутявке'), ('facts', 'стали'), ('facts', 'человек-гора'), ('iter', 'ко'),
    ('str', 'NOUN,inan,masc sing,nomn')] + BAD


def interrupted(tier):
    return lambda acc, i, n: interruptions(acc, i, n, tier)


def interruptions(acc, i, n, tier='quick'):
    """ every question is interrupted at every line it reaches (first, second and last time), then asked again, and another one """
    m = new_morph()
    ops = INTERRUPTED
    step = 1 if tier == 'thorough' else 8
    want = fresh(m, ops)
    every = dict((op, in_child(lambda: traced(lambda: ask(m, op)))) for op in ops[i::n])
    # as the very first question to an analyzer
    for j, op in enumerate(ops[i::n]):
        for key in sorted(every[op])[j % step::step]:
            acc.tick += 1
            acc.count('states')
            acc.count('traces')
            acc.count('transitions', 2)

            def first():
                traced(lambda: ask(m, op), (key, 1))
                return guarded(m, op)
            got = in_child(first)
            if wrong(got, want[op]):
                acc.violation('the first question %r interrupted at %s line %d and asked again: %s' % (op, key[0], key[1], diff(got, want[op])),
                              {'kind': 'interrupted', 'args': [i, n]})
                if acc.full():
                    return
    # many interruptions of one analyzer
    log = []
    for j, op in enumerate(ops):
        if j % n != i:
            continue
        lines = every[op]
        acc.count('lines', len(lines))
        for key, times in sorted(lines.items()):
            for k in sorted(set([1, 2, times] if tier == "thorough" else [1 + (j + key[1]) % 2, times])):
                if k > times:
                    continue
                acc.tick += 1
                acc.case = {'kind': 'interrupted', 'args': [i, n]}
                acc.count('states')
                acc.count('traces')
                acc.count('transitions', 3)
                traced(lambda: ask(m, op), (key, k))
                log.append((op, key, k))
                for q in (op, ops[len(log) % len(ops)]):
                    got = guarded(m, q)
                    if wrong(got, want[q]):
                        acc.violation('after %r was interrupted at %s line %d (%d interruptions before): %r: %s' % (
                            op, key[0], key[1], len(log) - 1, q, diff(got, want[q])), {'kind': 'interrupted', 'args': [i, n]})
                        if acc.full():
                            return
    acc.case = None


def creations(tier):
    """ the creation of an analyzer is interrupted at every line; analyzers created before and after are not affected """
    return lambda acc, i, n: creation(acc, i, n, tier)


def creation(acc, i, n, tier='quick'):
    import threading
    import c21
    import toydict

    def facts(m):
        m = m[0] if isinstance(m, list) else m
        return canon([[m.tag(w), [[p, p.lexeme, p.normalized] + [p.inflect(set(g)) for g in ({'gent'}, {'plur'}, {'sing', 'datv'})
                                                               if g <= m.TagClass.KNOWN_GRAMMEMES] + tag_facts(p.tag, lambda g: set(g) & m.TagClass.KNOWN_GRAMMEMES)
                                  for p in m.parse(w)]] for w in ('кот', 'кита', 'пять', 'китв', 'дом', 'псевдокит', 'кит-то', 'А', '12', 'ъщкита')])
    with toydict.scratch() as tmp:
        c21.compile_dicts(tmp)
        path = dict((x, os.path.join(tmp, x)) for x in 'abcd')
        jobs = []
        for one, two in ((None, 'a'), ('a', 'd'), ('c', 'd'), ('d', 'c'), ('b', 'a')):
            def good():
                m = [toydict.analyzer(path[one])] if one else None
                e1 = facts(m) if one else None
                m2 = toydict.analyzer(path[two])
                return e1, facts(m2)
            want = in_child(good)
            lines = in_child(lambda: ((toydict.analyzer(path[one]) if one else None), traced(lambda: toydict.analyzer(path[two])))[1])
            for key, times in sorted(lines.items()):
                for k in sorted(set([1, times] if tier != 'thorough' else [1, 2, times // 2, times])):
                    if 0 < k <= times:
                        jobs.append((one, two, key, k, want))
        for one, two, key, k, want in jobs[i::n]:
            acc.tick += 1
            acc.case = {'kind': 'creation', 'args': [i, n]}
            acc.count('states')
            acc.count('traces')
            acc.count('transitions', 3)

            def bad():
                m = toydict.analyzer(path[one]) if one else None
                traced(lambda: toydict.analyzer(path[two]), (key, k))
                if one and facts(m) != want[0]:
                    return 'the analyzer created before: ' + diff(facts(m), want[0])
                res = []
                t = threading.Thread(target=lambda: res.append(facts(toydict.analyzer(path[two]))))
                t.daemon = True
                t.start()
                t.join(60)
                if not res:
                    return 'no analyzer can be created any more'
                if res[0] != want[1]:
                    return 'the next analyzer: ' + diff(res[0], want[1])
                if one and facts(m) != want[0]:
                    return 'the analyzer created before, later: ' + diff(facts(m), want[0])
            got = in_child(bad)
            if got:
                acc.violation('dictionary %s, then %s interrupted at %s line %d (time %d): %s' % (one, two, key[0], key[1], k, got), acc.case)
                if acc.full():
                    break
    acc.case = None


def held(acc, i, n):
    """ parses kept while other questions are asked (and their results destroyed) still behave the same """
    m = new_morph()
    ws = WORDS

    def facts(ps):
        return canon([[p, p.is_known, p.lexeme, p.normalized, [p.inflect(set(g)) for g in REQ[:4]],
                       tag_facts(p.tag)] for p in ps])
    want = dict((w, in_child(lambda: facts(m.parse(w)))) for w in W.share(ws, i, n))
    for w in W.share(ws, i, n):
        kept = m.parse(w)
        for v in ws:
            acc.tick += 1
            acc.case = {'kind': 'held', 'args': [w, v]}
            acc.count('states')
            acc.count('traces')
            acc.count('transitions', 5)
            for k in KINDS:
                guarded(m, (k, v))
            got = facts(kept)
            if got != want[w]:
                acc.violation('parses of %r kept over questions about %r: %s' % (w, v, diff(got, want[w])), acc.case)
                if acc.full():
                    return
    acc.case = None


def iterators(acc, i, n):
    """ all interleavings of two iterators over the dictionary, with questions in between """
    m = new_morph()
    pairs = list(itertools.product(('кот', 'ко', 'ёж', 'стали', ''), repeat=2))
    K = 4

    def take(p):
        return canon(list(itertools.islice(m.iter_known_word_parses(p), K)))
    want = dict((p, in_child(lambda: take(p))) for p in ('кот', 'ко', 'ёж', 'стали', ''))
    qs = [('lex', 'кот'), ('parse', 'ёж'), ('iter', 'ко'), ('tag', 'бутявка')]
    for p, q in W.share(pairs, i, n):
        for sel in itertools.combinations(range(2 * K), K):
            acc.tick += 1
            acc.case = {'kind': 'iter', 'args': [p, q, list(sel)]}
            acc.count('states')
            acc.count('traces')
            its = [m.iter_known_word_parses(p), m.iter_known_word_parses(q)]
            out = [[], []]
            for k in range(2 * K):
                s = 0 if k in sel else 1
                for x in itertools.islice(its[s], 1):
                    out[s].append(x)
                guarded(m, qs[k % len(qs)])
                acc.count('transitions', 2)
            for s, pre in enumerate((p, q)):
                if canon(out[s]) != want[pre]:
                    acc.violation('iterator %r: %s' % (pre, diff(canon(out[s]), want[pre])), acc.case)
                    if acc.full():
                        return
    acc.case = None


TAG_OPS = [
    ('str', lambda t, u: str(t)), ('repr', lambda t, u: repr(t)), ('len', lambda t, u: len(t)),
    ('grammemes', lambda t, u: t.grammemes), ('grammemes_cyr', lambda t, u: t.grammemes_cyr), ('cyr', lambda t, u: t.cyr_repr),
    ('in', lambda t, u: 'NOUN' in t), ('in set', lambda t, u: set(['NOUN', 'plur']) in t), ('POS', lambda t, u: t.POS),
    ('case', lambda t, u: t.case), ('number', lambda t, u: t.number), ('hash', lambda t, u: hash(t) == hash(u)),
    ('eq', lambda t, u: t == u), ('lt', lambda t, u: (t < u, t > u, t != u)), ('upd', lambda t, u: t.updated_grammemes(set(['plur']))),
    ('num', lambda t, u: t.numeral_agreement_grammemes(3)), ('prod', lambda t, u: t.is_productive()),
    ('pickle', lambda t, u: str(pickle.loads(pickle.dumps(t, 2)))), ('bad', lambda t, u: attempt(lambda: 'foo' in t)),
    ('bad upd', lambda t, u: attempt(lambda: t.updated_grammemes(set(['foo']))))]


def attempt(f):
    try:
        return f()
    except Exception as e:
        return type(e).__name__


def tags(acc, i, n):
    """ all sequences of up to 3 operations on one tag object (new, and belonging to the dictionary) """
    m = new_morph()
    names = ['NOUN,anim,masc sing,nomn', 'ADJF,Qual plur,gent', 'VERB,perf,tran plur,past,indc', 'PNCT', 'NOUN',
             'PRTF,impf,intr,past,actv femn,sing,loct', 'NUMB,intg']
    cls = m.TagClass
    fs = dict(TAG_OPS)
    own = dict((str(t), t) for w in WORDS for t in m.tag(w))
    for name in names:
        other = cls(name)
        want = dict((k, canon(f(cls(name), other))) for k, f in TAG_OPS)
        seqs = list(itertools.product([k for k, f in TAG_OPS], repeat=3))
        for seq in W.share(seqs, i, n):
            acc.tick += 1
            acc.case = {'kind': 'tagops', 'args': [name, list(seq)]}
            acc.count('states')
            acc.count('traces')
            for t in [cls(name)] + ([own[name]] if name in own else []):
                for k in seq:
                    acc.count('transitions')
                    raw = fs[k](t, other)
                    got = canon(raw)
                    spoil(raw)
                    if got != want[k]:
                        acc.violation('tag %r: %r of %r: %s' % (name, k, seq, diff(got, want[k])), acc.case)
                        if acc.full():
                            return
    acc.case = None


TWINS = ['NOUN,inan,masc sing,nomn', 'NOUN,inan masc,sing,nomn', 'NOUN,inan,masc,sing,nomn', 'NOUN,masc,inan sing,nomn',
         'NOUN,inan,masc nomn,sing', 'NOUN,inan,masc sing,gent', 'NOUN,anim,masc sing,nomn', 'NOUN', 'NOUN sing,nomn',
         'ADJF,Qual plur,gent', 'ADJF plur,gent', 'ADJF,Qual,plur gent']


def twins(acc, i, n):
    """ all pairs of operations on two tags which have the same grammemes, or nearly """
    m = new_morph()
    cls = m.TagClass
    fs = dict(TAG_OPS)

    def do(name, k):
        raw = fs[k](cls(name), cls(name))
        got = canon(raw)
        spoil(raw)
        return got
    todo = [(name, k) for name in TWINS for k, f in TAG_OPS]
    want = dict((x, in_child(lambda: do(*x))) for x in todo)
    for head in W.share(todo, i, n):
        acc.tick += 1
        acc.case = {'kind': 'twins', 'args': []}
        acc.count('states', len(todo))
        acc.count('traces', len(todo))
        acc.count('transitions', 2 * len(todo))

        def child():
            do(*head)
            # the snapshot is reused; the histories become longer, never shorter
            bad = []
            for x in todo:
                got = do(*x)
                if got != want[x]:
                    bad.append((x, diff(got, want[x])))
            return bad
        for x, r in in_child(child):
            acc.violation('tag operation %r after %r: %s' % (x, head, r), acc.case)
        if acc.full():
            return
    acc.case = None


def spaces(ck):
    return [
        ('all pairs from a fresh analyzer', forked(2, ops_mid if ck.thorough else ops_few), 'slow'),
        ('all triples from a fresh analyzer', forked(3, ops_small), 'slow'),
        ('all adjacent pairs in one history', windows(2, ops_all), 'slow'),
        ('all adjacent triples in one history', windows(3, ops_tri), 'slow'),
        ('sweeps over all kinds of words', sweep, 'slow'),
        ('related characters in both orders', related, 'slow'),
        ('interrupted questions', interrupted(ck.tier), 'slow'),
        ('parses kept over other questions', held, 'slow'),
        ('interrupted creations', creations(ck.tier), 'fast'),
        ('interleaved dictionary iterators', iterators, 'slow'),
        ('operations on one tag', tags, 'slow'),
        ('operations on two similar tags', twins, 'slow'),
    ] + ([('all quadruples adjacent in one history', windows(4, ops_small), 'slow')] if ck.thorough else [])


def run_case(ck, case):
    from core import Acc
    a = case['args']
    acc = Acc()
    if case['kind'] == 'history':
        m = new_morph()
        ops = [tuple(o) for o in a[0]]
        want = fresh(m, ops)
        r = history(m, ops, want)
        return [r] if r else []
    fn = {'long': lambda: windows(a[0], {2: ops_all, 3: ops_tri, 4: ops_small}[a[0]])(acc, a[1], a[2]),
          'sweep': lambda: sweep(acc, a[0], a[1]), 'related': lambda: related(acc, a[0], a[1]), 'held': lambda: held(acc, 0, 1), 'creation': lambda: creation(acc, *a), 'interrupted': lambda: interruptions(acc, *(a if len(a) == 2 else [0, 1])), 'iter': lambda: iterators(acc, 0, 1),
          'tagops': lambda: tags(acc, 0, 1), 'twins': lambda: twins(acc, 0, 1)}[case['kind']]
    fn()
    return [w for w, c in acc.violations]
