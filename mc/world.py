# -*- coding: utf-8 -*-
""" Shared access to the implementation, the reference and the word spaces. """
import itertools
import warnings

import ref as R
import setup_cache

_cache = {}


def memo(fn):
    def wrapper(*a):
        key = (fn.__name__,) + a
        if key not in _cache:
            _cache[key] = fn(*a)
        return _cache[key]
    return wrapper


@memo
def dpath():
    return setup_cache.dict_path()


@memo
def morph():
    import pymorphy2
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return pymorphy2.MorphAnalyzer()


@memo
def refdict():
    return R.Dict(dpath())


@memo
def ref():
    return R.Ref(refdict())


@memo
def words():
    return setup_cache.words()


@memo
def reps():
    return setup_cache.reps()


@memo
def entry_count():
    return setup_cache.entry_count()


@memo
def tag_reps():
    """ one (word, para, idx, tag) per dictionary tag that occurs; words of at least 3 letters preferred """
    d = refdict()
    best = {}
    for para, idx, w in reps():
        tag = d.paradigms[para][idx][1]
        cur = best.get(tag)
        score = (len(w) < 3, '-' in w or not w.isalpha(), len(w), w)
        if cur is None or score < cur[0]:
            best[tag] = (score, w, para, idx)
    return [(w, para, idx, tag) for tag, (s, w, para, idx) in sorted(best.items())]


@memo
def tag_rep_words():
    return sorted(set(w for w, p, i, t in tag_reps()))


@memo
def para_reps():
    """ one (word, para) per paradigm: its first form """
    return [(w, para) for para, idx, w in reps() if idx == 0]


@memo
def small_reps(n):
    """ about n words chosen so that the (POS, length, first suffix char) classes are all hit """
    d = refdict()
    best = {}
    for para, idx, w in reps():
        tag = d.paradigms[para][idx][1]
        key = tuple(g for g in R.split_tag(tag) if g in R.FEATURES)
        s = (len(w) < 3, '-' in w or not w.isalpha(), len(w), w)
        if key not in best or s < best[key]:
            best[key] = s
    res = sorted(set(s[-1] for s in best.values()))
    if len(res) > n:
        step = len(res) / float(n)
        res = [res[int(i * step)] for i in range(n)]
    return res


# ---------------------------------------------------------------- comparison

def plain(parses):
    """ implementation parses -> [(word, tag string, normal form, score)] """
    return [(p[0], str(p[1]), p[2], p[3]) for p in parses]


def diff_parses(got, want, scores=True, ordered=False):
    """ None or a description. got: implementation parses; want: reference parses """
    a = [(p[0], str(p[1]), p[2]) for p in got]
    b = [(p[0], p[1], p[2]) for p in want]
    if ordered:
        if a != b:
            return 'parses differ: got %r expected %r' % (a[:12], b[:12])
    elif sorted(a) != sorted(b):
        return 'parses differ: got only %r expected only %r' % (
            msub(a, b)[:6], msub(b, a)[:6])
    if scores:
        sa = sorted((x, p[3]) for x, p in zip(a, got))
        sb = sorted((x, p[3]) for x, p in zip(b, want))
        for (x, s), (y, t) in zip(sa, sb):
            if not close(s, t):
                return 'score of %r: got %r expected %r' % (x, s, t)
    return None


def close(a, b):
    return abs(a - b) <= 1e-9


def msub(a, b):
    b = list(b)
    res = []
    for x in a:
        if x in b:
            b.remove(x)
        else:
            res.append(x)
    return res


def diff_lexeme(got, want, scores=False):
    a = [(p[0], str(p[1]), p[2]) for p in got]
    b = [(p[0], p[1], p[2]) for p in want]
    if a != b:
        for i, (x, y) in enumerate(itertools.zip_longest(a, b)):
            if x != y:
                return 'lexeme item %d: got %r expected %r (%d/%d items)' % (i, x, y, len(a), len(b))
    return None


def unique(seq):
    seen = set()
    res = []
    for x in seq:
        if x not in seen:
            seen.add(x)
            res.append(x)
    return res


def each(acc, items, kind, fn, step=1):
    """ run fn(acc, item) -> list of mismatches for all items, recording violations """
    for it in items:
        acc.tick += 1
        acc.case = {'kind': kind, 'args': it}
        if acc.full():
            break
        acc.count('states')
        for m in fn(acc, it):
            acc.violation('%s %r: %s' % (kind, it, m), {'kind': kind, 'args': it})
    acc.case = None


def strings(alphabet, maxlen, minlen=0):
    for n in range(minlen, maxlen + 1):
        for t in itertools.product(alphabet, repeat=n):
            yield ''.join(t)


def share(it, i, n):
    """ every n-th item, offset i (keeps memory flat for long generators) """
    return itertools.islice(it, i, None, n)


def check_word(acc, w, m=None, r=None, scores=True):
    """ parse() and tag() of one word against the reference """
    m = m or morph()
    r = r or ref()
    acc.count('transitions', 2)
    acc.count('traces')
    want = r.parse(w)
    got = m.parse(w)
    acc.count('parses_compared', len(want))
    d = diff_parses(got, want, scores=scores)
    if d:
        yield d
    tags = set(str(t) for t in m.tag(w))
    if tags != set(p[1] for p in want):
        yield 'tag(): got %r expected %r' % (sorted(tags)[:8], sorted(set(p[1] for p in want))[:8])


def kind_of(r, w):
    """ coarse label of how the reference analyses the word """
    return '+'.join(sorted(set(p[4][0] for p in r.parse(w))))


def check_lexemes(acc, w, m=None, r=None, kinds=None):
    """ lexeme and normalized of every parse of w against the reference """
    m = m or morph()
    r = r or ref()
    got = m.parse(w)
    want = list(r.parse(w))
    if len(got) != len(want):
        yield 'parses differ: %d, expected %d' % (len(got), len(want))
        return
    for p in got:
        # pair it with a reference parse (same data; several may be equal, then lexemes decide)
        cand = [x for x in want if (x[0], x[1], x[2]) == (p[0], str(p[1]), p[2])]
        if not cand:
            yield 'unexpected parse %r' % (plain([p]),)
            continue
        lex = p.lexeme
        norm = p.normalized
        acc.count('transitions', 2)
        acc.count('forms_compared', len(lex))
        ds = []
        for c in cand:
            d = diff_lexeme(lex, r.lexeme(c))
            if not d:
                n = r.normalized(c)
                if (norm[0], str(norm[1]), norm[2]) != n:
                    d = 'normalized: got %r expected %r' % (plain([norm]), n)
            if not d:
                want.remove(c)
                ds = None
                break
            ds.append(d)
        if ds:
            yield 'parse %r: %s' % (plain([p])[0][:3], ds[0])


def unique_lists(lists):
    seen = set()
    res = []
    for x in lists:
        k = tuple(x)
        if k not in seen:
            seen.add(k)
            res.append(list(x))
    return res
