# -*- coding: utf-8 -*-
"""
C23: prediction data counts productive endings of the compiled dictionary.

Explored with the real compiler: all dictionaries of up to 3 lexemes (with
repetition) out of a set of lexeme templates x stems (several parts of speech,
paradigm prefixes, patterns without stem, short words, shared forms, linked
lexemes), under the product of the three options; larger dictionaries under all
of them; unusual letters, long stems, every part of speech, counts and numbers of
paradigms above 255.  The tables of the compiled files are decoded independently and compared
with tables counted by a direct definition.
"""
import itertools
import json
import os
import subprocess

import core
import compilemodel as M
import ref as R
import toydict

ID = 'C23'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of small dictionary specifications through the real compiler, against a counting model'

TEMPLATES = {
    'noun': lambda s: ('NOUN,inan', [(s, 'sing,nomn'), (s + 'а', 'sing,gent')]),
    'noun2': lambda s: ('NOUN,inan', [(s + 'а', 'sing,nomn'), (s + 'ами', 'plur,ablt')]),
    'adv': lambda s: ('ADVB', [(s + 'а', '')]),
    'comp': lambda s: ('ADJF', [(s + 'ее', ''), ('по' + s + 'ее', 'Cmp2'), ('наи' + s, 'Qual')]),
    'pseudo': lambda s: ('NOUN,anim', [('я', 'sing,nomn'), ('мы', 'plur,nomn')]),
    'verb': lambda s: ('VERB', [(s, 'sing'), (s, 'plur'), (s + 'а', 'sing')]),
    'long': lambda s: ('NOUN,inan', [(s, 'sing,nomn'), (s + 'ностями', 'plur,ablt')]),
    'mixed': lambda s: ('INFN', [(s + 'ть', ''), ('по' + s, 'sing')]),
    'adj': lambda s: ('ADJF', [(s + 'а', 'sing,nomn'), (s + 'у', 'plur,gent')]),
    'adj2': lambda s: ('ADJF,Qual', [(s + 'а', 'plur,nomn'), (s + 'е', '')]),
    'bare': lambda s: ('PREP', [(s, '')]),
}
STEMS = ['к', 'кот', 'мот', 'покот', 'я']
PAIRS = [(t, s) for t in sorted(TEMPLATES) for s in STEMS if not (t == 'pseudo' and s != 'к')]
OPTIONS = [dict(min_ending_freq=f, min_paradigm_popularity=p, max_suffix_length=m)
           for f in (1, 2, 3) for p in (1, 2, 3) for m in (1, 2, 3, 4, 5, 6)]


def lexeme(k, ts):
    base, forms = TEMPLATES[ts[0]](ts[1])
    return (k + 1, base, forms)


def patterns(d, rows):
    """ (para, stem) the compiled dictionary uses for a lexeme """
    cand = None
    for j, (w, t) in enumerate(rows):
        ps = set(p for p, i in d.get(w) if i == j and d.paradigms[p][i][1] == t and len(d.paradigms[p]) == len(rows))
        cand = ps if cand is None else cand & ps
    res = []
    for p in cand:
        stem = d.stem(p, 0, rows[0][0])
        if [(d.form(p, j, stem), d.paradigms[p][j][1]) for j in range(len(rows))] == rows:
            res.append((len(stem), p, stem))
    return sorted(res, reverse=True)


def expected(d, lexemes, options):
    """ {prefix number: {ending: sorted [(count, para, idx)]}} """
    o = dict(min_ending_freq=2, min_paradigm_popularity=3, max_suffix_length=5)
    o.update(options or {})
    pop = {}
    found = []
    for rows in lexemes:
        ps = patterns(d, rows)
        if not ps:
            raise ValueError('no paradigm for %r' % (rows,))
        if len(ps) > 1 and ps[0][0] == ps[1][0]:
            return None     # the pattern of a lexeme is not determined
        p, stem = ps[0][1:]
        pop[p] = pop.get(p, 0) + 1
        found.append((p, stem))
    freq = {}
    cnt = {}
    for p, stem in found:
        if pop[p] < o['min_paradigm_popularity'] or not stem:
            continue
        for idx, (pre, tag, suf) in enumerate(d.paradigms[p]):
            w = pre + stem + suf
            k = d.prefixes.index(pre)
            for n in range(max(1, len(suf)), o['max_suffix_length'] + 1):
                if n > len(w):
                    break
                e = w[len(w) - n:]
                freq[e] = freq.get(e, 0) + 1
                key = (k, e, R.split_tag(tag)[0])
                c = cnt.setdefault(key, {})
                c[p, idx] = c.get((p, idx), 0) + 1
    res = dict((k, {}) for k in range(len(d.prefixes)))
    for (k, e, pos), c in cnt.items():
        if freq[e] < o['min_ending_freq']:
            continue
        top = max(c.values())
        res[k].setdefault(e, []).extend((n, p, i) for (p, i), n in c.items() if n == top)
    return dict((k, dict((e, sorted(v)) for e, v in t.items())) for k, t in res.items())


def check_spec(acc, lexemes, options, links=(), prefixes=None):
    acc.count('traces')
    acc.count('transitions', len(lexemes))
    with toydict.scratch() as tmp:
        path = toydict.compile_spec(tmp, lexemes, links, options=options, prefixes=prefixes)
        d = R.Dict(path)
        rows = []
        for comp, root, parts in M.joined(lexemes, links):
            if root is None:
                continue
            ps = dict(parts)
            rows.append(ps[root] + [r for i, rs in parts if i != root for r in rs])
        want = expected(d, [r for r in rows if r], options)
        if want is None:
            acc.count('skipped_ambiguous')
            return
        if d.max_suffix_length != dict(max_suffix_length=5, **{})['max_suffix_length'] and not options:
            yield 'recorded max_suffix_length %r' % d.max_suffix_length
        if options and d.max_suffix_length != options['max_suffix_length']:
            yield 'recorded max_suffix_length %r' % d.max_suffix_length
        if len(d.pred) != len(want):
            yield '%d tables' % len(d.pred)
        for k in range(len(d.pred)):
            got = {}
            for e, v in d.pred[k].iteritems():
                got.setdefault(e, []).append(tuple(v))
            got = dict((e, sorted(v)) for e, v in got.items())
            acc.count('endings_compared', len(want[k]))
            for e in sorted(set(got) | set(want[k])):
                if got.get(e) != want[k].get(e):
                    yield 'prefix %r, ending %r: (count, paradigm, form) %r expected %r' % (d.prefixes[k], e, got.get(e), want[k].get(e))
                    return


def run_spec(acc, *a):
    acc.tick += 1
    acc.case = {'kind': 'spec', 'args': list(a)}
    acc.count('states')
    for x in check_spec(acc, *a):
        acc.violation(x, acc.case)
    acc.case = None


def small(tier):
    def run(acc, i, n):
        j = 0
        for size in (1, 2, 3):
            for c in itertools.combinations_with_replacement(PAIRS, size):
                if tier == 'thorough':
                    opts = OPTIONS if size < 3 else OPTIONS[j % 6::6]
                else:
                    opts = OPTIONS if size == 1 else OPTIONS[j % 13::13] if size == 2 else OPTIONS[j % 54:j % 54 + 1] if j % 4 == 0 else []
                j += 1
                for o in opts:
                    if hash_of(j) % n == i and not acc.full():
                        run_spec(acc, [lexeme(k, ts) for k, ts in enumerate(c)], o)
    return run


def hash_of(j):
    return j * 7919 // 13


def large(tier):
    """ many lexemes under all options; default options; other paradigm prefixes; linked lexemes """
    def run(acc, i, n):
        al = 'бвгд'
        stems = [a + b for a in al for b in ('', 'о', 'от', 'ото', 'отот', 'по')]
        allx = [lexeme(k, ts) for k, ts in enumerate((t, s) for s in stems for t in sorted(TEMPLATES))]
        half = allx[::2]
        jobs = [(x, o, ln, pre) for x in (allx, half) for o in OPTIONS + [None]
                for ln, pre in (((), None), ((), ['']), ((), ['', 'наи', 'по', 'о']))]
        links = [(a[0], b[0], '1') for a, b in zip(allx[::4], allx[1::4])]
        jobs += [(allx, o, links, None) for o in OPTIONS]
        if tier != 'thorough':
            jobs = jobs[::3]
        for k, (x, o, ln, pre) in enumerate(jobs):
            if k % n == i and not acc.full():
                run_spec(acc, x, o, ln, pre)
    return run


STEMS2 = ['ж' * k for k in (7, 16, 17, 33, 64, 65, 130, 300)] + ['абвгдеёжзийклмнопрстуфхцчшщъыьэюя', 'кот-кот', "об'єкт", 'ґа', 'їжа', 'co2', 'É', '12',
         '-', '.', 'ё', 'ъ', 'ь', 'кот кот', '\u0301', 'и\u0301', '\U0001d518x', 'а:б', 'а-б-в', 'по', 'наи', 'попо', 'понаи', 'поо']
POSES = ['NOUN', 'ADJF', 'ADJS', 'COMP', 'VERB', 'INFN', 'PRTF', 'PRTS', 'GRND', 'NUMR', 'ADVB', 'NPRO', 'PRED', 'PREP', 'CONJ', 'PRCL', 'INTJ', 'Abbr', 'Fixd']


def unusual(tier):
    """ unusual letters, long stems, every part of speech, counts and numbers of paradigms above 255 """
    def run(acc, i, n):
        opts = [dict(min_ending_freq=f, min_paradigm_popularity=p, max_suffix_length=m) for f, p, m in
                ((1, 1, 5), (2, 1, 5), (1, 2, 5), (2, 3, 5), (1, 1, 1), (2, 2, 12), (1, 1, 20))]
        jobs = []
        for o in opts:
            for s in STEMS2:
                for t in ('noun', 'comp', 'long'):
                    jobs.append(([lexeme(0, (t, s)), lexeme(1, (t, s[::-1])), lexeme(2, ('noun', s + 'к')), lexeme(3, ('adv', s))], o))
            jobs.append(([lexeme(k, (t, s)) for k, (s, t) in enumerate((s, t) for s in STEMS2 for t in ('noun', 'comp'))], o))
            words = [a + b + c for a in 'бвгд' for b in 'бвгджз' for c in 'кмнлрс']
            for pos in POSES:
                jobs.append(([(k + 1, pos, [(w + 'а', 'sing'), (w + 'ы', 'plur')]) for k, w in enumerate(words[:7])]
                             + [(50 + k, 'NOUN', [(w + 'а', 'sing')]) for k, w in enumerate(words[:5])], o))
            many = [a + b + c + d for a in 'бвгдж' for b in 'бвгд' for c in 'клмн' for d in 'рстф']
            jobs.append(([(k + 1, 'NOUN', [(w + 'ок', 'sing'), (w + 'ка', 'plur')]) for k, w in enumerate(many)], o))
            jobs.append(([(k + 1, 'NOUN', [('ш' + w, 'sing'), ('ш', 'plur')]) for k, w in enumerate(many)] +
                         [(1000 + k, 'NOUN', [('ц' + w, 'sing'), ('ц', 'plur')]) for k, w in enumerate(many)], o))
        if tier != 'thorough':
            jobs = [x for k, x in enumerate(jobs) if k % 3 == 0 or len(x[0]) > 100]
        for k, (x, o) in enumerate(jobs):
            if k % n == i and not acc.full():
                run_spec(acc, x, o)
    return run


def spaces(ck):
    return [('small dictionaries', small(ck.tier), 'fast'), ('larger dictionaries', large(ck.tier), 'fast'),
            ('unusual words, parts of speech and counts', unusual(ck.tier), 'fast')]


def run_case(ck, case):
    code = ('import sys; sys.path[:0]=%r; import c23, json, core; print("\\n"+json.dumps(list(c23.check_spec(core.Acc(), *json.loads(sys.argv[1])))))'
            % ([core.REPO, os.path.join(core.VERIF, 'mc'), os.path.join(core.VERIF, 'checks')],))
    out = subprocess.check_output(['/opt/venv/bin/python', '-B', '-c', code, json.dumps(case['args'])], stderr=subprocess.DEVNULL)
    return json.loads(out.decode('utf8').strip().splitlines()[-1])
