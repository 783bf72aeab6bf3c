# -*- coding: utf-8 -*-
"""
C32: tag spelling variants are merged without changing grammemes.

Explored with the real compiler: for a set of grammemes all its spellings (every
order of the grammemes, every division between lexeme and form), all
combinations of up to 3 spellings with all frequencies 1..3 in every order of
appearance, with ordinary and outdated case names in every place; groups with
different grammeme sets share a dictionary; also spellings which are much rarer than others.  Oracle: mc/compilemodel.py.
"""
import itertools
import json
import os
import subprocess

import core
import compilemodel as M
import toydict

ID = 'C32'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of small dictionary specifications through the real compiler, against a model of the documented result'

LABELS = ['anim', 'inan', 'Infr', 'Erro', 'Name', 'Patr', 'Abbr', 'Qual', 'Apro', 'Fixd', 'Sgtm', 'voct', 'loc2', 'gen2', 'acc2', 'Cmp2']


def spellings(gs):
    """ every way to write the grammemes: (base, form) """
    res = []
    for p in itertools.permutations(gs):
        for k in range(1, len(p) + 1):
            res.append((','.join(p[:k]), ','.join(p[k:])))
    return res


def group_specs(tier):
    """ lists of (base, form, count): the occurrences of one group; X stands for the label of the group """
    s3 = spellings(('NOUN', 'sing', 'X'))
    for a in s3:
        yield [(a, 2)]
    for a, b in itertools.combinations(s3, 2):
        for na, nb in itertools.product((1, 2, 3), repeat=2):
            yield [(a, na), (b, nb)]
    k = 0
    for t in itertools.permutations(s3, 3) if tier == 'thorough' else itertools.combinations(s3, 3):
        for ns in itertools.product((1, 2, 3), repeat=3):
            k += 1
            if tier == 'thorough' or k % 4 == 0:
                yield list(zip(t, ns))
    # outdated names
    for new, old in (('gent', 'gen1'), ('loct', 'loc1'), ('accs', 'acc1')):
        sp = []
        for gs in (('NOUN', new, 'X'), ('NOUN', old, 'X')):
            sp += [s for s in spellings(gs) if tier == 'thorough' or s[0].startswith('NOUN') or s[1] == '']
        for size in (1, 2, 3):
            for t in itertools.combinations(sp, size):
                for ns in itertools.product((1, 2, 3), repeat=size) if size < 3 or tier == 'thorough' else [(1, 2, 3), (3, 1, 1), (2, 2, 1), (1, 3, 2)]:
                    yield list(zip(t, ns))
    # two outdated names at once, and a pair which is nearly the same
    for t in itertools.combinations([('NOUN,X', 'gen1,sing'), ('NOUN,X', 'sing,gen1'), ('NOUN,X', 'gent,sing'), ('NOUN,X', 'gen2,sing'),
                                     ('NOUN,X', 'sing,gen2'), ('NOUN,X', 'plur,gent'), ('NOUN,X', 'sing'), ('NOUN', 'X,sing')], 3):
        for ns in itertools.product((1, 2), repeat=3):
            yield list(zip(t, ns))


def realize(k, occ, arrangement):
    """ the lexemes of one group, words of its own """
    label = LABELS[k % len(LABELS)]
    rows = []
    for (base, form), n in occ:
        rows.append([(base.replace('X', label), form.replace('X', label))] * n)
    if arrangement % 3 == 0:        # one after the other
        seq = [r for rs in rows for r in rs]
    elif arrangement % 3 == 1:      # the last first
        seq = [r for rs in rows[::-1] for r in rs]
    else:                           # interleaved
        seq = [r for t in itertools.zip_longest(*rows) for r in t if r is not None]
    return seq


def suffix(x):
    s = 'абвгдежз'[x % 8]
    while x >= 8:
        x //= 8
        s += 'абвгдежз'[x % 8]
    return s


def build(groups, arrangement):
    lexemes = []
    j = 0
    for k, occ in groups:
        seq = realize(k, occ, arrangement)
        # spellings with the same lexeme part share lexemes in half of the dictionaries
        if arrangement % 2:
            for base, rs in itertools.groupby(seq, key=lambda r: r[0]):
                rs = list(rs)
                lexemes.append((j + 1, base, [('ш%d%s' % (j, suffix(x)), f) for x, (b, f) in enumerate(rs)]))
                j += 1
        else:
            for b, f in seq:
                lexemes.append((j + 1, b, [('ш%d' % j, f)]))
                j += 1
    return lexemes


def check_spec(acc, lexemes):
    acc.count('traces')
    acc.count('transitions', len(lexemes))
    import c22
    with toydict.scratch() as tmp:
        path = toydict.compile_spec(tmp, lexemes, options=dict(min_ending_freq=100, min_paradigm_popularity=100))
        m = c22.load(path)
        raw = M.raw_lexemes([tuple(l) for l in lexemes])
        choices = M.spelling_choices(M.spelling_groups(raw))
        used = {}
        n = 0
        for lid in raw:
            for w, t in raw[lid]:
                n += 1
                ps = m.parse(w)
                acc.count('words')
                if len(ps) != 1:
                    yield 'word %r has %d parses' % (w, len(ps))
                    continue
                got = str(ps[0].tag)
                gs = frozenset(M.split(t))
                if ps[0].tag.grammemes != gs:
                    yield 'word %r with tag %r got %r' % (w, t, got)
                    continue
                mode, cand = choices[gs]
                acc.outcome(mode)
                if mode == 'keep' and got != t:
                    yield 'tag %r became %r, spellings %r' % (t, got, sorted(M.spelling_groups(raw)[gs].items()))
                if got not in cand:
                    yield 'tag %r became %r, expected one of %r; spellings %r' % (t, got, sorted(cand), sorted(M.spelling_groups(raw)[gs].items()))
                key = gs, t.find(' ') if mode == 'any' else None
                if mode != 'keep' and used.setdefault(key, got) != got:
                    yield 'tags with the same grammemes in different order became %r and %r' % (used[key], got)
        words = list(m.dictionary.words.keys())
        if len(words) != n:
            yield '%d words, expected %d' % (len(words), n)
        # gramtab has no unused and no repeated tags
        tags = [str(t) for t in m.dictionary.gramtab]
        if len(set(tags)) != len(tags) or set(tags) != set(str(p.tag) for p in m.iter_known_word_parses()):
            yield 'gramtab %r' % (tags[:10],)


def run_spec(acc, lexemes, states=1):
    acc.tick += 1
    acc.case = {'kind': 'spec', 'args': [lexemes]}
    acc.count('states', states)
    for x in check_spec(acc, lexemes):
        acc.violation(x, acc.case)
    acc.case = None


def groups(tier):
    def run(acc, i, n):
        batch, used, arrangement = [], set(), i
        mine = [g for k, g in enumerate(group_specs(tier)) if k % n == i]
        for k, g in enumerate(mine):
            batch.append((k, g))
            if len(batch) == len(LABELS) or k == len(mine) - 1:
                lex = build(batch, arrangement)
                arrangement += 1
                before = acc.nviol
                run_spec(acc, lex, len(batch))
                if acc.nviol > before:
                    for b in batch:
                        run_spec(acc, build([b], arrangement - 1))
                batch = []
                if acc.full():
                    return
        acc.sample({'group': mine[-1]}, 1)
    return run


def skewed(tier):
    """ spellings of very different frequency, and many equally frequent ones """
    def run(acc, i, n):
        sp = [('NOUN,X', 'sing'), ('NOUN', 'X,sing'), ('NOUN', 'sing,X'), ('X,NOUN', 'sing'), ('NOUN,sing', 'X')]
        jobs = []
        counts = (5, 9, 10, 11, 20, 51, 101, 120, 257) + ((1001, 2000) if tier == 'thorough' else ())
        for a, b in itertools.permutations(sp, 2):
            for c in counts:
                jobs.append([(a, 1), (b, c)])
            jobs += [[(a, c - 1), (b, c)] for c in (5, 10, 16)] + [[(a, 2), (b, 101)]]
        for t in itertools.permutations(sp, 3) if tier == 'thorough' else itertools.combinations(sp, 3):
            for ns in ((1, 30, 200), (200, 1, 30), (30, 200, 1), (1, 1, 60), (20, 21, 19)):
                jobs.append(list(zip(t, ns)))
        for arrangement in (0, 1, 2):
            for k, g in enumerate(jobs):
                if (k + arrangement) % n == i and (tier == 'thorough' or k % 3 == arrangement):
                    run_spec(acc, build([(k, g)], arrangement))
                    if acc.full():
                        return
    return run


def spaces(ck):
    return [('spellings', groups(ck.tier), 'fast'), ('skewed frequencies', skewed(ck.tier), 'fast')]


def run_case(ck, case):
    code = ('import sys; sys.path[:0]=%r; import c32, json, core; print("\\n"+json.dumps(list(c32.check_spec(core.Acc(), *json.loads(sys.argv[1])))))'
            % ([core.REPO, os.path.join(core.VERIF, 'mc'), os.path.join(core.VERIF, 'checks')],))
    out = subprocess.check_output(['/opt/venv/bin/python', '-B', '-c', code, json.dumps(case['args'])], stderr=subprocess.DEVNULL)
    return json.loads(out.decode('utf8').strip().splitlines()[-1])
