# -*- coding: utf-8 -*-
"""
C33: results don't depend on the iteration order of sets (string hash seed).

Explored (real code, the order of every set iteration is a choice of the explorer,
see mc/setorder.py): questions about the words of a toy dictionary and of the installed
one, the creation of analyzers, dictionary compilation, estimation of probabilities and
the command line; for every question the sorted order, three uniform orders, and all
executions with one (thorough: two) iteration in any other order - all combinations
where there are few; in whole programs the first iterations of every place in the code.  Oracle: the first execution.  Besides, the same battery of
questions is answered by CPython processes with different hash seeds, and by a PyPy process.
"""
import hashlib
import io
import itertools
import json
import os
import subprocess
import sys

import core
import setorder
import toydict

ID = 'C33'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive exploration of set iteration orders of the real code (controlled set types, bounded deviations) and of hash seeds'
assumptions = ['dictionaries keep insertion order (as in every interpreter available here)']

if sys.implementation.name != 'cpython':
    setorder.fresh()
    sys.path.insert(0, os.path.join(core.VERIF, 'mc', 'stubs'))

VERBGR = [('perf', '', 'сов'), ('intr', '', 'неперех'), ('past', 'TEns', 'прош'), ('TEns', '', 'Время'), ('indc', '', 'изъяв')]


def lexemes():
    return [
        (1, 'NOUN,anim,masc', [('кот', 'sing,nomn'), ('кота', 'sing,gent'), ('кота', 'sing,accs'), ('коту', 'sing,datv'),
                               ('котом', 'sing,ablt'), ('коте', 'sing,loct'), ('коты', 'plur,nomn'), ('котов', 'plur,gent')]),
        (2, 'NOUN,inan,femn', [('сталь', 'sing,nomn'), ('стали', 'sing,gent'), ('стали', 'sing,loct'), ('сталью', 'sing,ablt')]),
        (3, 'VERB,perf,intr', [('стал', 'masc,sing,past,indc'), ('стала', 'femn,sing,past,indc'), ('стали', 'plur,past,indc')]),
        (4, 'ADJF,Qual', [('новый', 'masc,sing,nomn'), ('новая', 'femn,sing,nomn'), ('новому', 'masc,sing,datv'),
                          ('новые', 'plur,nomn'), ('новых', 'plur,gent')]),
        (5, 'NOUN,anim,masc', [('ёж', 'sing,nomn'), ('ежа', 'sing,gent')]),
        (6, 'NOUN,anim,masc', [('скот', 'sing,nomn'), ('скота', 'sing,gent'), ('скоту', 'sing,datv'), ('скоты', 'plur,nomn')]),
        (7, 'NOUN,inan,masc', [('лес', 'sing,nomn'), ('леса', 'sing,gent'), ('лесу', 'sing,gen2'), ('лесу', 'sing,loc2'),
                               ('лесе', 'sing,loct'), ('лесом', 'sing,ablt'), ('леса', 'plur,nomn'), ('лесов', 'plur,gent')]),
        (8, 'NOUN,masc,inan', [('мол', 'nomn,sing'), ('мола', 'sing,gent')]),
        (9, 'NOUN,inan,masc', [('пол', 'sing,nomn'), ('мола', 'gent,sing')]),
        (10, 'ADVB', [('еже', '')]),
        (11, 'NOUN,anim,femn', [('кота', 'sing,nomn'), ('коты', 'sing,gent'), ('коте', 'sing,datv')]),
    ]


ROWS = list(toydict.GRAMMEMES) + VERBGR
OPTS = {'min_paradigm_popularity': 1, 'min_ending_freq': 1}
LINKS = [(1, 6, 3), (3, 4, 2), (8, 9, 1)]


def plain(ps):
    return [(p[0], str(p[1]), p[2], repr(round(p[3], 9)), repr([tuple(m)[1:] for m in p[4]])) for p in ps]


def ask(f):
    try:
        return f()
    except (ValueError, KeyError, TypeError) as e:
        return type(e).__name__


# ----------------------------------------------------------------- questions

def analyses(m, w):
    ps = m.parse(w)
    return [plain(ps), [str(t) for t in m.tag(w)], m.normal_forms(w), [plain(p.lexeme) for p in ps],
            [plain([p.normalized]) for p in ps], m.word_is_known(w), m.word_is_known(w, strict=True)]


def agreement(m, w):
    return [[plain([x]) if x else None for x in (p.make_agree_with_number(n) for n in (1, 2, 5))] for p in m.parse(w)]


def facts(m, w):
    res = []
    for t in m.tag(w):
        res.append([str(t), sorted(t.grammemes), sorted(t.grammemes_cyr), t.cyr_repr, len(t), t.is_productive(), str(t.POS), str(t.case),
                    str(t.gender), str(t.animacy), str(t.number), [sorted(t.numeral_agreement_grammemes(n)) for n in (1, 2, 5)]])
        res.append([m.lat2cyr(str(t)), m.cyr2lat(t.cyr_repr), repr(t)])
    return res


def inflections(grs):
    def q(m, w):
        return [plain([x]) if x else None for x in (ask(lambda: p.inflect(setorder.OrderedChoiceSet(grs)))
                                                    for p in m.parse(w)) if not isinstance(x, str)]
    return q


def updates(grs):
    def q(m, w):
        return [ask(lambda: sorted(t.updated_grammemes(setorder.OrderedChoiceSet(grs)))) for t in m.tag(w)]
    return q


def contains(grs):
    def q(m, w):
        return [[ask(lambda: setorder.OrderedChoiceSet(grs) in t), ask(lambda: grs[0] in t)] for t in m.tag(w)]
    return q


def prefixed(m, w):
    return [plain(itertools.islice(m.iter_known_word_parses(w[:n]), 40)) for n in (1, 2, 3)]


GR = ['sing', 'plur', 'nomn', 'gent', 'datv', 'gen2', 'loc1', 'masc', 'femn', 'NOUN', 'past', 'foo']
SETS = [[g] for g in GR] + [list(c) for c in itertools.combinations(GR, 2)] + [list(c) for c in itertools.combinations(GR[:8], 3)]
TOY_WORDS = ['кота', 'стали', 'новому', 'новых', 'лесу', 'леса', 'еж', 'мола', 'ыщотом', 'псевдокоту', 'кот-лес', 'кота-то',
             'по-новому', 'IX', 'ab', '12', '1.5', '?', 'К', '']
MAIN_WORDS = ['стали', 'рою', 'кошка', 'люди', 'три', 'мне', 'четверо', 'красивее', 'бутявкой', 'псевдокошечка', 'человек-паук',
              'по-западному', 'смотри-ка', 'чего-то', 'Иванов', 'И', 'ещё', 'еще', 'МВД', 'XIX', 'www', '123', '«', 'свеженький', 'новых', 'замок']


def questions():
    yield 'analyses', analyses
    yield 'agreement', agreement
    yield 'facts', facts
    yield 'prefixed', prefixed
    for grs in SETS:
        yield 'inflect %s' % ' '.join(grs), inflections(grs)
        if len(grs) < 3:
            yield 'update %s' % ' '.join(grs), updates(grs)
            yield 'contains %s' % ' '.join(grs), contains(grs)


def compare(acc, case, fn, full, depth, per_site=None):
    if os.environ.get('VERIF_ONLY_CASE', case) != case:
        return
    first = None
    n = 0
    for plan, res, trace in setorder.explore(fn, full, depth, per_site):
        n += 1
        acc.tick += 1
        if first is None:
            first = res
        elif res != first:
            acc.violation('%s: with another set iteration order (%r) the answer is %.300r instead of %.300r'
                          % (case, plan, res, first), {'case': case, 'plan': sorted(plan.items()) if isinstance(plan, dict) else plan})
            break
    acc.count('transitions', n)
    acc.count('states')
    acc.count('traces', n)
    acc.outcome(hashlib.md5(repr(first).encode('utf8')).hexdigest())


def question_space(tier, words, make):
    depth = 1 if tier == 'quick' else 2

    def fn(acc, i, n):
        with toydict.scratch() as tmp:
            m = make(tmp)
            items = [(w, name, q) for w in words for name, q in questions()]
            for w, name, q in items[i::n]:
                acc.case = '%s of %r' % (name, w)
                acc.tick += 1
                compare(acc, acc.case, lambda: q(m, w), 120 if tier == 'quick' else 1000, depth)
    return fn


def toy(tmp):
    path = toydict.compile_spec(tmp, lexemes(), LINKS, grammemes=ROWS, options=OPTS)
    toydict.add_probs(path, {('стали', 'NOUN,inan,femn sing,gent'): 0.2, ('стали', 'VERB,perf,intr plur,past,indc'): 0.7})
    return toydict.analyzer(path)


def main_dict(tmp):
    import pymorphy2
    return pymorphy2.MorphAnalyzer()


# -------------------------------------------------------------- whole programs

def battery(m, words):
    res = []
    for w in words:
        res += [analyses(m, w), agreement(m, w), facts(m, w), prefixed(m, w)]
        for grs in SETS:
            if len(grs) < (2 if len(w) > 1 else 1):
                res += [inflections(grs)(m, w), updates(grs)(m, w)]
    return res


def dump(d):
    """ everything a compiled dictionary in memory says """
    names = list(d._fields)
    res = [names]
    for name in names:
        v = getattr(d, name)
        res.append([name, show(v)])
    return res


def show(v):
    if isinstance(v, dict):
        return sorted((repr(k), show(x)) for k, x in v.items())
    if isinstance(v, (set, frozenset)):
        return sorted(map(repr, v))
    if isinstance(v, (list, tuple)):
        return [show(x) for x in v]
    if hasattr(v, 'tolist'):
        return v.tolist()
    if hasattr(v, 'iteritems'):
        return sorted(map(repr, v.iteritems()))
    return repr(v)


def files(path):
    res = []
    for fn in sorted(os.listdir(path)):
        with open(os.path.join(path, fn), 'rb') as f:
            data = f.read()
        if fn == 'meta.json':
            meta = [x for x in json.loads(data.decode('utf8'), object_pairs_hook=list)
                    if 'at' not in x[0] and 'time' not in x[0] and 'path' not in x[0]]
            data = json.dumps(meta).encode('utf8')
        res.append((fn, hashlib.md5(data).hexdigest()))
    return res


SPECS = [(), (0, 1, 2), (7, 8), (0, 10), (3, 6)]
COMPILE_OPTS = [OPTS, {}, {'min_paradigm_popularity': 2, 'min_ending_freq': 2, 'max_suffix_length': 2}]


def compiles(tmp, pick, links, opts):
    lex = lexemes()
    lex = [lex[k] for k in pick] if pick else lex
    links = [l for l in links if all(x in [e[0] for e in lex] for x in l[:2])]

    def fn():
        out = toydict.compile_spec(tmp, lex, links, grammemes=ROWS, options=opts, overwrite=True)
        return files(out)
    return fn


def creation(path, words):
    def fn():
        return battery(toydict.analyzer(path), words)
    return fn


def spelled(tmp):
    """ tags spelled in different orders, equally often """
    lex = [(1, 'NOUN,anim,masc', [('кот', 'sing,nomn')]), (2, 'NOUN,masc,anim', [('лес', 'nomn,sing')]),
           (3, 'NOUN,anim', [('бор', 'masc,sing,nomn')]), (4, 'NOUN', [('мол', 'masc,anim,nomn,sing')]),
           (5, 'NOUN,anim,sing', [('пол', 'masc,nomn')])]

    def fn():
        return files(toydict.compile_spec(tmp, lex, (), grammemes=ROWS, options=OPTS, overwrite=True))
    return fn


CORPUS = [('стали', 'NOUN,inan,femn sing,gent'), ('Стали', 'NOUN,femn,inan gent,sing'), ('стали', 'VERB,perf,intr plur,past,indc'),
          ('кота', 'NOUN,anim,masc sing,gent'), ('КОТА', 'NOUN,anim,femn sing,nomn'), ('кота', 'NOUN,anim,masc sing,accs'),
          ('леса', 'NOUN,inan,masc plur,nomn'), ('леса', 'UNKN'), ('лесу', 'NOUN,inan,masc sing,loc2'), ('мола', 'NOUN,masc,inan gent,sing')]


def probabilities(tmp, min_freq):
    import shutil
    src = toydict.compile_spec(tmp, lexemes(), LINKS, grammemes=ROWS, options=OPTS, name='p')
    corpus = os.path.join(tmp, 'corpus')
    with open(corpus, 'w', encoding='utf8') as f:
        json.dump([[w, [[w.lower(), t]]] for w, t in CORPUS], f)

    def fn():
        from pymorphy2.opencorpora_dict import probability
        dst = os.path.join(tmp, 'q')
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(src, dst)
        probability.add_conditional_tag_probability(corpus, dst, min_freq)
        return files(dst)
    return fn


def cli(args, text):
    def fn():
        from pymorphy2 import cli as c
        old = sys.stdin, sys.stdout
        sys.stdin, sys.stdout = io.StringIO(text), io.StringIO(newline='')
        try:
            c.main(args)
            return sys.stdout.getvalue()
        except SystemExit as e:
            return 'exit %r' % (e,)
        finally:
            sys.stdin, sys.stdout = old
    return fn


TEXT = 'Кота стали по-новому\nежи-то лесу IX 12 abc, мола!\n'


def tokens():
    from pymorphy2 import tokenizers, shapes
    ws = ['кот, пёс (и) ёж-то: 1,5%', 'М. «Ы»', 'a' * 5, '']
    return [tokenizers.simple_word_tokenize(w) for w in ws] + [
        [f(w) for w in ('IX', 'ab', 'аb', '.,', 'Аб', 'аб-Вг', '') for f in (shapes.is_latin, shapes.is_punctuation, shapes.is_roman_number)]
    ] + [shapes.restore_capitalization(a, b) for a in ('кот-пёс', 'ёж') for b in ('Кот-ПЁС', 'ЁЖ', 'ё')]


PROGRAMS = [('cli %s' % ' '.join(a), a) for a in
            (['parse', '-l'], ['parse', '-t'], ['parse', '-l', '-t', '--score'], ['parse', '--thresh', '0.1', '-l'],
             ['parse', '--tokenized', '-t', '--lang', 'ru'])]


def programs(tier):
    full, depth, per_site = (40, 1, 2) if tier == 'quick' else (400, 1, 20)

    def fn(acc, i, n):
        with toydict.scratch() as tmp:
            items = []
            for pick in SPECS:
                for k, o in enumerate(COMPILE_OPTS):
                    items.append(('compile %r options %d' % (pick, k), lambda pick=pick, o=o: compiles(tmp, pick, LINKS, o)))
            items.append(('compile spellings', lambda: spelled(tmp)))
            for k in range(0, len(TOY_WORDS), 2):
                items.append(('create analyzer, %d' % k, lambda k=k: creation(
                    toydict.compile_spec(tmp, lexemes(), LINKS, grammemes=ROWS, options=OPTS, name='c%d' % k), TOY_WORDS[k:k + 2])))
            for mf in (1, 2):
                items.append(('probabilities %d' % mf, lambda mf=mf: probabilities(tmp, mf)))
            for name, a in PROGRAMS:
                items.append((name, lambda a=a: cli(a, TEXT)))
            items.append(('tokens', lambda: tokens))
            for name, make in items[i::n]:
                acc.case = name
                acc.tick += 1
                compare(acc, name, make(), full, depth, per_site)
    return fn


# ------------------------------------------------------------------ hash seeds

SCRIPT = os.path.join(core.VERIF, 'mc', 'seedchild.py')


def seeds(tier):
    n_seeds = 6 if tier == 'quick' else 48

    def answer(seed):
        env = dict(os.environ, PYTHONHASHSEED=str(seed))
        python = '/opt/venv-slow/bin/python' if seed == 1 else '/usr/bin/python3'   # 1: the other interpreter
        p = subprocess.run([python, '-B', SCRIPT, ID], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode != 0:
            return 'exit %d %s' % (p.returncode, p.stderr.decode('utf8', 'replace')[-500:])
        return p.stdout.decode('utf8')

    def fn(acc, i, n):
        todo = list(range(1, n_seeds))[i::n]
        if not todo:
            return
        first = answer(0)
        for s in todo:
            acc.case = 'hash seed %d' % s
            acc.tick += 1
            got = answer(s)
            acc.count('transitions')
            acc.outcome(hashlib.md5(got.encode('utf8')).hexdigest())
            if got != first:
                a, b = first.split('\n'), got.split('\n')
                diff = [(x, y) for x, y in itertools.zip_longest(a, b) if x != y][:1]
                acc.violation('answers of processes with hash seeds 0 and %d (1: PyPy, else CPython) differ: %.400r' % (s, diff), {'seed': s})
    return fn


def spaces(ck):
    return [('toy questions', question_space(ck.tier, TOY_WORDS, toy), 'fast'),
            ('questions', question_space(ck.tier, MAIN_WORDS, main_dict), 'fast'),
            ('programs', programs(ck.tier), 'fast'),
            ('hash seeds', seeds(ck.tier), 'slow')]


def run_case(ck, case):
    res = []
    if 'seed' in case:
        todo = [s for s in spaces(ck) if s[0] == 'hash seeds']
    else:
        todo = [s for s in spaces(ck) if s[0] != 'hash seeds']
        os.environ['VERIF_ONLY_CASE'] = case['case']
    for name, fn, where in todo:
        acc = core.parallel(fn) if where == 'slow' else ck.space_fast(ID, name, where)
        res += [what for what, c in acc.violations]
    return res
