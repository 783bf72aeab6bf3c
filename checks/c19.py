# -*- coding: utf-8 -*-
"""
C19: analyzers can be used and created from several threads at once.

Explored (real code, controlled scheduler, see mc/sched.py): for every pair of
operations of the alphabet on one shared analyzer, for operations against the
creation of analyzers, and for concurrent creations, all schedules with one
preemption at any bytecode instruction of the package that may touch shared
state, and for smaller harnesses all schedules with two (three threads: one).
Every schedule runs in a forked copy of the same initial state (first use: no
cache is filled).  Oracle: the results of each thread run alone; afterwards a
fixed list of questions must be answered as before.  Deadlocks are detected
because all locks are cooperative.
"""
import itertools
import os
import subprocess
import sys
import time

from core import shard
import core
import ref as R
import sched
import toydict

ID = 'C19'
LEVEL = 'model_checking'
TECHNIQUE = 'preemption-bounded systematic exploration of thread schedules of the real code (controlled scheduler, bytecode-level switch points)'
assumptions = ['threads switch only at bytecode boundaries (the interpreter lock); calls into C and the standard library are atomic']

# ------------------------------------------------------------------ the world


def lexemes():
    return [
        (1, 'NOUN,anim,masc', [('кот', 'sing,nomn'), ('кота', 'sing,gent'), ('коту', 'sing,datv'), ('котом', 'sing,ablt'),
                               ('коты', 'plur,nomn'), ('котов', 'plur,gent')]),
        (2, 'NOUN,inan,femn', [('сталь', 'sing,nomn'), ('стали', 'sing,gent'), ('стали', 'sing,loct'), ('сталью', 'sing,ablt')]),
        (3, 'VERB,perf,intr', [('стал', 'masc,sing,past,indc'), ('стала', 'femn,sing,past,indc'), ('стали', 'plur,past,indc')]),
        (4, 'ADJF,Qual', [('новый', 'masc,sing,nomn'), ('новая', 'femn,sing,nomn'), ('новому', 'masc,sing,datv'),
                          ('новые', 'plur,nomn')]),
        (5, 'NOUN,anim,masc', [('ёж', 'sing,nomn'), ('ежа', 'sing,gent')]),
        (6, 'NOUN,anim,masc', [('скот', 'sing,nomn'), ('скота', 'sing,gent'), ('скоту', 'sing,datv'), ('скотом', 'sing,ablt'),
                               ('скоты', 'plur,nomn'), ('скотов', 'plur,gent')]),
        (7, 'ADVB', [('еже', '')]),
    ]


VERBGR = [('perf', '', 'сов'), ('intr', '', 'неперех'), ('past', 'TEns', 'прош'), ('TEns', '', 'Время'), ('indc', '', 'изъяв')]


def compile_dicts(tmp):
    rows = list(toydict.GRAMMEMES) + VERBGR
    opts = {'min_paradigm_popularity': 1, 'min_ending_freq': 1}
    a = toydict.compile_spec(tmp, lexemes(), grammemes=rows, options=opts, name='a')
    toydict.add_probs(a, {('стали', 'NOUN,inan,femn sing,gent'): 0.2, ('стали', 'VERB,perf,intr plur,past,indc'): 0.7})
    b = toydict.compile_spec(tmp, lexemes()[::-1] + [(8, 'NOUN,inan,masc', [('дом', 'sing,nomn'), ('дома', 'plur,nomn')])],
                             grammemes=rows, options=opts, name='b')
    return a, b


def plain(ps):
    return [(p[0], str(p[1]), p[2], round(p[3], 9)) for p in ps]


def full(m, w):
    ps = m.parse(w)
    return [plain(ps), sorted(map(str, m.tag(w))), [plain(p.lexeme) for p in ps], [plain([p.normalized]) for p in ps]]


def inflect(m, w, g):
    return [plain([x]) if x else None for x in (p.inflect(set(g)) for p in m.parse(w))]


def facts(t):
    return [str(t), sorted(t.grammemes), sorted(t.grammemes_cyr), t.cyr_repr, str(t.POS), str(t.case), str(t.gender), 'NOUN' in t,
            set(['NOUN']) in t, len(t)]


def latin():
    from pymorphy2 import shapes
    return [shapes.is_latin('aБ'), shapes.is_latin('ab'), shapes.is_roman_number('IX'), shapes.is_punctuation('.,')]


def bad(f):
    try:
        return f()
    except Exception as e:
        return type(e).__name__


class State(object):
    """ a shared analyzer and things obtained from it """

    def __init__(self, a, b, create=True):
        self.a, self.b = a, b
        if create:
            self.m = toydict.analyzer(a)
            self.tag = self.m.dictionary.gramtab[0]


OPS = {
    'parse known': lambda s: plain(s.m.parse('стали')),
    'tag known': lambda s: [str(t) for t in s.m.tag('стали')],
    'other word': lambda s: plain(s.m.parse('кота')),
    'е for ё': lambda s: plain(s.m.parse('еж')),
    'capital': lambda s: plain(s.m.parse('Ё'))[:3],
    'prefix': lambda s: plain(s.m.parse('псевдокота')),
    'prefix 2': lambda s: plain(s.m.parse('суперстали')),
    'predict': lambda s: plain(s.m.parse('ыщотом')),
    'predict 2': lambda s: plain(s.m.parse('шъкоту')),
    'tag predict': lambda s: sorted(str(t) for t in s.m.tag('шъкота')),
    'particle': lambda s: plain(s.m.parse('кота-то')),
    'hyphen': lambda s: plain(s.m.parse('кот-сталь')),
    'latin': lambda s: plain(s.m.parse('ab')),
    'roman': lambda s: plain(s.m.parse('IX')),
    'number': lambda s: plain(s.m.parse('12')),
    'punct': lambda s: plain(s.m.parse('.')),
    'unknown': lambda s: plain(s.m.parse('ъ%')),
    'lexeme': lambda s: plain(s.m.parse('кота')[0].lexeme),
    'normalized': lambda s: plain([p.normalized for p in s.m.parse('стали')]),
    'inflect': lambda s: inflect(s.m, 'новому', ['plur']),
    'inflect rare': lambda s: inflect(s.m, 'кот', ['gen2']),
    'agree': lambda s: plain([s.m.parse('кот')[0].make_agree_with_number(5)]),
    'lex predict': lambda s: [plain(p.lexeme) for p in s.m.parse('ыщотом')][:1],
    'lex prefix': lambda s: [plain(p.lexeme) for p in s.m.parse('псевдокота')][:1],
    'lex hyphen': lambda s: [plain(p.lexeme) for p in s.m.parse('кот-сталь')][:1],
    'known': lambda s: [s.m.word_is_known('ёж'), s.m.word_is_known('еж'), s.m.word_is_known('еж', strict=True), s.m.word_is_known('ё')],
    'iter': lambda s: plain(itertools.islice(s.m.iter_known_word_parses('ко'), 3)),
    'normal forms': lambda s: s.m.normal_forms('стали'),
    'tag facts': lambda s: facts(s.tag),
    'tag str': lambda s: [str(s.tag), hash(s.tag) == hash(s.tag), s.tag == s.tag, s.tag < s.tag],
    'new tag': lambda s: facts(s.m.TagClass('VERB,perf,intr plur,past,indc')),
    'bad tag': lambda s: bad(lambda: s.m.TagClass('NOUN,foo')),
    'bad in': lambda s: bad(lambda: 'foo' in s.tag),
    'update': lambda s: sorted(s.tag.updated_grammemes(set(['plur', 'gent']))),
    'translate': lambda s: [s.m.lat2cyr('NOUN,masc'), s.m.cyr2lat('СУЩ,мр'), s.m.lat2cyr('PNCT')],
    'shapes': lambda s: latin(),
    'pickle tag': lambda s: __import__('pickle').loads(__import__('pickle').dumps(s.tag, 2)) == s.tag,
}


def creates(s, path, w='псевдокоту'):
    m = toydict.analyzer(path)
    return full(m, w) + [plain(m.parse('стали')), plain(m.parse('ab')), inflect(m, 'кота', ['plur'])]


def copies(s):
    import copy
    m = copy.copy(s.m)
    return full(m, 'кота')


CREATE = {
    'create same': lambda s: creates(s, s.a),
    'create other': lambda s: creates(s, s.b, 'дома'),
    'copy': copies,
}
ALLOPS = dict(OPS)
ALLOPS.update(CREATE)
HEAVY = ['lex hyphen', 'lex prefix', 'lex predict', 'prefix 2', 'inflect rare', 'agree', 'capital']
EACH = [o for o in sorted(OPS) if o not in HEAVY]
ALLOPS['everything'] = lambda s: [ALLOPS[o](s) for o in EACH + HEAVY]
ALLOPS['most'] = lambda s: [ALLOPS[o](s) for o in ('tag facts', 'new tag', 'inflect', 'translate', 'update', 'bad in', 'roman', 'prefix')]

def crowd(s):
    """ many questions, enough to fill bounded caches """
    from pymorphy2 import shapes
    import unicodedata
    latin = ''.join(c for c in map(chr, range(0x1f00)) if 'LATIN' in unicodedata.name(c, '') and c.isalpha())
    res = [shapes.is_latin(latin), len(latin) > 300]
    cyr = 'абвгдежзийклмнопрстуфхцчшщъыьэюяё'
    for a in cyr:
        res.append(plain(s.m.parse('кот' + a)))
        res.append(sorted(map(str, s.m.tag(a + 'стали'))))
        res.append(s.m.word_is_known('к' + a))
    for w in ('псевдо' + 'коту', 'супер' + 'кот', 'кот-стали', 'новая-то', '7', 'XX', '!?'):
        res.append(full(s.m, w))
    for g in ('NOUN', 'NOUN,anim', 'VERB', 'ADJF sing', 'ADVB', 'NOUN,inan', 'PREP', 'CONJ', 'NPRO'):
        res.append(facts(s.m.TagClass(g)))
    return res


ALLOPS['crowd'] = crowd
POST = ['parse known', 'other word', 'prefix', 'predict', 'hyphen', 'particle', 'roman', 'latin', 'inflect', 'inflect rare', 'agree',
        'lexeme', 'tag facts', 'update', 'translate', 'known', 'iter', 'е for ё', 'bad tag', 'bad in', 'normal forms']


def harness(*ops, **kw):
    h = dict(ops=list(ops), create=True,    # the shared analyzer exists already
             warm=False,                    # the same questions have been asked before
             bound=1,                       # number of preemptions
             coarse=False,                  # switch points only around writes (else at every instruction touching shared state)
             repeat=None,                   # an instruction in a loop is a switch point only that many times
             first=None)                    # only this thread goes first and is preempted
    h.update(kw)
    return h


def harnesses(tier):
    res = []
    thorough = tier == 'thorough'
    # every operation, interrupted anywhere by all others
    for a in sorted(OPS):
        res.append(harness(a, 'everything', first=0, coarse=not thorough))
        res.append(harness(a, 'everything', first=0, warm=True, coarse=a in HEAVY and not thorough, repeat=None if thorough else 3))
    for a in EACH if thorough else ['tag facts', 'shapes', 'new tag', 'known', 'roman', 'update', 'translate', 'parse known']:
        res.append(harness(a, a))
    # related questions against each other
    for a, b in (('parse known', 'other word'), ('prefix', 'prefix 2'), ('predict', 'predict 2'), ('lexeme', 'lex prefix'),
                 ('lex predict', 'lex prefix'), ('inflect', 'inflect rare'), ('inflect', 'agree'), ('latin', 'roman'),
                 ('known', 'е for ё'), ('hyphen', 'particle'), ('tag known', 'tag predict')):
        res.append(harness(a, b, coarse=not thorough))
        res.append(harness(a, b, warm=True, coarse=not thorough))
    # every operation, interrupted by many others
    for a in EACH if thorough else ['shapes', 'latin', 'parse known', 'tag known', 'prefix', 'predict', 'tag facts', 'new tag', 'lexeme', 'inflect', 'translate', 'known']:
        res.append(harness(a, 'crowd', first=0, warm=True, repeat=None if thorough else 4))
    # creation against use, and against creation
    for c in sorted(CREATE):
        res.append(harness(c, 'most', coarse=not thorough, repeat=None if thorough else 4))
    for c, d in (('create same', 'create same'), ('create same', 'create other')):
        res.append(harness(c, d, create=False, coarse=not thorough, repeat=None if thorough else 4))
    # two preemptions
    for a, b in (('tag facts', 'tag facts'), ('shapes', 'shapes'), ('update', 'update'), ('new tag', 'new tag'), ('translate', 'translate'),
                 ('tag str', 'tag facts'), ('bad in', 'new tag'), ('known', 'known'), ('parse known', 'other word')):
        res.append(harness(a, b, bound=2, coarse=not thorough))
    for a, b in (('lexeme', 'lexeme'), ('inflect', 'inflect'), ('roman', 'latin'), ('parse known', 'parse known')):
        res.append(harness(a, b, bound=2, coarse=True))
    if thorough:
        for a in ('prefix', 'predict', 'hyphen', 'particle', 'inflect', 'agree', 'lexeme', 'unknown'):
            for b in ('prefix', 'predict', 'inflect', 'latin'):
                res.append(harness(a, b, bound=2, coarse=True))
                res.append(harness(a, b, bound=2, coarse=True, warm=True))
        res.append(harness('create same', 'tag facts', bound=2, coarse=True))
        res.append(harness('create same', 'new tag', bound=2, coarse=True))
    # three threads
    for t in (('parse known', 'predict', 'inflect'), ('tag facts', 'tag facts', 'new tag')):
        res.append(harness(*t, coarse=True))
    if thorough:
        res.append(harness('create same', 'create other', 'tag facts', coarse=True))
        for t in itertools.combinations(('prefix', 'predict', 'lexeme', 'inflect', 'roman'), 3):
            res.append(harness(*t, coarse=True))
    return res


# ------------------------------------------------------------------ exploration

def compiled(tmp):
    """ dictionaries are compiled by another interpreter """
    code = ('import sys; sys.path[:0]=%r; import c19; c19.compile_dicts(%r)' % (
        [core.REPO, os.path.join(core.VERIF, 'mc'), os.path.join(core.VERIF, 'checks')], tmp))
    subprocess.check_call(['/opt/venv/bin/python', '-B', '-c', code], stdout=subprocess.DEVNULL)
    return os.path.join(tmp, 'a'), os.path.join(tmp, 'b')


class World(object):
    def __init__(self, tmp):
        self.a, self.b = compiled(tmp)
        sched.install()
        sched.warm_up()
        import pymorphy2  # noqa
        import warnings
        warnings.simplefilter('ignore')
        import gc
        import pymorphy2.units, pymorphy2.shapes, pymorphy2.lang, pymorphy2.opencorpora_dict.wrapper  # noqa
        sched.prepare()
        gc.collect()
        gc.freeze()
        gc.disable()
        self.alone = {}

    def state(self, create):
        return State(self.a, self.b, create)

    def expected(self, name):
        if name not in self.alone:
            import c18
            self.alone[name] = c18.in_child(lambda: ALLOPS[name](self.state(True)))
        return self.alone[name]

    def execute(self, harness, order, switches, want_trace=False):
        """ one schedule in this process -> (problem or None, steps, trace) """
        ops, create, coarse = harness['ops'], harness['create'], harness['coarse']
        s = self.state(create)
        if harness['warm']:
            for o in reversed(ops):
                ALLOPS[o](s)
        run = sched.Run([(lambda o=o: ALLOPS[o](s)) for o in ops], order, switches, coarse, want_trace, harness['repeat'])
        run.go()
        problem = None
        if run.deadlock:
            problem = run.deadlock
        for k, o in enumerate(ops):
            if problem:
                break
            if run.errors[k]:
                problem = '%s raised: %s' % (o, run.errors[k][-700:])
            elif run.results[k] != self.alone[o]:
                problem = '%s returned %r, alone it returns %r' % (o, run.results[k], self.alone[o])
        if not problem:
            if not create:
                s.m = toydict.analyzer(self.a)
                s.tag = s.m.dictionary.gramtab[0]
            for o in POST:
                try:
                    got = ALLOPS[o](s)
                except Exception as e:
                    got = repr(e)
                if got != self.alone[o]:
                    problem = 'afterwards, %s returned %r instead of %r' % (o, got, self.alone[o])
                    break
        return problem, run.step, (''.join(map(str, run.trace)) if want_trace else None)

    def in_fork(self, *a):
        import c18
        return c18.in_child(lambda: self.execute(*a))


def children(trace, switches, n):
    """ schedules with one more preemption """
    last = switches[-1][0] if switches else -1
    for k in range(last + 1, len(trace)):
        for j in range(n):
            if j != int(trace[k]):
                yield switches + [(k, j)]


def explore(acc, world, harness, i, n, only=None):
    ops, bound, coarse = harness['ops'], harness['bound'], harness['coarse']
    for o in ops + POST:
        world.expected(o)
    orders = [list(p) for p in itertools.permutations(range(len(ops)))]
    if len(set(ops)) == 1:
        orders = orders[:1]
    if harness['first'] is not None:
        orders = [o for o in orders if o[0] == harness['first']]
    cnt = 0

    def visit(order, switches, depth):
        need = depth < bound
        acc.tick += 1
        acc.case = {'kind': 'schedule', 'args': [harness, order, switches]}
        problem, steps, trace = world.in_fork(harness, order, switches, need)
        acc.count('states')
        acc.count('traces')
        acc.count('transitions', steps)
        if problem:
            acc.violation('threads %r, order %r, switches %r: %s' % (ops, order, switches, problem), acc.case)
        if need and not acc.full():
            for sw in children(trace, switches, len(ops)):
                if harness['first'] is not None and int(trace[sw[-1][0]]) != harness['first']:
                    continue
                if depth == 0:
                    # the first preemption distributes the work
                    if (hash_k(sw) + cnt) % n != i:
                        continue
                if acc.full():
                    break
                visit(order, sw, depth + 1)

    def hash_k(sw):
        return sw[0][0] * 7 + sw[0][1]
    for order in orders:
        visit(order, [], 0)
        cnt += 1


def schedules(tier):
    def run(acc, i, n):
        with toydict.scratch() as tmp:
            world = World(tmp)
            for h in harnesses(tier):
                t = time.time()
                before = acc.counts.get('states', 0)
                explore(acc, world, h, i, n)
                if os.environ.get('C19_DEBUG') and i == 0:
                    print(h['ops'], [k for k in sorted(h) if h[k] is True], h['bound'], acc.counts.get('states', 0) - before, round(time.time() - t, 2))
                    sys.stdout.flush()
                acc.outcome('+'.join(h['ops']), acc.counts.get('states', 0) - before)
                if acc.full():
                    break
        acc.case = None
    return run


def spaces(ck):
    return [('schedules', schedules(ck.tier), 'cpython')]


def run_case(ck, case):
    """ replays one schedule """
    import json
    if sys.implementation.name != 'cpython':
        code = ('import sys; sys.path[:0]=%r; import main, core, c19, json; print("\\n"+json.dumps(c19.replay(*json.loads(sys.argv[1]))))'
                % ([core.REPO, os.path.join(core.VERIF, 'mc'), os.path.join(core.VERIF, 'checks')],))
        out = subprocess.check_output(['/usr/bin/python3', '-B', '-c', code, json.dumps(case['args'])])
        return json.loads(out.decode('utf8').strip().splitlines()[-1])
    return replay(*case['args'])


def replay(harness, order, switches):
    with toydict.scratch() as tmp:
        world = World(tmp)
        for o in harness['ops'] + POST:
            world.expected(o)
        problem = world.in_fork(harness, order, [tuple(s) for s in switches], False)[0]
        return [problem] if problem else []
