# -*- coding: utf-8 -*-
"""
C24: a saved dictionary loads as saved; an interrupted save never loads.

crash     the real code compiles and saves a small dictionary (or adds
          probabilities) in a process of its own under a system-call log; from the
          log every folder content a kill can leave behind is rebuilt (all prefixes
          of the sequence of changes and, inside every write, all prefixes of its
          data) and loaded with both automaton libraries.
kill      the model is bound to the code: the same run is really killed before
          every one of its changes and must leave the content the log predicts.
fault     every change fails with an I/O error.
retry     after a kill at every point the save is repeated.
saved     all small dictionaries: what was compiled in memory = what both loaders
          give back, and the metadata describes it.
made      dictionaries made directly with numbers of tags, suffixes, paradigms, forms
          and counts at all the edges of the stored ranges, and strange strings.
"""
import hashlib
import itertools
import json
import os
import pickle
import subprocess
import sys

import core
import crash
import toydict
from core import shard

ID = 'C24'
LEVEL = 'fault_enumeration'
TECHNIQUE = 'exhaustive enumeration of crash points and torn writes of recorded saves, bound to the code by real kills'
assumptions = ['a kill preserves completed writes and a prefix of the interrupted one (no reordering by power loss)']

import pymorphy2  # noqa
from pymorphy2.opencorpora_dict import storage  # noqa

FAST = '/opt/venv/bin/python'
PREF = [[''], ['', 'по'], ['', 'по', 'наи']]
N1 = [('', 'sing,nomn'), ('а', 'sing,gent'), ('ы', 'plur,nomn')]
N2 = [('а', 'sing,nomn'), ('у', 'sing,accs')]
A = [toydict.noun(i + 1, st, N1) for i, st in enumerate(['кот', 'дом', 'том', 'рот'])] + [
    (5, 'VERB', [('ест', 'sing'), ('едят', 'plur')]), (6, 'NOUN,anim,masc', [('кот', 'sing,nomn'), ('котa', 'sing,gent')])]
B = [toydict.noun(i + 1, st, N2, 'NOUN,anim,femn') for i, st in enumerate(['лап', 'лис', 'рек', 'кот'])] + [
    (5, 'ADJF,Qual', [('новый', 'sing'), ('новое', 'neut'), ('поновее', 'Cmp2')]), (9, 'PREP', [('на', '')])]
A2 = A + [(7, 'CONJ', [('и', '')])]
SPECS = {'A': (A, PREF[0]), 'B': (B, PREF[2]), 'A2': (A2, PREF[1])}
WORDS = ['кот', 'кота', 'рот', 'лапа', 'ест', 'бот', 'ы', '']
P1 = [['кот', 'NOUN,inan,masc sing,nomn']] * 3 + [['кот', 'NOUN,anim,masc sing,nomn']] * 1 + [
    ['ест', 'VERB sing']]
P2 = [['кот', 'NOUN,anim,masc sing,nomn']] * 5 + [['кот', 'NOUN,inan,masc sing,nomn']]


def corpus(obs):
    return [[w, [[w, t]]] for w, t in obs]


# scenario: (name, actions that prepare the folder, the recorded action)
SCEN = [
    ('fresh', [], ('compile', 'A', False)),
    ('smaller over larger', [('compile', 'B', False)], ('compile', 'A', True)),
    ('larger over smaller', [('compile', 'A', False)], ('compile', 'B', True)),
    ('similar', [('compile', 'A', False)], ('compile', 'A2', True)),
    ('over probabilities', [('compile', 'A', False), ('probs', 'p1', 1)], ('compile', 'B', True)),
    ('over old layout', [('compile', 'B', False), ('old',)], ('compile', 'A2', True)),
    ('not requested', [('compile', 'B', False)], ('compile', 'A', False)),
    ('bad source', [('compile', 'B', False)], ('compile', 'bad', True)),
    ('no source', [('compile', 'A', False)], ('compile', 'none', True)),
    ('probabilities', [('compile', 'A', False)], ('probs', 'p1', 1)),
    ('probabilities again', [('compile', 'A', False), ('probs', 'p1', 1)], ('probs', 'p2', 2)),
    ('few probabilities', [('compile', 'A', False), ('probs', 'p2', 1)], ('probs', 'p1', 5)),
]


def action(a, d, out):
    if a[0] == 'compile':
        return {'do': 'compile', 'src': os.path.join(d, a[1] + '.xml'), 'out': out, 'source': 'src-' + a[1], 'lang': 'ru',
                'overwrite': a[2], 'options': {'paradigm_prefixes': SPECS[a[1]][1] if a[1] in SPECS else ['']}}
    if a[0] == 'probs':
        return {'do': 'probs', 'corpus': os.path.join(d, a[1] + '.json'), 'out': out, 'freq': a[2]}
    return {'do': 'old', 'out': out}


def to_old_layout(out):
    """ the metadata layout in which the prefixes have a file of their own """
    fn = os.path.join(out, 'meta.json')
    with open(fn, encoding='utf8') as f:
        meta = dict(json.load(f))
    opts = meta['compile_options']
    with open(os.path.join(out, 'paradigm-prefixes.json'), 'w', encoding='utf8') as f:
        json.dump(opts.pop('paradigm_prefixes'), f)
    with open(fn, 'w', encoding='utf8') as f:
        json.dump(meta, f)


def env():
    e = dict(os.environ)
    e['PYTHONHASHSEED'] = '0'
    return e


def child(act):
    return [FAST, os.path.join(core.VERIF, 'mc', 'savechild.py'), json.dumps(act)]


def do(a, d, out):
    """ run an action in a process of its own, untraced """
    if a[0] == 'old':
        return to_old_layout(out)
    subprocess.call(child(action(a, d, out)), env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


def sources(d):
    for k, (lex, pref) in SPECS.items():
        with open(os.path.join(d, k + '.xml'), 'w', encoding='utf8') as f:
            f.write(toydict.xml(lex, revision=k))
    with open(os.path.join(d, 'bad.xml'), 'w', encoding='utf8') as f:
        f.write(toydict.xml(A)[:-len('</links></dictionary>') - 30])
    for k, obs in (('p1', P1), ('p2', P2)):
        with open(os.path.join(d, k + '.json'), 'w', encoding='utf8') as f:
            json.dump(corpus(obs), f)


def prepare(d, k):
    """ the folder before the recorded action """
    out = os.path.join(d, 'out%d' % k)
    for a in SCEN[k][1]:
        do(a, d, out)
    return out


def record_all(d):
    sources(d)

    def fn(acc, i, n):
        for k in range(i, len(SCEN), n):
            out = prepare(d, k)
            before = crash.snapshot(out)
            rc, ops = crash.record(child(action(SCEN[k][2], d, out)), env(), out, os.path.join(d, 'log%d' % k))
            after = crash.snapshot(out)
            with open(os.path.join(d, 'scen%d.pickle' % k), 'wb') as f:
                pickle.dump((before, ops, after, rc), f)
            acc.count('recorded')
            acc.count('ops', len(ops))
    core.parallel(fn)


def load_scen(k):
    with open(os.path.join(os.environ['VERIF_C24'], 'scen%d.pickle' % k), 'rb') as f:
        return pickle.load(f)


# ---- what a folder loads as -----------------------------------------------------------------------------

def content(path, when=False, full=True):
    """ everything a loaded dictionary consists of; raises if it can't be loaded """
    m = toydict.analyzer(path)
    d = m.dictionary
    meta = dict(d.meta)
    if not when:
        meta.pop('compiled_at', None)
    res = {
        'meta': repr(sorted(meta.items())).replace('OrderedDict', ''),
        'gramtab': [str(t) for t in d.gramtab],
        'suffixes': list(d.suffixes),
        'paradigms': [list(p) for p in d.paradigms],
        'prefixes': list(d.paradigm_prefixes),
        'words': sorted(d.words.items()),
        'endings': [sorted(x.items()) for x in d.prediction_suffixes_dawgs],
        'lang': m.lang,
    }
    if full:
        res['parses'] = [[(p.word, str(p.tag), p.normal_form, '%.6f' % p.score) for p in m.parse(w)] for w in WORDS]
        res['probs'] = None if m.prob_estimator is None else sorted(
            (w, str(t), m.prob_estimator.p_t_given_w.prob(w, t)) for w in ('кот', 'ест', 'рот') for t in d.gramtab)
    return res


def digest(x):
    return hashlib.md5(repr(sorted(x.items())).encode('utf8', 'replace')).hexdigest()


def loaded(path, when=False):
    """ -> digest or None, note """
    try:
        return digest(content(path, when)), None
    except Exception as e:
        return None, type(e).__name__


def norm(snap):
    """ file contents without the time of compilation """
    if snap is None:
        return None
    res = {}
    for k, v in snap.items():
        if k == 'meta.json' and v is not None:
            i = v.find(b'"compiled_at"')
            if i >= 0:
                j = v.find(b']', i)
                if v[i:].startswith(b'"compiled_at":'):
                    j = v.find(b',', i)
                v = v[:i] + (v[j:] if j >= 0 else b'')
        res[k] = v
    return res


# ---- spaces ---------------------------------------------------------------------------------------------

def judge(acc, dig, allowed, case, note):
    if dig is None:
        acc.outcome('refused: ' + str(note))
    elif dig in allowed:
        acc.outcome('loads as ' + allowed[dig])
    else:
        acc.violation('%s: an interrupted save loads as something else than the old or the new dictionary (%s)'
                      % (case['scenario'], note or ''), case)


def old_and_new(fold, before, after, scen):
    """ {digest: 'old' / 'new'} """
    res = {}
    fold.set(before)
    o = loaded(fold.root, True)
    if o[0]:
        res[o[0]] = 'old'
    fold.set(after)
    a = loaded(fold.root, True)
    if a[0]:
        res.setdefault(a[0], 'new')
    return res, o, a


EXPECT_SAME = ('not requested', 'bad source', 'no source')


def crash_space(acc, i, n, only=None):
    with toydict.scratch() as tmp:
        fold = crash.Folder(os.path.join(tmp, 'd'))
        for k, scen in enumerate(SCEN):
            name = scen[0]
            if only and only['scenario'] != name:
                continue
            before, ops, after, rc = load_scen(k)
            allowed, o, a = old_and_new(fold, before, after, name)
            if i == 0 or only:
                case0 = {'kind': 'crash', 'scenario': name, 'at': 'end'}
                if scen[1] and not o[0]:
                    acc.violation('%s: the dictionary saved first does not load: %s' % (name, o[1]), case0)
                if not a[0]:
                    acc.violation('%s: after the action the dictionary does not load: %s' % (name, a[1]), case0)
                if name in EXPECT_SAME:
                    if before != after:
                        acc.violation('%s: the existing folder was changed' % name, case0)
                elif a[0] == o[0] or rc != 0:
                    acc.violation('%s: the action had no effect (exit code %s)' % (name, rc), case0)
                acc.sample({'scenario': name, 'changes': crash.describe(ops)[:14], 'of': len(ops)}, 3)
                acc.count('changes', len(ops))
            seen = {}
            for j, (at, st) in enumerate(crash.states(before, ops)):
                if only:
                    if only['at'] != at:
                        continue
                elif j % n != i:
                    continue
                case = {'kind': 'crash', 'scenario': name, 'at': at}
                acc.case = case
                acc.tick += 1
                acc.count('states')
                acc.count('transitions')
                if st is not None and 'meta.json' not in st:
                    acc.count('without metadata')
                fold.set(st)
                dig, note = loaded(fold.root, True)
                judge(acc, dig, allowed, case, crash.describe(ops)[at[0] - 1 if not at[1] else at[0]] if ops else note)
                if acc.full():
                    break


def kill_space(acc, i, n, only=None):
    d = os.environ['VERIF_C24']
    with toydict.scratch() as tmp:
        sources(tmp)
        for k, scen in enumerate(SCEN):
            name = scen[0]
            if only and only['scenario'] != name:
                continue
            before, ops, after, rc = load_scen(k)
            # the recording itself: replaying all changes gives the folder that was really left
            if i == 0 and not only:
                st = before
                for st_at, st in crash.states(before, ops, torn=False):
                    pass
                acc.count('traces')
                if st != after:
                    raise core.WorkerError('%s: the log does not explain the folder' % name)
            out = os.path.join(tmp, 'out')
            todo = []
            for j, op in enumerate(ops):
                todo.append((j, op, 'signal=SIGKILL'))
                err = {'write': 'ENOSPC', 'create': 'ENOSPC', 'mkdir': 'ENOSPC'}.get(op[0], 'EACCES')
                todo.append((j, op, 'error=' + err))
                if core_thorough():
                    todo.append((j, op, 'signal=SIGINT'))
                    todo.append((j, op, 'error=EIO'))
            for q, (j, op, what) in enumerate(todo):
                if only:
                    if only['at'] != [j, what]:
                        continue
                elif q % n != i:
                    continue
                case = {'kind': 'kill', 'scenario': name, 'at': [j, what]}
                acc.case = case
                acc.tick += 1
                crash.materialize(before, out)
                # the same calls happen whatever the folder is called
                act = action(scen[2], tmp, out)
                num, call = op[2]
                crash.inject(child(act), env(), os.path.join(tmp, 'log'), call, num, what)
                got = crash.snapshot(out)
                fold = crash.Folder(os.path.join(tmp, 'd'))
                allowed, o, a = old_and_new(fold, before, after, name)
                allowed2 = {}
                for s, tag in ((before, 'old'), (after, 'new')):
                    fold.set(s)
                    x = loaded(fold.root, False)[0]
                    if x:
                        allowed2.setdefault(x, tag)
                dig, note = loaded(out, False)
                judge(acc, dig, allowed2, case, note)
                acc.count('transitions')
                if what == 'signal=SIGKILL':
                    # a kill at the entry of the call: nothing of it happened
                    pre = None
                    for at, st in crash.states(before, ops, torn=False):
                        if at[0] == j:
                            pre = st
                    acc.count('kills')
                    if norm(got) == norm(pre):
                        acc.count('traces')
                    else:
                        acc.count('kills with other content')
                else:
                    acc.count('faults')
                acc.count('states')


def core_thorough():
    return os.environ.get('VERIF_TIER') == 'thorough'


def retry_space(acc, i, n, only=None):
    import savechild
    k = [s[0] for s in SCEN].index('larger over smaller')
    before, ops, after, rc = load_scen(k)
    with toydict.scratch() as tmp:
        sources(tmp)
        out = os.path.join(tmp, 'd')
        ref = os.path.join(tmp, 'ref')
        want = {}
        for name in ('A', 'A2', 'B'):
            crash.materialize(None, ref)
            savechild.act(action(('compile', name, False), tmp, ref))
            want[name] = digest(content(ref))
            crash.materialize(None, ref)
        q = -1
        for at, st in crash.states(before, ops, torn=False):
            for name in ('A', 'A2', 'B'):
                q += 1
                if only:
                    if only['at'] != [at, name]:
                        continue
                elif q % n != i:
                    continue
                case = {'kind': 'retry', 'scenario': SCEN[k][0], 'at': [at, name]}
                acc.case = case
                acc.tick += 1
                crash.materialize(st, out)
                savechild.act(action(('compile', name, True), tmp, out))
                acc.count('states')
                acc.count('transitions')
                dig, note = loaded(out)
                if dig != want[name]:
                    acc.violation('saving again over an interrupted save gives another dictionary (%s)' % note, case)
                # interrupted without the permission to overwrite: nothing changes
                crash.materialize(st, out)
                savechild.act(action(('compile', name, False), tmp, out))
                if crash.snapshot(out) != st:
                    acc.violation('an existing folder was changed without overwrite', case)


# ---- all small dictionaries -------------------------------------------------------------------------------

POOL = [
    toydict.noun(1, 'кот', N1),
    toydict.noun(2, 'дом', N1),
    (3, 'ADJF,Qual', [('новый', 'sing'), ('поновее', 'Cmp2'), ('наиновейший', 'sing')]),
    (4, 'CONJ', [('и', '')]),
    (5, '', [('ничто', '')]),                               # a lexeme without information
    (6, 'NOUN', None),                                      # a deleted lexeme
    (7, 'NOUN,inan', [('кто-то', 'sing'), ('"q\\\u2028\U0001F600"', 'plur'), ('é', 'plur')]),
    (8, 'NOUN,inan', [('а' * 40, 'sing'), ('а' * 39, 'plur')]),
    (9, 'VERB', [('f%d' % i + 'о' * (i % 7), 'sing') for i in range(300)]),     # over 255 forms
]
METAS = [('ru', 'opencorpora.org', '0.92', '1'), ('uk', 'имя «x" \\', '', ''), ('xx', '', '2.0', '65536'),
         ('ru-old', '0', '0', '007')]
OPTS = [{}, {'min_ending_freq': 1, 'min_paradigm_popularity': 1}, {'max_suffix_length': 1, 'min_paradigm_popularity': 1},
        {'min_ending_freq': 0, 'min_paradigm_popularity': 0, 'max_suffix_length': 9, 'extra': 'é"'}]


def small_dicts():
    res = []
    for r in range(0, 4):
        for c in itertools.combinations(range(len(POOL)), r):
            for pf in range(len(PREF)):
                res.append((c, pf, (sum(c) + pf) % len(METAS), (len(c) + pf) % len(OPTS), len(c) % 2))
    for m in range(len(METAS)):
        for o in range(len(OPTS)):
            for link in (0, 1):
                for pf in range(len(PREF)):
                    for c in ((0, 1, 2, 3), (0, 1, 4, 5), ()):
                        res.append((c, pf, m, o, link))
    return res


def many():
    """ more than 255 tags, paradigms and suffixes """
    gr = [('G%03d' % i, '', 'Г%03d' % i) for i in range(400)]
    lex = [(i + 1, 'NOUN,G%03d' % i, [('к' + chr(0x430 + i % 30) + chr(0x430 + i // 30), 'sing'),
                                      ('к' + chr(0x430 + i % 30) + 'ы' * (i % 9) + chr(0x430 + i // 30) * 2, 'plur')])
           for i in range(400)]
    return lex, toydict.GRAMMEMES + gr


def saved_space(acc, i, n, only=None):
    from pymorphy2.opencorpora_dict import parse, preprocess, compile as comp, convert_to_pymorphy2
    base = os.environ['VERIF_C24']
    items = small_dicts() + ['many']
    with toydict.scratch() as tmp:
        for q, it in enumerate(items):
            if only:
                if only['dict'] != json.loads(json.dumps(it)):
                    continue
            elif q % n != i:
                continue
            case = {'kind': 'saved', 'dict': it}
            acc.case = case
            acc.tick += 1
            if it == 'many':
                lex, gr = many()
                pf, meta, opt, link = PREF[1], METAS[0], OPTS[0], 0
            else:
                lex, gr = [POOL[x] for x in it[0]], toydict.GRAMMEMES
                pf, meta, opt, link = PREF[it[1]], METAS[it[2]], OPTS[it[3]], it[4]
            links = [(lex[0][0], lex[1][0], '1'), (lex[1][0], lex[1][0], '1')] if link and len(lex) > 1 else []
            src = os.path.join(tmp, 'x.xml')
            with open(src, 'w', encoding='utf8') as f:
                f.write(toydict.xml(lex, links, gr, version=meta[2], revision=meta[3]))
            out = os.path.join(base, 'saved', 'd%d' % q)
            crash.materialize(None, out)
            opts = dict(opt, paradigm_prefixes=pf)
            convert_to_pymorphy2(src, out, source_name=meta[1], language_code=meta[0], compile_options=opts)
            p = parse.parse_opencorpora_xml(src)
            preprocess.simplify_tags(p)
            preprocess.drop_unsupported_parses(p)
            c = comp.compile_parsed_dict(p, opts)
            want = {
                'gramtab': [str(t) for t in c.gramtab], 'suffixes': list(c.suffixes),
                'paradigms': [list(x) for x in c.paradigms], 'prefixes': list(pf),
                'words': sorted(c.words_dawg.items()),
                'endings': [sorted(x.items()) for x in c.prediction_suffixes_dawgs], 'lang': meta[0],
            }
            alls = dict(min_ending_freq=2, min_paradigm_popularity=3, max_suffix_length=5)
            alls.update(opts)
            wmeta = {
                'language_code': meta[0], 'format_version': storage.CURRENT_FORMAT_VERSION,
                'pymorphy2_version': pymorphy2.__version__, 'source': meta[1], 'source_version': meta[2],
                'source_revision': meta[3], 'source_lexemes_count': len(lex), 'source_links_count': len(links),
                'gramtab_length': len(c.gramtab), 'paradigms_length': len(c.paradigms),
                'suffixes_length': len(c.suffixes), 'words_dawg_length': len(want['words']),
                'compile_options': alls, 'prediction_suffixes_dawg_lengths': [len(x) for x in want['endings']],
            }
            with open(os.path.join(base, 'saved', 'want%d.pickle' % q), 'wb') as f:
                pickle.dump((want, wmeta), f, 2)
            compare_saved(acc, q, case, base)
            acc.count('states')
            acc.outcome('words %d' % min(len(want['words']), 9))
            if acc.full():
                break


def compare_saved(acc, q, case, base):
    out = os.path.join(base, 'saved', 'd%d' % q)
    with open(os.path.join(base, 'saved', 'want%d.pickle' % q), 'rb') as f:
        want, wmeta = pickle.load(f)
    acc.count('transitions')
    try:
        got = content(out, full=False)
        meta = storage.load_meta(os.path.join(out, 'meta.json'))
    except Exception as e:
        return acc.violation('a saved dictionary does not load: %r' % (e,), case)
    for k in want:
        if got[k] != want[k]:
            acc.violation('%s: loaded %s, compiled %s' % (k, repr(got[k])[:300], repr(want[k])[:300]), case)
    m = dict(meta)
    for k in wmeta:
        if k not in m or m[k] != wmeta[k]:
            acc.violation('metadata %s=%r, but the dictionary has %r' % (k, m.get(k), wmeta[k]), case)
    if set(m['gramtab_formats']) < set(['opencorpora-int']) or 'compiled_at' not in m:
        acc.violation('metadata incomplete: %r' % (m,), case)
    with open(os.path.join(out, 'grammemes.json'), encoding='utf8') as f:
        gr = json.load(f)
    exp = [[g[0], g[1], g[2], g[0]] for g in (many()[1] if case['dict'] == 'many' else toydict.GRAMMEMES)]
    if [list(g) for g in gr] != exp:
        acc.violation('saved grammemes differ from the source: %r' % (gr[:5],), case)


# ---- dictionaries made directly, of all sizes --------------------------------------------------------------

STRANGE = ['', ' ', ' мой', 'мой ', ' a b ', '\t', '"', "'", '\\', '\\n', '\n', '\r\n', '{', '[]', 'null', '\u2028', '\u00a0',
           '\ufeff', '\u0301', '\U0001F600', 'ё', 'е\u0308', 'é', '0', '-', '--', '\x7f', '\x85', 'я' * 300, '&amp;', '<b>', '%s', '%(x)s']
EDGES = [0, 1, 2, 3, 126, 127, 128, 129, 254, 255, 256, 257, 32765, 32766, 32767, 32768, 32769, 65534, 65535]
COUNTS = [0, 1, 2, 126, 127, 128, 129, 254, 255, 256, 257, 1023, 1024, 1025, 32766, 32767, 32768, 32769, 65534, 65535]


def synthetic():
    """ -> [(kind, parameters)] """
    res = [('para', k) for k in EDGES[3:]] + [('paras', k) for k in COUNTS] + [('numbers', k) for k in COUNTS]
    res += [('suffix', k) for k in range(len(STRANGE))] + [('suffixes', k) for k in (0, 1, 127, 128, 255, 256, 257, 32768, 65535, 70000)]
    res += [('tags', k) for k in (0, 1, 127, 128, 255, 256, 257, 32768, 65535)]
    res += [('prefixes', k) for k in (0, 1, 2, 3, 9, 10, 11, 12)] + [('word', k) for k in range(len(STRANGE))]
    res += [('lang', k) for k in range(len(STRANGE))] + [('source', k) for k in range(len(STRANGE))]
    return res


def synth(kind, k):
    """ the parts of one dictionary """
    from pymorphy2 import dawg
    import array
    gram = ['NOUN,inan,masc sing,nomn', 'NOUN,inan,masc sing,gent', 'VERB']
    suffixes, prefixes = ['', 'а', 'б' * 9], ['', 'по']
    paras, lang, source = [[0, 1, 0, 1, 0, 0], [2, 2, 1]], 'ru', 'synthetic'
    words = [('кот', (0, 0)), ('кота', (0, 1)), ('покот' + 'б' * 9, (1, 0))]
    ends = [[('а', (2, 0, 1)), ('та', (1, 0, 1))], [('б', (1, 1, 0))]]
    if kind == 'para':
        paras.append([(x * 7) % 65536 for x in range(k)])
    elif kind == 'paras':
        paras = [[x % 3, x % 2, 0] for x in range(k)]
        words, ends = [('w%d' % x, (x, 0)) for x in range(0, k, 1 + k // 300)], [[], [('а', (65535, k - 1 if k else 0, 0))]]
    elif kind == 'numbers':
        paras.append([k, 0, 0, 0, k, k])
        words += [('ч%d' % x, (k, x)) for x in (0, 1, k)] + [('ч', (x, k)) for x in (0, 255, 256, 65535)]
        ends = [[('а', (k, k, 0)), ('а', (1, 0, k)), ('я', (k, k, k))], [('а', (65535, 65535, k))]]
    elif kind == 'suffix':
        suffixes = suffixes + [STRANGE[k], 'q' + STRANGE[k], STRANGE[k] * 2]
    elif kind == 'suffixes':
        suffixes = ['s%d' % x for x in range(k)]
    elif kind == 'tags':
        cases = ['nomn', 'gent', 'datv', 'accs', 'ablt', 'loct', 'masc', 'femn', 'neut', 'sing', 'plur', 'anim', 'inan', 'Fixd', 'Abbr', 'Qual']
        gram = ['NOUN' + (' ' if x % 3 == 0 else ',') + ','.join(g for b, g in enumerate(cases) if (x + 1) >> b & 1) for x in range(k)]
    elif kind == 'prefixes':
        prefixes = ['п%d ' % x if x else '' for x in range(k)]
        ends = [[('а%d' % x, (x, 0, 0))] for x in range(k)]
    elif kind == 'word':
        words += [(w, (0, 1)) for w in (STRANGE[k] + 'к', 'к' + STRANGE[k], 'к' + STRANGE[k] + 'к')]
        ends[0] += [(STRANGE[k] + 'к', (3, 0, 1))]
    elif kind == 'lang':
        lang = STRANGE[k]
    elif kind == 'source':
        source = STRANGE[k]
    return (gram, suffixes, prefixes, [array.array(str('H'), x) for x in paras], sorted(set(words)), [sorted(set(e)) for e in ends],
            lang, source)


def synth_save(kind, k, out):
    """ save the dictionary with the real code; -> what must be loaded """
    from pymorphy2 import dawg
    from pymorphy2.opencorpora_dict import compile as comp, parse
    gram, suffixes, prefixes, paras, words, ends, lang, source = synth(kind, k)
    os.mkdir(out)
    opts = {'paradigm_prefixes': prefixes, 'max_suffix_length': 5}
    c = comp.CompiledDictionary(
        gramtab=tuple(gram), suffixes=suffixes, paradigms=paras, words_dawg=dawg.WordsDawg(words),
        prediction_suffixes_dawgs=[dawg.PredictionSuffixesDAWG(e) for e in ends],
        parsed_dict=parse.ParsedDictionary(lexemes={}, links=[], grammemes=[(g[0], g[1], g[2], g[0]) for g in toydict.GRAMMEMES],
                                           version='1', revision='2'), compile_options=opts)
    storage.save_compiled_dict(c, out, source_name=source, language_code=lang)
    return {'meta': (lang, source, len(gram), len(paras), len(suffixes), len(words), [len(e) for e in ends]), 'gramtab': gram,
            'suffixes': suffixes, 'paradigms': [list(x) for x in paras], 'prefixes': prefixes, 'words': sorted(words),
            'endings': [sorted(e) for e in ends]}


def synth_compare(acc, want, out, case):
    try:
        d = storage.load_dict(out)
    except Exception as e:
        return acc.violation('a saved dictionary does not load: %r' % (e,), case)
    m = d.meta
    got = {'meta': (m['language_code'], m['source'], m['gramtab_length'], m['paradigms_length'], m['suffixes_length'],
                    m['words_dawg_length'], list(m['prediction_suffixes_dawg_lengths'])),
           'gramtab': [str(x) for x in d.gramtab], 'suffixes': list(d.suffixes), 'paradigms': [list(x) for x in d.paradigms],
           'prefixes': list(d.paradigm_prefixes), 'words': sorted((w, tuple(v)) for w, v in d.words.items()),
           'endings': [sorted((w, tuple(v)) for w, v in x.items()) for x in d.prediction_suffixes_dawgs]}
    for k in want:
        if got[k] != want[k]:
            bad = [(a, b) for a, b in itertools.zip_longest(got[k], want[k]) if a != b][:1]
            acc.violation('%s: loaded %s, saved %s' % (k, repr(bad[0][0])[:150], repr(bad[0][1])[:150]), case)
            break


def synth_space(acc, i, n, only=None):
    todo = synthetic()
    with toydict.scratch() as tmp:
        for q, (kind, k) in enumerate(todo):
            if (only['synth'] != [kind, k]) if only else q % n != i:
                continue
            acc.case = case = {'kind': 'synth', 'synth': [kind, k]}
            acc.tick += 1
            acc.count('states')
            acc.count('transitions', 2)
            out = os.path.join(tmp, 'd%d' % q)
            want = synth_save(kind, k, out)
            fn = os.path.join(tmp, 'want.pickle')
            with open(fn, 'wb') as f:
                pickle.dump(want, f, 2)
            synth_compare(acc, want, out, case)
            if not only:
                # kept for the other library
                base = os.path.join(os.environ['VERIF_C24'], 'saved')
                os.rename(out, os.path.join(base, 's%d' % q))
                os.rename(fn, os.path.join(base, 'swant%d' % q))
            acc.outcome(kind)
            if acc.full():
                break


def synth_slow_space(acc, i, n):
    base = os.path.join(os.environ['VERIF_C24'], 'saved')
    for q, (kind, k) in enumerate(synthetic()):
        fn = os.path.join(base, 'swant%d' % q)
        if q % n == i and os.path.exists(fn):
            acc.case = case = {'kind': 'synth', 'synth': [kind, k]}
            acc.tick += 1
            acc.count('states')
            acc.count('transitions')
            with open(fn, 'rb') as f:
                want = pickle.load(f)
            synth_compare(acc, want, os.path.join(base, 's%d' % q), case)
            if acc.full():
                break


def saved_slow_space(acc, i, n):
    base = os.environ['VERIF_C24']
    items = small_dicts() + ['many']
    for q, it in enumerate(items):
        if q % n == i and os.path.exists(os.path.join(base, 'saved', 'want%d.pickle' % q)):
            case = {'kind': 'saved', 'dict': it}
            acc.case = case
            acc.tick += 1
            acc.count('states')
            compare_saved(acc, q, case, base)
            if acc.full():
                break


def spaces(ck):
    return [
        ('saved', saved_space, 'fast'),
        ('saved, loaded by the other library', saved_slow_space, 'slow'),
        ('made directly, all sizes', synth_space, 'fast'),
        ('made directly, loaded by the other library', synth_slow_space, 'slow'),
        ('crash points', crash_space, 'slow'),
        ('crash points loaded by the compiled library', crash_space, 'fast'),
        ('real kills and faults', kill_space, 'slow'),
        ('retry', retry_space, 'fast'),
    ]


def run(ck):
    with toydict.scratch() as d:
        os.environ['VERIF_C24'] = d
        os.mkdir(os.path.join(d, 'saved'))
        record_all(d)
        ck.run_spaces(ID, spaces(ck))
    if ck.acc.counts.get('kills with other content'):
        ck.assumptions = list(assumptions)
        if not ck.acc.nviol and ck.acc.counts['kills with other content'] * 2 > ck.acc.counts['kills']:
            raise core.WorkerError('%d real kills left another content than the log predicts'
                                   % ck.acc.counts['kills with other content'])
    ck.extra['rule'] = ('one evaluation = one folder content left by a kill (every change boundary and every torn length '
                        'of every write), a fault, or one saved dictionary; distinct = folder contents')


def run_case(ck, case):
    acc = core.Acc()
    with toydict.scratch() as d:
        os.environ['VERIF_C24'] = d
        os.mkdir(os.path.join(d, 'saved'))
        if case['kind'] in ('saved', 'retry', 'synth'):
            if not pymorphy2.dawg.EXTENSION_AVAILABLE:
                return ['replay this case with ./run --fast']
        if case['kind'] == 'saved':
            saved_space(acc, 0, 1, case)
        elif case['kind'] == 'synth':
            synth_space(acc, 0, 1, case)
        else:
            record_all(d)
            {'crash': crash_space, 'kill': kill_space, 'retry': retry_space}[case['kind']](acc, 0, 1, case)
    return [w for w, c in acc.violations]
