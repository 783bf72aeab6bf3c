# -*- coding: utf-8 -*-
"""
C22: compiling an XML dictionary preserves every word form.

Explored with the real compiler and loader: all sequences of lexeme links (every
order, direction, self links, repetitions, excluded types, several numberings)
over up to 4 lexemes, with deleted / initials-only / partly dropped lexemes in
every place; all inflection tables of up to 3 forms over small sets of words
(including the paradigm prefixes and words which contain them); all mixtures of
dropped and kept rows; unusual letters; XML encodings with both XML libraries;
dictionaries larger than 256 paradigms, forms, suffixes and tags.
Oracle: mc/compilemodel.py (connected components, roots).
"""
import itertools
import json
import os
import subprocess
import sys
import warnings

import core
from core import shard
import compilemodel as M
import toydict

ID = 'C22'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of small dictionary specifications through the real compiler, against a model of the documented result'


def load(path):
    import pymorphy2
    from pymorphy2 import units
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return pymorphy2.MorphAnalyzer(path, units=[units.DictionaryAnalyzer()], probability_estimator_cls=None, char_substitutes=None)


def observed(m, acc):
    """ problems, {lexeme (rows in order)} """
    lexemes, probs, entries = {}, [], set()
    cache = {}
    for p in m.iter_known_word_parses():
        acc.count('entries')
        meth = p.methods_stack[0]
        lex = [(f.word, str(f.tag)) for f in p.lexeme]
        me = (p.word, str(p.tag))
        entries.add((me, tuple(lex)))
        if me not in lex:
            probs.append('entry %r is not in its lexeme %r' % (me, lex[:6]))
        if p.normal_form != lex[0][0]:
            probs.append('normal form of %r is %r, lexeme begins with %r' % (me, p.normal_form, lex[0]))
        n = p.normalized
        if (n.word, str(n.tag)) != lex[0]:
            probs.append('normalized of %r is %r' % (me, n))
        if me not in cache:
            cache[me] = [[(f.word, str(f.tag)) for f in q.lexeme] for q in m.parse(p.word) if str(q.tag) == me[1]]
        if lex not in cache[me]:
            probs.append('parse of %r does not find the dictionary entry' % (me,))
        lexemes[tuple(lex)] = 1
    for lex in lexemes:
        for row in lex:
            if (row, lex) not in entries:
                probs.append('form %r of lexeme %r is not a dictionary entry' % (row, lex[0]))
    return probs, set(lexemes)


def subsequence(a, b):
    it = iter(b)
    return all(x in it for x in a)


def verify(acc, path, lexemes, links):
    """ the dictionary in path is exactly what the specification says """
    m = load(path)
    probs, got = observed(m, acc)
    for p in probs[:3]:
        yield p
    want = M.joined(lexemes, links)
    left = set(got)
    by_rows, by_row = {}, {}
    for l in got:
        by_rows.setdefault(tuple(sorted(l)), []).append(l)
        for r in set(l):
            by_row.setdefault(r, []).append(l)
    for comp, rt, parts in want:
        rows = [r for i, rs in parts for r in rs]
        if not rows:
            continue
        if rt is not None:
            first = dict(parts)[rt][:1]
            ok = [l for l in by_rows.get(tuple(sorted(rows)), ()) if (not first or l[0] == first[0])
                  and all(subsequence(rs, l) for i, rs in parts)]
            if not ok:
                yield 'lexemes %s joined: no lexeme with the forms %r (beginning with %r); lexemes found: %r' % (
                    sorted(comp), rows[:8], first, sorted(l for l in got if set(l) & set(rows))[:4])
            left -= set(ok)
        else:
            # several heads or a cycle: no form is lost, none is mixed in from elsewhere
            for i, rs in parts:
                ok = [l for l in (by_row.get(rs[0], ()) if rs else ()) if subsequence(rs, l) and set(l) <= set(rows)]
                if rs and not ok:
                    yield 'lexeme %s (linked in a cycle or from several): forms %r are lost' % (i, rs)
                left -= set(ok)
    for l in list(left)[:2]:
        yield 'lexeme %r is not in the XML' % (l[:8],)
    # exact set of words
    words = set(r[0] for comp, rt, parts in want for i, rs in parts for r in rs)
    got_words = set(w for w in m.dictionary.words.keys()) if hasattr(m.dictionary.words, 'keys') else words
    if got_words != words:
        yield 'words: missing %r, extra %r' % (sorted(words - got_words)[:5], sorted(got_words - words)[:5])


def check_spec(acc, lexemes, links, options=None, prefixes=None):
    acc.count('traces')
    acc.count('lexemes', len(lexemes))
    acc.count('transitions', len(lexemes) + len(links))
    with toydict.scratch() as tmp:
        path = toydict.compile_spec(tmp, lexemes, links, options=options, prefixes=prefixes)
        for p in verify(acc, path, lexemes, links):
            yield p


def run_spec(acc, lexemes, links, options=None, prefixes=None, states=1):
    acc.tick += 1
    acc.case = {'kind': 'spec', 'args': [lexemes, links, options, prefixes]}
    acc.count('states', states)
    for d in check_spec(acc, lexemes, links, options, prefixes):
        acc.violation(d, acc.case)
    acc.case = None


# ------------------------------------------------------------------ links

NODE = {
    'full': lambda w: [(w, 'sing,nomn'), (w + 'а', 'sing,gent')],
    'deleted': lambda w: None,
    'init': lambda w: [(w, 'Init,sing,nomn')],
    'partly': lambda w: [(w, 'Init,sing,nomn'), (w + 'у', 'sing,datv'), (w + 'е', 'sing,loc1')],
    'prefixed': lambda w: [(w + 'о', 'sing,nomn'), ('по' + w, 'sing,gent')],
}


def graph_spec(k, n, edges, types, numbering, states):
    """ one graph, with words and ids of its own """
    letters = 'бвгджзклмнпрст'
    w = 'ш' + ''.join(letters[(k // 14 ** e) % 14] for e in range(4)) + 'щ'
    ids = [str(k * 16 + x) for x in numbering[:n]]
    lexemes = [(ids[j], 'NOUN,inan', NODE[states[j]](w + 'фхцч'[j])) for j in range(n)]
    links = [(ids[a], ids[b], t) for (a, b), t in zip(edges, types)]
    return lexemes, links


def graphs(tier):
    deep = tier == 'thorough'
    NUM = [(1, 2, 3, 4), (9, 10, 2, 11), (4, 3, 2, 1)]
    # all sequences of up to 3 (4) links over 3 lexemes, including links to itself
    e3 = [(a, b) for a in range(3) for b in range(3)]
    for length in range(5 if deep else 4):
        for es in itertools.product(e3, repeat=length):
            yield 3, es, '1234', NUM, 'full full full'.split()
    e4 = [(a, b) for a in range(4) for b in range(4) if a != b]
    for length in range(1, 4):
        for es in itertools.product(e4, repeat=length):
            yield 4, es, '3561', NUM, ['full'] * 4
    if deep:
        for es in itertools.product(e4, repeat=4):
            yield 4, es, '3561', NUM[:1], ['full'] * 4
    else:
        # four links: every tree over 4 lexemes in every order, with one more link anywhere
        for es in itertools.permutations(e4, 3):
            if M.is_forest([(a, b, '1') for a, b in es]):
                yield 4, es + (es[0],), '1112', NUM[1:2], ['full'] * 4
    # excluded types in every place
    for length in (1, 2, 3):
        for es in itertools.product([(0, 1), (1, 2), (2, 0), (1, 0)], repeat=length):
            for pos in range(length):
                for x in ('7', '21', '23', '27'):
                    ts = ['11', '2', '17']
                    ts[pos] = x
                    yield 3, es, ts, NUM[:2], ['full'] * 3
    # every type of link, alone and after a link of another type
    for t in [str(x) for x in range(61)] + ['100', '107', '121', '123', '127', '207', '270', '07', '021']:
        yield 2, ((0, 1),), (t,), NUM[:1], ['full'] * 2
        yield 2, ((0, 1), (1, 0)), (t, '7'), NUM[:1], ['full'] * 2
        yield 3, ((0, 1), (1, 2)), ('7', t), NUM[:1], ['full'] * 3
        yield 3, ((0, 1), (1, 2)), (t, '7'), NUM[:1], ['full'] * 3
    # unusual lexemes in every place
    for length in (1, 2):
        for es in itertools.product([(a, b) for a, b in e3 if a != b], repeat=length):
            for st in itertools.product(sorted(NODE), repeat=3):
                if 'full' in st or deep:
                    yield 3, es, '35', NUM[:1], st


BATCH = 40


def link_space(tier):
    def run(acc, i, n):
        batch, k = [], 0
        for num, (size, es, ts, nums, st) in enumerate(graphs(tier)):
            if num % n != i:
                continue
            for nb in (nums if tier == 'thorough' else [nums[(num // n) % len(nums)]]):
                batch.append(graph_spec(k, size, es, ts, nb, st))
                k += 1
                if len(batch) == BATCH:
                    flush(acc, batch)
                    batch, k = [], 0
            if acc.full():
                return
        if batch:
            flush(acc, batch)
        acc.sample({'graph': batch[-1] if batch else None}, 1)
    return run


def flush(acc, batch):
    lexemes = [l for ls, _ in batch for l in ls]
    # interleave the links of all graphs, keeping the order of each
    links = [l for row in itertools.zip_longest(*[ln for _, ln in batch]) for l in row if l is not None]
    before = acc.nviol
    run_spec(acc, lexemes, links, states=len(batch))
    if acc.nviol > before:
        # report the graphs alone
        for ls, ln in batch:
            run_spec(acc, ls, ln)


# ------------------------------------------------------------------ inflection tables

TAGS = ['sing,nomn', 'sing,gent', 'plur,nomn']


def tables(tier):
    ab = [''.join(t) for k in (1, 2, 3) for t in itertools.product('аб', repeat=k)]
    pre = ['а', 'б', 'аб', 'по', 'поа', 'поб', 'поаб', 'наиа', 'наи', 'пона', 'ппо', 'оп', 'наипоа']
    for k in (1, 2, 3):
        for t in itertools.product(ab, repeat=k):
            yield t
        for t in itertools.product(pre, repeat=k):
            yield t
    if tier == 'thorough':
        for t in itertools.product(pre + ['б' * 3, 'бпоа'], repeat=4):
            yield t


def table_space(tier):
    def run(acc, i, n):
        prefs = [None, [''], ['', 'а'], ['', 'наи', 'по', 'аб'], ['', 'п', 'по']]
        for j, opt in enumerate(prefs):
            for size in ((37, 400) if j == 0 else (200,)):
                batch = []
                for num, t in enumerate(tables(tier)):
                    if (num // size) % n != i:
                        continue
                    batch.append((str(num + 1), 'NOUN,inan', [(f, TAGS[x % 3]) for x, f in enumerate(t)]))
                    if len(batch) == size:
                        run_spec(acc, batch, [], prefixes=opt, states=size)
                        batch = []
                    if acc.full():
                        return
                if batch:
                    run_spec(acc, batch, [], prefixes=opt, states=len(batch))
    return run


# ------------------------------------------------------------------ rows, tags, letters

ROWS = [('кот', 'sing,nomn'), ('кота', 'sing,gent'), ('кот', ''), ('кота', 'Init,sing,gent'), ('КОТ', 'sing,accs'), ('кот', 'sing,gen1'),
        ('кот', 'sing,acc1'), ('кот', 'sing,nomn')]
BASES = ['NOUN,inan', 'NOUN', '', 'NOUN,Init', 'NOUN,inan,gen1']
WORDS = ['Ёж', 'ЁЖ', 'ежи́', 'İx', 'ẞ', 'ΟΔΟΣ', 'а б', "об'єкт", '1-й', 'a&b', '<a>', '"q"', 'т.д.', 'ǅ', '𝔘x', 'ж' * 200, 'ё', '-', 'а:б', 'ﬁ', '\u0301']


def rows_space(tier):
    def run(acc, i, n):
        jobs = []
        # every mixture of rows (with and without information, initials) under every base
        for base in BASES:
            for k in (1, 2, 3):
                for rs in itertools.permutations(range(len(ROWS)), k):
                    jobs.append([(1, base, [ROWS[x] for x in rs])])
        jobs = jobs[i::n]
        # separate lexemes must not influence each other: alone ...
        for j in jobs if tier == 'thorough' else jobs[::9]:
            run_spec(acc, j + [(2, 'ADVB', [('да', '')])], [])
            if acc.full():
                return
        # ... and together (in one dictionary words and paradigms are shared)
        for k in range(0, len(jobs), 25):
            part = [(x + 1, j[0][1], j[0][2]) for x, j in enumerate(jobs[k:k + 25])]
            run_spec(acc, part + part[:1] + [(99, 'ADVB', [('да', '')])], [], states=len(part))
        # every letter first, last, twice, many times; words of every length
        al = sorted(set('абвгдеёжзийклмнопрстуфхцчшщъыьэюяіїєґabcdefghijklmnopqrstuvwxyz0123456789'))
        al = al[i::n]
        for hyphen in ('', '-'):
            run_spec(acc, [(k + 1, 'NOUN', [('ш' + hyphen + c, 'sing,nomn'), ('ш' + hyphen + c * 2, 'sing,gent'), (c, 'plur,nomn'), (c + 'ш' + c, 'plur,gent')])
                           for k, c in enumerate(al)] +
                     [(100 + k, 'NOUN', [(c + 'ок', 'sing,nomn'), (c + 'ка', 'sing,gent'), (c + 'ке', 'sing,datv')]) for k, c in enumerate(al)] +
                     [(200 + k, 'NOUN', [('ак' + c, 'sing,nomn'), ('акка' + c, 'sing,gent'), ('ак' + c + c, 'sing,datv')]) for k, c in enumerate(al)], [], states=3 * len(al))
        run_spec(acc, [(k + 1, 'NOUN', [('ы' * k + e, t) for e, t in (('жа', 'sing,nomn'), ('жи', 'sing,gent'), ('же', 'sing,datv'), ('ж', 'plur,gent'))])
                       for k in range(i, 100, n)], [], states=100 // n)
        # letters
        pairs = [(a, b) for a in WORDS for b in WORDS]
        for k, (a, b) in enumerate(pairs):
            if k % n == i:
                run_spec(acc, [(1, 'NOUN', [(a, 'sing,nomn'), (b, 'sing,gent'), (a + b, 'plur,nomn')]), (2, 'NOUN', [(b, 'sing,nomn')])], [(2, 1, '5')] * (k % 2))
    return run


def big(acc, i, n):
    """ crossing the sizes 255/256 in every table """
    import c19
    al = 'абвгдежз'
    if i == 0:      # many paradigms, suffixes and tags
        words = [''.join(t) for t in itertools.product(al, repeat=3)]
        run_spec(acc, [(k + 1, 'NOUN', [('ш' + w, 'sing,nomn'), ('ш', 'sing,gent'), ('ш' + w[:2], 'plur,nomn')]) for k, w in enumerate(words)], [])
    if i == 1:      # a lexeme with many forms
        run_spec(acc, [(1, 'NOUN', [('шт' + ''.join(t), TAGS[k % 3]) for k, t in enumerate(list(itertools.product(al, repeat=3))[:270])]),
                       (2, 'NOUN', [('а', 'sing,nomn')])], [])
    if i == 2:      # many linked lexemes (a chain and a star)
        N = 260
        lex = [(k + 1, 'NOUN', [('ш' + al[k % 8] + al[k // 8 % 8] + al[k // 64 % 8], 'sing,nomn')]) for k in range(N)]
        run_spec(acc, lex, [(k + 1, k + 2, '1') for k in range(N - 1)])
        run_spec(acc, lex, [(N - k - 1, N - k, '1') for k in range(N - 1)])
        run_spec(acc, lex, [(1, k + 2, '1') for k in range(N - 1)])
    if i == 3:      # many words
        words = [''.join(t) for t in itertools.product(al[:6], repeat=5)]
        run_spec(acc, [(k + 1, 'NOUN', [('ш' + w, 'sing,nomn'), ('ш' + w + 'у', 'sing,gent')]) for k, w in enumerate(words)], [])
    if i == 4:      # many tags
        gs = [g[0] for g in toydict.GRAMMEMES if g[1] or g[0] in ('Sgtm', 'Fixd')]
        pairs = list(itertools.combinations(gs, 2))
        run_spec(acc, [(k + 1, a, [('ш%s' % (al[k % 8] * (k % 5)), b), ('ы', b + ',Infr')]) for k, (a, b) in enumerate(pairs)
                       if 'gen1' not in (a, b) and 'loc1' not in (a, b)], [])


# ------------------------------------------------------------------ XML reading

PARSE = r'''
import sys, json
sys.dont_write_bytecode = True
sys.path[:0] = json.loads(sys.argv[1])
if sys.argv[2] == 'stdlib':
    sys.modules['lxml'] = None
    sys.modules['lxml.etree'] = None
import logging; logging.disable(logging.CRITICAL)
from pymorphy2.opencorpora_dict import parse
res = []
for f in json.loads(sys.argv[3]):
    d = parse.parse_opencorpora_xml(f)
    res.append([parse.iterparse.__module__, d.lexemes, d.links, d.grammemes, d.version, d.revision])
with open(sys.argv[4], 'w', encoding='utf8') as f:
    json.dump(res, f)
'''


def xml_specs():
    base = [(1, 'NOUN,inan', [('кот', 'sing,nomn'), ('КОТА', 'sing,gen1')]), (2, '', None), (3, 'ADVB', [('да', '')]),
            (10, 'NOUN', [('нет', ''), ('a<b&c"', 'plur')]), (7, '', [('x', '')]), (5, '', [('x', 'sing'), ('y', '')]), (4, 'NOUN,Init', [('И', 'sing')])]
    links = [(1, 3, '1'), (3, 10, '7'), (10, 1, '21')]
    for enc in ('utf-8', 'utf-16', 'windows-1251', 'koi8-r', 'utf-8-sig'):
        for order in (base, base[::-1]):
            for ls in (links, [], links[::-1]):
                for extra in ('', '<!-- a comment --><restrictions><restr/></restrictions>', '<?pi x?>\n\n'):
                    yield enc, order, ls, extra


def xml_reading(acc, i, n):
    specs = shard(list(xml_specs()), i, n)
    with toydict.scratch() as tmp:
        files = []
        for k, (enc, lex, links, extra) in enumerate(specs):
            text = toydict.xml(lex, links, version='0.9%d' % (k % 3), revision=str(400000 + k), encoding=enc.replace('-sig', ''))
            text = text.replace('<lemmata>', extra + '<lemmata>')
            fn = os.path.join(tmp, '%d.xml' % k)
            with open(fn, 'wb') as f:
                f.write(text.encode(enc))
            files.append(fn)
        for lib in ('lxml', 'stdlib'):
            out = os.path.join(tmp, 'out')
            rc = subprocess.call(['/opt/venv/bin/python', '-B', '-c', PARSE, json.dumps([core.REPO]), lib, json.dumps(files), out],
                                 stderr=subprocess.PIPE, stdout=subprocess.PIPE)
            acc.case = {'kind': 'xml', 'args': []}
            if rc:
                acc.violation('reading XML with %s fails' % lib, acc.case)
                continue
            with open(out, encoding='utf8') as f:
                res = json.load(f)
            acc.outcome(res[0][0])
            for k, ((enc, lex, links, extra), got) in enumerate(zip(specs, res)):
                acc.count('states')
                acc.count('traces')
                acc.count('transitions', len(lex))
                want = {}
                for lid, b, forms in lex:
                    rows = [[f.lower(), M.tag_of(b, g)] for f, g in forms or ()]
                    want[str(lid)] = [] if any(not (b + g) for f, g in forms or ()) else rows
                if got[1] != want:
                    acc.violation('%s, %s: lexemes %r expected %r' % (lib, enc, got[1], want), acc.case)
                if got[2] != [[str(a), str(b), t] for a, b, t in links]:
                    acc.violation('%s, %s: links %r' % (lib, enc, got[2]), acc.case)
                if got[3] != [[a, b, c, a] for a, b, c in toydict.GRAMMEMES]:
                    acc.violation('%s, %s: grammemes %r' % (lib, enc, got[3][:5]), acc.case)
                if got[4:] != ['0.9%d' % (k % 3), str(400000 + k)]:
                    acc.violation('%s, %s: version %r' % (lib, enc, got[4:]), acc.case)
            acc.case = None


def spaces(ck):
    return [
        ('link sequences', link_space(ck.tier), 'fast'),
        ('inflection tables', table_space(ck.tier), 'fast'),
        ('rows and letters', rows_space(ck.tier), 'fast'),
        ('big tables', big, 'fast'),
        ('reading XML', xml_reading, 'fast'),
    ]


def run_case(ck, case):
    if case['kind'] == 'xml':
        acc = core.Acc()
        xml_reading(acc, 0, 1)
        return [v[0] for v in acc.violations]
    code = ('import sys; sys.path[:0]=%r; import c22, json, core; print("\\n"+json.dumps(list(c22.check_spec(core.Acc(), *json.loads(sys.argv[1])))))'
            % ([core.REPO, os.path.join(core.VERIF, 'mc'), os.path.join(core.VERIF, 'checks')],))
    out = subprocess.check_output(['/opt/venv/bin/python', '-B', '-c', code, json.dumps(case['args'])], stderr=subprocess.DEVNULL)
    return json.loads(out.decode('utf8').strip().splitlines()[-1])
