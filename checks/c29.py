# -*- coding: utf-8 -*-
"""
C29: command-line output is the library's answer for each token.

options    the full product of output options x thresholds x cache sizes x
           tokenized or not x input from a file or standard input, on the real main().
histories  every cache size x output option with a text that contains every
           sequence of up to 4 tokens (a de Bruijn sequence over the tokens), and all
           short sequences from a fresh start: caching must not show.
alike      texts of words that differ in one place (a letter removed, doubled, replaced, swapped, in
           another case; at every place of short and very long words, also words with spaces, digits,
           hyphens): remembered answers must not be mixed up.
processes  the installed command in a process of its own: bytes in, bytes out; dictionary
           metadata, version, errors.
installed  words for every tag of the installed dictionary.
Oracle: MorphAnalyzer.parse of another analyzer object, formatted here.
"""
import io
import itertools
import json
import os
import re
import subprocess
import sys

import core
import toydict
import world

ID = 'C29'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of option products x token histories on the real command against the library'
assumptions = ['the order of lemmas with equal scores is not specified']

import pymorphy2  # noqa
from pymorphy2 import cli  # noqa
from pymorphy2.tokenizers import simple_word_tokenize  # noqa

FAST = '/opt/venv/bin/python'
LEX = [
    toydict.noun(1, 'кот', [('', 'sing,nomn'), ('а', 'sing,gent'), ('а', 'sing,accs')]),
    toydict.noun(2, 'кот', [('', 'sing,nomn'), ('а', 'sing,accs')], 'NOUN,anim,masc'),
    toydict.noun(3, 'котик', [('', 'sing,nomn'), ('а', 'sing,gent')]),
    (4, 'VERB', [('стали', 'plur')]), (5, 'NOUN,inan,femn', [('сталь', 'nomn'), ('стали', 'gent'), ('стали', 'datv')]),
    (6, 'PREP', [('в', '')]), (7, 'CONJ', [('и', '')]), (8, 'NOUN,inan,masc', [('и', 'nomn')]),
    toydict.noun(10, 'ґанок', [('', 'sing,nomn')]),
    toydict.noun(9, 'ёж', [('', 'sing,nomn'), ('и', 'plur,nomn')], 'NOUN,anim,masc'),
]
PROBS = {('кот', 'NOUN,anim,masc sing,nomn'): 0.75, ('кот', 'NOUN,inan,masc sing,nomn'): 0.25,
         ('стали', 'VERB plur'): 0.1, ('стали', 'NOUN,inan,femn gent'): 0.5, ('стали', 'NOUN,inan,femn datv'): 0.4,
         ('и', 'CONJ'): 0.97, ('и', 'NOUN,inan,masc nomn'): 0.03}
FLAGS = [f for r in range(4) for f in itertools.combinations(['-l', '-s', '-t'], r) if f != ('-s',)]
THRESH = [None, '0', '0.0', '0.001', '0.04', '0.05', '0.1', '0.25', '0.3', '0.5', '0.9', '1', '1.0', '1.5', '-1']
CACHES = [None, '0', '1', '2', '3', '20000', 'unlim']
TEXT = ('Кот стали кот, КОТ!  В ёжи ежи котика-то\n\n %s 100% {a|b} 12.5 и—И\tx\u00a0yz\n'
        'ко\u2028т к\x85от ко\x0cт\x1c стали\u2029\ufeffкот экс-кот бутявкота стали +1 "кот" … a_b \u0451ж\n   \nкота')
TOKENS = ['Кот', 'кот', 'стали', ',', 'И', 'и', 'котёночка', '%s', '{|}', '100', 'два слова', 'ёжи', 'еж', 'В', '-', 'x',
          'к\u2028от', 'к\x85т', 'ко\x0cт', 'к\x1cот', '\ufeffкот', 'кот\u200b', '=', '|', 'кот=кот', 'а' * 3000,
          '#кот', '#', '# кот', 'кот # стали', ';кот', '//', '<b>кот</b>', 'кот\tстали', 'кот\tNOUN', 'кот,стали', '"кот"', '\\n', '$1', '@кот',
          'кот/NOUN', 'кот  стали', '---', '[1]', 'кот:']


def build(base):
    src = os.path.join(base, 'toy.xml')
    with open(src, 'w', encoding='utf8') as f:
        f.write(toydict.xml(LEX))
    for name, lang in (('plain', 'ru'), ('prob', 'ru'), ('uk', 'uk')):
        act = {'do': 'compile', 'src': src, 'out': os.path.join(base, name), 'source': name + ' \u0451"', 'lang': lang,
               'overwrite': False, 'options': {'paradigm_prefixes': ['', 'по'], 'min_ending_freq': 1,
                                               'min_paradigm_popularity': 1}}
        if subprocess.call([FAST, os.path.join(core.VERIF, 'mc', 'savechild.py'), json.dumps(act)],
                           stdout=subprocess.DEVNULL):
            raise core.WorkerError('compilation failed')
    code = 'import sys; sys.path.insert(0, %r); import toydict; toydict.add_probs(%r, %r)' % (
        os.path.join(core.VERIF, 'mc'), os.path.join(base, 'prob'), PROBS)
    e = dict(os.environ)
    if core.REPO != '/repo':
        e['PYTHONPATH'] = core.REPO
    if subprocess.call([FAST, '-c', code], env=e):
        raise core.WorkerError('adding probabilities failed')


def tokens_of(text, tokenized):
    lines = re.split('\r\n|\n|\r', text)
    if tokenized:
        return [x for x in (ln.strip() for ln in lines) if x]
    return [t for ln in lines for t in simple_word_tokenize(ln)]


class Oracle(object):

    def __init__(self, m, flags, thresh):
        self.m = m
        self.l = '-l' in flags or not flags
        self.s = '-s' in flags or not flags
        self.t = '-t' in flags or not flags
        self.th = float(thresh or 0)
        self.memo = {}

    def items(self, tok):
        """ -> (list of printed items, exact order?) """
        if tok in self.memo:
            return self.memo[tok]
        parses = [(p.normal_form, p.score, str(p.tag)) for p in self.m.parse(tok)]
        if self.l and not self.t:
            lemmas = {}
            for nf, sc, t in parses:
                lemmas[nf] = lemmas.get(nf, 0.0) + sc
            its = sorted(((sc, nf) for nf, sc in lemmas.items() if sc >= self.th), reverse=True)
            res = [(nf + ':%.3f' % sc if self.s else nf) for sc, nf in its]
            exact = len(set('%.6f' % sc for sc, nf in its)) == len(its)
        else:
            res = []
            for nf, sc, t in parses:
                if sc >= self.th:
                    x = t
                    if self.s:
                        x = '%.3f=%s' % (sc, x)
                    if self.l:
                        x = nf + ':' + x
                    res.append(x)
            exact = self.l or self.s
        self.memo[tok] = (res, exact)
        return res, exact

    def bad(self, tok, line):
        res, exact = self.items(tok)
        want = tok + '{' + '|'.join(res) + '}'
        if line == want:
            return None
        if not exact and line.startswith(tok + '{') and line.endswith('}'):
            got = line[len(tok) + 1:-1].split('|')
            if self.l and sorted(got) == sorted(res):
                return None
            if not self.l and len(res) and self.th <= 0 and got == [str(t) for t in self.m.tag(tok)] and set(got) == set(res):
                return None         # the fast call may report a tag of several parses once
        return 'line %r, expected %r' % (line, want)

    def check(self, toks, out):
        if out and not out.endswith('\n'):
            return ['output does not end with a newline: %r' % out[-50:]]
        lines = out.split('\n')[:-1]
        if len(lines) != len(toks):
            return ['%d lines for %d tokens' % (len(lines), len(toks))]
        for k, (t, ln) in enumerate(zip(toks, lines)):
            b = self.bad(t, ln)
            if b:
                return ['token %d: %s' % (k, b)]
        return []


def call(argv, stdin=None):
    """ run the real main() here -> output """
    old = sys.stdin, sys.stdout
    sys.stdin, sys.stdout = io.StringIO(stdin or '', newline=None), io.StringIO(newline='')
    try:
        cli.main(argv)
        return sys.stdout.getvalue()
    except SystemExit as e:
        return 'exit: %r %s' % (e, argv)
    finally:
        sys.stdin, sys.stdout = old


def argv_of(path, flags, thresh, cache, tokenized, fn):
    a = ['parse'] + list(flags)
    if thresh is not None:
        a += ['--thresh', thresh] if not thresh.startswith('-') else ['--thresh=' + thresh]
    if cache is not None:
        a += ['-c', cache]
    if tokenized:
        a += ['--tokenized']
    if path is not None:
        a += ['--dict', path]
    if fn is not None:
        a += [fn]
    return a


def option_space(acc, i, n, only=None):
    base = os.environ['VERIF_C29']
    with toydict.scratch() as tmp:
        fn = os.path.join(tmp, 'in.txt')
        for d in ('plain', 'prob'):
            path = os.path.join(base, d)
            m = toydict.analyzer(path)
            combos = itertools.product(FLAGS, THRESH, CACHES, [False, True], ['file', '-', None])
            for j, (flags, th, cache, tokd, how) in enumerate(combos):
                if only:
                    if only['args'] != [d, list(flags), th, cache, tokd, how]:
                        continue
                elif j % n != i:
                    continue
                case = {'kind': 'options', 'args': [d, flags, th, cache, tokd, how]}
                acc.case = case
                acc.tick += 1
                text = '\n'.join(TOKENS[:8] + ['', ' '] + TOKENS[8:]) if tokd else TEXT
                if j % 3 == 0:
                    text += '\n'
                if how == 'file':
                    with open(fn, 'w', encoding='utf8') as f:
                        f.write(text)
                out = call(argv_of(path, flags, th, cache, tokd, {'file': fn}.get(how, how)), text)
                toks = tokens_of(text, tokd)
                acc.count('states')
                acc.count('transitions', len(toks))
                for b in Oracle(m, flags, th).check(toks, out):
                    acc.violation('%s: %s' % (' '.join(argv_of(d, flags, th, cache, tokd, how)), b), case)
                acc.outcome(len(out) > 0)
                if acc.full():
                    return


def de_bruijn(k, n):
    """ a sequence over range(k) containing every word of length n """
    a = [0] * k * n
    seq = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return seq + seq[:n - 1]


HTOK = ['Кот', 'кот', 'стали', 'КОТ', 'и', 'нечто']


def parse_text(m, text, flags, th, cache, tokd=True):
    out = io.StringIO()
    f = flags or ('-l', '-s', '-t')
    cli.parse(morph=m, in_file=io.StringIO(text), out_file=out, tokenize=not tokd, score='-s' in f,
              normal_form='-l' in f, tag='-t' in f, newlines=True, cache_size=cache or '20000', thresh=float(th or 0))
    return out.getvalue()


def history_space(acc, i, n, only=None):
    base = os.environ['VERIF_C29']
    thorough = os.environ.get('VERIF_TIER') == 'thorough'
    path = os.path.join(base, 'prob')
    m = toydict.analyzer(path)
    ref = toydict.analyzer(path)
    depth = 5 if thorough else 4
    seqs = [de_bruijn(len(HTOK), depth)]
    seqs += [list(p) for r in range(0, depth) for p in itertools.product(range(len(HTOK)), repeat=r)]
    for j, (flags, th, cache) in enumerate(itertools.product(FLAGS, [None, '0.3'], ['0', '1', '2', '3', '5', '20000', 'unlim'])):
        if only:
            if only['args'][:3] != [list(flags), th, cache]:
                continue
        elif j % n != i:
            continue
        o = Oracle(ref, flags, th)
        for s in seqs:
            case = {'kind': 'history', 'args': [flags, th, cache, s]}
            acc.case = case
            acc.tick += 1
            toks = [HTOK[k] for k in s]
            out = parse_text(m, '\n'.join(toks), flags, th, cache)
            acc.count('states')
            acc.count('transitions', len(toks))
            for b in o.check(toks, out):
                acc.violation('%s --thresh %s -c %s: %s' % (' '.join(flags), th, cache, b), case)
            if acc.full():
                return


LONG = 'перекотобутявколюбивейшестальнокотиковоежистостальновыйкотик' * 2
BASES = ['кот', 'Ёжика', 'кот-сталь', 'два  слова', '1234567890', 'по-котиковому', LONG[:17], LONG[:33], LONG[:65], LONG]


def alike(base):
    """ words that differ from base in one place """
    res = [base, base + base, base[::-1], base.upper(), base.lower(), base.title(), base + ' ' + base, base + '-' + base]
    for k in range(len(base)):
        c = base[k]
        res += [base[:k] + base[k + 1:], base[:k] + c + base[k:], base[:k] + 'ы' + base[k + 1:], base[:k] + '-' + base[k:],
                base[:k] + c.swapcase() + base[k + 1:], base[:k] + '\u0301' + base[k:],
                base[:k] + {'е': 'ё', 'ё': 'е', 'и': 'й', 'й': 'и\u0306', 'о': 'o', 'а': 'a'}.get(c, 'т') + base[k + 1:]]
        if k:
            res.append(base[:k - 1] + base[k] + base[k - 1] + base[k + 1:])
            res += [base[:k], base[k:]]
    return [r for r in sorted(set(x.strip() for x in res)) if r]


def alike_space(acc, i, n, only=None):
    path = os.path.join(os.environ['VERIF_C29'], 'prob')
    m = toydict.analyzer(path)
    ref = toydict.analyzer(path)
    jobs = itertools.product(range(len(BASES)), ['unlim', '2', '20000'], [FLAGS[0], ('-l', '-s'), ('-l', '-t')], [0, 1])
    for j, (b, cache, flags, back) in enumerate(jobs):
        if only:
            if only['args'] != [b, cache, list(flags), back]:
                continue
        elif j % n != i:
            continue
        toks = alike(BASES[b])
        toks = toks[::-1] if back else toks
        toks = toks + toks[::3]
        case = {'kind': 'alike', 'args': [b, cache, flags, back]}
        acc.case = case
        acc.tick += 1
        out = parse_text(m, '\n'.join(toks), flags, None, cache)
        acc.count('states')
        acc.count('transitions', len(toks))
        for bad in Oracle(ref, flags, None).check(toks, out):
            acc.violation('words like %s, %s -c %s: %s' % (BASES[b], ' '.join(flags), cache, bad), case)
        if acc.full():
            return


def installed_space(acc, i, n, only=None):
    m = world.morph()
    toks = [w.capitalize() if k % 3 == 0 else w for k, w in enumerate(sorted(set(world.tag_rep_words())))]
    toks = toks[::4] + ['бутявка', 'кот-то', 'пол-кота', 'экс-президент', 'V', 'x', '12', '1,5', 'Ж', '…', '№']
    if os.environ.get('VERIF_TIER') == 'thorough':
        toks = sorted(set(world.tag_rep_words()))
    for j, (flags, th) in enumerate(itertools.product(FLAGS, [None, '0.001', '0.02', '0.1', '0.5', '0.99'])):
        if only:
            if only['args'] != [list(flags), th]:
                continue
        elif j % n != i:
            continue
        case = {'kind': 'installed', 'args': [flags, th]}
        acc.case = case
        acc.tick += 1
        out = parse_text(m, '\n'.join(toks), flags, th, '20000')
        acc.count('states')
        acc.count('transitions', len(toks))
        for b in Oracle(m, flags, th).check(toks, out):
            acc.violation('%s --thresh %s: %s' % (' '.join(flags), th, b), case)


def process(argv, stdin=b'', cwd=None):
    code = 'import sys; from pymorphy2.cli import main; sys.exit(main())'
    e = dict(os.environ)
    e.pop('PYMORPHY2_DICT_PATH', None)
    if core.REPO != '/repo':
        e['PYTHONPATH'] = core.REPO
    p = subprocess.Popen([sys.executable, '-c', code] + argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, env=e, cwd=cwd)
    out, err = p.communicate(stdin)
    return p.returncode, out, err


def process_cases(base):
    res = []
    for flags in FLAGS:
        for th, cache, tokd, how in ((None, None, False, 'file'), ('0.3', '1', True, 'stdin'), (None, 'unlim', False, '-')):
            res.append(('parse', list(flags), th, cache, tokd, how))
    res += [('big', k, tokd, how, end) for k in range(4 if os.environ.get('VERIF_TIER') != 'thorough' else 16)
            for tokd, how in ((False, 'file'), (True, 'file'), (False, 'stdin'), (True, '-')) for end in ('\n', '')]
    for d in ('plain', 'uk', None):
        for lang in (None, 'ru', 'uk'):
            for verbose in (False, True):
                if d or lang != 'uk':
                    res.append(('rules', d, lang, verbose))
    for d in ('plain', 'prob', 'uk'):
        for lang in (None, 'ru', 'uk'):
            res.append(('meta', d, lang))
    res += [('meta', None, None), ('meta', None, 'ru'), ('mem', 'plain'), ('version',), ('help',), ('bad', []), ('bad', ['parse', '--nope']),
            ('bad', ['parse', '--dict', '/nonexistent-dictionary']), ('bad', ['parse', '--lang', 'zz', '-']), ('lang',)]
    return res


def process_space(acc, i, n, only=None):
    base = os.environ['VERIF_C29']
    with toydict.scratch() as tmp:
        for j, pc in enumerate(process_cases(base)):
            if only:
                if only['args'] != json.loads(json.dumps(pc)):
                    continue
            elif j % n != i:
                continue
            case = {'kind': 'process', 'args': pc}
            acc.case = case
            acc.tick += 1
            acc.count('states')
            acc.count('transitions')
            acc.count('processes')
            for b in one_process(base, tmp, pc):
                acc.violation('%s: %s' % (pc, b), case)


def one_process(base, tmp, pc):
    if pc[0] == 'parse':
        _, flags, th, cache, tokd, how = pc
        text = '\r\n'.join(TOKENS) if tokd else TEXT + '\n'
        fn = os.path.join(tmp, 'текст.txt')
        with open(fn, 'wb') as f:
            f.write(text.encode('utf8'))
        path = os.path.join(base, 'prob')
        rc, out, err = process(argv_of(path, flags, th, cache, tokd, {'file': fn, 'stdin': None}.get(how, how)),
                               b'' if how == 'file' else text.encode('utf8'))
        if rc != 0:
            return ['exit code %s: %s' % (rc, err[-300:])]
        m = toydict.analyzer(path)
        return Oracle(m, flags, th).check(tokens_of(text, tokd), out.decode('utf8'))
    if pc[0] == 'big':
        # more than any buffer holds, letters at every alignment
        _, k, tokd, how, end = pc
        text = 'x' * k + '\n' + '\n'.join(HTOK[j % len(HTOK)] + ('' if tokd else ' ' + HTOK[j // 7 % len(HTOK)])
                                       for j in range(30000)) + end
        fn = os.path.join(tmp, 'big.txt')
        with open(fn, 'wb') as f:
            f.write(text.encode('utf8'))
        path = os.path.join(base, 'prob')
        rc, out, err = process(argv_of(path, ['-l', '-t'], None, None, tokd, {'file': fn, 'stdin': None}.get(how, how)),
                               b'' if how == 'file' else text.encode('utf8'))
        if rc != 0:
            return ['exit code %s: %s' % (rc, err[-300:])]
        m = toydict.analyzer(path)
        return Oracle(m, ['-l', '-t'], None).check(tokens_of(text, tokd), out.decode('utf8'))
    if pc[0] == 'meta':
        _, d, lang = pc
        path = None if d is None else os.path.join(base, d)
        a = ['dict', 'meta'] + (['--dict', path] if path else []) + (['--lang', lang] if lang else [])
        rc, out, err = process(a)
        if path and lang:
            return [] if rc != 0 else ['--lang and --dict together must be refused']
        m = toydict.analyzer(path, lang='ru')
        text = (out + err).decode('utf8')
        bad = [] if rc in (0, None) else ['exit code %s' % rc]
        for k, v in m.dictionary.meta.items():
            if '%s: %s' % (k, v) not in text.split('\n') and '%s: %s' % (k, v) not in text:
                bad.append('no line "%s: %s"' % (k, v))
        return bad
    if pc[0] == 'rules':
        # the language decides which letters may be substituted
        _, d, lang, verbose = pc
        path = None if d is None else os.path.join(base, d)
        a = ['parse'] + (['--dict', path] if path else []) + (['--lang', lang] if lang else []) + (['-v'] if verbose else [])
        rc, out, err = process(a, 'ежи ганок кот'.encode('utf8'))
        if rc != 0:
            return ['exit code %s: %s' % (rc, err[-300:])]
        m = world.morph() if path is None else toydict.analyzer(path, lang=lang or 'ru')
        return Oracle(m, [], None).check(['ежи', 'ганок', 'кот'], out.decode('utf8'))
    if pc[0] == 'mem':
        try:
            import psutil  # noqa
        except ImportError:
            return []
        rc, out, err = process(['dict', 'mem_usage', '--dict', os.path.join(base, pc[1])])
        text = (out + err).decode('utf8')
        return [] if rc == 0 and re.search(r'Memory usage: -?[\d.]+M', text) else ['exit code %s, %r' % (rc, text[-300:])]
    if pc[0] == 'version':
        rc, out, err = process(['--version'])
        return [] if out.decode('utf8').strip() == pymorphy2.__version__ and rc == 0 else ['%r' % out]
    if pc[0] == 'help':
        rc, out, err = process(['--help'])
        return [] if rc == 0 and 'pymorphy parse' in out.decode('utf8') else ['%s %r' % (rc, out[:200])]
    if pc[0] == 'lang':
        # without a dictionary folder the installed dictionary of the language is used
        rc, out, err = process(['parse', '--lang', 'ru', '-l', '-t'], 'стали'.encode('utf8'))
        return Oracle(world.morph(), ['-l', '-t'], None).check(['стали'], out.decode('utf8'))
    rc, out, err = process(pc[1], 'кот'.encode('utf8'))
    if rc == 0 or out:
        return ['must fail, but exit code %s, output %r' % (rc, out)]
    return []


def spaces(ck):
    return [('options', option_space, 'slow'), ('token histories', history_space, 'slow'), ('words alike', alike_space, 'slow'),
            ('installed dictionary', installed_space, 'slow'), ('processes', process_space, 'slow')]


def run(ck):
    with toydict.scratch() as d:
        os.environ['VERIF_C29'] = d
        build(d)
        ck.run_spaces(ID, spaces(ck))


def run_case(ck, case):
    acc = core.Acc()
    with toydict.scratch() as d:
        os.environ['VERIF_C29'] = d
        build(d)
        {'options': option_space, 'history': history_space, 'alike': alike_space, 'installed': installed_space,
         'process': process_space}[case['kind']](acc, 0, 1, case)
    return [w for w, c in acc.violations]
