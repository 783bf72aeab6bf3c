# -*- coding: utf-8 -*-
"""
C25: the right dictionary is selected, and incompatible ones are refused.

select     the full product of: explicit path, PYMORPHY2_DICT_PATH, language argument,
           set of installed language packages (real entry points of packages in a
           scratch folder), checked against the documented precedence; the dictionary
           is recognised by its contents, the language configuration by its effect.
formats    the full product of format version, metadata layout, place of the prefix
           list and declared language of a dictionary.
histories  all sequences of up to 4 steps of: (un)installing packages, setting the
           variable, creating an analyzer.
"""
import itertools
import json
import os
import subprocess
import sys
import warnings

import core
import crash
import toydict

ID = 'C25'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of configurations and installation histories on the real code'
assumptions = ['language packages are discovered through entry points of distributions on sys.path']

import pymorphy2  # noqa
import pkg_resources  # noqa

FAST = '/opt/venv/bin/python'
VAR = 'PYMORPHY2_DICT_PATH'
# the dictionaries: each knows a word of its own; all have a word with a substitutable letter per language
NAMES = ['ru', 'uk', 'xx', 'none', 'old', 'py']     # py: 'collections'-like name that is an attribute of a module
DECL = {'ru': 'ru', 'uk': 'uk', 'xx': 'xx', 'none': None, 'old': None, 'py': 'ru-old'}
MARK = {'ru': 'раз', 'uk': 'два', 'xx': 'три', 'none': 'пять', 'old': 'шесть', 'py': 'семь'}
ALL = ['раз', 'два', 'три', 'пять', 'шесть', 'семь']


def lexemes(name):
    return [(1, 'NOUN,inan,masc', [(MARK[name], 'sing,nomn')]),
            (2, 'NOUN,inan,masc', [('ёж', 'sing,nomn')]),
            (3, 'NOUN,inan,masc', [('ґанок', 'sing,nomn')])]


def build(base):
    """ compile the dictionaries and lay out the installable packages """
    for name in NAMES:
        src = os.path.join(base, name + '.xml')
        with open(src, 'w', encoding='utf8') as f:
            f.write(toydict.xml(lexemes(name)))
        act = {'do': 'compile', 'src': src, 'out': os.path.join(base, name), 'source': name, 'lang': DECL[name] or 'zz',
               'overwrite': False, 'options': {'paradigm_prefixes': ['', 'по']}}
        rc = subprocess.call([FAST, os.path.join(core.VERIF, 'mc', 'savechild.py'), json.dumps(act)],
                             stdout=subprocess.DEVNULL)
        if rc:
            raise core.WorkerError('compilation failed')
        if DECL[name] is None:
            edit_meta(os.path.join(base, name), lambda m: m.pop('language_code'))
    mods = os.path.join(base, 'mods')
    os.mkdir(mods)
    for name in NAMES:
        with open(os.path.join(mods, 'vdict_%s.py' % name), 'w') as f:
            f.write('def get_path():\n    return %r\n' % os.path.join(base, name))


def edit_meta(path, fn, layout=list):
    p = os.path.join(path, 'meta.json')
    with open(p, encoding='utf8') as f:
        m = dict(json.load(f))
    fn(m)
    with open(p, 'w', encoding='utf8') as f:
        json.dump(list(m.items()) if layout is list else m, f)


class Site(object):
    """ a site directory whose installed language packages can be switched """

    def __init__(self, tmp, base):
        self.dir = os.path.join(tmp, 'site')
        os.mkdir(self.dir)
        self.base = base
        sys.path[:] = [p for p in sys.path if 'site-packages' not in p] + [self.dir, os.path.join(base, 'mods')]
        sys.path_importer_cache.clear()
        self.old_on = False
        self.cur = set()

    def info(self, lang):
        return os.path.join(self.dir, 'pymorphy2_dicts_%s-1.0.dist-info' % lang.replace('-', '_'))

    def install(self, lang):
        if lang in self.cur:
            return
        self.cur.add(lang)
        if lang == 'ru-old':
            import types
            m = types.ModuleType('pymorphy2_dicts')
            m.get_path = lambda: os.path.join(self.base, 'old')
            sys.modules['pymorphy2_dicts'] = m
            return
        d = self.info(lang)
        os.mkdir(d)
        with open(os.path.join(d, 'METADATA'), 'w') as f:
            f.write('Metadata-Version: 2.1\nName: pymorphy2-dicts-%s\nVersion: 1.0\n' % lang)
        with open(os.path.join(d, 'entry_points.txt'), 'w') as f:
            f.write('[pymorphy2_dicts]\n%s = vdict_%s\n' % (lang, lang))

    def uninstall(self, lang):
        if lang not in self.cur:
            return
        self.cur.discard(lang)
        if lang == 'ru-old':
            sys.modules['pymorphy2_dicts'] = None       # "import" fails
            return
        d = self.info(lang)
        for fn in os.listdir(d):
            os.unlink(os.path.join(d, fn))
        os.rmdir(d)

    def set(self, langs):
        for x in list(self.cur):
            if x not in langs:
                self.uninstall(x)
        for x in langs:
            self.install(x)
        if 'ru-old' not in langs:
            sys.modules['pymorphy2_dicts'] = None


INSTALLED = {'ru': 'ru', 'uk': 'uk', 'xx': 'xx', 'ru-old': 'old'}
CONFIG = {'ru': 'ru', 'uk': 'uk', 'ru-old': 'ru'}     # others: the default (Russian) rules


def expected(path, var, lang, installed):
    """ -> (dictionary name or None if refused, analyzer language, warned) """
    if path is not None:
        name = path
    else:
        if var is not None:
            name = var
        else:
            name = INSTALLED[lang or 'ru' if lang is None else lang] if (lang is None and 'ru' in installed) \
                or (lang in installed) else None
        if lang is None:
            lang = 'ru'
    if name is None or name == 'missing':
        return None, None, None
    decl = DECL[name]
    if lang is None:
        if decl is None:
            return name, 'ru', True
        alang = decl
        warned = False
    else:
        alang = lang
        warned = decl != lang
    if alang not in CONFIG:
        warned = True
    return name, alang, warned


def create(**kw):
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        try:
            m = pymorphy2.MorphAnalyzer(**kw)
        except Exception as e:
            return None, e, ws
    ws = [w for w in ws if issubclass(w.category, UserWarning) and 'pymorphy2' in str(w.filename)]
    return m, None, ws


def identify(m):
    known = [w for w in ALL if m.word_is_known(w, strict=True)]
    names = [n for n in NAMES if [MARK[n]] == known]
    return names[0] if len(names) == 1 else known


def rules(m):
    """ which language's letter substitutes apply """
    a, b = m.word_is_known('еж'), m.word_is_known('ганок')
    return {(True, False): 'ru', (False, True): 'uk'}.get((a, b), (a, b))


def check(base, m, err, ws, exp, path_str):
    name, alang, warned = exp
    if name is None:
        if m is not None:
            return ['loaded %r, but must be refused' % identify(m)]
        return []
    if m is None:
        return ['refused (%r), but %s must be loaded' % (err, name)]
    bad = []
    if identify(m) != name:
        bad.append('dictionary %s loaded, must be %s' % (identify(m), name))
    if m.lang != alang:
        bad.append('language %r, must be %r' % (m.lang, alang))
    if rules(m) != CONFIG.get(alang, 'ru'):
        bad.append('rules of %r apply, language is %r' % (rules(m), alang))
    if bool(ws) != warned:
        bad.append('warnings %r, %s' % ([str(w.message) for w in ws], 'one expected' if warned else 'none expected'))
    if m.dictionary.path != path_str:
        bad.append('dictionary.path %r, must be %r' % (m.dictionary.path, path_str))
    return bad


LANGS = [None, 'ru', 'uk', 'xx', 'ru-old', 'en', '', 'config', '__name__']
SETS = [c for r in range(5) for c in itertools.combinations(sorted(INSTALLED), r)]


def set_var(v):
    if v is None:
        os.environ.pop(VAR, None)
    else:
        os.environ[VAR] = v


def select_space(acc, i, n, only=None):
    base = os.environ['VERIF_C25']
    with toydict.scratch() as tmp:
        site = Site(tmp, base)
        places = [None] + NAMES + ['missing']
        j = -1
        for inst in SETS:
            site.set(inst)
            for path, var, lang in itertools.product(places, places, LANGS):
                j += 1
                if only:
                    if only['args'] != [list(inst), path, var, lang]:
                        continue
                elif j % n != i:
                    continue
                if path is not None and len(inst) not in (0, 4) and not only:
                    continue        # installed packages are not consulted then; all/none are enough
                case = {'kind': 'select', 'args': [inst, path, var, lang]}
                acc.case = case
                acc.tick += 1
                if lang in ('config', '__name__') and path is None and var is None:
                    continue
                ps = None if path is None else os.path.join(base, path)
                vs = None if var is None else os.path.join(base, var)
                set_var(vs)
                kw = {}
                if path is not None:
                    kw['path'] = ps
                if lang is not None:
                    kw['lang'] = lang
                m, err, ws = create(**kw)
                exp = expected(path, var, lang, inst)
                if lang in ('config', '__name__') and exp[0]:
                    # a "language" that happens to be the name of something else: only selection is specified
                    if m is not None and identify(m) != exp[0]:
                        acc.violation('wrong dictionary', case)
                    continue
                acc.count('states')
                acc.count('transitions')
                acc.outcome('%s %s' % (exp[0], exp[1]))
                for b in check(base, m, err, ws, exp, ps if path is not None else vs if var is not None
                               else None if exp[0] is None else os.path.join(base, exp[0])):
                    acc.violation('path=%r %s=%r lang=%r installed=%s: %s' % (path, VAR, var, lang, inst, b), case)
                if not only and acc.full():
                    return
        set_var(None)


# ---- format versions ------------------------------------------------------------------------------------

GOOD = ['2.4', '2.0', '2.1', '2.10', '2.99', '2.400', 2.4, 2.0]
BAD = ['1.4', '3.0', '3.4', '0.2', '4.2', '22.4', '12.4', '20.4', '2', '24', '', 'x.4', '1.2', 'a',
       None, 1.4, 3.2, 2, 0, 'missing']


def format_space(acc, i, n, only=None):
    base = os.environ['VERIF_C25']
    with toydict.scratch() as tmp:
        cases = list(itertools.product(GOOD + BAD, ['list', 'dict'], ['options', 'file', 'both'],
                                       ['ru', 'uk', None, 'xx'], [None, 'ru', 'uk'], ['path', 'var']))
        src = crash.snapshot(os.path.join(base, 'ru'))
        d = os.path.join(tmp, 'd')
        for j, (ver, layout, place, decl, lang, how) in enumerate(cases):
            if only:
                if only['args'] != [ver, layout, place, decl, lang, how]:
                    continue
            elif j % n != i:
                continue
            case = {'kind': 'format', 'args': [ver, layout, place, decl, lang, how]}
            acc.case = case
            acc.tick += 1
            crash.materialize(src, d)

            def fn(m):
                m['format_version'] = ver
                if ver == 'missing':
                    del m['format_version']
                m['language_code'] = decl
                if decl is None:
                    del m['language_code']
                pref = m['compile_options']['paradigm_prefixes']
                if place == 'file':
                    del m['compile_options']['paradigm_prefixes']
                if place != 'options':
                    with open(os.path.join(d, 'paradigm-prefixes.json'), 'w', encoding='utf8') as f:
                        json.dump(pref, f)
            edit_meta(d, fn, list if layout == 'list' else dict)
            good = any(ver == g and type(ver) is type(g) for g in GOOD)
            kw = {}
            if lang:
                kw['lang'] = lang
            if how == 'path':
                set_var(None)
                kw['path'] = d
            else:
                set_var(d)
                if lang is None:
                    kw = {}
            m, err, ws = create(**kw)
            acc.count('states')
            acc.count('transitions')
            if not good:
                acc.outcome('refused')
                if m is not None:
                    acc.violation('format version %r was not refused' % (ver,), case)
                continue
            want = lang or (decl if how == 'path' else 'ru') or 'ru'
            warned = want != decl or want not in CONFIG
            acc.outcome('loaded as ' + want)
            if m is None:
                acc.violation('format version %r (%s metadata, prefixes in %s) refused: %r' % (ver, layout, place, err), case)
                continue
            bad = []
            if identify(m) != 'ru' or m.lang != want or bool(ws) != warned:
                bad.append('%s lang=%r warnings=%r, expected lang %r, %s' % (
                    identify(m), m.lang, [str(w.message) for w in ws], want, 'a warning' if warned else 'no warning'))
            if list(m.dictionary.paradigm_prefixes) != ['', 'по'] or len(m.dictionary.prediction_suffixes_dawgs) != 2:
                bad.append('prefixes %r' % (m.dictionary.paradigm_prefixes,))
            got = [(p.normal_form, str(p.tag)) for p in m.parse('раз')]
            if got != [('раз', 'NOUN,inan,masc sing,nomn')]:
                bad.append('parse gives %r' % (got,))
            for b in bad:
                acc.violation('%r: %s' % (case['args'], b), case)
        set_var(None)


# ---- histories ------------------------------------------------------------------------------------------

STEPS = [('+', 'ru'), ('-', 'ru'), ('+', 'uk'), ('+', 'ru-old'), ('var', 'xx'), ('var', None), ('new', None), ('new', 'uk'),
         ('new', 'ru-old'), ('newpath', 'none')]


def history_space(acc, i, n, only=None):
    base = os.environ['VERIF_C25']
    depth = 5 if os.environ.get('VERIF_TIER') == 'thorough' else 4
    with toydict.scratch() as tmp:
        site = Site(tmp, base)
        hist = itertools.chain(*(itertools.product(range(len(STEPS)), repeat=k) for k in range(1, depth + 1)))
        for j, h in enumerate(hist):
            if only:
                if only['args'] != list(h):
                    continue
            elif j % n != i:
                continue
            if STEPS[h[-1]][0] not in ('new', 'newpath'):
                continue
            case = {'kind': 'history', 'args': list(h)}
            acc.case = case
            acc.tick += 1
            site.set(())
            set_var(None)
            var = None
            made = []
            for s in h:
                op, a = STEPS[s]
                acc.count('transitions')
                if op == '+':
                    site.install(a)
                elif op == '-':
                    site.uninstall(a)
                elif op == 'var':
                    var = a
                    set_var(None if a is None else os.path.join(base, a))
                else:
                    path, lang = (a, None) if op == 'newpath' else (None, a)
                    kw = {}
                    if path:
                        kw['path'] = os.path.join(base, path)
                    if lang:
                        kw['lang'] = lang
                    m, err, ws = create(**kw)
                    exp = expected(path, var, lang, tuple(site.cur))
                    ps = None
                    if exp[0]:
                        ps = os.path.join(base, exp[0])
                    for b in check(base, m, err, ws, exp, ps):
                        acc.violation('after %s: %s' % ([STEPS[x] for x in h], b), case)
                    if m is not None:
                        made.append((m, exp))
            for m, exp in made:
                if identify(m) != exp[0] or m.lang != exp[1]:
                    acc.violation('after %s: an earlier analyzer changed' % ([STEPS[x] for x in h],), case)
            acc.count('states')
            if acc.full():
                break
        set_var(None)


def spaces(ck):
    res = []
    for where in ('slow', 'fast'):
        for name, fn in (('select', select_space), ('formats', format_space), ('histories', history_space)):
            if where == 'fast' and name == 'histories' and not ck.thorough:
                continue
            res.append((name if where == 'slow' else name + ' (fast)', fn, where))
    return res


def run(ck):
    with toydict.scratch() as d:
        os.environ['VERIF_C25'] = d
        build(d)
        ck.run_spaces(ID, spaces(ck))


def run_case(ck, case):
    acc = core.Acc()
    with toydict.scratch() as d:
        os.environ['VERIF_C25'] = d
        build(d)
        {'select': select_space, 'format': format_space, 'history': history_space}[case['kind']](acc, 0, 1, case)
    return [w for w, c in acc.violations]
