# -*- coding: utf-8 -*-
"""
Development helper: makes and measures the planted changes of tools/seeds/*.py.

    mkseed.py make [ID...]     write seeded/ID/, confirm tests and demonstration in a scratch copy
    mkseed.py check [ID...]    run the check of the property against a scratch copy with the change; record in catches.json
"""
import concurrent.futures
import glob
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = '/tmp/m/s'
ENV = dict(os.environ, HOME='/root', LANG='C.UTF-8', LC_ALL='C.UTF-8', PYTHONUTF8='1', PYTHONDONTWRITEBYTECODE='1',
           PYTHONHASHSEED='0', TQDM_DISABLE='1')
PRELUDE = '''# -*- coding: utf-8 -*-
import os, sys
sys.path.insert(0, os.getcwd())
import pymorphy2
assert pymorphy2.__file__.startswith(os.getcwd() + os.sep), pymorphy2.__file__
'''
TOY = '''# -*- coding: utf-8 -*-
""" Compiles small dictionaries into a temporary folder which is removed at exit. """
import atexit, os, shutil, tempfile
from xml.sax.saxutils import quoteattr as q

TMP = tempfile.mkdtemp()
atexit.register(shutil.rmtree, TMP, True)
GR = [('POST', '', 'ЧР'), ('NOUN', 'POST', 'СУЩ'), ('VERB', 'POST', 'ГЛ'), ('ADVB', 'POST', 'Н'), ('CONJ', 'POST', 'СОЮЗ'),
      ('ADJF', 'POST', 'ПРИЛ'), ('ADJS', 'POST', 'КР_ПРИЛ'), ('COMP', 'POST', 'КОМП'), ('INFN', 'POST', 'ИНФ'),
      ('PREP', 'POST', 'ПР'), ('NUMR', 'POST', 'ЧИСЛ'), ('Apro', '', 'мест-п'), ('Supr', '', 'прев'), ('Qual', '', 'кач'),
      ('ANim', '', 'Од-неод'), ('anim', 'ANim', 'од'), ('inan', 'ANim', 'но'), ('GNdr', '', 'хр'), ('masc', 'GNdr', 'мр'),
      ('femn', 'GNdr', 'жр'), ('neut', 'GNdr', 'ср'), ('NMbr', '', 'Число'), ('sing', 'NMbr', 'ед'), ('plur', 'NMbr', 'мн'),
      ('CAse', '', 'Падеж'), ('nomn', 'CAse', 'им'), ('gent', 'CAse', 'рд'), ('datv', 'CAse', 'дт'), ('accs', 'CAse', 'вн'),
      ('ablt', 'CAse', 'тв'), ('loct', 'CAse', 'пр'), ('voct', 'CAse', 'зв'), ('gen1', 'gent', 'рд1'), ('gen2', 'gent', 'рд2'),
      ('loc1', 'loct', 'пр1'), ('loc2', 'loct', 'пр2'), ('acc1', 'accs', 'вн1'), ('acc2', 'accs', 'вн2'), ('Abbr', '', 'аббр'),
      ('Name', '', 'имя'), ('Patr', '', 'отч'), ('Init', '', 'иниц'), ('Sgtm', '', 'sg'), ('Fixd', '', '0'), ('tran', '', 'перех'),
      ('pres', '', 'наст'), ('past', '', 'прош'), ('V-oy', '', '*ою'), ('V-ey', '', '*ею')]


def xml(lexemes, links=(), grammemes=GR):
    out = ['<?xml version="1.0" encoding="utf-8"?><dictionary version="0.8" revision="1"><grammemes>']
    for name, parent, alias in grammemes:
        out.append('<grammeme parent=%s><name>%s</name><alias>%s</alias><description>d</description></grammeme>' % (
            q(parent), name, alias))
    out.append('</grammemes><lemmata>')
    g = lambda s: ''.join('<g v=%s/>' % q(x) for x in s.replace(' ', ',').split(',') if x)
    for i, base, forms in lexemes:
        out.append('<lemma id="%s" rev="1"><l t=%s>%s</l>' % (i, q(forms[0][0]), g(base)))
        out.extend('<f t=%s>%s</f>' % (q(w), g(t)) for w, t in forms)
        out.append('</lemma>')
    out.append('</lemmata><links>')
    out.extend('<link id="%d" from="%s" to="%s" type="%s"/>' % (n, a, b, t) for n, (a, b, t) in enumerate(links, 1))
    out.append('</links></dictionary>')
    return ''.join(out)


def compile(lexemes, links=(), lang='ru', name='d', overwrite=True, **options):
    from pymorphy2.opencorpora_dict.compile import convert_to_pymorphy2
    fn = os.path.join(TMP, name + '.xml')
    with open(fn, 'w', encoding='utf8') as f:
        f.write(xml(lexemes, links))
    opts = dict(min_ending_freq=1, min_paradigm_popularity=1, max_suffix_length=5, paradigm_prefixes=['', 'по', 'наи'])
    opts.update(options)
    out = os.path.join(TMP, name)
    convert_to_pymorphy2(fn, out, source_name='toy', language_code=lang, overwrite=overwrite, compile_options=opts)
    return out


def noun(i, stem, endings, base='NOUN,inan,masc'):
    return i, base, [(stem + e, t) for e, t in endings]
'''


def seeds():
    res = {}
    for fn in sorted(glob.glob(os.path.join(HERE, 'tools', 'seeds', '*.py'))):
        ns = {}
        exec(compile(open(fn, encoding='utf8').read(), fn, 'exec'), ns)
        for s in ns['SEEDS']:
            assert s['id'] not in res, s['id']
            res[s['id']] = s
    return res


def sh(cmd, cwd, timeout=900, **env):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=dict(ENV, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode('utf8', 'replace') + '\ntimeout'


def copy(sid):
    d = os.path.join(SCRATCH, sid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(SCRATCH, exist_ok=True)
    shutil.copytree('/repo', d, symlinks=True)
    return d


def make(s):
    sid = s['id']
    d = copy(sid)
    try:
        for fn, old, new in s['edits']:
            p = os.path.join(d, 'pymorphy2', fn)
            t = open(p, encoding='utf8').read()
            if t.count(old) != 1:
                return '%s: EDIT matches %d times: %r' % (sid, t.count(old), old[:60])
            open(p, 'w', encoding='utf8').write(t.replace(old, new))
        out = os.path.join(HERE, 'seeded', sid)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        diff = subprocess.check_output(['git', 'diff'], cwd=d)
        open(os.path.join(out, 'patch.diff'), 'wb').write(diff)
        py = '/opt/venv/bin/python' if s.get('py', 'slow') == 'fast' or s.get('toy') else '/opt/venv-slow/bin/python'
        with open(os.path.join(out, 'demo.sh'), 'w') as f:
            f.write('#!/bin/bash\nunset PYMORPHY2_DICT_PATH PYTHONPATH\nexport TQDM_DISABLE=1 PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8 PYTHONUTF8=1\n'
                    'exec timeout 250 %s "$(dirname "$0")/demo.py"\n' % s.get('python', py))
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        with open(os.path.join(out, 'demo.py'), 'w', encoding='utf8') as f:
            f.write(PRELUDE + ('sys.path.insert(1, os.path.dirname(os.path.abspath(__file__)))\nimport toy\n' if s.get('toy') else '')
                    + s['demo'].strip() + '\n')
        if s.get('toy'):
            open(os.path.join(out, 'toy.py'), 'w', encoding='utf8').write(TOY)
        with open(os.path.join(out, 'meta.json'), 'w', encoding='utf8') as f:
            json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, f, ensure_ascii=False, indent=1)
            f.write('\n')
        msgs = []
        rc, o = sh([os.path.join(out, 'demo.sh')], '/repo')
        if rc:
            msgs.append('demo fails on /repo rc=%d: %s' % (rc, o[-400:]))
        rc, o = sh([os.path.join(out, 'demo.sh')], d)
        if not rc:
            msgs.append('demo passes with the change')
        elif 'AssertionError' not in o:
            msgs.append('note: demo output %s' % o[-200:])
        base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        xmls = []
        for env in ('venv', 'venv-slow'):
            x = os.path.join(d, env + '.xml')
            xmls.append(x)
            sh(['/opt/%s/bin/python' % env, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--tb=short', '--timeout=300',
                '--continue-on-collection-errors', '--doctest-modules', '-o', 'junit_family=xunit2', '--junitxml=' + x,
                'pymorphy2', 'tests'], d, PYTHONPATH=d)
        o = os.path.join(d, 'res.json')
        sh(['/usr/bin/python3', '/opt/vp/results.py', o] + ['junit:' + d + '/*.xml'], d)
        r = json.load(open(o))
        passed = set(r.get('passed') or [k for k, v in r.get('tests', r).items() if v in ('passed', 'pass', True)])
        bad = sorted(base - passed)
        if bad:
            msgs.append('TESTS FAIL %d: %s' % (len(bad), bad[:3]))
        if [m for m in msgs if not m.startswith('note')]:
            shutil.rmtree(out)
        return '%s: %s' % (sid, '; '.join(msgs) or 'ok')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(s, props=None):
    sid = s['id']
    d = copy(sid)
    try:
        subprocess.check_call(['git', 'apply', os.path.join(HERE, 'seeded', sid, 'patch.diff')], cwd=d)
        res = []
        for p in props or [s['prop']]:
            rc, o = sh([os.path.join(HERE, 'run'), p], HERE, VERIF_REPO=d, VERIF_TIER='quick')
            hit = 'VIOLATION property=%s ' % p in o
            open('/tmp/m/%s.%s.log' % (sid, p), 'w').write(o)
            res.append((p, rc, hit))
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    cmd, ids = sys.argv[1], sys.argv[2:]
    all_ = seeds()
    if cmd == 'make':
        ids = ids or [i for i in all_ if not os.path.exists(os.path.join(HERE, 'seeded', i))]
        with concurrent.futures.ThreadPoolExecutor(6) as ex:
            for r in ex.map(lambda i: make(all_[i]), ids):
                print(r, flush=True)
    elif cmd == 'check':
        cp = os.path.join(HERE, 'tools', 'catches.json')
        cs = json.load(open(cp)) if os.path.exists(cp) else {}
        ids = ids or [i for i in sorted(os.listdir(os.path.join(HERE, 'seeded'))) if i not in cs]
        for i in ids:
            ((p, rc, hit),) = check(all_[i])
            cs[i] = p if rc == 1 and hit else 'not caught'
            print(i, p, rc, 'CAUGHT' if rc == 1 and hit else '*** MISSED', flush=True)
            json.dump(cs, open(cp, 'w'), indent=1, sort_keys=True)


if __name__ == '__main__':
    main()
