# -*- coding: utf-8 -*-
"""
Development helper: systematic small changes of /repo, to find what the checks do not see.

    mutate.py survivors OUT.jsonl [FILE...]   enumerate changes, keep those the existing tests pass
    mutate.py check OUT.jsonl RES.jsonl       run the checks of the file's part against each survivor until one reports it
"""
import ast
import json
import multiprocessing
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = '/tmp/mut/w'
ENV = dict(os.environ, HOME='/root', LANG='C.UTF-8', LC_ALL='C.UTF-8', PYTHONUTF8='1', PYTHONDONTWRITEBYTECODE='1',
           PYTHONHASHSEED='0', TQDM_DISABLE='1')
FILES = ['analyzer.py', 'cache.py', 'cli.py', 'dawg.py', 'shapes.py', 'tagset.py', 'tokenizers.py', 'utils.py',
         'opencorpora_dict/compile.py', 'opencorpora_dict/parse.py', 'opencorpora_dict/preprocess.py', 'opencorpora_dict/probability.py',
         'opencorpora_dict/storage.py', 'opencorpora_dict/wrapper.py', 'units/abbreviations.py', 'units/base.py', 'units/by_analogy.py',
         'units/by_hyphen.py', 'units/by_lookup.py', 'units/by_shape.py', 'units/unkn.py', 'units/utils.py', 'lang/ru/config.py', 'lang/uk/config.py']
CMP = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.In: ['not in'],
       ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
OPS = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.In: 'in', ast.NotIn: 'not in',
       ast.Is: 'is', ast.IsNot: 'is not'}
BIN = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.Mod: '%', ast.FloorDiv: '//'}
SWAP = {'+': ['-'], '-': ['+'], '*': ['/'], '/': ['*'], '&': ['|'], '|': ['&'], '^': ['&', '|'], '//': ['*']}


def mutants(src):
    """ (start, end, replacement) in bytes of the source """
    tree = ast.parse(src)
    lines = [0]
    for ln in src.splitlines(True):
        lines.append(lines[-1] + len(ln))
    pos = lambda n: (lines[n.lineno - 1] + n.col_offset, lines[n.end_lineno - 1] + n.end_col_offset)
    text = lambda n: src[pos(n)[0]:pos(n)[1]].decode('utf8')
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0].value)
            doc.add(n.body[0])
    for n in ast.walk(tree):
        if n in doc or not hasattr(n, 'lineno'):
            continue
        a, b = pos(n)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = text(n.left), text(n.comparators[0])
            for o in CMP[type(n.ops[0])]:
                yield a, b, '(%s %s %s)' % (l, o, r)
        elif isinstance(n, ast.BoolOp):
            vs = [text(v) for v in n.values]
            yield a, b, '(' + (' or ' if isinstance(n.op, ast.And) else ' and ').join(vs) + ')'
            for k in range(len(vs)):
                yield a, b, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join(vs[:k] + vs[k + 1:]) + ')'
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield a, b, '(%s)' % text(n.operand)
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            o = BIN[type(n.op)]
            l, r = text(n.left), text(n.right)
            for x in SWAP.get(o, []):
                yield a, b, '(%s %s %s)' % (l, x, r)
            if o != '%':
                yield a, b, '(%s)' % l
                yield a, b, '(%s)' % r
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                yield a, b, str(not v)
            elif isinstance(v, (int, float)):
                yield a, b, '(%r)' % (v + 1)
                yield a, b, '(%r)' % (v - 1)
            elif isinstance(v, str) and not text(n).startswith('"""'):
                yield a, b, "'XX'"
        elif isinstance(n, (ast.If, ast.While)):
            ta, tb = pos(n.test)
            yield ta, tb, '(%s and False)' % text(n.test)
            if isinstance(n, ast.If):
                yield ta, tb, '(%s or True)' % text(n.test)
        elif isinstance(n, ast.IfExp):
            yield a, b, '(%s)' % text(n.body)
            yield a, b, '(%s)' % text(n.orelse)
        elif isinstance(n, ast.comprehension):
            pass
        elif isinstance(n, (ast.Continue, ast.Break)):
            yield a, b, 'pass'
        elif isinstance(n, ast.Return) and n.value is not None:
            if not (isinstance(n.value, ast.Constant)):
                yield a, b, 'return None'
        elif isinstance(n, ast.Expr):
            yield a, b, 'pass'
        elif isinstance(n, ast.AugAssign):
            yield a, b, 'pass'
        elif isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name):
            yield a, b, 'pass'
        elif isinstance(n, ast.Slice):
            if n.lower is not None:
                yield a, b, src[pos(n.lower)[1]:b].decode('utf8')
            if n.upper is not None:
                yield a, b, src[a:pos(n.upper)[0]].decode('utf8')
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('lower', 'upper', 'strip', 'copy', 'capitalize', 'title', 'clone', 'replace', 'split', 'rstrip'):
                yield a, b, text(n.func.value)
            if isinstance(n.func, ast.Name) and n.func.id in ('sorted', 'list', 'set', 'tuple', 'frozenset', 'bool', 'str', 'reversed', 'with_progress', 'int') and n.args:
                yield a, b, text(n.args[0])
            for k, kw in enumerate(n.keywords):
                rest = [text(x) for x in n.args] + [src[pos(x)[0]:pos(x)[1]].decode('utf8') for j, x in enumerate(n.keywords) if j != k]
                yield a, b, '%s(%s)' % (text(n.func), ', '.join(rest))
        elif isinstance(n, ast.FunctionDef):
            for d in n.args.defaults:
                pass
    for n in ast.walk(tree):
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for g in n.generators:
                for t in g.ifs:
                    a, b = pos(t)
                    yield a, b, '(%s or True)' % text(t)


def sh(cmd, cwd, timeout, **env):
    cmd = ['bash', '-c', 'ulimit -v 8000000; exec "$@"', 'x'] + cmd
    p = subprocess.Popen(cmd, cwd=cwd, env=dict(ENV, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, ''


def apply(d, m):
    fn = os.path.join(d, 'pymorphy2', m['file'])
    src = open(os.path.join('/repo/pymorphy2', m['file']), 'rb').read()
    a, b = m['span']
    open(fn, 'wb').write(src[:a] + m['new'].encode('utf8') + src[b:])
    return fn, src


def survive(m):
    d = os.path.join(SCRATCH, 't%d' % os.getpid())
    if not os.path.exists(d):
        shutil.copytree('/repo', d, symlinks=True)
    fn, src = apply(d, m)
    try:
        try:
            compile(open(fn, 'rb').read(), fn, 'exec')
        except (SyntaxError, ValueError):
            return m, 'syntax'
        for env in ('venv-slow', 'venv'):
            rc, o = sh(['/opt/%s/bin/python' % env, '-m', 'pytest', '-x', '-q', '-p', 'no:cacheprovider', '--tb=no', '--timeout=60',
                        '--doctest-modules', 'pymorphy2', 'tests'], d, 150, PYTHONPATH=d)
            if rc:
                return m, 'killed'
        return m, 'survived'
    finally:
        open(fn, 'wb').write(src)


PARTS = {
    'analyzer.py': 'C08 C20 C21 C18 C06 C03 C19 C05 C31 C25 C02 C01 C29 C10 C24',
    'cache.py': 'C18 C29 C22 C23', 'cli.py': 'C29 C24', 'dawg.py': 'C30 C23 C24 C26 C02 C31 C03', 'shapes.py': 'C28 C13 C18 C04',
    'tagset.py': 'C15 C16 C17 C09 C08 C25 C20 C18 C22 C19', 'tokenizers.py': 'C27 C29', 'utils.py': 'C29 C24 C22 C23 C10 C12 C02 C08 C04 C28 C25 C01',
    'opencorpora_dict/compile.py': 'C22 C23 C24 C32 C31', 'opencorpora_dict/parse.py': 'C22 C32 C23 C24',
    'opencorpora_dict/preprocess.py': 'C32 C22 C23 C33', 'opencorpora_dict/probability.py': 'C26 C24',
    'opencorpora_dict/storage.py': 'C24 C25 C22 C23', 'opencorpora_dict/wrapper.py': 'C01 C02 C31 C22 C19 C25',
    'units/abbreviations.py': 'C14 C20 C05 C18 C07 C03', 'units/base.py': 'C20 C21 C05 C03 C12', 'units/by_analogy.py': 'C10 C11 C05 C06 C07 C20 C03',
    'units/by_hyphen.py': 'C12 C05 C07 C20 C03', 'units/by_lookup.py': 'C02 C01 C05 C07 C20', 'units/by_shape.py': 'C13 C05 C20 C04 C07',
    'units/unkn.py': 'C04 C05 C20 C07', 'units/utils.py': 'C07 C10 C12 C11 C05 C03', 'lang/ru/config.py': 'C03 C10 C11 C12 C14 C04 C05 C02 C20', 'lang/uk/config.py': 'C20 C02 C10 C12 C05 C21',
}


def main():
    if sys.argv[1] == 'survivors':
        ms = []
        for f in sys.argv[3:] or FILES:
            src = open('/repo/pymorphy2/' + f, 'rb').read()
            seen = set()
            for a, b, new in mutants(src):
                if (a, b, new) in seen or src[a:b].decode('utf8') == new or b'remove(' in src[a:b]:
                    continue
                seen.add((a, b, new))
                ms.append({'file': f, 'span': [a, b], 'new': new, 'line': src[:a].count(b'\n') + 1, 'old': src[a:b].decode('utf8')[:200]})
        print(len(ms), flush=True)
        n = {}
        with multiprocessing.Pool(int(os.environ.get('JOBS', 8))) as pool, open(sys.argv[2], 'w') as out:
            for m, r in pool.imap_unordered(survive, ms):
                n[r] = n.get(r, 0) + 1
                if r == 'survived':
                    out.write(json.dumps(m, ensure_ascii=False) + '\n')
                    out.flush()
        print(n)
    else:
        done = set()
        if os.path.exists(sys.argv[3]):
            done = set(json.dumps(json.loads(l)['m'], sort_keys=True) for l in open(sys.argv[3]))
        d = os.path.join(SCRATCH, 'check')
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree('/repo', d, symlinks=True)
        with open(sys.argv[3], 'a') as out:
            for l in open(sys.argv[2]):
                m = json.loads(l)
                if json.dumps(m, sort_keys=True) in done:
                    continue
                fn, src = apply(d, m)
                res = None
                for p in PARTS[m['file']].split():
                    rc, o = sh([os.path.join(HERE, 'run'), p], HERE, 1000, VERIF_REPO=d, VERIF_TIER='quick')
                    if rc == 1 and 'VIOLATION property=%s ' % p in o:
                        res = p
                        break
                    if rc:
                        res = '%s rc=%d %s' % (p, rc, o[-300:])
                        break
                open(fn, 'wb').write(src)
                out.write(json.dumps({'m': m, 'res': res}, ensure_ascii=False) + '\n')
                out.flush()


if __name__ == '__main__':
    main()
