# -*- coding: utf-8 -*-
""" Writes MANIFEST.json: a property is claimed when checks/<id>.py exists. """
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def consts(path):
    res = {}
    with open(path, encoding='utf8') as f:
        tree = ast.parse(f.read())
    res['__doc__'] = ast.get_docstring(tree)
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                res[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return res


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'), encoding='utf8')]
    checks, na = [], []
    for p in props:
        path = os.path.join(HERE, 'checks', p['id'].lower() + '.py')
        if not os.path.exists(path):
            na.append({'property': p['id'], 'reason': 'check not built yet'})
            continue
        c = consts(path)
        note = ' '.join(c['__doc__'].split())
        a = c.get('assumptions') or []
        if a:
            note += ' Assumes: ' + '; '.join(a) + '.'
        checks.append({
            'property': p['id'],
            'quick_cmd': './run %s' % p['id'],
            'thorough_cmd': 'VERIF_TIER=thorough ./run %s' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': c.get('TECHNIQUE', 'exhaustive enumeration of a bounded input space on the real code, '
                                            'each state checked against an independent reference model'),
            'level': c['LEVEL'],
            'level_note': note,
        })
    man = {
        'version': 1,
        'setup_cmd': './tools/setup.sh',
        'checks': checks,
        'not_applicable': na,
        'notes': 'No hooks are compiled into /repo. Checks import /repo directly. See DESIGN.md.',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf8') as f:
        json.dump(man, f, ensure_ascii=False, indent=1)
        f.write('\n')
    print(len(checks), 'claimed;', len(na), 'not')


if __name__ == '__main__':
    main()
