# -*- coding: utf-8 -*-
""" Writes DESIGN.md from tools/design_head.md, properties.jsonl, the checks' docstrings and tools/catches.json. """
import json
import os

from gen_manifest import HERE, consts

COST = {}


def main():
    j = os.path.join
    head = open(j(HERE, 'tools', 'design_head.md'), encoding='utf8').read()
    known = json.load(open(j(HERE, 'known-findings.json'), encoding='utf8'))
    head = head.replace('FIXED_LIST', '\n'.join('* ' + f.replace('fixed: property=', '') for f in known['fixed']))
    costs = json.load(open(j(HERE, 'tools', 'costs.json'), encoding='utf8'))
    out = [head, '## 4. Properties\n']
    for line in open(j(HERE, 'properties.jsonl'), encoding='utf8'):
        p = json.loads(line)
        c = consts(j(HERE, 'checks', p['id'].lower() + '.py'))
        doc = c['__doc__'].split('\n')
        out.append('### %s  %s\n' % (p['id'], p['title']))
        out.append('*Claim.* %s\n' % p['statement'])
        out.append('*Decided by* %s (level: %s).\n' % (
            c.get('TECHNIQUE', 'exhaustive enumeration of a bounded input space on the real code against the reference model'), c['LEVEL']))
        out.append('```\n%s\n```\n' % '\n'.join(doc[1:]).strip())
        if c.get('assumptions'):
            out.append('*Assumes* %s.\n' % '; '.join(c['assumptions']))
        out.append('*Why tests cannot settle it:* %s.\n' % p['why_tests_cant'])
        if p['id'] in costs:
            out.append('*Quick run:* %s.\n' % costs[p['id']])
    cp = j(HERE, 'tools', 'catches.json')
    out.append('## 5. Seeded changes and what catches them\n')
    if os.path.exists(cp):
        cs = json.load(open(cp, encoding='utf8'))
        out.append('Each is in `seeded/<id>/` (patch, demonstration, needs).  "Caught by" was measured by applying the patch and running the quick checks.\n')
        out.append('| change | property | what it breaks | needs | caught by |\n|---|---|---|---|---|')
        for d in sorted(os.listdir(j(HERE, 'seeded'))):
            m = json.load(open(j(HERE, 'seeded', d, 'meta.json'), encoding='utf8'))
            e = lambda s: s.replace('|', '\\|').replace('\n', ' ')
            out.append('| %s | %s | %s | %s | %s |' % (d, m['property'], e(m['what_it_breaks']), e(m['needs']), cs.get(d, 'not run')))
    with open(j(HERE, 'DESIGN.md'), 'w', encoding='utf8') as f:
        f.write('\n'.join(out) + '\n')


if __name__ == '__main__':
    main()
