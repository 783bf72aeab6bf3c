# -*- coding: utf-8 -*-
""" Writes costs.json from the last evidence files (run after a quick pass). """
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for f in sorted(glob.glob(os.path.join(HERE, 'evidence', 'C*.json'))):
    e = json.load(open(f, encoding='utf8'))
    if e['tier'] != 'quick':
        continue
    c = e['coverage']
    n = c.get('states') or c.get('crash_points') or c.get('faults_injected') or 0
    res[e['property']] = '%s states, %s transitions, about %d s on 8 cores' % (
        format(n, ','), format(c.get('transitions', 0), ','), round(sum(s.get('wall_s', 0) for s in c.get('spaces', []))))
json.dump(res, open(os.path.join(HERE, 'tools', 'costs.json'), 'w', encoding='utf8'), indent=1, sort_keys=True)
