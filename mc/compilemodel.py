# -*- coding: utf-8 -*-
"""
What a dictionary compiled from an XML specification must contain.

Written from the documentation of the compiler; used as the oracle of C22, C23,
C24 and C32.  A specification is (lexemes, links) as in toydict.
"""
EXCLUDED = frozenset(['7', '21', '23', '27'])
OLD = {'gen1': 'gent', 'loc1': 'loct', 'acc1': 'accs'}


def tag_of(base, grammemes):
    return (base + ' ' + grammemes).strip()


def modern(tag):
    res = []
    for part in tag.split(' '):
        res.append(','.join(OLD.get(g, g) for g in part.split(',')))
    return ' '.join(res)


def split(tag):
    return tag.replace(' ', ',', 1).split(',')


def raw_lexemes(lexemes):
    """ {id: [(form, tag)]}: without deleted lexemes and lexemes without information """
    res = {}
    for lid, base, forms in lexemes:
        rows = []
        for f, g in forms or ():
            if not (base + g):
                rows = []
                break
            rows.append((f.lower(), modern(tag_of(base, g))))
        res[lid] = rows
    return res


def spelling_groups(raw):
    """ {grammeme set: {spelling: count}} """
    groups = {}
    for lid in raw:
        for f, t in raw[lid]:
            g = groups.setdefault(frozenset(split(t)), {})
            g[t] = g.get(t, 0) + 1
    return groups


def spelling_choices(groups):
    """
    {grammeme set: (mode, candidates)}
    mode 'merge': all become one of the candidates (the most frequent spelling);
    'keep': all are left alone; 'any': each becomes one of them, and those with the
    same division between lexeme and form (which differ in order) become the same one
    """
    res = {}
    for gs, sp in groups.items():
        pos = [t.find(' ') for t in sp]
        if len(sp) == 1 or len(set(pos)) == len(pos):
            res[gs] = ('keep', set(sp))
        elif len(set(pos)) == 1:
            top = max(sp.values())
            res[gs] = ('merge', set(t for t in sp if sp[t] == top))
        else:
            res[gs] = ('any', set(sp))
    return res


def is_forest(links):
    """ every lexeme has at most one parent and there are no cycles (self links and repetitions aside) """
    parent = {}
    for a, b, t in links:
        if t in EXCLUDED or a == b:
            continue
        if parent.get(b, a) != a:
            return False
        parent[b] = a
    for x in parent:
        seen = set()
        while x in parent:
            if x in seen:
                return False
            seen.add(x)
            x = parent[x]
    return True


def components(ids, links):
    """ sets of lexemes connected by non-excluded links """
    comp = dict((i, set([i])) for i in ids)
    for a, b, t in links:
        if t in EXCLUDED or comp[a] is comp[b]:
            continue
        m = comp[a] | comp[b]
        for x in m:
            comp[x] = m
    res = []
    for i in sorted(ids):
        if comp[i] not in res:
            res.append(comp[i])
    return res


def root(comp, links):
    kids = set(b for a, b, t in links if t not in EXCLUDED and a != b)
    return [i for i in comp if i not in kids]


def joined(lexemes, links):
    """
    -> [(ids, root id or None, [(form, tag)] of all lexemes of the component)]; Init forms are left out
    """
    raw = raw_lexemes(lexemes)
    rows = dict((i, [(f, t) for f, t in raw[i] if 'Init' not in split(t)]) for i in raw)
    res = []
    by_id = {}
    for l in links:
        by_id.setdefault(l[0], []).append(l)
    for comp in components(rows, links):
        mine = [l for i in comp for l in by_id.get(i, ()) if l[1] in comp]
        r = root(comp, mine)
        res.append((comp, r[0] if is_forest(mine) and len(r) == 1 else None, [(i, rows[i]) for i in sorted(comp)]))
    return res
