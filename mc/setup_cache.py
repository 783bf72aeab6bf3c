# -*- coding: utf-8 -*-
"""
Decodes the installed dictionary once into /verif/cache (the dictionary is data,
not code under test):

  words.txt    every distinct word, in automaton order
  reps.json    for every (paradigm, form) pair the first word having it
"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
CACHE = os.path.join(os.path.dirname(HERE), 'cache')


def dict_path():
    import pymorphy2_dicts_ru
    return pymorphy2_dicts_ru.get_path()


def build():
    from dawg_python import RecordDAWG
    path = dict_path()
    words = RecordDAWG('>HH').load(os.path.join(path, 'words.dawg'))
    uniq = []
    reps = {}
    last = None
    n = 0
    for w, (para, idx) in words.iteritems():
        n += 1
        if w != last:
            uniq.append(w)
            last = w
        key = para * 65536 + idx
        if key not in reps:
            reps[key] = w
    rep_list = [[k >> 16, k & 0xffff, w] for k, w in sorted(reps.items())]
    os.makedirs(CACHE, exist_ok=True)
    for name, data in [('words.txt', '\n'.join(uniq)), ('reps.json', json.dumps(rep_list, ensure_ascii=False)),
                       ('count.txt', str(n))]:
        tmp = os.path.join(CACHE, '%s.%d.tmp' % (name, os.getpid()))
        with open(tmp, 'w', encoding='utf8') as f:
            f.write(data)
        os.replace(tmp, os.path.join(CACHE, name))


def ensure():
    if not all(os.path.exists(os.path.join(CACHE, n)) for n in ('words.txt', 'reps.json', 'count.txt')):
        build()


def words():
    ensure()
    with open(os.path.join(CACHE, 'words.txt'), encoding='utf8') as f:
        return f.read().split('\n')


def reps():
    ensure()
    with open(os.path.join(CACHE, 'reps.json'), encoding='utf8') as f:
        return [tuple(x) for x in json.load(f)]


def entry_count():
    ensure()
    with open(os.path.join(CACHE, 'count.txt')) as f:
        return int(f.read())


if __name__ == '__main__':
    build()
    print(len(words()), len(reps()), entry_count())
