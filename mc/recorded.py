# -*- coding: utf-8 -*-
"""
A dictionary whose words have every pattern of recorded probabilities: each entry
of a word gets each of VALUES (None: nothing is recorded), for words with one,
two and three entries, with entries that share a tag, with a ё, and words
outside the dictionary.
"""
import itertools
import json
import os
import subprocess

import core
import toydict

VALUES = [None, 0.0, 0.000001, 0.25, 0.5, 1.0]
TAGS = ['NOUN,inan,masc sing,nomn', 'VERB sing', 'CONJ', 'NOUN,inan,femn sing,nomn']
LETTERS = 'бвгдзклмнпрст'


def patterns():
    """ [(kind, values)] """
    for kind, size in (('one', 1), ('two', 2), ('three', 3), ('shared', 2), ('yo', 2), ('prefix', 2), ('tail', 2)):
        for vs in itertools.product(VALUES, repeat=size):
            yield kind, vs


def build(dirname):
    """ -> (path, [(token, known)]) """
    lexemes, probs, tokens = [], {}, []
    for k, (kind, vs) in enumerate(patterns()):
        w = 'ш' + ''.join(LETTERS[k // 13 ** e % 13] + 'аоу'[e] for e in range(3)) + 'щ'
        if kind == 'yo':
            w = w.replace('а', 'ё')
        tags = [TAGS[j % 4] for j in range(k, k + len(vs))] if kind not in ('prefix', 'tail') else [TAGS[0], TAGS[3]]
        for j, t in enumerate(tags):
            base, _, form = t.partition(' ')
            lexemes.append((len(lexemes) + 1, base, [(w, form)]))
        if kind == 'shared':
            # the first tag once more, in a lexeme with further forms
            t = tags[0]
            base, _, form = t.partition(' ')
            lexemes.append((len(lexemes) + 1, base, [(w, form), (w + 'ы', 'plur')]))
        tok = {'yo': w.replace('ё', 'е'), 'prefix': 'авто' + w, 'tail': 'зю' + w}.get(kind, w)
        for t, v in zip(tags, vs):
            if v is not None:
                probs[(tok, t)] = v
        known = kind not in ('prefix', 'tail')
        tokens.append((tok, known))
        tokens.append((tok.title(), known))
        if tok != w:
            tokens.append((w, True))
        tokens.append((tok + '-то', False))
    path = toydict.compile_spec(dirname, lexemes, options=dict(min_ending_freq=1, min_paradigm_popularity=1))
    toydict.add_probs(path, probs)
    return path, tokens


def elsewhere(module, arg):
    """ replay: run_pattern of a check with the interpreter which can compile """
    code = ('import sys; sys.path[:0]=%r; import json, core, %s as c; print("\\n"+json.dumps(list(c.run_pattern(core.Acc(), json.loads(sys.argv[1])))))'
            % ([core.REPO, os.path.join(core.VERIF, 'mc'), os.path.join(core.VERIF, 'checks')], module))
    out = subprocess.check_output(['/opt/venv/bin/python', '-B', '-c', code, json.dumps(arg)], stderr=subprocess.DEVNULL)
    return json.loads(out.decode('utf8').strip().splitlines()[-1])
