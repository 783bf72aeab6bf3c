# -*- coding: utf-8 -*-
""" answers a battery of questions about the installed dictionary (run by checks/c33.py under different hash seeds) """
import main  # noqa: paths for CPython
import json
import sys

import c33


def run():
    import pymorphy2
    m = pymorphy2.MorphAnalyzer()
    for w in c33.MAIN_WORDS + c33.TOY_WORDS:
        for name, q in c33.questions():
            print(json.dumps([w, name, q(m, w)], ensure_ascii=False))
    print(json.dumps(c33.tokens(), ensure_ascii=False))
    for name, a in c33.PROGRAMS:
        print(json.dumps([name, c33.cli(a, c33.TEXT)()], ensure_ascii=False))


run()
sys.stdout.flush()
