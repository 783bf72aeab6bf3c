# -*- coding: utf-8 -*-
""" Runs one saving action in a process of its own (traced by crash.py). """
import json
import logging
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'stubs'))
sys.dont_write_bytecode = True
import warnings
warnings.simplefilter('ignore')
REPO = os.environ.get('VERIF_REPO', '/repo')
if REPO != '/repo':
    sys.path.insert(0, REPO)
logging.disable(logging.CRITICAL)


def act(a):
    if a['do'] == 'compile':
        from pymorphy2 import opencorpora_dict
        opencorpora_dict.convert_to_pymorphy2(a['src'], a['out'], source_name=a['source'], language_code=a['lang'],
                                              overwrite=a['overwrite'], compile_options=a['options'])
    elif a['do'] == 'probs':
        from pymorphy2.opencorpora_dict.probability import add_conditional_tag_probability
        add_conditional_tag_probability(a['corpus'], a['out'], a['freq'])
    else:
        raise ValueError(a)


if __name__ == '__main__':
    act(json.loads(sys.argv[1]))
