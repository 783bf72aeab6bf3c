# -*- coding: utf-8 -*-
"""
Stand-in for opencorpora-tools (not installed here): the part of CorpusReader used by
the probability estimation.  The corpus file is JSON: [[word, [[lemma, tag], ...]], ...]
"""
import json


class CorpusReader(object):

    def __init__(self, filename):
        self.filename = filename

    def iter_parsed_words(self):
        with open(self.filename, encoding='utf8') as f:
            for word, parses in json.load(f):
                yield word, [tuple(p) for p in parses]
