# -*- coding: utf-8 -*-
"""
Synthetic OpenCorpora dictionaries: XML writer and compilation with the real code.

A dictionary spec is
    lexemes: [(id, base_grammemes, [(form, grammemes), ...]) ...]   (grammemes: 'NOUN,anim')
    links:   [(from_id, to_id, type)]
"""
import contextlib
import json
import logging
import os
import shutil
import tempfile
import warnings
from xml.sax.saxutils import quoteattr, escape

logging.disable(logging.CRITICAL)

GRAMMEMES = [
    ('POST', '', 'ЧР'), ('NOUN', 'POST', 'СУЩ'), ('ADJF', 'POST', 'ПРИЛ'), ('ADJS', 'POST', 'КР_ПРИЛ'),
    ('COMP', 'POST', 'КОМП'), ('VERB', 'POST', 'ГЛ'), ('INFN', 'POST', 'ИНФ'), ('PRTF', 'POST', 'ПРИЧ'),
    ('PREP', 'POST', 'ПР'), ('NPRO', 'POST', 'МС'), ('ADVB', 'POST', 'Н'), ('CONJ', 'POST', 'СОЮЗ'),
    ('ANim', '', 'Од-неод'), ('anim', 'ANim', 'од'), ('inan', 'ANim', 'неод'),
    ('GNdr', '', 'хр'), ('masc', 'GNdr', 'мр'), ('femn', 'GNdr', 'жр'), ('neut', 'GNdr', 'ср'),
    ('NMbr', '', 'Число'), ('sing', 'NMbr', 'ед'), ('plur', 'NMbr', 'мн'),
    ('Sgtm', '', 'sg'), ('Fixd', '', '0'),
    ('CAse', '', 'Падеж'), ('nomn', 'CAse', 'им'), ('gent', 'CAse', 'рд'), ('datv', 'CAse', 'дт'),
    ('accs', 'CAse', 'вн'), ('ablt', 'CAse', 'тв'), ('loct', 'CAse', 'пр'),
    ('voct', 'nomn', 'зв'), ('gen1', 'gent', 'рд1'), ('gen2', 'gent', 'рд2'), ('acc2', 'accs', 'вн2'),
    ('loc1', 'loct', 'пр1'), ('loc2', 'loct', 'пр2'),
    ('Abbr', '', 'аббр'), ('Name', '', 'имя'), ('Patr', '', 'отч'), ('Qual', '', 'кач'), ('Apro', '', 'мест-п'),
    ('Infr', '', 'разг'), ('Erro', '', 'опеч'), ('Init', '', 'иниц'), ('Cmp2', '', 'сравн2'),
]


def xml(lexemes, links=(), grammemes=GRAMMEMES, version='0.92', revision='1', encoding='utf-8'):
    out = ['<?xml version="1.0" encoding="%s" standalone="yes"?>' % encoding,
           '<dictionary version="%s" revision="%s">' % (version, revision), '<grammemes>']
    for g in grammemes:
        name, parent, alias = g[:3]
        out.append('<grammeme parent=%s><name>%s</name><alias>%s</alias><description>%s</description></grammeme>'
                   % (quoteattr(parent), escape(name), escape(alias), escape(g[3] if len(g) > 3 else name)))
    out.append('</grammemes>')
    out.append('<restrictions><restr type="maybe" auto="0"><left type="lemma">NOUN</left>'
               '<right type="form"></right></restr></restrictions>')
    out.append('<lemmata>')

    def gs(s):
        return ''.join('<g v=%s/>' % quoteattr(g) for g in s.split(',') if g)
    for lid, base, forms in lexemes:
        if forms is None:
            out.append('<lemma id="%s" rev="%s"></lemma>' % (lid, lid))
            continue
        out.append('<lemma id="%s" rev="%s"><l t=%s>%s</l>' % (lid, lid, quoteattr(forms[0][0]), gs(base)))
        for form, g in forms:
            out.append('<f t=%s>%s</f>' % (quoteattr(form), gs(g)))
        out.append('</lemma>')
    out.append('</lemmata>')
    out.append('<link_types><type id="1">ADJF-ADJS</type></link_types>')
    out.append('<links>')
    for i, (a, b, t) in enumerate(links):
        out.append('<link id="%d" from="%s" to="%s" type="%s"/>' % (i + 1, a, b, t))
    out.append('</links></dictionary>')
    return '\n'.join(out)


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='verif-scratch-')
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def compile_spec(dirname, lexemes, links=(), lang='ru', options=None, grammemes=GRAMMEMES, name='dict', overwrite=False,
                 prefixes=None):
    """ compile with the real code (needs the fast environment); returns the dictionary path """
    from pymorphy2 import opencorpora_dict
    import refcfg
    src = os.path.join(dirname, name + '.xml')
    with open(src, 'w', encoding='utf8') as f:
        f.write(xml(lexemes, links, grammemes))
    out = os.path.join(dirname, name)
    opts = {'paradigm_prefixes': prefixes if prefixes is not None else list(refcfg.LANG[lang]['paradigm_prefixes'])}
    opts.update(options or {})
    opencorpora_dict.convert_to_pymorphy2(src, out, source_name='toy', language_code=lang,
                                          overwrite=overwrite, compile_options=opts)
    return out


def analyzer(path, **kw):
    import pymorphy2
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return pymorphy2.MorphAnalyzer(path=path, **kw)


def noun(lid, stem, forms, base='NOUN,inan,masc'):
    """ forms: [(suffix, grammemes)] """
    return (lid, base, [(stem + s, g) for s, g in forms])


def add_probs(path, probs):
    """ attach P(t|w) to a compiled dictionary: {(word, tag): probability} """
    from pymorphy2.dawg import ConditionalProbDistDAWG
    ConditionalProbDistDAWG(sorted(probs.items())).save(os.path.join(path, 'p_t_given_w.intdawg'))
    fn = os.path.join(path, 'meta.json')
    with open(fn, encoding='utf8') as f:
        meta = json.load(f)
    if isinstance(meta, dict):
        meta['P(t|w)'] = True
    else:
        meta.append(['P(t|w)', True])
    with open(fn, 'w', encoding='utf8') as f:
        json.dump(meta, f, ensure_ascii=False)
