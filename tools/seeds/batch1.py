# -*- coding: utf-8 -*-
M = 'm = pymorphy2.MorphAnalyzer()\n'
LOOK, ANAL, HYPH, SHAPE, ABBR = 'units/by_lookup.py', 'units/by_analogy.py', 'units/by_hyphen.py', 'units/by_shape.py', 'units/abbreviations.py'
COMP, PREP, PARS, STOR, PROB, WRAP = ['opencorpora_dict/%s.py' % x for x in ('compile', 'preprocess', 'parse', 'storage', 'probability', 'wrapper')]

SEEDS = [
dict(id='c01-dedup', prop='C01', edits=[(LOOK, '''                method = ((self, fixed_word, para_id, idx),)
                res.append((fixed_word, tag, normal_form, 1.0, method))
''', '''                if (fixed_word, tag, normal_form) in seen_parses:
                    continue  # a homonym, e.g. from another lexeme
                seen_parses.add((fixed_word, tag, normal_form))
                method = ((self, fixed_word, para_id, idx),)
                res.append((fixed_word, tag, normal_form, 1.0, method))
''')], needs='a word with two dictionary entries which agree in form, tag and normal form but inflect differently',
     breaks='homonymous entries are dropped from the parses of dictionary words',
     demo=M + '''
for w in ['высоконапряжен', 'высоконапряженной']:
    ents = sorted((p.methods_stack[0][2:]) for p in m.iter_known_word_parses(w) if p.word == w)
    assert len(ents) > 1
    got = sorted(p.methods_stack[0][2:] for p in m.parse(w) if p.word == w)
    assert got == ents, (w, got, ents)
'''),
dict(id='c03-skipprefix', prop='C03', edits=[(HYPH, 'if not self._should_parse(word_lower):', 'if not self._should_parse(word):')],
     needs='a capitalised word with one hyphen starting with a known prefix', breaks='capitalised words are analysed as two-part compounds, lower-case ones as prefix + word',
     demo=M + '''
for w in ['экс-кошка', 'вице-кошка', 'квази-дом']:
    f = lambda x: sorted((p.word, str(p.tag), p.normal_form, round(p.score, 6)) for p in m.parse(x))
    assert f(w) == f(w.upper()) == f(w.title()), w
'''),
dict(id='c04-unkcompound', prop='C04', edits=[(HYPH, '''            if left_tag._is_unknown():
                continue

            left_feat''', '''            left_feat''')],
     needs='a hyphenated word whose both parts are not recognised or not words', breaks='UNKN is reported together with other readings',
     demo=M + '''
for w in ['ъ-ъ', 'ъ-ъъ', 'ъъ-1', '§-ъ', 'дом-ъ']:
    ps = m.parse(w)
    if any('UNKN' in p.tag for p in ps):
        assert len(ps) == 1 and ps[0].normal_form == w and type(ps[0].methods_stack[0][0]).__name__ == 'UnknAnalyzer', ps
'''),
dict(id='c05-prefixbreak', prop='C05', edits=[(ANAL, '''                found = False

                for fixed_suffix, parses in para_data:
                    for cnt''', '''                found = bool(result) and not prefix

                for fixed_suffix, parses in para_data:
                    for cnt''')],
     needs='an unknown word with a paradigm prefix (по-, наи-) whose endings are known with and without the prefix',
     breaks='tag() stops looking for shorter endings', demo=M + '''
bad = []
for stem in ['ъщка', 'кузявл', 'бутявк', 'хрюмз', 'ъщш']:
    for e in ['ее', 'ей', 'ше', 'ший', 'шего', 'ого', 'ому', 'ать', 'ить']:
        for pr in ['по', 'наи']:
            w = pr + stem + e
            if set(m.tag(w)) != set(p.tag for p in m.parse(w)):
                bad.append(w)
assert not bad, bad
'''),
dict(id='c06-partial', prop='C06', edits=[('analyzer.py', 'if sum(probs) == 0:', 'if not all(probs):')],
     needs='a word with recorded probabilities for only some of its tags', breaks='recorded probabilities are ignored',
     demo=M + '''
n = 0
for w in 'ВИКОСУАЯ':
    rec = sorted((m.prob_estimator.p_t_given_w.prob(w.lower(), p.tag) for p in m.parse(w)), reverse=True)
    if sum(rec):
        n += 1
        assert [p.score for p in m.parse(w)] == rec, (w, rec)
assert n
'''),
dict(id='c07-samenorm', prop='C07', edits=[(LOOK, '''        if idx == 0:
            return form
''', '''        if normal_form == original_word:
            return form
''')], needs='normalising a form which is spelled like the normal form but is another case', breaks='the normalised parse keeps its own tag',
     demo=M + '''
for w in ['стол', 'ночь', 'поле', 'красивый']:
    for p in m.parse(w):
        assert p.normalized.tag == p.lexeme[0].tag, (p, p.normalized)
'''),
dict(id='c12-tenses', prop='C12', edits=[(HYPH, 'Tag.CASES | Tag.PERSONS | Tag.TENSES)', 'Tag.CASES | Tag.PERSONS)')],
     needs='a compound of two verbs in different tenses without person', breaks='verbs of different tense are paired as compounds', demo=M + '''
for a, b in [('читая', 'прочитав'), ('идущий', 'шедший'), ('читая', 'сказав'), ('делающий', 'сделавший')]:
    for p in m.parse(a + '-' + b):
        st = p.methods_stack[0]
        assert isinstance(st[1], str) , p
'''),
dict(id='c13-roman', prop='C13', edits=[('shapes.py', 'M{0,4}              # thousands - 0 to 4', 'M{0,3}              # thousands - 0 to 3')],
     needs='Roman numbers from 4000', breaks='MMMM... is not recognised as a Roman number', demo=M + '''
assert any('ROMN' in t for t in m.tag('MMMMCMXCIX'))
assert any('ROMN' in t for t in m.tag('mmmm'))
'''),
dict(id='c13-latin', prop='C13', edits=[('shapes.py', 'all(is_latin_char(ch) for ch in token if ch.isalpha())', 'all(is_latin_char(ch) for ch in token if ch.isalpha() and ord(ch) < 0x600)')],
     needs='a token mixing Latin with letters beyond U+0600 (Greek extended, CJK, ...)', breaks='tokens with other letters are tagged as Latin', demo=M + '''
for w in ['aא', 'a漢', 'aא', 'fooგ', 'aᾳ', 'xあ']:
    assert not any('LATN' in t for t in m.tag(w)), w
'''),
dict(id='c15-eq', prop='C15', edits=[('tagset.py', '''    def __eq__(self, other):
        return self._grammemes_tuple == other._grammemes_tuple
''', '''    def __eq__(self, other):
        return self.grammemes == other.grammemes
''')], needs='two tags with the same grammemes in different order', breaks='equal tags have different hashes and != says otherwise', demo=M + '''
T = m.TagClass
a, b = T('NOUN,anim,masc sing,nomn'), T('NOUN,masc,anim sing,nomn')
assert a != b and not (a == b)
assert len({a, b}) == 2
'''),
dict(id='c16-iter', prop='C16', edits=[('tagset.py', 'new_grammemes = self.grammemes | required\n', 'new_grammemes = set(self.grammemes)\n        new_grammemes |= required if len(required) < 4 else frozenset(list(required)[:4])\n')],
     needs='a request with five or more grammemes', breaks='required grammemes are lost', demo=M + '''
t = m.parse('красивый')[0].tag
req = {'ADJF', 'plur', 'gent', 'Qual', 'Supr'}
assert req - {'Supr'} <= t.updated_grammemes(req), t.updated_grammemes(req)
req = {'VERB', 'sing', 'masc', 'past', 'indc', 'impf'}
assert req <= t.updated_grammemes(req), t.updated_grammemes(req)
'''),
dict(id='c17-real', prop='C17', edits=[(SHAPE, "EXTRA_GRAMMEMES_CYR = ['ЧИСЛО', 'цел', 'вещ']", "EXTRA_GRAMMEMES_CYR = ['ЧИСЛ', 'цел', 'вещ']")],
     needs='translating number tags or NUMR back from Cyrillic', breaks='NUMB and NUMR share a Cyrillic name', demo=M + '''
for w in ['12', '1.5', 'тридцать']:
    t = m.parse(w)[0].tag
    assert m.cyr2lat(t.cyr_repr) == str(t), t.cyr_repr
'''),

]
SEEDS = [s for s in SEEDS if s['demo'] != 'pass']
