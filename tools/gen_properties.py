# -*- coding: utf-8 -*-
""" Writes properties.jsonl (kept as a table here because JSON lines are hard to edit). """
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=['pymorphy2/' + f for f in files],
                          mechanism=[dict(name=n, where='pymorphy2/' + w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b, where='pymorphy2/' + c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)


A, T = 'analyzer.py', 'tagset.py'
LOOK, ANAL, SHAPE, HYPH, ABBR, UNKN = ['units/by_lookup.py', 'units/by_analogy.py', 'units/by_shape.py',
                                       'units/by_hyphen.py', 'units/abbreviations.py', 'units/unkn.py']
WRAP, STOR, COMP, PARS, PREP, PROB = ['opencorpora_dict/%s.py' % x for x in
                                      ('wrapper', 'storage', 'compile', 'parse', 'preprocess', 'probability')]

prop('C01', 'Dictionary words get exactly the parses the dictionary records',
     'For every word of the loaded dictionary, parsing returns exactly one parse per dictionary entry of that word '
     '(and of the words it may be a respelling of), none missing, none invented. Each parse carries the tag of that '
     'entry and the first form of the entry\'s lexeme as normal form, and is reported as a known word. '
     'Prediction heuristics for unknown words never run for such a word.',
     ['inputs'], 'all 3,039,464 distinct words (5,097,793 entries) of the installed dictionary, and every word of '
     'small generated dictionaries with all prefix/suffix/empty-stem paradigm shapes',
     'tests look at about a hundred words; the claim is about every (paradigm, form) pair of the dictionary',
     [A, LOOK, WRAP, STOR, 'dawg.py'],
     [('dictionary lookup is the first unit and is terminal', LOOK), ('paradigm decoding', WRAP)],
     ['MorphAnalyzer.parse', 'MorphAnalyzer.normal_forms', 'Parse.is_known', 'MorphAnalyzer.tag'])

prop('C02', 'е typed for ё (г for ґ) finds the word; ё never stands for е',
     'A word spelled with the plain letter (е in Russian, г in Ukrainian) is analysed as every dictionary word obtained '
     'by restoring any subset of its plain letters to the special letter, and only as those; reported words carry the '
     'restored spelling. A special letter that was typed is never read as the plain one. The same holds for the endings '
     'used in prediction, and strict lookups do no restoring at all.',
     ['inputs', 'configurations'],
     'every е/ё respelling of every dictionary word containing either letter, in both directions; all subsets of '
     'positions; substitution tables None, default and custom',
     'tests check a handful of ё words; combinations of several ё, wrong ё and predicted endings are not sampled',
     [A, LOOK, ANAL, WRAP, 'lang/ru/config.py', 'lang/uk/config.py'],
     [('compiled char substitutes passed to every lookup', A)],
     ['MorphAnalyzer.parse', 'MorphAnalyzer.tag', 'MorphAnalyzer.word_is_known', 'Parse.is_known'])

prop('C03', 'Letter case of the input does not matter',
     'Analysing a word, asking for its tags or normal forms, or asking whether it is known gives the same answer for '
     'every capitalisation of it, and reported words and normal forms are lower-case. The only exception are '
     'single-letter initials, which are recognised only when written as capital letters.',
     ['inputs'], 'all dictionary words in upper, title and alternating case; predicted, prefixed and hyphenated words; '
     'Latin and Roman tokens; all letter-case patterns of short words',
     'tests contain a few capitalised words and none of the prediction strategies in capitals',
     [A, ANAL, HYPH, SHAPE, ABBR], [('every unit works on the lower-cased word', A)],
     ['MorphAnalyzer.parse', 'MorphAnalyzer.tag', 'MorphAnalyzer.word_is_known', 'MorphAnalyzer.normal_forms'])

prop('C04', 'Every string can be analysed, and UNKN appears only as a last resort',
     'For every well-formed Unicode string parsing and tagging terminate without an exception and return at least one '
     'result. A result tagged as unknown is returned only if no other strategy applies, and then it is the only result '
     'and its normal form is the lower-cased input. Any returned parse can be normalised and has a lexeme.',
     ['inputs', 'configurations'], 'every Unicode code point alone and inside words; all strings up to length 5 over an '
     'alphabet mixing Cyrillic, Latin, digits, hyphens, punctuation, whitespace and control characters',
     'tests feed ordinary words; robustness for arbitrary tokens quantifies over all strings',
     [A, UNKN, SHAPE, HYPH, ANAL, 'shapes.py'],
     [('UnknAnalyzer is the last unit', UNKN), ('units are tried until a terminal one gives results', A)],
     ['MorphAnalyzer.parse', 'MorphAnalyzer.tag', 'Parse.lexeme', 'Parse.normalized'])

prop('C05', 'Tags reported for a word are the tags of its parses',
     'For every input the fast tagging call reports exactly the set of tags that full parsing of the same input '
     'reports. For dictionary words both also agree in number and order, so the most probable tag is the tag of the '
     'most probable parse.',
     ['inputs', 'configurations'], 'all dictionary words; all predicted, hyphenated, prefixed and non-word token '
     'families; both shipped language configurations',
     'every unit has a separate hand-optimised tagging path; tests compare the two for about a hundred words',
     [A, LOOK, ANAL, HYPH, ABBR, SHAPE, 'units/base.py', 'units/utils.py'],
     [('parallel implementations of parse and tag in each unit', LOOK)],
     ['MorphAnalyzer.tag', 'MorphAnalyzer.parse'])

prop('C06', 'Scores are estimates of P(tag|word): in (0,1] or recorded, and sorted',
     'If probabilities are recorded for a word, the score of each of its parses is exactly the recorded probability of '
     'its tag (0 when absent) and parses come in descending order of it; otherwise scores sum to 1 and are positive (unless built on a parse recorded with 0). '
     'For dictionary words without recorded probabilities all parses score equally, and for words predicted by their '
     'ending scores are proportional to how many dictionary words support the prediction, most supported first. '
     'The sole lower bound is 0 and no score exceeds 1.',
     ['inputs', 'configurations'], 'every dictionary word; every word and tag of the recorded probability table; every '
     'ending of the prediction tables',
     'tests check score order on a few words',
     [A, ANAL, 'dawg.py'], [('probability lookup and normalisation', A), ('productivity counts', ANAL)],
     ['Parse.score', 'order of MorphAnalyzer.parse', 'order of MorphAnalyzer.tag'])

prop('C07', 'A parse, its lexeme and its normal form are consistent',
     'The lexeme of a parse contains that very parse (same word and tag), lists every form of the word exactly once per '
     'entry of its inflection pattern, and all its members share one normal form, which is the first member. Normalising '
     'any member of the lexeme gives the same first member. The lexeme obtained from any member equals the lexeme '
     'obtained from any other. Compounds whose two parts both inflect pair each form of the right part with the form of '
     'the left part closest to it, so for them containing the parse is not promised.',
     ['inputs'], 'every parse of every dictionary word (all 3,238 inflection patterns x all forms), and parses from '
     'every prediction strategy and nesting of them (prefix, particle, hyphen, ending)',
     'tests list a dozen lexemes; the property is an equivalence-class law over all forms',
     [A, LOOK, ANAL, HYPH, ABBR, 'units/base.py', 'units/utils.py', WRAP],
     [('stem extraction and re-composition', WRAP), ('undecorate/decorate coroutines', 'units/base.py')],
     ['Parse.lexeme', 'Parse.normalized', 'MorphAnalyzer.get_lexeme', 'MorphAnalyzer.normal_forms'])

prop('C08', 'Inflection returns the closest form that has everything requested',
     'Inflecting a parse returns a form of the same lexeme that has all the requested grammemes; if several do, one '
     'whose grammemes are closest to the original form with incompatible grammemes replaced. If no form matches, rare '
     'case variants are replaced by the corresponding common case and the search is repeated, and only if that fails '
     'the answer is "no such form". An unknown grammeme in the request is an error.',
     ['inputs'], 'every form of a word of every inflection pattern x every single grammeme and every grammeme '
     'pair/set occurring in the lexeme; predicted, prefixed and hyphenated words likewise',
     'tests inflect a few dozen words',
     [A, T], [('candidate selection and similarity', A), ('incompatible grammemes, rare cases', T)],
     ['Parse.inflect'])

prop('C09', 'Agreement with a number follows the Russian numeral rules for every number',
     'For every non-negative integer the grammemes required of a noun, adjective or participle depend only on the '
     'number modulo 100, following the 1 / 2-4 / other classes with 11-14 in the last one, and on the word\'s part of '
     'speech, case and gender; other parts of speech need nothing. Making a word agree with a number is inflecting it '
     'with these grammemes, whatever was asked before.',
     ['inputs', 'histories'], 'all residues modulo 1000 (and larger numbers) x all tags of the dictionary; one word per '
     'inflection pattern and form; sequences of calls with modified results',
     'tests contain a table with a few numbers and words',
     [T, A], [('numeral agreement table', T)], ['Parse.make_agree_with_number', 'tag.numeral_agreement_grammemes'])

prop('C10', 'Known prefixes: the rest of the word decides the parse',
     'A word which is not in the dictionary and starts with a known prefix followed by at least three letters is '
     'analysed as prefix plus any analysis of the remainder with a productive part of speech, for every known prefix '
     'that matches, longest first. Word and normal form keep the prefix, the tag is that of the remainder, and the '
     'lexeme and inflected forms are those of the remainder with the prefix attached.',
     ['inputs'], 'every known prefix x one word per dictionary tag; all pairs and chains of known prefixes; prefixes '
     'that are prefixes of each other; remainders that are themselves predicted; remainder lengths 1 to 4',
     'tests use a few псевдо- words',
     [ANAL, 'dawg.py', 'units/utils.py', 'lang/ru/config.py'],
     [('KnownPrefixAnalyzer', ANAL), ('prefix matcher', 'dawg.py')],
     ['MorphAnalyzer.parse', 'MorphAnalyzer.tag', 'Parse.lexeme', 'Parse.inflect', 'Parse.normalized'])

prop('C11', 'Unknown words are predicted from known tails and productive endings only',
     'A word not covered by other strategies is analysed as every dictionary word left after cutting 1 to 5 leading '
     'letters (at least 3 remaining), together with the analyses of dictionary words sharing its longest productive '
     'ending (up to the dictionary\'s ending limit, words of at least 4 letters). Closed parts of speech are never '
     'predicted, no analysis is repeated, and predicted words inflect like the words they were modelled on.',
     ['inputs', 'configurations'], 'every one of the 372,738 endings of the prediction tables (all paradigm prefixes) '
     'attached to an unknown stem; every dictionary tag behind 1 to 6 unknown letters; all short words over the '
     'alphabet; generated dictionaries with small ending limits',
     'tests sample about a dozen unknown words',
     [ANAL, LOOK, 'utils.py', 'units/utils.py'],
     [('UnknownPrefixAnalyzer', ANAL), ('KnownSuffixAnalyzer', ANAL), ('word_splits', 'utils.py')],
     ['MorphAnalyzer.parse', 'MorphAnalyzer.tag', 'Parse.lexeme', 'Parse.normalized'])

prop('C12', 'Words with hyphens are analysed through their parts',
     'A non-dictionary word ending with a hyphenated particle is analysed as the word without it; по- plus a singular '
     'dative adjective is an adverb; a word with exactly one inner hyphen not starting with a known prefix is analysed '
     'both as an unchangeable left part with an inflected right part and, when both parts can share part of speech, '
     'number, case, person and tense, as a compound in which both parts inflect. Reported words, normal forms and all '
     'lexeme members keep the hyphen and the particle.',
     ['inputs'], 'all particles x one word per dictionary tag; по- x one form of every adjectival pattern; all pairs of '
     'representative words; all strings up to length 7 over {letters, hyphen}',
     'tests contain about thirty hyphenated words',
     [HYPH, 'units/utils.py', 'lang/ru/config.py'],
     [('HyphenSeparatedParticleAnalyzer, HyphenAdverbAnalyzer, HyphenatedWordsAnalyzer', HYPH)],
     ['MorphAnalyzer.parse', 'MorphAnalyzer.tag', 'Parse.lexeme', 'Parse.inflect', 'Parse.normalized'])

prop('C13', 'Numbers, punctuation, Latin and Roman tokens are recognised by shape',
     'A token which is not a dictionary word is an integer or real number exactly if it reads as one (with digits; '
     'decimal comma allowed), punctuation exactly if it consists of punctuation marks and whitespace with at least one '
     'mark, a Roman number exactly if it is a canonical numeral in Latin letters up to 4999, and Latin exactly if it has letters '
     'and all are Latin; a token may be both Roman and Latin. Such a token is its own normal form and whole lexeme.',
     ['inputs'], 'every Unicode code point; all strings up to length 5 over digits, signs, letters, punctuation and '
     'whitespace; all 4,999 Roman numerals in several spellings and all strings over IVXLCDM up to length 7',
     'tests contain about ten tokens per class',
     [SHAPE, 'shapes.py'], [('shape predicates', 'shapes.py'), ('shape units', SHAPE)],
     ['MorphAnalyzer.parse', 'MorphAnalyzer.tag', 'Parse.lexeme', 'pymorphy2.shapes'])

prop('C14', 'Capital single letters are also analysed as initials of names',
     'A single capital letter of the language\'s alphabet (without the letters no name starts with) gets, besides '
     'dictionary parses, first-name and patronymic parses for both genders and all six main cases; nothing else does. '
     'A first-name initial keeps its gender when inflected or normalised, while a patronymic initial is a form of its '
     'masculine patronymic.',
     ['inputs', 'configurations'], 'every Unicode code point as a token, all two-letter tokens of the alphabet, both '
     'languages, dictionaries with and without initials in them',
     'tests check about five letters',
     [ABBR, 'lang/ru/config.py', 'lang/uk/config.py'], [('initials units', ABBR)],
     ['MorphAnalyzer.parse', 'MorphAnalyzer.tag', 'Parse.lexeme', 'Parse.normalized'])

prop('C15', 'Tags behave as immutable ordered sets of grammemes',
     'A tag equals, hashes like, orders like and prints like its grammeme sequence; membership of a grammeme or set of '
     'grammemes is answered exactly, and asking about an unknown grammeme raises an error. Each category attribute '
     '(POS, case, number, ...) is the grammeme of that category in the tag or None, and comparing it with something that '
     'is not a value of the category is an error. Pickled and copied tags equal the original.',
     ['inputs', 'histories'], 'all 5,073 tags of the dictionary x all known grammemes x all categories; all ordered '
     'pairs of tags up to a bound; all subsets of every tag\'s grammemes up to size 3',
     'tests look at about twenty tags',
     [T], [('OpencorporaTag', T)], ['OpencorporaTag'])

prop('C16', 'Required grammemes replace exactly the incompatible ones',
     'Updating a tag\'s grammemes with required ones yields the required ones plus those of the tag which do not compete '
     'with any required grammeme, where grammemes compete when they belong to the same category (directly or one level '
     'deeper), and plural also displaces gender. Unknown grammemes are rejected, neither the tag nor the request is '
     'changed, and the rules stay the same after loading further dictionaries with the same grammeme list.',
     ['inputs', 'histories'], 'all tags x all grammemes, all tags x pairs of grammemes; repeated loading of same and '
     'different dictionaries in every order',
     'tests check a few updates',
     [T], [('incompatibility tables', T)], ['OpencorporaTag.updated_grammemes', 'Parse.inflect'])

prop('C17', 'Grammeme names translate between Latin and Cyrillic without loss',
     'For every tag, its Cyrillic form has one translated grammeme per grammeme with commas and spaces in place, and '
     'translating it back gives the original; the set of Cyrillic grammemes is the translation of the set. Tokens '
     'that are not grammeme names pass through unchanged. This includes grammemes of non-word tokens and initials.',
     ['inputs', 'histories'], 'all dictionary tags and all tags produced for non-words; all known grammemes; strings '
     'mixing known and unknown names',
     'tests translate about ten tags',
     [T, SHAPE, ABBR, UNKN], [('alias tables', T)],
     ['MorphAnalyzer.lat2cyr', 'MorphAnalyzer.cyr2lat', 'tag.cyr_repr', 'tag.grammemes_cyr'])

prop('C18', 'Answers do not depend on what was asked or done before',
     'The answer to any analysis, tagging, lexeme, inflection or tag question on an analyzer is the same whatever '
     'questions were asked before, in whatever order and however often, answered, failed or interrupted. Modifying a returned list, set or other result '
     'in place does not change later answers, and asking a question does not change the sets given with it.',
     ['histories'], 'all sequences of operations up to a depth bound over an alphabet of words covering every analysis '
     'strategy, with result mutation, from fresh and used analyzers',
     'tests share one analyzer but never vary the order or mutate results',
     [A, T, 'shapes.py', 'cache.py', LOOK, ANAL, HYPH, ABBR],
     [('lazily filled caches', T), ('latin letter cache', 'shapes.py')],
     ['MorphAnalyzer.*', 'Parse.*', 'OpencorporaTag.*'],
     state=[('grammeme caches', 'lazily computed grammeme sets of a tag', T), ('letter cache', 'is a character Latin', 'shapes.py')])

prop('C19', 'Analyzers can be used and created from several threads at once',
     'Whatever the interleaving of threads that use one analyzer, use different analyzers, or create analyzers, each '
     'call returns what it returns when run alone, and no call raises or deadlocks.',
     ['schedules'], 'all interleavings up to a preemption bound of two- and three-thread harnesses: use/use, use/create, '
     'create/create, first use of lazily filled caches',
     'tests run a thread pool a few times; the damaging windows are a few bytecodes wide',
     [A, T, 'shapes.py', STOR], [('class-level lock around construction', A), ('swap of grammeme tables', T)],
     ['MorphAnalyzer()', 'MorphAnalyzer.parse', 'Parse.inflect', 'OpencorporaTag.__contains__'],
     state=[('known grammemes and alias tables', 'class-level state shared by all analyzers', T)])

prop('C20', 'A pickled or copied analyzer behaves like the original',
     'An analyzer restored from a pickle (any protocol) or deep copy gives the same answers as the original for every '
     'input and every combination of constructor options, including options left at their defaults, custom units, '
     'result types, letter substitutions and probability estimation. Copies are independent of the original.',
     ['configurations', 'histories', 'inputs'], 'all combinations of constructor option values x all pickle protocols and copy '
     'calls x a word list covering every analysis strategy; chains of copies',
     'the single pickling test uses the default configuration',
     [A, 'units/base.py'], [('__reduce__ and unit cloning', A)], ['pickle', 'copy', 'MorphAnalyzer.parse'])

prop('C21', 'Constructor options change only what they are documented to change',
     'Plain tuple results carry the same data as wrapped ones; leaving out probability estimation or letter '
     'substitution changes only scores and order or respelled matches; a custom list of units means: units are tried in '
     'order, results of a group are joined, and the first group with results wins. Several analyzers with different '
     'options or dictionaries living in one process do not influence each other, and unit objects given to an analyzer '
     'stay reusable.',
     ['configurations', 'histories'], 'the product of option values; all unit lists of length up to 3 (with grouping) from the shipped '
     'units; pairs of analyzers built in either order',
     'tests cover a few configurations one at a time',
     [A, 'units/base.py', 'units/__init__.py', 'lang/ru/config.py', 'lang/uk/config.py'],
     [('unit binding by cloning', A), ('analyzer-specific result class', A)], ['MorphAnalyzer()', 'MorphAnalyzer.parse', 'MorphAnalyzer.tag'])

prop('C22', 'Compiling an XML dictionary preserves every word form',
     'A dictionary compiled from OpenCorpora XML contains exactly the forms of the XML lexemes: each form, lower-cased, '
     'with its tag, and with a lexeme and normal form made of the lexeme it belongs to after joining linked lexemes. '
     'Only the documented exceptions are left out: initials, lexemes without grammatical information and deleted '
     'lexemes. Joining follows the non-excluded links transitively, in any order of links and lexemes, and never loses a form.',
     ['inputs', 'configurations'], 'all small XML dictionaries over a generator alphabet: lexeme shapes (common stem, '
     'paradigm prefixes, suppletive, single form, repeated forms), link graphs on up to 4 lexemes with included and '
     'excluded types, in all orders',
     'tests compile one toy dictionary',
     [PARS, COMP, STOR, PREP, 'utils.py'],
     [('link joining', COMP), ('stem/paradigm extraction', COMP), ('XML reading', PARS)],
     ['opencorpora_dict.convert_to_pymorphy2', 'MorphAnalyzer.parse', 'Parse.lexeme'])

prop('C23', 'Prediction data counts productive endings of the compiled dictionary',
     'The ending tables of a compiled dictionary list, per paradigm prefix, each ending of the words of sufficiently '
     'common inflection patterns, from the pattern\'s own ending up to the configured length, that occurs often enough; '
     'for each ending and part of speech exactly the most frequent patterns are kept with the number of words '
     'supporting them. Words without a stem do not contribute, and no word is counted twice for one ending and form.',
     ['inputs', 'configurations'], 'all small generated dictionaries x thresholds for ending frequency, pattern '
     'popularity and ending length',
     'tests never look at the prediction tables',
     [COMP, 'utils.py'], [('suffix statistics', COMP), ('largest_elements', 'utils.py')],
     ['compiled dictionary folder', 'MorphAnalyzer.parse of unknown words'])

prop('C24', 'A saved dictionary loads as saved; an interrupted save never loads',
     'Loading a dictionary folder gives back exactly what was compiled, and its metadata describes it. If saving, or '
     'adding probabilities, is interrupted at any point, loading either fails or yields one complete dictionary (the '
     'old or the new one), never a mixture. An existing folder is left untouched unless overwriting was requested.',
     ['crash_points', 'inputs'], 'every prefix of the sequence of file operations of a save (and torn last write), for '
     'fresh and existing target folders and for adding probabilities',
     'tests save once, without interruption',
     [STOR, COMP, PROB, 'utils.py'], [('meta.json is written last', STOR), ('stale meta.json removed first', STOR)],
     ['convert_to_pymorphy2', 'MorphAnalyzer(path=...)'])

prop('C25', 'The right dictionary is selected, and incompatible ones are refused',
     'An explicit path wins over the PYMORPHY2_DICT_PATH variable, which wins over the language\'s installed dictionary; '
     'the analyzer language is the requested one, else (a path being given) the dictionary\'s own, else Russian, with a warning on mismatch '
     'or absence. With neither path nor language given Russian is requested, wherever the variable points. Dictionaries of the same major format version load, in both metadata layouts; any other version is '
     'refused with an error, as is a language without a dictionary.',
     ['configurations'], 'the full product of path, variable, language argument, dictionary language and format version values',
     'tests cover single points of the product',
     [A, STOR], [('path and language choice', A), ('format check', STOR)], ['MorphAnalyzer()', 'MorphAnalyzer.lang', 'MorphAnalyzer.dictionary.path'])

prop('C26', 'Estimated probabilities are the smoothed corpus frequencies',
     'After adding probabilities from a disambiguated corpus, the score of each parse of an ambiguous word that is frequent enough is its '
     'Laplace-smoothed relative corpus frequency (to within storage precision); other words keep the '
     'normalised default. Smoothing adds one count per analysis of the word (or per observed tag, if more). Words with equal estimates '
     'for all tags, unambiguous words and unknown tags in the corpus do not contribute.',
     ['inputs', 'configurations'], 'all small corpora (multisets of word/tag observations up to a bound) over a toy '
     'dictionary x frequency thresholds',
     'the estimation code has no tests (nltk and the corpus reader are not installed)',
     [PROB, 'dawg.py', A], [('probability table construction', PROB)], ['add_conditional_tag_probability', 'Parse.score'])

prop('C27', 'Tokenization loses nothing but whitespace',
     'For every text the tokens, in order, are pieces of the text that leave out only whitespace; no token is empty or '
     'contains whitespace. Runs of word characters and hyphens stay together and every other character is a token of '
     'its own.',
     ['inputs'], 'all texts up to length 6 over an alphabet with letters, digits, underscore, hyphen, plus, '
     'punctuation and several kinds of whitespace; every code point in context',
     'tests tokenize ten sentences',
     ['tokenizers.py'], [('simple_word_tokenize', 'tokenizers.py')], ['tokenizers.simple_word_tokenize'])

prop('C28', 'Restored capitalisation changes only letter case',
     'Restoring capitalisation gives the input word with nothing but letter case changed. With a hyphenated example each '
     'hyphen-separated part becomes lower-case, upper-case or title-case as the corresponding part of the example is, '
     'and parts without a counterpart become lower-case; an example without hyphen sets the case of the whole word. '
     'A single capital letter counts as upper-case; any other case pattern gives lower case.',
     ['inputs'], 'all pairs of words up to length 4 over {lower and upper case letters, digit, hyphen}, and all '
     'longer pairs of case patterns with up to three parts',
     'tests contain a dozen pairs',
     ['shapes.py'], [('restore_capitalization', 'shapes.py')], ['shapes.restore_capitalization'])

prop('C29', 'Command-line output is the library\'s answer for each token',
     'For each token of the input, in order, the command prints one line with the token and the selected data (normal '
     'forms, tags, scores) of exactly those parses the library returns that reach the threshold; lemma-only output sums '
     'scores per lemma before applying the threshold. Cache size and tokenization option do not affect the lines printed for a token.',
     ['inputs', 'configurations', 'histories'], 'all combinations of output options x cache sizes (0, 1, 2, large, '
     'unlimited) x thresholds x token sequences up to a bound over words covering every strategy',
     'tests run three command lines',
     ['cli.py', 'cache.py', 'tokenizers.py'], [('output formatter', 'cli.py'), ('result caching', 'cache.py')],
     ['pymorphy parse', 'pymorphy dict meta'])

prop('C30', 'Both dictionary backends and prefix matchers give the same answers',
     'The analyzer gives the same parses, tags, scores (as floating-point values up to rounding), lexemes and known-word answers whether the compiled '
     'or the pure-Python automaton library is installed. Both prefix matchers find exactly the listed prefixes a word '
     'starts with, wherever the list\'s prefixes overlap.',
     ['inputs', 'configurations'], 'representatives of every tag, prefix, ending class and token shape in both installed '
     'environments; all prefix lists and words up to a bound over a small alphabet',
     'tests run in both environments but compare neither with the other',
     ['dawg.py', LOOK, ANAL], [('backend selection', 'dawg.py'), ('prefix matchers', 'dawg.py')],
     ['MorphAnalyzer.parse', 'dawg.PythonPrefixMatcher', 'dawg.DawgPrefixMatcher'])

prop('C31', 'Known-word queries enumerate the dictionary exactly',
     'Iterating known words with a prefix yields exactly the dictionary entries whose word starts with it, each once, '
     'as parses with the right tag and normal form; a word is reported known exactly if such an entry exists for it '
     '(or, unless strict, for a permitted respelling), in any letter case. Iterated parses can be inflected and normalised like parsed ones.',
     ['inputs', 'configurations'], 'every prefix of every dictionary word up to length 3 and a complete scan; every '
     'dictionary word, all its one-letter edits for representatives, and all short strings for membership',
     'tests check one prefix and a few words',
     [A, WRAP, 'dawg.py'], [('iter_known_words', WRAP), ('word_is_known', WRAP)],
     ['MorphAnalyzer.iter_known_word_parses', 'MorphAnalyzer.word_is_known', 'Parse.is_known'])

prop('C32', 'Tag spelling variants are merged without changing grammemes',
     'When compiling, tags with the same set of grammemes written in different order are replaced by their most '
     'frequent spelling unless they differ only in which grammemes belong to the lexeme, and the outdated gen1/loc1/acc1 '
     'case names become the ordinary ones. No word, no other grammeme and no distinction between different grammeme sets is '
     'lost or added.',
     ['inputs'], 'all small multisets of tag spellings over a grammeme alphabet, with all grammeme orders and space positions',
     'tests check the spelling predicate on a few examples',
     [PREP], [('spelling statistics and replacement', PREP)], ['preprocess.simplify_tags', 'compiled dictionary tags'])

prop('C33', 'Results do not depend on the hash seed or the interpreter',
     'Analyses, tags, normal forms, lexemes, inflection, number agreement, grammeme sets, tokens, command-line output, estimated '
     'probabilities and every file of a compiled dictionary are the same whatever the iteration order of sets is, i.e. '
     'for any string hash seed and any of the interpreters installed: two runs with the same input give the same output in the same order.',
     ['inputs', 'environment'], 'all set iteration orders met while answering a battery of questions, compiling small dictionaries and '
     'running the command line, within a bound on deviations; processes with several hash seeds',
     'the tests run in an interpreter with ordered sets, so they see one order',
     ['analyzer.py', 'pymorphy2/tagset.py', COMP, PREP],
     [('sets in analysis and inflection', 'analyzer.py'), ('grammeme sets', 'pymorphy2/tagset.py'), ('sets while compiling', COMP)],
     ['MorphAnalyzer methods', 'compiled dictionary files', 'cli output'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w', encoding='utf8') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
