From 2b00cbe3b514ae97dd3dbd6cd2cc38d93e5082e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 01/15] fix: don't crash on words with letters which have no
 Unicode name

unicodedata.name() raises ValueError for e.g. Tangut ideographs, so
MorphAnalyzer.parse() and .tag() crashed instead of returning UNKN.
---
 pymorphy2/shapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymorphy2/shapes.py b/pymorphy2/shapes.py
index e203981..1e8eb5c 100644
--- a/pymorphy2/shapes.py
+++ b/pymorphy2/shapes.py
@@ -14,7 +14,7 @@ def is_latin_char(uchr):
     except KeyError:
         if isinstance(uchr, bytes):
             uchr = uchr.decode('ascii')
-        is_latin = 'LATIN' in unicodedata.name(uchr)
+        is_latin = 'LATIN' in unicodedata.name(uchr, '')
         return _latin_letters_cache.setdefault(uchr, is_latin)
 
 
-- 
2.43.0


From c27ce9dd67498b1b88423e4ddb1980f089432150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 02/15] fix: is_roman_number must look at the whole token

'$' matches before a trailing newline, so '\n' and 'I\n' were tagged as
Roman numbers; non-ASCII case folding also accepted dotless/dotted i.
---
 pymorphy2/shapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymorphy2/shapes.py b/pymorphy2/shapes.py
index 1e8eb5c..52d1d36 100644
--- a/pymorphy2/shapes.py
+++ b/pymorphy2/shapes.py
@@ -77,8 +77,8 @@ ROMAN_NUMBERS_RE = re.compile("""
                         #        or 50-80 (L, followed by 0 to 3 X's)
     (IX|IV|V?I{0,3})    # ones - 9 (IX), 4 (IV), 0-3 (0 to 3 I's),
                         #        or 5-8 (V, followed by 0 to 3 I's)
-    $                   # end of string
-""", re.VERBOSE | re.IGNORECASE)
+    \\Z                  # end of string
+""", re.VERBOSE | re.IGNORECASE | getattr(re, 'ASCII', 0))
 
 def is_roman_number(token, _match=ROMAN_NUMBERS_RE.match):
     """
-- 
2.43.0


From d0bda1dea5fc67a8cbd3615410c35ee140550740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 03/15] fix: don't tag words 'nan', 'inf' and 'infinity' as
 real numbers

---
 pymorphy2/units/by_shape.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymorphy2/units/by_shape.py b/pymorphy2/units/by_shape.py
index 2f1d505..7402c8d 100644
--- a/pymorphy2/units/by_shape.py
+++ b/pymorphy2/units/by_shape.py
@@ -118,7 +118,8 @@ class NumberAnalyzer(_ShapeAnalyzer):
         except ValueError:
             try:
                 float(word.replace(',', '.'))
-                return 'real'
+                # float() also accepts words: 'nan', 'inf', 'infinity'
+                return 'real' if any(ch.isdigit() for ch in word) else False
             except ValueError:
                 pass
         return False
-- 
2.43.0


From 844e4ffd42474d335bbe4001dd9d640735ef7929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 04/15] fix: keep all constructor arguments when pickling
 MorphAnalyzer

probability_estimator_cls and char_substitutes were dropped, so an
unpickled copy of a customized analyzer gave different results.
---
 pymorphy2/analyzer.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pymorphy2/analyzer.py b/pymorphy2/analyzer.py
index 7c27e70..fca9b76 100644
--- a/pymorphy2/analyzer.py
+++ b/pymorphy2/analyzer.py
@@ -17,7 +17,14 @@ logger = logging.getLogger(__name__)
 _Parse = collections.namedtuple('Parse', 'word, tag, normal_form, score, methods_stack')
 
 _score_getter = operator.itemgetter(3)
-auto = object()
+
+
+class _Auto(object):
+    """ A marker for "use the default value" which survives pickling """
+    def __reduce__(self):
+        return str('auto')
+
+auto = _Auto()
 
 
 class Parse(_Parse):
@@ -193,6 +200,8 @@ class MorphAnalyzer(object):
         # save arguments for pickling/unpickling
         self._path = path
         self._lang = lang
+        self._probability_estimator_cls = probability_estimator_cls
+        self._char_substitutes = char_substitutes
 
         if path is None and lang is None:
             lang = 'ru'
@@ -440,5 +449,6 @@ class MorphAnalyzer(object):
         return self.TagClass.lat2cyr(tag_or_grammeme)
 
     def __reduce__(self):
-        args = (self._path, self._lang, self._result_type_orig, self._units_unbound)
+        args = (self._path, self._lang, self._result_type_orig, self._units_unbound,
+                self._probability_estimator_cls, self._char_substitutes)
         return self.__class__, args, None
-- 
2.43.0


From 4b4e090f8c70d35c838e4abb92345211c64fe0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 05/15] fix: numeral_agreement_grammemes must not expose shared
 mutable sets

Modifying the returned set changed results of all later calls.
---
 pymorphy2/tagset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymorphy2/tagset.py b/pymorphy2/tagset.py
index e294a6f..fa8b48e 100644
--- a/pymorphy2/tagset.py
+++ b/pymorphy2/tagset.py
@@ -509,7 +509,7 @@ class OpencorporaTag(object):
             grammemes = self._NUMERAL_AGREEMENT_GRAMMEMES[3]
         else:
             grammemes = self._NUMERAL_AGREEMENT_GRAMMEMES[4]
-        return grammemes
+        return set(grammemes)  # don't let the caller change shared sets
 
     #@classmethod
     #def _clone_class(cls):
-- 
2.43.0


From c7d9d3dd90730b7aa96d7ce73c737d14a4018cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 06/15] fix: creating an analyzer must not break tags of
 existing analyzers
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

OpencorporaTag is shared by all analyzers. Known grammemes were reset and
then filled again each time a dictionary was loaded, so in the meantime
(and after that, for grammemes missing in the new dictionary) checks like
'NOUN' in tag, inflection and parsing of e.g. по-западному raised
RuntimeError/ValueError/KeyError in other threads.
---
 pymorphy2/tagset.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pymorphy2/tagset.py b/pymorphy2/tagset.py
index fa8b48e..768d4d8 100644
--- a/pymorphy2/tagset.py
+++ b/pymorphy2/tagset.py
@@ -443,11 +443,17 @@ class OpencorporaTag(object):
             ]
 
         """
-        cls.KNOWN_GRAMMEMES = set()
-        cls._CYR2LAT = {}
-        cls._LAT2CYR = {}
+        # The class is shared: other analyzers may be using it (maybe in other
+        # threads), so already known grammemes must stay known at all times.
+        known, cyr2lat, lat2cyr = set(cls.KNOWN_GRAMMEMES), {}, {}
+        cyr2lat.update(cls._CYR2LAT or {})
+        lat2cyr.update(cls._LAT2CYR or {})
         for name, parent, alias, description in dict_grammemes:
-            cls.add_grammemes_to_known(name, alias)
+            known.add(name)
+            lat2cyr[name] = alias
+            cyr2lat[alias] = name
+        cls._CYR2LAT, cls._LAT2CYR = cyr2lat, lat2cyr
+        cls.KNOWN_GRAMMEMES = known
 
         gr = dict((name, parent) for (name, parent, alias, description) in dict_grammemes)
 
-- 
2.43.0


From c3f0738a4e91bd7fbe5418594a92b0ebfe19bdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 07/15] fix: don't count endings of short words several times

For words shorter than max_suffix_length word[-i:] is the whole word for all
i >= len(word), so it was counted several times: this inflated productivity
estimates and allowed endings to bypass min_ending_freq.
---
 pymorphy2/opencorpora_dict/compile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymorphy2/opencorpora_dict/compile.py b/pymorphy2/opencorpora_dict/compile.py
index e6a95e5..054c6a6 100644
--- a/pymorphy2/opencorpora_dict/compile.py
+++ b/pymorphy2/opencorpora_dict/compile.py
@@ -317,7 +317,9 @@ def _suffixes_prediction_data(words, paradigm_popularity, gramtab, paradigms, su
 
         POS = tuple(tag.replace(' ', ',', 1).split(','))[0]
 
-        for i in range(max(len(form_suffix), 1), max_suffix_length+1): #was: 1,2,3,4,5
+        # a word which is shorter than max_suffix_length has fewer endings
+        max_length = min(max_suffix_length, len(word))
+        for i in range(max(len(form_suffix), 1), max_length+1): #was: 1,2,3,4,5
             word_end = word[-i:]
             ending_counts[word_end] += 1
             prefix_endings[form_prefix_id][word_end][POS][(para_id, idx)] += 1
-- 
2.43.0


From 27d90042f8244c00ab5f6c8dc4bf31db412b0c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 08/15] fix: don't lose lexemes (or hang) when lexeme links
 form a cycle

---
 pymorphy2/opencorpora_dict/compile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymorphy2/opencorpora_dict/compile.py b/pymorphy2/opencorpora_dict/compile.py
index 054c6a6..74cddae 100644
--- a/pymorphy2/opencorpora_dict/compile.py
+++ b/pymorphy2/opencorpora_dict/compile.py
@@ -225,6 +225,9 @@ def _join_lexemes(lexemes, links):
         while to_id in moves:
             to_id = moves[to_id]
 
+        if from_id == to_id:  # links form a cycle; already joined
+            return
+
         lexemes[str(to_id)].extend(lm)
         del lm[:]
         moves[from_id] = to_id
-- 
2.43.0


From f41f8d4ee64e033f1890f5a67cb22d6c83ff4954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 09/15] fix: don't leave a loadable mix of two dictionaries if
 overwriting fails

meta.json of the old dictionary stayed in place while other files were
being replaced, so an interrupted overwrite was silently loaded.
---
 pymorphy2/opencorpora_dict/storage.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pymorphy2/opencorpora_dict/storage.py b/pymorphy2/opencorpora_dict/storage.py
index 9eaf728..7748e02 100644
--- a/pymorphy2/opencorpora_dict/storage.py
+++ b/pymorphy2/opencorpora_dict/storage.py
@@ -90,6 +90,11 @@ def save_compiled_dict(compiled_dict, out_path, source_name, language_code):
     logger.info("Saving...")
     _f = lambda path: os.path.join(out_path, path)
 
+    # meta.json is written last; remove an old file first to make sure
+    # partially overwritten dictionaries are never loaded.
+    if os.path.exists(_f('meta.json')):
+        os.remove(_f('meta.json'))
+
     json_write(_f('grammemes.json'), compiled_dict.parsed_dict.grammemes)
 
     gramtab_formats = {}
-- 
2.43.0


From d6ad0ff8a1d71f21d03bac3d4601dce8e6dfd5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:26 +0000
Subject: [PATCH 10/15] fix: loading a dictionary must not make grammemes of
 other dictionaries compatible

---
 pymorphy2/tagset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymorphy2/tagset.py b/pymorphy2/tagset.py
index 768d4d8..bf9215a 100644
--- a/pymorphy2/tagset.py
+++ b/pymorphy2/tagset.py
@@ -476,6 +476,8 @@ class OpencorporaTag(object):
             incompatible = cls._EXTRA_INCOMPATIBLE.get(name, set())
             incompatible = (incompatible | children[parent]) - set([name])
 
+            # other dictionaries may know more grammemes of this category
+            incompatible |= cls._GRAMMEME_INCOMPATIBLE.get(name, frozenset())
             cls._GRAMMEME_INCOMPATIBLE[name] = frozenset(incompatible)
 
     # XXX: do we still need these methods?
-- 
2.43.0


From 8d960807f7ffcb92112378cd9bf55a6b42b9d722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:20 +0000
Subject: [PATCH 11/15] fix: outdated case names could survive (or replace
 ordinary ones) when a tag spelling with them is the most frequent

---
 pymorphy2/opencorpora_dict/preprocess.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymorphy2/opencorpora_dict/preprocess.py b/pymorphy2/opencorpora_dict/preprocess.py
index 7247cc5..b9ca2e2 100644
--- a/pymorphy2/opencorpora_dict/preprocess.py
+++ b/pymorphy2/opencorpora_dict/preprocess.py
@@ -76,6 +76,7 @@ def _get_tag_spellings(parsed_dict):
     """
     spellings = collections.defaultdict(lambda: collections.defaultdict(int))
     for tag in _itertags(parsed_dict):
+        tag = replace_redundant_grammemes(tag)
         spellings[tag2grammemes(tag)][tag] += 1
     return spellings
 
-- 
2.43.0


From cfd6e99aa64c41b65c23857ccfba73f3ed46e7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:24 +0000
Subject: [PATCH 12/15] fix: adding probabilities again must not leave new
 probabilities with old metadata if interrupted

---
 pymorphy2/opencorpora_dict/probability.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pymorphy2/opencorpora_dict/probability.py b/pymorphy2/opencorpora_dict/probability.py
index 1d25e7d..b0077dd 100644
--- a/pymorphy2/opencorpora_dict/probability.py
+++ b/pymorphy2/opencorpora_dict/probability.py
@@ -12,7 +12,7 @@ import logging
 from pymorphy2 import MorphAnalyzer
 from pymorphy2.opencorpora_dict.preprocess import tag2grammemes
 from pymorphy2.dawg import ConditionalProbDistDAWG
-from pymorphy2.opencorpora_dict.storage import update_meta
+from pymorphy2.opencorpora_dict.storage import load_meta, write_meta
 from pymorphy2.utils import with_progress
 
 
@@ -32,16 +32,22 @@ def add_conditional_tag_probability(corpus_filename, out_path, min_word_freq,
     logger.info("Encoding P(t|w) as DAWG")
     d = build_cpd_dawg(morph, cpd, int(min_word_freq))
     dawg_filename = os.path.join(out_path, 'p_t_given_w.intdawg')
+    meta_filename = os.path.join(out_path, 'meta.json')
+    meta = load_meta(meta_filename)
+    if meta.get('P(t|w)'):
+        # Probabilities are replaced; make sure new ones are never loaded
+        # with metadata of the old ones (meta.json is written last).
+        os.remove(meta_filename)
     d.save(dawg_filename)
 
     logger.info("Updating meta information")
-    meta_filename = os.path.join(out_path, 'meta.json')
-    update_meta(meta_filename, [
+    meta.update([
         ('P(t|w)', True),
         ('P(t|w)_unique_words', len(cpd.conditions())),
         ('P(t|w)_outcomes', cfd.N()),
         ('P(t|w)_min_word_freq', int(min_word_freq)),
     ])
+    write_meta(meta_filename, meta)
     logger.info('\nDone.')
 
 
-- 
2.43.0


From dc6cf6b662aa90170d46927f8a1984ff2998c04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:59 +0000
Subject: [PATCH 13/15] fix: 'pymorphy parse' must accept its --lang, --dict
 and --verbose options

---
 pymorphy2/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymorphy2/cli.py b/pymorphy2/cli.py
index cd062f3..cd2e1e6 100644
--- a/pymorphy2/cli.py
+++ b/pymorphy2/cli.py
@@ -24,7 +24,7 @@ Pymorphy2 is a morphological analyzer / inflection engine for Russian language.
 __doc__ = """
 Usage::
 
-    pymorphy parse [options] [<input>]
+    pymorphy parse [options] [--lang <lang>] [--dict <path>] [--verbose] [<input>]
     pymorphy dict meta [--lang <lang> | --dict <path>]
     pymorphy dict mem_usage [--lang <lang> | --dict <path>] [--verbose]
     pymorphy -h | --help
-- 
2.43.0


From ae80bdf227230b5d9870393ecde18bf0b64fbcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:05 +0000
Subject: [PATCH 14/15] fix: length of an unknown word must not depend on its
 letter case

---
 pymorphy2/units/by_analogy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymorphy2/units/by_analogy.py b/pymorphy2/units/by_analogy.py
index 9011146..92f4a9c 100644
--- a/pymorphy2/units/by_analogy.py
+++ b/pymorphy2/units/by_analogy.py
@@ -188,7 +188,7 @@ class KnownSuffixAnalyzer(AnalogyAnalizerUnit):
 
     def parse(self, word, word_lower, seen_parses):
         result = []
-        if len(word) < self.min_word_length:
+        if len(word_lower) < self.min_word_length:
             return result
 
         # smoothing; XXX: isn't max_cnt better?
@@ -246,7 +246,7 @@ class KnownSuffixAnalyzer(AnalogyAnalizerUnit):
         # ``self.parse(...)``.
 
         result = []
-        if len(word) < self.min_word_length:
+        if len(word_lower) < self.min_word_length:
             return result
 
         for prefix_id, prefix, suffixes_dawg in self._possible_prefixes(word_lower):
-- 
2.43.0


From 6713e6fc9518e1dcfad3832b9353044cc079ab5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:20 +0000
Subject: [PATCH 15/15] fix: don't fail on parses with zero scores when
 estimating probabilities

---
 pymorphy2/analyzer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymorphy2/analyzer.py b/pymorphy2/analyzer.py
index fca9b76..57014f3 100644
--- a/pymorphy2/analyzer.py
+++ b/pymorphy2/analyzer.py
@@ -86,7 +86,11 @@ class ProbabilityEstimator(object):
 
         if sum(probs) == 0:
             # no P(t|w) information is available; return normalized estimate
-            k = 1.0 / sum(map(_score_getter, parses))
+            total = sum(map(_score_getter, parses))
+            if not total:
+                # all units have zero scores, there is nothing to normalize
+                return parses
+            k = 1.0 / total
             return [
                 (word, tag, normal_form, score*k, methods_stack)
                 for (word, tag, normal_form, score, methods_stack) in parses
-- 
2.43.0

