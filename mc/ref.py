# -*- coding: utf-8 -*-
"""
Reference model of pymorphy2's observable behaviour.

Written from the documentation and the data format, independently of the
package: it never imports pymorphy2.  Dictionary files are decoded with
struct/json/dawg_python (exact key lookup only: the е/ё handling is enumerated
here explicitly).

A parse is a tuple (word, tag, normal_form, score, origin) where tag is a plain
string and origin describes how the word was analysed:

    ('d', para, idx)                    dictionary word
    ('s', para, idx, nothing)           predicted by its ending
    ('t',)                              a token which is its own lexeme
    ('h', text)                         ... same, for po-adverbs / shapes
    ('i', 'name'|'patr')                initials
    ('p', prefix, origin)               prefix + analysed remainder
    ('e', particle, origin)             analysed word + particle
    ('f', left, origin)                 fixed left part - analysed right part
    ('b', origin_left, origin_right)    both parts analysed
"""
import json
import os
import struct
import unicodedata

import refcfg

NON_PRODUCTIVE = frozenset('NUMR NPRO PRED PREP CONJ PRCL INTJ Apro'.split())
POS = frozenset('NOUN ADJF ADJS COMP VERB INFN PRTF PRTS GRND NUMR ADVB NPRO PRED PREP '
                'CONJ PRCL INTJ'.split())
NUMBERS = frozenset(['sing', 'plur'])
CASES = frozenset('nomn gent datv accs ablt loct voct gen1 gen2 acc2 loc1 loc2'.split())
PERSONS = frozenset(['1per', '2per', '3per'])
TENSES = frozenset(['pres', 'past', 'futr'])
FEATURES = POS | NUMBERS | CASES | PERSONS | TENSES
RARE = {'gen1': 'gent', 'gen2': 'gent', 'acc1': 'accs', 'acc2': 'accs',
        'loc1': 'loct', 'loc2': 'loct', 'voct': 'nomn'}


def split_tag(tag):
    return tuple(tag.replace(' ', ',', 1).split(','))


class Grammemes(object):
    """ Grammeme tables: known names, aliases, incompatibilities. """

    EXTRA = [('PNCT', 'ЗПР'), ('LATN', 'ЛАТ'), ('NUMB', 'ЧИСЛО'), ('intg', 'цел'), ('real', 'вещ'),
             ('ROMN', 'РИМ'), ('UNKN', 'НЕИЗВ')]
    # only added when the dictionary does not define them
    EXTRA_WEAK = [('Init', 'иниц'), ('Name', 'имя'), ('Patr', 'отч')]

    def __init__(self, rows):
        self.rows = [tuple(r) for r in rows]
        self.known = set(r[0] for r in rows)
        self.lat2cyr = {}
        self.cyr2lat = {}
        for name, parent, alias, descr in rows:
            self.lat2cyr[name] = alias
            self.cyr2lat[alias] = name
        for lat, cyr in self.EXTRA:
            self._add(lat, cyr)
        for lat, cyr in self.EXTRA_WEAK:
            if lat not in self.known:
                self._add(lat, cyr)
        parent_of = dict((r[0], r[1]) for r in rows)
        children = {}
        for name, parent, alias, descr in rows:
            if parent:
                children.setdefault(parent, set()).add(name)
                up = parent_of.get(parent)
                if up:
                    children.setdefault(up, set()).add(name)
        self.incompatible = {}
        for name, parent, alias, descr in rows:
            inc = set(children.get(parent, ()))
            if name == 'plur':
                inc.add('GNdr')
                inc |= children.get('GNdr', set())
            inc.discard(name)
            self.incompatible[name] = inc

    def _add(self, lat, cyr):
        self.known.add(lat)
        self.lat2cyr[lat] = cyr
        self.cyr2lat[cyr] = lat

    def updated(self, grammemes, required):
        res = set(grammemes) | set(required)
        for g in required:
            res -= self.incompatible.get(g, set())
        return res


class Dict(object):
    """ Raw view of a compiled dictionary folder. """

    def __init__(self, path):
        from dawg_python import RecordDAWG, IntCompletionDAWG
        f = lambda n: os.path.join(path, n)
        self.path = path
        with open(f('meta.json'), encoding='utf8') as fp:
            self.meta = dict(json.load(fp, parse_float=str))
        with open(f('grammemes.json'), encoding='utf8') as fp:
            self.gr = Grammemes(json.load(fp))
        with open(f(self.meta['gramtab_formats']['opencorpora-int']), encoding='utf8') as fp:
            self.gramtab = json.load(fp)
        with open(f('suffixes.json'), encoding='utf8') as fp:
            self.suffixes = json.load(fp)
        opts = self.meta.get('compile_options') or self.meta['prediction_options']
        self.max_suffix_length = opts['max_suffix_length']
        if 'paradigm_prefixes' in opts:
            self.prefixes = opts['paradigm_prefixes']
        else:
            with open(f('paradigm-prefixes.json'), encoding='utf8') as fp:
                self.prefixes = json.load(fp)
        self.paradigms = []
        with open(f('paradigms.array'), 'rb') as fp:
            data = fp.read()
        n, = struct.unpack_from('<H', data, 0)
        pos = 2
        for _ in range(n):
            ln, = struct.unpack_from('<H', data, pos)
            pos += 2
            arr = struct.unpack_from('<%dH' % ln, data, pos)
            pos += 2 * ln
            k = ln // 3
            # list of (prefix, tag, suffix)
            self.paradigms.append([
                (self.prefixes[arr[2 * k + i]], self.gramtab[arr[k + i]], self.suffixes[arr[i]])
                for i in range(k)])
        self.words = RecordDAWG('>HH').load(f('words.dawg'))
        self.pred = [RecordDAWG('>HHH').load(f('prediction-suffixes-%d.dawg' % i))
                     for i in range(len(self.prefixes))]
        self.ptw = None
        if self.meta.get('P(t|w)'):
            self.ptw = IntCompletionDAWG().load(f("p_t_given_w.intdawg"))
        self._grs = {}

    def grammemes(self, tag):
        r = self._grs.get(tag)
        if r is None:
            r = self._grs[tag] = frozenset(split_tag(tag))
        return r

    def productive(self, tag):
        return not (self.grammemes(tag) & NON_PRODUCTIVE)

    def get(self, word):
        if '\0' in word:
            return []
        return self.words.get(word) or []

    def form(self, para, idx, stem):
        p, t, s = self.paradigms[para][idx]
        return p + stem + s

    def stem(self, para, idx, word):
        p, t, s = self.paradigms[para][idx]
        return word[len(p):len(word) - len(s)]

    def normal_form(self, para, idx, word):
        if idx == 0:
            return word
        return self.form(para, 0, self.stem(para, idx, word))

    def iter_words(self):
        return self.words.iteritems()


def expansions(text, subst):
    """ all strings obtained by replacing any subset of substitutable letters """
    res = ['']
    for ch in text:
        alt = subst.get(ch)
        if alt is None:
            res = [r + ch for r in res]
        else:
            res = [r + c for r in res for c in (ch, alt)]
    return res


PARAMS = dict(initials=0.1, shape=0.9, particle=0.9, po_adverb=0.7, hyphen=0.75, known_prefix=0.75, unknown_prefix=0.5,
              known_suffix=0.5, min_remainder=3, min_word=4)


class Ref(object):
    """ The analyzer. """

    def __init__(self, d, lang='ru', subst=None, use_prob=True, cfg=None, params=None):
        self.d = d
        self.cfg = dict(refcfg.LANG[lang], **(cfg or {}))
        self.params = dict(PARAMS, **(params or {}))
        self.lang = lang
        self.subst = self.cfg['subst'] if subst is None else subst
        self.ptw = d.ptw if use_prob else None
        self._memo = {}
        self.letters = set(self.cfg['letters'])
        self.name_tags = [
            'NOUN,anim,%s,Sgtm,%s,Fixd,Abbr,Init sing,%s' % (g, k, c)
            for k in ('Name', 'Patr')
            for g in ('masc', 'femn')
            for c in ('nomn', 'gent', 'datv', 'accs', 'ablt', 'loct')]

    # ---- lookup

    def lookup(self, wl):
        """ [(fixed word, para, idx)] """
        res = []
        for w in self.known_forms(wl):
            for para, idx in self.d.get(w):
                res.append((w, para, idx))
        return res

    def known_forms(self, wl):
        """ dictionary words this lower-cased spelling may stand for """
        # walk expansions letter by letter, dropping dead prefixes
        subst = self.subst
        if '\0' in wl:
            return []
        words = self.d.words
        if not any(ch in subst for ch in wl):
            return [wl] if wl in words else []
        cand = ['']
        for i, ch in enumerate(wl):
            alt = subst.get(ch)
            if alt is None:
                cand = [c + ch for c in cand]
            else:
                nxt = []
                for c in cand:
                    for x in (ch, alt):
                        # prune when there are many candidates
                        nxt.append(c + x)
                if len(nxt) > 8:
                    nxt = [c for c in nxt if has_prefix(words, c)]
                cand = nxt
                if not cand:
                    return []
        return [c for c in cand if c in words]

    # ---- parse

    def parse(self, word):
        """ -> list of parses, sorted within what is specified (see sort_key) """
        r = self._memo.get(word)
        if r is None:
            r = self._parse(word)
            if len(self._memo) > 20000:
                self._memo.clear()
            self._memo[word] = r
        return r

    def _parse(self, word):
        wl = word.lower()
        res = self.raw_parse(word, wl)
        return self.apply_prob(wl, res)

    def apply_prob(self, wl, res):
        if self.ptw is None or not res:
            return res
        probs = [self.prob(wl, p[1]) for p in res]
        if not any(probs):
            k = sum(p[3] for p in res)
            if not k:
                return res
            return [(w, t, n, s / k, o) for (w, t, n, s, o) in res]
        res = [(w, t, n, pr, o) for (w, t, n, s, o), pr in zip(res, probs)]
        res.sort(key=lambda p: -p[3])
        return res

    def prob(self, wl, tag):
        if '\0' in wl:
            return 0
        return self.ptw.get('%s:%s' % (wl, tag), 0) / 1000000.0

    def raw_parse(self, word, wl):
        for stage in self.cfg['stages']:
            res = []
            seen = set()
            for unit in stage:
                res.extend(getattr(self, 'u_' + unit)(word, wl, seen))
            if res:
                return res
        if self.cfg.get('unkn', True):
            return [(wl, 'UNKN', wl, 1.0, ('t',))]
        return []

    def u_dict(self, word, wl, seen):
        return [(w, self.d.paradigms[p][i][1], self.d.normal_form(p, i, w), 1.0, ('d', p, i))
                for w, p, i in self.lookup(wl)]

    def u_initials(self, word, wl, seen, which=''):
        if word not in self.letters:
            return []
        return [(wl, t, wl, self.params['initials'], ('i', 'name' if ',Name,' in t else 'patr')) for t in self.name_tags
                if which in t]

    def u_first_name(self, word, wl, seen):
        return self.u_initials(word, wl, seen, ',Name,')

    def u_patronymic(self, word, wl, seen):
        return self.u_initials(word, wl, seen, ',Patr,')

    def u_number(self, word, wl, seen):
        k = number_shape(word)
        return [(wl, 'NUMB,' + k, wl, self.params['shape'], ('t',))] if k else []

    def u_punct(self, word, wl, seen):
        return [(wl, 'PNCT', wl, self.params['shape'], ('t',))] if punct_shape(word) else []

    def u_roman(self, word, wl, seen):
        return [(wl, 'ROMN', wl, self.params['shape'], ('t',))] if roman_shape(word) else []

    def u_latin(self, word, wl, seen):
        return [(wl, 'LATN', wl, self.params['shape'], ('t',))] if latin_shape(word) else []

    def u_particle(self, word, wl, seen):
        for part in self.cfg['particles']:
            if wl.endswith(part) and len(wl) > len(part):
                base = wl[:-len(part)]
                res = [(w + part, t, n + part, s * self.params['particle'], ('e', part, o))
                       for w, t, n, s, o in self.parse(base)]
                return self.dedupe(res, seen)
        return []

    def u_po_adverb(self, word, wl, seen):
        if len(wl) < 5 or not wl.startswith('по-'):
            return []
        for p in self.parse(wl[3:]):
            g = self.d.grammemes(p[1])
            if 'ADJF' in g and 'sing' in g and 'datv' in g:
                return [(wl, 'ADVB', wl, self.params['po_adverb'], ('t',))]
        return []

    def u_hyphen(self, word, wl, seen):
        if wl.count('-') != 1 or wl[0] == '-' or wl[-1] == '-':
            return []
        if any(wl.startswith(p) for p in self.cfg.get('skip_prefixes', self.cfg['prefixes'])):
            return []
        left, right = wl.split('-')
        lp, rp = self.parse(left), self.parse(right)
        res = []
        for a in lp:
            if split_tag(a[1])[0] not in POS:
                continue
            fa = self.features(a[1])
            for b in rp:
                if self.features(b[1]) == fa:
                    res.append((a[0] + '-' + b[0], a[1], a[2] + '-' + b[2], a[3] * self.params['hyphen'], ('b', a[4], b[4])))
        for b in rp:
            if split_tag(b[1])[0] not in POS:
                continue
            res.append((left + '-' + b[0], b[1], left + '-' + b[2], b[3] * self.params['hyphen'], ('f', left, b[4])))
        return res

    def features(self, tag):
        return frozenset({'gen1': 'gent', 'loc1': 'loct'}.get(g, g)
                         for g in self.d.grammemes(tag) & FEATURES)

    def u_known_prefix(self, word, wl, seen):
        res = []
        for pref in sorted((p for p in self.cfg['prefixes'] if wl.startswith(p)), key=len, reverse=True):
            rest = wl[len(pref):]
            if len(rest) < self.params['min_remainder']:
                continue
            for w, t, n, s, o in self.parse(rest):
                if self.d.productive(t):
                    res.append((pref + w, t, pref + n, s * self.params['known_prefix'], ('p', pref, o)))
        return self.dedupe(res, seen)

    def u_unknown_prefix(self, word, wl, seen):
        res = []
        for k in range(1, min(5, len(wl) - 3) + 1):
            pref, rest = wl[:k], wl[k:]
            for w, p, i in self.lookup(rest):
                t = self.d.paradigms[p][i][1]
                if self.d.productive(t):
                    res.append((pref + w, t, pref + self.d.normal_form(p, i, w), self.params['unknown_prefix'], ('p', pref, ('d', p, i))))
        return self.dedupe(res, seen)

    def u_known_suffix(self, word, wl, seen):
        if len(wl) < self.params['min_word']:
            return []
        found = []
        for k in range(len(self.d.prefixes) - 1, -1, -1):
            pref = self.d.prefixes[k]
            if not wl.startswith(pref):
                continue
            total = 1
            mine = []
            for n in range(self.d.max_suffix_length, 0, -1):
                start, end = wl[:-n], wl[-n:]
                hits = []
                for e in expansions(end, self.subst):
                    if '\0' in e:
                        continue
                    for cnt, p, i in (self.d.pred[k].get(e) or ()):
                        t = self.d.paradigms[p][i][1]
                        if self.d.productive(t):
                            hits.append((cnt, start + e, p, i, t))
                if hits:
                    total += sum(h[0] for h in hits)
                    for cnt, w, p, i, t in hits:
                        key = (w, t, ('d', p))
                        if key in seen:
                            continue
                        seen.add(key)
                        mine.append((cnt, w, p, i, t))
                    break
            found.extend((w, t, self.d.normal_form(p, i, w), cnt / float(total) * self.params['known_suffix'], ('s', p, i))
                         for cnt, w, p, i, t in mine)
        found.sort(key=lambda r: -r[3])
        return found

    def dedupe(self, parses, seen):
        res = []
        for p in parses:
            key = (p[0], p[1], origin_key(p[4]))
            if key in seen:
                continue
            seen.add(key)
            res.append(p)
        return res

    # ---- tags

    def tags(self, word):
        """ multiset of tags for known words; set for predicted ones """
        return [p[1] for p in self.parse(word)]

    # ---- lexemes

    def lexeme(self, p):
        return self._lexeme(p[0], p[1], p[2], p[3], p[4])

    def _lexeme(self, word, tag, nf, score, o):
        kind = o[0]
        if kind in 'ds':
            para, idx = o[1], o[2]
            stem = self.d.stem(para, idx, word)
            return [(pr + stem + su, t, nf, 1.0, (kind, para, i))
                    for i, (pr, t, su) in enumerate(self.d.paradigms[para])]
        if kind == 't':
            return [(word, tag, nf, score, o)]
        if kind == 'i':
            if o[1] == 'name':
                g = 'masc' if 'masc' in self.d.grammemes(tag) else 'femn'
                tags = [t for t in self.name_tags if ',Name,' in t and g in split_tag(t)]
            else:
                tags = [t for t in self.name_tags if ',Patr,' in t]
            return [(word, t, nf, score, o) for t in tags]
        if kind == 'p':
            k = len(o[1])
            return [(o[1] + w, t, o[1] + n, s, ('p', o[1], oo))
                    for w, t, n, s, oo in self._lexeme(word[k:], tag, nf[k:], score, o[2])]
        if kind == 'e':
            k = len(o[1])
            return [(w + o[1], t, n + o[1], s, ('e', o[1], oo))
                    for w, t, n, s, oo in self._lexeme(word[:-k], tag, nf[:-k], score, o[2])]
        if kind == 'f':
            pre = o[1] + '-'
            k = len(pre)
            return [(pre + w, t, pre + n, s, ('f', o[1], oo))
                    for w, t, n, s, oo in self._lexeme(word[k:], tag, nf[k:], score, o[2])]
        if kind == 'b':
            wa, wb = word.split('-')
            na, nb = nf.split('-')
            left = self._lexeme(wa, tag, na, score, o[1])
            right = self._lexeme(wb, tag, nb, score, o[2])
            same = {'V-oy': 'V-ey', 'gen1': 'gent', 'loc1': 'loct'}
            norm = lambda t: frozenset(same.get(g, g) for g in self.d.grammemes(t))
            ln = [norm(x[1]) for x in left]
            res = []
            for r in right:
                rn = norm(r[1])
                best = min(range(len(left)), key=lambda j: len(ln[j] ^ rn))
                l = left[best]
                res.append((l[0] + '-' + r[0], l[1], l[2] + '-' + r[2], (l[3] + r[3]) / 2., ('b', l[4], r[4])))
            return res
        raise AssertionError(o)

    def normalized(self, p):
        word, tag, nf, score, o = p
        if o[0] in 'ds':
            para = o[1]
            return (nf, self.d.paradigms[para][0][1], nf)
        if o[0] == 't':
            return (word, tag, nf)
        if o[0] == 'p':
            k = len(o[1])
            w, t, n = self.normalized((word[k:], tag, nf[k:], score, o[2]))
            return (o[1] + w, t, o[1] + n)
        if o[0] == 'e':
            k = len(o[1])
            w, t, n = self.normalized((word[:-k], tag, nf[:-k], score, o[2]))
            return (w + o[1], t, n + o[1])
        return self.lexeme(p)[0][:3]

    def inflect(self, p, required, lexeme=None):
        """ chosen (word, tag, nf) or None """
        if lexeme is None:
            lexeme = self.lexeme(p)
        gr = self.d.grammemes
        required = frozenset(required)
        cand = [f for f in lexeme if required <= gr(f[1])]
        if not cand:
            required = frozenset(RARE.get(g, g) for g in required)
            cand = [f for f in lexeme if required <= gr(f[1])]
        if not cand:
            return None
        want = self.d.gr.updated(gr(p[1]), required)
        best, best_f = None, None
        for f in cand:
            g = gr(f[1])
            sim = len(want & g) - 0.1 * len(want ^ g)
            if best is None or sim > best:
                best, best_f = sim, f
        return best_f

    def is_known(self, word, strict=False):
        wl = word.lower()
        if strict:
            return '\0' not in wl and wl in self.d.words
        return bool(self.known_forms(wl))


def origin_key(o):
    """ what distinguishes two parses of the same word with the same tag """
    if o[0] in 'ds':
        return ('d', o[1])
    if o[0] in 'pe':
        return origin_key(o[2])
    if o[0] == 'f':
        return ('h', o[2])
    if o[0] == 'b':
        return ('h', o[2])
    return None


def has_prefix(words, p):
    return words.dct.follow_bytes(p.encode('utf8'), words.dct.ROOT) is not None


# ---------------------------------------------------------------- shapes

_ROMAN = set()


def _roman_numerals():
    if not _ROMAN:
        ones = ['', 'I', 'II', 'III', 'IV', 'V', 'VI', 'VII', 'VIII', 'IX']
        tens = ['', 'X', 'XX', 'XXX', 'XL', 'L', 'LX', 'LXX', 'LXXX', 'XC']
        hund = ['', 'C', 'CC', 'CCC', 'CD', 'D', 'DC', 'DCC', 'DCCC', 'CM']
        for m in range(5):
            for h in hund:
                for t in tens:
                    for o in ones:
                        _ROMAN.add('M' * m + h + t + o)
        _ROMAN.discard('')
    return _ROMAN


_UP = dict((chr(c), chr(c - 32)) for c in range(ord('a'), ord('z') + 1))


def roman_shape(tok):
    return ''.join(_UP.get(c, c) for c in tok) in _roman_numerals()


def punct_shape(tok):
    body = [c for c in tok if not c.isspace()]
    return bool(body) and all(unicodedata.category(c).startswith('P') for c in body)


def latin_shape(tok):
    letters = [c for c in tok if unicodedata.category(c) in ('Lu', 'Ll', 'Lt', 'Lm', 'Lo')]
    return bool(letters) and all('LATIN' in unicodedata.name(c, '') for c in letters)


def number_shape(tok):
    """ 'intg' | 'real' | None: a numeral has at least one digit and reads as a number """
    if not any(unicodedata.category(c) == 'Nd' for c in tok):
        return None
    try:
        int(tok)
        return 'intg'
    except ValueError:
        pass
    try:
        float(tok.replace(',', '.'))
        return 'real'
    except ValueError:
        return None
