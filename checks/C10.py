"""Automatic recognition of the source script."""
import random, unicodedata
from vc.ob import Ob
from vc import dom as D
from . import C07

LEVEL = 'other'
EXPLANATION = 'auto_detect is enumerated on bounded texts (bounded, not counted as proved); its callers are proved against its contract for all texts'
ASSUMPTIONS = ['the rest of the package is checked against the contract of auto_detect (it returns the script), auto_detect itself against that contract by bounded enumeration']
# scripts that Unicode encodes as one script of its own, written with its letters only
OWN = '''Devanagari Sharada Newa Tirhuta Grantha Balinese Javanese Tibetan DivesAkuru Makasar Nandinagari Kawi Hebrew Marchen Soyombo Dogra Khojki
ZanabazarSquare Rejang Multani Ahom Mahajani Hanunoo Buhid Siddham Khudawadi Bhaiksuki Takri SylotiNagri Modi Kaithi Kharoshthi Telugu Kannada
Malayalam Gujarati Bengali Oriya Gurmukhi Tamil Saurashtra Sinhala Khmer Burmese Thaana Thai OldPersian Limbu Lepcha Sundanese Tagalog Tagbanwa
Buginese Chakma MeeteiMayek BatakKaro Cham TaiTham Brahmi MasaramGondi GunjalaGondi HanifiRohingya Mongolian Mro WarangCiti Avestan Santali Lao
SoraSompeng Wancho PhagsPa Urdu Assamese Hiragana Katakana'''.split()
HEAD = {'Hebrew': 'HEBREW', 'DivesAkuru': 'DIVES', 'ZanabazarSquare': 'ZANABAZAR', 'SylotiNagri': 'SYLOTI', 'Burmese': 'MYANMAR', 'OldPersian': 'OLD', 'MeeteiMayek': 'MEETEI',
        'BatakKaro': 'BATAK', 'TaiTham': 'TAI', 'MasaramGondi': 'MASARAM', 'GunjalaGondi': 'GUNJALA', 'HanifiRohingya': 'HANIFI', 'WarangCiti': 'WARANG', 'Santali': 'OL',
        'SoraSompeng': 'SORA', 'PhagsPa': 'PHAGS-PA', 'Urdu': 'ARABIC', 'Assamese': 'BENGALI'}
# letters of another script of the family
NOT = {'Bengali': 'ৰৱ', 'Lao': 'ຆຉຌຎຏຐຑຒຓຘຠຨຩຬ\u0eba', 'Burmese': 'ၚၛၞၟၠဳဨ', 'Urdu': 'ھݨؕ'}
SEPS = [' ', '\n', '  ', ', ', '. ', '-', '(', ') ', '? ', '1', ' 25 ', '!', '"', '\u0964', '\u0965 ', '\u200c', '…', '।। ', '\t', '★', ' = ']
PRE = {'Urdu': ['UrduShortNotShown']}


def letters(T, x):
    L = set()
    G = T.GeneralMap
    if x in ('Hiragana', 'Katakana'):
        lo = 0x3042 if x == 'Hiragana' else 0x30a2
        L = {chr(i) for i in range(lo, lo + 0x50)}
    else:
        for t in ('VowelMap', 'VowelSignMap', 'ConsonantMap', 'AyogavahaMap', 'ViramaMap'):
            L |= set(''.join(G.CrunchList(t, x)))
        lo, hi = {'Burmese': (0x1000, 0x104f)}.get(x, (0, 0x10ffff))
        L = {c for c in L if lo <= ord(c) <= hi}
    h = HEAD.get(x, x.upper())
    return sorted(c for c in L if unicodedata.category(c)[0] in 'LM' and unicodedata.name(c, '').split(' ')[0] == h and c not in NOT.get(x, ''))


def detect(x, tier, seed):
    def fin(T):
        L = letters(T, x); r = random.Random('%s %s' % (x, seed)); bad = []; n = 0
        key = {'Urdu': 'ٹ', 'Assamese': 'ৰ'}.get(x, '')
        def t(w):
            nonlocal n
            n += 1
            try: g = T.auto_detect(w)
            except Exception as e: g = 'raised %r' % (e,)
            if g != x and len(bad) < 5: bad.append((w, g, x))
        for a in L:
            t(a + key)
            for s in SEPS: t(a + s + key); t(s + a + key); t(key + a + s * 3)
        for a in L:
            for b in (L if tier != 'quick' else r.sample(L, min(12, len(L)))): t(a + b + key); t(a + r.choice(SEPS) + b + key)
        other = [c for y in ('Devanagari', 'Tamil', 'Tibetan') if y != x for c in letters(T, y)] + list('abcXYZ')
        for i in range(150 if tier == 'quick' else 3000):
            k = r.randrange(2, 60)
            w = ''.join(r.choice(L) + (r.choice(SEPS) if r.random() < .4 else '') for _ in range(k)) + key
            t(w)
            u = list(w)
            for _ in range(r.choice([k // 3, k - 1])): u.insert(r.randrange(len(u)), r.choice(other))
            t(''.join(u))
        # a bare majority of a long text
        for o in ('a', 'क' if x != 'Devanagari' else 'த'):
            for k in (1, 2, 40, 101, 402): t((L[0] * k + (' ' + o * (k - 1) if k > 1 else '')) + key)
        return bad, n, ['transliterate.auto_detect']
    return fin


def obligations(T, tier, seed):
    out = []
    names = C07.scripts(T)
    for x in OWN:
        out.append(Ob('detect[%s]' % x, 'fin', fin=detect(x, tier, seed), bounded='auto_detect counts characters: every letter, with and without every separator, pairs and random texts of up to 60 letters'))
    # the callers, against the contract of auto_detect
    for x in OWN:
        if x not in names: continue
        d = D.star(C07.alphabet(T, x))
        user = ['RetainDevangariDanda'] if x != 'PhagsPa' else ['shvanakhall']
        for i, y in enumerate(['Devanagari', 'IAST', 'Tamil'] if tier != 'quick' else ['Devanagari', 'IAST']):
            code = {'Devanagari': 'Deva', 'IAST': 'Latn-IAST', 'Tamil': 'Taml'}[y]
            for what, par, tgt, opts in (('name', 'default', y, []), ('name with options', 'default', y, user), ('script code', 'script_code', code, []), ('script code with options', 'script_code', code, user)):
                if i and par != 'default': continue
                def impl(T, s, x=x, tgt=tgt, par=par, opts=opts):
                    old = T.auto_detect
                    T.auto_detect = lambda *a, **k: x
                    try: return T.process('autodetect', tgt, s, True, pre_options=list(opts), param=par)
                    finally: T.auto_detect = old
                def spec(T, s, x=x, y=y, opts=opts):
                    # the spelling variant of Thai and Lao is recognized too
                    pre = T.detect_preoptions(s, x) if x in ('Thai', 'Lao') else PRE.get(x, [])
                    return T.process(x, y, s, True, pre_options=list(opts) + list(pre))
                out.append(Ob('autodetect as %s[%s->%s]' % (what, x, y), 'eq', impl, spec, d, cross=1))
    return out
