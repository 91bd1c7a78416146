"""Conversion works block by block: text on separate lines, or separated by a foreign sign, is converted independently."""
from vc.ob import Ob, known_factors
from vc import dom as D
from . import scripts as S, ortho as O

ASSUMPTIONS = ['the foreign separator is represented by one sign (a star)']
# targets whose rules are many: the domain is split into overlapping consonant subsets, with the other letters in ordinary order
BIG = set('''Assamese Avestan Bengali Buginese Buhid Burmese Chakma Gurmukhi GurmukhiLoC HanifiRohingya Hebr Kannada Kawi Khojki KhuenTham Lao2
 LaoTham Limbu LueTham Makasar Malayalam Mon Oriya PhagsPa Sogo Tagbanwa TaiTham TamilGrantha Telugu Thaana Thai ThamLoC'''.split())
SUBS = ['कगतनमयरवह', 'कङचञटणपमलस', 'खघछजझठडढथ', 'दधफबभशषसर']
MINI = set('Ahom Hebrew KhomThai Lepcha Mongolian Multani Shahmukhi Urdu Cham Lao LimbuLoC Tamil Nandinagari Nbat'.split())
MSUBS = ['कनम', 'टणप', 'यरव', 'तसह', 'लगद']
# rules of these look at the sign before or after, whatever it is: only lines are independent
LINES = {'Thai', 'PhagsPa', 'IPA'}
ORDERED = {'Soyombo', 'IPA'}                     # a lone virama or visarga between two foreign signs is not text
LATE = {'KhomThai', 'Mongolian', 'PhagsPa'}      # too large for the quick tier
FINAL = 'कखगघचछजझतथदधमनणङञपफबभषशसस'             # letters that may become a Hebrew final form (known finding)
UNREACHED = {'Kharoshthi', 'OldPersian'}         # numerals are computed
# letters of the romanizations, when they are the source
LOWER = 'abcdefghijklmnopqrstuvwxyz'
DIACR = 'āīūṛṃḥṅñṭḍṇśṣ'
ROMAN = {'IAST': 'āīūṛṝḷḹṃḥṅñṭḍṇśṣ', 'ISO': 'āīūr̥̄l̥ṁḥṅñṭḍṇśṣēō', 'Titus': 'āīūr̥̄l̥ṃḥṅñṭḍṇśṣ', 'RussianCyrillic': 'абвгджийклмнопрстухцчшыэюя̄̇', 'HK': 'ARlRMHGJTDNzS', 'Itrans': 'AIUR^iLMH~NTDSh.na',
         'SLP1': 'AIUfFxXeEoOMHKGNCJYwWqQRTDPBSz', 'Velthuis': '".~', 'WX': 'AIUqQLEOMHKGfCJFtTdDNwWxXPBSRz', 'BarahaNorth': 'AIURuMHGNTDSh~', 'BarahaSouth': 'AIURuMHGNTDSh~'}
ROMAN['WX-kok'] = ROMAN['WX']
PARTS = ['bcdfgjklmn', 'pqrstvwxyz', 'kgcjtdpbms', 'hnlryvqxfz']
SPLIT = {'ISO', 'Titus', 'Itrans', 'BarahaNorth', 'BarahaSouth', 'RomanColloquial', 'RomanReadable'}


def sources(T, tier):
    for x in O.EXC: yield x, ''.join(sorted(set(''.join(O.letters(x).values()))))
    for x in T.GeneralMap.LatinScripts:
        if x == 'RomanLoC': continue
        ex = ROMAN.get(x, DIACR)
        if x not in SPLIT: yield x, LOWER + ex
        else:
            if tier == 'quick': ex = ''.join(c for c in ex if c not in '^~.\u0325\u0304' + ('RL' if x == 'Itrans' else ''))        # the joiners multiply the states
            for p in PARTS: yield x, 'aeiou' + p + ''.join(c for c in ex if c not in 'ṅñṭḍṇśṣNTDS' or p in PARTS[1:3])


def obligations(T, tier, seed):
    G = T.GeneralMap
    out = []
    for y in dict.fromkeys(G.IndicScripts + G.LatinScripts + G.SemiticScripts):
        if y in UNREACHED: continue
        if y in LATE and tier == 'quick': continue
        sep = '\n' if y in LINES else '\n★'
        for native in (False, True):
            def impl(T, s, y=y, native=native): return T.process('Devanagari', y, s, native)
            nm = 'blocks[%s%s' % (y, ',native' if native else '')
            if (y, native) == ('Multani', True) and tier == 'quick': continue
            if y in MINI:
                for k, sub in enumerate(MSUBS):
                    d = D.texts(hiatus=True, V='अइएओ', VS='िुेो', C=sub, punct=' ,' + sep, digits='१', danda='।')
                    out.append(Ob(nm + ',%d]' % k, 'line', impl, None, d, cross=4, sep=sep, weight=3, tmo=None if tier == 'thorough' else 40))
            elif y in BIG:
                for k, sub in enumerate(SUBS):
                    d = D.texts(hiatus=True, C=sub, punct=' ,?' + sep, digits='०१')
                    if y == 'Hebr': d = D.drop(d, FINAL)
                    out.append(Ob(nm + ',%d]' % k, 'line', impl, None, d, cross=4, sep=sep, weight=3, tmo=None if tier == 'thorough' else 60))
            else:
                d = D.texts(hiatus=True, punct=' ,?!' + sep)
                if y not in ORDERED and y not in G.SemiticScripts: d = D.star(d.alpha)
                out.append(Ob(nm + ']', 'line', impl, None, d, cross=4, sep=sep))
    n = {}
    for x, al in sources(T, tier):
        n[x] = n.get(x, -1) + 1
        for y in ('Devanagari', 'Telugu', 'IAST', 'Tamil', 'Bengali', 'HK') if tier != 'quick' else ('Devanagari', 'Telugu', 'IAST'):
            if x == y or (x in ('Tibetan', 'ZanabazarSquare') and y == 'IAST'): continue
            def impl(T, s, x=x, y=y): return T.process(x, y, s, False)
            out.append(Ob('from[%s->%s%s]' % (x, y, ',%d' % n[x] if x in SPLIT else ''), 'line', impl, None, D.star(al + ' ,.!\n'), cross=4, tmo=None if tier == 'thorough' else 60))
    return out
