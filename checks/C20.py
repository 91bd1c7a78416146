"""Numeral and danda options: digits and dandas are written as the option says, whatever stands around them."""
from vc.ob import Ob
from vc import dom as D
from vc.enc import avoid_factors
from . import C07

ASSUMPTIONS = ['the letters around digits and dandas are represented by ka']
SKIP = {'Kharoshthi', 'OldPersian', 'RomanLoC'}          # numerals are computed; a name for several romanizations
JOINS = {'Hebrew', 'Makasar', 'Mongolian', 'PhagsPa'}    # ka has final or joined forms
ONEDANDA = {'DivesAkuru', 'KhmerLoCRomanLoC', 'ShanLoCRomanLoC', 'BatakKaro', 'BatakManda', 'BatakPakpak', 'BatakSima', 'BatakToba'}     # write both dandas alike, or with the sign of the other
CTX = [' ', ',', ':', '/', '(', ')', '%']       # what stands next to figures in running text
DEV = '०१२३४५६७८९'


def native(T, y):
    """the digits of a script: the table of the package, each entry checked against the Unicode digit value (obligation digits[..])"""
    return list(T.GeneralMap.CrunchList('NumeralMap', y))


def obligations(T, tier, seed):
    G = T.GeneralMap
    out = []
    targets = [y for y in G.IndicScripts + G.LatinScripts if y not in SKIP]
    from vc import load
    import unicodedata
    for y in targets:
        def fin(T, y=y):
            n = native(T, y); bad = []
            for i, c in enumerate(n):
                v = unicodedata.digit(c, None) if len(c) == 1 else None
                if v != i and y not in ('Inter', 'TolongSiki'): bad.append((str(i), c, 'the digit %d' % i))
            if len(n) != 10 or len(set(n)) != 10: bad.append((y, repr(n), 'ten different digits'))
            return bad, 10, ["convert.convertScript"]
        out.append(Ob('digits[%s]' % y, 'fin', fin=fin))
        n = native(T, y)
        for nat in (False, True):
            k = T.process('Devanagari', y, 'क', nat)
            ctx = [c for c in CTX if T.process('Devanagari', y, c, nat) == c]      # not the script's own sign for it
            lat = y in G.Transliteration
            def add(what, opts, tab):
                m = dict(tab)
                def impl(T, s, y=y, nat=nat): return T.process("Devanagari", y, s, nat, list(opts))
                def spec(T, s):
                    return s.translate({ord(a): b for a, b in m.items()})
                out.append(Ob('%s[%s%s]' % (what, y, ',native' if nat else ''), 'eq', impl, spec, avoid_factors(list(m) + ['\n', '★'] + ctx + (['.'] if 'umer' in what and T.process('Devanagari', y, '.', nat) == '.' else []), ['।।', '।॥', '॥।']), cross=2))
            K = [] if y in JOINS else [('क', k)]
            add('romanNumerals', ['romanNumerals'], list(zip(DEV, '0123456789')) + [(d, d) for d in '0123456789'] + K)
            add('indicNumerals', ['indicNumerals'], list(zip(DEV, n)) + list(zip('0123456789', n)) + K)
            add('indicDandas', ['indicDandas'], [('।', '|' if lat else '।'), ('॥', '||' if lat else '॥')] + K)
            if y not in ONEDANDA: add('romanFullStop', ['romanFullStop'], [('।', '.'), ('॥', '..')] + K)
    # digits of the source, single characters of their own
    for x in targets:
        n = native(T, x)
        if x in ('Devanagari', 'Urdu', 'Shahmukhi') or any(len(c) != 1 or c in '0123456789' for c in n) or len(set(n)) != 10: continue
        for nat in (False, True):
            for what, opts, to in (('digits from', [], DEV), ('romanNumerals from', ['romanNumerals'], '0123456789'), ('indicNumerals from', ['indicNumerals'], DEV)):
                tab = {ord(a): b for a, b in zip(n, to)}
                def impl(T, s, x=x, nat=nat, opts=opts): return T.process(x, 'Devanagari', s, nat, list(opts))
                out.append(Ob('%s[%s%s]' % (what, x, ',native' if nat else ''), 'eq', impl, lambda T, s, tab=tab: s.translate(tab), D.star(n + ['\n', '★'] + [c for c in CTX + ['.'] if c != '(' and T.process(x, 'Devanagari', c, nat) == c]), cross=2))
    return out


