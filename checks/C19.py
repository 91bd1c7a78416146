"""Vedic accents: each accent stands where it stood, and does not influence how the letters are written."""
from vc.ob import Ob
from vc import dom as D
from vc.enc import avoid_factors
from . import scripts as S, ortho as O, C20

ASSUMPTIONS = ['letters of the domain: a selection of vowels and consonants; one accent to a syllable']
OWNSIGNS = set('TamilExtended Devanagari Sharada Telugu Kannada Malayalam Gujarati Bengali Oriya Gurmukhi Tamil Assamese'.split())
ROMAN = set('ISOPali IASTPali ISO IAST Titus RussianCyrillic'.split())
ASCII = set('SLP1 HK Itrans Velthuis WX'.split())
DEV = '॒॑᳚'


def signs(y):
    """anudatta, svarita, long svarita in the script"""
    if y in OWNSIGNS: return list(DEV)
    if y == 'Grantha': return ['॒', '᳴', '॑']
    if y in ('RomanColloquial', 'RomanReadable'): return ['', '', '']
    if y in ROMAN: return ['\u0331', '\u030d', '\u030e']
    if y in ASCII: return ['\\_', "\\'", '\\"']
    return ['↓', '↑', '↑↑']


def text(C, V='अइउए', VS='ािुे', Y='ंः', acc=DEV):
    return D.aksharas(V=V, VS=VS, C=C, Y=Y, seps=' \n', mid=acc)


SETS = ['कतनमयरवस', 'गङदपमयरलह', 'चञजटणडनयष', 'खघथधनफबभमशस']
SMALL = {('Malayalam', True): ['कतनम', 'पमयर', 'गङदल', 'चञजटय', 'टणडन', 'भमशसह', 'खघनव']}
# an accent stands between the letters where these scripts join them
APART = {'Balinese', 'Javanese', 'Mongolian', 'Nandinagari', 'Sundanese'}


def obligations(T, tier, seed):
    out = []
    for y in sorted(set(O.EXC) | set(S.ROUND)):
        if y == 'Devanagari' or y in APART: continue
        a = signs(y)
        lack = S.ROUND.get(y, ('', (), True))[0]
        for nat in (False, True):
            for i, C in enumerate(SMALL.get((y, nat), SETS) + ([D.C] if tier != 'quick' else [])):
                def impl(T, s, y=y, nat=nat, a=a):
                    r = T.process('Devanagari', y, s, nat)
                    for x in a: r = r.replace(x, '')
                    return r
                def spec(T, s, y=y, nat=nat):
                    for x in DEV: s = s.replace(x, '')
                    return T.process('Devanagari', y, s, nat)
                out.append(Ob('letters[%s%s,%d]' % (y, ',native' if nat else '', i), 'eq', impl, spec, D.drop(text(C), lack), cross=2))
    for x in S.ROUND:
        if x == 'Devanagari': continue
        lack, seqs, hi = S.ROUND[x]
        for i, C in enumerate(SETS + ([D.C] if tier != 'quick' else [])):
            def impl(T, s, x=x): return T.process(x, 'Devanagari', T.process('Devanagari', x, s, False), False)
            out.append(Ob('roundtrip[%s,%d]' % (x, i), 'eq', impl, lambda T, s: s, D.restrict(D.drop(text(C), lack), list(seqs), [], ' \n'), cross=2))
    for y in T.GeneralMap.IndicScripts + T.GeneralMap.LatinScripts:
        if y in C20.SKIP | C20.JOINS: continue
        for nat in (False, True):
            m = {ord(a): b for a, b in zip(DEV, signs(y))}; m[ord('क')] = T.process('Devanagari', y, 'क', nat)
            def impl(T, s, y=y, nat=nat): return T.process('Devanagari', y, s, nat)
            out.append(Ob('signs[%s%s]' % (y, ',native' if nat else ''), 'eq', impl, lambda T, s, m=m: s.translate(m), avoid_factors(['क', '\n', '★'] + list(DEV), [a + b for a in DEV + '\n★' for b in DEV]), cross=2))
    return out
