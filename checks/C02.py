"""Conversions commute: going through X changes nothing (conv(X,Y) after conv(Dev,X) equals conv(Dev,Y)), nativization off."""
from vc.ob import Ob, known_factors
from vc import dom as D
from . import scripts as S

MAINROMAN = ['IAST', 'ISO', 'HK', 'Itrans', 'SLP1', 'Velthuis', 'WX', 'Titus', 'RussianCyrillic', 'DevanagariRomanLoC']
HUBS = ['Telugu', 'Grantha', 'Gujarati', 'Brahmi', 'Oriya', 'Balinese']
HARD = {'Tibetan', 'LaoPali', 'Kawi', 'Javanese', 'Sinhala', 'Khmer', 'MasaramGondi', 'MeeteiMayek'}    # thorough tier only, but for the hubs
# not among the pairs: an IPA that depends on the source language by design; a Mongolian that is a transcription
NOTARGET = {'Mongolian', 'IPA', 'BengaliRaBa'}
NOSOURCE = {'BengaliRaBa', 'Mongolian', 'IPA', 'IASTPali', 'ISOPali', 'WX-kok'}


def domain(x, y, name):
    lx, sx, hx = S.ROUND[x]
    hi = hx and (y in S.ROUND and S.ROUND[y][2])
    kf, kw = known_factors('C02', name)
    d = D.texts(hiatus=hi)
    d = D.drop(d, lx + ('।॥' if y == 'WX-kok' else ''))
    return D.restrict(d, S.OMAV + list(sx) + kf, S.OM + kw, ' \n,?!।॥')


def pairs(tier):
    for x in S.ROUND:
        for y in S.ROUND:
            if x == y or 'Devanagari' in (x, y) or x in NOSOURCE or y in NOTARGET: continue
            rx = x in S.ROMAN; ry = y in S.ROMAN
            if tier == 'quick':
                if rx and ry: ok = x in MAINROMAN and y in MAINROMAN
                elif rx: ok = x in MAINROMAN and y in HUBS[:4]
                elif ry: ok = y in MAINROMAN and x not in HARD
                else: ok = (x in HUBS and y != 'Kawi') or (y in HUBS and x not in ('Tibetan', 'LaoPali')) or (x, y) == ('Brahmi', 'Kawi')
                if not ok: continue
            yield x, y


def obligations(T, tier, seed):
    out = []
    for x, y in pairs(tier):
        def impl(T, s, x=x, y=y): return T.process(x, y, T.process('Devanagari', x, s, False), False)
        def spec(T, s, y=y): return T.process('Devanagari', y, s, False)
        name = 'via[%s->%s]' % (x, y)
        out.append(Ob(name, 'eq', impl, spec, domain(x, y, name), weight=(x in S.ROMAN) + (y in S.ROMAN), cross=0, tmo=40 if tier == 'quick' else 400))
    return out
