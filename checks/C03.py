"""Every Devanagari letter and sign is written with the letter the target script has for it (nativization off and on)."""
import re
from vc import sym
from vc.ob import Ob, known_factors
from vc import dom as D
from . import scripts as S, ortho as O

ASSUMPTIONS = ['oracle: orthography tables and spelling rules of checks/ortho.py, written against the Unicode character names, independent of /repo']
# targets whose rules make the product too big for all 33 consonants at once: the quick tier takes overlapping subsets
SPLIT = {
    ('Malayalam', False): ['कतनणलयव', 'कलपमयरव', 'कटणदनमय', 'गशषसहरन'],
    ('Malayalam', True): ['पफबभमयर', 'कखगघङमय', 'चजञटणमय', 'तदनमरलव', 'शषसहणमल'],
    ('Kawi', False): ['कटपझयरवन', 'गङटफसरमह', 'चछजझपरलश'],
    ('Kawi', True): ['कटपझयरवन', 'गङटफसरमह', 'चछजझपरलश'],
    ('Nandinagari', True): ['कगङचजञतनमय', 'टढणतदनपबमरह', 'खघङछझठडमशष', 'थधनफभमलवसय'],
    ('Bengali', True): ['कगजतनपबमयरवह', 'खघङचञटडणदधमय', 'तथनबभमयरलवशस'],
    ('Oriya', True): ['कखतदनमयवस', 'गङचजञटडणयव', 'पफबभमयरलवह'],
}
SKIP = {'Sinhala': ['र्र्र']}
VARIANT = ['यय']          # a ya right after a ya: see the listed finding


def run(F, s): return F(sym.RE if sym.is_sym(s) else re, s)


def obligations(T, tier, seed):
    out = []

    def add(name, x, native, F, d, hard):
        def impl(T, s): return T.process('Devanagari', x, s, native)
        out.append(Ob(name, 'eq', impl, lambda T, s: run(F, s), d, weight=50 if hard else 1, tmo=(150 if tier == 'quick' else 1500)))
    for x in O.EXC:
        m = O.letters(x)
        lack = S.ROUND.get(x, ('', (), True))[0] + ''.join(c for c in O.LETTERS if c not in m)
        for native in (False, True):
            F = O.spec(x, native)
            sub = SPLIT.get((x, native))
            for i, C in enumerate([D.C] if not sub else sub if tier == 'quick' else sub + [D.C]):
                name = 'spelling[%s%s%s]' % (x, ',native' if native else '', ',%d' % i if sub else '')
                kf, kw = known_factors('C03', name)
                d = D.restrict(D.drop(D.texts(hiatus=True, C=C), lack), ['ऽओ'] + SKIP.get(x, []) + kf, kw, ' \n,?!।॥')
                add(name, x, native, F, d, sub)
    for x in O.ROMAN:
        lack, seqs, hi = S.ROUND[x]
        for native in (False, True):
            F = O.romanspec(x)
            d = D.restrict(D.drop(D.texts(hiatus=True), lack), ['ऽओ'] + S.OMAV[:2], S.OM, ' \n,?!।॥')
            add('spelling[%s%s]' % (x, ',native' if native else ''), x, native, F, d, False)
    return out
