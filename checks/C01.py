"""Lossless round trip Devanagari -> X -> Devanagari (nativization off)."""
from vc.ob import Ob
from . import scripts as S

ASSUMPTIONS = ['domain: running Sanskrit text in Devanagari over the letters and sequences the target tells apart (checks/scripts.py)']


def obligations(T, tier, seed):
    out = []
    for x in S.ROUND:
        if x == 'Devanagari': continue
        def impl(T, s, x=x): return T.process(x, 'Devanagari', T.process('Devanagari', x, s, False), False)
        out.append(Ob('roundtrip[%s]' % x, 'eq', impl, lambda T, s: s, S.domain(x), weight=20 if x in S.ROMAN else 1))
    for x, (_, _, subs) in S.PART.items():
        for i, C in enumerate(subs):
            def impl(T, s, x=x): return T.process(x, 'Devanagari', T.process('Devanagari', x, s, False), False)
            out.append(Ob('roundtrip[%s,%d]' % (x, i), 'eq', impl, lambda T, s: s, S.domain(x, C=C), weight=30))
    return out
