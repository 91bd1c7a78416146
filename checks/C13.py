"""Totality: every conversion returns a text, whatever the text."""
from vc.ob import Ob
from vc import dom as D
from . import C07

ASSUMPTIONS = ['the alphabet is every letter of the source script, the Devanagari and ASCII characters and some foreign characters; recursion and memory limits are not modelled']


def obligations(T, tier, seed):
    out = []
    for c in C07.configs(T, tier):
        def impl(T, s, c=c): return T.process(c[0], c[1], s, c[2], list(c[3]), list(c[4]))
        out.append(Ob('total[%s]' % C07.cname(c), 'total', impl, None, D.star(C07.alphabet(T, c[0])), cross=2))
    return out
