"""Asking for no conversion changes nothing: same script, nativization off, no options; and the target Ignore."""
from vc.ob import Ob
from vc import dom as D
from . import C07

ASSUMPTIONS = ['the alphabet is every letter of the script, the Devanagari and ASCII characters and some foreign characters']


def obligations(T, tier, seed):
    out = []
    ident = lambda T, s: s
    for x in C07.scripts(T):
        al = C07.alphabet(T, x)
        out.append(Ob('same[%s]' % x, 'eq', lambda T, s, x=x: T.process(x, x, s, False), ident, D.star(al), cross=4))
        out.append(Ob('ignore[%s]' % x, 'eq', lambda T, s, x=x: T.process(x, 'Ignore', s, False), ident, D.star(al), cross=4))
        out.append(Ob('ignore[%s,native]' % x, 'eq', lambda T, s, x=x: T.process(x, 'Ignore', s, True), ident, D.star(al), cross=4))
        out.append(Ob('empty[%s]' % x, 'eq', lambda T, s, x=x: T.process(x, '', s, True), ident, D.star(al), cross=4))
    return out
