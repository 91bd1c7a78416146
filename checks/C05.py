"""Output holds no internal placeholder: nothing the package uses as a marker inside reaches the result."""
from vc.ob import Ob, allowed
from vc import dom as D
from . import scripts as S, C07

ASSUMPTIONS = ['alphabet: every character of the Devanagari block the package knows, ASCII, some foreign characters']
# markers written into the text on the way; none is a letter of any supported script
MARK = ['\uF000', '\u05CC', '\u05CD', '\u034F', '\u02DE', '\u02BD', '\uFDE0', '\uFDE1', '\uFDE2', '\u1E7F', '×', '_\u00D7']
MARK += [chr(0xE000 + i) for i in range(0x100)]                          # letters of the intermediate alphabet
MARK += [chr(b + i) for b in (0xF0000, 0xF2000, 0xF3000, 0xF4000, 0xF5000) for i in range(0x80)]


FONT = {'GranthaGrantamil'}                       # written in the private letters of its font


def obligations(T, tier, seed):
    out = []
    for c in C07.configs(T, tier):
        if c[3] or c[4] or 'Inter' in c[:2]: continue
        def impl(T, s, c=c): return T.process(c[0], c[1], s, c[2])
        mark = [m for m in MARK if not (set(c[:2]) & FONT and '\uE000' <= m < '\uE100') and not (m == '\u1E7F' and c[0] in T.GeneralMap.LatinScripts)]
        out.append(Ob('clean[%s]' % C07.cname(c), 'lang', impl, None, D.star([x for x in C07.alphabet(T, c[0]) if x not in MARK]), lang=allowed(None, mark), cross=0, tmo=20, maxstates=100000))
    return out
