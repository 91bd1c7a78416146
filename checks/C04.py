"""Text that belongs to neither script passes through unchanged (all scripts, nativization off and on)."""
from vc.ob import Ob, known_factors
from vc import dom as D
from . import scripts as S

ASSUMPTIONS = ['one representative letter or sign per foreign script; every other character the code does not mention is treated by it in the same way']
# letters and signs of scripts that are neither source nor target, with the scripts whose letter (or look-alike letter) each one is
FOREIGN = {c: () for c in 'αβωж中文かა🙂€→★∀“”–—…•°§½●│┃'}
FOREIGN.update({'한': ('*semitic',), 'д': ('RussianCyrillic',), '©': ('TolongSiki',), '§': ('TolongSiki',)})
for c in 'αβω': FOREIGN[c] = ('Grek',)
COMBINING = 'ాാ\u09beு'                           # the Semitic module strips combining marks
OWN = {
    'কা': ('Assamese', 'Bengali', 'BengaliRaBa', 'GranthaGrantamil'),
    'కా': ('Telugu',), 'ಕ': ('Kannada',), 'ક': ('Gujarati',), 'କ': ('Oriya',), 'ਕ': ('Gurmukhi', 'GurmukhiLoC'),
    'മാ': ('Malayalam', 'GranthaPandya', 'TamilExtended'), 'கு': ('Tamil', 'TamilGrantha', 'Vatteluttu'),
    'ก': ('Thai', 'KhomThai'), 'ກ': ('Lao', 'Lao2', 'LaoPali'), 'ក': ('Khmer', 'KhmerLoC'), 'က': ('Burmese', 'KhamtiShan', 'Mon', 'TaiLaing', 'Shan', 'ShanLoC'),
    'བ': ('Tibetan', 'TibetanLoC'), '𑀓': ('Brahmi', 'TamilBrahmi', 'Brah'),
}
for cs, ss in OWN.items():
    for c in cs: FOREIGN[c] = ss
PUNCT = ' \n\t,;:?!()[]{}"-/*+=<>@%'
# a script's own word separators and punctuation replace the common ones
PUNCTOF = {'Bhaiksuki': ' ', 'Kaithi': ' ', 'Khojki': ' ', 'PhagsPa': ' ', 'Tibetan': ' ', 'TibetanLoC': ' ', 'Ugar': ' ', 'Limbu': '?', 'LimbuLoC': '?', 'WarangCiti': '½', 'Type': ':@?', 'Ariyaka': '@'}
for x in 'Arab Arab-Fa Arab-Ur Arab-Pa HanifiRohingya Shahmukhi Thaa Thaana Urdu'.split(): PUNCTOF[x] = ',;?'
for x in ('Tibetan', 'TibetanLoC'): PUNCTOF[x] = ' (){}'
PUNCTOF['KhmerLoCRomanLoC'] = ':!'; PUNCTOF['ShanLoCRomanLoC'] = ','
for x in ('Limbu', 'LimbuLoC'): PUNCTOF[x] = '?!'

UNREACHED = {'Kharoshthi', 'OldPersian'}         # numerals are computed


def letters(T, src, tgt):
    """the foreign characters for a pair"""
    sem = T.GeneralMap.SemiticScripts
    lat = T.GeneralMap.LatinScripts
    out = []
    for c, own in FOREIGN.items():
        if src in own or tgt in own: continue
        if c in COMBINING and (src in sem or tgt in sem): continue
        if '*semitic' in own and (src in sem or tgt in sem or src in IND2SEM or src in lat): continue
        out.append(c)
    joiners = '(){}' if src in T.GeneralMap.LatinScripts else ''         # () and {} are the joiners in romanized input
    p = [c for c in PUNCT if c not in joiners and c not in PUNCTOF.get(src, '') and c not in PUNCTOF.get(tgt, '')]
    return [c for c in out if c not in PUNCTOF.get(src, '') + PUNCTOF.get(tgt, '')] + p


IND2SEM = {'Hebrew', 'Thaana', 'Urdu', 'Shahmukhi'}


def pairs(T, tier):
    G = T.GeneralMap
    al = list(dict.fromkeys(G.IndicScripts + G.LatinScripts + G.SemiticScripts))
    al = [x for x in al if x not in UNREACHED and x != 'RomanLoC']
    for x in al:
        for y in al:
            if x == y: continue
            if 'Devanagari' in (x, y) or tier != 'quick':
                yield x, y, False; yield x, y, True
            elif 'IAST' in (x, y): yield x, y, False


def obligations(T, tier, seed):
    G = T.GeneralMap
    latin = set(G.LatinScripts) | set(G.SemiticScripts)
    out = []
    for x, y, native in pairs(T, tier):
        al = letters(T, x, y)
        # ASCII letters and digits are foreign to a script that does not use them
        if x not in latin and x not in IND2SEM and y not in G.SemiticScripts and x != 'RomanSemitic': al = al + list('abz')
        def impl(T, s, x=x, y=y, native=native): return T.process(x, y, s, native)
        out.append(Ob('passes[%s->%s%s]' % (x, y, ',native' if native else ''), 'eq', impl, lambda T, s: s, D.star(al), cross=1))
    return out
