"""Purity: a conversion depends on its arguments only.  Frame condition of every call: no state of the package is changed, on any path."""
from vc.ob import Ob
from vc import dom as D
from . import scripts as S

ASSUMPTIONS = ['frame: module globals, function defaults and closures, memo tables, class and instance attributes of the package; state outside the package (locale, environment, files) is not written by it',
               'the induction from one call to every history: a call that changes no state leaves every later call as it would be in a fresh process']
# the alphabet of all texts: it decides only which branches on the text are reachable
BASE = D.texts(hiatus=True).alpha + list('ँऽॐ abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.,;:!?|~^_`\'"(){}[]<>@$%&*+-=/\\') + list('中★🙂')
NETWORK = {('Tamil', 'IPA')}                     # calls a web service


# options that act only for one script
SPECIAL = [(o, 'Devanagari', 'Siddham') for o in ('siddhammukta', 'siddhamap')] + [('siddhammukta', 'Siddham', 'Devanagari'), ('LaoNative', 'Devanagari', 'Lao'), ('egrantamil', 'Grantha', 'Tamil'), ('egrantamil', 'Tamil', 'Grantha'),
           ('nepaldevafont', 'Devanagari', 'Newa'), ('ranjanalantsa', 'Devanagari', 'Ranjana'), ('ranjanawartu', 'Devanagari', 'Ranjana'), ('BengaliRaBa', 'Devanagari', 'Bengali'), ('SoyomboFinals', 'Devanagari', 'Soyombo'),
           ('BalineseSimplified', 'Balinese', 'RomanLoC'), ('JavaneseSimplified', 'Javanese', 'RomanLoC'), ('novowelshebrew', 'Hebr', 'Devanagari'), ('indicDandas', 'Tamil', 'Khmer'), ('indicDandas', 'IAST', 'Thai'),
           ('indicNumerals', 'Devanagari', 'Burmese'), ('romanNumerals', 'Devanagari', 'Burmese'), ('romanFullStop', 'Devanagari', 'Burmese'), ('arabicRemoveAdditionsPhonetic', 'Devanagari', 'Arab')]


def alphabet(T, src):
    G = T.GeneralMap
    try: cs = set(''.join(G.CrunchSymbols(G.Vowels + G.VowelSigns + G.Consonants + G.CombiningSigns + G.Numerals + G.Signs + G.Aytham, src)))
    except Exception: cs = set()
    return sorted(cs | set(BASE))


def scripts(T):
    G = T.GeneralMap
    return [x for x in dict.fromkeys(G.IndicScripts + G.LatinScripts + G.SemiticScripts + ['Hiragana', 'Katakana', 'ISO233', 'ISO259', 'HebrewSBL', 'ISO233-2'])]


def functions(mod):
    from inspect import getmembers, isfunction
    return [n for n, f in getmembers(mod, isfunction) if f.__module__ == mod.__name__ and f.__code__.co_argcount - len(f.__defaults__ or ()) == 1]


def configs(T, tier):
    al = scripts(T)
    seen = set()
    def emit(*c):
        k = repr(c)
        if k in seen or (c[0], c[1]) in NETWORK: return
        seen.add(k); yield c
    for y in al:
        for n in (False, True):
            yield from emit('Devanagari', y, n, [], [])
            yield from emit(y, 'Devanagari', n, [], [])
            yield from emit('RomanLoC', y, n, [], [])
            yield from emit(y, 'RomanLoC', n, [], [])
        yield from emit('IAST', y, False, [], [])
        yield from emit(y, 'IAST', False, [], [])
        yield from emit(y, y, True, [], [])
        yield from emit('Latn', y, True, [], [])
        yield from emit(y, 'RomanLoC', True, ['mDotBelowToAbove'], ['ItransLL'])
        yield from emit('RomanLoC', y, True, ['RemoveDiacritics'], ['ItransLL'])
    if tier != 'quick':
        for x in al:
            for y in al: yield from emit(x, y, True, [], []); yield from emit(x, y, False, [], [])
    for o in functions(T.PostProcess):
        for x, y in (('Devanagari', 'Tamil'), ('Devanagari', 'IAST'), ('IAST', 'Devanagari'), ('Devanagari', 'Siddham')): yield from emit(x, y, True, [o], [])
    for o, x, y in SPECIAL: yield from emit(x, y, True, [o], []); yield from emit(x, y, False, [], [o]); yield from emit(x, y, False, [o, 'RemoveDiacritics'], [])
    for o in functions(T.PreProcess):
        for x, y in (('Devanagari', 'IAST'), ('Tamil', 'Devanagari'), ('HK', 'Telugu')): yield from emit(x, y, True, [], [o])


def cname(c): return '%s->%s%s%s%s' % (c[0], c[1], ',native' if c[2] else '', ''.join(',post ' + o for o in c[3]), ''.join(',pre ' + o for o in c[4]))


def obligations(T, tier, seed):
    return [Ob('frame[%s]' % cname(c), 'frame', dom=D.star(alphabet(T, c[0])), cfg=c) for c in configs(T, tier)]
