"""Alternate spellings of a romanization are read alike: capital letters, decomposed letters, the documented alternates."""
from vc.ob import Ob
from vc import dom as D
from . import scripts as S

ASSUMPTIONS = ['domain: what the romanization writes for running Devanagari text; the alternates are those documented for the scheme']

LOWER = 'abcdefghijklmnopqrstuvwxyz'
DIA = 'āīūēōṛṝḷḹṃṁḥṅñṭḍṇśṣ'
# scheme: alternates (written, alternate) that may replace each other, with the sequences in which the alternate reads otherwise
ALT = {
    'Itrans': [('A', 'aa'), ('I', 'ii'), ('I', 'ee'), ('U', 'uu'), ('U', 'oo'), ('R^i', 'RRi'), ('R^I', 'RRI'), ('L^i', 'LLi'), ('L^I', 'LLI'), ('~N', 'N^'), ('~n', 'JN'),
               ('Ch', 'chh'), ('Sh', 'shh'), ('kSh', 'x'), ('j~n', 'GY'), ('j~n', 'dny'), ('M', '.n'), ('M', '.m'), ('v', 'w'), ('oM', 'AUM'), ('.', '|')],
    'BarahaNorth': [('aa', 'A'), ('ee', 'I'), ('oo', 'U'), ('RU', 'Roo'), ('kh', 'K'), ('gh', 'G'), ('C', 'Ch'), ('c', 'ch'), ('jh', 'J'), ('ph', 'P'), ('bh', 'B'), ('v', 'w'), ('S', 'sh'), ('au', 'ou')],
}


def decomposed(s):
    """the letters with a sign, written as letter and combining sign (the texts in question have one sign per letter, or two in canonical order)"""
    import unicodedata
    for c in DIA + 'ïü':
        for d in (c, c.upper()): s = s.replace(d, unicodedata.normalize('NFD', d))
    return s


def up(cs):
    def f(s):
        for c in cs: s = s.replace(c, c.upper())
        return s
    return f


def alts(x):
    if x in ('IAST', 'ISO', 'Titus', 'IASTPali', 'ISOPali'):
        yield 'capitals', up(LOWER + DIA)
        yield 'capital vowels', up('aeiouāīūēō')
        yield 'capital consonants', up('kgcjtdpbmyrlvshñṅṭḍṇśṣ')
        yield 'decomposed', decomposed
    if 'ISO' in x: yield 'ṃ', lambda s: s.replace('ṁ', 'ṃ')
    for a, b in ALT.get(x, ()): yield '%s=%s' % (a, b), lambda s, a=a, b=b: s.replace(a, b)


def obligations(T, tier, seed):
    out = []
    for x in ['IAST', 'ISO', 'Titus', 'IASTPali', 'ISOPali'] + list(ALT):
        for nm, f in alts(x):
            def impl(T, s, x=x, f=f): return T.process(x, 'Devanagari', f(T.process('Devanagari', x, s, False)), False)
            if f is not decomposed: doms = [('', S.domain(x))]
            else: doms = [('', S.domain(x, hiatus=False)), (',hiatus', S.domain(x, C='कञ', V='अइउऋ', VS='िुा', digits='१', punct=' \n'))]
            for k, d in doms: out.append(Ob('reads[%s,%s%s]' % (x, nm, k), 'eq', impl, lambda T, s: s, d))
    return out
