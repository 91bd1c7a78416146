"""Per-script contracts: which Sanskrit letters a script tells apart, which sequences it writes alike, and the input domain
that follows.  Reviewed by hand; nothing here is computed from /repo."""
from vc import dom as D

OM = ['ओं', 'ओँ']                  # the syllable om standing alone has a sign of its own
OMAV = ['ओंऽ', 'ओँऽ', 'ऽओ']

FULL = 'Assamese BengaliRaBa Devanagari Grantha GranthaGrantamil Gujarati Kannada Newa Oriya Ranjana Saurashtra Sharada SiddhamDevanagari TamilExtended Telugu Tirhuta Balinese Javanese Tibetan Sinhala'.split()
LONG = 'ऋऌॠॡ'; LONGS = 'ृॄॢॣ'

# script: (letters it lacks or merges, sequences it writes alike, may vowels follow vowels)
ROUND = {s: ('', (), True) for s in FULL}
ROUND.update({
    'Bengali': ('', ('्व',), True),                      # ba and va share a shape below another consonant
    'Balinese': ('', ('औँ',), True),
    'Bhaiksuki': ('ॡॣ', (), True),
    'Brahmi': ('ऽ', (), True),
    'Dogra': ('ँऋऌृॄॠॡॢॣ', (), True),
    'GranthaPandya': ('ँ', (), True),
    'Kaithi': ('ऋऌृॄॠॡॢॣ', (), True),
    'Kawi': ('ऌऽॄॠॡॢॣ', (), True),
    'Khmer': ('ँ', (), True),
    'Khudawadi': ('ँःऋऌृॄॠॡॢॣ', (), True),
    'LaoPali': ('ँऋऌृॄॠॡॢॣ', (), True),
    'MasaramGondi': ('ँऌऽॄॠॡॢॣ', ('रृ',), True),
    'MeeteiMayek': ('ँऋऌृॄॠॡॢॣ', (), True),
    'Modi': ('ँ', (), True),
    'Nandinagari': ('ँऌॡॢॣ', (), True),
    'Siddham': ('ऌऽॡॢॣ', (), True),
    'Sundanese': ('ँआईऊएऐओऔखघछझटठडढणथधफषाीूॄेैोौॠॡॣ', (), True),
    'Takri': ('ँऋऌृॄॠॡॢॣ', (), True),
    'TamilBrahmi': ('ँंःऋऌखगघछझठडढथदफबभृॄॠॡॢॣ', ('ओम्',), True),
    'Tibetan': ('', ('ग्ह', 'ज्ह', 'ड्ह', 'द्ह', 'ब्ह', 'र्व्व', 'व्व्व'), True),
    'Vatteluttu': ('ँंऋऌखगघछजझठडढथदधफबभशषसहऽृॄॠॡॢॣ', ('ओम्',), True),
    'ZanabazarSquare': ('ऽ', (), True),
    'SylotiNagri': ('ँंःईऊऋऌओऔङञणयवशषीूृॄोौॠॡॢॣ', ('अउ',), True),
    # romanizations
    'IAST': ('', (), True), 'ISO': ('', (), True), 'Titus': ('', (), True), 'WX': ('', (), True), 'RussianCyrillic': ('', (), True),
    'HK': ('', ('लृ', 'लॄ', 'ऋऋ', 'ऋॠ', 'ऌऋ', 'ऌॠ', 'ृऋ', 'ृॠ', 'ॢऋ', 'ॢॠ', 'ँओं'), True),
    'Itrans': ('', ('ओंङ', 'ओंञ', 'श्ह', 'स्ह', 'द्न्य'), False),
    'Velthuis': ('', tuple('ओं' + c for c in 'ङञटठडढणशष'), False),
    'SLP1': ('', ('त्ढ', 'ँओं'), True),
    'IASTPali': ('ऽ', (), True), 'ISOPali': ('ऽ', (), True), 'IPA': ('ँ', ('ओम्',), True),
    'BarahaNorth': ('', ('छ्ह', 'श्ह', 'स्ह'), False), 'BarahaSouth': ('', ('छ्ह', 'श्ह', 'स्ह'), False),
    'WX-kok': ('', (), False),
    'KannadaRomanLoC': ('', (), True), 'TeluguRomanLoC': ('', (), True), 'SinhalaRomanLoC': ('', (), True), 'DevanagariRomanLoC': ('', (), True),
    'OriyaRomanLoC': ('', ('स्ह',), True), 'AssameseRomanLoC': ('', ('स्ह',), True), 'BengaliRomanLoC': ('', ('स्ह',), True),
    'GujaratiRomanLoC': ('', ('स्ह',), True), 'BurmeseRomanLoC': ('', (), True), 'LimbuLoCRomanLoC': ('', (), True),
    'Santali': ('ऋऌशषृॄॠॡॢॣ', (), True), 'Mongolian': ('ँंआऐओऔऽाैोौ', ('री', 'ली'), False),
})
# big conjunct alphabets: the round trip over overlapping consonant subsets. script: (letters merged, sequences, subsets)
PART = {
    'Malayalam': ('', (), ['कतनणलयव', 'कगङमयरव', 'चजञटडणय', 'थदधनपबभ', 'फमरलशषसह', 'खघछझठढमन']),
    'Gurmukhi': ('', ('श्ष', 'क्क्ख', 'ग्ग्घ', 'च्च्छ', 'ज्ज्झ', 'ट्ट्ठ', 'ड्ड्ढ', 'त्त्थ', 'द्द्ध', 'प्प्फ', 'ब्ब्भ'), ['कखगघङचयरव', 'छजझञटठडढण', 'तथदधनपफबभ', 'मयरलवशषसह']),
    'Tamil': ('', ('स्री',), ['कखगघङतनर', 'चछजझञटनय', 'ठडढणतथदध', 'नपफबभमयर', 'लवशषसहनत']),
}
ROMAN = set('IAST ISO Titus WX RussianCyrillic HK Itrans Velthuis SLP1 IASTPali ISOPali IPA BarahaNorth BarahaSouth WX-kok KannadaRomanLoC TeluguRomanLoC SinhalaRomanLoC DevanagariRomanLoC OriyaRomanLoC AssameseRomanLoC BengaliRomanLoC GujaratiRomanLoC BurmeseRomanLoC LimbuLoCRomanLoC Santali Mongolian'.split())


def domain(script, hiatus=None, drop='', C=None, punct=' \n,?!', **kw):
    lack, seqs, hi = ROUND[script] if script in ROUND else PART[script][:2] + (True,)
    if hiatus is not None: hi = hiatus
    d = D.texts(hiatus=hi, punct=punct, **kw) if C is None else D.texts(hiatus=hi, punct=punct, C=C, **kw)
    d = D.drop(d, lack + drop)
    return D.restrict(d, OMAV + list(seqs), OM, punct + '।॥' )
