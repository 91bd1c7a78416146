"""Orthography tables, written and reviewed by hand against the Unicode character names: how each script writes a
Devanagari letter.  Letters whose Unicode name is the Devanagari name under the script's own prefix are looked up in the
Unicode character database; everything that differs is spelled out.  Independent of /repo."""
import unicodedata as _ud
from vc import dom as D

LETTERS = D.V + D.VS + D.C + D.Y + D.VIRAMA + 'ऽ' + D.DIG + '।॥'

# script: (prefix of its Unicode character names, letters spelled otherwise)
EXC = {
    'Assamese': ('BENGALI', {'र': 'ৰ', 'व': 'ৱ'}),
    'Balinese': ('BALINESE', {'अ': 'ᬅ', 'आ': 'ᬆ', 'इ': 'ᬇ', 'ई': 'ᬈ', 'उ': 'ᬉ', 'ऊ': 'ᬊ', 'ऋ': 'ᬋ', 'ॠ': 'ᬌ', 'ऌ': 'ᬍ', 'ॡ': 'ᬎ', 'ए': 'ᬏ', 'ऐ': 'ᬐ', 'ओ': 'ᬑ', 'औ': 'ᬒ', 'ा': 'ᬵ', 'ि': 'ᬶ', 'ी': 'ᬷ', 'ु': 'ᬸ', 'ू': 'ᬹ', 'ृ': 'ᬺ', 'ॄ': 'ᬻ', 'ॢ': 'ᬼ', 'ॣ': 'ᬽ', 'े': 'ᬾ', 'ै': 'ᬿ', 'ो': 'ᭀ', 'ौ': 'ᭁ', 'ख': 'ᬔ', 'घ': 'ᬖ', 'छ': 'ᬙ', 'झ': 'ᬛ', 'ट': 'ᬝ', 'ठ': 'ᬞ', 'ड': 'ᬟ', 'ढ': 'ᬠ', 'ण': 'ᬡ', 'थ': 'ᬣ', 'ध': 'ᬥ', 'फ': 'ᬨ', 'भ': 'ᬪ', 'व': 'ᬯ', 'श': 'ᬰ', 'ष': 'ᬱ', 'ं': 'ᬂ', 'ः': 'ᬄ', 'ँ': 'ᬁ', '्': '᭄', 'ऽ': '\'', '।': '᭞', '॥': '᭟'}),
    'Bengali': ('BENGALI', {'व': 'ভ়'}),
    'Bhaiksuki': ('BHAIKSUKI', {'।': '𑱁', '॥': '𑱂'}),
    'Brahmi': ('BRAHMI', {'्': '𑁆', '।': '𑁇', '॥': '𑁈'}),
    'Dogra': ('DOGRA', {'ऽ': 'ऽ', '०': '०', '१': '१', '२': '२', '३': '३', '४': '४', '५': '५', '६': '६', '७': '७', '८': '८', '९': '९'}),
    'Grantha': ('GRANTHA', {'ए': '𑌏', 'ओ': '𑌓', 'े': '𑍇', 'ो': '𑍋', 'ौ': '𑍗', '०': '௦', '१': '௧', '२': '௨', '३': '௩', '४': '௪', '५': '௫', '६': '௬', '७': '௭', '८': '௮', '९': '௯'}),
    'Gujarati': ('GUJARATI', {'।': '.', '॥': '..'}),
    'Javanese': ('JAVANESE', {'आ': 'ꦄꦴ', 'ऊ': 'ꦈꦴ', 'ऋ': 'ꦉ', 'ॠ': 'ꦉꦴ', 'ऌ': 'ꦊ', 'ॡ': 'ꦋ', 'औ': 'ꦎꦴ', 'ा': 'ꦴ', 'ि': 'ꦶ', 'ी': 'ꦷ', 'ु': 'ꦸ', 'ू': 'ꦹ', 'ृ': 'ꦽ', 'ॄ': '꧀ꦉꦴ', 'ॢ': '꧀ꦊ', 'ॣ': '꧀ꦋ', 'े': 'ꦺ', 'ै': 'ꦻ', 'ो': 'ꦺꦴ', 'ौ': 'ꦻꦴ', 'ख': 'ꦑ', 'घ': 'ꦓ', 'छ': 'ꦖ', 'झ': 'ꦙ', 'ठ': 'ꦜ', 'ढ': 'ꦞ', 'ण': 'ꦟ', 'थ': 'ꦡ', 'ध': 'ꦣ', 'फ': 'ꦦ', 'भ': 'ꦨ', 'व': 'ꦮ', 'श': 'ꦯ', 'ष': 'ꦰ', 'ं': 'ꦁ', 'ः': 'ꦃ', 'ँ': 'ꦀ', '्': '꧀', 'ऽ': '\'', '।': '꧈', '॥': '꧉'}),
    'Kaithi': ('KAITHI', {'ऽ': 'ऽ', '०': '०', '१': '१', '२': '२', '३': '३', '४': '४', '५': '५', '६': '६', '७': '७', '८': '८', '९': '९', '।': '𑃀', '॥': '𑃁'}),
    'Kannada': ('KANNADA', {'ए': 'ಏ', 'ओ': 'ಓ', 'े': 'ೇ', 'ो': 'ೋ', '।': '.', '॥': '..'}),
    'Kawi': ('KAWI', {'औ': '𑼐𑼴', 'ो': '𑼾𑼴', 'ौ': '𑼿𑼴', 'व': '𑼮', '्': '𑽁', '।': '𑽃', '॥': '𑽄'}),
    'Khmer': ('KHMER', {'अ': 'អ', 'आ': 'អា', 'इ': 'ឥ', 'ई': 'ឦ', 'उ': 'ឧ', 'ऊ': 'ឩ', 'ऋ': 'ឫ', 'ॠ': 'ឬ', 'ऌ': 'ឭ', 'ॡ': 'ឮ', 'ए': 'ឯ', 'ऐ': 'ឰ', 'ओ': 'ឱ', 'औ': 'ឳ', 'ृ': '្ឫ', 'ॄ': '្ឬ', 'ॢ': '្ឭ', 'ॣ': '្ឮ', 'ो': 'ោ', 'ग': 'គ', 'घ': 'ឃ', 'ङ': 'ង', 'ज': 'ជ', 'झ': 'ឈ', 'ञ': 'ញ', 'ट': 'ដ', 'ड': 'ឌ', 'ढ': 'ឍ', 'ण': 'ណ', 'द': 'ទ', 'ध': 'ធ', 'न': 'ន', 'प': 'ប', 'ब': 'ព', 'भ': 'ភ', 'म': 'ម', 'य': 'យ', 'र': 'រ', 'ल': 'ល', 'व': 'វ', 'ष': 'ឞ', 'ं': 'ំ', 'ः': 'ះ', '्': '៑', 'ऽ': 'ៜ', '।': '។', '॥': '៕'}),
    'Khudawadi': ('KHUDAWADI', {'ष': '𑋜𑋩', 'ऽ': 'ऽ'}),
    'Malayalam': ('MALAYALAM', {'ए': 'ഏ', 'ओ': 'ഓ', 'े': 'േ', 'ो': 'ോ', 'ौ': 'ൗ', '०': '0', '१': '1', '२': '2', '३': '3', '४': '4', '५': '5', '६': '6', '७': '7', '८': '8', '९': '9', '।': '.', '॥': '..'}),
    'MasaramGondi': ('MASARAM GONDI', {'ऋ': '𑴦𑴶', '्': '𑵄'}),
    'MeeteiMayek': ('MEETEI MAYEK', {'अ': 'ꯑ', 'आ': 'ꯑꯥ', 'ई': 'ꯑꫫ', 'उ': 'ꯎ', 'ऊ': 'ꯑꫬ', 'ए': 'ꯑꯦ', 'ऐ': 'ꯑꯩ', 'ओ': 'ꯑꯣ', 'औ': 'ꯑꯧ', 'ा': 'ꯥ', 'ि': 'ꯤ', 'ु': 'ꯨ', 'े': 'ꯦ', 'ै': 'ꯩ', 'ो': 'ꯣ', 'ौ': 'ꯧ', 'क': 'ꯀ', 'ख': 'ꯈ', 'ग': 'ꯒ', 'घ': 'ꯘ', 'ङ': 'ꯉ', 'च': 'ꯆ', 'ज': 'ꯖ', 'झ': 'ꯓ', 'त': 'ꯇ', 'थ': 'ꯊ', 'द': 'ꯗ', 'ध': 'ꯙ', 'फ': 'ꯐ', 'भ': 'ꯚ', 'म': 'ꯃ', 'य': 'ꯌ', 'र': 'ꯔ', 'ल': 'ꯂ', 'व': 'ꯋ', 'स': 'ꯁ', 'ह': 'ꯍ', 'ं': 'ꯪ', 'ः': 'ꫵ', '्': '꯭', 'ऽ': '\'', '।': '꯫', '॥': '꯫꯫'}),
    'Modi': ('MODI', {'ऽ': 'ऽ', '।': '𑙁', '॥': '𑙂'}),
    'Nandinagari': ('NANDINAGARI', {'०': '೦', '१': '೧', '२': '೨', '३': '೩', '४': '೪', '५': '೫', '६': '೬', '७': '೭', '८': '೮', '९': '೯'}),
    'Newa': ('NEWA', {'व': '𑐰', '।': '𑑋', '॥': '𑑌'}),
    'Oriya': ('ORIYA', {'व': 'ୱ'}),
    'Saurashtra': ('SAURASHTRA', {'ए': 'ꢍ', 'ओ': 'ꢐ', 'े': 'ꢿ', 'ो': 'ꣂ', 'ऽ': 'ఽ', '।': '꣎', '॥': '꣏'}),
    'Sharada': ('SHARADA', {'।': '𑇅', '॥': '𑇆'}),
    'Siddham': ('SIDDHAM', {'०': '0', '१': '1', '२': '2', '३': '3', '४': '4', '५': '5', '६': '6', '७': '7', '८': '8', '९': '9', '।': '𑗂', '॥': '𑗃'}),
    'Sinhala': ('SINHALA', {'अ': 'අ', 'आ': 'ආ', 'इ': 'ඉ', 'ई': 'ඊ', 'उ': 'උ', 'ऊ': 'ඌ', 'ऋ': 'ඍ', 'ॠ': 'ඎ', 'ऌ': 'ඏ', 'ॡ': 'ඐ', 'ए': 'ඒ', 'ऐ': 'ඓ', 'ओ': 'ඕ', 'औ': 'ඖ', 'ा': 'ා', 'ि': 'ි', 'ी': 'ී', 'ु': 'ු', 'ू': 'ූ', 'ृ': 'ෘ', 'ॄ': 'ෲ', 'ॢ': 'ෟ', 'ॣ': 'ෳ', 'े': 'ේ', 'ै': 'ෛ', 'ो': 'ෝ', 'ौ': 'ෞ', 'क': 'ක', 'ख': 'ඛ', 'ग': 'ග', 'घ': 'ඝ', 'ङ': 'ඞ', 'च': 'ච', 'छ': 'ඡ', 'ज': 'ජ', 'झ': 'ඣ', 'ञ': 'ඤ', 'ट': 'ට', 'ठ': 'ඨ', 'ड': 'ඩ', 'ढ': 'ඪ', 'ण': 'ණ', 'त': 'ත', 'थ': 'ථ', 'द': 'ද', 'ध': 'ධ', 'न': 'න', 'प': 'ප', 'फ': 'ඵ', 'ब': 'බ', 'भ': 'භ', 'म': 'ම', 'य': 'ය', 'र': 'ර', 'ल': 'ල', 'व': 'ව', 'श': 'ශ', 'ष': 'ෂ', 'स': 'ස', 'ह': 'හ', 'ं': 'ං', 'ः': 'ඃ', '्': '්', 'ऽ': '(අ)', '०': '0', '१': '1', '२': '2', '३': '3', '४': '4', '५': '5', '६': '6', '७': '7', '८': '8', '९': '9', '।': '.', '॥': '..'}),
    'Sundanese': ('SUNDANESE', {'ऋ': 'ᮻ', 'ऌ': 'ᮼ', 'ि': 'ᮤ', 'ु': 'ᮥ', 'ृ': '᮪ᮻ', 'ॢ': '᮪ᮼ', 'व': 'ᮝ', 'श': 'ᮯ', 'ं': 'ᮀ', 'ः': 'ᮂ', '्': '᮪', 'ऽ': 'ᮺ', '।': '.', '॥': '..'}),
    'SylotiNagri': ('SYLOTI NAGRI', {'अ': 'ꠅ', 'आ': 'ꠀ', 'ऐ': 'ꠅꠂ', 'ा': 'ꠣ', 'ै': 'ꠂ', 'क': 'ꠇ', 'ख': 'ꠈ', 'ग': 'ꠉ', 'घ': 'ꠊ', 'च': 'ꠌ', 'छ': 'ꠍ', 'ज': 'ꠎ', 'झ': 'ꠏ', 'ट': 'ꠐ', 'ठ': 'ꠑ', 'ड': 'ꠒ', 'ढ': 'ꠓ', 'त': 'ꠔ', 'थ': 'ꠕ', 'द': 'ꠖ', 'ध': 'ꠗ', 'न': 'ꠘ', 'प': 'ꠙ', 'फ': 'ꠚ', 'ब': 'ꠛ', 'भ': 'ꠜ', 'म': 'ꠝ', 'र': 'ꠞ', 'ल': 'ꠟ', 'स': 'ꠡ', 'ह': 'ꠢ', '्': '꠆', 'ऽ': 'ঽ', '०': '০', '१': '১', '२': '২', '३': '৩', '४': '৪', '५': '৫', '६': '৬', '७': '৭', '८': '৮', '९': '৯'}),
    'Takri': ('TAKRI', {'ख': '𑚸', 'ष': '𑚋', 'ऽ': 'ऽ'}),
    'TamilBrahmi': ('BRAHMI', {'्': '𑁆', 'ऽ': '\'', '०': '0', '१': '1', '२': '2', '३': '3', '४': '4', '५': '5', '६': '6', '७': '7', '८': '8', '९': '9', '।': '.', '॥': '..'}),
    'TamilExtended': ('MALAYALAM', {'ए': 'ഏ', 'ओ': 'ഓ', 'े': 'േ', 'ो': 'ോ', '्': '്‌', '०': '0', '१': '1', '२': '2', '३': '3', '४': '4', '५': '5', '६': '6', '७': '7', '८': '8', '९': '9', '।': '.', '॥': '..'}),
    'Telugu': ('TELUGU', {'ए': 'ఏ', 'ओ': 'ఓ', 'े': 'ే', 'ो': 'ో', 'ँ': 'ఀ', '०': '0', '१': '1', '२': '2', '३': '3', '४': '4', '५': '5', '६': '6', '७': '7', '८': '8', '९': '9', '।': '.', '॥': '..'}),
    'Tibetan': ('TIBETAN', {'आ': 'ཨཱ', 'इ': 'ཨི', 'ई': 'ཨཱི', 'उ': 'ཨུ', 'ऊ': 'ཨཱུ', 'ऋ': 'རྀ', 'ॠ': 'རཱྀ', 'ऌ': 'ལྀ', 'ॡ': 'ལཱྀ', 'ए': 'ཨེ', 'ऐ': 'ཨཻ', 'ओ': 'ཨོ', 'औ': 'ཨཽ', 'ी': 'ཱི', 'ू': 'ཱུ', 'ृ': 'ྲྀ', 'ॄ': 'ྲཱྀ', 'ॢ': 'ླྀ', 'ॣ': 'ླཱྀ', 'ै': 'ཻ', 'ौ': 'ཽ', 'च': 'ཙ', 'छ': 'ཚ', 'ज': 'ཛ', 'झ': 'ཛྷ', 'व': 'ཝ', 'ं': 'ཾ', 'ः': 'ཿ', 'ँ': 'ྃ', '्': '྄', 'ऽ': '྅', '।': '།', '॥': '༎'}),
    'Tirhuta': ('TIRHUTA', {}),
    'ZanabazarSquare': ('ZANABAZAR SQUARE', {'आ': '𑨀𑨊', 'इ': '𑨀𑨁', 'ई': '𑨀𑨁𑨊', 'उ': '𑨀𑨂', 'ऊ': '𑨀𑨂𑨊', 'ऋ': '𑨫𑨉', 'ॠ': '𑨫𑨉𑨊', 'ऌ': '𑨬𑨉', 'ॡ': '𑨬𑨉𑨊', 'ए': '𑨀𑨄', 'ऐ': '𑨀𑨄𑨊', 'ओ': '𑨀𑨆', 'औ': '𑨀𑨆𑨊', 'ा': '𑨊', 'ी': '𑨁𑨊', 'ु': '𑨂', 'ू': '𑨂𑨊', 'ृ': '𑩇𑨫𑨉', 'ॄ': '𑩇𑨫𑨉𑨊', 'ॢ': '𑩇𑨬𑨉', 'ॣ': '𑩇𑨬𑨉𑨊', 'ै': '𑨄𑨊', 'ौ': '𑨆𑨊', 'च': '𑨣', 'छ': '𑨤', 'ज': '𑨥', 'झ': '𑨦', '०': '0', '१': '1', '२': '2', '३': '3', '४': '4', '५': '5', '६': '6', '७': '7', '८': '8', '९': '9', '।': '𑩂', '॥': '𑩃'}),
}

_blocks = None


def _block(prefix):
    global _blocks
    if _blocks is None:
        _blocks = {}
        for cp in range(0x0900, 0x12000):
            n = _ud.name(chr(cp), '')
            for k in (' LETTER ', ' VOWEL SIGN ', ' SIGN ', ' DIGIT '):
                if k in n:
                    p, r = n.split(k, 1)
                    _blocks.setdefault(p, {}).setdefault(k.strip() + ' ' + r, chr(cp))
                    break
    return _blocks[prefix]


def letters(script):
    """{Devanagari letter: its spelling in script}; letters the script lacks are absent"""
    prefix, exc = EXC[script]
    b = _block(prefix); out = {}
    for c in LETTERS:
        if c in exc: out[c] = exc[c]; continue
        n = _ud.name(c)
        k = n.replace('DEVANAGARI ', '')
        if k in b: out[c] = b[k]
        elif c in D.DIG and 'DIGIT ' + n.split()[-1] in b: out[c] = b['DIGIT ' + n.split()[-1]]
        elif c in '।॥': out[c] = c
    return out


# ---------------------------------------------------------------- spelling rules that look at neighbouring letters
# Applied in order to the Devanagari text, before the letters are mapped.
CC = '[' + D.C + ']'
SYL = '[' + D.V + D.VS + D.C + ']'
SYLY = '[' + D.V + D.VS + D.C + D.Y + ']'     # what may end a written syllable
WRD = '[' + D.V + D.VS + D.C + D.Y + 'ऽ' + ']'
VARGA = ['कखगघ', 'चछजझ', 'टठडढ', 'तथदध', 'पफबभ']
NASAL = 'ङञणनम'

ANU2NASAL = [('ं([%s])' % v, n + r'्\1') for v, n in zip(VARGA, NASAL)]
# a nasal that opens a homorganic cluster, or a word-final m, is written as anusvara
NASAL2ANU = [('(?<=%s)%s्(?=[%s])' % (SYLY, n, v), 'ं') for v, n in zip(VARGA, NASAL)]
M2ANU = [('(?<=%s)म्(?!%s)' % (SYLY, SYLY), 'ं')]
TALL = 'ङपट'

# the tall AA that keeps a round letter apart from what follows
KAWI_AA = [('(?<!𑽂)([पङट])ा', r'\1𑼵'), ('(?<!𑽂)([पङट])ो', r'\1𑼾𑼵'),
           ('([पङट])𑽂(%s)ा' % CC, r'\1𑽂\2𑼵'), ('([पङट])𑽂(%s)ो' % CC, r'\1𑽂\2𑼾𑼵'),
           ('([पङट])𑽂(%s)𑽂(%s)ा' % (CC, CC), r'\1𑽂\2𑽂\3𑼵'), ('([पङट])𑽂(%s)𑽂(%s)ो' % (CC, CC), r'\1𑽂\2𑽂\3𑼾𑼵'),
           ('𑽂([झपफयस])𑼵', r'𑽂\1ा')]
# vowelless n, n, r, l have letters of their own, unless they join the next letter
CHILLU = [('ण्', 'टठडढणमयव', 'ൺ'), ('न्', 'तथदधनमयरव', 'ൻ'), ('र्', 'यर', 'ർ'), ('ल्', 'पमयलव', 'ൽ')]


# before these, Malayalam writes the nasal out; before the rest of the row, the anusvara
MLNATIVE = [('[ंം]([%s])' % v, n + r'്\1') for v, n in zip(['क', 'चछज', 'टठडढ', 'तथदध', 'प'], 'ങഞണനമ')] + \
    [('(?<=%s)%s(?=[%s])' % (SYLY, n, v), 'ം') for n, v in (('ങ്', 'खगघ'), ('ङ्', 'खगघ'), ('മ്', 'फबभ'), ('म्', 'फबभ'))] + [('(?<=%s)[मമ]്(?!%s)' % (SYLY, SYLY), 'ം'), ('(?<=%s)म्(?!%s)' % (SYLY, SYLY), 'ം')]


RULES = {
    # khanda ta: a ta without vowel, unless it forms a conjunct
    'Assamese': [('(?<!्)त्(?![तथनलमयरवब])', 'ৎ')],
    # a ba below another consonant is read as va, so a real ba is kept apart with a non-joiner
    'Bengali': [('(?<![रबम])्ब', '्\u200cব'), ('(?<![रबमभवব])्व', '्ব'), ('(?<!्)त्(?![तथनलमयरववব])', 'ৎ')],
    'Balinese': [('(?<=%s)र्' % SYL, 'ᬃ')],
    'Khmer': [('(?<!्)र्(%s)' % CC, r'\1៌'), ('्(?=%s)' % CC, '្'), ('िं', 'ឹ')],
    'Sinhala': [('(?<!र)्([यर])', r'්‍\1'), ('क्ष', 'ක්‍ෂ'), ('ज्ञ', 'ඥ')],
    'Saurashtra': [('क्ष', 'ꢒ꣄‍ꢰ')],
    'TamilExtended': [('क्ष', 'ക്ഷ'), ('श्र', 'ശ്‍ര')],
    'Bhaiksuki': [(' ', '𑱃')],
    'Kaithi': [(' ', '⸱')],
    'ZanabazarSquare': [('्(?=%s)' % CC, '𑩇'), ('क𑩇ष', '𑨲')],
    'MasaramGondi': [('क्ष', '𑴮'), ('ज्ञ', '𑴯'), ('त्र', '𑴰'), ('(%s)्र' % CC, r'\1𑵇'), ('र्(?=%s)' % CC, '𑵆'), ('्(?=%s)' % CC, '𑵅')],
    'MeeteiMayek': [('क्', 'ꯛ'), ('ल्', 'ꯜ'), ('म्', 'ꯝ'), ('प्', 'ꯞ'), ('न्', 'ꯟ'), ('त्', 'ꯠ'), ('ङ्', 'ꯡ'), ('य्', 'ꯢ')],
    'Sundanese': [('(?<=%s)र(?=[ृॢ])' % SYL, 'ᮁ'), ('(?<=%s)र्' % SYL, 'ᮁ'), ('ᮁृ', 'ᮁᮻ'), ('ᮁॢ', 'ᮁᮼ'), ('्य', 'ᮡ'), ('्र', 'ᮢ'), ('्ल', 'ᮣ')],
    'Javanese': [('(?<=%s)र(्|(?=[ॄॢॣ]))' % SYL, 'ꦂ'), ('ꦂॄ', 'ꦂꦉꦴ'), ('ꦂॢ', 'ꦂꦊ'), ('ꦂॣ', 'ꦂꦋ'), ('्र', 'ꦿ'), ('्य', 'ꦾ')],
    'Kawi': [('्(?=%s)' % CC, '𑽂'), ('(?<!𑽂)र𑽂(%s)' % CC, r'𑼂\1')] + KAWI_AA,
    'Malayalam': [('(?<=%s)%s(?![%s])' % (WRD, n, c), ch) for n, c, ch in CHILLU] + [('(?<=%s)%s(?=([%s])्\\1)' % (WRD, n, c), ch) for n, c, ch in CHILLU],
    'Tibetan': [(' ', '་')],
}
# the target's own conventions, applied after RULES when nativization is on
NATIVE = {
    'Tibetan': [('्', ''), ('[वཝ]', 'བ'), ('ཪྺ', 'རྦ'), ('[बབ]ྺ', 'བྦ'), ('ྦྺ', 'ྦྦ')],
    'Malayalam': MLNATIVE,
    'Telugu': NASAL2ANU + M2ANU,
    'Kannada': NASAL2ANU + M2ANU,
    'Nandinagari': NASAL2ANU,
    'Sinhala': [('ँ', 'ං')],
    'Saurashtra': [('([नमरल])्ह', r'\1ꢴ')],
    'Assamese': [('(?<=%s)य' % WRD, '\u09df')] + ANU2NASAL,
    'Bengali': ANU2NASAL + [('(?<=%s)य' % WRD.replace(']', 'ব]'), '\u09df'), ('ৎ\u200c?ব', 'त्ব'), ('्\u200cব', '्ব'), ('व', 'ব')],
    'Oriya': ANU2NASAL + [('(?<=%s)य' % WRD.replace(']', D.VIRAMA + ']'), '\u0b5f'), ('(?<!्)व', 'ବ')],
    'Modi': [('इ', 'ई'), ('ऊ', 'उ'), ('ि', 'ी'), ('ू', 'ु'), ('[ऋॠ]', 'री'), ('[ऌॡ]', 'ली'), ('[ृॄ]', '्री'), ('[ॢॣ]', '्ली')],
    'MeeteiMayek': [('ई', 'इ'), ('ऊ', 'उ'), ('ी', 'ि'), ('ू', 'ु'), ('छ', 'च'), ('[ञण]', 'न'), ('ट', 'त'), ('ठ', 'थ'), ('ड', 'द'), ('ढ', 'ध'), ('[शष]', 'स'), ('ः', 'ꯍ꯭')],
    'Sundanese': [('ᮻ', 'ᮛᮩ'), ('ᮼ', 'ᮜᮩ'), ('ृ', 'ᮢᮩ'), ('ॢ', 'ᮣᮩ'), ('ऋ', 'ᮛᮩ'), ('ऌ', 'ᮜᮩ'), ('भ', 'ब')],
}


def tibetan():
    m = letters('Tibetan')
    out = [('्' + c, _ud.lookup(_ud.name(m[c]).replace('TIBETAN LETTER', 'TIBETAN SUBJOINED LETTER'))) for c in D.C]
    # full-size forms where the joined ones would be misread
    return out + [('वྭ', 'ཝྺ'), ('यྱ', 'ཡྻ'), ('रྱ', 'ཪྻ'), ('रྭ', 'ཪྺ'), ('ྺྭ', 'ྺྺ')]


def spec(script, native):
    m = letters(script)
    rules = RULES.get(script, []) + (tibetan() if script == 'Tibetan' else []) + (NATIVE.get(script, []) if native else [])
    pairs = [(k, v) for k, v in m.items() if k != v]

    def f(re, s):
        for p, r in rules: s = re.sub(p, r, s)
        for k, v in pairs: s = s.replace(k, v)
        return s
    return f


# ---------------------------------------------------------------- romanizations: vowels, consonants, other signs (। ॥ are . and ..)
_ROM = {
    'IAST': ('a ā i ī u ū ṛ ṝ ḷ ḹ e ai o au', 'k kh g gh ṅ c ch j jh ñ ṭ ṭh ḍ ḍh ṇ t th d dh n p ph b bh m y r l v ś ṣ s h', "ṃ ḥ m̐ '"),
    'ISO': ('a ā i ī u ū r̥ r̥̄ l̥ l̥̄ ē ai ō au', 'k kh g gh ṅ c ch j jh ñ ṭ ṭh ḍ ḍh ṇ t th d dh n p ph b bh m y r l v ś ṣ s h', 'ṁ ḥ m̐ ’'),
    'DevanagariRomanLoC': ('a ā i ī u ū r̥ r̥̄ l̥ l̥̄ e ai o au', 'k kh g gh ṅ c ch j jh ñ ṭ ṭh ḍ ḍh ṇ t th d dh n p ph b bh m y r l v ś ṣ s h', 'ṃ ḥ m̐ ’'),
    'HK': ('a A i I u U R RR lR lRR e ai o au', 'k kh g gh G c ch j jh J T Th D Dh N t th d dh n p ph b bh m y r l v z S s h', "M H ~ '"),
    'Itrans': ('a A i I u U R^i R^I L^i L^I e ai o au', 'k kh g gh ~N ch Ch j jh ~n T Th D Dh N t th d dh n p ph b bh m y r l v sh Sh s h', 'M H .N .a'),
    'SLP1': ('a A i I u U f F x X e E o O', 'k K g G N c C j J Y w W q Q R t T d D n p P b B m y r l v S z s h', "M H ~ '"),
    'Velthuis': ('a aa i ii u uu .r .R .l .L e ai o au', 'k kh g gh "n c ch j jh ~n .t .th .d .dh .n t th d dh n p ph b bh m y r l v "s .s s h', '.m .h ~m .a'),
    'WX': ('a A i I u U q qV L LV e E o O', 'k K g G f c C j J F t T d D N w W x X n p P b B m y r l v S R s h', 'M H z Z'),
    'Titus': ('a ā i ī u ū r̥ r̥̄ l̥ l̥̄ e ai o au', 'k kʰ g gʰ ṅ c cʰ j jʰ ñ ṭ ṭʰ ḍ ḍʰ ṇ t tʰ d dʰ n p pʰ b bʰ m y r l v ś ṣ s h', "ṃ ḥ m̐ '"),
    'RussianCyrillic': ('а а̄ и ӣ у ӯ р̣ р̣̄ л̣ л̣̄ э аи о ау', 'к кх г гх н̇ ч чх дж джх н̃ т̣ т̣х д̣ д̣х н̣ т тх д дх н п пх б бх м й р л в ш́ ш с х', "м̣ х̣ м̐ '"),
    'BarahaNorth': ('a aa i ee u oo Ru RU ~lu ~lU e ai o au', 'k kh g gh ~g c Ca j jh ~j T Th D Dh N t th d dh n p ph b bh m y r l v S Sh s h'.replace('Ca', 'C'), 'M H ~M &'),
}
ROMAN = list(_ROM)
VORDER = 'अआइईउऊऋॠऌॡएऐओऔ'


def romanspec(name):
    v, c, y = (x.split() for x in _ROM[name])
    a = v[0]; pairs = list(zip(VORDER, v)) + list(zip([D.SIGNOF[x] for x in VORDER[1:]], v[1:])) + list(zip(D.C, c)) + list(zip('ंःँऽ', y))
    pairs += [('्', '')] + [(d, str(i)) for i, d in enumerate(D.DIG)] + ([('।', '.'), ('॥', '..')] if name != 'BarahaNorth' else [('।', '|'), ('॥', '||')])
    wide = 'कगचजटडतदपब' + ('ङञ' if name == 'BarahaNorth' else '')      # letters that a following h would turn into an aspirate
    hiatus = {'IAST': [('अ(इ)', 'अï'), ('अ(उ)', 'अü')], 'ISO': [('अ([इउ])', r'अ:\1')], 'Velthuis': [('अ([इईउऊ])', r'अ_\1')]}.get(name, [('अ([इउ])', r'अ_\1')])

    def f(re, s):
        s = re.sub('([%s])्ह' % wide, r'\1्_ह', s)
        s = re.sub('([%s])(?![%s%s])' % (D.C, D.VS, D.VIRAMA), r'\1अ', s)
        for k, x in hiatus: s = re.sub(k, x, s)
        for k, x in pairs: s = s.replace(k, x)
        return s
    return f
