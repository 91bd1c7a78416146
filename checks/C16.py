"""Semitic scripts: the 22 letters are written with the letters of the same name."""
from vc.ob import Ob, known_factors
from vc import dom as D

ASSUMPTIONS = []
# the 22 letters aleph to taw; oracle: the names of the characters in Unicode and the order of the historic alphabet
L = {
    'Phnx': '𐤀𐤁𐤂𐤃𐤄𐤅𐤆𐤇𐤈𐤉𐤊𐤋𐤌𐤍𐤎𐤏𐤐𐤑𐤒𐤓𐤔𐤕',
    'Armi': '𐡀𐡁𐡂𐡃𐡄𐡅𐡆𐡇𐡈𐡉𐡊𐡋𐡌𐡍𐡎𐡏𐡐𐡑𐡒𐡓𐡔𐡕',
    'Elym': '𐿠𐿡𐿢𐿣𐿤𐿥𐿦𐿧𐿨𐿩𐿪𐿫𐿬𐿭𐿮𐿯𐿰𐿱𐿲𐿳𐿴𐿵',
    'Prti': '𐭀𐭁𐭂𐭃𐭄𐭅𐭆𐭇𐭈𐭉𐭊𐭋𐭌𐭍𐭎𐭏𐭐𐭑𐭒𐭓𐭔𐭕',
    'Samr': 'ࠀࠁࠂࠃࠄࠅࠆࠇࠈࠉࠊࠋࠌࠍࠎࠏࠐࠑࠒࠓࠔࠕ',
    'Hebr': 'אבגדהוזחטיכלמנסעפצקרשת',
    'Syre': 'ܐܒܓܕܗܘܙܚܛܝܟܠܡܢܣܥܦܨܩܪܫܬ',
    'Mani': '𐫀𐫁𐫃𐫅𐫆𐫇𐫉𐫍𐫎𐫏𐫐𐫓𐫖𐫗𐫘𐫙𐫛𐫝𐫞𐫡𐫢𐫤',
    'Nbat': '𐢁𐢃𐢄𐢅𐢇𐢈𐢉𐢊𐢋𐢍𐢏𐢑𐢓𐢕𐢖𐢗𐢘𐢙𐢚𐢛𐢝𐢞',
    'Palm': '𐡠𐡡𐡢𐡣𐡤𐡥𐡦𐡧𐡨𐡩𐡪𐡫𐡬𐡮𐡯𐡰𐡱𐡲𐡳𐡴𐡵𐡶',
    'Sarb': '𐩱𐩨𐩴𐩵𐩠𐩥𐩸𐩢𐩷𐩺𐩫𐩡𐩣𐩬𐩯𐩲𐩰𐩮𐩤𐩧𐩦𐩩',
    'Narb': '𐪑𐪈𐪔𐪕𐪀𐪅𐪘𐪂𐪗𐪚𐪋𐪁𐪃𐪌𐪏𐪒𐪐𐪎𐪄𐪇𐪆𐪉',
    'Ugar': '𐎀𐎁𐎂𐎄𐎅𐎆𐎇𐎈𐎉𐎊𐎋𐎍𐎎𐎐𐎒𐎓𐎔𐎕𐎖𐎗𐎌𐎚',
    'Ethi': 'አበገደሀወዘሐጠየከለመነሰዐፈጸቀረሠተ',
    'Arab': 'ابجدهوزحطيكلمنسعفصقرشت',
    'Latn': 'ʾbgdhwzḥṭyklmnsʿpṣqršt',
}
# forms at the end of a word
FINAL = {'Nbat': dict(zip('𐢁𐢃𐢇𐢍𐢏𐢑𐢓𐢕𐢝', '𐢀𐢂𐢆𐢌𐢎𐢐𐢒𐢔𐢜')), 'Palm': {'𐡮': '𐡭'}, 'Hebr': dict(zip('כמנפצ', 'ךםןףץ'))}
# the sound of the letter where it differs from the letter's name
SOUND = {'Hebr': {'b': 'v', 'k': 'ḵ', 'p': 'f'}, 'Samr': {'p': 'f'}, 'Sarb': {'p': 'f'}, 'Narb': {'p': 'f'}, 'Ethi': {'p': 'f'}, 'Arab': {'g': 'j', 'p': 'f'}}
# targets with a letter or sign of their own for a sound: Hebrew and Syriac hard stops, Ethiopic and Arabic p, g, v
OWN = {'Hebr': {'b': 'ב\u05bc', 'k': 'כ\u05bc', 'p': 'פ\u05bc'}, 'Syre': {'t': 'ܬ݁'}, 'Ethi': {'p': 'ፐ'}}
ARAB = {'g': 'ڨ', 'p': 'پ', 'v': 'ڤ'}
MARK = '\u05bc'
FIXED = [' ', '\n', '★', '1', '(']


def table(x, y, nat):
    own = dict(OWN.get(y, {}))
    if y == 'Arab' and not nat: own = ARAB
    m = {}
    for a, b, p in zip(L[x], L[y], L['Latn']):
        p = SOUND.get(x, {}).get(p, p)
        m[a] = p if y == 'Latn' else own.get(p, b)
    return m


def spec(x, y, nat):
    m = table(x, y, nat); fin = FINAL.get(y, {})
    cls = ''.join(L[y]) + ''.join(fin.values())
    def f(T, s):
        import re
        s = s.translate({ord(a): b for a, b in m.items()})
        for b in fin: s = re.sub('(?<=[%s%s])%s(?!%s?[%s])' % (cls, MARK, b, MARK, cls), fin[b], s)
        return s
    return f


def obligations(T, tier, seed):
    out = []
    for x in L:
        for y in L:
            if x == y: continue
            # the Ugaritic word divider, Arabic digits and punctuation are signs of their own
            fixed = [c for c in FIXED if not (c == ' ' and 'Ugar' in (x, y)) and not (c in '1(' and 'Arab' in (x, y))]
            for nat in (False, True):
                if nat and x == 'Arab': continue      # alef is read as a vowel
                def impl(T, s, x=x, y=y, nat=nat): return T.process(x, y, s, nat)
                name = 'letters[%s->%s%s]' % (x, y, ',native' if nat else '')
                d = D.star([c for c in L[x] if (c, y) != ('ج', 'Hebr') and (c, y, nat) != ('ב', 'Arab', True)] + fixed)
                kf, _ = known_factors('C16', name)
                d = D.restrict(d, kf)
                out.append(Ob(name, 'eq', impl, spec(x, y, nat), d, cross=2))
    return out
