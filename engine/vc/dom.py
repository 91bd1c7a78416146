"""Input domains: deterministic automata over texts."""
from .enc import Dom, avoid_factors

V = 'अआइईउऊऋॠऌॡएऐओऔ'
VS = 'ािीुूृॄॢॣेैोौ'
C = 'कखगघङचछजझञटठडढणतथदधनपफबभमयरलवशषसह'
Y = 'ंःँ'
VIRAMA = '्'
NUKTA = 'क़ख़ग़ज़ड़ढ़फ़य़'.replace('\u093c', '')
DIG = '०१२३४५६७८९'
SIGNOF = dict(zip('आइईउऊऋॠऌॡएऐओऔऎऒ', VS + 'ॆॊ'))


def aksharas(V=V, VS=VS, C=C, Y=Y, virama=VIRAMA, seps=' ', mid='', hiatus=False):
    """well-formed Devanagari-like texts: words of aksharas separated by seps; `mid` may follow a complete akshara"""
    alpha = list(dict.fromkeys(list(V) + list(VS) + list(C) + list(Y) + list(seps) + list(mid) + list(virama)))
    tr = []
    for q in range(6):
        # 0 word start, 1 after consonant, 2 after vowel, 3 after virama, 4 after modifier, 5 after mid char
        t = {}
        for c in alpha:
            n = -1
            if c in seps: n = 0
            elif c in V: n = 2 if q == 0 or (hiatus and q in (1, 2, 4, 5)) else -1
            elif c in C: n = 1
            elif c in VS: n = 2 if q == 1 else -1
            elif c == virama: n = 3 if q == 1 else -1
            elif c in Y: n = 4 if q in (1, 2) else -1
            elif c in mid: n = 5 if q in (1, 2, 4) else -1
            if n >= 0: t[c] = n
        tr.append(t)
    return Dom(alpha, 0, [True] * 6, tr)


def star(alpha):
    alpha = list(dict.fromkeys(alpha))
    return Dom(alpha, 0, [True], [{c: 0 for c in alpha}])


def avoid_words(alpha, words, seps):
    """texts none of whose maximal separator-free blocks equals one of words"""
    pref = {''}
    for w in words:
        for i in range(len(w) + 1): pref.add(w[:i])
    ids = {p: i for i, p in enumerate(sorted(pref))}
    other = len(ids); n = other + 1
    tr = [dict() for _ in range(n)]
    words = set(words)
    for p, i in ids.items():
        for c in alpha:
            if c in seps:
                if p in words: continue
                tr[i][c] = ids['']
            else: tr[i][c] = ids.get(p + c, other)
    for c in alpha: tr[other][c] = ids[''] if c in seps else other
    acc = [p not in words for p in sorted(pref)] + [True]
    return Dom(alpha, ids[''], acc, tr)


def restrict(dom, factors=(), words=(), seps=' '):
    f = [x for x in factors if set(x) <= set(dom.alpha)]
    w = [x for x in words if set(x) <= set(dom.alpha)]
    if f: dom = dom.product(avoid_factors(dom.alpha, f))
    if w: dom = dom.product(avoid_words(dom.alpha, w, seps))
    return dom


def drop(dom, letters):
    """remove letters from the alphabet"""
    s = set(letters)
    return Dom([c for c in dom.alpha if c not in s], dom.init, dom.acc, [{c: q for c, q in t.items() if c not in s} for t in dom.trans])


def texts(V=V, VS=VS, C=C, Y=Y, virama=VIRAMA, punct=' \n,?!', digits=DIG, danda='।॥', avagraha='ऽ', hiatus=False, space=' \n'):
    """running text: words of aksharas, numbers standing on their own, punctuation; a danda is followed by white space"""
    alpha = list(dict.fromkeys(list(V) + list(VS) + list(C) + list(Y) + list(punct) + list(digits) + list(danda) + list(avagraha) + list(virama)))
    tr = []
    # 0 word start, 1 after consonant, 2 after vowel, 3 after virama, 4 after modifier, 5 after avagraha, 6 in number, 7 after danda
    for q in range(8):
        t = {}
        for c in alpha:
            n = -1
            if c in punct: n = 0
            elif c in V: n = 2 if q == 0 or (hiatus and q in (1, 2, 4, 5)) else -1
            elif c in C: n = 1 if q != 6 else -1
            elif c in VS: n = 2 if q == 1 else -1
            elif c == virama: n = 3 if q == 1 else -1
            elif c in Y: n = 4 if q in (1, 2) else -1
            elif c in avagraha: n = 5 if q in (1, 2, 4) else -1
            elif c in digits: n = 6 if q in (0, 6) else -1
            elif c in danda: n = 7 if q != 7 else -1
            if q == 7 and c not in space: n = -1
            if n >= 0: t[c] = n
        tr.append(t)
    return Dom(alpha, 0, [True] * 8, tr)
