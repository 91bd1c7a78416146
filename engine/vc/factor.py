"""Forward abstract interpretation with 2-factors (which pairs of adjacent characters, text begin and end included, can
occur).  Used only to discard operations that provably never fire; the domain is an over-approximation."""
import unicodedata as ud
import re._constants as sc
from . import sym
from .sym import parse_pat, item_test, compsec, Unsup

B = '\ufdd8'; E = '\ufdd9'     # text begin / end sentinels (noncharacters)


class Pairs:
    __slots__ = ('s',)

    def __init__(self, s): self.s = s

    def alpha(self): 
        a = set()
        for k, v in self.s.items(): a.add(k); a |= v
        return a - {B, E}

    def copy(self): return Pairs({k: set(v) for k, v in self.s.items()})
    def add(self, a, b): self.s.setdefault(a, set()).add(b)
    def has(self, a, b): return b in self.s.get(a, ())
    def preds(self, cs):
        cs = set(cs)
        return {a for a, v in self.s.items() if v & cs}
    def succs(self, cs):
        r = set()
        for c in cs: r |= self.s.get(c, set())
        return r


def of_dom(dom):
    p = Pairs({})
    n = len(dom.acc)
    reach = {dom.init}; todo = [dom.init]
    while todo:
        q = todo.pop()
        for t in dom.trans[q].values():
            if t not in reach: reach.add(t); todo.append(t)
    inn = {q: set() for q in reach}
    inn[dom.init].add(B)
    for q in reach:
        for c, t in dom.trans[q].items():
            if dom.live(t): inn[t].add(c)
    for q in reach:
        if not dom.live(q): continue
        for a in inn[q]:
            for c, t in dom.trans[q].items():
                if dom.live(t): p.add(a, c)
            if dom.acc[q]: p.add(a, E)
    return p


def full(alpha):
    al = set(alpha)
    return Pairs({k: al | {E} for k in al | {B}})


def hom(p, f):
    img = {c: f(c) for c in p.alpha()}
    dele = {c for c, y in img.items() if y == ''}
    s = {k: set(v) for k, v in p.s.items()}
    if dele:
        # bypass deleted characters
        ch = True
        while ch:
            ch = False
            for a, v in s.items():
                for d in list(v & dele):
                    new = s.get(d, set()) - v
                    if new: v |= new; ch = True
    q = Pairs({})
    for a, v in s.items():
        if a in dele: continue
        la = B if a == B else img[a][-1]
        for b in v:
            if b in dele: continue
            q.add(la, E if b == E else img[b][0])
    for c, y in img.items():
        for x, z in zip(y, y[1:]): q.add(x, z)
    return q


def feasible_lit(p, x): 
    if len(x) == 1: return x in p.alpha()
    return all(p.has(a, b) for a, b in zip(x, x[1:]))


def link(p, new, pre, pieces, suc):
    """connect pre -> pieces -> suc in `new`; pieces: (first set, last set, nullable, internal pairs)"""
    lasts = set(pre)
    for f, l, nullable, internal in pieces:
        for a in lasts:
            for b in f: new.add(a, b)
        for a, b in internal: new.add(a, b)
        lasts = (lasts | set(l)) if nullable else set(l)
    for a in lasts:
        for b in suc: new.add(a, b)


def lit_piece(y): return ({y[0]}, {y[-1]}, False, list(zip(y, y[1:])))


def replace(p, x, y):
    if not feasible_lit(p, x): return None
    q = p.copy()
    pre = p.preds({x[0]}); suc = p.succs({x[-1]})
    # repeated adjacent matches
    if len(x) == 2 and x[0] != x[1]:
        q.s[x[0]].discard(x[1])
    pre2 = set(pre); suc2 = set(suc)
    if y:
        if x[0] in suc: suc2 |= {y[0]}; pre2 |= {y[-1]}
        link(p, q, pre2, [lit_piece(y)], suc2)
    else:
        # several consecutive occurrences may vanish: close
        if x[0] in suc: suc2 |= p.succs({x[-1]}); pre2 |= p.preds({x[0]})
        link(p, q, pre2, [], suc2)
        # removal can cascade through several matches: pre/suc sets already contain everything adjacent to a match
    return q


class Inf(Exception): pass


def walk(p, items, last, G, al):
    """set of possible last characters after matching items given possible previous characters `last`
    (B allowed).  G: group -> (first set, last set, nullable).  Returns (lasts, firsts, nullable)"""
    firsts = set(); nullable = True
    cur = set(last)
    for op, av in items:
        if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
            t = item_test(op, av)
            ok = {c for c in p.succs(cur) if c != E and t(c)}
            if not ok: return None
            if nullable: firsts |= ok
            nullable = False; cur = ok
        elif op is sc.BRANCH:
            res = [walk(p, list(a), cur, G, al) for a in av[1]]
            res = [r for r in res if r is not None]
            if not res: return None
            n2 = any(r[2] for r in res)
            if nullable:
                for r in res: firsts |= r[1]
            nl = set()
            for r in res: nl |= r[0]
            nullable = nullable and n2; cur = nl
        elif op is sc.SUBPATTERN:
            r = walk(p, list(av[3]), cur, G, al)
            if r is None: return None
            if av[0] is not None:
                o = G.get(av[0])
                l = r[0] if not r[2] else r[0]
                g = (set(r[1]), set(l), r[2])
                G[av[0]] = g if o is None else (o[0] | g[0], o[1] | g[1], o[2] or g[2])
            if nullable: firsts |= r[1]
            nullable = nullable and r[2]; cur = r[0]
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, pp = av
            acc = set(cur) if lo == 0 else set()
            x = cur; n2 = lo == 0; k = 0; seen = None; ff = set()
            while True:
                r = walk(p, list(pp), x, G, al)
                if r is None: break
                k += 1
                if k == 1: ff |= r[1]
                n2 = n2 or r[2]
                if k >= lo: acc |= r[0]
                nx = r[0] | (x if k > 1 else set())
                if (hi is not sc.MAXREPEAT and k >= hi) or (k >= lo and nx == x) or k > 300: break
                x = nx if k >= lo else r[0]
            if lo > 0 and k < lo: return None
            if lo == 0:
                for g in gids(pp): 
                    o = G.get(g)
                    G[g] = (set(), set(), True) if o is None else (o[0], o[1], True)
            if nullable: firsts |= ff
            nullable = nullable and n2; cur = acc
        elif op is sc.GROUPREF:
            o = G.get(av)
            if o is None: cur = set(al) | {B}; firsts |= set(al); 
            else:
                if nullable: firsts |= o[0]
                if o[2]: cur = cur | o[1]
                else:
                    if not (p.succs(cur) & o[0]): return None
                    cur = set(o[1]); nullable = False
        elif op is sc.ASSERT:
            d, pp = av
            if d == 1:
                if walk(p, list(pp), cur, G, al) is None: return None
            else:
                r = walk(p, list(pp), set(p.s), G, al)
                if r is None: return None
                w = pp.getwidth()
                if w[0] > 0:
                    cur = cur & r[0] if not (cur & r[0]) == set() else cur & r[0]
                    if not cur: return None
        elif op is sc.ASSERT_NOT:
            for g in gids(av[1]): G.setdefault(g, (set(), set(), True))
        elif op is sc.AT:
            n = str(av)
            if 'BEGINNING' in n:
                if B not in cur: return None
                cur = {B}
            elif 'AT_END' in n:
                ok = {c for c in cur if p.has(c, E) or (n == 'AT_END' and p.has(c, '\n'))}
                if not ok: return None
                cur = ok
        else: raise Unsup(str(op))
    return cur, firsts, nullable


def gids(items):
    from .enc import groups_in
    return groups_in(list(items), set())


def sub(p, pat, tmpl):
    t = parse_pat(pat)
    al = p.alpha(); G = {}
    r = walk(p, list(t), set(p.s), G, al)
    if r is None: return None
    lasts, firsts, nullable = r
    q = p.copy()
    pieces = []
    for x in tmpl:
        if isinstance(x, str):
            if x: pieces.append(lit_piece(x))
        elif x == 0: pieces.append((firsts, lasts - {B}, nullable, []))
        else:
            g = G.get(x)
            if g is None: pieces.append((al, al, True, []))
            else: pieces.append((g[0], g[1] - {B}, g[2], []))
    if nullable:
        pre = set(p.s); suc = al | {E}
    else:
        pre = p.preds(firsts); suc = p.succs(lasts)
    # the replacement of one match may be adjacent to the replacement of the next
    f = set(); l = set(); nul = True
    for pf, pl, pn, _ in pieces:
        if nul: f |= pf
        nul = nul and pn
    nul2 = True
    for pf, pl, pn, _ in reversed(pieces):
        if nul2: l |= pl
        nul2 = nul2 and pn
    suc = set(suc); pre = set(pre)
    if nullable or suc & firsts or nul:
        suc |= f; pre |= l
        if nul and not nullable:
            # matches may vanish one after the other
            for _ in range(2):
                suc |= p.succs(lasts); pre |= p.preds(firsts)
    link(p, q, pre, pieces, suc)
    return q


def norm(p, form):
    al = p.alpha()
    ident = all(ud.normalize(form, c) == c for c in al)
    if ident:
        for a, v in p.s.items():
            for b in v:
                if b == E: continue
                if ud.combining(b):
                    if a == B: continue
                    if ud.combining(a): ident = False
                if a != B and ud.normalize(form, a + b) != a + b: ident = False
                if not ident: break
            if not ident: break
    if ident: return None
    if form == 'NFC' and all(ud.normalize('NFD', c) == c or ud.normalize('NFC', c) == c for c in al):
        pass
    a2 = sym.norm_close(al, form)
    stable = {c for c in al if ud.normalize('NFD', c) == c and not ud.combining(c) and c not in compsec()
              and not any(b != E and ud.normalize(form, c + b) != c + b for b in p.s.get(c, ()))}
    q = Pairs({})
    rest = a2 - stable
    for a, v in p.s.items():
        for b in v:
            if (a in stable or a == B) and (b in stable or b == E): q.add(a, b)
    pr = {a for a in (stable | {B}) if p.s.get(a, set()) - stable - {E}}
    su = {b for b in (stable | {E}) if any(b in v for a, v in p.s.items() if a not in stable and a != B)}
    for a in rest | pr:
        for b in rest | su:
            if (a in rest) or (b in rest): q.add(a, b)
    if form == 'NFC':
        # after NFC no adjacent pair (starter, mark) that composes directly
        for a in list(q.s):
            if a in (B,): continue
            q.s[a] = {b for b in q.s[a] if b == E or ud.normalize('NFC', a + b) == a + b or ud.combining(a)}
    return q


def step(p, op):
    """None: dead; else pairs after"""
    k = op[0]
    if k == 'r': return replace(p, op[1], op[2])
    if k == 's': return sub(p, op[1], op[2])
    if k == 'lm':
        f = op[2]
        if all(f(c) == c for c in p.alpha()): return None
        return hom(p, f)
    if k == 'n': return norm(p, op[1])
    if k == 'mr':
        raise Unsup('mr')
    q = p.copy()
    if k == 'app':
        y = op[1]
        pre = p.preds({E})
        for a in pre: q.s[a].discard(E)
        link(p, q, pre, [lit_piece(y)], {E}); return q
    if k == 'pre':
        y = op[1]
        suc = p.succs({B}); q.s[B] = set()
        link(p, q, {B}, [lit_piece(y)], suc); return q
    if k == 'const':
        q = Pairs({})
        link(p, q, {B}, [lit_piece(op[1])] if op[1] else [], {E}); return q
    raise Unsup(k)


def prune(ops, dom):
    """(live ops, universe, last pairs)"""
    p = of_dom(dom) if not isinstance(dom, Pairs) else dom
    U = set(p.alpha()); out = []
    for op in ops:
        q = step(p, op)
        if q is None: continue
        if op[0] == 'n': U |= sym.norm_close(p.alpha(), 'NFD')
        if op[0] == 'r': U |= set(op[1]) | set(op[2])
        if op[0] == 's':
            for x in op[2]:
                if isinstance(x, str): U |= set(x)
        out.append(op); p = q; U |= p.alpha()
    return out, U, p


def merge(ops):
    """merge consecutive non-interfering literal replacements into one simultaneous replacement (exact)"""
    out = []
    for op in ops:
        if op[0] == 'r' and out and out[-1][0] == 'mr':
            prs = out[-1][1]
            x2, y2 = op[1], op[2]
            if all(ok_merge(x1, y1, x2) for x1, y1 in prs): prs.append((x2, y2)); continue
        if op[0] == 'r': out.append(('mr', [(op[1], op[2])]))
        else: out.append(op)
    res = []
    for op in out:
        if op[0] == 'mr' and len(op[1]) == 1: res.append(('r',) + op[1][0])
        else: res.append(op)
    return res


def ok_merge(x1, y1, x2):
    if set(y1) & set(x2): return False
    if not y1: return False          # deletion joins its neighbours
    if x1 in x2 or x2 in x1: return False
    for i in range(1, min(len(x1), len(x2)) + 1):
        if x1.endswith(x2[:i]) or x2.endswith(x1[:i]): return False
    return True
