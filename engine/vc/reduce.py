"""Sound alphabet reduction.

Let K be a set of letters that the domain treats alike.  If an operation has no back-reference, every character set
in its pattern contains all or none of K, and no literal of its replacement is in K, then it commutes with *every*
map h: K -> K (lifted letterwise).  A letter homomorphism f with f(c) = u phi(c) v for all c in K (phi injective, images
used by nothing else) transports K to phi(K).  If both sides of an equation commute with every such h, then a
counterexample, if any, exists over two representatives of K: if the lengths differ collapse K to one letter, else map
the letter at the first difference to r1 and all others to r2.  So checking the reduced alphabet decides the equation
for the full alphabet."""
import re._constants as sc
from .sym import parse_pat, item_test, op_out


def has_ref(items):
    for op, av in items:
        if op in (sc.GROUPREF, sc.GROUPREF_EXISTS): return True
        if op is sc.BRANCH and any(has_ref(a) for a in av[1]): return True
        if op is sc.SUBPATTERN and has_ref(av[3]): return True
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT) and has_ref(av[2]): return True
        if op in (sc.ASSERT, sc.ASSERT_NOT) and has_ref(av[1]): return True
    return False


def has_word(items):
    for op, av in items:
        if op is sc.AT and 'BOUNDARY' in str(av): return True
        if op is sc.BRANCH and any(has_word(a) for a in av[1]): return True
        if op is sc.SUBPATTERN and has_word(av[3]): return True
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT) and has_word(av[2]): return True
        if op in (sc.ASSERT, sc.ASSERT_NOT) and has_word(av[1]): return True
    return False


def sets(items, acc):
    for op, av in items:
        if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN): acc.append(item_test(op, av))
        elif op is sc.BRANCH:
            for a in av[1]: sets(a, acc)
        elif op is sc.SUBPATTERN: sets(av[3], acc)
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT): sets(av[2], acc)
        elif op in (sc.ASSERT, sc.ASSERT_NOT): sets(av[1], acc)
    return acc


def refset(t):
    from .enc import refs_in
    return refs_in(list(t), set())


def grp_sets(items, refs, inside=False, acc=None):
    """character tests of everything inside the groups in refs (None: nested reference)"""
    if acc is None: acc = []
    for op, av in items:
        if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
            if inside: acc.append(item_test(op, av))
        elif op is sc.BRANCH:
            for a in av[1]: grp_sets(a, refs, inside, acc)
        elif op is sc.SUBPATTERN: grp_sets(av[3], refs, inside or av[0] in refs, acc)
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT): grp_sets(av[2], refs, inside, acc)
        elif op in (sc.ASSERT, sc.ASSERT_NOT): grp_sets(av[1], refs, inside, acc)
    return acc


class Hom:
    """composition of single-letter replacements: c -> f(c)"""
    def __init__(self): self.reps = []; self.memo = {}
    def __call__(self, c):
        r = self.memo.get(c)
        if r is None:
            r = c
            for f in self.reps: r = f(r)
            self.memo[c] = r
        return r


def fuse(ops):
    """merge maximal runs of letter homomorphisms (exact)"""
    out = []
    for op in ops:
        h = None
        if op[0] == 'r' and len(op[1]) == 1: h = (lambda s, x=op[1], y=op[2]: s.replace(x, y))
        elif op[0] == 'lm': h = (lambda s, f=op[2]: ''.join(f(c) for c in s))
        if h is not None:
            if not (out and out[-1][0] == 'lm' and isinstance(out[-1][2], Hom)): out.append(('lm', 'fused', Hom()))
            out[-1][2].reps.append(h); out[-1][2].memo.clear()
        else: out.append(op)
    return out


def track(ops, alpha, classes, image=None):
    """refine classes (list of lists of original letters) by the ops; returns (classes, cur) where cur: orig->letter"""
    al = set(alpha)
    cur = {c: c for k in classes for c in k}
    classes = [list(k) for k in classes]

    def drop(ls):
        for c in ls: cur.pop(c, None)

    for op in ops:
        live, al2 = op_out(op, al)
        if not live: continue
        k = op[0]
        groups = {}
        if k == 'lm':
            f = op[2]
            newcur = {}
            for i, kl in enumerate(classes):
                for c in kl:
                    if c not in cur: continue
                    y = f(cur[c])
                    if len(y) == 0: continue
                    newcur[c] = y
            # choose the varying position per class by majority of shapes
            cnt = {}
            for c in al:
                for d in f(c): cnt[d] = cnt.get(d, 0) + 1
            newclasses = []; nc = {}
            for kl in classes:
                sh = {}
                for c in kl:
                    if c not in newcur: continue
                    y = newcur[c]
                    # the varying letter must be produced by this letter only
                    for p, d in enumerate(y):
                        if cnt.get(d, 0) == 1:
                            sh.setdefault((y[:p], y[p + 1:]), []).append((c, d)); break
                for lst in sh.values():
                    newclasses.append([c for c, _ in lst])
                    for c, d in lst: nc[c] = d
            classes = newclasses; cur = nc
        else:
            lits = set(); keyf = []
            if k == 'r': lits |= set(op[1]) | set(op[2])
            elif k in ('app', 'pre', 'const'): lits |= set(op[1])
            elif k == 's':
                t = parse_pat(op[1])
                if has_ref(t):
                    # letters that a back-referenced group can hold are compared with one another: they stay apart
                    gs = grp_sets(t, refset(t))
                    if gs is None: return [], {}
                    for c in list(cur):
                        if any(f(cur[c]) for f in gs): lits.add(cur[c])
                for x in op[2]:
                    if isinstance(x, str): lits |= set(x)
                keyf = sets(t, [])
                if has_word(t):
                    from .sym import isword
                    keyf.append(isword)
            elif k == 'n':
                import unicodedata as ud
                from .sym import compsec
                for c in list(cur):
                    d = cur[c]
                    if ud.combining(d) or d in compsec() or ud.normalize('NFD', d) != d or \
                       any(ud.normalize('NFC', d + b) != d + b for b in al if b in compsec()): lits.add(d)
            newclasses = []
            for kl in classes:
                sh = {}
                for c in kl:
                    if c not in cur: continue
                    d = cur[c]
                    if d in lits: cur.pop(c); continue
                    sh.setdefault(tuple(f(d) for f in keyf), []).append(c)
                newclasses += list(sh.values())
            classes = newclasses
        al = set(al2)
    return classes, cur


def reduce_eq(ops1, ops2, dom, cons=()):
    """representatives for EQ(ops1, ops2) on dom; returns (alphabet, {class: letters})"""
    rows = {}
    for c in dom.alpha:
        rows.setdefault(tuple(t.get(c, -1) for t in dom.trans), []).append(c)
    classes = [k for k in rows.values() if len(k) > 2]
    for o in [x[0] for x in cons]:
        classes, cur = track(o, dom.alpha, classes)
    for (o, pol, kind, x) in cons:
        classes = [[c for c in k if c not in x] for k in classes]
    while True:
        n = [sorted(k) for k in classes]
        c1, m1 = track(ops1, dom.alpha, classes)
        c2, m2 = track(ops2, dom.alpha, c1)
        # both sides must transport the class to the same letters
        c3 = [[c for c in k if m1.get(c) == m2.get(c) and c in m1] for k in c2]
        c3 = [k for k in c3 if len(k) > 2]
        classes = c3
        if sorted(map(sorted, c3)) == sorted(n): break
    merged = {}
    alpha = list(dom.alpha)
    for k in classes:
        kk = sorted(k, key=dom.alpha.index)
        merged[kk[0]] = kk
        for c in kk[2:]: alpha.remove(c)
    return alpha, merged
