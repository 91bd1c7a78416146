"""Encode verification conditions over op chains for the decision procedure (strvc) and run it."""
import os, subprocess, hashlib, tempfile, unicodedata as ud, random
import re._constants as sc
from . import sym
from .sym import Unsup, parse_pat, item_test, isword, op_out, compsec

HERE = os.path.dirname(os.path.abspath(__file__))
SRC = os.path.join(HERE, '..', 'rs', 'strvc.rs')
BUILD = os.path.join(HERE, '..', 'build')
BIN = os.path.join(BUILD, 'strvc')


def build():
    h = hashlib.sha256(open(SRC, 'rb').read()).hexdigest()
    stamp = BIN + '.sha'
    if os.path.exists(BIN) and os.path.exists(stamp) and open(stamp).read() == h: return BIN
    os.makedirs(BUILD, exist_ok=True)
    tmp = BIN + '.%d' % os.getpid()
    subprocess.run(['rustc', '-O', '-C', 'debuginfo=0', '-o', tmp, SRC], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    os.replace(tmp, BIN)
    open(stamp, 'w').write(h)
    return BIN


# ------------------------------------------------------------------ regex facts
def lbneed(items):
    n = 0
    for op, av in items:
        if op is sc.BRANCH: n = max([n] + [lbneed(a) for a in av[1]])
        elif op is sc.SUBPATTERN: n = max(n, lbneed(av[3]))
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT): n = max(n, lbneed(av[2]))
        elif op in (sc.ASSERT, sc.ASSERT_NOT):
            d, pp = av
            w = 0
            if d != 1:
                lo, hi = pp.getwidth()
                if lo != hi: raise Unsup('lookbehind width')
                w = lo
            n = max(n, w + lbneed(pp))
        elif op is sc.AT: n = max(n, 1)
    return n


def grp_in_behind(items, inside=False):
    for op, av in items:
        if op is sc.SUBPATTERN:
            if inside and av[0] is not None: return True
            if grp_in_behind(av[3], inside): return True
        elif op is sc.BRANCH:
            if any(grp_in_behind(a, inside) for a in av[1]): return True
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            if grp_in_behind(av[2], inside): return True
        elif op in (sc.ASSERT, sc.ASSERT_NOT):
            if grp_in_behind(av[1], inside or av[0] != 1): return True
        elif op is sc.GROUPREF and inside: return True
    return False


def groups_in(items, acc):
    for op, av in items:
        if op is sc.SUBPATTERN:
            if av[0] is not None: acc.add(av[0])
            groups_in(av[3], acc)
        elif op is sc.BRANCH:
            for a in av[1]: groups_in(a, acc)
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT): groups_in(av[2], acc)
        elif op in (sc.ASSERT, sc.ASSERT_NOT): groups_in(av[1], acc)
    return acc


def refs_in(items, acc):
    for op, av in items:
        if op is sc.GROUPREF: acc.add(av)
        elif op is sc.SUBPATTERN: refs_in(av[3], acc)
        elif op is sc.BRANCH:
            for a in av[1]: refs_in(a, acc)
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT): refs_in(av[2], acc)
        elif op in (sc.ASSERT, sc.ASSERT_NOT): refs_in(av[1], acc)
        elif op is sc.GROUPREF_EXISTS: raise Unsup('conditional')
    return acc


def eager(t, tmpl):
    """every match's replacement starts with a verbatim copy of the first k characters matched -> those characters can be
    written before the match is decided.  Returns (k, may the copied characters be forgotten up to character classes)"""
    tm = [x for x in tmpl if x != '']
    k = 0; used = set(); i = 0
    for op, av in list(t):
        if op in (sc.ASSERT, sc.ASSERT_NOT, sc.AT): continue
        if i < len(tm) and op is sc.SUBPATTERN and av[0] is not None and tm[i] == av[0]:
            lo, hi = av[3].getwidth()
            k += lo; used |= groups_in([(op, av)], set()); i += 1
            if lo != hi: break
        else: break
    if k == 0: return 0, 0
    later = {x for x in tm[i:] if not isinstance(x, str)}
    if 0 in later or later & used or refs_in(list(t), set()) & used: return k, 0
    return k, 1


class Enc:
    def __init__(self, U):
        """U: iterable of characters (finite universe)"""
        us = ['\n'] + sorted(c for c in set(U) if c != '\n')
        self.U = us; self.id = {c: i for i, c in enumerate(us)}
        if len(us) > 60000: raise Unsup('universe')
        self._set = {}

    def s(self, x): return [len(x)] + [self.id[c] for c in x]

    def set(self, f):
        l = [i for i, c in enumerate(self.U) if f(c)]
        return [len(l)] + l

    def re(self, items):
        out = []
        n = 0
        for op, av in items:
            n += 1
            if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
                out += [0] + self.set(item_test(op, av))
            elif op is sc.BRANCH:
                out += [2, len(av[1])]
                for a in av[1]: out += self.re(list(a))
            elif op is sc.SUBPATTERN:
                gid, af, df, pp = av
                if af or df: raise Unsup('inline flags')
                if gid is None: out += self.re(list(pp))
                else: out += [3, gid] + self.re(list(pp))
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                lo, hi, pp = av
                out += [4, 1 if op is sc.MAX_REPEAT else 0, lo, -1 if hi is sc.MAXREPEAT else int(hi)] + self.re(list(pp))
            elif op is sc.GROUPREF: out += [5, av]
            elif op in (sc.ASSERT, sc.ASSERT_NOT):
                d, pp = av
                neg = 1 if op is sc.ASSERT_NOT else 0
                if d == 1: out += [6, neg] + self.re(list(pp))
                else: out += [7, neg, pp.getwidth()[0]] + self.re(list(pp))
            elif op is sc.AT:
                k = {'AT_BEGINNING': 0, 'AT_BEGINNING_STRING': 0, 'AT_END': 1, 'AT_BOUNDARY': 2, 'AT_NON_BOUNDARY': 3, 'AT_END_STRING': 4}.get(str(av))
                if k is None: raise Unsup(str(av))
                out += [8, k]
            else: raise Unsup('regex ' + str(op))
        return [1, n] + out

    def op(self, op):
        k = op[0]
        if k == 'r': return [0] + self.s(op[1]) + self.s(op[2])
        if k == 's':
            t = parse_pat(op[1])
 
            k, red = eager(t, op[2])
            o = [1, lbneed(t), op[3], 1 if grp_in_behind(t) else 0, k, red] + self.re(list(t)) + [len(op[2])]
            for x in op[2]: o += ([0] + self.s(x)) if isinstance(x, str) else [1, x]
            return o
        if k == 'lm':
            f = op[2]
            l = [(i, f(c)) for i, c in enumerate(self.U) if f(c) != c and all(d in self.id for d in f(c))]          # others cannot occur here: every image of a character that can is in U
            o = [2, len(l)]
            for i, y in l: o += [i] + self.s(y)
            return o
        if k == 'n':
            cc = [(i, ud.combining(c)) for i, c in enumerate(self.U) if ud.combining(c)]
            de = [(i, ud.normalize('NFD', c)) for i, c in enumerate(self.U) if ud.normalize('NFD', c) != c]
            de = [(i, d) for i, d in de if all(x in self.id for x in d)]
            o = [3, 1 if op[1] == 'NFC' else 0, len(cc)]
            for a, b in cc: o += [a, b]
            o += [len(de)]
            for a, d in de: o += [a] + self.s(d)
            co = []
            for c in self.U:
                d = ud.normalize('NFD', c)
                if d != c and ud.normalize('NFC', d) == c:
                    dd = ud.decomposition(c).split()
                    if len(dd) == 2:
                        a, b = chr(int(dd[0], 16)), chr(int(dd[1], 16))
                        if a in self.id and b in self.id: co.append((self.id[a], self.id[b], self.id[c]))
            if any(0xac00 <= ord(c) <= 0xd7a3 for c in self.U): raise Unsup('hangul')
            o += [len(co)]
            for a, b, c in co: o += [a, b, c]
            o += self.set(lambda c: ud.combining(c) == 0 and c not in compsec())
            return o
        if k == 'mr':
            o = [10, len(op[1])]
            for x, y in op[1]: o += self.s(x) + self.s(y)
            return o
        if k == 'pre': return [4] + self.s(op[1])
        if k == 'app': return [5] + self.s(op[1])
        if k == 'const': return [7] + self.s(op[1])
        raise Unsup(k)



def prune(ops, al):
    """drop operations that provably do nothing on texts over al; returns (live ops, alphabet trace union)"""
    al = set(al); out = []; U = set(al)
    for op in ops:
        live, al2 = op_out(op, al)
        if not live: continue
        if op[0] == 'n': U |= sym.norm_close(al, 'NFD')
        if op[0] == 'r': U |= set(op[1]) | set(op[2])
        out.append(op); al = set(al2); U |= al
    return out, U, al


class Chain:
    def __init__(self, ops): self.ops = list(ops)


class Restart:
    """apply inner chain separately to each maximal block between separators"""
    def __init__(self, ops, seps): self.ops = list(ops); self.seps = seps


class Dom:
    """domain DFA: alphabet (list), states 0..n-1, init, acc list, trans[state] = {ch: state}"""
    def __init__(self, alpha, init, acc, trans): self.alpha = list(alpha); self.init = init; self.acc = acc; self.trans = trans

    def step(self, q, c): return self.trans[q].get(c, -1)

    def accepts(self, w):
        q = self.init
        for c in w:
            q = self.step(q, c)
            if q < 0: return False
        return self.acc[q]

    def sample(self, rnd, n):
        q = self.init; w = ''
        # co-reachability
        for _ in range(n * 3 + 50):
            if len(w) >= n and self.acc[q]: return w
            ch = [(c, t) for c, t in self.trans[q].items() if self.live(t)]
            if not ch: break
            c, q = rnd.choice(ch); w += c
        while not self.acc[q]:
            c, q = min(((c, t) for c, t in self.trans[q].items() if self.live(t)), key=lambda x: self.dist(x[1])); w += c
        return w

    def dist(self, q):
        if not hasattr(self, '_dist'):
            d = {i: 0 for i, a in enumerate(self.acc) if a}
            ch = True
            while ch:
                ch = False
                for i, t in enumerate(self.trans):
                    m = min([d[x] + 1 for x in t.values() if x in d], default=None)
                    if m is not None and (i not in d or d[i] > m): d[i] = m; ch = True
            self._dist = d
        return self._dist.get(q, 10 ** 9)

    def live(self, q): return self.dist(q) < 10 ** 9

    def product(self, other):
        """intersection (same alphabet assumed a superset)"""
        ids = {}; tr = []; acc = []; todo = []
        def get(p):
            if p not in ids:
                ids[p] = len(tr); tr.append({}); acc.append(self.acc[p[0]] and other.acc[p[1]]); todo.append(p)
            return ids[p]
        i = get((self.init, other.init))
        while todo:
            p = todo.pop(); me = ids[p]
            for c, a in self.trans[p[0]].items():
                b = other.step(p[1], c)
                if b >= 0: tr[me][c] = get((a, b))
        return Dom(self.alpha, i, acc, tr)


def avoid_factors(alpha, words):
    """DFA of texts over alpha that contain none of words (Aho-Corasick)"""
    pref = {''}
    for w in words:
        for i in range(len(w) + 1): pref.add(w[:i])
    pref = sorted(pref, key=len)
    idx = {p: i for i, p in enumerate(pref)}
    bad = {p for p in pref if any(p.endswith(w) for w in words)}
    tr = []
    for p in pref:
        t = {}
        for c in alpha:
            x = p + c
            while x not in idx: x = x[1:]
            # any suffix being a forbidden word
            y = p + c
            if any(y.endswith(w) for w in words): continue
            t[c] = idx[x]
        tr.append(t)
    return Dom(alpha, 0, [p not in bad for p in pref], tr)


class Result:
    __slots__ = ('verdict', 'states', 'trans', 'accepted', 'delay', 'nodes', 'cex', 'wall', 'nops', 'merged')


def solve(kind, chain1, chain2, dom, cons=(), maxstates=2000000, maxcex=1, timeout=600, lang=None, reduce=True):
    """kind 'EQ': chain1(w)==chain2(w) for all w in dom.  chainN: list of ops or Restart.
    cons: [(ops, polarity, kind, str)] path condition.
    kind 'LANG': chain1(w) in lang;  lang = (init, acc list, [(default, {ch:state})])"""
    import time
    t0 = time.time()
    from . import reduce as red, factor as fac
    merged = {}
    def simp(ops):
        o, u, _ = fac.prune(ops, pairs)
        return o, u
    pairs = fac.of_dom(dom)
    raw1 = simp(chain1.ops if isinstance(chain1, Restart) else chain1) if not isinstance(chain1, Restart) else (prune(chain1.ops, dom.alpha)[0], prune(chain1.ops, dom.alpha)[1])
    raw2 = None
    if kind == 'EQ': raw2 = simp(chain2) if not isinstance(chain2, Restart) else prune(chain2.ops, dom.alpha)[:2]
    if kind == 'EQ' and reduce and not isinstance(chain1, Restart) and not isinstance(chain2, Restart):
        al2, merged = red.reduce_eq(red.fuse(raw1[0]), red.fuse(raw2[0]), dom, cons)
        dom = Dom(al2, dom.init, dom.acc, [{c: q for c, q in t.items() if c in set(al2)} for t in dom.trans])
    U = set(dom.alpha) | raw1[1] | (raw2[1] if raw2 else set())
    def prep(ch, raw):
        o, u = raw
        o = fac.merge(red.fuse(o))
        return ('R', o, ch.seps, u) if isinstance(ch, Restart) else ('C', o, None, u)
    cs = [prep(chain1, raw1)] + ([prep(chain2, raw2)] if kind == 'EQ' else [])
    pc = [prep(c[0], simp(c[0])) for c in cons]
    for x in cs + pc: U |= x[3]
    for c in cons: U |= set(c[3])
    e = Enc(U)
    chains = []
    def emit(x):
        enc = [len(x[1])]
        for op in x[1]: enc += e.op(op)
        chains.append(enc)
        if x[0] == 'R':
            inner = len(chains) - 1
            chains.append([1, 6, inner] + e.set(lambda c: c in x[2]))
        return len(chains) - 1
    ids = [emit(x) for x in cs]
    pids = [emit(x) for x in pc]
    prob = [len(e.U)] + e.set(isword) + [len(chains)]
    for c in chains: prob += c
    alpha = dom.alpha
    prob += [len(alpha)] + [e.id[c] for c in alpha]
    prob += [len(dom.acc), dom.init]
    for a, t in zip(dom.acc, dom.trans):
        prob.append(1 if a else 0); prob += [t.get(c, -1) for c in alpha]
    prob += [len(cons)]
    for pid, (o, pol, k, x) in zip(pids, cons): prob += [pid, 1 if pol else 0, k] + e.s(x)
    prob += [0 if kind == 'EQ' else 1, maxstates, maxcex, ids[0]]
    if kind == 'EQ': prob += [ids[1]]
    else:
        init, acc, tr = lang
        prob += [len(acc), init]
        for a, (d, m) in zip(acc, tr):
            mm = [(e.id[c], q) for c, q in m.items() if c in e.id]
            prob += [1 if a else 0, d, len(mm)]
            for c, q in mm: prob += [c, q]
    r = Result(); r.cex = []; r.merged = {k: len(v) for k, v in merged.items()}; r.nops = sum(len(x[1]) for x in cs); r.merged = {k: len(v) for k, v in merged.items()}
    try:
        p = subprocess.run([BIN], input=' '.join(map(str, prob)), capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        r.verdict = 'UNKNOWN'; r.states = r.trans = r.accepted = r.delay = r.nodes = 0; r.wall = time.time() - t0
        return r
    if p.returncode != 0 and 'V ' not in p.stdout:
        if p.returncode < 0 or 'memory' in p.stderr:
            r.verdict = 'UNKNOWN'; r.states = r.trans = r.accepted = r.delay = r.nodes = 0; r.wall = time.time() - t0; return r
        raise RuntimeError('strvc failed: %s %s' % (p.returncode, p.stderr[-500:]))
    if os.environ.get('STRVC_DEBUG'):
        import re
        print(re.sub(r'\d+', lambda m: e.U[int(m.group())] if int(m.group()) < len(e.U) and m.start() and p.stderr[m.start()-1] in '[ ' and p.stderr[m.start()-6:m.start()]!='delay ' else m.group(), p.stderr)[:6000])
    for l in p.stdout.splitlines():
        f = l.split()
        if f[0] == 'V':
            r.verdict = f[1]; r.states, r.trans, r.accepted, r.delay, r.nodes = map(int, f[2:7])
        elif f[0] == 'C': r.cex.append(''.join(e.U[int(x)] for x in f[1:]))
    r.wall = time.time() - t0
    return r


def evaluate(ops, words, alpha):
    """run the chain in the decision procedure on concrete words"""
    al = set(alpha)
    for w in words: al |= set(w)
    o, U, _ = prune(ops, al)
    e = Enc(U | al)
    prob = [len(e.U)] + e.set(isword) + [1, len(o)]
    for op in o: prob += e.op(op)
    prob += [0, 0, 0, 0, 2, 0, 0, 0, len(words)]
    for w in words: prob += e.s(w)
    p = subprocess.run([BIN], input=' '.join(map(str, prob)), capture_output=True, text=True)
    if p.returncode: raise RuntimeError(p.stderr[-500:])
    return [''.join(e.U[int(x)] for x in l.split()[1:]) for l in p.stdout.splitlines() if l.startswith('E')]
