"""Proof obligations over the real functions, how they are discharged, and what is reported."""
import os, sys, json, time, random, subprocess, traceback, multiprocessing, importlib
from . import load, sym, enc
from . import dom as D

ROOT = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', '..'))
PY = sys.executable
MARK_EXC = '\ufddc'


class Ob:
    """kind 'eq'   : impl(T, w) == spec(T, w) for every w in dom
       kind 'line' : impl(T, w) is w with each maximal block between characters of sep replaced by impl(T, block), for every w in dom
       kind 'lang' : impl(T, w) is a word of the automaton `lang`, for every w in dom
       kind 'frame': the call cfg = (source, target, nativize, post options, pre options) leaves no state behind, on every path
       kind 'total': impl(T, w) returns for every w in dom (no exception on any path)
       kind 'fin'  : finite, complete enumeration; fin(T) returns a list of (input, got, expected) failures and a count"""
    def __init__(self, name, kind, impl=None, spec=None, dom=None, lang=None, fin=None, weight=1, cross=12, maxstates=None, reduce=True, about='', tmo=None, sep='\n', cfg=None, bounded=''):
        self.name = name; self.kind = kind; self.impl = impl; self.spec = spec; self.dom = dom; self.lang = lang
        self.bounded = bounded; self.fin = fin; self.weight = weight; self.cross = cross; self.maxstates = maxstates; self.reduce = reduce; self.about = about
        self.tmo = tmo; self.sep = sep; self.cfg = cfg


def allowed(chars, forbid=()):
    """automaton: every character is in chars, and none of the strings in forbid occurs"""
    return ('allow', None if chars is None else frozenset(chars), tuple(forbid))


def lang_ok(lang, w):
    _, ch, forbid = lang
    return (ch is None or set(w) <= ch) and not any(f in w for f in forbid)


# ------------------------------------------------------------------ the real code, in its own process
class ServerDied(Exception): pass


class Server:
    def __init__(self, cid, tier, seed, repo=None):
        env = dict(os.environ)
        env['PYTHONPATH'] = os.path.join(ROOT, 'engine') + os.pathsep + ROOT
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        self.p = subprocess.Popen([PY, '-W', 'ignore', '-m', 'vc.server', cid, tier, str(seed)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, text=True, env=env, cwd=ROOT, encoding='utf8')

    def ask(self, obj):
        self.p.stdin.write(json.dumps(obj) + '\n'); self.p.stdin.flush()
        l = self.p.stdout.readline()
        if not l: raise ServerDied('server died')
        return json.loads(l)

    def close(self):
        try: self.p.stdin.close(); self.p.wait(5)
        except Exception: self.p.kill()


def outcome(f, *a):
    try:
        r = f(*a)
        if not isinstance(r, str): return MARK_EXC + 'returned ' + type(r).__name__
        return r
    except Exception as e: return MARK_EXC + type(e).__name__ + ': ' + str(e)[:200]


def concrete(ob, T, w):
    """(got, expected, ok) on the real code"""
    if ob.kind == 'eq':
        g = outcome(ob.impl, T, w); s = outcome(ob.spec, T, w)
        return g, s, g == s
    if ob.kind == 'line':
        g = outcome(ob.impl, T, w); s = ''.join(l if l in ob.sep else outcome(ob.impl, T, l) for l in blocks(w, ob.sep))
        return g, s, g == s
    if ob.kind == 'lang':
        g = outcome(ob.impl, T, w)
        return g, 'a text over the permitted characters', not g.startswith(MARK_EXC) and lang_ok(ob.lang, g)
    if ob.kind == 'total':
        g = outcome(ob.impl, T, w)
        return g, 'a text', not g.startswith(MARK_EXC)
    raise ValueError(ob.kind)


def blocks(w, sep):
    out = ['']
    for c in w:
        if c in sep: out += [c, '']
        else: out[-1] += c
    return [b for b in out if b]


# ------------------------------------------------------------------ discharge
class Ctx: pass
CTX = Ctx()
CTX.snap = None            # the package's state, as left by the last call
CTX.srv = None             # one server per worker process


def traced_functions(run):
    seen = {}
    root = os.path.realpath(load.REPO) + os.sep
    def prof(frame, ev, arg):
        if ev == 'call':
            co = frame.f_code
            if co not in seen: seen[co] = co.co_filename
    sys.setprofile(prof)
    try: r = run()
    finally: sys.setprofile(None)
    out = set()
    for co, fn in seen.items():
        if fn.startswith(root) and not co.co_name.startswith('<'): out.add(os.path.relpath(fn, root) + ':' + co.co_name)
    return r, out


def lang_dfa(lang, alpha_out):
    _, ch, forbid = lang
    # states = Aho-Corasick states of forbid
    letters = set(c for f in forbid for c in f)
    pref = sorted({f[:i] for f in forbid for i in range(len(f) + 1)} | {''}, key=len)
    idx = {p: i for i, p in enumerate(pref)}
    dead = len(pref)
    tr = []
    for p in pref:
        m = {}
        for c in letters:
            y = p + c
            if any(y.endswith(f) for f in forbid): m[c] = dead; continue
            x = y
            while x not in idx: x = x[1:]
            m[c] = idx[x]
        default = 0
        if ch is not None:
            for c in list(m):
                if c not in ch: m[c] = dead
            for c in alpha_out:
                if c not in m: m[c] = 0 if c in ch else dead
        tr.append((default, m))
    tr.append((dead, {}))
    return 0, [True] * len(pref) + [False], tr


def prove(ob):
    """returns a result record"""
    t0 = time.time(); tier = CTX.tier
    rec = {'name': ob.name, 'kind': ob.kind, 'status': None, 'vcs': 0, 'discharged': 0, 'cex': [], 'states': 0, 'delay': 0, 'fns': [], 'note': '', 'cross': 0, 'ops': 0, 'rawops': 0, 'solver_s': 0.0}
    rnd = random.Random(CTX.seed * 7919 + hash_name(ob.name))
    def server():
        if CTX.srv is None or CTX.srv.p.poll() is not None: CTX.srv = Server(CTX.cid, CTX.tier, CTX.seed)
        return CTX.srv
    try:
        if ob.kind == 'fin':
            a = server().ask({'ob': ob.name, 'fin': 1})
            if 'error' in a: rec['status'] = 'undecided'; rec['note'] = a['error']; return rec
            rec['vcs'] = a['count']; rec['discharged'] = a['count'] - len(a['fail'])
            rec['fns'] = a.get('fns', [])
            rec['cex'] = [{'w': f[0], 'got': f[1], 'expected': f[2]} for f in a['fail'][:20]]
            rec['status'] = 'violation' if a['fail'] else ('proved' if a['count'] else 'undecided')
            if ob.bounded: rec['note'] = ob.bounded; rec['bounded_n'] = rec['vcs']; rec['vcs'] = rec['discharged'] = 0
            if ob.bounded and rec['status'] == 'proved': rec['status'] = 'bounded'
            return rec
        if time.time() > CTX.deadline: rec['status'] = 'skipped'; return rec
        T = CTX.T
        if ob.kind == 'frame': return prove_frame(ob, rec, T, server)
        alpha = ob.dom.alpha
        bounded = None; cands = []
        try:
            if CTX.noshim: raise sym.Unsup('the package does not load under the symbolic executor: ' + CTX.noshim)
            if ob.kind == 'eq': fn = lambda s: (ob.impl(T, s), ob.spec(T, s))
            else: fn = lambda s: (ob.impl(T, s), None)
            paths, fns = traced_functions(lambda: sym.explore(fn, alpha))
            rec['fns'] = sorted(fns)
            reals = []
            for p in paths:
                cons = [(c[0].ops(), c[3], c[1], c[2]) for c in p.cons]
                rec['vcs'] += 1
                if p.exc is not None:
                    # reachable?  find an input that takes this path
                    w = reach(cons, ob, rec)
                    if w is None: rec['discharged'] += 1; continue
                    if w is False: bounded = 'exception path undecided: %r' % (p.exc,)
                    else: cands.append(w); bounded = 'exception on a path: %r' % (p.exc,)
                    continue
                a, b = p.result
                opsa = chain_of(a)
                rec['rawops'] += len(opsa)
                reals.append((cons, opsa))
                if ob.kind == 'total':
                    rec['discharged'] += 1; continue
                tmo = ob.tmo or CTX.tmo
                ms = ob.maxstates or CTX.maxstates
                if ob.kind == 'eq':
                    opsb = chain_of(b)
                    if plain_chain(opsa, alpha) == plain_chain(opsb, alpha): rec['discharged'] += 1; rec['same'] = rec.get('same', 0) + 1; continue      # by reflexivity
                    r = enc.solve('EQ', opsa, opsb, ob.dom, cons, maxstates=ms, maxcex=6, timeout=tmo, reduce=ob.reduce)
                elif ob.kind == 'line':
                    if cons: bounded = 'path condition under a line split'; continue
                    r = enc.solve('EQ', opsa, enc.Restart(opsa, ob.sep), ob.dom, (), maxstates=ms, maxcex=6, timeout=tmo)
                elif ob.kind == 'lang':
                    al = set(alpha)
                    for o in opsa: al = sym.op_out(o, al)[1]
                    _, ch, forbid = ob.lang
                    if (ch is None or set(al) <= ch) and all(set(f) - set(al) for f in forbid):
                        rec['discharged'] += 1; rec['typed'] = rec.get('typed', 0) + 1; continue          # by the alphabets of the operations alone
                    r = enc.solve('LANG', opsa, None, ob.dom, cons, maxstates=ms, maxcex=6, timeout=tmo, lang=lang_dfa(ob.lang, al))
                rec['states'] += r.states; rec['delay'] = max(rec['delay'], r.delay); rec['ops'] += r.nops; rec['solver_s'] += r.wall
                if r.verdict == 'PROVED': rec['discharged'] += 1
                elif r.cex: cands += r.cex; bounded = bounded or 'refuted'
                else: bounded = 'solver gave no verdict within its limits'
            # cross-validation of the extracted text functions against CPython running the real code
            if ob.cross and reals:
                ws = [ob.dom.sample(rnd, rnd.randint(1, 14)) for _ in range(ob.cross)]
                done = 0
                for w in ws if ob.kind == 'total' else ():
                    g = server().ask({'ob': ob.name, 'w': w})
                    if 'error' in g: raise sym.Unsup('real run failed: ' + g['error'])
                    done += 1
                    if not g['ok']: cands.append(w)
                for cons, opsa in reals if ob.kind != 'total' else ():
                    mine = [w for w in ws if all(holds(c, w) for c in cons)]
                    if not mine: continue
                    ev = enc.evaluate(opsa, mine, alpha)
                    for w, e in zip(mine, ev):
                        g = server().ask({'ob': ob.name, 'w': w})
                        if 'error' in g: raise sym.Unsup('real run failed: ' + g['error'])
                        done += 1
                        if g['impl'] != e:
                            if not g['ok']: cands.append(w)
                            else: bounded = 'the extracted function differs from the real one on %r' % (w,); rec['mismatch'] = w
                        elif not g['ok'] and ob.kind != 'line': cands.append(w)
                rec['cross'] = done
        except sym.Unsup as e:
            bounded = 'not within reach of the symbolic executor: %s' % (e,)
        except ServerDied: raise
        except Exception as e:
            bounded = 'the symbolic executor failed: ' + traceback.format_exc()[-200:]
        # confirm candidates on the real code
        for w in sorted(set(cands), key=lambda x: (len(x), x))[:25]:
            g = server().ask({'ob': ob.name, 'w': w})
            if 'error' in g: raise ServerDied(g['error'])
            if not g['ok']: rec['cex'].append({'w': w, 'got': g['impl'], 'expected': g['spec']})
        if rec['cex']: rec['status'] = 'violation'; return rec
        if cands and bounded == 'refuted': bounded = 'counterexample not reproduced on the real code: %r' % (cands[:3],)
        if bounded is None:
            rec['status'] = 'proved'; return rec
        # bounded stand-in
        rec['note'] = bounded; n = 0
        lim = CTX.bounded
        tend = time.time() + CTX.bounded_s
        for w in words(ob.dom, rnd, lim):
            g = server().ask({'ob': ob.name, 'w': w}); n += 1
            if not g['ok']:
                rec['cex'].append({'w': w, 'got': g['impl'], 'expected': g['spec']})
                rec['status'] = 'violation'; return rec
            if time.time() > tend: break
        rec['bounded_n'] = n
        rec['status'] = 'bounded'
        return rec
    except Exception as e:
        rec['status'] = 'crash'; rec['note'] = traceback.format_exc()[-1500:]
        CTX.srv = None
        return rec
    finally:
        rec['wall'] = round(time.time() - t0, 2)


def call_cfg(T, cfg, s, dirty=None):
    src, tgt, native, post, pre = cfg
    a, b = list(post), list(pre)
    r = T.process(src, tgt, s, native, a, b)
    if dirty is not None and (a != list(post) or b != list(pre)): dirty.append("the caller's option list")
    return r


def plain_chain(ops, alpha):
    """the chain without the operations that cannot apply, with letter maps written out: equal results mean equal text functions on the alphabet"""
    al = set(alpha); out = []
    for o in ops:
        live, nxt = sym.op_out(o, al)
        if live: out.append(('lm', tuple((c, o[2](c)) for c in sorted(al) if o[2](c) != c)) if o[0] == 'lm' else o)
        al = set(nxt)
    return out


def digest(paths, alpha):
    import hashlib
    h = hashlib.sha256()
    def r(o):
        if isinstance(o, str): h.update(b's'); h.update(o.encode('utf8', 'surrogatepass'))
        elif callable(o): r(getattr(o, '__name__', 'f'))
        elif isinstance(o, (list, tuple)):
            h.update(b'(')
            for x in o: r(x)
            h.update(b')')
        elif isinstance(o, (set, frozenset)): r(sorted(o))
        else: h.update(repr(o).encode())
    for p in paths:
        for c in p.cons: r(c[0].ops()); r(c[1:])
        r(plain_chain(chain_of(p.result[0]), alpha) if p.exc is None else repr(p.exc))
    return h.hexdigest()


def digests(cid, tier, seed):
    """the extracted text function of every call, in a process with another string hash seed (set and dict orders differ)"""
    env = dict(os.environ, PYTHONHASHSEED=str(CTX.hash2), VC_DIGEST='1')
    p = subprocess.Popen([PY, '-W', 'ignore', '-B', os.path.join(ROOT, 'check.py'), cid, tier], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env, encoding='utf8')
    return p


def only_digest(i):
    ob = CTX.obs[i]
    if time.time() > CTX.deadline: return ob.name, None
    try:
        paths = sym.explore(lambda s: (call_cfg(CTX.T, ob.cfg, s), None), ob.dom.alpha)
        return ob.name, digest(paths, ob.dom.alpha)
    except (Exception, sym.Unsup): return ob.name, None


def prove_frame(ob, rec, T, server):
    from . import frame
    why = None; dirty = []
    frame.warm(T); CTX.snap = None
    def fn(s):
        a = CTX.snap or frame.snapshot()
        try: r = call_cfg(T, ob.cfg, s, dirty)
        finally:
            CTX.snap = frame.snapshot()
            dirty.extend(frame.diff(a, CTX.snap))
        return r, None
    try:
        if CTX.noshim: raise sym.Unsup('the package does not load under the symbolic executor: ' + CTX.noshim)
        paths, fns = traced_functions(lambda: sym.explore(fn, ob.dom.alpha))
        rec['fns'] = sorted(fns); rec['vcs'] = len(paths)
        try: rec['digest'] = digest(paths, ob.dom.alpha)
        except sym.Unsup: pass
        if not dirty: rec['discharged'] = len(paths)
        for p in paths:
            if p.exc is None: rec['rawops'] += len(chain_of(p.result[0]))
    except sym.Unsup as e: why = 'not within reach of the symbolic executor: %s' % (e,)
    except Exception as e: why = 'the symbolic executor failed: ' + traceback.format_exc()[-200:]
    if dirty: why = 'the call changes ' + ', '.join(sorted(set(dirty))[:4])
    if why is None: rec['status'] = 'proved'; return rec
    rec['note'] = why
    # bounded stand-in: histories with this call first and last give the same results
    rnd = random.Random(CTX.seed * 7919 + hash_name(ob.name))
    near = [o.cfg for o in CTX.obs if o.kind == 'frame' and o is not ob and (o.cfg[1] == ob.cfg[1] or o.cfg[0] == ob.cfg[0])]
    far = [o.cfg for o in CTX.obs if o.kind == 'frame']
    probes = list({json.dumps(c): c for c in rnd.sample(near, min(len(near), 60)) + rnd.sample(far, min(len(far), 25))}.values())
    probes = [c for c in probes if list(c) != list(ob.cfg)]
    if not dirty: probes = probes[:25]
    # a fresh process for each order
    res = []
    for order in ([ob.cfg] + probes + [ob.cfg], probes + [ob.cfg]):
        sv = Server(CTX.cid, CTX.tier, CTX.seed)
        try: a = sv.ask({'calls': order})
        finally: sv.close()
        if 'error' in a: rec['status'] = 'undecided'; rec['note'] += '; ' + a['error']; return rec
        res.append(a['calls'])
    first, last = res
    n = 0
    pairs = [(c, first[1 + i], last[i]) for i, c in enumerate(probes)] + [(ob.cfg, first[0], last[-1]), (ob.cfg, first[0], first[-1])]
    for c, x, y in pairs:
        for (w, g), (w2, e) in zip(x, y):
            n += 1
            if g != e or w != w2: rec['cex'].append({'w': json.dumps([list(c), w], ensure_ascii=False), 'got': 'depends on what was converted before: ' + g, 'expected': e})
    rec['bounded_n'] = n
    rec['status'] = 'violation' if rec['cex'] else 'bounded'
    return rec


def hash_name(s):
    h = 0
    for c in s: h = (h * 131 + ord(c)) % 1000003
    return h


def chain_of(x):
    if sym.is_sym(x): return x.ops()
    if type(x) is str: return [('const', x)]
    raise sym.Unsup('result of type ' + type(x).__name__)


def holds(c, w):
    ops, pol, kind, x = c
    for o in ops: w = sym.run_op(o, w)
    v = (x in w) if kind == 0 else (w == x)
    return v == pol


def reach(cons, ob, rec):
    """an input in dom that satisfies the path condition: None if there is none, False if undecided"""
    r = enc.solve('EQ', [], [('app', '\ufddd')], ob.dom, cons, maxstates=400000, maxcex=1, timeout=60, reduce=False)
    if r.verdict == 'PROVED': return None
    if r.cex: return r.cex[0]
    return False


def words(dom, rnd, lim):
    """short words exhaustively (as far as lim/2 goes), then random longer ones"""
    seen = set(); todo = [('', dom.init)]; n = 0
    while todo and n < lim // 2:
        nxt = []
        for w, q in todo:
            if dom.acc[q] and w not in seen:
                seen.add(w); n += 1; yield w
                if n >= lim // 2: break
            for c, t in dom.trans[q].items():
                if dom.live(t): nxt.append((w + c, t))
        rnd.shuffle(nxt)
        todo = nxt[:lim]
    while n < lim:
        w = dom.sample(rnd, rnd.randint(3, 24)); n += 1
        if w not in seen: yield w


# ------------------------------------------------------------------ driver
def _one(i):
    return prove(CTX.obs[i])


def main(cid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    enc.build()
    CTX.cid = cid; CTX.tier = tier; CTX.seed = seed
    CTX.deadline = t0 + (560 if tier == 'quick' else 3 * 3600)
    CTX.tmo = 110 if tier == 'quick' else 1500
    CTX.maxstates = 900000 if tier == 'quick' else 12000000
    CTX.bounded = 1500 if tier == 'quick' else 20000
    CTX.bounded_s = 25 if tier == 'quick' else 300
    CTX.noshim = None
    try: T = load.load()
    except Exception:
        CTX.noshim = traceback.format_exc()[-600:]
        for m in [m for m in sys.modules if m.startswith('aksharamukha')]: del sys.modules[m]
        T = load.load(shim=False)
    CTX.T = T
    sys.path.insert(0, ROOT)
    mod = importlib.import_module('checks.' + cid)
    obs = mod.obligations(T, tier, seed)
    names = [o.name for o in obs]
    assert len(set(names)) == len(names), 'duplicate obligation names'
    only = os.environ.get('VC_ONLY')
    if only: obs = [o for o in obs if only in o.name]
    CTX.obs = obs
    order = sorted(range(len(obs)), key=lambda i: -obs[i].weight)
    nproc = int(os.environ.get('VC_PROCS', min(8, os.cpu_count() or 4)))
    if tier == 'thorough': nproc = min(nproc, 4) if getattr(mod, 'HEAVY', False) else nproc
    recs = []
    verbose = os.environ.get('VC_VERBOSE')
    if os.environ.get('VC_DIGEST'):
        with multiprocessing.get_context('fork').Pool(max(1, nproc // 2), maxtasksperchild=40) as pool:
            print(json.dumps(dict(pool.imap_unordered(only_digest, order, chunksize=4))))
        return 0
    twice = not CTX.noshim and any(o.kind == 'frame' for o in obs)
    CTX.hash1, CTX.hash2 = seed % 1000 + 1, seed % 1000 + 2
    if twice:
        if os.environ.get('PYTHONHASHSEED') != str(CTX.hash1):
            os.environ['PYTHONHASHSEED'] = str(CTX.hash1)
            sys.stdout.flush(); os.execv(PY, [PY, '-W', 'ignore', '-B', os.path.join(ROOT, 'check.py'), cid, tier])
        child = digests(cid, tier, seed); nproc = max(1, nproc * 5 // 8)
    with multiprocessing.get_context('fork').Pool(nproc, maxtasksperchild=40) as pool:
        for r in pool.imap_unordered(_one, order, chunksize=1):
            recs.append(r)
            if sum(x['status'] == 'violation' for x in recs) >= int(os.environ.get('VC_STOP', '40')): pool.terminate(); break          # enough to report
            if verbose: print(r['status'], r['name'], r['states'], r['wall'], r['note'][:200], [(c['w'], c['got'], c['expected']) for c in r['cex'][:4]], flush=True)
    if twice:
        try: d2 = json.loads(child.communicate(timeout=300)[0])
        except Exception: child.kill(); d2 = {}
        byname = {o.name: o for o in obs}
        for r in recs:
            if r['status'] != 'proved': continue
            r['vcs'] += 1
            if r.get('digest') and d2.get(r['name']) == r['digest']: r['discharged'] += 1
            elif r.get('digest') and d2.get(r['name']): hashdep(r, byname[r['name']], cid, tier, seed)
            else: r['status'] = 'bounded'; r['note'] = 'not compared between string hash seeds'
    return report(cid, tier, seed, mod, recs, t0)


def hashdep(r, ob, cid, tier, seed):
    """the extracted functions differ between hash seeds: do the results?"""
    res = []
    for h in range(CTX.hash1, CTX.hash1 + 4):
        os.environ['PYTHONHASHSEED'] = str(h)
        sv = Server(cid, tier, seed)
        try: res.append(sv.ask({'calls': [ob.cfg]}).get('calls', [[]])[0])
        finally: sv.close()
    os.environ['PYTHONHASHSEED'] = str(CTX.hash1)
    r['status'] = 'bounded'; r['note'] = 'operations are ordered by a set or other unordered collection'; r['bounded_n'] = len(res[0])
    for other in res[1:]:
        for (w, g), (w2, e) in zip(res[0], other):
            if g != e and w == w2:
                r['cex'] = [{'w': json.dumps([list(ob.cfg), w], ensure_ascii=False), 'got': 'differs from process to process (string hashing): ' + g, 'expected': e}]
                r['status'] = 'violation'


def known(cid):
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p, encoding='utf8'))['findings'] if k['property'] == cid and k['status'] == 'known']


def match(pat, name):
    return pat == name or (pat.endswith('*') and name.startswith(pat[:-1])) or (pat.startswith('*') and name.endswith(pat[1:]))


def known_factors(cid, ob):
    """inputs excluded from an obligation's domain because they are listed findings"""
    f = []; w = []
    for k in known(cid):
        if any(match(o, ob) for o in k['obligations']):
            (w if k.get('as') == 'word' else f).extend(k.get('excluded') or [k['input']])
    return f, w


def report(cid, tier, seed, mod, recs, t0):
    os.makedirs(os.path.join(ROOT, 'evidence', 'replay'), exist_ok=True)
    # listed findings are replayed on the real code
    kn = known(cid); lines = []
    if kn:
        srv = Server(cid, 'thorough', seed)
        for k in kn:
            nm = k.get('show') or k['obligations'][0]
            g = srv.ask({'ob': nm, 'w': k['input']})
            if 'error' in g: print('listed finding not replayed: %s' % g['error'], file=sys.stderr)
            elif not g['ok']: lines.append('KNOWN-FINDING: property=%s %s on %r gives %r, not %r' % (cid, nm, k['input'], g['impl'], g['spec']))
        srv.close()
    viol = [r for r in recs if r['status'] == 'violation']
    crash = [r for r in recs if r['status'] in ('crash',)]
    und = [r for r in recs if r['status'] in ('undecided', 'skipped')]
    bnd = [r for r in recs if r['status'] == 'bounded']
    prv = [r for r in recs if r['status'] == 'proved']
    vcs = sum(r['vcs'] for r in recs); dis = sum(r['discharged'] for r in recs)
    fns = sorted({f for r in recs for f in r['fns']})
    level = getattr(mod, 'LEVEL', 'proof')
    ev = {
        'property': cid, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'obligations': vcs, 'discharged': dis,
            'checker_cmd': 'engine/build/strvc (built from engine/rs/strvc.rs) on verification conditions generated from /repo by engine/vc; finite obligations by complete enumeration on the real code',
            'trusted_base': ['engine/vc (symbolic executor: CPython runs the real functions on a symbolic text; re/unicodedata/str semantics encoded)', 'engine/rs/strvc.rs (decision procedure)', 'CPython', 'unicodedata tables'],
            'contracts': len(recs), 'contracts_proved': len(prv), 'contracts_bounded': len(bnd), 'contracts_undecided': len(und) + len(crash),
            'functions_under_contract': fns, 'functions_under_contract_count': len(fns),
            'text_operations_extracted': sum(r['rawops'] for r in recs), 'text_operations_live': sum(r['ops'] for r in recs),
            'product_states': sum(r['states'] for r in recs), 'solver_s': round(sum(r['solver_s'] for r in recs), 1),
            'cross_validated_words': sum(r['cross'] for r in recs),
            'bounded': [{'obligation': r['name'], 'why': r['note'][:300], 'inputs_tried': r.get('bounded_n', 0)} for r in bnd][:60],
            'undecided': [{'obligation': r['name'], 'why': (r['note'] or r['status'])[:300]} for r in und + crash][:60],
            'samples': [{'obligation': r['name'], 'status': r['status'], 'verification_conditions': r['vcs'], 'product_states': r['states'], 'wall_s': r.get('wall')} for r in sorted(recs, key=lambda r: r['name'])[:400]],
            'known_findings': lines,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + ['regular expressions: the subset of sre/regex syntax met in /repo, semantics encoded by hand and cross-validated against CPython on random words on every run',
                        'text lengths and Python recursion/memory limits are treated as unbounded'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
    }
    if level == 'other':
        ev['coverage']['explanation'] = mod.EXPLANATION
        ev['coverage']['evaluations'] = sum(r.get('bounded_n', 0) for r in recs)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', cid + '.json'), 'w', encoding='utf8'), ensure_ascii=False, indent=1)
    for l in lines: print(l)
    for i, r in enumerate(sorted(viol, key=lambda r: r['name'])):
        path = os.path.join(ROOT, 'evidence', 'replay', '%s-%d.json' % (cid, i))
        json.dump({'property': cid, 'tier': tier, 'seed': seed, 'obligation': r['name'], 'kind': r['kind'], 'failures': r['cex']}, open(path, 'w', encoding='utf8'), ensure_ascii=False, indent=1)
        c = r['cex'][0]
        print('failed obligation %s: input %r gives %r, expected %r' % (r['name'], c['w'], c['got'], c['expected']))
        print('VIOLATION property=%s replay=%s' % (cid, path), flush=True)
    print('%s: %d contracts, %d proved, %d bounded, %d undecided; %d/%d verification conditions, %.0f s' % (cid, len(recs), len(prv), len(bnd), len(und) + len(crash), dis, vcs, time.time() - t0))
    for r in crash[:3]: print('CRASH', r['name'], r['note'], file=sys.stderr)
    if viol: return 1
    if crash: return 3
    if not prv and not bnd: print('nothing was decided', file=sys.stderr); return 2
    return 0
