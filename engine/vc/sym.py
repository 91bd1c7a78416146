"""Symbolic strings: the verification-condition generator executes the *real* functions of /repo on a symbolic
text value.  Every operation the code applies to the text is recorded; every decision it takes on the text forks
the execution (all paths are enumerated).  Anything that is not modelled exactly raises Unsup (never approximated)."""
import re as _re, unicodedata as _ud, string as _string, sys
import re._parser as sp, re._constants as sc


class Unsup(BaseException):
    """operation outside the modelled fragment (BaseException: the code under test must not be able to catch it)"""


class Infeasible(BaseException):
    pass


SHIMS = {}
MARK = '\ufdd1'      # noncharacter used to encode regex predicates
OPAQUE = '\ufdd2'    # noncharacter: textual rendering of a symbolic value (only for logging)


# ----------------------------------------------------------------------------- character classes
def _cat(name):
    n = str(name)
    if n == 'CATEGORY_SPACE': return lambda c: c.isspace()
    if n == 'CATEGORY_NOT_SPACE': return lambda c: not c.isspace()
    if n == 'CATEGORY_DIGIT': return lambda c: c.isdecimal()
    if n == 'CATEGORY_NOT_DIGIT': return lambda c: not c.isdecimal()
    if n == 'CATEGORY_WORD': return isword
    if n == 'CATEGORY_NOT_WORD': return lambda c: not isword(c)
    raise Unsup(n)


def isword(c): return c.isalnum() or c == '_'


PROPS = {'\ufdd3': lambda c: _ud.category(c)[0] == 'L', '\ufdd4': lambda c: _ud.category(c)[0] == 'M'}


def lit_test(ch):
    if ch in PROPS: return PROPS[ch]
    return lambda c: c == ch


def set_test(items):
    neg = False; tests = []; lits = set()
    for op, av in items:
        if op is sc.NEGATE: neg = True
        elif op is sc.LITERAL:
            if chr(av) in PROPS: tests.append(PROPS[chr(av)])
            else: lits.add(chr(av))
        elif op is sc.RANGE: tests.append(lambda c, a=av[0], b=av[1]: a <= ord(c) <= b)
        elif op is sc.CATEGORY: tests.append(_cat(av))
        else: raise Unsup('set item %s' % op)
    return lambda c: (c in lits or any(f(c) for f in tests)) != neg


def item_test(op, av):
    if op is sc.LITERAL: return lit_test(chr(av))
    if op is sc.NOT_LITERAL:
        f = lit_test(chr(av)); return lambda c: not f(c)
    if op is sc.ANY: return lambda c: c != '\n'
    if op is sc.IN: return set_test(av)
    raise Unsup(str(op))


_parsed = {}


def parse_pat(p):
    r = _parsed.get(p)
    if r is None:
        t = sp.parse(p)
        if t.state.flags & ~(_re.UNICODE):
            raise Unsup('regex flags')
        r = _parsed[p] = t
    return r


def parse_tmpl(p, repl):
    t = sp.parse_template(repl, _re.compile(p))
    return list(t)


def dead(items, al):
    """pattern cannot match any text over alphabet al"""
    for op, av in items:
        if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
            t = item_test(op, av)
            if not any(t(c) for c in al): return True
        elif op is sc.BRANCH:
            if all(dead(a, al) for a in av[1]): return True
        elif op is sc.SUBPATTERN:
            if dead(av[3], al): return True
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            if av[0] > 0 and dead(av[2], al): return True
        elif op is sc.ASSERT:
            if dead(av[1], al): return True
    return False


# ----------------------------------------------------------------------------- NFC / NFD data
_COMPSEC = None


def compsec():
    global _COMPSEC
    if _COMPSEC is None:
        s = set()
        for cp in range(0x110000):
            d = _ud.decomposition(chr(cp))
            if d and not d.startswith('<'):
                p = d.split()
                if len(p) == 2: s.add(chr(int(p[1], 16)))
        for cp in list(range(0x1161, 0x1176)) + list(range(0x11a8, 0x11c3)): s.add(chr(cp))
        _COMPSEC = s
    return _COMPSEC


def norm_close(al, form):
    al = set(al)
    al |= {d for c in al for d in _ud.normalize('NFD', c)}
    if form == 'NFC':
        ch = True
        cs = [c for c in al if c in compsec()]
        while ch:
            ch = False
            for a in list(al):
                for b in cs:
                    n = _ud.normalize('NFC', a + b)
                    for d in n:
                        if d not in al: al.add(d); ch = True
                        if d not in al and d in compsec(): cs.append(d)
            cs = [c for c in al if c in compsec()]
    return al


# ----------------------------------------------------------------------------- operations
def op_out(op, al):
    """(live, alphabet after).  A dead op is the identity on every text over al."""
    k = op[0]
    if k == 'r':
        if not set(op[1]) <= al: return False, al
        if len(op[1]) == 1 and op[1] not in op[2]: return True, (set(al) - {op[1]}) | set(op[2])
        return True, al | set(op[2])
    if k == 's':
        t = parse_pat(op[1])
        if dead(t, al): return False, al
        o = set(al)
        if not op[3]:
            lit = op[1][1:] if len(op[1]) == 2 and op[1][0] == '\\' and not op[1][1].isalnum() else op[1]
            if len(lit) == 1 and (lit != op[1] or lit not in '.^$*+?{}[]\\|()') and all(isinstance(x, str) for x in op[2]): o.discard(lit)
        for x in op[2]:
            if isinstance(x, str): o |= set(x)
        return True, o
    if k == 'lm':
        f = op[2]
        if all(f(c) == c for c in al): return False, al
        return True, {d for c in al for d in f(c)}
    if k == 'n':
        if all(_ud.normalize(op[1], c) == c and _ud.combining(c) == 0 and c not in compsec() for c in al): return False, al
        return True, norm_close(al, op[1])
    if k in ('app', 'pre'): return True, al | set(op[1])
    if k == 'const': return True, set(op[1])
    raise Unsup(k)


def run_op(op, s):
    """reference (CPython) semantics of an op, for cross validation and predicates on concrete words"""
    k = op[0]
    if k == 'r': return s.replace(op[1], op[2])
    if k == 's': return getattr(pat_py(op[1]), 'sub', None)(lambda m: ''.join(x if isinstance(x, str) else (m.group(x) or '') for x in op[2]), s, count=op[3]) if any(x in op[1] for x in PROPS) else _re.sub(op[1], lambda m: ''.join(x if isinstance(x, str) else (m.group(x) or '') for x in op[2]), s, count=op[3])
    if k == 'lm': return ''.join(op[2](c) for c in s)
    if k == 'n': return _ud.normalize(op[1], s)
    if k == 'app': return s + op[1]
    if k == 'pre': return op[1] + s
    if k == 'const': return op[1]
    raise Unsup(k)


def pat_py(p):
    if any(x in p for x in PROPS):
        import regex
        return regex.compile(p.replace('\ufdd3', r'\p{L}').replace('\ufdd4', r'\p{M}'))
    return p


class Run:
    """one path of a symbolic execution"""
    cur = None

    def __init__(self, decisions):
        self.dec = decisions; self.i = 0; self.cons = []; self.new = []


class Sym:
    __slots__ = ('parent', 'op', '_al', 'root')

    def __init__(self, parent, op, al=None, root=None):
        self.parent = parent; self.op = op; self._al = al
        self.root = self if parent is None else parent.root

    # isinstance(x, str) holds for the values this object stands for
    @property
    def __class__(self): return str

    def al(self):
        if self._al is None:
            st = []
            s = self
            while s._al is None: st.append(s); s = s.parent
            for x in reversed(st): x._al = frozenset(op_out(x.op, set(x.parent._al))[1])
        return self._al

    def ops(self):
        o = []; s = self
        while s.parent is not None: o.append(s.op); s = s.parent
        return o[::-1]

    def live(self):
        o = []; s = self
        while s.parent is not None:
            if op_out(s.op, set(s.parent.al()))[0]: o.append(s.op)
            s = s.parent
        return o

    def _a(self, op):
        for x in op[1:]:
            if isinstance(x, str) and OPAQUE in x: raise Unsup('opaque text flows back')
        return Sym(self, op)

    def replace(self, x, y, count=-1, /):
        if type(x) is not str or type(y) is not str: raise Unsup('replace with symbolic argument')
        if x == y and count < 0: return self
        if x == '': return self._a(('s', '', (y,), max(count, 0))) if count else self
        if count == 0: return self
        if count > 0: return self._a(('s', _re.escape(x), (y,), count))
        return self._a(('r', x, y))

    def __add__(self, o):
        if type(o) is not str: raise Unsup('concatenation of two symbolic texts')
        return self._a(('app', o)) if o else self

    def __radd__(self, o):
        if type(o) is not str: raise Unsup('concatenation')
        return self._a(('pre', o)) if o else self

    def _map(self, name, f):
        if any(c in self.al() for c in 'Σ'): raise Unsup('final sigma')
        return self._a(('lm', name, f))

    def lower(self): return self._map('lower', str.lower)
    def upper(self): return self._map('upper', str.upper)
    def casefold(self): return self._map('casefold', str.casefold)

    def translate(self, t):
        def f(c):
            try: r = t[ord(c)]
            except LookupError: return c
            if r is None: return ''
            return chr(r) if isinstance(r, int) else r
        return self._map('translate', f)

    def strip(self, chars=None): return self.lstrip(chars).rstrip(chars)

    def lstrip(self, chars=None):
        c = r'\s' if chars is None else '[' + _re.escape(chars) + ']'
        return self._a(('s', r'\A' + c + '+', ('',), 0))

    def rstrip(self, chars=None):
        c = r'\s' if chars is None else '[' + _re.escape(chars) + ']'
        return self._a(('s', c + r'+\Z', ('',), 0))

    def encode(self, *a): raise Unsup('encode')
    def __str__(self): raise Unsup('str()')
    def __repr__(self): return OPAQUE
    def __format__(self, f): raise Unsup('format')
    def __iter__(self): raise Unsup('iter')
    def __len__(self): raise Unsup('len')
    def __hash__(self): return id(self)
    def __copy__(self): return self
    def __deepcopy__(self, m): return self
    def __mod__(self, x): raise Unsup('mod')
    def __mul__(self, x): raise Unsup('mul')
    def __lt__(self, x): raise Unsup('lt')
    __gt__ = __le__ = __ge__ = __lt__

    def __getattr__(self, a): raise Unsup('str.' + a)

    def __getitem__(self, k):
        if isinstance(k, slice) and k.step is None:
            r = self
            a, b = k.start, k.stop
            if (a is None or (type(a) is int and a >= 0)) and (b is None or (type(b) is int and b < 0)):
                if a: r = r._a(('s', r'\A[\s\S]{0,%d}' % a, ('',), 0))
                if b: r = r._a(('s', r'[\s\S]{0,%d}\Z' % -b, ('',), 1)) if b == -1 else _raise(Unsup('slice'))
                return r
        raise Unsup('getitem')

    # ---- decisions
    def decide(self, kind, x):
        if type(x) is not str: raise Unsup('symbolic predicate argument')
        if kind == 0:
            if x == '': return True
            if not set(x) <= self.al(): return False
            p = self
            # a text that was just cleaned of x by replace(x, y) with y free of x's characters cannot contain x
        if kind == 1 and not set(x) <= self.al(): return False
        r = Run.cur
        if r is None: raise Unsup('decision outside a run')
        for c in r.cons:
            if c[1] == kind and c[2] == x and (c[0] is self or c[0].live() == self.live()): return c[3]          # the same question about the same text
        if r.i < len(r.dec): v = r.dec[r.i]
        else:
            v = False; r.new.append(r.i); r.dec.append(v)
        r.i += 1
        r.cons.append((self, kind, x, v))
        return v

    def __contains__(self, x): return self.decide(0, x)
    def __eq__(self, o):
        if self is o: return True
        if isinstance(o, Sym) or type(o) is not str:
            if type(o) is Sym: raise Unsup('== of two symbolic texts')
            return False
        return self.decide(1, o)
    def __ne__(self, o): return not self.__eq__(o)
    def __bool__(self): return not self.decide(1, '')
    def startswith(self, x, *a):
        if a: raise Unsup('startswith')
        if isinstance(x, tuple): return any(self.startswith(y) for y in x)
        return search(r'\A' + _re.escape(x), self)
    def endswith(self, x, *a):
        if a: raise Unsup('endswith')
        if isinstance(x, tuple): return any(self.endswith(y) for y in x)
        return search(_re.escape(x) + r'\Z', self)
    def count(self, x, *a):
        if a: raise Unsup('count')
        if not set(x) <= self.al(): return 0
        raise Unsup('count')
    def find(self, x, *a):
        if a: raise Unsup('find')
        if not set(x) <= self.al(): return -1
        raise Unsup('find')
    def isspace(self): raise Unsup('isspace')
    def split(self, sep=None, maxsplit=-1):
        if sep is not None and not set(sep) <= self.al(): return [self]
        if Run.cur is not None and Run.cur_split is not None: return Run.cur_split(self, sep, maxsplit)
        raise Unsup('split')


Run.cur_split = None


def _raise(e): raise e


def is_sym(x): return type(x) is Sym


def search(p, t):
    """truth value of re.search(p, t) for symbolic t"""
    q = parse_pat(p)
    if dead(q, t.al()): return False
    return t._a(('s', p, (MARK,), 1)).decide(0, MARK)


def do_sub(p, r, t, count=0, conv=None):
    q = parse_pat(p)
    if is_sym(r): raise Unsup('symbolic template')
    if callable(r) and type(r) is not str:
        if dead(q, t.al()): return t
        raise Unsup('callable replacement')
    tm = tuple(parse_tmpl(p, r))
    return t._a(('s', p, tm, count))


# ----------------------------------------------------------------------------- module shims
class MatchBool:
    def __init__(self, v): self.v = v
    def __bool__(self): return True
    def __getattr__(self, a): raise Unsup('match.' + a)


class PatShim:
    def __init__(self, p): self._p = p
    def sub(self, r, t, count=0): return RE.sub(self._p, r, t, count)
    def search(self, t, *a): return RE.search(self._p, t) if is_sym(t) else self._p.search(t, *a)
    def match(self, t, *a): return RE.match(self._p, t) if is_sym(t) else self._p.match(t, *a)
    def fullmatch(self, t, *a): return RE.fullmatch(self._p, t) if is_sym(t) else self._p.fullmatch(t, *a)
    def findall(self, t, *a): return RE.findall(self._p, t) if is_sym(t) else self._p.findall(t, *a)
    def __getattr__(self, a): return getattr(self._p, a)
    def __hash__(self): return hash(self._p)
    def __eq__(self, o): return self._p == (o._p if isinstance(o, PatShim) else o)


def _ps(p):
    if isinstance(p, PatShim): p = p._p
    if isinstance(p, _re.Pattern):
        if p.flags & ~_re.UNICODE: raise Unsup('flags')
        return p.pattern
    if is_sym(p): raise Unsup('symbolic pattern')
    return p


def _real(p): return p._p if isinstance(p, PatShim) else p


class ReShim:
    __name__ = 're'
    def sub(self, pattern, repl, string, count=0, flags=0):
        if is_sym(string):
            if flags: raise Unsup('flags')
            _re.compile(_real(pattern))
            return do_sub(_ps(pattern), repl, string, count)
        if is_sym(repl): raise Unsup('symbolic template')
        return _re.sub(_real(pattern), repl, string, count=count, flags=flags)
    def subn(self, *a, **k):
        if any(is_sym(x) for x in a): raise Unsup('subn')
        return _re.subn(*a, **k)
    def search(self, p, t, flags=0):
        if is_sym(t):
            if flags: raise Unsup('flags')
            return MatchBool(1) if search(_ps(p), t) else None
        return _re.search(_real(p), t, flags)
    def match(self, p, t, flags=0):
        if is_sym(t):
            if flags: raise Unsup('flags')
            return MatchBool(1) if search(r'\A(?:' + _ps(p) + ')', t) else None
        return _re.match(_real(p), t, flags)
    def fullmatch(self, p, t, flags=0):
        if is_sym(t):
            if flags: raise Unsup('flags')
            return MatchBool(1) if search(r'\A(?:' + _ps(p) + r')\Z', t) else None
        return _re.fullmatch(_real(p), t, flags)
    def findall(self, p, t, flags=0):
        if is_sym(t):
            if dead(parse_pat(_ps(p)), t.al()): return []
            raise Unsup('findall')
        return _re.findall(_real(p), t, flags)
    def compile(self, p, flags=0):
        if is_sym(p): raise Unsup('symbolic pattern')
        return PatShim(_re.compile(_real(p), flags))
    def escape(self, p):
        if is_sym(p): raise Unsup('symbolic pattern')
        return _re.escape(p)
    def __getattr__(self, a):
        f = getattr(_re, a)
        if callable(f) and not isinstance(f, type):
            def g(*x, **k):
                if any(is_sym(y) for y in list(x) + list(k.values())): raise Unsup('re.' + a)
                return f(*[_real(y) for y in x], **k)
            return g
        return f


RE = ReShim()


class UdShim:
    __name__ = 'unicodedata'
    def __init__(self, base): self.__dict__['_b'] = base
    def normalize(self, form, t):
        if is_sym(t):
            if form not in ('NFC', 'NFD'): raise Unsup(form)
            return t._a(('n', form))
        return _ud.normalize(form, t)
    def __getattr__(self, a):
        f = getattr(self._b, a)
        if callable(f):
            def g(*x, **k):
                if any(is_sym(y) for y in x): raise Unsup('unicodedata.' + a)
                return f(*x, **k)
            return g
        return f


class RegexShim:
    """third-party `regex` module as used by gimeltra: sub and subf with \\p{L}, \\p{M}"""
    def __init__(self, base): self.__dict__['_b'] = base
    @staticmethod
    def tr(p):
        if _re.search(r'\\[pP](?!\{[LM]\})', p) or '\\P' in p: raise Unsup('property ' + p)
        if '(?' in _re.sub(r'\(\?[:=!]|\(\?<[=!]', '', p): raise Unsup('regex syntax')
        return p.replace(r'\p{L}', '\ufdd3').replace(r'\p{M}', '\ufdd4')
    def sub(self, p, r, t, count=0, **k):
        if is_sym(t):
            if k: raise Unsup('regex flags')
            return do_sub(self.tr(p), r, t, count)
        return self._b.sub(p, r, t, count, **k)
    def subf(self, p, r, t, count=0, **k):
        if is_sym(t):
            if k: raise Unsup('regex flags')
            tm = []
            for lit, fld, spec, conv in _string.Formatter().parse(r):
                if lit: tm.append(lit)
                if fld is not None:
                    if spec or conv or not fld.isdigit(): raise Unsup('subf')
                    tm.append(int(fld))
            q = self.tr(p)
            if dead(parse_pat(q), t.al()): return t
            return t._a(('s', q, tuple(tm), count))
        return self._b.subf(p, r, t, count, **k)
    def __getattr__(self, a):
        f = getattr(self._b, a)
        if callable(f) and not isinstance(f, type):
            def g(*x, **k):
                if any(is_sym(y) for y in list(x) + list(k.values())): raise Unsup('regex.' + a)
                return f(*x, **k)
            return g
        return f


class Opaque:
    def __init__(self): pass
    def __repr__(self): return OPAQUE
    def __str__(self): return OPAQUE
    def __format__(self, f): return OPAQUE
    def __getattr__(self, a): raise Unsup('opaque.' + a)
    def __iter__(self): raise Unsup('opaque iter')
    def __len__(self): raise Unsup('opaque len')
    def __getitem__(self, k): raise Unsup('opaque getitem')
    def __eq__(self, o): raise Unsup('opaque eq')
    __hash__ = object.__hash__


class ListShim(list):
    pass


def list_shim(x=()):
    if is_sym(x): return Opaque()
    return list(x)


# ----------------------------------------------------------------------------- path enumeration
class Path:
    __slots__ = ('cons', 'result', 'exc')

    def __init__(self, cons, result, exc): self.cons = cons; self.result = result; self.exc = exc


def explore(fn, al, maxpaths=64):
    """run fn(symbolic text over alphabet al) on every path -> [Path]"""
    paths = []
    todo = [[]]
    while todo:
        dec = todo.pop()
        root = Sym(None, None, al=frozenset(al))
        run = Run(list(dec))
        Run.cur = run
        saved = {k: sys.modules.get(k) for k in SHIMS}
        sys.modules.update(SHIMS)
        try:
            try:
                res = fn(root); exc = None
            except Exception as e:
                res = None; exc = e
        finally:
            Run.cur = None
            sys.modules.update(saved)
        paths.append(Path(run.cons, res, exc))
        for j in range(len(dec), len(run.dec)):
            todo.append(run.dec[:j] + [True])
        if len(paths) + len(todo) > maxpaths: raise Unsup('too many paths')
    return paths
