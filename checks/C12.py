"""Conversion of files: the running text is converted with the options given, all else is kept."""
import random, io, os, shutil, tempfile, zipfile, base64, importlib
from vc.ob import Ob
from vc import dom as D
from . import C07

LEVEL = 'other'
EXPLANATION = 'documents are generated and converted with the real file functions, convert being uninterpreted (bounded, not counted as proved); convert_txt is proved for all file contents'
ASSUMPTIONS = ['the file functions are checked against convert as an uninterpreted function (a stand-in that shows its arguments); lxml, bs4, zipfile and the file system are trusted',
               'convert_txt is executed symbolically with a stand-in for open']
W = 'http://schemas.openxmlformats.org/wordprocessingml/2006/main'
TEXTS = ['कर्म', 'a', ' ', 'क & ख', '<क>', 'राम "x"', '\u0964', 'नमः शिवाय', '़', 'क\nख', 'é', '०१२']


def conv(src, tgt, txt, nativize=True, preoptions=(), postoptions=(), **kw):
    if not isinstance(txt, str): raise TypeError('convert called on %r' % (txt,))
    return '⟦%s>%s %s %s %s:%s⟧' % (src, tgt, nativize, ','.join(preoptions), ','.join(postoptions), txt)


ARGS = [('Devanagari', 'Telugu', True, [], []), ('HK', 'Tamil', False, [], []), ('Thai', 'IAST', True, ['ThaiOrthography'], []), ('Devanagari', 'Tamil', False, [], ['TamilTranscribe']),
        ('Tamil', 'IAST', False, ['TamilTranscribe'], ['RemoveDiacritics', 'AnusvaraToNasal'])]


def call(TF, name, d, data, a, dirname):
    """run process on a scratch file; returns ({new file: content}, original content)"""
    p = os.path.join(d, dirname); os.makedirs(p, exist_ok=True)
    f = os.path.join(p, name)
    open(f, 'wb').write(data)
    TF.process(a[0], a[1], f, nativize=a[2], pre_options=list(a[3]), post_options=list(a[4]))
    new = {}
    for r, _, fs in os.walk(d):
        for x in fs:
            q = os.path.join(r, x); c = open(q, 'rb').read()
            if q != f: new[x] = c
            else: old = c
            os.remove(q)
    return new, old


def docx(r):
    """an archive in the format of a word processor, as {member: bytes}"""
    from xml.sax.saxutils import escape
    def run():
        k = r.random()
        if k < .12: return '<w:r><w:t/></w:r>'
        if k < .2: return '<w:r><w:t xml:space="preserve"></w:t><w:tab/></w:r>'
        t = ''.join(r.choice(TEXTS) for _ in range(r.randrange(1, 4)))
        if k < .3: return '<a:r xmlns:a="urn:x"><a:t>%s</a:t></a:r>' % escape(t)
        return '<w:r><w:rPr><w:lang w:val="%s"/></w:rPr><w:t xml:space="preserve">%s</w:t>%s</w:r>' % (escape(r.choice(TEXTS), {'"': '&quot;'}), escape(t), r.choice(['', '<w:br/>', '<w:instrText>क</w:instrText>']))
    def part(root): return ('<?xml version="1.0" encoding="UTF-8" standalone="yes"?><w:%s xmlns:w="%s"><w:body>%s</w:body></w:%s>' % (root, W, ''.join('<w:p w:id="%d">%s</w:p>' % (i, ''.join(run() for _ in range(r.randrange(0, 5)))) for i in range(r.randrange(1, 5))), root)).encode()
    m = {'[Content_Types].xml': '<Types>क</Types>'.encode(), 'word/document.xml': part('document'), 'docProps/core.xml': '<c>कर्म</c>'.encode(), 'word/media/image1.png': bytes(r.randrange(256) for _ in range(40)), '_rels/.rels': b'<R/>'}
    for x in ('word/header1.xml', 'word/footnotes.xml', 'word/comments.xml'):
        if r.random() < .6: m[x] = part(x[5:8])
    return m


def pack(m):
    b = io.BytesIO()
    with zipfile.ZipFile(b, 'w') as z:
        for k, v in m.items(): z.writestr(k, v)
    return b.getvalue()


def unpack(b):
    with zipfile.ZipFile(io.BytesIO(b)) as z: return {i.filename: z.read(i.filename) for i in z.filelist}


def c14n(b, a=None):
    from lxml import etree
    t = etree.fromstring(b)
    if a:
        for e in t.iter('{%s}t' % W):
            if e.text: e.text = conv(*a[:2], e.text, *a[2:])
    return etree.tostring(t, method='c14n').decode()


def html(r):
    from html import escape
    def node(n):
        k = r.random()
        if n == 0 or k < .45: return escape(''.join(r.choice(TEXTS) for _ in range(r.randrange(1, 3))))
        if k < .52: return '<!-- %s -->' % r.choice(['कर्म', 'note'])
        if k < .58: return '<script>var x = "कर्म";</script>'
        if k < .63: return '<style>p { content: "क" }</style>'
        if k < .68: return '<br/>'
        t = r.choice(['b', 'i', 'span', 'a', 'em', 'pre'])
        return '<%s title="%s">%s</%s>' % (t, r.choice(['कर्म', 'x']), ''.join(node(n - 1) for _ in range(r.randrange(0, 4))), t)
    return '%s<html><head><title>%s</title></head><body>%s</body></html>' % (r.choice(['<!DOCTYPE html>\n', '']), r.choice(TEXTS[:2]), ''.join('<p>%s</p>\n' % ''.join(node(3) for _ in range(r.randrange(1, 4))) for _ in range(r.randrange(1, 4))))


def html_tree(s, a=None):
    """the document as nested lists, text converted when a is given"""
    from bs4 import BeautifulSoup, NavigableString, Tag
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        soup = BeautifulSoup(s, 'lxml')
    def go(n):
        if isinstance(n, Tag):
            out = []
            for c in n.children:
                g = go(c)
                if out and isinstance(g, str) and isinstance(out[-1], str): out[-1] += g
                else: out.append(g)
            return [n.name, sorted((k, str(v)) for k, v in n.attrs.items()), out]
        if type(n) is NavigableString: return conv(*a[:2], str(n), *a[2:]) if a else str(n)
        return ['#' + type(n).__name__, str(n)]
    return go(soup)


DIRS = ['x', 'old.txt', 'a.docx.d', 'site.html']


def files(kind, tier, seed):
    def fin(T):
        TF = importlib.import_module('aksharamukha.transliterate_file')
        r = random.Random('%s %s' % (kind, seed)); bad = []; n = 0
        d = tempfile.mkdtemp(prefix='c12')
        old = TF.convert; TF.convert = conv
        import warnings
        try:
            for i in range(60 if tier == 'quick' else 1500):
                a = r.choice(ARGS); dn = r.choice(DIRS); n += 1
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    if kind == 'text':
                        t = ''.join(r.choice(TEXTS + ['\n', 'ख\n']) for _ in range(r.randrange(0, 9)))
                        data = t.encode(); want = conv(*a[:2], t, *a[2:])
                    elif kind.startswith('word'):
                        m = docx(r); data = pack(m); want = {k: c14n(v, a) if k.startswith('word/') and k.endswith('.xml') else v for k, v in m.items()}
                    else:
                        t = html(r); data = t.encode(); want = html_tree(t, a)
                    try:
                        if kind == 'word in memory':
                            b = base64.b64encode(data); got = TF.convert_docx(a[0], a[1], b, a[2], list(a[3]), list(a[4]), True).getvalue()
                        elif kind == 'html in memory':
                            got = TF.convert_html(a[0], a[1], t, a[2], list(a[3]), list(a[4]), True).encode()
                        else:
                            new, orig = call(TF, 'क.' + {'text': r.choice(['txt', 'txt']), 'word': 'docx', 'html': r.choice(['html', 'htm'])}[kind], d, data, a, dn)
                            if orig != data: bad.append((repr(data)[:80], 'the original file was changed', 'unchanged')); continue
                            if len(new) != 1: bad.append((dn + '/' + kind, repr(sorted(new)), 'one new file')); continue
                            got = list(new.values())[0]
                        if kind == 'text': got = got.decode()
                        elif kind.startswith('word'): got = {k: c14n(v) if k.startswith('word/') and k.endswith('.xml') else v for k, v in unpack(got).items()}
                        else: got = html_tree(got.decode())
                    except Exception as e: got = 'raised %r' % (e,)
                if got != want and len(bad) < 5: bad.append((repr(data)[:200] if not kind.startswith('html') else t[:300], repr(got)[:300], repr(want)[:300]))
        finally:
            TF.convert = old
            shutil.rmtree(d)
        return bad, n, ['transliterate_file.' + f for f in ('process', 'convert_txt', 'convert_docx', 'parse_content', 'xml_file_to_convert', 'flush_zip_to_file', 'convert_html')]
    return fin


class Fake:
    """stand-in for an open file"""
    def __init__(self, text, out): self.text = text; self.out = out
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def read(self): return self.text
    def write(self, t): self.out.append(t)


def obligations(T, tier, seed):
    out = []
    for k in ('text', 'word', 'word in memory', 'html', 'html in memory'):
        out.append(Ob('file[%s]' % k, 'fin', fin=files(k, tier, seed), bounded='documents are generated: nested elements, empty elements, attributes, comments, scripts, other archive members; convert is uninterpreted'))
    for x, y, nat, pre, post in [('Devanagari', 'Telugu', True, [], []), ('HK', 'Tamil', False, [], []), ('Devanagari', 'IAST', True, [], ['RemoveDiacritics']), ('Tamil', 'Devanagari', False, ['TamilTranscribe'], []), ('Devanagari', 'Tamil', True, [], ['TamilSubScript']), ('IAST', 'Bengali', True, [], [])]:
        def impl(T, s, x=x, y=y, nat=nat, pre=pre, post=post):
            TF = importlib.import_module('aksharamukha.transliterate_file')
            out = []
            TF.open = lambda f, mode='r', *a, **k: Fake(s if 'w' not in mode else None, out)
            TF.print = lambda *a, **k: None
            try: TF.convert_txt(x, y, 'in.txt', nat, list(pre), list(post))
            finally: del TF.open; del TF.print
            r = out[0]
            for o in out[1:]: r = r + o
            return r
        def spec(T, s, x=x, y=y, nat=nat, pre=pre, post=post): return T.convert(x, y, s, nat, list(pre), list(post))
        out.append(Ob('convert_txt[%s->%s%s%s]' % (x, y, ',native' if nat else '', ''.join(',' + o for o in pre + post)), 'eq', impl, spec, D.star(C07.alphabet(T, x)), cross=1))
    return out
