"""Naming a script: letter case of the name does not matter; script and language codes name the script the data table says."""
from vc.ob import Ob
from vc import dom as D
from . import C07

ASSUMPTIONS = ['codes: the oracle is the table of scripts, codes and languages shipped with the package (aksharamukha-scripts.yaml), read by the check itself']
CASES = {'lower': str.lower, 'upper': str.upper, 'swapped': str.swapcase}


def table():
    import yaml, os
    from vc import load
    return yaml.safe_load(open(os.path.join(load.REPO, 'aksharamukha', 'yaml', 'aksharamukha-scripts.yaml'), encoding='utf8'))


def langs(v): return [l.strip() for l in str(v.get('lang', '')).split(',') if l.strip()]


AGNOSTIC = {'sa', 'san', 'pi', 'pli'}
LATIN = {'la', 'en', 'eng', 'latn'}


def obligations(T, tier, seed):
    out = []
    dev = D.star(C07.BASE)

    def same(name, a, b, dom, src, kw):
        """the two ways to name the pair give the same text function"""
        out.append(Ob(name, 'eq', lambda T, s: T.process(a[0], a[1], s, **kw), lambda T, s: T.process(b[0], b[1], s), dom, cross=1))

    for x in C07.scripts(T):
        if x == 'ISO233-2': continue
        d = D.star(C07.alphabet(T, x))
        for n, f in CASES.items():
            if f(x) == x: continue
            same('%s source[%s]' % (n, x), (f(x), 'devanagari'), (x, 'Devanagari'), d, x, {})
            same('%s target[%s]' % (n, x), ('dEVANAGARI', f(x)), ('Devanagari', x), dev, 'Devanagari', {})
    tab = table()
    byscript = {}; bylang = {}; bypair = {}
    for x, v in tab.items():
        byscript.setdefault(v['script'].lower(), []).append(x)
        for l in langs(v):
            bylang.setdefault(l.lower(), []).append(x)
            bypair.setdefault((l.lower(), v['script'].lower()), []).append(x)
    def code(param, c, x):
        d = D.star(C07.alphabet(T, x))
        other = 'Deva' if param == 'script_code' else 'sa-Deva'
        full = tier != 'quick' or '-' not in c
        for f in (str.lower, str.upper, lambda s: s) if full else (str.swapcase,):
            y = f(c)
            if any(o.name == '%s source[%s]' % (param, y) for o in out): continue
            same('%s source[%s]' % (param, y), (y, other), (x, 'Devanagari'), d, x, {'param': param})
            same('%s target[%s]' % (param, y), (other, y), ('Devanagari', x), dev, 'Devanagari', {'param': param})
    for c, xs in byscript.items():
        if len(xs) == 1 and c not in ('zzzz', 'latn', 'syrc') and '-' not in c: code('script_code', tab[xs[0]]['script'], xs[0])
    for l, xs in bylang.items():
        if len(xs) == 1 and l not in AGNOSTIC | LATIN: code('lang_code', l, xs[0])
    for (l, c), xs in bypair.items():
        if len(xs) == 1 and l not in AGNOSTIC | LATIN and c != 'zzzz' and '-' not in c:
            y = '%s-%s' % (l, tab[xs[0]]['script'])
            code('script_code', y, xs[0]); code('lang_code', y, xs[0])
    for c, xs in byscript.items():
        if len(xs) == 1 and c not in ('zzzz', 'latn', 'syrc') and '-' not in c: code('lang_code', 'sa-' + tab[xs[0]]['script'], xs[0]); code('lang_code', 'pli-' + tab[xs[0]]['script'], xs[0])
    for x in ('IAST', 'ISO', 'HK', 'Itrans', 'Velthuis', 'SLP1', 'WX', 'Titus', 'IPA'): code('script_code', 'Latn-' + x, x); code('lang_code', 'la-' + x, x); code('lang_code', 'en-' + x, x)
    for x in ('latn', 'en', 'eng'): code('script_code', x, 'ISO')
    for x in ('la', 'en', 'eng'): code('lang_code', x, 'ISO')
    for x in ('sa', 'san', 'pi', 'pli'): code('lang_code', x, 'Devanagari')
    return out
