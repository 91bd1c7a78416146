"""Import the package from /repo's current working tree with the text-handling modules shimmed."""
import sys, os, warnings, importlib, logging
from . import sym

REPO = os.environ.get('VC_REPO', '/repo')


def load(shim=True):
    warnings.simplefilter('ignore')
    sys.dont_write_bytecode = True
    if REPO not in sys.path: sys.path.insert(0, REPO)
    import re, unicodedata, regex
    # import every third-party dependency with the real modules first
    for m in ('yaml', 'requests', 'langcodes', 'json', 'html', 'logging', 'functools', 'itertools', 'string',
              'importlib', 'inspect', 'fontTools.unicodedata', 'lxml.etree', 'bs4', 'zipfile', 'io', 'base64', 'typing', 'dataclasses', 'collections', 'operator', 'copy', 'textwrap', 'enum', 'contextlib', 'pathlib'):
        try: importlib.import_module(m)
        except Exception: pass
    from fontTools import unicodedata as ucd
    if shim:
        UD = sym.UdShim(unicodedata); RX = sym.RegexShim(regex); UCD = sym.UdShim(ucd)
        saved = {k: sys.modules.get(k) for k in ('re', 'unicodedata', 'regex')}
        import fontTools
        sys.modules['re'] = sym.RE; sys.modules['unicodedata'] = UD; sys.modules['regex'] = RX
        old = fontTools.unicodedata; fontTools.unicodedata = UCD
    sys.pycache_prefix = '/nonexistent/pycache'        # compile /repo's sources as they are now: a cached .pyc may be stale
    try:
        T = importlib.import_module('aksharamukha.transliterate')
        from aksharamukha import GeneralMap as GM, gimeltra, Convert, ConvertFix, PreProcess, PostProcess, PostOptions
        for p in GM.IndicScripts + GM.LatinScripts:
            try: importlib.import_module(GM.ScriptPath(p))
            except Exception: pass
    finally:
        if shim:
            fontTools.unicodedata = old
            sys.modules.update(saved)
    assert os.path.realpath(T.__file__).startswith(os.path.realpath(REPO) + os.sep), T.__file__
    if shim:
        sym.SHIMS.update({'re': sym.RE, 'unicodedata': UD, 'regex': RX})
        for n, mod in list(sys.modules.items()):
            if n.startswith('aksharamukha') and mod is not None:
                if 'list' not in mod.__dict__: mod.__dict__['list'] = sym.list_shim
    return T
