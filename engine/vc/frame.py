"""Frame condition: the state a call may leave behind.  snapshot() covers every module of the package: globals, function
defaults, closures, memo tables, class and instance attributes."""
import sys, types, gc, functools
from . import sym

ATOM = (str, bytes, int, float, bool, type(None), complex)
LRU = type(functools.lru_cache(lambda: 0))


def mods():
    return {n: m for n, m in list(sys.modules.items()) if n.split('.')[0] == 'aksharamukha' and m is not None}


def canon(o, seen, depth=0):
    t = type(o)
    if t in ATOM: return o if t is not str else 's' + o
    if sym.is_sym(o): return 'SYM'
    i = id(o)
    if i in seen: return 'seen'
    if t in (list, tuple):
        seen.add(i); return (t.__name__,) + tuple(canon(x, seen, depth + 1) for x in o)
    if isinstance(o, dict):
        seen.add(i); return ('dict',) + tuple((canon(k, seen), canon(v, seen)) for k, v in list(o.items()))
    if isinstance(o, (set, frozenset)):
        seen.add(i); return ('set',) + tuple(sorted((hash(canon(x, seen)) for x in o)))
    if t is LRU:
        seen.add(i); return ('lru',) + tuple(canon(x, seen) for x in gc.get_referents(o) if type(x) is dict or type(x) is types.FunctionType) + (o.cache_info().currsize,)
    if isinstance(o, types.FunctionType):
        if not str(o.__module__).startswith('aksharamukha'): return 'f'
        seen.add(i)
        return ('fn', o.__name__, canon(o.__defaults__, seen), canon(o.__kwdefaults__, seen), canon(o.__dict__, seen) if o.__dict__ else None,
                tuple(canon(c.cell_contents, seen) for c in (o.__closure__ or ()) if _filled(c)))
    if isinstance(o, type):
        if not str(o.__module__).startswith('aksharamukha'): return 'c'
        seen.add(i)
        return ('class', o.__name__) + tuple((k, canon(v, seen)) for k, v in sorted(vars(o).items()) if not k.startswith('__'))
    if isinstance(o, types.ModuleType): return 'm'
    if str(type(o).__module__).startswith('aksharamukha') and hasattr(o, '__dict__'):
        seen.add(i); return ('obj', canon(o.__dict__, seen))
    if hasattr(o, '__next__'): return ('iter', i)
    if str(type(o).__module__) in ('collections', 'itertools'):
        seen.add(i)
        try: return ('coll', repr(o))
        except Exception: return 'coll'
    return 'x'


def _filled(c):
    try: c.cell_contents; return True
    except ValueError: return False


SKIP = {'__builtins__', '__cached__', '__file__', '__loader__', '__spec__', '__warningregistry__', '__annotations__'}


def snapshot():
    prof = sys.getprofile(); sys.setprofile(None)
    try: return _snapshot()
    finally: sys.setprofile(prof)


def _snapshot():
    out = {}
    for n, m in mods().items():
        seen = set()
        for k, v in list(m.__dict__.items()):
            if k in SKIP or isinstance(v, types.ModuleType): continue
            out[n, k] = hash(canon(v, seen))
    return out


def diff(a, b):
    """names whose value changed; modules imported in between are not state"""
    had = {n for n, _ in a}
    d = [k for k in a if k not in b or a[k] != b[k]]
    d += [k for k in b if k not in a and k[0] in had]
    return sorted('%s.%s' % k for k in d)


def warm(T):
    """fill the memo table of the data files (their content is fixed)"""
    import glob, os
    f = getattr(T, '_load_data', None)
    if f is None: return
    d = os.path.dirname(os.path.realpath(T.__file__))
    for p in sorted(glob.glob(d + '/yaml/*.yaml')):
        try: f(p[len(d):])
        except Exception: pass


RICH = ('धर्मक्षेत्रे कुरुक्षेत्रे समवेता युयुत्सवः। मामकाः पाण्डवाश्चैव किमकुर्वत सञ्जय॥ १२ ३\n'
        'अंशुः सिंहः संस्कृतं हंसाः अङ्कः पञ्च कण्ठः अन्तः अम्बा ऋषिः कॢप्तः वक्त्रं ज्ञानं श्रीः लक्ष्म्यै, द्वौ ऐक्यं औषधं छात्रः घटः झषः ढक्का फलं थूत्कारः ओम् ॐ ओं कोऽपि?\n'
        'यय्या वृद्धिः बुद्ध्वा रुद्र क्व त्व ह्रस्व ब्रह्म गुरू ईश ऊर्ज एषः उमा खट्वा भ्रातॄन् इति')


def words(T, src):
    """texts in the source script"""
    out = []
    if src in ('Kharoshthi', 'OldPersian'): return ['𐎣𐎠𐎼 𐎠', '𐨐 𐨨']
    for w in (RICH, RICH.split('\n')[1], 'क', 'राम'):
        try: out.append(T.process('Devanagari', src, w, False) if src not in ('Devanagari', 'autodetect') else w)
        except Exception: out.append(w)
    return out
