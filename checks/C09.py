"""Options: names are matched without regard to letter case, unknown names are ignored, and an option applies its own function."""
from vc.ob import Ob
from vc import dom as D
from . import C07

ASSUMPTIONS = ['alphabet: every letter of the source script, the Devanagari and ASCII characters']
# options that select another target, another table or another default treatment (not a function over the result)
MODE = {'BengaliRaBa', 'indicDandas', 'indicNumerals', 'RemoveDiacritics', 'removeDiacritics', 'Dot2Pipes', 'Dot2Dandas', 'romanFullStop', 'romanNumerals', 'siddhammukta', 'siddhamap'} | {'Retain%sDanda' % x for x in ('Gujarati', 'Kannada', 'Malayalam', 'Tamil', 'Telugu')}

PROBES = ['अथ सङ्गच्छध्वं संवदध्वं सं वो मनांसि जानताम् । कौन्तेय ऋषिः ज्ञानैः ख़ फ ळ १२ हंस. ॐ ॥', 'நம்பினார் கெடுவதில்லை ஃ மற்றும் ஸ்ரீ. 12', 'bhagavān ṛṣi kṛṣṇa']


def obligations(T, tier, seed):
    out = []
    post = C07.functions(T.PostProcess); pre = C07.functions(T.PreProcess)
    POST = [('Devanagari', 'Tamil'), ('Devanagari', 'IAST'), ('Devanagari', 'Bengali'), ('Devanagari', 'Siddham'), ('Devanagari', 'Thai'), ('Tamil', 'Devanagari')]
    PRE = [('Devanagari', 'IAST'), ('Tamil', 'Devanagari'), ('HK', 'Telugu'), ('Thai', 'IAST')]
    def P(T, c, s, a=(), b=()): return T.process(c[0], c[1], s, c[2], list(a), list(b))
    def add(name, c, f, g): out.append(Ob(name, 'eq', f, g, D.star(C07.alphabet(T, c[0])), cross=1))
    for i, o in enumerate(post):
        for j, (x, y) in enumerate(POST):
            for n in (False, True):
                c = (x, y, n); nm = '%s,%s' % (o, C07.cname(c + ([], [])))
                if j == i % len(POST) or tier != 'quick':
                    for v in (o.lower(), o.upper()):
                        if v != o: add('case post[%s,%s]' % (v, nm), c, lambda T, s, c=c, v=v: P(T, c, s, [v]), lambda T, s, c=c, o=o: P(T, c, s, [o]))
                    add('unknown post[%s]' % nm, c, lambda T, s, c=c, o=o: P(T, c, s, ['noSuchOption', o, '']), lambda T, s, c=c, o=o: P(T, c, s, [o]))
                if o not in MODE and (tier != 'quick' or (j - i) % 3 == 0): add('applies post[%s]' % nm, c, lambda T, s, c=c, o=o: P(T, c, s, [o]), lambda T, s, c=c, o=o: getattr(T.PostProcess, o)(P(T, c, s)))
    # two options are applied in the order in which they are listed
    plain = [o for o in post if o not in MODE]
    for i, o in enumerate(plain):
        for k in (1, 7, 31) if tier == 'quick' else range(1, len(plain), 5):
            g = plain[(i + k) % len(plain)]
            x, y = POST[(i + k) % len(POST)]
            c = (x, y, False)
            add('order[%s then %s,%s]' % (o, g, C07.cname(c + ([], []))), c, lambda T, s, c=c, o=o, g=g: P(T, c, s, [o, g]), lambda T, s, c=c, o=o, g=g: getattr(T.PostProcess, g)(P(T, c, s, [o])))
    # pairs whose order matters on the probe texts, in both orders
    seen = set(); uses = {}
    for j, (x, y) in enumerate(POST):
        probes = [P(T, (x, y, False), w) for w in PROBES]
        def diff(f, g):
            try: return any(f(g(w)) != g(f(w)) for w in probes)
            except Exception: return False
        def moves(o):
            try: return any(getattr(T.PostProcess, o)(w) != w for w in probes)
            except Exception: return False
        active = [o for o in plain if moves(o)]
        for i, o in enumerate(active):
            for g in active[i:]:
                f, h = getattr(T.PostProcess, o), getattr(T.PostProcess, g)
                if g == o:
                    try: live = any(f(f(w)) != f(w) for w in probes)
                    except Exception: live = False
                else: live = (o, g) not in seen and diff(f, h)
                if not live or (o, g) in seen: continue
                if tier == 'quick' and max(uses.get(o, 0), uses.get(g, 0)) >= 6: continue
                for a in (o, g): uses[a] = uses.get(a, 0) + 1
                seen.add((o, g))
                c = (x, y, False)
                for a, b in [(o, g), (g, o)][:1 if o == g else 2]:
                    add('order[%s then %s,live,%s]' % (a, b, C07.cname(c + ([], []))), c, lambda T, s, c=c, a=a, b=b: P(T, c, s, [a, b]), lambda T, s, c=c, a=a, b=b: getattr(T.PostProcess, b)(P(T, c, s, [a])))
    for i, o in enumerate(pre):
        for j, (x, y) in enumerate(PRE):
            for n in (False, True):
                c = (x, y, n); nm = '%s,%s' % (o, C07.cname(c + ([], [])))
                if j == i % len(PRE) or tier != 'quick':
                    for v in (o.lower(), o.upper()):
                        if v != o: add('case pre[%s,%s]' % (v, nm), c, lambda T, s, c=c, v=v: P(T, c, s, (), [v]), lambda T, s, c=c, o=o: P(T, c, s, (), [o]))
                    add('unknown pre[%s]' % nm, c, lambda T, s, c=c, o=o: P(T, c, s, (), ['noSuchOption', o, '']), lambda T, s, c=c, o=o: P(T, c, s, (), [o]))
    return out
