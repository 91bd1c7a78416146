"""Runs the real, unmodified package: one JSON request per line."""
import sys, json, os, importlib, traceback, io

def main():
    out = sys.stdout
    sys.stdout = io.StringIO()
    cid, tier, seed = sys.argv[1], sys.argv[2], int(sys.argv[3])
    from vc import load, ob
    T = load.load(shim=False)
    mod = importlib.import_module('checks.' + cid)
    obs = {o.name: o for o in mod.obligations(T, tier, seed)}
    for line in sys.stdin:
        q = json.loads(line)
        o = obs.get(q.get('ob'))
        try:
            if 'calls' in q:
                from vc import frame
                o = 1; res = []; frame.warm(T)
                # source texts are made first, in both orders alike
                ws = {c[0]: None for c in q['calls']}
                for x in sorted(ws): ws[x] = frame.words(T, x)
                for c in q['calls']: res.append([(w, ob.outcome(ob.call_cfg, T, c, w)) for w in ws[c[0]]])
                a = {'calls': res}
            elif o is None: a = {'error': 'no such obligation'}
            elif q.get('fin'):
                fail, count, fns = o.fin(T)
                a = {'fail': fail, 'count': count, 'fns': fns}
            else:
                g, s, ok = ob.concrete(o, T, q['w'])
                a = {'impl': g, 'spec': s, 'ok': ok}
        except Exception:
            a = {'error': traceback.format_exc()[-1500:]}
        out.write(json.dumps(a) + '\n'); out.flush()
        sys.stdout.seek(0); sys.stdout.truncate()

main()
