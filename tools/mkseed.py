#!/usr/bin/env python3
"""mkseed.py spec.py : spec defines ID, PROP, NEEDS, BREAKS, SUBS=[(file,old,new)], DEMO (python body; has P = aksharamukha.transliterate.process, T)"""
import sys,os,subprocess,json,shutil
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
g={}; exec(open(sys.argv[1]).read(),g)
R='/repo'
assert not sh('git -C /repo status --porcelain --untracked-files=no').stdout.strip(), 'repo dirty'
d='/verif/seeded/'+g['ID']; os.makedirs(d,exist_ok=True)
open(d+'/demo.py','w',encoding='utf8').write('import os, sys\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.getcwd())\nfrom aksharamukha import transliterate as T\nP = T.process\n\n\ndef same(got, want):\n    if got != want: print("got", ascii(got), "want", ascii(want)); sys.exit(1)\n\n\n'+g['DEMO'])
open(d+'/demo.sh','w').write('#!/bin/bash\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'); os.chmod(d+'/demo.sh',0o755)
json.dump({"property":g['PROP'],"needs":g['NEEDS'],"what_it_breaks":g['BREAKS']},open(d+'/meta.json','w'),indent=1,ensure_ascii=False)
r=sh('bash %s/demo.sh'%d,cwd=R); print('clean demo',r.returncode,r.stdout[-300:],r.stderr[-300:])
if r.returncode: sys.exit(1)
try:
    for f,o,n in g['SUBS']:
        s=open(R+'/'+f,encoding='utf8',newline='').read()
        if '\r\n' in s: o=o.replace('\n','\r\n'); n=n.replace('\n','\r\n')
        assert s.count(o)==1,(f,s.count(o),o)
        open(R+'/'+f,'w',encoding='utf8',newline='').write(s.replace(o,n))
    open(d+'/patch.diff','w').write(subprocess.run('git -C /repo diff',shell=True,capture_output=True).stdout.decode('utf8'))
    r=sh('bash %s/demo.sh'%d,cwd=R); print('patched demo',r.returncode,r.stdout[-300:],r.stderr[-300:])
    ok=r.returncode!=0
    if ok:
        b=sh('bash /opt/vp/build.sh'); 
        t=sh('bash /opt/vp/test.sh /tmp/w/o.json'); o=json.load(open('/tmp/w/o.json')); base=json.load(open('/opt/vp/BASELINE.json'))
        bl=base['stable']
        ps=set(o.get('passed',[])); miss=[x for x in (bl if isinstance(bl,list) else bl.keys()) if x not in ps]
        print('build',b.returncode,'missing',len(miss),miss[:3]); ok=b.returncode==0 and not miss
    if ok and len(sys.argv)>2:
        for c in sys.argv[2].split(','):
            r=sh('cd /verif; time python3 check.py %s quick'%c); print(c,'exit',r.returncode,r.stdout[-700:],r.stderr[-200:])
    print('KEEP' if ok else 'REJECT',g['ID'])
finally:
    sh('git -C /repo checkout -- .')
    if not ok: shutil.rmtree(d)
