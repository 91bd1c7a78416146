import subprocess,json
b=subprocess.run('bash /opt/vp/build.sh',shell=True,capture_output=True).returncode
subprocess.run('bash /opt/vp/test.sh /tmp/w/o.json',shell=True,capture_output=True)
o=json.load(open('/tmp/w/o.json')); base=json.load(open('/opt/vp/BASELINE.json'))['stable']
ps=set(o['passed']); miss=[x for x in base if x not in ps]
print('build',b,'passed',len(ps),'missing',len(miss),[m[:200] for m in miss[:4]])
