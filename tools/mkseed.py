#!/usr/bin/env python3
"""Plants the bugs described in tools/seeds*.py: each is confirmed in a scratch copy of /repo
(it builds, the stable tests pass, its demonstration passes without it and fails with it) and then
kept in /verif/seeded/<id>/.   usage: mkseed.py [id...]   (no id: those not there yet)"""
import sys,os,json,subprocess,shutil,tempfile,glob,re
V='/verif'
sys.path.insert(0,V+'/tools')
SEEDS={}
def seed(id,prop,edits,demo,needs,what,pkg='.',race=False,raw=None):
    assert id not in SEEDS,id
    SEEDS[id]=dict(prop=prop,edits=edits,demo=demo,needs=needs,what=what,pkg=pkg,race=race,raw=raw)
for f in sorted(glob.glob(V+'/tools/seeds*.py')):
    exec(open(f).read())
DEMO='''#!/bin/bash
# runs demo.go.txt as a test inside the package {pkg} of the tree in the working directory
. /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/seeddemo.XXXXXX)
printf '{{"Replace": {{"%s": "%s"}}}}' "$PWD/{pkgdir}verif_demo_test.go" "$d/demo.go.txt" > "$t/overlay.json"
timeout 250 go test -overlay "$t/overlay.json" -vet=off -count=1 -timeout 200s {race}-run '^TestVerifDemo$' {pkgarg}
rc=$?
rm -r "$t"
exit $rc
'''
def sh(cmd,cwd,timeout=600):
    r=subprocess.run(cmd,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=timeout,executable='/bin/bash')
    return r.returncode,r.stdout
def one(id):
    s=SEEDS[id]
    w='/tmp/seedwt.%d'%os.getpid()
    if os.path.exists(w): shutil.rmtree(w)
    subprocess.run(['cp','-a','/repo',w],check=True)
    out=V+'/seeded/'+id
    tmp=tempfile.mkdtemp(prefix='seedout.',dir='/tmp')
    try:
        if s['raw']: # a whole demo script
            open(tmp+'/demo.sh','w').write(s['raw'])
            if s['demo']: open(tmp+'/demo.go.txt','w').write(s['demo'])
        else:
            pd='' if s['pkg']=='.' else s['pkg']+'/'
            open(tmp+'/demo.sh','w').write(DEMO.format(pkg=s['pkg'],pkgdir=pd,pkgarg='.' if not pd else './'+s['pkg'],race='-race ' if s['race'] else ''))
            open(tmp+'/demo.go.txt','w').write(s['demo'])
        os.chmod(tmp+'/demo.sh',0o755)
        rc,o=sh('bash %s/demo.sh'%tmp,w)
        if rc!=0: return 'demo fails on unchanged tree:\n'+o[-1500:]
        for f,a,b in s['edits']:
            t=open(w+'/'+f).read()
            if t.count(a)!=1: return 'edit of %s matches %d times: %s'%(f,t.count(a),a)
            open(w+'/'+f,'w').write(t.replace(a,b))
        rc,o=sh('. /opt/vp/env.sh; gofmt -l . ; go build ./... && go vet ./... ; go test -json -vet=off -count=1 ./... > %s/t.json; true'%tmp,w)
        msg=o
        passed=set()
        for l in open(tmp+'/t.json'):
            j=json.loads(l)
            if j.get('Action')=='pass' and j.get('Test'): passed.add(j['Package']+'/'+j['Test'])
        os.remove(tmp+'/t.json')
        miss=[x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if x not in passed]
        if miss: return 'tests fail: %s %s'%(miss,msg[-800:])
        rc,o=sh('bash %s/demo.sh'%tmp,w)
        if rc==0: return 'demo passes with the bug'
        if 'build failed' in o or 'setup failed' in o: return 'demo does not build:\n'+o[-1500:]
        rc,d=sh('git diff',w)
        open(tmp+'/patch.diff','w').write(d)
        json.dump(dict(property=s['prop'],needs=s['needs'],what_it_breaks=s['what']),open(tmp+'/meta.json','w'),indent=1)
        if os.path.exists(out): shutil.rmtree(out)
        shutil.move(tmp,out); os.chmod(out,0o755)
        return 'ok '+msg.strip()[-300:]
    finally:
        shutil.rmtree(w,ignore_errors=True)
        if os.path.exists(tmp): shutil.rmtree(tmp)
ids=sys.argv[1:] or [i for i in SEEDS if not os.path.exists(V+'/seeded/'+i)]
for i in ids: print(i,one(i),flush=True)
