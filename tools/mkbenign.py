#!/usr/bin/env python3
"""Builds /verif/benign/*.diff from tools/benign*.py: edits of /repo that keep its behaviour (tests must pass)."""
import sys,os,json,subprocess,shutil,glob
V='/verif'
ALL={}
def benign(id,*edits): ALL[id]=edits
for f in sorted(glob.glob(V+'/tools/benign*.py')): exec(open(f).read())
ids=sys.argv[1:] or [i for i in ALL if not os.path.exists(V+'/benign/'+i+'.diff')]
for i in ids:
    w='/tmp/benignwt.%d'%os.getpid()
    subprocess.run(['cp','-a','/repo',w],check=True)
    try:
        bad=None
        for f,a,b in ALL[i]:
            t=open(w+'/'+f).read()
            n=t.count(a)
            if n!=1: bad='%s: %d matches of %r'%(f,n,a[:80]); break
            open(w+'/'+f,'w').write(t.replace(a,b))
        if bad: print(i,bad); continue
        r=subprocess.run('. /opt/vp/env.sh; go vet ./... && go test ./... 2>&1 | grep -v "no test files"',shell=True,cwd=w,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,executable='/bin/bash')
        if 'FAIL' in r.stdout or r.returncode: print(i,r.stdout[-1500:]); continue
        d=subprocess.run('git diff',shell=True,cwd=w,stdout=subprocess.PIPE,text=True).stdout
        open(V+'/benign/'+i+'.diff','w').write(d); print(i,'ok')
    finally: shutil.rmtree(w)
