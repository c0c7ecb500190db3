import os,subprocess,json,shutil
def seed(id,prop,edits,demo,needs,breaks,files={}):
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    w='/tmp/sw/'+id; shutil.rmtree(w,ignore_errors=True)
    subprocess.check_call(['git','clone','-q','/repo',w])
    for f,a,b in edits:
        p=w+'/'+f; raw=open(p,newline='').read(); cr='\r\n' in raw; s=raw.replace('\r\n','\n')
        n=1
        if isinstance(a,tuple): a,n=a   # (text, occurrence number)
        assert s.count(a)>=n and (n>1 or s.count(a)==1),(id,s.count(a),a)
        i=-1
        for _ in range(n): i=s.index(a,i+1)
        s=s[:i]+b+s[i+len(a):]
        open(p,'w',newline='').write(s.replace('\n','\r\n') if cr else s)
    diff=subprocess.check_output(['git','-C',w,'diff'])
    open(d+'/patch.diff','wb').write(diff)
    open(d+'/demo.sh','w').write(demo)
    for n,c in files.items(): open(d+'/'+n,'w').write(c)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    shutil.rmtree(w)
NC='''#!/bin/bash
# script must finish with a reported error, never with a host crash
d=$(cd "$(dirname "$0")" && pwd)
cd /repo
out=$(timeout 60 ./bin/nullc_exec %s "$d/demo.nc" 2>&1); rc=$?
echo "rc=$rc"; echo "$out"
[ $rc -lt 128 ] && echo "$out" | grep -q %s
'''
