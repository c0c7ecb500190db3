import subprocess,os,shutil,sys,json,glob
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0,'/verif')
import check
def mutate(i,files,rules):
    d='/tmp/mut/%d'%i; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    subprocess.check_call('cp -r /repo/NULLC /repo/external %s/ 2>/dev/null; true'%d,shell=True)
    changed=set()
    for f,a,b in files:
        p=d+'/'+f; raw=open(p,newline='').read(); cr='\r\n' in raw; s=raw.replace('\r\n','\n')
        n=1
        if isinstance(a,tuple): a,n=a
        if s.count(a)<n or (n==1 and s.count(a)!=1): return 'BADPATTERN %d %r'%(s.count(a),a[:50])
        k=-1
        for _ in range(n): k=s.index(a,k+1)
        s=s[:k]+b+s[k+len(a):]
        open(p,'w',newline='').write(s.replace('\n','\r\n') if cr else s); changed.add(f)
    bcs={os.path.basename(x):x for x in glob.glob('/tmp/ir2/*.bc') if not x.endswith('all.bc')}
    units=set()
    for f in changed:
        if f.endswith('.h'): units|=set(u for u in check.units())
        else: units.add(f)
    for u in units:
        o=d+'/'+u.replace('/','_')+'.bc'
        r=subprocess.run(['clang++']+check.FLAGS+['-DNDEBUG','-fdebug-prefix-map=%s=/repo'%d,u,'-o',o],cwd=d,capture_output=True,text=True)
        if r.returncode: return 'COMPILE '+r.stderr[:300]
        bcs[u.replace('/','_')+'.bc']=o
    r=subprocess.run(['llvm-link-18']+[bcs[k] for k in sorted(bcs)]+['-o',d+'/all.bc'],capture_output=True,text=True)
    out=[]
    for rule in rules:
        r=subprocess.run(['/verif/tool/build/nvlint',d+'/all.bc']+rule.split(),capture_output=True,text=True)
        if r.returncode: out.append('CRASH '+r.stderr[-200:]); continue
        j=json.loads(r.stdout)
        out.append('%s: %d viol %s%s'%(rule,len(j['violations']),[v['function'][-30:]+': '+v['detail'][:90] for v in j['violations'][:2]],' BROKEN %s'%j['broken'][:2] if j['broken'] else ''))
    shutil.rmtree(d,ignore_errors=True)
    return ' || '.join(out)
def run(muts):
    with ThreadPoolExecutor(6) as ex:
        fs=[(m[0],ex.submit(mutate,i,m[1],m[2])) for i,m in enumerate(muts)]
        for n,f in fs: print(n,'->',f.result(),flush=True)
