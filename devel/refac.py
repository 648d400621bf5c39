#!/usr/bin/env python3
# Development aid: applies behaviour preserving rewrites to a scratch copy of /repo and runs all checks on it.
# usage: refac.py FILE TREE [ids...]; FILE defines T={tree:[(file, func header or '' to append or None for (old,new), text)]}
# env: ONLY=i,j,.. applies only those entries (bisection), J parallel checks
import os,re,shutil,subprocess,sys
from concurrent.futures import ThreadPoolExecutor
TC=os.environ.get('TC','/tmp/w/tokcheck')
ns={}; exec(open(sys.argv[1]).read(),ns)
tree=sys.argv[2]
ids=sys.argv[3:] or ['C%02d'%i for i in range(1,31)]
d='/tmp/w/rf/'+tree; r=d+'/repo'
shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
shutil.copytree('/repo',r,ignore=shutil.ignore_patterns('.git'))
only=os.environ.get('ONLY')
only=set(map(int,only.split(','))) if only else None
for k,(f,h,text) in enumerate(ns['T'][tree]):
    if only is not None and k not in only: continue
    p=r+'/'+f; t=open(p).read() if os.path.exists(p) else ''
    text=text.strip('\n')+'\n'
    if h=='': t+='\n'+text
    elif isinstance(h,tuple):
        for old,new in [h]:
            assert t.count(old)==1,(k,old,t.count(old)); t=t.replace(old,new)
    else:
        i=t.find('\nfunc '+h); assert i>=0 and t.count('\nfunc '+h)==1,(k,h)
        j=t.index('\n}\n',i)
        if '\n' not in t[i+1:j] : pass
        t=t[:i+1]+text+t[j+3:]
    open(p,'w').write(t)
env=dict(os.environ,GOFLAGS='-mod=mod -buildvcs=false')
for f in os.listdir(r):
    if f.endswith('.go') and '_test' not in f:
        subprocess.run(['goimports','-w',f],cwd=r)
b=subprocess.run(['go','vet','.','./grammar'],cwd=r,env=env,capture_output=True,text=True)
if b.returncode: print('VET',b.stderr[:1500])
t=subprocess.run(['go','test','-vet=off','-timeout','60s','./...'],cwd=r,env=env,capture_output=True,text=True)
if t.returncode: print('TESTS',t.stdout[:1500],t.stderr[:1000]); sys.exit(1)
def run(p):
    v=d+'/v'+p; os.makedirs(v); shutil.copy('/verif/known-findings.txt',v)
    c=subprocess.run(['timeout','880',TC,'check',p],env=dict(os.environ,TOK_REPO=r,VERIF_DIR=v),capture_output=True,text=True)
    open(d+'/'+p+'.txt','w').write(c.stdout+c.stderr)
    if c.returncode==0: return p,0,c.stdout.strip().split('\n')[-1].split(' in ')[-1]
    return p,c.returncode,'\n      '.join([l[:190] for l in c.stdout.split('\n') if l and not l.startswith(' ') and not l.startswith('KNOWN')][:6])
with ThreadPoolExecutor(int(os.environ.get('J','4'))) as ex:
    for p,rc,o in ex.map(run,ids):
        if rc or os.environ.get('SHOW'): print(tree,p,'rc=%d'%rc,o,flush=True)
print(tree,'done')
