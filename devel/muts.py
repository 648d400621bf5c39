#!/usr/bin/env python3
# Development aid: runs checks on edited scratch copies of /repo.
# usage: muts.py [-j N] FILE [names...]; FILE defines M=[(name, props, expect, [(file,old,new)...])], expect 'bad' or 'ok'
import os,shutil,subprocess,sys,tempfile
from concurrent.futures import ThreadPoolExecutor
TC=os.environ.get('TC','/tmp/w/tokcheck')
ALL=os.environ.get('ALL','').split()
ns={}
exec(open(sys.argv[1]).read(),ns)
want=sys.argv[2:]
env=dict(os.environ,GOFLAGS='-mod=mod -buildvcs=false')
def run(m):
    name,props,expect,edits=m
    d=tempfile.mkdtemp(prefix='mut_',dir='/tmp/w'); r=d+'/repo'; v=d+'/v'
    try:
        shutil.copytree('/repo',r,ignore=shutil.ignore_patterns('.git'))
        for f,old,new in edits:
            p=r+'/'+f; t=open(p).read() if os.path.exists(p) else ''
            if old=='': t+=new
            else:
                if t.count(old)!=1: return name+': EDIT does not apply (%d): %s'%(t.count(old),old[:60])
                t=t.replace(old,new)
            open(p,'w').write(t)
        b=subprocess.run(['go','vet','-vettool=/bin/true','./...'],cwd=r,env=env,capture_output=True) if 0 else subprocess.run(['go','build','./...'],cwd=r,env=env,capture_output=True,text=True)
        if b.returncode: return name+': BUILD '+b.stderr[:300]
        t=subprocess.run(['go','test','-vet=off','-timeout','60s','./...'],cwd=r,env=env,capture_output=True,text=True)
        tests='' if t.returncode==0 else ' TESTS-FAIL'
        out=[]
        for p in (props if expect=='bad' else (props or ALL)):
            os.makedirs(v+p,exist_ok=True); shutil.copy('/verif/known-findings.txt',v+p)
            c=subprocess.run(['timeout','800',TC,'check',p],env=dict(os.environ,TOK_REPO=r,VERIF_DIR=v+p),capture_output=True,text=True)
            lines=[l for l in c.stdout.split('\n') if l and not l.startswith(' ')]
            flag='' if (c.returncode==1)==(expect=='bad') else ' <<<<<<<<<<'
            out.append('%s rc=%d %s%s'%(p,c.returncode,'' if c.returncode==0 else lines[0][:150],flag))
        return name+tests+' ['+expect+']: '+'; '.join(out)
    finally: shutil.rmtree(d,ignore_errors=True)
ms=[m for m in ns['M'] if not want or m[0] in want]
with ThreadPoolExecutor(int(os.environ.get('J','4'))) as ex:
    for x in ex.map(run,ms): print(x,flush=True)
