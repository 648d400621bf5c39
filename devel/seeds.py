#!/usr/bin/env python3
# Source of /verif/seeded: writes patch.diff, demo.sh, demo_test.go and meta.json of each planted bug.
# usage: seeds.py [ids...]   (works on a scratch copy of /repo)
import json,os,shutil,subprocess,sys,tempfile
HERE=os.path.dirname(os.path.abspath(__file__))
OUT=os.path.join(HERE,'..','seeded')
S=[]
def seed(id,prop,needs,what,edits,demo,pkg='.'):
    S.append(dict(id=id,prop=prop,needs=needs,what=what,edits=edits,demo=demo,pkg=pkg))
DEMO='''#!/bin/bash
# exit 0: the property holds, 1: it is broken
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off
cp "$here/demo_test.go.txt" "$tmp/zz_demo_test.go"
echo "{\\"Replace\\": {\\"$PWD/%szz_demo_test.go\\": \\"$tmp/zz_demo_test.go\\"}}" > "$tmp/o.json"
timeout 120 go test -overlay "$tmp/o.json" -vet=off -count=1 -timeout 60s -run '^TestZZDemo$' ./%s
'''
exec(open(os.path.join(HERE,'seedlist.py')).read())
want=set(sys.argv[1:])
for s in S:
    if want and s['id'] not in want: continue
    d=os.path.join(OUT,s['id']); os.makedirs(d,exist_ok=True)
    tmp=tempfile.mkdtemp()
    try:
        subprocess.check_call(['git','-C','/repo','worktree','list'],stdout=subprocess.DEVNULL)
        subprocess.check_call('git -C /repo archive HEAD | tar x -C '+tmp,shell=True)
        subprocess.check_call('git init -q . && git add -A && git -c user.email=a@b -c user.name=n commit -qm x',shell=True,cwd=tmp)
        for f,old,new in s['edits']:
            p=os.path.join(tmp,f); t=open(p).read()
            assert t.count(old)==1,(s['id'],f,old,t.count(old))
            open(p,'w').write(t.replace(old,new))
        diff=subprocess.check_output(['git','diff'],cwd=tmp).decode()
        open(os.path.join(d,'patch.diff'),'w').write(diff)
    finally:
        shutil.rmtree(tmp)
    pk='' if s['pkg']=='.' else s['pkg']+'/'
    open(os.path.join(d,'demo.sh'),'w').write(DEMO%(pk,pk))
    demo=s['demo']
    imps=[i for i,k in [('time','time.'),('errors','errors.'),('fmt','fmt.'),('sort','sort.'),('strings','strings.'),('unicode/utf8','utf8.')] if k in demo]
    pkgname='tok' if s['pkg']=='.' else 'grammar'
    if pkgname=='grammar': imps.append('github.com/aiq/tok')
    src='package %s\n\nimport (\n\t"testing"\n%s)\n\n%s'%(pkgname,''.join('\t%s"%s"\n'%('. ' if i.endswith('aiq/tok') else '',i) for i in imps),demo.strip()+'\n')
    open(os.path.join(d,'demo_test.go.txt'),'w').write(src)
    json.dump(dict(property=s['prop'],needs=s['needs'],what_it_breaks=s['what']),open(os.path.join(d,'meta.json'),'w'),indent=1)
