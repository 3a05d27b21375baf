# usage: from mk import mk
import subprocess,os,json,sys
# works on a clone: git clone /repo /tmp/mkrepo
def mk(id,prop,edits,demo,needs,breaks):
    assert subprocess.run("git -C /tmp/mkrepo status --porcelain",shell=True,capture_output=True,text=True).stdout=="" 
    try:
        for f,a,b in edits:
            p='/tmp/mkrepo/'+f; s=open(p).read(); assert s.count(a)>=1,(id,f,a); s=s.replace(a,b,1); open(p,'w').write(s)
            if f.endswith('.go'): subprocess.run(['gofmt','-w',p],check=True)
        diff=subprocess.run("git -C /tmp/mkrepo diff",shell=True,capture_output=True,text=True).stdout
    finally:
        subprocess.run("git -C /tmp/mkrepo checkout -q -- .",shell=True)
    base={}
    f=None
    for l in diff.split('\n'):
        if l.startswith('--- a/'): f=l[6:]; base[f]=subprocess.run(['git','-C','/tmp/mkrepo','show','011816e:'+f],capture_output=True,text=True).stdout.split('\n')
        elif l.startswith('-') and f and not l.startswith('---') and l[1:] not in base[f]: print(id,'NOT ORIGINAL:',l)
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.sh','w').write(HEAD+demo)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
HEAD='''#!/bin/bash
# exit 0: the property holds; 1: it is broken
. /opt/vp/env.sh
export CI=1 BAB_NO_UPDATE_CHECK=1
T=$(mktemp -d) && trap 'rm -rf "$T"' EXIT
go build -o "$T/bab" . || exit 3
mkdir "$T/w" && cd "$T/w" || exit 3
'''
