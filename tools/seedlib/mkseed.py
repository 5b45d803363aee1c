import os,subprocess,json,sys,shutil
V='/verif/seeded/'
R=os.environ.get('SEED_REPO','/repo')
DEMO='''#!/bin/bash
# cwd: /repo, built
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++14 -w -g -I. -Iwebm_parser/include -Iwebm_parser -I"$D" "$D/demo.cc" %s _build/libwebm.a -lpthread -o "$T/demo" || exit 99
cd "$T" && timeout 120 ./demo
'''
def seed(i,prop,subs,needs,breaks,demo,extra=''):
    d=V+i; os.makedirs(d,exist_ok=True)
    assert not subprocess.check_output(['git','-C',R,'status','--porcelain','-uno']).strip()
    for f,a,b in subs:
        p=R+'/'+f; s=open(p).read(); assert s.count(a)==1,(f,s.count(a),a); open(p,'w').write(s.replace(a,b))
    open(d+'/patch.diff','wb').write(subprocess.check_output(['git','-C',R,'diff']))
    subprocess.check_call(['git','-C',R,'checkout','--','.'])
    open(d+'/demo.sh','w').write(DEMO%extra); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.cc','w').write(demo)
    if '"d.h"' in demo: shutil.copy(os.path.dirname(os.path.abspath(__file__))+'/d.h',d)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
