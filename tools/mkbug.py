import sys,subprocess,os,json
W='/tmp/bugwork/'
def bug(i,prop,needs,breaks,edits,demo):
    d='/verif/seeded/'+i; os.makedirs(d,exist_ok=True)
    subprocess.check_call('git checkout -q -- .',shell=True,cwd=W)
    for f,a,b in edits:
        s=open(W+f).read(); assert s.count(a)==1,(f,a,s.count(a)); open(W+f,'w').write(s.replace(a,b))
    open(d+'/patch.diff','w').write(subprocess.check_output('git diff',shell=True,cwd=W,text=True))
    subprocess.check_call('git checkout -q -- .',shell=True,cwd=W)
    open(d+'/demo.sh','w').write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n'); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.py','w').write(demo)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    open(d+'/meta.json','a').write('\n')
