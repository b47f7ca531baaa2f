"""mkbugs.py LIST.py: plants the bugs of a list (development aid)"""
import json, os, subprocess, sys
exec(open(sys.argv[1]).read())
only=sys.argv[2:]
for (i,prop,edits,demo,src,needs,breaks),k in B:
    if only and i not in only: continue
    d='/verif/seeded/'+i
    os.makedirs(d,exist_ok=True)
    subprocess.run(['git','-C','/tmp/wt/repo','checkout','-q','--','.'],check=True)
    subprocess.run(['git','-C','/tmp/wt/repo','pull','-q'],stderr=subprocess.DEVNULL)
    for f,a,b in edits:
        p='/tmp/wt/repo/'+f; s=open(p).read()
        assert a in s,(i,f,a)
        open(p,'w').write(s.replace(a,b,k.get('count',1)))
    open(d+'/demo.cpp','w').write(demo)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    subprocess.run(['/verif/tools/mkdemo.sh',i,src,k.get('flags','')],check=True)
    print(i,prop,flush=True)
    subprocess.run(['/verif/tools/bug.sh',i])
