#!/usr/bin/env python3
"""mkseed.py ID SPEC.json: makes /verif/seeded/ID from text replacements in a scratch copy of /repo.
SPEC: {"edits":[[file,old,new],...],"property":..,"needs":..,"what_it_breaks":..}"""
import json,os,subprocess,sys
i,spec=sys.argv[1:]
d=json.load(open(spec))
S='/tmp/seed'
subprocess.check_call(['git','-C',S,'fetch','-q','/repo','HEAD']); subprocess.check_call(['git','-C',S,'reset','-q','--hard','FETCH_HEAD'])
for f,a,b in d['edits']:
    p=os.path.join(S,f); s=open(p).read()
    assert s.count(a)==1,(f,a,s.count(a))
    open(p,'w').write(s.replace(a,b))
subprocess.call(['gofmt','-l','schema','gen','cmd','.'],cwd=S,stdout=subprocess.DEVNULL)
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','seeded',i)
os.makedirs(out,exist_ok=True)
diff=subprocess.check_output(['git','-C',S,'diff'])
open(out+'/patch.diff','wb').write(diff)
json.dump({k:d[k] for k in('property','needs','what_it_breaks')},open(out+'/meta.json','w'),indent=1)
subprocess.check_call(['git','-C',S,'checkout','-q','--','.'])
