#!/usr/bin/env python3
"""mutrun.py OUT.jsonl SEED COUNT WORKERS SECONDS [FILE-SUBSTRING]: random one-step changes that build and pass the stable tests, and which checks notice them."""
import json,os,random,shutil,subprocess,sys,threading,glob
out,seed,count,workers,secs=sys.argv[1],int(sys.argv[2]),int(sys.argv[3]),int(sys.argv[4]),sys.argv[5]
sub=sys.argv[6] if len(sys.argv)>6 else ''
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); REPO=os.environ.get('DST_REPO','/repo')
env=dict(os.environ,GOROOT='/opt/veriftools/go1.25.14',GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local',GOMODCACHE='/root/go/pkg/mod')
env['PATH']='/opt/veriftools/go1.25.14/bin:'+env['PATH']
files=subprocess.check_output("git ls-files '*.go' | grep -v _test.go | grep -v '^_examples\\|\\.gen\\.go$\\|embed.go'",shell=True,cwd=REPO,text=True).split()
files=[f for f in files if sub in f]
ms=[json.loads(l) for l in subprocess.check_output(['go','run','.',REPO]+files,cwd=os.path.join(VERIF,'tools/mutate'),env=env,text=True).splitlines()]
random.Random(seed).shuffle(ms)
print(len(ms),'mutants in',len(files),'files',flush=True)
def props(f):
    if f.startswith('schema/ridl/internal'): return 'C07 C05 C04 C01'
    if f.startswith('schema/ridl'): return 'C01 C02 C08 C07 C12 C06 C05'
    if f.startswith('schema/'): return 'C01 C12 C02 C08 C06 C09'
    if f=='gen/template_source.go': return 'C11 C10 C12'
    if f.startswith('gen/'): return 'C12 C06 C10 C09'
    if f.startswith('cmd/webrpc-gen'): return 'C12 C11 C16 C06'
    if f.startswith('cmd/webrpc-test') or f.startswith('tests/'): return 'C13 C16'
    if f=='version.go': return 'C16'
    return 'C01 C12 C16'
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
lock=threading.Lock(); it=iter(ms); left=[count]
fo=open(out,'a')
def work(k):
    S=f'/tmp/mutw{k}'; V=f'/tmp/mutv{k}'
    for p,r in((S,REPO),(V,VERIF)):
        shutil.rmtree(p,ignore_errors=True); subprocess.check_call(['git','clone','-q',r,p])
    while True:
        with lock:
            if left[0]<=0: return
            try: m=next(it)
            except StopIteration: return
        p=os.path.join(S,m['File']); b=open(p,'rb').read()
        open(p,'wb').write(b[:m['Start']]+m['New'].encode()+b[m['End']:])
        try:
            r=subprocess.run("P=$(go list -e -find ./... | grep -vxE 'github.com/webrpc/webrpc/(gen|cmd/webrpc-gen)'); go build $P && gofmt -e gen cmd/webrpc-gen >/dev/null && go test -json -vet=off -count=1 -timeout 60s $P > t.json",shell=True,cwd=S,env=env,capture_output=True,text=True)
            if r.returncode and not os.path.exists(S+'/t.json'): continue
            passed=set()
            if os.path.exists(S+'/t.json'):
                for l in open(S+'/t.json'):
                    try: d=json.loads(l)
                    except Exception: continue
                    if d.get('Action')=='pass' and 'Test' in d: passed.add(d['Package']+'/'+d['Test'])
                os.remove(S+'/t.json')
            if stable-passed: continue
            caught=None
            for q in props(m['File']).split():
                e=dict(env,DST_REPO=S,VERIF_SECONDS=secs,VERIF_WORKERS='3',VERIF_SEED='1')
                try: r=subprocess.run(['./run.sh','check',q],cwd=V,env=e,capture_output=True,text=True,timeout=400)
                except subprocess.TimeoutExpired: caught=q+' timeout'; break
                if r.returncode!=0 and r.returncode!=1:
                    caught='no answer '+q+' '+(r.stdout+r.stderr)[-300:]; break
                if r.returncode:
                    l=[x for x in r.stdout.splitlines() if x.startswith('seed ')]
                    caught=q+' '+(l[0][:160] if l else r.stdout[-200:]+r.stderr[-200:]); break
            m['Caught']=caught
            with lock:
                left[0]-=1; fo.write(json.dumps(m)+'\n'); fo.flush()
        finally:
            open(p,'wb').write(b)
            for x in glob.glob(V+'/.build/*'):
                if os.path.isdir(x): shutil.rmtree(x,ignore_errors=True)
            shutil.rmtree(V+'/replays',ignore_errors=True)
ts=[threading.Thread(target=work,args=(k,)) for k in range(workers)]
[t.start() for t in ts]; [t.join() for t in ts]
for k in range(workers):
    shutil.rmtree(f'/tmp/mutw{k}',ignore_errors=True); shutil.rmtree(f'/tmp/mutv{k}',ignore_errors=True)
