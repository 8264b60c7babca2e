"""development aid: make and confirm planted bugs.  usage: plant.py FILE.py [ids...]  where FILE.py calls plant(...) for each"""
import sys,os,subprocess,json,shutil,concurrent.futures as cf
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); W='/tmp/pl'
SPEC=[]
DEMO='''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++14 -w -I. -DBOOST_RESULT_OF_USE_TR1_WITH_DECLTYPE_FALLBACK -DBOOST_CHRONO_HEADER_ONLY -DBOOST_PARAMETER_MAX_ARITY=20 "$d/demo.cpp" -o "$t/demo" || exit 2
timeout 60 "$t/demo"
'''
def plant(id,prop,edits,needs,breaks,demo): SPEC.append((id,prop,edits,needs,breaks,demo))
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def do(s):
    id,prop,edits,needs,breaks,demo=s; d='%s/%s'%(W,id); sd=R+'/seeded/'+id; sh('rm -rf '+d)
    sh('mkdir -p %s && cp -a /repo %s/repo && rm -rf %s/repo/_build/vp-run'%(d,d,d)); r=d+'/repo'; sh('git -C %s checkout -q -- .'%r)
    for e in edits:
        f,old,new=e[:3]
        p=r+'/'+f; t=open(p,encoding='latin-1',newline='').read(); crlf='\r\n' in t
        if crlf: old=old.replace('\n','\r\n'); new=new.replace('\n','\r\n')
        if len(e)>3: k=-1
        if len(e)>3:
            for _ in range(e[3]+1): k=t.index(old,k+1)
            t=t[:k]+new+t[k+len(old):]
        else:
            if t.count(old)!=1: return id,'edit matches %d times in %s'%(t.count(old),f)
            t=t.replace(old,new)
        open(p,'w',encoding='latin-1',newline='').write(t)
    os.makedirs(sd,exist_ok=True)
    diff=subprocess.run(['git','-C',r,'diff','--binary'] ,capture_output=True).stdout
    open(sd+'/patch.diff','wb').write(subprocess.run(['git','-C',r,'diff'],capture_output=True).stdout)
    open(sd+'/demo.cpp','w').write(demo.lstrip()); open(sd+'/demo.sh','w').write(DEMO); os.chmod(sd+'/demo.sh',0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(sd+'/meta.json','w'),indent=1)
    a=sh('cd /repo && bash %s/demo.sh'%sd); b=sh('cd %s && bash %s/demo.sh'%(r,sd))
    out='demo clean=%d patched=%d'%(a.returncode,b.returncode)
    if a.returncode or b.returncode in (0,2): out+=' DEMO-BAD '+(a.stdout+a.stderr)[-600:]+(b.stderr[-300:] if b.returncode==2 else '')
    t=sh("unshare -Urm bash -c 'mount --bind %s /repo && bash /opt/vp/test.sh %s/out.json'"%(r,d))
    try:
        o=json.load(open(d+'/out.json')); st=json.load(open('/opt/vp/BASELINE.json'))['stable']; miss=[x for x in st if x not in set(o['passed'])]
        out+=' tests-missing=%d %s'%(len(miss),miss[:3])
        if miss: out+=' TESTS-BAD '+t.stdout[-300:]
    except Exception as e: out+=' TESTS-ERR '+str(e)+t.stdout[-300:]+t.stderr[-300:]
    c=sh("cd %s && unshare -Urm bash -c 'mount --bind %s /repo && VERIF_TIER=quick VC_OUT=%s VERIF_SEED=1 timeout 900 python3-vt engine/check.py %s'"%(R,r,d,prop))
    out+=' CHECK rc=%d %s'%(c.returncode,'\n     '.join(l[:230] for l in c.stdout.split('\n') if 'VIOLATION' in l or 'replay' in l.lower())[:900])
    if c.returncode not in (0,1): out+=c.stderr[-300:]
    sh('rm -rf '+d); return id,out
if __name__=='__main__':
    exec(open(sys.argv[1]).read())
    S=[s for s in SPEC if len(sys.argv)<3 or s[0] in sys.argv[2:]]
    with cf.ThreadPoolExecutor(2) as tp:
        for id,o in tp.map(do,S): print(id,o,flush=True)
