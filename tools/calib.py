#!/usr/bin/env python3-vt
"""development aid: run the native search for every harness main on the current tree; no failure may appear"""
import sys,os,glob,re,subprocess,tempfile
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,R+'/engine'); import build
from concurrent.futures import ThreadPoolExecutor
secs=sys.argv[1]; props=sys.argv[2:]
d=tempfile.mkdtemp(prefix='calib'); jobs=[]
def comp(s):
    o=d+'/'+os.path.basename(s)[:-4]
    try: build.to_native(s,o); return s,o
    except build.BuildError as e: print(s,'BUILD',str(e)[-800:]); return s,None
srcs=[s for p in props for s in sorted(glob.glob(R+'/harness/'+p+'_*.cpp'))]
with ThreadPoolExecutor(8) as tp:
    for s,o in tp.map(comp,srcs):
        if o:
            for n in re.findall(r'^VC_MAIN\((\w+)\)',open(s).read(),re.M): jobs.append((s,o,n))
    def run(j):
        s,o,n=j
        try: p=subprocess.run([o,'search',n,'1',secs],capture_output=True,text=True,timeout=float(secs)*3+30); out=p.stdout
        except subprocess.TimeoutExpired: out='FAIL timeout'
        return s,n,out
    for s,n,out in tp.map(run,jobs):
        f=re.search('^FAIL.*(\n.*)?',out,re.M); q=re.search(r'^SAMPLES (\d+) (\d+)',out,re.M); acc=int(q.group(2)) if q else 0
        if f or acc<50: print(os.path.basename(s),n,f.group(0)[:400] if f else '','samples',q and q.groups())
subprocess.run(['rm','-rf',d])
