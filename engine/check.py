#!/usr/bin/env python3-vt
"""check.py <PROPERTY>: verify every contract harness of one property against the current /repo."""
import sys, os, time, json, glob, re, subprocess, pickle, tempfile, shutil, multiprocessing as mp, traceback
HERE=os.path.dirname(os.path.abspath(__file__)); ROOT=os.path.dirname(HERE)
sys.path.insert(0,HERE); sys.setrecursionlimit(100000)
import build, ir, exec as X, solve, terms
import loops

TIER=os.environ.get('VERIF_TIER','quick'); SEED=int(os.environ.get('VERIF_SEED','1') or 1)
THOROUGH = TIER=='thorough'
JOBS=int(os.environ.get('VC_JOBS','8'))
BUDGET=float(os.environ.get('VC_BUDGET', '120' if THOROUGH else '24'))
GEN_BUDGET=float(os.environ.get('VC_GEN','900' if THOROUGH else '240'))
SEARCH=float(os.environ.get('VC_SEARCH','60' if THOROUGH else '20'))

T0=time.time()
def slurp(p): return open(p,encoding='utf8',errors='replace').read()

def gen_and_solve(bc,main,tokens,opts,outq):
    """worker: generate the obligations of one harness main, then discharge them in forked children"""
    t0=time.time()
    res={'main':main,'obl':[],'unsupported':None,'gen_s':0,'paths':0,'covers':{},'called':[],'uses':[],'loops':[]}
    try:
        with tokens:
            m=ir.Module(bc)
            feas=solve.Feas(); o=dict(opts); ex=X.Exec(m,feas,o); feas.ex=ex
            ex.deadline=time.time()+min(GEN_BUDGET,o.get('gen',GEN_BUDGET))
            try: loops.run(ex,main)
            except X.Unsupported as e: res['unsupported']=str(e)
            except RecursionError: res['unsupported']='recursion limit'
        res['gen_s']=time.time()-t0; res['paths']=ex.npaths; res['called']=sorted(ex.called); res['uses']=sorted(ex.uses); res['loops']=ex.loopreport if hasattr(ex,'loopreport') else []
        seen=set(); obs=[]
        for ob in ex.obl:
            k=(ob.name,ob.goal,frozenset(ob.pc))
            if k in seen: continue
            seen.add(k); obs.append(ob)
        cov={}
        n=len(obs)
        ctr=mp.Value('i',0); inv=mp.Value('i',0)
        k=max(1,min(JOBS,n//8+1))
        procs=[]
        tmp=os.environ['VC_TMP']
        def child(ci):
            out=[]
            while True:
                with ctr.get_lock():
                    i=ctr.value; ctr.value+=1
                if i>=n: break
                ob=obs[i]
                if ob.goal is True:
                    out.append((i,ob.name,'valid','normaliser',0.0,None,ob.kind)); continue
                with tokens:
                    late=inv.value>0 or (time.time()-T0>400 and not THOROUGH)      # a failed obligation is known, or time runs out: no long runs
                    try: v,be,s,vals=solve.discharge(ob,ex,min(BUDGET,6) if late else BUDGET)
                    except Exception as e: v,be,s,vals='unknown','error:'+repr(e)[:200],0.0,None
                    if v=='unknown' and not late and inv.value==0:
                        try: v,be,s,vals=solve.discharge(ob,ex,BUDGET*3)
                        except Exception as e: pass
                rec=(i,ob.name,v,be,s,vals,ob.kind)
                out.append(rec)
                if v=='invalid':
                    with inv.get_lock(): inv.value+=1
                if v!='valid':
                    try: open(os.path.join(tmp,'%s.%d.smt2'%(main,i)),'w').write(solve.smt2(list(ob.pc)+[terms.f_not(ob.goal)],None,True,ex)[0])
                    except Exception: pass
            return out
        def cover_child():
            c={}
            for name,l in ex.covers.items():
                st='unknown'
                for pc,inputs in (l if len(l)<13 else l[:8]+l[-1:]+l[8:-1]):
                    ok=False
                    with tokens:
                        for tac,ms in (('nlsat',1500),('z3',1500)):
                            try: r,mm=solve.inproc(pc,ex,ms,tac)
                            except Exception: r='unknown'
                            if r=='sat': ok=True; break
                            if r=='unsat': break
                        if not ok:
                            try: ok=solve.reachable(pc,ex)=='sat'
                            except Exception: pass
                    if ok: st='reached'; break
                c[name]=st
            return c
        files=[]
        for ci in range(k+1):
            fn=os.path.join(tmp,'%s.res%d'%(main,ci)); files.append(fn)
            pid=os.fork()
            if pid==0:
                try:
                    r=child(ci) if ci<k else cover_child()
                    pickle.dump(r,open(fn,'wb'))
                except BaseException:
                    traceback.print_exc()
                os._exit(0)
            procs.append(pid)
        for p in procs: os.waitpid(p,0)
        done=set()
        for ci,fn in enumerate(files):
            try: r=pickle.load(open(fn,'rb'))
            except Exception: r=[] if ci<k else {}
            if ci<k:
                for x in r: done.add(x[0]); res['obl'].append(x[1:])
            else: res['covers']=r
        for i in range(n):
            if i not in done: res['obl'].append((obs[i].name,'unknown','solver process ended',0.0,None,obs[i].kind))
        res['sample']=None
        for ob in obs:
            if ob.goal is not True and ob.goal is not False:
                res['sample']={'obligation':ob.name,'given':[terms.fstr(f)[:160] for f in ob.pc[:6]],'prove':terms.fstr(ob.goal)[:300]}; break
    except BaseException as e:
        res['unsupported']='internal: '+traceback.format_exc()[-1500:]
    res['total_s']=time.time()-t0
    outq.put(res)

def main():
    prop=sys.argv[1]
    only=sys.argv[2:]
    t0=time.time()
    tmp=tempfile.mkdtemp(prefix='vc_%s_'%prop); os.environ['VC_TMP']=tmp
    rc=2
    try: rc=run(prop,only,tmp,t0)
    finally: shutil.rmtree(tmp,ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)

def known():
    p=os.path.join(ROOT,'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings':[],'fixed':[]}

def run(prop,only,tmp,t0):
    cfg={}
    srcs=sorted(glob.glob(os.path.join(ROOT,'harness',prop+'_*.cpp')))
    for s in list(srcs):      # contracts used in place of callees are proved on this run too
        for d in re.findall(r'^// DEPENDS: (\S+)$',slurp(s),re.M):
            d=os.path.join(ROOT,'harness',d)
            if d not in srcs: srcs.append(d)
    if not srcs: print('no harness for',prop); return 2
    # 1. compile the harnesses with /repo's current headers
    shape=lambda s: 'scalar' if '// SHAPE: scalar' in slurp(s) else 'O2'
    def comp(s):
        bc=os.path.join(tmp,os.path.basename(s)[:-4]+'.bc')
        try: build.to_ir(s,bc,['-DVC_THOROUGH=%d'%int(THOROUGH)],shape(s)); return s,bc,None
        except build.BuildError as e: return s,bc,str(e)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(JOBS) as tp: comps=list(tp.map(comp,srcs))
    for s,bc,e in comps:
        if e: print('ERROR: harness does not compile against the current tree: %s\n%s'%(s,e[-3000:])); return 2
    comp_s=time.time()-t0
    mains=[]
    for s,bc,_ in comps:
        txt=slurp(s)
        for n in re.findall(r'^VC_MAIN\((\w+)\)',txt,re.M):
            if only and n not in only: continue
            if n.startswith('t_') and not THOROUGH: continue
            w=re.search(r'//\s*VC-WEIGHT\s+%s\s+(\d+)'%n,txt)
            mains.append((-(int(w.group(1)) if w else 1),s,bc,n))
    mains.sort()
    assert len({n for _,_,_,n in mains})==len(mains),'main names must be unique'
    tokens=mp.Semaphore(JOBS); outq=mp.Queue()
    ps=[]; pend=list(mains); results={}; live=0
    bysrc={n:s for _,s,_,n in mains}
    while pend or live:
        while pend and live<JOBS*3:
            _,s,bc,n=pend.pop(0)
            p=mp.Process(target=gen_and_solve,args=(bc,'vc_main_'+n,tokens,{},outq)); p.start(); ps.append(p); live+=1
        try: r=outq.get(timeout=5)
        except Exception:
            # a worker that died without an answer
            if all(not p.is_alive() for p in ps) and live>0 and outq.empty():
                break
            continue
        live-=1; results[r['main'][8:]]=r
        if os.environ.get('VC_VERBOSE'):
            bad=[o for o in r['obl'] if o[1]!='valid']
            mxs=sorted(((o[3],o[0],o[2]) for o in r['obl']),reverse=True)[:2]
            print('  %-34s gen %.1fs paths %d obl %d bad %d total %.1fs %s max %s %s cov %s'%(r['main'][8:],r['gen_s'],r['paths'],len(r['obl']),len(bad),r['total_s'],r['unsupported'] or '',mxs,r['loops'],r['covers'])); sys.stdout.flush()
            for b in bad[:6]: print('       BAD',b)
    for n in bysrc:
        if n not in results: results[n]={'main':'vc_main_'+n,'obl':[],'unsupported':'worker ended without an answer','gen_s':0,'paths':0,'covers':{},'called':[],'uses':[],'loops':[],'total_s':0}
    # 2. judge
    kf=known(); viol=[]; degraded=[]; vac=[]; kfl=[]
    natives={}
    def native(src):
        if src not in natives:
            o=os.path.join(tmp,os.path.basename(src)[:-4]+'.native')
            try: build.to_native(src,o); natives[src]=o
            except build.BuildError as e: natives[src]=None; print('note: native build failed:',str(e)[-500:])
        return natives[src]
    def replay(src,n,vals):
        exe=native(src)
        if not exe: return None,''
        try: p=subprocess.run([exe,'replay',n]+['%.17g'%v for v in vals],capture_output=True,text=True,timeout=60)
        except subprocess.TimeoutExpired: return 'terminates','timeout'
        m=re.search(r'^FAIL (.*)$',p.stdout,re.M)
        return (m.group(1) if m else None),p.stdout
    def search(src,n,secs,seeds):
        exe=native(src)
        if not exe: return None
        ps=[subprocess.Popen([exe,'search',n,str(s),str(secs)],stdout=subprocess.PIPE,text=True) for s in seeds]
        hit=None; tot=0; covs=set()
        for p in ps:
            try: out,_=p.communicate(timeout=secs+60)
            except subprocess.TimeoutExpired: p.kill(); out=''
            m=re.search(r'^FAIL (.*)$',out,re.M); v=re.search(r'^VALUES(.*)$',out,re.M)
            q=re.search(r'^SAMPLES (\d+) (\d+)',out,re.M)
            if q: tot+=int(q.group(2))
            covs|=set(re.findall(r'^COVER (.*)$',out,re.M))
            if m and v and not hit: hit=(m.group(1),[float(x) for x in v.group(1).split()])
        return hit,tot,covs
    kmap={(k['property'],k['main']):k for k in kf['findings']}
    search_tot=0
    # mains over sequences of any length whose invariant proof did not go through: verify lengths lo..lo+2 instead (bounded)
    bcs={n:bc for _,_,bc,n in mains}; sized={}
    for _,s,_,n in mains:
        m=re.search(r'^VC_MAIN\(%s\)(.*?)(?=^VC_MAIN|\Z)'%n,slurp(s),re.M|re.S); sized[n]=bool(m and ('SymSeq' in m.group(1) or 'SEQS' in m.group(1) or 'vc_size' in m.group(1)))
    isbad=lambda r: r['unsupported'] or any(o[1]!='valid' for o in r['obl'])
    redo=[n for n,r in results.items() if sized[n] and isbad(r)]
    if redo:      # second shape of the same code: scalar passes only, loops as they are in the source
        alt={}
        for s in {bysrc[n] for n in redo}:
            bc=os.path.join(tmp,os.path.basename(s)[:-4]+'.alt.bc')
            try: build.to_ir(s,bc,['-DVC_THOROUGH=%d'%int(THOROUGH)],'O2' if shape(s)=='scalar' else 'scalar'); alt[s]=bc
            except build.BuildError as e: print('note: second shape not built:',str(e)[-300:])
        ps=[mp.Process(target=gen_and_solve,args=(bc,'vc_main_'+n,tokens,{'gen':150,'slow':3},outq)) for n in redo for bc in ([alt[bysrc[n]]] if bysrc[n] in alt else [])+([bcs[n]] if results[n]['unsupported'] or results[n]['gen_s']>15 else [])]
        for p in ps: p.start()
        k=0
        while k<len(ps):
            try: r=outq.get(timeout=5)
            except Exception:
                if all(not p.is_alive() for p in ps) and outq.empty(): break
                continue
            k+=1; n=r['main'][8:]
            if os.environ.get('VC_VERBOSE'): print('  %-34s second shape: paths %d obl %d bad %s %s'%(n,r['paths'],len(r['obl']),[o[:3] for o in r['obl'] if o[1]!='valid'][:4],r['unsupported'] or ''))
            if not isbad(r) and r['obl']: r['loops'].append({'mode':'shape','reason':'proved on the second attempt (code compiled with / without loop passes)'}); results[n]=r; redo.remove(n) if n in redo else None
    if redo:
        ps=[mp.Process(target=gen_and_solve,args=(bcs[n],'vc_main_'+n,tokens,{'bounded':1},outq)) for n in redo]
        for p in ps: p.start()
        got={}
        while len(got)<len(redo):
            try: r=outq.get(timeout=5); got[r['main'][8:]]=r
            except Exception:
                if all(not p.is_alive() for p in ps) and outq.empty(): break
        for n,r in got.items():
            if os.environ.get('VC_VERBOSE'): print('  %-34s bounded: paths %d obl %d bad %s %s'%(n,r['paths'],len(r['obl']),[o[:3] for o in r['obl'] if o[1]!='valid'][:4],r['unsupported'] or ''))
            u=results[n]
            if not r['unsupported'] and all(o[1]=='valid' for o in r['obl']):
                why=u['unsupported'] or 'no inductive invariant found for: '+'; '.join(sorted({o[0] for o in u['obl'] if o[1]!='valid'}))
                h,tot,cv=search(bysrc[n],n,SEARCH,[SEED*100+i for i in range(JOBS)]) or (None,0,set())
                search_tot+=tot
                r['loops']=[{'mode':'bounded','reason':why,'bound':'sequence lengths up to the minimum plus two'}]; results[n]=r
                if h: viol.append((n,h[0],h[1],r,'native search (no inductive invariant on the changed code)',True))
                else: degraded.append((n,why+' [lengths up to the minimum plus two verified]',tot))
            elif not r['unsupported'] or any(o[1]!='valid' for o in r['obl']): results[n]=r
    for n,r in sorted(results.items()):
        if any(l.get('mode')=='bounded' for l in r['loops']): continue
        src=bysrc[n]; bad=[o for o in r['obl'] if o[1]!='valid']
        kfe=kmap.get((prop,n))
        if n.startswith('known_'):
            if bad and kfe:
                if all(o[0]==kfe['obligation'] for o in bad): kfl.append(kfe); continue
            elif not bad and not r['unsupported']: continue
        if r['unsupported'] and not bad:
            h,tot,cv=search(src,n,SEARCH,[SEED*100+i for i in range(JOBS)]) or (None,0,set())
            search_tot+=tot
            if h: viol.append((n,h[0],h[1],r,'native search (the verifier could not process the changed code: %s)'%r['unsupported'][:200],True))
            else: degraded.append((n,r['unsupported'],tot))
            continue
        if bad:
            found=None
            names=[]
            for o in bad:
                if o[0] not in names: names.append(o[0])
            tried=0
            for o in bad:
                if o[4] and tried<25:
                    tried+=1
                    f,out=replay(src,n,o[4])
                    if f: found=(n,f,o[4],r,'verifier counterexample (%s)'%o[2],True); break
            if not found:
                h,tot,cv=search(src,n,SEARCH,[SEED*100+i for i in range(JOBS)]) or (None,0,set())
                search_tot+=tot
                if h: found=(n,h[0],h[1],r,'native search after obligation failed',True)
            if not found:
                found=(n,names[0],None,r,'; '.join('%s: %s by %s'%(o[0],o[1],o[2]) for o in bad[:10]),False)
            viol.append(found)
        else:
            miss=[c for c,s in r['covers'].items() if s!='reached']
            if miss or not r['covers'] or not r['obl']:
                h,tot,cv=search(src,n,3,[SEED*100+i for i in range(2)]) or (None,0,set())
                if h: viol.append((n,h[0],h[1],r,'native search',True)); continue
                miss=[c for c in miss if c not in cv]
                if miss or not r['obl'] or (not r['covers'] and not cv): vac.append((n,miss))
    # 3. report
    os.makedirs(os.path.join(ROOT,'replay',prop),exist_ok=True)
    lines=[]
    confirmed=[v for v in viol if v[5]]
    for n,name,vals,r,how,ok in (confirmed or viol)[:6]:
        p=os.path.join(ROOT,'replay',prop,n+'.json')
        rec={'property':prop,'harness':os.path.relpath(bysrc[n],ROOT),'main':n,'obligation':name,'found_by':how,'inputs':vals,
             'failed_obligations':[{'name':o[0],'verdict':o[1],'back_end':o[2],'model':o[4]} for o in r['obl'] if o[1]!='valid'][:20],
             'rerun':'python3-vt engine/replay.py %s'%os.path.relpath(p,ROOT)}
        if ok: rec['native_output']=replay(bysrc[n],n,vals)[1]
        sm=sorted(glob.glob(os.path.join(tmp,'vc_main_%s.*.smt2'%n)))[:1]
        if sm: rec['query']=slurp(sm[0])[:20000]
        json.dump(rec,open(p,'w'),indent=1)
        lines.append('VIOLATION property=%s replay=%s'%(prop,os.path.relpath(p,ROOT))+('' if ok else ' no-failing-input-found'))
    for n,m in vac:
        if not viol:
            p=os.path.join(ROOT,'replay',prop,n+'.json')
            json.dump({'property':prop,'main':n,'obligation':'the contract is not vacuous','missing_covers':m,'found_by':'reachability check'},open(p,'w'),indent=1)
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found'%(prop,os.path.relpath(p,ROOT)))
    for k in kfl: print('KNOWN-FINDING: property=%s %s'%(prop,k['what']))
    for n,why,tot in degraded: print('note: %s: not decided by the verifier on this tree (%s); stand-in: %d native samples, no failure (bounded, not counted as proved)'%(n,why[:200],tot))
    evidence(prop,results,bysrc,viol,degraded,kfl,comps,time.time()-t0,comp_s,search_tot)
    for l in lines[:6]: print(l)
    if lines: return 1
    return 0

def evidence(prop,results,bysrc,viol,degraded,kfl,comps,wall,comp_s,search_tot):
    man=json.load(open(os.path.join(ROOT,'MANIFEST.json'))) if os.path.exists(os.path.join(ROOT,'MANIFEST.json')) else {'checks':[]}
    level='proof'
    for c in man['checks']:
        if c['property']==prop: level=c['level']
    be={}; nobl=nd=bo=bd=0; st=0.0; per={}; mx=0
    for n,r in results.items():
        if n.startswith('known_'): continue
        bounded=n.startswith('b_') or any(l.get('mode')=='bounded' for l in r['loops'])
        k=len(r['obl']); d=sum(1 for o in r['obl'] if o[1]=='valid')
        if bounded: bo+=k; bd+=d
        else: nobl+=k; nd+=d
        for o in r['obl']: be[o[2]]=be.get(o[2],0)+1; st+=o[3]; mx=max(mx,o[3])
        per[n]={'obligations':k,'discharged':d,'paths':r['paths'],'generation_s':round(r['gen_s'],2),'bounded':bool(bounded),'loops':r['loops'],'unsupported':r['unsupported'],'covers':r['covers']}
    called=set()
    for r in results.values(): called|=set(r['called'])
    dm=[d for d in build.demangle(sorted(called)) if 'geometrix::' in d and not d.startswith('vc_main')]
    dm=sorted(set(re.sub(r'\s+',' ',d)[:220] for d in dm))
    fuc=[]; assume=[]
    for s,_,_ in comps:
        for l in slurp(s).split('\n'):
            m=re.match(r'\s*//\s*CONTRACT:\s*(.*)',l)
            if m: fuc.append(m.group(1).strip())
            m=re.match(r'\s*//\s*ASSUMES:\s*(.*)',l)
            if m: assume.append(m.group(1).strip())
    samples=[dict(r['sample'],main=n) for n,r in sorted(results.items()) if r.get('sample')][:4]
    contracts=set()
    for r in results.values(): contracts|=set(r['uses'])
    ev={'property':prop,'tier':TIER,'seed':SEED,'level':level,
     'coverage':{'obligations':nobl,'discharged':nd,'checker_cmd':'python3-vt engine/check.py %s'%prop,
       'trusted_base':['clang 18 front end and -O2 pipeline (the IR verified is compiled from the harness and /repo headers on this run)','the VC generator in /verif/engine','z3 5.3 / cvc5 1.1 / exact polynomial normaliser','the contract text in '+', '.join(sorted(os.path.relpath(s,ROOT) for s,_,_ in comps))],
       'bounded_obligations':bo,'bounded_discharged':bd,'by_back_end':be,'solver_s':round(st,2),'slowest_obligation_s':round(mx,2),'compile_s':round(comp_s,2),
       'functions_under_contract':sorted(set(fuc)),'non_inlined_repo_functions_executed_symbolically':dm[:150],'calls_replaced_by_contract':build.demangle(sorted(contracts)) if contracts else [],
       'harnesses':per,'samples':samples,'native_search_samples':search_tot,
       'not_decided_on_this_tree':[{'main':n,'reason':w[:400],'native_samples':t} for n,w,t in degraded],
       'known_findings':[k['what'] for k in kfl]},
     'assumptions':['floating point arithmetic is treated as exact real arithmetic (no rounding, no overflow, no NaN inputs)','integer arithmetic marked nsw by the compiler is treated as mathematical']+assume,
     'wall_s':round(wall,2),'violations':len(viol)}
    if level=='other': ev['coverage']['explanation']='see harnesses'
    os.makedirs(os.path.join(ROOT,'evidence'),exist_ok=True)
    json.dump(ev,open(os.path.join(ROOT,'evidence',prop+'.json'),'w'),indent=1)
if __name__=='__main__': main()
