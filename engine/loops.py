"""Unbounded loops: a loop whose trip count is symbolic is cut at its header by an inductive invariant.
The invariant is the conjunction of all candidate predicates (declared by the harness with vc_candidate, plus a few
built in integer relations, each instantiated over the loop carried values) that hold on entry and are preserved by every
path through the body (Houdini).  Nothing in /repo is annotated: loop carried values are found by executing the body, so
renaming, reordering or rewriting the loop does not matter as long as some instantiation is still inductive.
Every surviving conjunct is emitted as two obligations (holds on entry, preserved by the body) and discharged again."""
import time, itertools, os
from terms import *
import terms as T
import ir, exec as X, solve
DEBUG=os.environ.get('VC_LOOPDEBUG')

class Cut:
    def __init__(self,fn,header,body,depth): self.fn=fn; self.header=header; self.body=body; self.depth=depth; self.exploring=True; self.arrivals=[]; self.nconst=self.nsym=self.nexit=self.nsize=0; self.final=None

class Stop(Exception): pass

class Infer:
    MAXARR=400
    def __init__(self,ex): self.ex=ex; self.lc={}; self.cands=[]; self.nest=0; self.sizes=[]
    # ---- control flow graph
    def loops(self,fn):
        r=self.lc.get(fn.name)
        if r is not None: return r
        blocks=list(fn.blocks); succ={b:list(dict.fromkeys(fn.blocks[b].succ)) for b in blocks}
        # reverse post order + dominators
        order=[]; seen=set(); stack=[(fn.entry,iter(succ[fn.entry]))]; seen.add(fn.entry)
        while stack:
            b,it=stack[-1]
            for s in it:
                if s not in seen: seen.add(s); stack.append((s,iter(succ[s]))); break
            else: order.append(b); stack.pop()
        order.reverse(); idx={b:i for i,b in enumerate(order)}
        pred={b:[] for b in order}
        for b in order:
            for s in succ[b]: pred[s].append(b)
        idom={fn.entry:fn.entry}; ch=True
        while ch:
            ch=False
            for b in order[1:]:
                ps=[p for p in pred[b] if p in idom]; n=ps[0]
                for p in ps[1:]:
                    a,c=p,n
                    while a!=c:
                        while idx[a]>idx[c]: a=idom[a]
                        while idx[c]>idx[a]: c=idom[c]
                    n=a
                if idom.get(b)!=n: idom[b]=n; ch=True
        def dom(a,b):
            while True:
                if a==b: return True
                if b==fn.entry: return False
                b=idom[b]
        L={}
        for b in order:
            for s in succ[b]:
                if dom(s,b):
                    body=L.setdefault(s,{s}); todo=[b]
                    while todo:
                        x=todo.pop()
                        if x in body: continue
                        body.add(x); todo+=pred[x]
        self.lc[fn.name]=L
        return L
    # ---- hooks
    def wrote(self,st,o,off): pass
    def sizeids(self): return {z.id for z in self.sizes}
    def on_branch(self,st,fr,I,c):
        d=len(st.frames)-1
        for ct in reversed(st.contracts.get('#cuts',())):
            if ct.depth==d and ct.fn is fr.fn and ct.exploring and fr.bb in ct.body and any(s not in ct.body for s in I.x[:2]):
                if c is True or c is False: ct.nconst+=1
                else:
                    ct.nsym+=1
                    if isinstance(c,tuple) and any(a in self.sizeids() for a in f_atoms(c,set())): ct.nsize+=1
                return
    def on_jump(self,st,fr,bb):
        ex=self.ex
        if not ex.opts.get('loops'): return False
        d=len(st.frames)-1
        for ct in reversed(st.contracts.get('#cuts',())):
            if ct.depth==d and ct.fn is fr.fn and fr.bb in ct.body:
                if bb==ct.header:
                    ex.rawjump(st,fr,bb); self.arrive(ct,st); raise X.PathEnd()
                if bb not in ct.body and ct.exploring: ct.nexit+=1; raise X.PathEnd()
        L=self.loops(fr.fn)
        if bb in L and fr.bb in L[bb] and st.contracts.get('#peel')==(d,fr.fn.name,bb):
            st.contracts['#peel']=None; return self.enter(st,fr,bb,L[bb])
        if bb in L and fr.bb not in L[bb]: return self.enter(st,fr,bb,L[bb])
        return False
    def arrive(self,ct,st):
        if ct.exploring:
            ct.arrivals.append(st)
            if len(ct.arrivals)>self.MAXARR: raise X.Unsupported('too many paths through a loop body')
        else:
            for nm,cand in ct.final:
                g=self.evalc(st,ct.depth,cand)
                self.ex.oblige(st,'loop invariant is preserved: '+nm,False if g is None else g,'invariant')
    # ---- analysis of one loop entry
    def enter(self,st,fr,bb,body):
        ex=self.ex; d=len(st.frames)-1
        cuts=tuple(c for c in st.contracts.get('#cuts',()) if not(c.depth>d or (c.depth==d and c.fn is fr.fn and c.header==bb)))
        st.contracts['#cuts']=cuts
        s0=st.copy(); ex.rawjump(s0,s0.frames[-1],bb)
        def explore(start):
            ct=Cut(fr.fn,bb,body,d); s=start.copy(); s.contracts=dict(s.contracts); s.contracts['#cuts']=cuts+(ct,)
            saved=(len(ex.obl),{k:list(v) for k,v in ex.covers.items()},ex.npaths); self.nest+=1
            try: ex.run(s)
            finally:
                del ex.obl[saved[0]:]; ex.covers=saved[1]; ex.npaths=saved[2]; self.nest-=1
            return ct
        # does the trip count depend on the inputs?  run a few iterations: every exit test symbolic in some iteration -> cut
        cur=[s0]; arr=[]; symbolic=False
        for it in range(8):
            nxt=[]; const=sym=size=0
            for s in cur[:4]:
                c=explore(s); const+=c.nconst; sym+=c.nsym; size+=c.nsize; nxt+=c.arrivals[:6]
            arr.append(nxt)
            if sym and (not const or (size and it>=5)): symbolic=True      # an exit test that still depends on a length after five iterations
            if DEBUG: print('  '*self.nest,'loop in',fr.fn.name[:50],'bb',bb,'it',it,'from',fr.bb,'arrivals',len(nxt),'const',const,'sym',sym)
            if ex.opts.get('loops')=='cut': symbolic=True; break
            if not nxt or (symbolic and it>=1): break
            if sym and const and (not self.sizes or it>=5): break
            cur=nxt
        if not symbolic: return False
        second=[s for l in arr[1:] for s in l]; arr=arr[0]
        changed={}
        for a in arr+second: self.diff(s0,a,d,bb,changed)
        if any(isinstance(self.get(s0,d,k),X.Inf) for k in changed):
            st.contracts['#peel']=(d,fr.fn.name,bb); return False    # run the first iteration as it is, cut after it
        for rounds in range(6):
            H,vals=self.havoc(s0,d,changed)
            cands=self.instantiate(s0,d,changed,bb)
            keep=[]
            for nm,cand in cands:
                ok=True
                for k,s in enumerate([s0]+arr[:6]+second[:6]):
                    g=self.evalc(s,d,cand)
                    if g is None or not self.valid(s,g,quick=True): ok=False; self.whydrop('entry',nm,s,g); break
                if ok: keep.append((nm,cand))
            if DEBUG: print('  '*self.nest,' cells',[(k,self.kind(v)) for k,v in changed.items()],'candidates',len(cands),'after init',len(keep))
            grew=False
            while True:
                h=H.copy(); bad=False; kk=[]
                for nm,cand in keep:
                    g=self.evalc(h,d,cand)
                    if g is None or g is False: continue
                    kk.append((nm,cand))
                    if g is not True and ex.known(h,g) is not True: ex.add_fact(h,g)
                keep=kk
                ct=explore(h)
                nch=dict(changed)
                for a in ct.arrivals: self.diff(h,a,d,bb,nch,s0)
                if len(nch)>len(changed): changed=nch; grew=True; break
                drop=set()
                for a in ct.arrivals:
                    for i,(nm,cand) in enumerate(keep):
                        if i in drop: continue
                        g=self.evalc(a,d,cand)
                        if g is None or not self.valid(a,g): drop.add(i); self.whydrop('preservation',nm,a,g)
                if DEBUG: print('  '*self.nest,' round: dropped',[keep[i][0] for i in sorted(drop)])
                if not drop: break
                keep=[c for i,c in enumerate(keep) if i not in drop]
            if grew: continue
            break
        else: raise X.Unsupported('loop frame did not stabilise')
        if DEBUG: print('  '*self.nest,' invariant',[n for n,_ in keep])
        ct=Cut(fr.fn,bb,body,d); ct.exploring=False; ct.final=keep
        for nm,cand in keep: ex.oblige(s0,'loop invariant holds on entry: '+nm,self.evalc(s0,d,cand),'invariant')
        h.contracts=dict(h.contracts); h.contracts['#cuts']=cuts+(ct,)
        if self.nest==0:
            ex.loopreport.append({'function':fr.fn.name[:120],'mode':'invariant','loop_carried':len(changed),'invariant':[n for n,_ in keep]})
        for sl in X.State.__slots__:
            setattr(st,sl,getattr(h,sl))
        return True
    def diff(self,s0,a,d,bb,out,ref=None):
        f0=s0.frames[d]; f1=a.frames[d]
        for I in f0.fn.blocks[bb].insts:
            if I.op!='phi': break
            x,y=f0.env[I.id],f1.env[I.id]
            if not same(x,y):
                k=('phi',I.id)
                if k not in out: out[k]=(y,I.ty)
                elif isinstance(out[k][0],X.Undef): out[k]=(y,I.ty)
        for o,ob in s0.mem.items():
            ob1=a.mem.get(o)
            if ob1 is None or ob1 is ob or ob1.dead or ob.dead: continue
            for off in set(ob.cells)|set(ob1.cells):
                x=ob.cells.get(off); y=ob1.cells.get(off)
                if y is None: raise X.Unsupported('loop changes the layout of memory')
                if x is not None and x[0]!=y[0] : 
                    raise X.Unsupported('loop changes the layout of memory')
                if x is None or not same(x[1],y[1]):
                    k=('mem',o,off)
                    if k not in out or isinstance(out[k][0],X.Undef): out[k]=(y[1],y[0])
    def kind(self,vt):
        v,t=vt
        if isinstance(t,ir.Ty if hasattr(ir,'Ty') else object) and hasattr(t,'k'):
            if t.k=='float': return 'd'
            if t.k=='int': return 'b' if t.w==1 else 'i'
            return 'i' if isinstance(v,X.Ptr) else 'p'
        if isinstance(v,(X.R,X.AbsV,X.Inf)) : return 'd'
        if isinstance(v,(bool,tuple)): return 'b'
        if isinstance(v,(int,X.IV)): return 'i'
        if isinstance(v,X.IteV): return self.kind((v.a,None))
        if isinstance(v,X.Ptr): return 'i' 
        return 'p'
    def havoc(self,s0,d,changed):
        h=s0.copy(); vals={}
        for k,(v,t) in changed.items():
            kd=self.kind((v,t))
            if kd=='d': nv=ratom(new_atom('loop','R','in'))
            elif kd=='b': nv=('bv',new_atom('loopb','B','in').id)
            elif kd=='i' and isinstance(v,X.Ptr):
                g=s0.mem[v.o].gen if v.o in s0.mem else None
                x0=self.get(s0,d,k)
                if g is None or x0 is None: raise X.Unsupported('loop carried pointer')
                p0=s0.frames[d].env[k[1]] if k[0]=='phi' else s0.mem[k[1]].cells[k[2]][1]
                if p0.o!=v.o: raise X.Unsupported('loop carried pointer')
                nv=X.Ptr(v.o,pscale(P_atom(new_atom('loopp','I','in',None,-(1<<41),1<<41)),8*g[1]))
            elif kd=='i':
                w=t.w if hasattr(t,'k') else 8*t
                lo,hi=-(1<<(w-1)),(1<<(w-1))-1
                nv=X.IV(P_atom(new_atom('loop','I','in',None,lo,hi)))
            else: raise X.Unsupported('loop carried value that is not a number: %r'%(v,))
            vals[k]=nv
            if k[0]=='phi': h.frames[d].env[k[1]]=nv
            else:
                o=self.ex.wobj(h,k[1]); o.cells[k[2]]=(t,nv)
        return h,vals
    def outer(self,s0,d,bb):
        """integers carried by the loops around this one (fixed while it runs)"""
        out=[]; seen=set()
        for e in range(d+1):
            fr=s0.frames[e]; at=bb if e==d else fr.bb
            for h,body in self.loops(fr.fn).items():
                if at not in body or (e==d and h==bb): continue
                for I in fr.fn.blocks[h].insts:
                    if I.op!='phi': break
                    v=fr.env.get(I.id)
                    if isinstance(v,bool) or not isinstance(v,(int,X.IV)): continue
                    v=v if isinstance(v,X.IV) else X.IV(P_const(v))
                    if v.p in seen: continue
                    seen.add(v.p); out.append(('const',v))
        return out[:6]
    def get(self,st,d,key):
        if key[0]=='const': return key[1]
        if key[0]=='phi': v=st.frames[d].env[key[1]]
        else:
            c=st.mem[key[1]].cells.get(key[2])
            if c is None: return None
            v=c[1]
        if isinstance(v,X.Ptr):
            g=st.mem.get(v.o) and st.mem[v.o].gen
            if g is None: return None
            p=v.off if isinstance(v.off,Poly) else P_const(v.off)
            q={m:c for m,c in p.t.items()}
            if any(c%(8*g[1]) for c in q.values()): return None
            return X.IV(pscale(p,Fraction(1,8*g[1])))
        return v
    # ---- candidates
    def instantiate(self,s0,d,changed,bb):
        out=[]; by={'i':[],'d':[],'b':[],'p':[]}
        for k,vt in changed.items(): by[self.kind(vt)].append(k)
        ints=[] if self.ex.opts.get('candidates')=='declared' else by['i']; few=len(ints)>14; v0={k:self.get(s0,d,k) for k in changed}
        nm={k:'%s%d'%({'i':'n','d':'x','b':'f','p':'p'}[self.kind(changed[k])],i) for i,k in enumerate(changed)}
        for k in ints:
            p0=self.poly(v0[k])
            if p0 is not None:
                out.append(('%s>=start'%nm[k],('le',p0,k))); out.append(('%s<=start'%nm[k],('ge',p0,k)))
            for z in self.sizes: out.append(('%s<=N'%nm[k],('ge',P_atom(z),k))); out.append(('%s<N'%nm[k],('ge',psub(P_atom(z),P_const(1)),k)))
            out.append(('%s>=0'%nm[k],('le',P_const(0),k))); out.append(('%s<=1'%nm[k],('ge',P_const(1),k)))
        for a,b in (() if few else itertools.combinations(ints,2)):      # many integers carried: only the declared candidates relate them
            pa,pb=self.poly(v0[a]),self.poly(v0[b])
            out.append(('%s<=%s'%(nm[a],nm[b]),('lek',a,b))); out.append(('%s<=%s'%(nm[b],nm[a]),('lek',b,a)))
            for c in (-1,0,1):
                out.append(('%s==%s%+d'%(nm[a],nm[b],c),('difk',a,b,P_const(c))))
            if pa is not None and pb is not None:
                df=psub(pa,pb)
                if not df.is_const() or abs(df.const())>1: out.append(('%s-%s==start'%(nm[a],nm[b]),('difk',a,b,df)))
                out.append(('%s+%s==start'%(nm[a],nm[b]),('sumk',a,b,padd(pa,pb))))
            for z in self.sizes:
                for u,v in ((a,b),(b,a)): out.append(('%s follows %s cyclically'%(nm[u],nm[v]),('cyc',u,v,z))); out.append(('%s follows %s cyclically until the end'%(nm[u],nm[v]),('cyce',u,v,z)))
        gens={o.gen[0]:o.gen for o in s0.mem.values() if o.gen is not None}
        for gk,g in (() if few else gens.items()):
            for x in by['d']:
                for i in ints:
                    for c in (-1,0,1):
                        for comp in range(g[1]): out.append(('%s==%s[%s%+d].%d'%(nm[x],gk.split('#')[0],nm[i],c,comp),('elt',x,i,c,comp,g)))
        for x in by['d'] if ints else (): out.append(('%s>=0'%nm[x],('rnn',x)))
        for a,b in itertools.combinations(by['d'],2) if ints else (): out.append(('%s==%s'%(nm[a],nm[b]),('req',a,b)))
        if any('o' in sig for _,_,sig in self.cands):
            by['o']=self.outer(s0,d,bb)
            for i,k in enumerate(by['o']): nm[k]='outer%d'%i
        for name,fn,sig in self.cands:
            pools=[by[c] for c in sig]
            for tup in itertools.product(*pools):
                if len(set(tup))<len(tup): continue
                out.append(('%s(%s)'%(name,','.join(nm[k] for k in tup)),('fn',fn,tup,sig)))
                if len(out)>6000: raise X.Unsupported('too many invariant candidates')
        return out
    def poly(self,v):
        if isinstance(v,bool): return P_const(int(v))
        if isinstance(v,int): return P_const(v)
        if isinstance(v,X.IV): return v.p
        return None
    def evalc(self,st,d,c):
        try: return self.evalc_(st,d,c)
        except X.ForkReq: return None
    def mapv(self,v,f):
        if isinstance(v,X.IteV):
            a=self.mapv(v.a,f); b=self.mapv(v.b,f)
            return None if a is None or b is None else f_ite(v.c,a,b)
        p=self.poly(v)
        return None if p is None else f(p)
    def evalc_(self,st,d,c):
        g=lambda k: self.get(st,d,k)
        if c[0]=='le': return self.mapv(g(c[2]),lambda p:f_le(psub(c[1],p)))
        if c[0]=='ge': return self.mapv(g(c[2]),lambda p:f_le(psub(p,c[1])))
        if c[0]=='lek': return self.mapv(g(c[1]),lambda p:self.mapv(g(c[2]),lambda q:f_le(psub(p,q))))
        if c[0]=='difk': return self.mapv(g(c[1]),lambda p:self.mapv(g(c[2]),lambda q:f_eq(psub(psub(p,q),c[3]))))
        if c[0]=='sumk': return self.mapv(g(c[1]),lambda p:self.mapv(g(c[2]),lambda q:f_eq(psub(padd(p,q),c[3]))))
        if c[0]=='cyc': return self.mapv(g(c[1]),lambda p:self.mapv(g(c[2]),lambda q:f_or(f_eq(psub(psub(p,q),P_const(1))),f_and(f_eq(p),f_eq(psub(psub(P_atom(c[3]),q),P_const(1)))))))
        if c[0]=='cyce':
            g2=self.mapv(g(c[2]),lambda q:f_eq(psub(P_atom(c[3]),q))); g1=self.evalc_(st,d,('cyc',)+c[1:]); return None if g1 is None or g2 is None else f_or(g2,g1)
        if c[0]=='elt':
            x=g(c[1])
            if not isinstance(x,X.R): return None
            return self.mapv(g(c[2]),lambda p:f_eq(rsub(x,self.ex.genat(c[5],padd(p,P_const(c[3])),c[4])).n))
        if c[0]=='rnn':
            x=g(c[1])
            if not isinstance(x,X.R): return None
            return f_le(pscale(pmul(x.n,x.d),-1) if x.d is not ONE else pscale(x.n,-1))
        if c[0]=='req':
            a,b=g(c[1]),g(c[2])
            if not(isinstance(a,X.R) and isinstance(b,X.R)): return None
            return f_eq(rsub(a,b).n)
        vals=[]
        for k,s in zip(c[2],c[3]):
            v=g(k)
            if v is None or isinstance(v,X.Undef): return None
            if s=='b': v=self.ex.bool1(st,v)
            elif s=='i' and isinstance(v,bool): v=int(v)
            elif s=='d' and not isinstance(v,(X.R,X.AbsV,X.IteV)): return None
            vals.append(v)
        return self.call(st,c[1],vals)
    def call(self,st,fname,vals,value=False):
        ex=self.ex; fn=ex.m.function(fname); base=st.copy(); base.frames=[]; base.contracts={k:v for k,v in base.contracts.items() if k!='#cuts'}
        ex.push(base,fn,vals,None); n0=len(base.pc); pc0=list(base.pc)
        res=[]; work=[base]; opt=ex.opts.get('loops'); ex.opts['loops']=None
        saved=len(ex.obl)
        try:
            while work:
                s=work.pop()
                try:
                    while s.frames: ex.step(s)
                    if value: res.append((f_and(*s.pc[n0:]) if s.pc[n0:] else True,ex.absforce(s,ex.fl(s,s.retval))))
                    else: res.append(f_and(*(s.pc[n0:]+[ex.bool1(s,s.retval)])))
                except X.ForkReq as e:
                    f=e.f; a,b=ex.feas.both(s,f)
                    if a and b:
                        t=s.copy(); ex.add_fact(s,f); ex.add_fact(t,f_not(f)); ex.settle(s,f,True); ex.settle(t,f,False); work+=[t,s]
                    elif a: ex.add_fact(s,f); ex.settle(s,f,True); work.append(s)
                    elif b: ex.add_fact(s,f_not(f)); ex.settle(s,f,False); work.append(s)
                except X.PathEnd: pass
                if len(res)>40: return None
        finally: ex.opts['loops']=opt; del ex.obl[saved:]
        if value: return res
        return f_or(*res) if res else False
    def whydrop(self,what,nm,st,g):
        if not os.environ.get('VC_DROPDEBUG') or not nm.startswith(os.environ['VC_DROPDEBUG']): return
        print('DROP',what,nm,'goal',T.fstr(g) if g is not None else None)
        for f in st.pc: print('    ',T.fstr(f)[:300])
        for f in solve.closure(list(st.pc)+([g] if g is not None else []),self.ex)[1]: print('   D ',T.fstr(f)[:300])
    def valid(self,st,g,quick=False):
        ex=self.ex
        if g is True: return True
        k=ex.known(st,g)
        if k is not None: return k
        if g is False:
            return False
        if ex.deadline and time.time()>ex.deadline: raise X.Unsupported('time budget of the VC generator exhausted')
        neg=f_not(g)
        rel=solve.cone(list(st.pc)+[neg],neg,True)
        key=('valid',frozenset(rel)); r=ex.memo.get(key)
        if r is not None: return r
        r=False; f=ex.opts.get('slow',1)
        try:
            if solve.linear_unsat(rel,ex,400*f): r=True
            else:
                q,_=solve.inproc(rel,ex,(400 if quick else 1500)*f,'z3')
                if q=='unsat': r=True
                elif q!='sat':
                    q,_=solve.inproc(rel,ex,(400 if quick else 2500)*f,'nlsat')
                    if q=='unsat': r=True
                    elif quick and q!='sat': r=True   # undecided now: keep the candidate, entry and preservation are proved as obligations
        except Exception as e:
            if isinstance(e,X.Unsupported): raise
            r=False
        ex.memo[key]=r
        return r
def same(x,y):
    if x is y: return True
    if type(x) is not type(y): return False
    try: return bool(x==y)
    except Exception: return False

def run(ex,main):
    ex.loopmode=Infer(ex)
    ex.loopreport=[]
    st=ex.start(main)
    ex.run(st)
