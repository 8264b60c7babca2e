"""Query construction and the solver portfolio."""
import subprocess, time, os, z3, tempfile, re
from terms import *
import terms as T
from fractions import Fraction

def closure(fs,ex=None):
    """atoms of fs, their definitional constraints, transitively; + congruence of uninterpreted applications"""
    seen=set(); todo=set(); out=[]; outs=set()
    for f in fs: f_atoms(f,todo)
    while True:
        new=todo-seen
        if not new: 
            # congruence
            add=[]
            if ex is not None:
                groups={}
                for a in seen:
                    A=ATOMS[a]
                    if A.kind=='uf': groups.setdefault((A.data[0],len(A.data[1])),[]).append(A)
                for g in groups.values():
                    g.sort(key=lambda A:A.id)
                    if len(g)>24: continue
                    for i in range(len(g)):
                        if len(g[i].data)>2:       # recursive definition: next application
                            for j in range(len(g)):
                                if i==j: continue
                                x=g[i].data[1][0]; y=g[j].data[1][0]
                                c=f_eq(psub(rsub(y,x).n,P_const(1)))
                                if c is False: continue
                                imp=f_or(f_not(c),f_lt(x.n),f_and(*[f_or(f_not(q),f_eq(rsub(P_R(g[j]),w).n)) for q,w in g[i].data[2]]))
                                if imp is not True and imp not in outs: outs.add(imp); add.append(imp)
                        for j in range(i):
                            eqs=[]
                            for x,y in zip(g[i].data[1],g[j].data[1]):
                                eqs.append(f_eq(rsub(x,y).n))
                            c=f_and(*eqs)
                            if c is False: continue
                            imp=f_or(f_not(c),f_eq(psub(P_atom(g[i]),P_atom(g[j]))))
                            if imp is not True and imp not in outs: outs.add(imp); add.append(imp)
            if not add: return seen,out
            out+=add
            for f in add: f_atoms(f,todo)
            if not (todo-seen): return seen,out
            continue
        for a in new:
            seen.add(a); A=ATOMS[a]
            ds=list(A.defs)
            if A.lo is not None and A.lo!=-math_inf: ds.append(('le',psub(P_const(A.lo),P_atom(A))))
            if A.hi is not None and A.hi!=math_inf: ds.append(('le',psub(P_atom(A),P_const(A.hi))))
            for d in ds:
                if d is True or d in outs: continue
                outs.add(d); out.append(d); f_atoms(d,todo)
math_inf=float('inf')
def P_R(a): return T.ratom(a)

_zc={}
def z_atom(a):
    r=_zc.get(a)
    if r is None:
        A=ATOMS[a]; r=_zc[a]={'R':z3.Real,'I':z3.Int,'B':z3.Bool}[A.sort](A.name)
    return r
def z_poly(p,asint):
    s=None
    for m,c in p.t.items():
        if asint: v=z3.IntVal(int(c))
        else: v=z3.RealVal(c) if not isinstance(c,Fraction) else z3.Q(c.numerator,c.denominator)
        t=None
        for a,e in m:
            x=z_atom(a)
            if ATOMS[a].sort=='I' and not asint: x=z3.ToReal(x)
            for _ in range(e): t=x if t is None else t*x
        t=v if t is None else (t if c==1 else v*t)
        s=t if s is None else s+t
    return s if s is not None else (z3.IntVal(0) if asint else z3.RealVal(0))
_zf={}
def z_f(f):
    if f is True or f is False: return z3.BoolVal(f)
    r=_zf.get(f)
    if r is not None: return r
    k=f[0]
    if k in('lt','le','eq'):
        p=f[1]; ii=p_isint(p); e=z_poly(p,ii); 
        r=e<0 if k=='lt' else e<=0 if k=='le' else e==0
    elif k=='bv': r=z_atom(f[1])
    elif k=='not': r=z3.Not(z_f(f[1]))
    elif k=='and': r=z3.And(*[z_f(g) for g in f[1]])
    else: r=z3.Or(*[z_f(g) for g in f[1]])
    _zf[f]=r
    return r

def maxdeg(fs):
    d=0
    for f in fs:
        if f is True or f is False or f[0]=='bv': continue
        if f[0] in('lt','le','eq'): d=max(d,f[1].deg())
        elif f[0]=='not': d=max(d,maxdeg([f[1]]))
        else: d=max(d,maxdeg(f[1]))
    return d
class Feas:
    """path feasibility: cheap and one sided (unknown counts as feasible)"""
    def __init__(self,ex=None,rlimit=300000,ms=250): self.rl=rlimit; self.ms=ms; self.ex=ex; self.n=0; self.t=0; self.cache={}; self.ints={}
    def check(self,st,f):
        fs=st.pc+[f]
        key=frozenset(fs)
        if key in self.cache: return self.cache[key]
        # relevant cone only
        t0=time.time(); self.n+=1
        if self.allint(f):                       # index arithmetic: try with the facts about integers alone first
            ints=[g for g in fs if self.allint(g)]
            if len(ints)<len(fs):
                _,d=closure(ints,None); s=z3.Solver(); s.set('timeout',100)
                for g in ints+list(d): s.add(z_f(g))
                if s.check()==z3.unsat: self.t+=time.time()-t0; self.cache[key]=False; return False
        rel=cone(fs,f)
        _,d=closure(rel,None)
        s=z3.SolverFor('QF_NRA') if False else z3.Solver()
        s.set('timeout',self.ms); s.set('rlimit',self.rl)
        s.add(*[z_f(g) for g in rel],*[z_f(g) for g in d])
        r=s.check()!=z3.unsat
        self.t+=time.time()-t0
        self.cache[key]=r
        return r
    def allint(self,f):
        r=self.ints.get(f)
        if r is None:
            a=f_atoms(f,set()); r=self.ints[f]=bool(a) and all(ATOMS[x].sort=='I' and not ATOMS[x].kind=='uf' for x in a)
        return r
    def sat(self,st,f):
        if f is False: return False
        return self.check(st,f)
    def both(self,st,f):
        a=self.check(st,f)
        if not a: return False,True
        return True,self.check(st,f_not(f))
def cone(fs,goal,uf=False):
    """facts connected to goal through shared atoms (sound for unsat; used for pruning); uf: also through applications of the same function"""
    at=f_atoms(goal,set()); 
    cl=set(at)
    grow=True; infos=[(f,expand(f)) for f in fs]; used=[False]*len(fs)
    if uf:
        nm=lambda a: a|{ATOMS[x].data[0] for x in a if ATOMS[x].kind=='uf'}
        infos=[(f,nm(a)) for f,a in infos]; cl=nm(cl|expand(goal))
    while grow:
        grow=False
        for i,(f,a) in enumerate(infos):
            if not used[i] and (a&cl or not a):
                used[i]=True
                if not a<=cl: cl|=a; grow=True
    return [f for f,u in zip(fs,used) if u]
_exp={}
def expand(f):
    r=_exp.get(f)
    if r is None:
        r=f_atoms(f,set())
        _,ds=closure([f])
        for d in ds: f_atoms(d,r)
        todo=list(r)
        while todo:                      # arguments of uninterpreted applications
            A=ATOMS[todo.pop()]
            if A.kind=='uf':
                if len(A.data)>2:            # conditions of the next application of a fold
                    for g,w in A.data[2]:
                        for a in f_atoms(g,set()):
                            if a not in r: r.add(a); todo.append(a)
                for x in A.data[1]:
                    for m in list(x.n.t)+list(x.d.t):
                        for a,_ in m:
                            if a not in r: r.add(a); todo.append(a)
        _exp[f]=r
    return r

def smt2(fs,logic,getmodel=False,ex=None):
    atoms,defs=closure(fs,ex)
    o=[]
    if logic: o.append("(set-logic %s)"%logic)
    o.append(smt_decls(atoms))
    for f in list(fs)+defs: o.append("(assert %s)"%smt_f(f))
    o.append("(check-sat)")
    if getmodel:
        o.append("(get-model)")
    return "\n".join(o),atoms

def has_int(fs,ex):
    atoms,defs=closure(fs,ex)
    return any(ATOMS[a].sort=='I' for a in atoms)
Z3NEW=None
def z3bin():
    global Z3NEW
    if Z3NEW is None:
        import shutil
        Z3NEW=shutil.which('z3-new') or shutil.which('z3')
    return Z3NEW
def cvc5bin():
    import shutil
    return shutil.which('cvc5')
def run_cli(cmd,text,t):
    with tempfile.NamedTemporaryFile('w',suffix='.smt2',dir=os.environ.get('VC_TMP'),delete=False) as f:
        f.write(text); n=f.name
    try:
        try:
            p=subprocess.run(cmd+[n],capture_output=True,text=True,timeout=t+2)
            return p.stdout
        except subprocess.TimeoutExpired:
            return 'timeout'
    finally:
        os.unlink(n)
_lm={}; _lf={}
def lin_f(f):
    """f with every nonlinear monomial replaced by a fresh real (a weakening: unsat here means unsat); with the squares in it"""
    r=_lf.get(f)
    if r is not None: return r
    if f is True or f is False: return z3.BoolVal(f),()
    k=f[0]; ev=()
    if k in('lt','le','eq'):
        ts=[]; ev=[]
        for m,c in f[1].t.items():
            v=z3.Q(c.numerator,c.denominator) if isinstance(c,Fraction) else z3.RealVal(c)
            if not m: ts.append(v); continue
            x=_lm.get(m)
            if x is None: x=_lm[m]=z3.Real('m!%d'%len(_lm))
            if all(e%2==0 for a,e in m): ev.append(x)
            ts.append(x if c==1 else v*x)
        e=z3.Sum(ts) if len(ts)>1 else ts[0] if ts else z3.RealVal(0)
        r=e<0 if k=='lt' else e<=0 if k=='le' else e==0
    elif k=='bv': r=z_atom(f[1])
    elif k=='not': r,ev=lin_f(f[1]); r=z3.Not(r)
    else:
        xs=[lin_f(g) for g in f[1]]; ev=[y for _,e in xs for y in e]; r=(z3.And if k=='and' else z3.Or)(*[x for x,_ in xs])
    _lf[f]=r,tuple(ev)
    return _lf[f]
def linear_unsat(fs,ex,ms):
    _,defs=closure(fs,ex); s=z3.SimpleSolver(); s.set('timeout',int(ms)); xs=[]; ev={}
    for g in list(fs)+defs:
        e,q=lin_f(g); xs.append(e)
        for x in q: ev[x.get_id()]=x
    s.add(*xs,*[x>=0 for x in ev.values()])
    return s.check()==z3.unsat
def inproc(fs,ex,ms,tac):
    _,defs=closure(fs,ex)
    if tac=='nlsat': s=z3.Then('simplify','propagate-values','solve-eqs','simplify','purify-arith','qfnra-nlsat').solver()
    elif tac=='nlsat0': s=z3.Then('simplify','propagate-values','qfnra-nlsat').solver()
    elif tac=='qfnra': s=z3.SolverFor('QF_NRA')
    else: s=z3.Solver()
    s.set('timeout',int(ms))
    s.add(*[z_f(g) for g in fs],*[z_f(g) for g in defs])
    r=s.check()
    if r==z3.unsat: return 'unsat',None
    if r==z3.sat:
        m=s.model(); return 'sat',m
    return 'unknown',None
def model_values(m,inputs):
    vals=[]
    for kind,n,a in inputs:
        v=m.eval(z_atom(a),model_completion=True)
        if kind=='bool': vals.append(1.0 if z3.is_true(v) else 0.0); continue
        if z3.is_algebraic_value(v): v=v.approx(20)
        try: vals.append(float(Fraction(v.numerator_as_long(),v.denominator_as_long())) if not z3.is_int_value(v) else float(v.as_long()))
        except Exception:
            try: vals.append(float(v.as_decimal(17).rstrip('?')))
            except Exception: vals.append(0.0)
    return vals
def parse_model(out,inputs):
    vals=[]
    for kind,n,a in inputs:
        nm=ATOMS[a].name
        m=re.search(r'\(define-fun \|?%s\|? \(\) (?:Real|Int|Bool)\s+(.*?)\)\s*(?=\(define-fun|\)\s*$)'%re.escape(nm),out,re.S)
        v=0.0
        if m:
            t=m.group(1).strip()
            try: v=sx(t)
            except Exception: v=0.0
        vals.append(v)
    return vals
def sx(t):
    t=t.strip()
    if t in('true','false'): return 1.0 if t=='true' else 0.0
    toks=re.findall(r'[()]|[^\s()]+',t)
    def p(i):
        if toks[i]=='(':
            op=toks[i+1]; i+=2; a=[]
            while toks[i]!=')':
                v,i=p(i); a.append(v)
            if op=='-': return (-a[0] if len(a)==1 else a[0]-a[1]),i+1
            if op=='/': return a[0]/a[1],i+1
            raise ValueError
        return Fraction(toks[i]),i+1
    return float(p(0)[0])

def int_facts(fs,limit=80):
    """equalities between integers that are decided by the linear integer facts alone"""
    def eqs(f,o):
        if f is True or f is False: return
        if f[0]=='eq':
            if all(ATOMS[a].sort=='I' for a in f[1].atoms()) and all(len(m)==0 or (len(m)==1 and m[0][1]==1) for m in f[1].t): o[f]=1
        elif f[0]=='not': eqs(f[1],o)
        elif f[0] in('and','or'):
            for g in f[1]: eqs(g,o)
    o={}
    for f in fs: eqs(f,o)
    lin=[f for f in fs if f is not True and f is not False and all(ATOMS[a].sort=='I' for a in f_atoms(f,set())) and maxdeg([f])<=1]
    known=set(lin); out=[]; s=z3.SimpleSolver(); s.set('timeout',200); s.add(*[z_f(f) for f in lin])
    for f in list(o)[:limit]:
        if f in known or f_not(f) in known: continue
        for g in (f,f_not(f)):
            s.push(); s.add(z_f(f_not(g))); r=s.check(); s.pop()
            if r==z3.unsat: out.append(g); break
    return out
def same_roots(fs):
    """roots of equal radicands are equal"""
    d={}; out=[]
    for f in fs:
        if f is True or f is False or f[0]!='eq': continue
        sq=[(m,c) for m,c in f[1].t.items() if len(m)==1 and m[0][1]==2 and ATOMS[m[0][0]].kind=='sqrt']
        for m,c in sq:
            a=m[0][0]
            if any(x[0]==a for n in f[1].t if n!=m for x in n): continue
            k=pscale(Poly({n:v for n,v in f[1].t.items() if n!=m}),Fraction(-1)/Fraction(c))
            if k in d and d[k]!=a: out.append(f_eq(psub(P_R(a) if False else Poly({((a,1),):1}),Poly({((d[k],1),):1}))))
            else: d[k]=a
    return out
def elim_proof(rel,ex,budget,deep=False):
    """eliminate equalities, then ask the solvers for unsat of what is left (never for a model)"""
    _,defs=closure(rel,ex)
    if deep:
        fs=list(rel)+defs; new=int_facts(fs)
        fs=eliminate(fs+new)
        for _ in range(4):
            r=same_roots(fs) if fs!=[False] else []
            if not r: break
            new=new+r; fs=eliminate(fs+r)
        if not new: return None
    else: fs=eliminate(list(rel)+defs)
    if fs==[False]: return 'normaliser'
    if len(fs)>400: return None
    def ask(g,ms):
        nl=maxdeg(g)>1
        if nl:
            s=z3.SimpleSolver(); s.set('timeout',1000)
            s.add(*[lin_f(x)[0] for x in g])
            if s.check()==z3.unsat: return 'z3/linear'
        for tac in (('nlsat','z3') if nl and not any(ATOMS[a].sort!='R' for x in g for a in f_atoms(x,set())) else ('z3',)):
            s=z3.Then('simplify','propagate-values','solve-eqs','simplify','purify-arith','qfnra-nlsat').solver() if tac=='nlsat' else z3.Solver()
            s.set('timeout',ms)
            for x in g: s.add(z_f(x))
            if s.check()==z3.unsat: return 'z3/'+tac
        return None
    # independent components
    real=[f for f in fs if all(ATOMS[a].sort!='I' for a in f_atoms(f,set()))]
    if len(real)<len(fs) and real:
        v=ask(real,1500)
        if v: return v
    return ask(fs,1500)
def discharge(ob,ex,budget):
    """returns (verdict, backend, seconds, inputs or None)"""
    t0=time.time()
    g=f_not(ob.goal)
    if g is False: return 'valid','normaliser',0.0,None
    fs=list(ob.pc)
    if g is not True: fs.append(g)
    # 1. cone of the goal, fast
    if g is not True:
        rel=cone(fs,g)
    else: rel=fs
    ints=has_int(rel,ex)
    nl=maxdeg(rel+closure(rel,ex)[1])>1
    plan=[]
    if not nl or ints:
        plan=[('z3',2000),('z3',int(budget*400)),('cvc5',int(budget*600))]
    else:
        plan=[('nlsat',1000),('z3',1000),('nlsat',int(budget*250)),('cvc5',int(budget*250)),('qfnra',int(budget*250)),('nlsat0',int(budget*250))]
    if nl:
        try:
            if linear_unsat(rel,ex,1500): return 'valid','z3/linear',time.time()-t0,None
        except z3.Z3Exception: pass
    if ints or nl:
        v=None
        for deep in ((False,True) if ints and nl else (False,)):
            try: v=elim_proof(rel,ex,budget,deep)
            except z3.Z3Exception: v=None
            if v: break
        if v: return 'valid',v,time.time()-t0,None
    for tac,ms in plan:
        if tac=='cvc5':
            txt,at=smt2(rel,'QF_UFNIRA' if False else 'ALL',True,ex)
            out=run_cli([cvc5bin(),'--produce-models','--nl-cov','--tlimit=%d'%ms] if nl and not ints else [cvc5bin(),'--produce-models','--tlimit=%d'%ms],txt,ms/1000)
            h=out.strip().split('\n')[0] if out.strip() else ''
            if h=='unsat': return 'valid','cvc5',time.time()-t0,None
            if h=='sat': return 'invalid','cvc5',time.time()-t0,parse_model(out,ob.inputs)
            continue
        try: r,m=inproc(rel,ex,ms,tac)
        except z3.Z3Exception as e: r,m='unknown',None
        if r=='unsat': return 'valid','z3/'+tac,time.time()-t0,None
        if r=='sat':
            # full model incl. facts outside the cone
            if len(rel)!=len(fs):
                try:
                    r2,m2=inproc(fs,ex,ms,tac)
                    if r2=='unsat': return 'valid','z3/'+tac,time.time()-t0,None
                    if r2=='sat': m=m2
                except z3.Z3Exception: pass
            return 'invalid','z3/'+tac,time.time()-t0,model_values(m,ob.inputs)
    return 'unknown','portfolio',time.time()-t0,None

# ---- elimination of equalities before the solvers (sound: every step replaces equals by equals or drops implied parts)
def psubst(p,aid,q):
    rest={}; out=None; pw=[T.ONE]
    for m,c in p.t.items():
        e=0
        for a,k in m:
            if a==aid: e=k
        if not e: rest[m]=c; continue
        while len(pw)<=e: pw.append(pmul(pw[-1],q))
        t=pmul(Poly({tuple(x for x in m if x[0]!=aid):c}),pw[e])
        out=t if out is None else padd(out,t)
    return p if out is None else padd(Poly(rest),out)
def fsubst(f,aid,q,memo):
    if f is True or f is False: return f
    r=memo.get(f)
    if r is not None: return r
    k=f[0]
    if k in('lt','le','eq'):
        if aid in f[1].atoms():
            p=psubst(f[1],aid,q); r=f_lt(p) if k=='lt' else f_le(p) if k=='le' else f_eq(p)
        else: r=f
    elif k=='bv': r=f
    elif k=='not': r=f_not(fsubst(f[1],aid,q,memo))
    elif k=='and': r=f_and(*[fsubst(g,aid,q,memo) for g in f[1]])
    else: r=f_or(*[fsubst(g,aid,q,memo) for g in f[1]])
    memo[f]=r
    return r
def units(f,known):
    """simplify a clause under the known literals"""
    if f is True or f is False: return f
    if f[0]=='or':
        o=[]
        for g in f[1]:
            g=units(g,known)
            if g is True: return True
            if g is False: continue
            o.append(g)
        return f_or(*o)
    if f[0]=='and': return f_and(*[units(g,known) for g in f[1]])
    if f in known: return True
    if f_not(f) in known or f_not_shallow(f) in known: return False
    if f[0]=='eq':
        n=pscale(f[1],-1)
        if ('lt',f[1]) in known or ('lt',n) in known: return False
        if ('le',f[1]) in known and ('le',n) in known: return True
    if f[0]=='le' and ('lt',f[1]) in known: return True
    if f[0]=='le' and ('eq',pnorm(f[1])[0]) in known: return True
    if f[0]=='lt' and ('eq',pnorm(f[1])[0]) in known: return False
    return f
def eliminate(fs,maxsteps=60,maxterms=300):
    out=[]; todo=list(fs); steps=0; done=set()
    facts=set()
    def add(f,s):
        if f is True: return True
        if f is False: return False
        for g in (f[1] if f[0]=='and' else (f,)):
            s.add(g)
        return True
    for f in fs:
        if not add(f,facts): return [False]
    while steps<maxsteps:
        # clause simplification
        for _ in range(4):
            lits={f for f in facts if f[0]!='or'}
            pairs={f for f in lits if f[0]=='le' and ('le',pscale(f[1],-1)) in lits}
            new=set(); ch=False
            for f in facts:
                if f[0]=='or':
                    g=units(f,lits)
                    if g!=f: ch=True
                    if not add(g,new): return [False]
                else: new.add(f)
            for f in pairs:
                e=f_eq(f[1])
                if e is False: return [False]
                if e is not True and e not in new: new.add(e); ch=True
                new.discard(f)
            facts=new
            for f in facts:
                if f[0]!='or' and (f_not_shallow(f) in facts): return [False]
            if not ch: break
        # pick an equality
        best=None
        for f in facts:
            if f[0]!='eq' or f in done: continue
            p=f[1]; at={}
            for m in p.t:
                for a,e in m: at[a]=at.get(a,0)+1
            isint=p_isint(p)
            for m,c in p.t.items():
                if len(m)!=1 or m[0][1]!=1 or at[m[0][0]]!=1: continue
                A=ATOMS[m[0][0]]
                if A.sort=='B': continue
                if A.sort=='I' and (not isint or abs(c)!=1 or any(Fraction(x).denominator!=1 for x in p.t.values())): continue
                if A.defs and A.kind not in('uf',): pref=2
                else: pref=0 if A.kind=='in' else 1
                sc=(0 if A.sort=='I' else 1,len(p.t),pref,-A.id)
                if best is None or sc<best[0]: best=(sc,f,A,c,m)
        if best is None: break
        _,f,A,c,m=best; done.add(f)
        q=pscale(Poly({k:v for k,v in f[1].t.items() if k!=m}),Fraction(-1)/Fraction(c))
        memo={}; new=set(); ok=True
        for g in facts:
            if g==f: continue
            h=fsubst(g,A.id,q,memo)
            if not add(h,new): return [False]
        if sum(len(x[1].t) for x in new if x[0] in('lt','le','eq'))>6000: break
        # range of an eliminated atom
        for lim,sg in ((A.lo,1),(A.hi,-1)):
            if lim is not None and lim not in(math_inf,-math_inf):
                h=f_le(pscale(psub(P_const(lim),q),sg))
                if not add(h,new): return [False]
        facts=new; steps+=1
    return list(facts)
def reachable(pc,ex,ms=1500):
    """is the conjunction satisfiable (used for the non-vacuity checks): eliminate equalities, then component by component"""
    _,defs=closure(pc,ex)
    fs=eliminate(list(pc)+defs)
    if fs==[False]: return 'unsat'
    comp={}
    def find(a):
        while comp.get(a,a)!=a: a=comp[a]
        return a
    at={}
    for f in fs:
        s=list(f_atoms(f,set())); at[f]=s
        for a in s: comp.setdefault(a,a)
        for a in s[1:]: comp[find(a)]=find(s[0])
    groups={}
    for f in fs: groups.setdefault(find(at[f][0]) if at[f] else None,[]).append(f)
    for g in groups.values():
        ok=False
        tacs=('nlsat','z3') if all(ATOMS[a].sort=='R' for f in g for a in at[f]) else ('z3','nlsat')
        for tac in tacs:
            s=z3.Then('simplify','propagate-values','solve-eqs','simplify','purify-arith','qfnra-nlsat').solver() if tac=='nlsat' else z3.Solver()
            s.set('timeout',ms)
            for x in g: s.add(z_f(x))
            r=s.check()
            if r==z3.sat: ok=True; break
            if r==z3.unsat: return 'unsat'
        if not ok: return 'unknown'
    return 'sat'
