"""Terms: exact rational functions over atoms (reals / mathematical integers), and formulas over their signs."""
from fractions import Fraction
import itertools, math

class Atom:
    __slots__=('id','name','sort','kind','data','lo','hi','defs')
    # kind: 'in' (harness input), 'sqrt','uf','trunc','floor','undef','havoc','ite'
ATOMS=[]
def new_atom(name,sort='R',kind='in',data=None,lo=None,hi=None):
    a=Atom(); a.id=len(ATOMS); a.name="%s!%d"%(name,a.id); a.sort=sort; a.kind=kind; a.data=data; a.lo=lo; a.hi=hi; a.defs=[]
    ATOMS.append(a); return a

def mmul(a,b):
    if not a: return b
    if not b: return a
    d=dict(a)
    for k,e in b: d[k]=d.get(k,0)+e
    return tuple(sorted(d.items()))

class Poly:
    __slots__=('t','_h','_k')
    def __init__(self,t):
        self.t=t; self._h=None; self._k=None
    def key(self):
        if self._k is None: self._k=frozenset(self.t.items())
        return self._k
    def __hash__(self):
        if self._h is None: self._h=hash(self.key())
        return self._h
    def __eq__(self,o): return self is o or (isinstance(o,Poly) and self.t==o.t)
    def is_const(self): return not self.t or (len(self.t)==1 and () in self.t)
    def const(self): return self.t.get((),0) if self.t else 0
    def deg(self): return max((sum(e for _,e in m) for m in self.t),default=0)
    def atoms(self):
        s=set()
        for m in self.t:
            for a,_ in m: s.add(a)
        return s
    def __repr__(self):
        if not self.t: return "0"
        o=[]
        for m,c in sorted(self.t.items()):
            o.append("%s%s"%(c,"".join("*%s%s"%(ATOMS[a].name,"^%d"%e if e>1 else "") for a,e in m)))
        return " + ".join(o)
def norm_c(c):
    if isinstance(c,Fraction) and c.denominator==1: return c.numerator
    return c
def P_const(c):
    return Poly({():norm_c(c)} if c!=0 else {})
ZERO=Poly({}); ONE=P_const(1)
def P_atom(a): return Poly({((a.id,1),):1})
def padd(a,b):
    if not a.t: return b
    if not b.t: return a
    if len(a.t)<len(b.t): a,b=b,a
    t=dict(a.t)
    for m,c in b.t.items():
        v=t.get(m,0)+c
        if v==0: t.pop(m,None)
        else: t[m]=v
    return Poly(t)
def pscale(a,k):
    if k==0: return ZERO
    if k==1: return a
    return Poly({m:norm_c(c*k) for m,c in a.t.items()})
def psub(a,b): return padd(a,pscale(b,-1))
# rewriting rules for powers of atoms: atom id -> Poly for atom^2 (e.g. sqrt atoms with polynomial radicand, sin^2)
SQ={}
def pmul(a,b):
    if not a.t or not b.t: return ZERO
    if a.is_const(): return pscale(b,a.const())
    if b.is_const(): return pscale(a,b.const())
    t={}
    for m1,c1 in a.t.items():
        for m2,c2 in b.t.items():
            m=mmul(m1,m2); v=t.get(m,0)+c1*c2
            if v==0: t.pop(m,None)
            else: t[m]=v
    r=Poly(t)
    if SQ: r=preduce(r)
    return r
def preduce(p):
    while True:
        hit=None
        for m in p.t:
            for a,e in m:
                if e>=2 and a in SQ: hit=(m,a,e); break
            if hit: break
        if not hit: return p
        m,a,e=hit
        c=p.t[m]
        rest=tuple((x,y) for x,y in m if x!=a)
        if e%2: rest=tuple(sorted(rest+((a,1),)))
        q=Poly({rest:c})
        base=SQ[a]
        for _ in range(e//2):
            q=_pm_raw(q,base)
        t=dict(p.t); del t[m]
        p=padd(Poly(t),q)
def _pm_raw(a,b):
    t={}
    for m1,c1 in a.t.items():
        for m2,c2 in b.t.items():
            m=mmul(m1,m2); v=t.get(m,0)+c1*c2
            if v==0: t.pop(m,None)
            else: t[m]=v
    return Poly(t)
def ppow(a,n):
    r=ONE
    for _ in range(n): r=pmul(r,a)
    return r

def pcontent(p):
    """positive rational content"""
    n=0; d=1
    for c in p.t.values():
        f=Fraction(c)
        n=math.gcd(n,f.numerator); d=d*f.denominator//math.gcd(d,f.denominator)
    return Fraction(n,d)
def lead(p): return min(p.t.items(),key=lambda mc:mc[0])
def pnorm(p):
    """(q,s): p = k*q with q primitive with positive leading coeff; s = sign of k"""
    if not p.t: return p,0
    c=pcontent(p); s=1 if lead(p)[1]>0 else -1
    return pscale(p,Fraction(s)/c),s
def pdivexact(a,b):
    """exact polynomial division a/b or None (multivariate, lex on the tuple order)"""
    if b.is_const(): return pscale(a,Fraction(1)/b.const())
    if not a.t: return ZERO
    if len(a.t)<1 or a.deg()<b.deg(): return None
    # grlex leading monomials
    def key(m): return (sum(e for _,e in m),tuple((-x,e) for x,e in m))
    lb=max(b.t,key=key); cb=b.t[lb]
    q={}; r=a; it=0
    dlb=dict(lb)
    while r.t:
        it+=1
        if it>200: return None
        lr=max(r.t,key=key)
        dr=dict(lr)
        for x,e in dlb.items():
            if dr.get(x,0)<e: return None
        for x,e in dlb.items():
            dr[x]-=e
            if dr[x]==0: del dr[x]
        m=tuple(sorted(dr.items())); c=norm_c(Fraction(r.t[lr])/Fraction(cb))
        q[m]=q.get(m,0)+c
        r=psub(r,_pm_raw(Poly({m:c}),b))
    return Poly(q)

class R:
    """rational function n/d (d != 0 known wherever the value exists)"""
    __slots__=('n','d')
    def __init__(self,n,d=ONE): self.n=n; self.d=d
    def is_const(self): return self.n.is_const() and self.d is ONE
    def const(self): return self.n.const()
    def key(self): return (self.n,self.d)
    def __hash__(self): return hash((self.n,self.d))
    def __eq__(self,o): return isinstance(o,R) and self.n==o.n and self.d==o.d
    def __repr__(self): return repr(self.n) if self.d is ONE else "(%r)/(%r)"%(self.n,self.d)
def mkR(n,d):
    if not n.t: return R(ZERO)
    if d.is_const(): return R(pscale(n,Fraction(1)/d.const()))
    # cancel common monomial
    com=None
    for m in itertools.chain(n.t,d.t):
        dm=dict(m)
        com=dm if com is None else {a:min(e,dm[a]) for a,e in com.items() if a in dm}
        if not com: break
    if com:
        def strip(p):
            t={}
            for m,c in p.t.items():
                t[tuple((a,e-com.get(a,0)) for a,e in m if e-com.get(a,0)>0)]=c
            return Poly(t)
        n,d=strip(n),strip(d)
        if d.is_const(): return R(pscale(n,Fraction(1)/d.const()))
    if len(n.t)<=60 and len(d.t)<=30:
        q=pdivexact(n,d)
        if q is not None: return R(q)
    if len(d.t)<=60 and n.deg()>0 and len(n.t)<=30:
        q=pdivexact(d,n)
        if q is not None: return mkR2(ONE,q)
    return mkR2(n,d)
def mkR2(n,d):
    q,s=pnorm(d)
    if q!=d:
        m,c=lead(d); k=Fraction(lead(q)[1])/Fraction(c)
        n=pscale(n,k); d=q
    return R(n,d)
def rconst(c): return R(P_const(c))
def ratom(a): return R(P_atom(a))
def radd(a,b):
    if a.d is ONE and b.d is ONE: return R(padd(a.n,b.n))
    if a.d==b.d: return mkR(padd(a.n,b.n),a.d)
    if b.d is not ONE and a.d is not ONE:
        q=pdivexact(a.d,b.d)
        if q is not None: return mkR(padd(a.n,pmul(b.n,q)),a.d)
        q=pdivexact(b.d,a.d)
        if q is not None: return mkR(padd(pmul(a.n,q),b.n),b.d)
    return mkR(padd(pmul(a.n,b.d),pmul(b.n,a.d)),pmul(a.d,b.d))
def rneg(a): return R(pscale(a.n,-1),a.d)
def rsub(a,b): return radd(a,rneg(b))
def rmul(a,b):
    if a.d is ONE and b.d is ONE: return R(pmul(a.n,b.n))
    return mkR(pmul(a.n,b.n),pmul(a.d,b.d))
def rdiv(a,b): return mkR(pmul(a.n,b.d),pmul(a.d,b.n))

# ---------------------------------------------------------------- formulas
# True/False, ('lt',p): p<0   ('le',p): p<=0   ('eq',p): p==0   ('bv',atom id)
# ('not',f) ('and',(f..)) ('or',(f..))
def interval(p):
    """crude interval of an integer/real poly from atom bounds (linear terms only)"""
    lo=hi=Fraction(p.t.get((),0))
    for m,c in p.t.items():
        if not m: continue
        mlo,mhi=Fraction(1),Fraction(1); ok=True
        for a,e in m:
            A=ATOMS[a]
            if A.lo is None or A.hi is None:
                if A.lo is not None and A.lo>=0 : al,ah=A.lo,math.inf
                elif e%2==0: al,ah=0,math.inf
                else: al,ah=-math.inf,math.inf
            else: al,ah=A.lo,A.hi
            for _ in range(e if not(A.lo is None and e%2==0) else 1):
                c4=[_im(mlo,al),_im(mlo,ah),_im(mhi,al),_im(mhi,ah)]
                mlo,mhi=min(c4),max(c4)
            if e%2==0 and mlo<0 and len(m)==1: mlo=0
        x,y=_im(c,mlo),_im(c,mhi)
        lo=lo+min(x,y); hi=hi+max(x,y)
    return lo,hi
def _im(a,b):
    if a==0 or b==0: return 0
    return a*b
def sgn_syntactic(p):
    """'>0','>=0','<0','<=0' or None from even-power structure and atom bounds"""
    lo,hi=interval(p)
    if lo>0: return '>0'
    if hi<0: return '<0'
    if lo>=0: return '>=0'
    if hi<=0: return '<=0'
    return None
def f_not(f):
    if f is True: return False
    if f is False: return True
    k=f[0]
    if k=='not': return f[1]
    if k=='lt': return f_le_n(pscale(f[1],-1))
    if k=='le': return f_lt_n(pscale(f[1],-1))
    if k=='and': return f_or(*[f_not(x) for x in f[1]])
    if k=='or': return f_and(*[f_not(x) for x in f[1]])
    return ('not',f)
def _prim(p):
    c=pcontent(p)
    return pscale(p,Fraction(1)/c) if c!=1 else p
def f_lt_n(p): return ('lt',p)
def f_le_n(p): return ('le',p)
def f_lt(p):
    if p.is_const(): return p.const()<0
    s=sgn_syntactic(p)
    if s in('>0','>=0'): return False
    if s=='<0': return True
    return ('lt',_prim(p))
def f_le(p):
    if p.is_const(): return p.const()<=0
    s=sgn_syntactic(p)
    if s=='>0': return False
    if s in('<0','<=0'): return True
    return ('le',_prim(p))
def f_eq(p):
    if p.is_const(): return p.const()==0
    s=sgn_syntactic(p)
    if s in('>0','<0'): return False
    q,_=pnorm(p)
    if len(q.t)==1:
        m=next(iter(q.t))
        if len(m)==1 and m[0][1]>1: q=Poly({((m[0][0],1),):1})
    return ('eq',q)
def f_and(*fs):
    o=[]; seen=set()
    for f in fs:
        if f is False: return False
        if f is True: continue
        for g in (f[1] if f[0]=='and' else (f,)):
            if g in seen: continue
            if f_not_shallow(g) in seen: return False
            seen.add(g); o.append(g)
    if not o: return True
    if len(o)==1: return o[0]
    return ('and',tuple(o))
def f_or(*fs):
    o=[]; seen=set()
    for f in fs:
        if f is True: return True
        if f is False: continue
        for g in (f[1] if f[0]=='or' else (f,)):
            if g in seen: continue
            if f_not_shallow(g) in seen: return True
            seen.add(g); o.append(g)
    if not o: return False
    if len(o)==1: return o[0]
    return ('or',tuple(o))
def f_not_shallow(f):
    k=f[0]
    if k=='not': return f[1]
    if k=='lt': return ('le',pscale(f[1],-1))
    if k=='le': return ('lt',pscale(f[1],-1))
    return ('not',f)
def f_ite(c,a,b): return f_and(f_or(f_not(c),a),f_or(c,b))
def f_iff(a,b):
    if a is True: return b
    if b is True: return a
    if a is False: return f_not(b)
    if b is False: return f_not(a)
    if a==b: return True
    return f_or(f_and(a,b),f_and(f_not(a),f_not(b)))
def f_atoms(f,acc):
    if f is True or f is False: return acc
    k=f[0]
    if k in('lt','le','eq'): acc|=f[1].atoms()
    elif k=='bv': acc.add(f[1])
    elif k=='not': f_atoms(f[1],acc)
    else:
        for g in f[1]: f_atoms(g,acc)
    return acc
def peval(p,env):
    s=0
    for m,c in p.t.items():
        v=c
        for a,e in m: v=v*env[a]**e
        s+=v
    return s
def feval(f,env,tol=0):
    if f is True or f is False: return f
    k=f[0]
    if k=='lt': return peval(f[1],env)<0
    if k=='le': return peval(f[1],env)<=0
    if k=='eq': return peval(f[1],env)==0
    if k=='bv': return bool(env[f[1]])
    if k=='not': return not feval(f[1],env)
    if k=='and': return all(feval(g,env) for g in f[1])
    if k=='or': return any(feval(g,env) for g in f[1])

def fstr(f):
    if f is True or f is False: return str(f)
    k=f[0]
    if k=='lt': return "%r < 0"%f[1]
    if k=='le': return "%r <= 0"%f[1]
    if k=='eq': return "%r = 0"%f[1]
    if k=='bv': return ATOMS[f[1]].name
    if k=='not': return "!(%s)"%fstr(f[1])
    return "("+({'and':' & ','or':' | '}[k]).join(fstr(g) for g in f[1])+")"

# ---------------------------------------------------------------- SMT-LIB emission (solver independent)
def smt_num(c):
    f=Fraction(c)
    s=str(abs(f.numerator)) + ".0"
    if f.denominator!=1: s="(/ %s %s.0)"%(s,f.denominator)
    return "(- %s)"%s if f<0 else s
def smt_int(c):
    c=int(c)
    return "(- %d)"%-c if c<0 else str(c)
def p_isint(p):
    for m,c in p.t.items():
        if Fraction(c).denominator!=1: return False
        for a,_ in m:
            if ATOMS[a].sort!='I': return False
    return True
def smt_atom(a,asint):
    A=ATOMS[a]
    n="|%s|"%A.name
    if A.sort=='I' and not asint: return "(to_real %s)"%n
    return n
def smt_poly(p,asint=False):
    if not p.t: return "0" if asint else "0.0"
    o=[]
    for m,c in sorted(p.t.items()):
        fs=[]
        if c!=1 or not m: fs.append(smt_int(c) if asint else smt_num(c))
        for a,e in m: fs+= [smt_atom(a,asint)]*e
        o.append(fs[0] if len(fs)==1 else "(* %s)"%" ".join(fs))
    return o[0] if len(o)==1 else "(+ %s)"%" ".join(o)
def smt_f(f):
    if f is True: return "true"
    if f is False: return "false"
    k=f[0]
    if k in('lt','le','eq'):
        p=f[1]; ii=p_isint(p)
        # split into positive and negative parts, which solvers like better
        pos=Poly({m:c for m,c in p.t.items() if c>0}); neg=Poly({m:-c for m,c in p.t.items() if c<0})
        op={'lt':'<','le':'<=','eq':'='}[k]
        return "(%s %s %s)"%(op,smt_poly(pos,ii),smt_poly(neg,ii))
    if k=='bv': return "|%s|"%ATOMS[f[1]].name
    if k=='not': return "(not %s)"%smt_f(f[1])
    return "(%s %s)"%(k," ".join(smt_f(g) for g in f[1]))
def smt_decls(atom_ids):
    o=[]
    for a in sorted(atom_ids):
        A=ATOMS[a]
        o.append("(declare-fun |%s| () %s)"%(A.name,{'R':'Real','I':'Int','B':'Bool'}[A.sort]))
    return "\n".join(o)
