"""Symbolic executor / VC generator over LLVM IR.

doubles -> exact reals (rational functions over atoms), +-inf/NaN carried as path-concrete special values;
ints -> mathematical integers, wrapped only where an overflow is possible; memory -> objects with byte cells.
Every path through a harness contributes: obligations (vc_ensure / library assertion / throw / bounds), covers."""
import sys, math, time, os
from fractions import Fraction
from terms import *
import terms as T
import ir

class Inf:
    __slots__=('s',)
    def __init__(self,s): self.s=s
    def __repr__(self): return "inf" if self.s>0 else "-inf"
DBL_MAX=1.7976931348623157e+308
PINF=Inf(1); NINF=Inf(-1)
class NaN:
    def __repr__(self): return "nan"
NAN=NaN()
class AbsV:
    """|r| not yet split on sign"""
    __slots__=('r',)
    def __init__(self,r): self.r=r
class Ptr:
    __slots__=('o','off')
    def __init__(self,o,off): self.o=o; self.off=off
    def __repr__(self): return "ptr(%s+%s)"%(self.o,self.off)
    def __eq__(self,p): return isinstance(p,Ptr) and self.o==p.o and self.off==p.off
    def __hash__(self): return hash((self.o,self.off))
NULL=Ptr(0,0)
class FnPtr:
    __slots__=('n',)
    def __init__(self,n): self.n=n
    def __eq__(self,p): return isinstance(p,FnPtr) and self.n==p.n
    def __hash__(self): return hash(self.n)
class IV:
    """symbolic integer: polynomial over atoms, canonical signed value"""
    __slots__=('p',)
    def __init__(self,p): self.p=p
    def __repr__(self): return "int(%r)"%self.p
class IteV:
    __slots__=('c','a','b')
    def __init__(self,c,a,b): self.c=c; self.a=a; self.b=b
    def __repr__(self): return "ite(%s,%r,%r)"%(fstr(self.c),self.a,self.b)
class Undef:
    __slots__=('ty',)
    def __init__(self,ty): self.ty=ty
    def __repr__(self): return "undef"
class Cat:
    """adjacent cells read with one wide load: list of (offset,size,value)"""
    __slots__=('parts','size')
    def __init__(self,parts,size): self.parts=parts; self.size=size

class Unsupported(Exception): pass
class ForkReq(Exception):
    def __init__(self,f): self.f=f
class PathEnd(Exception): pass
class Unwound(Exception): pass
EXC_BASES={'_ZTISt13runtime_error':['_ZTISt9exception'],'_ZTISt11logic_error':['_ZTISt9exception']}
for _e in ('12out_of_range','12length_error','12domain_error','16invalid_argument'): EXC_BASES['_ZTISt'+_e]=['_ZTISt11logic_error','_ZTISt9exception']
for _e in ('11range_error','14overflow_error','15underflow_error'): EXC_BASES['_ZTISt'+_e]=['_ZTISt13runtime_error','_ZTISt9exception']
EXC_BASES['_ZTISt9bad_alloc']=['_ZTISt9exception']

class Obj:
    __slots__=('size','cells','own','name','dead','const','zero','gen')
    def __init__(self,size,name): self.size=size; self.cells={}; self.own=None; self.name=name; self.dead=False; self.const=False; self.zero=False; self.gen=None

class Frame:
    __slots__=('fn','bb','prev','ip','env','ret','cl')
    def copy(self):
        f=Frame(); f.fn=self.fn; f.bb=self.bb; f.prev=self.prev; f.ip=self.ip; f.env=dict(self.env); f.ret=self.ret
        f.cl=list(self.cl) if self.cl else self.cl
        return f
class State:
    __slots__=('frames','mem','pc','facts','tok','trace','steps','inputs','contracts','covers','ncut','notes','retval')
    def copy(self):
        s=State(); s.frames=[f.copy() for f in self.frames]; s.mem=dict(self.mem); s.pc=list(self.pc); s.facts=set(self.facts)
        s.trace=list(self.trace); s.steps=self.steps; s.inputs=list(self.inputs); s.contracts=dict(self.contracts); s.covers=self.covers
        s.ncut=self.ncut; s.notes=list(self.notes); s.retval=self.retval
        s.tok=object(); self.tok=object()
        return s
class Oblig:
    __slots__=('name','pc','goal','inputs','kind','path','main')

def sgnfix(v,w):
    v&=(1<<w)-1
    return v-(1<<w) if w>1 and v>>(w-1) else v

class _Dbl: k='float'; w=64; size=8
_DBL=_Dbl()
class Exec:
    def __init__(self,mod,feas,opts=None):
        self.m=mod; self.feas=feas; self.obl=[]; self.covers={}; self.opts=opts or {}
        self.gobj={}; self.nobj=1; self.objcache={}
        self.uf={}; self.memo={}
        self.npaths=0; self.nsteps=0; self.nfork=0; self.called={}
        self.max_paths=self.opts.get('max_paths',20000); self.max_steps=self.opts.get('max_steps',4000000)
        self.deadline=None
        self.sqd={}
        self.loopinfo={}; self._bcache={}; self.ufapps={}
        self.loopmode=None
        self.uses=set()
        self.endstates=[]
    # ---------------- decisions
    def known(self,st,f):
        if f is True or f is False: return f
        if f in st.facts: return True
        if f_not_shallow(f) in st.facts: return False
        k=f[0]
        if k=='eq':
            p=f[1]; n=pscale(p,-1)
            if ('lt',p) in st.facts or ('lt',n) in st.facts: return False
            if ('le',p) in st.facts and ('le',n) in st.facts: return True
        elif k=='le':
            p=f[1]
            if ('lt',p) in st.facts: return True
            q,_=pnorm(p)
            if ('eq',q) in st.facts: return True
        elif k=='lt':
            p=f[1]; q,_=pnorm(p)
            if ('eq',q) in st.facts: return False
            if ('le',p) in st.facts and ('not',('eq',q)) in st.facts: return True
            if ('lt',pscale(p,-1)) in st.facts: return False
        elif k=='and':
            r=True
            for g in f[1]:
                x=self.known(st,g)
                if x is False: return False
                if x is None: r=None
            return r
        elif k=='or':
            r=False
            for g in f[1]:
                x=self.known(st,g)
                if x is True: return True
                if x is None: r=None
            return r
        elif k=='not':
            x=self.known(st,f[1])
            return None if x is None else (not x)
        return None
    def decide(self,st,f):
        x=self.known(st,f)
        if x is not None: return x
        raise ForkReq(f)
    def add_fact(self,st,f):
        if f is True: return
        st.pc.append(f)
        self._fact(st,f)
    def _fact(self,st,f):
        if f is True or f is False: return
        st.facts.add(f)
        if f[0]=='and':
            for g in f[1]: self._fact(st,g)
        elif f[0]=='or':
            rest=[g for g in f[1] if self.known(st,g) is not False]
            if len(rest)==1: self._fact(st,rest[0])
    # ---------------- sign of polynomials on a path
    def psign(self,st,p):
        """+1/-1 if provably so syntactically, else 0"""
        if p.is_const():
            c=p.const(); return (c>0)-(c<0)
        q=T._prim(p)
        if ('lt',q) in st.facts: return -1
        n=pscale(q,-1)
        if ('lt',n) in st.facts: return 1
        s=sgn_syntactic(p)
        if s=='>0': return 1
        if s=='<0': return -1
        nz=('not',('eq',pnorm(p)[0])) in st.facts
        if nz:
            if s=='>=0' or ('le',n) in st.facts: return 1
            if s=='<=0' or ('le',q) in st.facts: return -1
        # atom^k monomials: single monomial
        if len(p.t)==1:
            (m,c),=p.t.items(); s=1 if c>0 else -1
            for a,e in m:
                pa=Poly({((a,1),):1})
                if e%2==0:
                    if self.known(st,('eq',pa)) is not False: return 0
                else:
                    if ('lt',pscale(pa,-1)) in st.facts: pass
                    elif ('lt',pa) in st.facts: s=-s
                    elif sgn_syntactic(pa)=='>0': pass
                    elif sgn_syntactic(pa)=='>=0' and ('not',('eq',pa)) in st.facts: pass
                    else: return 0
            return s
        return 0
    def numsign(self,st,r):
        """polynomial with the sign of r"""
        if r.d is ONE: return r.n
        s=self.psign(st,r.d)
        if s>0: return r.n
        if s<0: return pscale(r.n,-1)
        return pmul(r.n,r.d)
    def c_lt(self,st,a,b):
        return f_lt(self.numsign(st,rsub(a,b)))
    def c_le(self,st,a,b):
        return f_le(self.numsign(st,rsub(a,b)))
    def c_eq(self,st,a,b):
        return f_eq(rsub(a,b).n)
    # ---------------- floating compare
    def fl(self,st,v):
        if isinstance(v,Undef):
            a=self.fresh_undef('R'); return ratom(a)
        if isinstance(v,IteV):
            return self.fl(st, v.a if self.decide(st,v.c) else v.b)
        return v
    def fresh_undef(self,sort,w=None):
        return new_atom('undef',sort,'undef')
    def absforce(self,st,v):
        if isinstance(v,AbsV):
            return rneg(v.r) if self.decide(st,f_lt(self.numsign(st,v.r))) else v.r
        return v
    def fcmp(self,st,op,a,b):
        a=self.fl(st,a); b=self.fl(st,b)
        if op=='true': return True
        if op=='false': return False
        if a is NAN or b is NAN: return op in('uno','une','ueq','ult','ule','ugt','uge')
        if op=='ord': return True
        if op=='uno': return False
        o=op[1:]
        if isinstance(a,Inf) or isinstance(b,Inf):
            sa=a.s if isinstance(a,Inf) else 0; sb=b.s if isinstance(b,Inf) else 0
            return {'eq':sa==sb,'ne':sa!=sb,'lt':sa<sb,'le':sa<=sb,'gt':sa>sb,'ge':sa>=sb}[o]
        if isinstance(b,AbsV) and isinstance(a,AbsV):
            a=R(pmul(a.r.n,a.r.n),pmul(a.r.d,a.r.d)) ; b=R(pmul(b.r.n,b.r.n),pmul(b.r.d,b.r.d))
        elif isinstance(b,AbsV):
            a,b=b,a; o={'lt':'gt','le':'ge','gt':'lt','ge':'le'}.get(o,o)
        if isinstance(a,AbsV):
            r=a.r; n=rneg(r)
            if o=='lt': return f_and(self.c_lt(st,r,b),self.c_lt(st,n,b))
            if o=='le': return f_and(self.c_le(st,r,b),self.c_le(st,n,b))
            if o=='gt': return f_or(self.c_lt(st,b,r),self.c_lt(st,b,n))
            if o=='ge': return f_or(self.c_le(st,b,r),self.c_le(st,b,n))
            zb=rconst(0)
            e=f_and(f_or(self.c_eq(st,r,b),self.c_eq(st,n,b)),self.c_le(st,zb,b))
            return e if o=='eq' else f_not(e)
        if o=='lt': return self.c_lt(st,a,b)
        if o=='le': return self.c_le(st,a,b)
        if o=='gt': return self.c_lt(st,b,a)
        if o=='ge': return self.c_le(st,b,a)
        if o=='eq': return self.c_eq(st,a,b)
        return f_not(self.c_eq(st,a,b))
    def fsign_special(self,st,v):
        """sign of R value: decide"""
        if isinstance(v,Inf): return v.s
        if isinstance(v,AbsV):
            return 0 if self.decide(st,f_eq(v.r.n)) else 1
        if self.decide(st,f_eq(v.n)): return 0
        return -1 if self.decide(st,f_lt(self.numsign(st,v))) else 1
    def farith(self,st,op,a,b):
        a=self.fl(st,a); b=self.fl(st,b)
        if isinstance(a,ir.Const) or isinstance(b,ir.Const): raise Unsupported('float const')
        if a is NAN or b is NAN: return NAN
        if isinstance(a,AbsV) and op=='fmul' and isinstance(b,AbsV) : return AbsV(rmul(a.r,b.r)) if a.r!=b.r else rmul(a.r,a.r)
        a=self.absforce(st,a); b=self.absforce(st,b)
        if isinstance(a,Inf) or isinstance(b,Inf):
            if op in('fadd','fsub'):
                if op=='fsub' and isinstance(b,Inf): b=Inf(-b.s)
                if isinstance(a,Inf) and isinstance(b,Inf): return a if a.s==b.s else NAN
                return a if isinstance(a,Inf) else b
            if op=='fmul':
                s=self.fsign_special(st,a)*self.fsign_special(st,b)
                return NAN if s==0 else Inf(s)
            if op=='fdiv':
                if isinstance(a,Inf) and isinstance(b,Inf): return NAN
                if isinstance(b,Inf): return rconst(0)
                s=self.fsign_special(st,b)
                if s==0: s=1
                return Inf(a.s*s)
            raise Unsupported('inf '+op)
        if op=='fadd': return radd(a,b)
        if op=='fsub': return rsub(a,b)
        if op=='fmul': return rmul(a,b)
        if op=='fdiv':
            if not b.is_const():
                if self.psign(st,b.n)==0 and self.decide(st,f_eq(b.n)):
                    s=self.fsign_special(st,a)
                    st.notes.append('divzero')
                    return NAN if s==0 else Inf(s)   # denominator taken as +0
            elif b.const()==0:
                s=self.fsign_special(st,a)
                return NAN if s==0 else Inf(s)
            r=rdiv(a,b)
            if self.opts.get('div')=='atom' and r.d is not ONE:
                return self.div_atom(r)
            return r
        if op=='frem':
            if a.is_const() and b.is_const():
                q=Fraction(a.const())/Fraction(b.const()); t=math.floor(q) if q>=0 else math.ceil(q)
                return rconst(Fraction(a.const())-t*Fraction(b.const()))
            q=rdiv(a,b); k=self.trunc_atom(st,q)
            return rsub(a,rmul(b,R(k)))
        raise Unsupported(op)
    def div_atom(self,r):
        k=('div',r)
        a=self.memo.get(k)
        if a is None:
            a=new_atom('q','R','div',r)
            a.defs.append(f_eq(psub(pmul(P_atom(a),r.d),r.n)))
            self.memo[k]=a
        return ratom(a)
    def sqrt(self,st,v):
        v=self.fl(st,v); v=self.absforce(st,v)
        if v is NAN: return NAN
        if isinstance(v,Inf): return v if v.s>0 else NAN
        if v.is_const():
            c=Fraction(v.const())
            if c<0: return NAN
            n,d=math.isqrt(c.numerator),math.isqrt(c.denominator)
            if n*n==c.numerator and d*d==c.denominator: return rconst(norm_c(Fraction(n,d)))
        neg=f_lt(self.numsign(st,v))
        if neg is not False and self.decide(st,neg): return NAN
        c=pcontent(v.n) if v.n.t else Fraction(1)
        k=Fraction(1)
        n,d=math.isqrt(c.numerator),math.isqrt(c.denominator)
        if n*n==c.numerator and d*d==c.denominator: k=Fraction(n,d)
        base=R(pscale(v.n,1/(k*k)),v.d) if k!=1 else v
        # single even monomial -> |x|
        if base.d is ONE and len(base.n.t)==1:
            (m,cc),=base.n.t.items()
            if cc==1 and m and all(e%2==0 for _,e in m):
                root=R(Poly({tuple((a,e//2) for a,e in m):norm_c(k)}))
                return AbsV(root) if sgn_syntactic(root.n) not in('>=0','>0') else root
        if base.d is not ONE and not self.opts.get('sqrtfrac'):
            # sqrt(n/d): if d has known positive sign use sqrt(n)/sqrt(d)?  keep as one atom
            pass
        key=('sqrt',base)
        a=self.memo.get(key)
        if a is None:
            a=new_atom('sqrt','R','sqrt',base,lo=0)
            self.memo[key]=a
            sq=pmul(P_atom(a),P_atom(a))
            a.defs.append(('le',pscale(P_atom(a),-1)))
            a.defs.append(f_eq(psub(pmul(sq,base.d),base.n)))
            if base.d is ONE: SQ[a.id]=base.n
        r=ratom(a)
        return rmul(rconst(norm_c(k)),r) if k!=1 else r
    def floor_atom(self,st,r,kind='floor'):
        key=(kind,r)
        a=self.memo.get(key)
        if a is None:
            a=new_atom(kind,'I',kind,r); self.memo[key]=a
            # a <= r < a+1
            s=r.d
            if s is ONE:
                a.defs.append(f_le(psub(P_atom(a),r.n))); a.defs.append(f_lt(psub(r.n,padd(P_atom(a),ONE))))
            else:
                sq=pmul(s,s)
                a.defs.append(f_le(psub(pmul(P_atom(a),sq),pmul(r.n,s)))); a.defs.append(f_lt(psub(pmul(r.n,s),pmul(padd(P_atom(a),ONE),sq))))
        return a
    def trunc_atom(self,st,r):
        """integer poly atom for C truncation of real r"""
        if r.d is ONE and p_isint(r.n): return r.n
        neg=f_lt(self.numsign(st,r))
        if neg is not False and self.decide(st,neg):
            return pscale(P_atom(self.floor_atom(st,rneg(r))),-1)
        return P_atom(self.floor_atom(st,r))
    # ---------------- integers
    def iv(self,v):
        """python int or Poly"""
        if isinstance(v,IV): return v.p
        if isinstance(v,bool): return int(v)
        return v
    def as_poly(self,st,v,w):
        if isinstance(v,IV): return v.p
        if v is True or v is False: return P_const(int(v))
        if isinstance(v,int): return P_const(v)
        if isinstance(v,Undef): return P_atom(self.fresh_undef('I'))
        if isinstance(v,tuple):  # i1 formula
            return P_const(1 if self.decide(st,v) else 0)
        if isinstance(v,IteV):
            return self.as_poly(st, v.a if self.decide(st,v.c) else v.b, w)
        raise Unsupported("int from %r"%(v,))
    def mkint(self,st,p,w,flags=0):
        if p.is_const(): return sgnfix(int(p.const()),w)
        if flags&1 or w==1: return IV(p)
        lo,hi=interval(p)
        if lo>=-(1<<(w-1)) and hi<(1<<(w-1)): return IV(p)
        # decide range
        L=P_const(-(1<<(w-1))); H=P_const((1<<(w-1)))
        if self.decide(st,f_lt(psub(p,L))): return self.mkint(st,padd(p,P_const(1<<w)),w)
        if self.decide(st,f_le(psub(H,p))): return self.mkint(st,psub(p,P_const(1<<w)),w)
        return IV(p)
    def distribute(self,fn,*vs):
        for i,v in enumerate(vs):
            if isinstance(v,IteV):
                a=list(vs); a[i]=v.a; x=self.distribute(fn,*a)
                a[i]=v.b; y=self.distribute(fn,*a)
                return self.mkite(v.c,x,y)
        return fn(*vs)
    def mkite(self,c,a,b):
        if c is True: return a
        if c is False: return b
        if isinstance(a,(bool,tuple)) and isinstance(b,(bool,tuple)): return f_ite(c,a,b)
        try:
            if type(a)==type(b) and not isinstance(a,(IteV,Undef)) and (a==b): return a
            if isinstance(a,IV) and isinstance(b,IV) and a.p==b.p: return a
        except Exception: pass
        if isinstance(a,Undef): return b
        if isinstance(b,Undef): return a
        return IteV(c,a,b)
    def iarith(self,st,op,a,b,w,flags):
        if w==1:
            a=self.bool1(st,a); b=self.bool1(st,b)
            if op in('and','mul'): return f_and(a,b)
            if op=='or': return f_or(a,b)
            if op in('xor','add','sub'): return f_not(f_iff(a,b))
            raise Unsupported('i1 '+op)
        if isinstance(a,(IteV,)) or isinstance(b,IteV):
            return self.distribute(lambda x,y:self.iarith(st,op,x,y,w,flags),a,b)
        if isinstance(a,bool): a=int(a)
        if isinstance(b,bool): b=int(b)
        if isinstance(a,Ptr) or isinstance(b,Ptr): return self.ptrarith(st,op,a,b,w)
        if isinstance(a,(R,Cat)) or isinstance(b,(R,Cat)): return self.bitfloat(st,op,a,b,w)
        if isinstance(a,int) and isinstance(b,int):
            M=(1<<w)-1; ua,ub=a&M,b&M
            if op=='add': r=a+b
            elif op=='sub': r=a-b
            elif op=='mul': r=a*b
            elif op=='udiv': r=ua//ub
            elif op=='urem': r=ua%ub
            elif op=='sdiv': r=abs(a)//abs(b)*(1 if (a<0)==(b<0) else -1)
            elif op=='srem': r=abs(a)%abs(b)*(1 if a>=0 else -1)
            elif op=='shl': r=ua<<ub if ub<w else 0
            elif op=='lshr': r=ua>>ub if ub<w else 0
            elif op=='ashr': r=a>>ub if ub<w else 0
            elif op=='and': r=ua&ub
            elif op=='or': r=ua|ub
            elif op=='xor': r=ua^ub
            else: raise Unsupported(op)
            return sgnfix(r,w)
        if op in('and','or','xor') and (isinstance(a,Undef) or isinstance(b,Undef)):
            if op=='and' and (a==0 or b==0): return 0
        if op=='and':
            if isinstance(b,int) and b==-1: return a
            if isinstance(a,int) and a==-1: return b
            if b==0 or a==0: return 0
        if op in('or','xor'):
            if isinstance(b,int) and b==0: return a
            if isinstance(a,int) and a==0: return b
        pa=self.as_poly(st,a,w); pb=self.as_poly(st,b,w)
        if op=='add': return self.mkint(st,padd(pa,pb),w,flags)
        if op=='sub': return self.mkint(st,psub(pa,pb),w,flags)
        if op=='mul': return self.mkint(st,pmul(pa,pb),w,flags)
        if op=='shl' and isinstance(b,int): return self.mkint(st,pscale(pa,1<<b),w,flags)
        if op=='xor' and isinstance(b,int) and b==-1: return self.mkint(st,psub(P_const(-1),pa),w,1)
        if op in('sdiv','udiv','srem','urem','lshr','ashr') and isinstance(b,int) or (op=='and' and isinstance(b,int) and b>0 and (b&(b+1))==0):
            k=b
            if op in('lshr','ashr'): k=1<<b
            if op=='and': k=b+1
            if op in('and','urem','srem') and self.known(st,f_le(pscale(pa,-1))) is True and self.known(st,f_le(psub(pa,P_const(k-1)))) is True: return self.mkint(st,pa,w,1)
            lo,_=interval(pa)
            if op in('udiv','lshr','urem') and lo<0 and self.decide(st,f_lt(pa)):
                pa=padd(pa,P_const(1<<w))
            if op in('sdiv','srem') and lo<0 and self.decide(st,f_lt(pa)):
                q=self.idiv(st,pscale(pa,-1),k); q=pscale(q,-1)
            else: q=self.idiv(st,pa,k)
            if op in('sdiv','udiv','lshr','ashr'): return self.mkint(st,q,w,1 if op!='lshr' and op!='udiv' else 0)
            return self.mkint(st,psub(pa,pscale(q,k)),w,1)
        if op in('and','or','xor'):
            bit=lambda p: p.is_const() and p.const() in(0,1) or self.known(st,f_le(pscale(p,-1))) is True and self.known(st,f_le(psub(p,P_const(1)))) is True
            if bit(pa) and bit(pb):
                if pa.is_const(): pa,pb=pb,pa
                if not pb.is_const(): pb=P_const(0 if self.decide(st,f_eq(pb)) else 1)
                c=pb.const()
                return self.mkint(st,{'and':P_const(0) if c==0 else pa,'or':P_const(1) if c else pa,'xor':psub(P_const(1),pa) if c else pa}[op],w,1)
            return self.bitop(st,op,pa,pb,w)
        if op in('urem','srem') and self.decide(st,f_and(f_le(pscale(pa,-1)),f_lt(pscale(pb,-1)))):
            # both nonnegative, small quotient
            if self.decide(st,f_lt(psub(pa,pb))): return self.mkint(st,pa,w,1)
            if self.decide(st,f_lt(psub(pa,pscale(pb,2)))): return self.mkint(st,psub(pa,pb),w,1)
        raise Unsupported("symbolic int %s w=%d"%(op,w)+(" %r %r %r"%(pa,pb,st.pc) if os.environ.get("VC_URDEBUG") else ""))
    def idiv(self,st,p,k):
        """floor(p/k), k>0 const"""
        if k==1: return p
        dv={m:c//k for m,c in p.t.items() if c%k==0 and m!=()}
        if dv:
            rest=Poly({m:c for m,c in p.t.items() if m not in dv})
            if rest.is_const(): return padd(Poly(dv),P_const(math.floor(Fraction(rest.const())/k)) if rest.t else P_const(0))
            return padd(Poly(dv),self.idiv(st,rest,k))
        key=('idiv',p,k); a=self.memo.get(key)
        if a is None:
            lo,hi=interval(p)
            f=lambda x: None if x in(math.inf,-math.inf) else math.floor(x/k)
            a=new_atom('idiv','I','idiv',(p,k),f(lo) if f(lo) is not None and f(hi) is not None else (0 if lo>=0 else None),f(hi) if f(lo) is not None and f(hi) is not None else None); self.memo[key]=a
            d=psub(p,pscale(P_atom(a),k))
            a.defs.append(f_le(pscale(d,-1))); a.defs.append(f_lt(psub(d,P_const(k))))
        return P_atom(a)
    def bitop(self,st,op,pa,pb,w):
        key=('bit',op,w,frozenset([(pa,1),(pb,1)]) if pa!=pb else pa)
        if pa==pb:
            if op=='xor': return 0
            return IV(pa)
        a=self.memo.get(key)
        if a is None:
            a=new_atom('bit'+op,'I','bit',(op,pa,pb),-(1<<(w-1)),(1<<(w-1))-1); self.memo[key]=a
            M=1<<(w-1); ok=lambda p: (lambda iv: iv[0]>=-M and iv[1]<M)(interval(p))
            if ok(pa) and ok(pb):      # sign and zero of the result
                iff=lambda f,g: f_and(f_or(f_not(f),g),f_or(f,f_not(g)))
                r=P_atom(a); n=lambda p: f_lt(p)
                if op=='or': a.defs+=[iff(n(r),f_or(n(pa),n(pb))),iff(f_eq(r),f_and(f_eq(pa),f_eq(pb)))]
                elif op=='and': a.defs.append(iff(n(r),f_and(n(pa),n(pb))))
                else: a.defs+=[iff(n(r),f_or(f_and(n(pa),f_not(n(pb))),f_and(f_not(n(pa)),n(pb)))),iff(f_eq(r),f_eq(psub(pa,pb)))]
        return IV(P_atom(a))
    def bitfloat(self,st,op,a,b,w):
        if op in('lshr',) and isinstance(a,Cat) and isinstance(b,int) and b%8==0:
            o=b//8
            return self.catslice(a,o,a.size-o)
        if op=='lshr' and isinstance(a,Cat) is False and isinstance(a,R): raise Unsupported('bit op on real')
        if op=='or' and (isinstance(a,int) and a==0): return b
        if op=='or' and (isinstance(b,int) and b==0): return a
        if op=='and' and isinstance(a,R) and isinstance(b,int) and w==64 and (b&((1<<64)-1))==(1<<63)-1: return AbsV(a)
        raise Unsupported('bit op %s on real'%op)
    def catslice(self,c,off,size):
        ps=[(o-off,s,v) for o,s,v in c.parts if off<=o and o+s<=off+size]
        if len(ps)==1 and ps[0][0]==0: return ps[0][2]
        return Cat(ps,size)
    def ptrarith(self,st,op,a,b,w):
        if op=='sub' and isinstance(a,Ptr) and isinstance(b,Ptr) and a.o==b.o:
            return self.iarith(st,'sub',self.unoff(a.off),self.unoff(b.off),64,1)
        if op in('add',) :
            if isinstance(b,Ptr): a,b=b,a
            return Ptr(a.o,self.addoff(st,a.off,b))
        if op=='sub' and isinstance(a,Ptr) and isinstance(b,(int,IV)):
            return Ptr(a.o,self.addoff(st,a.off,self.iarith(st,'sub',0,b,64,1)))
        if isinstance(a,Ptr) and a.o==0 and isinstance(a.off,int): return self.iarith(st,op,a.off,b,w,0)
        if isinstance(b,Ptr) and b.o==0 and isinstance(b.off,int): return self.iarith(st,op,a,b.off,w,0)
        if op=='and' and isinstance(b,int) and isinstance(a,Ptr) and isinstance(a.off,int):
            return self.iarith(st,'and',a.off,b,w,0)   # objects are maximally aligned
        if op=='sub' and isinstance(a,Ptr) and isinstance(b,Ptr):
            return IV(P_atom(self.memoatom(('psub',a.o,b.o),'I')))
        raise Unsupported('ptr '+op)
    def memoatom(self,key,sort):
        a=self.memo.get(key)
        if a is None: a=self.memo[key]=new_atom('m',sort,'misc',key)
        return a
    def unoff(self,o): return IV(o) if isinstance(o,Poly) else o
    def addoff(self,st,off,d):
        if isinstance(off,int) and isinstance(d,int): return off+d
        p=padd(off if isinstance(off,Poly) else P_const(off), self.as_poly(st,d,64))
        return int(p.const()) if p.is_const() else p
    def icmp(self,st,op,a,b,w):
        if isinstance(a,IteV) or isinstance(b,IteV):
            return self.distribute(lambda x,y:self.icmp(st,op,x,y,w),a,b)
        if isinstance(a,(FnPtr,Ptr)) or isinstance(b,(FnPtr,Ptr)):
            return self.pcmp(st,op,a,b)
        if w==1:
            a=self.bool1(st,a); b=self.bool1(st,b)
            e=f_iff(a,b)
            if op=='eq': return e
            if op=='ne': return f_not(e)
            if op in('ult','sgt'): return f_and(f_not(a),b)
            if op in('ugt','slt'): return f_and(a,f_not(b))
            if op in('ule','sge'): return f_or(f_not(a),b)
            return f_or(a,f_not(b))
        if isinstance(a,bool): a=int(a)
        if isinstance(b,bool): b=int(b)
        if isinstance(a,int) and isinstance(b,int):
            M=(1<<w)-1
            if op[0]=='u': a&=M; b&=M
            o=op[-2:]
            return {'eq':a==b,'ne':a!=b,'lt':a<b,'le':a<=b,'gt':a>b,'ge':a>=b}[o]
        if isinstance(a,R) or isinstance(b,R): # bit compare of a double with integer zero etc.
            raise Unsupported('icmp on real bits')
        pa=self.as_poly(st,a,w); pb=self.as_poly(st,b,w)
        if op in('ugt','uge','sgt','sge'):
            pa,pb=pb,pa; op={'ugt':'ult','uge':'ule','sgt':'slt','sge':'sle'}[op]
        d=psub(pa,pb)
        if op=='eq': return f_eq(d)
        if op=='ne': return f_not(f_eq(d))
        if op=='slt': return f_lt(d)
        if op=='sle': return f_le(d)
        cmp_=f_lt(d) if op=='ult' else f_le(d)
        na,nb=f_lt(pa),f_lt(pb)
        kn=self.known(st,na); na=na if kn is None else kn
        kn=self.known(st,nb); nb=nb if kn is None else kn
        return f_or(f_and(f_iff(na,nb),cmp_),f_and(f_not(na),nb))
    def pcmp(self,st,op,a,b):
        if isinstance(a,int): a=Ptr(0,a)
        if isinstance(b,int): b=Ptr(0,b)
        if isinstance(a,FnPtr) or isinstance(b,FnPtr):
            e=(a==b); return e if op=='eq' else (not e) if op=='ne' else True
        if isinstance(a,Undef) or isinstance(b,Undef): raise Unsupported('undef ptr cmp')
        if a.o!=b.o:
            if op=='eq': return False
            if op=='ne': return True
            # unrelated objects: arbitrary but consistent order; null is least
            x,y=a.o,b.o
            return {'lt':x<y,'le':x<=y,'gt':x>y,'ge':x>=y}[op[-2:]]
        d=padd(a.off if isinstance(a.off,Poly) else P_const(a.off), pscale(b.off if isinstance(b.off,Poly) else P_const(b.off),-1))
        o=op[-2:]
        if o=='eq': return f_eq(d)
        if o=='ne': return f_not(f_eq(d))
        if o=='lt': return f_lt(d)
        if o=='le': return f_le(d)
        if o=='gt': return f_lt(pscale(d,-1))
        return f_le(pscale(d,-1))
    def bool1(self,st,v):
        if v is True or v is False or isinstance(v,tuple): return v
        if isinstance(v,int): return v!=0
        if isinstance(v,Undef):
            return ('bv',new_atom('undefb','B','undef').id)
        if isinstance(v,IteV): return f_ite(v.c,self.bool1(st,v.a),self.bool1(st,v.b))
        if isinstance(v,IV): return f_not(f_eq(v.p))
        raise Unsupported('bool from %r'%(v,))
    # ---------------- memory
    def newobj(self,st,size,name):
        oid=self.nobj; self.nobj+=1
        o=Obj(size,name); o.own=st.tok; st.mem[oid]=o
        return Ptr(oid,0)
    def wobj(self,st,oid):
        o=st.mem[oid]
        if o.gen is not None: raise Unsupported('write to an abstract array')
        if o.own is not st.tok:
            n=Obj(o.size,o.name); n.cells=dict(o.cells); n.dead=o.dead; n.const=o.const; n.zero=o.zero; n.own=st.tok
            st.mem[oid]=n; o=n
        return o
    def gptr(self,st,name):
        p=self.gobj.get(name)
        if p is None:
            oid=self.nobj; self.nobj+=1
            p=self.gobj[name]=Ptr(oid,0)
        if p.o not in st.mem:
            t,ini=self.m.global_info(name)
            o=Obj(t.size,name); o.own=None
            if ini is not None: self.initcells(st,o,0,t,ini)
            st.mem[p.o]=o
        return p
    def initcells(self,st,o,off,t,c):
        if isinstance(c,ir.CUndef): return
        if isinstance(c,ir.CAgg):
            if t.k=='struct':
                for i,e in enumerate(t.elts): self.initcells(st,o,off+t.offs[i],e,c.el[i] if c.el is not None else ir.CAgg(None,e))
            elif t.k in('array','vector'):
                if c.el is None and t.el.k=='int' and t.n>256:
                    o.zero=True; return
                for i in range(t.n): self.initcells(st,o,off+i*t.el.size,t.el,c.el[i] if c.el is not None else ir.CAgg(None,t.el))
            elif t.k=='int': o.cells[off]=(t.size,0)
            elif t.k=='float': o.cells[off]=(t.size,rconst(0))
            elif t.k=='ptr': o.cells[off]=(8,NULL)
            return
        o.cells[off]=(t.size if t.k!='int' else (t.w+7)//8, self.cval(st,c))
    def bounds(self,st,p,size,what):
        if isinstance(p,IteV):
            return self.bounds(st,p.a if self.decide(st,p.c) else p.b,size,what)
        if isinstance(p,int): p=Ptr(0,p)
        if not isinstance(p,Ptr): raise Unsupported('%s through %r'%(what,p))
        if p.o==0: self.fail(st,'memory: %s through null pointer'%what)
        o=st.mem[p.o]
        if o.gen is not None: return p,o
        if isinstance(p.off,Poly):
            # fork over the possible concrete offsets
            if o.size is None: raise Unsupported('symbolic offset into unsized object')
            step=size
            offs=sorted(k for k,(s,v) in o.cells.items()) if o.cells else []
            cand=[k for k in range(0,o.size-size+1,1) if k in o.cells] or list(range(0,o.size-size+1,size))
            for k in cand:
                if self.decide(st,f_eq(psub(p.off,P_const(k)))): return Ptr(p.o,k),o
            self.fail(st,'memory: %s out of bounds of %s'%(what,o.name))
        if o.dead: self.fail(st,'memory: %s of freed object %s'%(what,o.name))
        if p.off<0 or (o.size is not None and p.off+size>o.size): self.fail(st,'memory: %s out of bounds of %s (offset %s)'%(what,o.name,p.off))
        return p,o
    def load(self,st,p,t):
        if t.k=='struct':
            p,_=self.bounds(st,p,t.size,'load'); return [self.load(st,Ptr(p.o,p.off+t.offs[i]),e) for i,e in enumerate(t.elts)]
        if t.k in('array','vector'):
            p,_=self.bounds(st,p,t.size,'load'); return [self.load(st,Ptr(p.o,p.off+i*t.el.size),t.el) for i in range(t.n)]
        size=(t.w+7)//8 if t.k=='int' else t.size
        p,o=self.bounds(st,p,size,'load')
        if o.gen is not None: return self.genload(st,o,p.off,size,t)
        c=o.cells.get(p.off)
        if c is not None and c[0]==size: v=c[1]
        else: v=self.loadparts(st,o,p.off,size,t)
        return self.retype(st,v,t)
    def genload(self,st,o,off,size,t):
        """element of an abstract array of n records of k doubles: an uninterpreted function of the index"""
        name,k,n=o.gen; S=8*k
        off=off if isinstance(off,Poly) else P_const(off)
        if size!=8 or t.k!='float': raise Unsupported('load of part of an abstract array element')
        c0=0; q={}
        for m,c in off.t.items():
            if m==(): c0=int(c); continue
            if c%S: raise Unsupported('unaligned access to an abstract array')
            q[m]=c//S
        comp=c0%S
        if comp%8: raise Unsupported('unaligned access to an abstract array')
        idx=padd(Poly(q),P_const(c0//S))
        g=f_and(f_le(pscale(idx,-1)),f_lt(psub(idx,n)))
        kn=self.known(st,g)
        if kn is not True:
            self.oblige(st,'memory: access inside the sequence',g,'memory')
            if g is False: raise PathEnd()
            if not self.feas.sat(st,g): raise PathEnd()
            self.add_fact(st,g)
        return self.genat(o.gen,idx,comp//8)
    def genat(self,gen,idx,comp):
        key=('uf',gen[0]+str(comp),(R(idx),)); at=self.memo.get(key)
        if at is None: at=self.memo[key]=new_atom(gen[0]+str(comp),'R','uf',(gen[0]+str(comp),(R(idx),)))
        return ratom(at)
    def loadparts(self,st,o,off,size,t):
        parts=[]
        for k,(s,v) in o.cells.items():
            if k<off+size and off<k+s: parts.append((k,s,v))
        if not parts:
            if o.zero: return 0
            return Undef(t)
        parts.sort()
        if len(parts)==1:
            k,s,v=parts[0]
            if k<=off and off+size<=k+s:
                if isinstance(v,bool): v=int(v)
                if isinstance(v,int): return sgnfix((v>>(8*(off-k))),8*size)
                if isinstance(v,Cat): return self.catslice(v,off-k,size)
                if isinstance(v,Undef): return Undef(t)
                if isinstance(v,R) and v.is_const():
                    import struct
                    n=struct.unpack('<q',struct.pack('<d',float(v.const())))[0]
                    return sgnfix(n>>(8*(off-k)),8*size)
                if isinstance(v,IV) and k==off: # low bytes
                    return self.truncv(st,v,8*size)
        if all(isinstance(v,(int,bool)) for _,_,v in parts):
            r=0
            for k,s,v in parts:
                v=int(v)&((1<<(8*s))-1)
                sh=8*(k-off)
                r|= (v<<sh) if sh>=0 else (v>>-sh)
            return sgnfix(r,8*size)
        if all(off<=k and k+s<=off+size for k,s,_ in parts):
            return Cat([(k-off,s,v) for k,s,v in parts],size)
        raise Unsupported('partial load %d@%d of %s'%(size,off,parts))
    def truncv(self,st,v,w):
        if w==1:
            if isinstance(v,(bool,tuple)): return v
        if isinstance(v,bool): return int(v)
        if isinstance(v,int): return sgnfix(v,w) if w>1 else bool(v&1)
        if isinstance(v,IteV): return self.mkite(v.c,self.truncv(st,v.a,w),self.truncv(st,v.b,w))
        if isinstance(v,Undef): return v
        if isinstance(v,tuple): return v if w==1 else IteV(v,1,0)
        if isinstance(v,Cat):
            return self.catslice(v,0,w//8)
        if isinstance(v,IV):
            lo,hi=interval(v.p)
            if w==1:
                if lo>=0 and hi<=1: return f_not(f_eq(v.p))
                q=self.idiv(st,v.p,2); return f_not(f_eq(psub(v.p,pscale(q,2))))
            if lo>=-(1<<(w-1)) and hi<(1<<(w-1)): return v
            q=self.idiv(st,padd(v.p,P_const(1<<(w-1))),1<<w)
            H=f_and(f_le(psub(P_const(-(1<<(w-1))),v.p)),f_lt(psub(v.p,P_const(1<<(w-1)))))
            if self.decide(st,H): return v
            return IV(psub(v.p,pscale(q,1<<w)))
        if isinstance(v,Ptr): return v if w==64 else self._u('trunc ptr')
        raise Unsupported('trunc %r'%(v,))
    def _u(self,s): raise Unsupported(s)
    def retype(self,st,v,t):
        """reinterpret a loaded value at type t"""
        if t.k=='float':
            if isinstance(v,bool): v=int(v)
            if isinstance(v,int):
                import struct
                if t.w==64: d=struct.unpack('<d',struct.pack('<q',v))[0]
                elif t.w==32: d=struct.unpack('<f',struct.pack('<i',v))[0]
                else:
                    if v==0: d=0.0
                    else: raise Unsupported('fp80 bits')
                return self.cfloat(d)
            if isinstance(v,(R,Inf,NaN,AbsV,Undef,IteV)): return v
            raise Unsupported('float from %r'%(v,))
        if t.k=='int':
            if t.w==1:
                if isinstance(v,int) and not isinstance(v,bool): return bool(v&1)
                return v
            if isinstance(v,bool): return int(v)
            if isinstance(v,tuple): return IteV(v,1,0)
            return v
        if t.k=='ptr':
            if isinstance(v,int): return NULL if v==0 else Ptr(0,v)
            return v
        return v
    def cfloat(self,d):
        if d!=d: return NAN
        if d==math.inf: return PINF
        if d==-math.inf: return NINF
        if abs(d)==DBL_MAX and not self.opts.get('finite_max'): return PINF if d>0 else NINF   # values are assumed to be below the largest double
        return rconst(norm_c(Fraction(d)))
    def store(self,st,p,v,t):
        if t.k=='struct':
            p,_=self.bounds(st,p,t.size,'store')
            for i,e in enumerate(t.elts):
                self.store(st,Ptr(p.o,p.off+t.offs[i]),v[i] if isinstance(v,list) else Undef(e),e)
            return
        if t.k in('array','vector'):
            p,_=self.bounds(st,p,t.size,'store')
            for i in range(t.n): self.store(st,Ptr(p.o,p.off+i*t.el.size),v[i] if isinstance(v,list) else Undef(t.el),t.el)
            return
        size=(t.w+7)//8 if t.k=='int' else t.size
        p,o=self.bounds(st,p,size,'store')
        o=self.wobj(st,p.o)
        self.clear(o,p.off,size)
        if isinstance(v,Cat):
            for k,s,x in v.parts: o.cells[p.off+k]=(s,x)
        else: o.cells[p.off]=(size,v)
        if len(st.frames) and self.loopmode is not None: self.loopmode.wrote(st,p.o,p.off)
    def clear(self,o,off,size):
        c=o.cells.get(off)
        if c is not None and c[0]==size:
            return
        bad=[k for k,(s,v) in o.cells.items() if k<off+size and off<k+s]
        for k in bad:
            s,v=o.cells.pop(k)
            # keep the non overlapped remainder of splittable values
            if k<off or k+s>off+size:
                if isinstance(v,bool): v=int(v)
                if isinstance(v,int):
                    for b in range(k,k+s):
                        if not(off<=b<off+size): o.cells[b]=(1,sgnfix(v>>(8*(b-k)),8))
                elif isinstance(v,Undef): pass
                else: raise Unsupported('partial overwrite')
        if o.zero:
            pass
    def memcpy(self,st,d,s,n):
        if not isinstance(n,int):
            n=self.as_poly(st,n,64)
            if n.is_const(): n=int(n.const())
            else: raise Unsupported('symbolic memcpy length')
        if n==0: return
        s,so=self.bounds(st,s,n,'memcpy read'); d,do=self.bounds(st,d,n,'memcpy write')
        if so.gen is not None:
            if n%8: raise Unsupported('copy of part of an abstract array element')
            for k in range(0,n,8):
                v=self.genload(st,so,padd(s.off if isinstance(s.off,Poly) else P_const(s.off),P_const(k)),8,_DBL)
                self.store(st,Ptr(d.o,d.off+k),v,_DBL)
            return
        parts=[(k,sz,v) for k,(sz,v) in so.cells.items() if k<s.off+n and s.off<k+sz]
        do=self.wobj(st,d.o)
        # drop overlapped target
        for k in [k for k,(z,v) in do.cells.items() if k<d.off+n and d.off<k+z]:
            z,v=do.cells.pop(k)
            if k<d.off or k+z>d.off+n:
                if isinstance(v,bool): v=int(v)
                if isinstance(v,int):
                    for b in range(k,k+z):
                        if not(d.off<=b<d.off+n): do.cells[b]=(1,sgnfix(v>>(8*(b-k)),8))
                elif not isinstance(v,Undef): raise Unsupported('partial memcpy overwrite')
        for k,sz,v in parts:
            if k<s.off or k+sz>s.off+n:
                if isinstance(v,bool): v=int(v)
                if isinstance(v,int):
                    for b in range(max(k,s.off),min(k+sz,s.off+n)): do.cells[b-s.off+d.off]=(1,sgnfix(v>>(8*(b-k)),8))
                    continue
                if isinstance(v,Undef): continue
                raise Unsupported('partial memcpy')
            do.cells[k-s.off+d.off]=(sz,v)
        if so.zero and not parts:
            self.memset(st,d,0,n)
        if self.loopmode is not None:
            for k,sz,v in parts: self.loopmode.wrote(st,d.o,k-s.off+d.off)
    def memset(self,st,d,b,n):
        if not isinstance(n,int): raise Unsupported('symbolic memset')
        if n==0: return
        d,do=self.bounds(st,d,n,'memset'); do=self.wobj(st,d.o)
        if not isinstance(b,int): raise Unsupported('memset symbolic byte')
        k=0
        v8=int.from_bytes(bytes([b&255])*8,'little',signed=True)
        while k<n:
            if n-k>=8 and (d.off+k)%8==0: self.clear(do,d.off+k,8); do.cells[d.off+k]=(8,v8); k+=8
            else: self.clear(do,d.off+k,1); do.cells[d.off+k]=(1,sgnfix(b,8)); k+=1
    # ---------------- constants / operands
    def cval(self,st,c):
        if isinstance(c,ir.CInt): return bool(c.v) if c.w==1 else c.v
        if isinstance(c,ir.CFP): return self.cfloat(c.v)
        if isinstance(c,ir.CNull): return NULL
        if isinstance(c,ir.CUndef):
            t=c.ty
            if t.k in('struct','array','vector'): return self.zero(st,t,True)
            return Undef(t)
        if isinstance(c,ir.CGlobal): return FnPtr(c.name) if c.isfn else self.gptr(st,c.name)
        if isinstance(c,ir.CAgg):
            if c.el is None: return self.zero(st,c.ty)
            return [self.cval(st,e) for e in c.el]
        if isinstance(c,ir.CExpr):
            a=[self.cval(st,x) for x in c.a]
            if c.op=='getelementptr':
                p=a[0]; off=c.x[0]
                for i,sz in c.x[1]: off+=a[i]*sz
                if isinstance(p,FnPtr): return p
                return Ptr(p.o,self.addoff(st,p.off,off))
            if c.op in('bitcast','ptrtoint','inttoptr','addrspacecast','trunc','zext'): return a[0]
            if c.op=='sub': return self.iarith(st,'sub',a[0],a[1],64,1)
            if c.op=='icmp': return self.icmp(st,c.x,a[0],a[1],64)
            raise Unsupported('constexpr '+c.op)
        if c is None: return None
        raise Unsupported('const %r'%(c,))
    def zero(self,st,t,undef=False):
        if t.k=='struct': return [self.zero(st,e,undef) for e in t.elts]
        if t.k in('array','vector'): return [self.zero(st,t.el,undef) for _ in range(t.n)]
        if undef: return Undef(t)
        if t.k=='float': return rconst(0)
        if t.k=='ptr': return NULL
        if t.w==1: return False
        return 0
    def val(self,st,fr,o):
        if o.__class__ is ir.V:
            try: return fr.env[o.id]
            except KeyError: raise Unsupported('undefined value in '+fr.fn.name)
        return self.cval(st,o)
    # ---------------- obligations
    def oblige(self,st,name,goal,kind):
        o=Oblig(); o.name=name; o.pc=list(st.pc); o.goal=goal; o.inputs=list(st.inputs); o.kind=kind; o.path=self.npaths
        self.obl.append(o)
    def fail(self,st,name):
        """an obligation that this point is unreachable; path stops"""
        self.oblige(st,name,False,'unreachable')
        raise PathEnd()
    def cstr(self,st,p):
        o=st.mem[p.o]; s=b''; k=p.off
        while True:
            c=o.cells.get(k)
            if c is None:
                break
            v=c[1]
            if isinstance(v,int) and c[0]==1:
                if v==0: break
                s+=bytes([v&255]); k+=1
            else: break
        return s.decode(errors='replace')
    # ---------------- run
    def start(self,fname,args=()):
        st=State(); st.frames=[]; st.mem={}; st.pc=[]; st.facts=set(); st.tok=object(); st.trace=[]; st.steps=0; st.inputs=[]; st.contracts={}; st.covers=None; st.ncut=0; st.notes=[]; st.retval=None
        fn=self.m.function(fname)
        self.push(st,fn,list(args),None)
        return st
    def push(self,st,fn,args,ret):
        if len(st.frames)>200: raise Unsupported('call depth')
        fr=Frame(); fr.fn=fn; fr.bb=fn.entry; fr.prev=None; fr.ip=0; fr.env={}; fr.ret=ret; fr.cl=None
        for (pid,_),a in zip(fn.params,args): fr.env[pid]=a
        st.frames.append(fr)
        self.called[fn.name]=self.called.get(fn.name,0)+1
    def run(self,st):
        work=[st]
        while work:
            if self.deadline and time.time()>self.deadline: raise Unsupported('time budget of the VC generator exhausted')
            if self.npaths>self.max_paths: raise Unsupported('path budget exhausted (%d)'%self.max_paths)
            s=work.pop()
            try:
                while True:
                    if not s.frames:
                        self.npaths+=1
                        self.endstates.append(s) if self.opts.get('keep_end') else None
                        break
                    self.step(s)
            except ForkReq as e:
                self.nfork+=1
                f=e.f
                a,b=self.feas.both(s,f)
                if a and b:
                    t=s.copy()
                    self.add_fact(s,f); self.add_fact(t,f_not(f)); self.settle(s,f,True); self.settle(t,f,False)
                    work.append(t); work.append(s)
                elif a: self.add_fact(s,f); self.settle(s,f,True); work.append(s)
                elif b: self.add_fact(s,f_not(f)); self.settle(s,f,False); work.append(s)
                else: self.npaths+=1   # path infeasible
            except Unwound: work.append(s)
            except PathEnd:
                self.npaths+=1
    def settle(self,s,f,val):
        # make decide(f) terminate even when f is a compound formula
        if val: s.facts.add(f)
        else: s.facts.add(('not',f)); s.facts.add(f_not_shallow(f))
    def step(self,st):
        fr=st.frames[-1]
        I=fr.fn.blocks[fr.bb].insts[fr.ip]
        self.nsteps+=1
        if self.nsteps>self.max_steps: raise Unsupported('step budget exhausted')
        if self.deadline and (self.nsteps&255)==0 and time.time()>self.deadline: raise Unsupported('time budget of the VC generator exhausted')
        getattr(self,'i_'+I.op)(st,fr,I)
    def jump(self,st,fr,bb):
        if self.loopmode is not None and self.loopmode.on_jump(st,fr,bb): return
        self.rawjump(st,fr,bb)
    def rawjump(self,st,fr,bb):
        prev=fr.bb
        blk=fr.fn.blocks[bb]
        k=0; new=[]
        for I in blk.insts:
            if I.op!='phi': break
            new.append((I.id,self.val(st,fr,I.x[prev]))); k+=1
        for i,v in new: fr.env[i]=v
        fr.prev=prev; fr.bb=bb; fr.ip=k
    def i_br(self,st,fr,I):
        if not I.a: self.jump(st,fr,I.x[0]); return
        c=self.bool1(st,self.val(st,fr,I.a[0]))
        if self.loopmode is not None: self.loopmode.on_branch(st,fr,I,c)
        self.jump(st,fr,I.x[0] if self.decide(st,c) else I.x[1])
    def i_switch(self,st,fr,I):
        v=self.val(st,fr,I.a[0])
        w=None
        for k,bb in I.x[0]:
            e=self.icmp(st,'eq',v,k,32)
            if e is True or (e is not False and self.decide(st,e)): self.jump(st,fr,bb); return
        self.jump(st,fr,I.x[1])
    def i_ret(self,st,fr,I):
        v=self.val(st,fr,I.a[0]) if I.a else None
        st.frames.pop()
        if not st.frames: st.retval=v; return
        c=st.frames[-1]
        inst=fr.ret
        if inst is not None:
            if I.a: c.env[inst.id]=v
            if inst.op=='invoke': self.jump(st,c,inst.x[0])
            else: c.ip+=1
    def i_unreachable(self,st,fr,I):
        self.fail(st,'unreachable code reached in '+fr.fn.name)
    def i_resume(self,st,fr,I):
        try: self.unwind(st,*st.contracts['#exc'])
        except Unwound: pass
    def unwind(self,st,obj,ti):
        """C++ exception propagation: pop frames up to an invoke whose landing pad applies"""
        st.contracts['#exc']=(obj,ti)
        k=len(st.frames)-1; I=st.frames[k].fn.blocks[st.frames[k].bb].insts[st.frames[k].ip]
        while True:
            fr=st.frames[k]
            if I is not None and I.op=='invoke':
                lp=[i for i in fr.fn.blocks[I.x[1]].insts if i.op=='landingpad'][0]
                sel=None
                for c in lp.a:
                    n=c.name if isinstance(c,ir.CGlobal) else None
                    if n is None: 
                        if isinstance(c,ir.CAgg): continue
                        sel=1; break
                    if n==ti or n in EXC_BASES.get(ti,()): sel=self.tyid(n); break
                    if ti not in EXC_BASES and ti is not None and not ti.startswith('_ZTISt'): raise Unsupported('catch clause for '+str(ti))
                if sel is None and lp.x: sel=0
                if sel is not None:
                    del st.frames[k+1:]; st.contracts['#lp']=[obj,sel]
                    self.jump(st,fr,I.x[1]); raise Unwound()
            if k==0: self.fail(st,'no exception is thrown')
            I=fr.ret; k-=1
    def tyid(self,n):
        d=self.__dict__.setdefault('_tyids',{}); return d.setdefault(n,2+len(d))
    def i_landingpad(self,st,fr,I): self.setv(fr,I,list(st.contracts['#lp']))
    def setv(self,fr,I,v):
        fr.env[I.id]=v; fr.ip+=1
    def i_alloca(self,st,fr,I):
        n=self.val(st,fr,I.a[0])
        if not isinstance(n,int): raise Unsupported('vla')
        self.setv(fr,I,self.newobj(st,I.x.size*n,'local in '+fr.fn.name[:60]))
    def i_load(self,st,fr,I): self.setv(fr,I,self.load(st,self.val(st,fr,I.a[0]),I.ty))
    def i_store(self,st,fr,I):
        self.store(st,self.val(st,fr,I.a[1]),self.val(st,fr,I.a[0]),I.x); fr.ip+=1
    def i_getelementptr(self,st,fr,I):
        p=self.val(st,fr,I.a[0]); off,var=I.x
        if I.ty.k=='vector': raise Unsupported('vector gep')
        d=off
        for i,sz in var:
            x=self.val(st,fr,I.a[i])
            d=self.iarith(st,'add',d,self.iarith(st,'mul',x,sz,64,1),64,1)
        def g(p,d):
            if isinstance(p,int): return Ptr(0,p+d)
            if isinstance(p,FnPtr): return p
            if isinstance(p,Undef): return p
            return Ptr(p.o,self.addoff(st,p.off,d))
        self.setv(fr,I,self.distribute(g,p,d))
    def bin(self,st,fr,I,fn):
        a=self.val(st,fr,I.a[0]); b=self.val(st,fr,I.a[1])
        if isinstance(a,list): return [fn(x,y) for x,y in zip(a,b)]
        return fn(a,b)
    def i_int(self,st,fr,I):
        w=I.ty.w if I.ty.k=='int' else I.ty.el.w
        self.setv(fr,I,self.bin(st,fr,I,lambda a,b:self.iarith(st,I.op,a,b,w,I.flags)))
    i_add=i_sub=i_mul=i_udiv=i_sdiv=i_urem=i_srem=i_shl=i_lshr=i_ashr=i_and=i_or=i_xor=i_int
    def i_float(self,st,fr,I):
        self.setv(fr,I,self.bin(st,fr,I,lambda a,b:self.farith(st,I.op,a,b)))
    i_fadd=i_fsub=i_fmul=i_fdiv=i_frem=i_float
    def fneg(self,st,v):
        v=self.fl(st,v)
        if v is NAN: return v
        if isinstance(v,Inf): return Inf(-v.s)
        return rneg(self.absforce(st,v))
    def i_fneg(self,st,fr,I):
        v=self.val(st,fr,I.a[0])
        self.setv(fr,I,[self.fneg(st,x) for x in v] if isinstance(v,list) else self.fneg(st,v))
    def i_icmp(self,st,fr,I):
        self.setv(fr,I,self.bin(st,fr,I,lambda a,b:self.icmp(st,I.x,a,b,I.flags)))
    def i_fcmp(self,st,fr,I):
        self.setv(fr,I,self.bin(st,fr,I,lambda a,b:self.fcmp(st,I.x,a,b)))
    def i_select(self,st,fr,I):
        c=self.val(st,fr,I.a[0]); a=self.val(st,fr,I.a[1]); b=self.val(st,fr,I.a[2])
        if isinstance(c,list):
            self.setv(fr,I,[self.sel(st,x,y,z,I.ty.el) for x,y,z in zip(c,a,b)]); return
        self.setv(fr,I,self.sel(st,c,a,b,I.ty))
    def sel(self,st,c,a,b,t):
        c=self.bool1(st,c)
        k=self.known(st,c)
        if k is not None: return a if k else b
        if t.k=='int':
            if t.w==1: return f_ite(c,self.bool1(st,a),self.bool1(st,b)) if not(b is False) and not (a is True) else (f_and(c,self.bool1(st,a)) if b is False else f_or(c,self.bool1(st,b)))
            return self.mkite(c,a,b)
        if t.k=='float' and self.opts.get('ite') and isinstance(a,R) and isinstance(b,R):
            if a==b: return a
            key=('ite',c,a,b); x=self.memo.get(key)
            if x is None:
                x=new_atom('ite','R','ite',(c,a,b)); self.memo[key]=x
                e1=f_eq(rsub(ratom(x),a).n); e2=f_eq(rsub(ratom(x),b).n)
                x.defs.append(f_and(f_or(f_not(c),e1),f_or(c,e2)))
            return ratom(x)
        return a if self.decide(st,c) else b
    def i_freeze(self,st,fr,I): self.setv(fr,I,self.val(st,fr,I.a[0]))
    def i_zext(self,st,fr,I):
        v=self.val(st,fr,I.a[0]); w=I.x.w
        def z(v):
            if isinstance(v,bool): return int(v)
            if isinstance(v,tuple): return IteV(v,1,0)
            if isinstance(v,int): return v&((1<<w)-1)
            if isinstance(v,IteV): return self.mkite(v.c,z(v.a),z(v.b))
            if isinstance(v,IV):
                lo,_=interval(v.p)
                if lo>=0 or not self.decide(st,f_lt(v.p)): return v
                return IV(padd(v.p,P_const(1<<w)))
            return v
        self.setv(fr,I,z(v))
    def i_sext(self,st,fr,I):
        v=self.val(st,fr,I.a[0])
        def z(v):
            if isinstance(v,bool): return -int(v)
            if isinstance(v,tuple): return IteV(v,-1,0)
            return v
        self.setv(fr,I,z(v))
    def i_trunc(self,st,fr,I):
        if I.ty.k=='vector':
            self.setv(fr,I,[self.truncv(st,x,I.ty.el.w) for x in self.val(st,fr,I.a[0])]); return
        self.setv(fr,I,self.truncv(st,self.val(st,fr,I.a[0]),I.ty.w))
    def i_fpext(self,st,fr,I): self.setv(fr,I,self.val(st,fr,I.a[0]))
    i_fptrunc=i_fpext
    def i_bitcast(self,st,fr,I):
        v=self.val(st,fr,I.a[0])
        if I.ty.k=='int' and I.x.k=='float':
            if isinstance(v,R) and v.is_const():
                import struct
                v=struct.unpack('<q',struct.pack('<d',float(v.const())))[0]
        elif I.ty.k=='float': v=self.retype(st,v,I.ty)
        elif 'vector' in(I.ty.k,I.x.k):
            raise Unsupported('vector bitcast')
        self.setv(fr,I,v)
    i_ptrtoint=i_addrspacecast=i_bitcast
    def i_inttoptr(self,st,fr,I): self.setv(fr,I,self.retype(st,self.val(st,fr,I.a[0]),I.ty))
    def i_sitofp(self,st,fr,I):
        v=self.val(st,fr,I.a[0]); w=I.x.w
        uns=I.op=='uitofp'
        def z(v):
            if isinstance(v,bool): return rconst(int(v) if (uns or w>1) else -int(v))
            if isinstance(v,tuple): return IteV(v,rconst(1 if uns else -1),rconst(0))
            if isinstance(v,int): return rconst(v&((1<<w)-1) if uns else v)
            if isinstance(v,IteV): return IteV(v.c,z(v.a),z(v.b))
            p=self.as_poly(st,v,w)
            if uns and interval(p)[0]<0 and self.decide(st,f_lt(p)): p=padd(p,P_const(1<<w))
            return R(p)
        r=z(v)
        while isinstance(r,IteV): r=r.a if self.decide(st,r.c) else r.b
        self.setv(fr,I,r)
    i_uitofp=i_sitofp
    def i_fptosi(self,st,fr,I):
        v=self.absforce(st,self.fl(st,self.val(st,fr,I.a[0]))); w=I.ty.w
        if not isinstance(v,R): raise Unsupported('fptosi of non finite')
        if v.is_const(): self.setv(fr,I,sgnfix(int(v.const()),w)); return
        if v.d is ONE and p_isint(v.n): self.setv(fr,I,self.mkint(st,v.n,w,1)); return
        self.setv(fr,I,IV(self.trunc_atom(st,v)))
    i_fptoui=i_fptosi
    def i_extractvalue(self,st,fr,I):
        v=self.val(st,fr,I.a[0])
        for i in I.x: v=v[i]
        self.setv(fr,I,v)
    def i_insertvalue(self,st,fr,I):
        v=self.val(st,fr,I.a[0]); x=self.val(st,fr,I.a[1])
        def ins(v,ix):
            v=list(v)
            v[ix[0]]=x if len(ix)==1 else ins(v[ix[0]],ix[1:])
            return v
        if isinstance(v,Undef): v=self.zero(st,I.ty,True)
        self.setv(fr,I,ins(v,I.x))
    def i_extractelement(self,st,fr,I):
        v=self.val(st,fr,I.a[0]); k=self.val(st,fr,I.a[1]); self.setv(fr,I,v[k])
    def i_insertelement(self,st,fr,I):
        v=self.val(st,fr,I.a[0]); x=self.val(st,fr,I.a[1]); k=self.val(st,fr,I.a[2])
        v=list(v) if isinstance(v,list) else self.zero(st,I.ty,True); v[k]=x; self.setv(fr,I,v)
    def i_shufflevector(self,st,fr,I):
        a=self.val(st,fr,I.a[0]); b=self.val(st,fr,I.a[1])
        c=list(a)+list(b); self.setv(fr,I,[c[k] if k>=0 else Undef(I.ty.el) for k in I.x])
    def i_fence(self,st,fr,I): fr.ip+=1
    def i_atomicrmw(self,st,fr,I): raise Unsupported('atomicrmw')
    def i_call(self,st,fr,I):
        f=I.fn
        if isinstance(f,ir.CGlobal): name=f.name
        elif isinstance(f,ir.CExpr) and f.op=='asm': self.done(st,fr,I,None); return
        else:
            fp=self.val(st,fr,f)
            if isinstance(fp,IteV): fp=fp.a if self.decide(st,fp.c) else fp.b
            if isinstance(fp,Ptr): raise Unsupported('indirect call')
            if not isinstance(fp,FnPtr): raise Unsupported('indirect call through %r'%(fp,))
            name=fp.n
        h=st.contracts.get(name)
        if h is not None and fr.fn.name!=h:
            self.uses.add(name)
            fn=self.m.function(h)
            self.push(st,fn,[self.val(st,fr,a) for a in I.a],I); return
        b=self.builtin(name)
        if b is not None:
            args=[self.val(st,fr,a) if not(isinstance(a,tuple)) else None for a in I.a]
            r=b(st,args,I)
            self.done(st,fr,I,r); return
        fn=self.m.function(name)
        if fn is None or fn.decl:
            raise Unsupported('external function '+name)
        args=[self.val(st,fr,a) for a in I.a]
        self.push(st,fn,args,I)
    i_invoke=i_call
    def done(self,st,fr,I,r):
        if I.ty.k!='void': fr.env[I.id]=r
        if I.op=='invoke': self.jump(st,fr,I.x[0])
        else: fr.ip+=1
    def builtin(self,name):
        if name in self._bcache: return self._bcache[name]
        r=self._bcache[name]=self._builtin(name)
        return r
    def _builtin(self,name):
        import builtins_vc
        return builtins_vc.lookup(name,self)
