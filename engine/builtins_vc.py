"""Intrinsics of the contract language (vc_*), LLVM intrinsics, and the few libc/libstdc++ externals the code reaches."""
import math
from fractions import Fraction
from terms import *
import terms as T

def lookup(name,ex):
    X=__import__('exec')
    R_=T.R
    if name in TABLE: return TABLE[name](ex,X)
    if name.startswith('llvm.'):
        for k,v in LLVM.items():
            if name==k or name.startswith(k+'.') or (k.endswith('*') and name.startswith(k[:-1])): return v(ex,X)
    if name.startswith('_ZNSt') and 'Ios_Init' in name: return lambda st,a,I: None
    if name.startswith('_ZN5boost16assertion_failed'): return mk_assert(ex,X)
    return None

def noop(ex,X): return lambda st,a,I: None
def named_real(ex,X):
    def f(st,a,I):
        n=ex.cstr(st,a[0]); k=len(st.inputs)
        key=('in',k,n,'R'); at=ex.memo.get(key)
        if at is None: at=ex.memo[key]=new_atom(n,'R','in')
        st.inputs.append(('real',n,at.id)); return ratom(at)
    return f
def named_int(ex,X):
    def f(st,a,I):
        n=ex.cstr(st,a[0]); lo,hi=a[1],a[2]; k=len(st.inputs)
        if not(isinstance(lo,int) and isinstance(hi,int)): raise X.Unsupported('vc_int bounds must be constant')
        key=('in',k,n,'I',lo,hi); at=ex.memo.get(key)
        if at is None: at=ex.memo[key]=new_atom(n,'I','in',None,lo,hi)
        st.inputs.append(('int',n,at.id)); return X.IV(P_atom(at))
    return f
def named_choice(ex,X):
    # concrete enumeration: forks into every value lo..hi
    def f(st,a,I):
        n=ex.cstr(st,a[0]); lo,hi=a[1],a[2]; k=len(st.inputs)
        key=('in',k,n,'I',lo,hi); at=ex.memo.get(key)
        if at is None: at=ex.memo[key]=new_atom(n,'I','in',None,lo,hi)
        for v in range(lo,hi):
            if ex.decide(st,f_eq(psub(P_atom(at),P_const(v)))):
                st.inputs.append(('int',n,at.id)); return v
        st.inputs.append(('int',n,at.id)); return hi
    return f
def named_bool(ex,X):
    def f(st,a,I):
        n=ex.cstr(st,a[0]); k=len(st.inputs)
        key=('in',k,n,'B'); at=ex.memo.get(key)
        if at is None: at=ex.memo[key]=new_atom(n,'B','in')
        st.inputs.append(('bool',n,at.id)); return ('bv',at.id)
    return f
def assume(ex,X):
    def f(st,a,I):
        c=ex.bool1(st,a[0]); k=ex.known(st,c)
        if k is False: raise X.PathEnd()
        if k is None:
            if not ex.feas.sat(st,c): raise X.PathEnd()
            ex.add_fact(st,c)
    return f
def ensure(ex,X):
    def f(st,a,I):
        n=ex.cstr(st,a[1]); c=ex.bool1(st,a[0])
        k=ex.known(st,c)
        ex.oblige(st,n,True if k else c,'ensure')
    return f
def cover(ex,X):
    def f(st,a,I):
        n=ex.cstr(st,a[0])
        l=ex.covers.setdefault(n,[])
        if len(l)<40: l.append((list(st.pc),list(st.inputs)))
    return f
def use_contract(ex,X):
    def f(st,a,I):
        if isinstance(a[0],X.FnPtr) and isinstance(a[1],X.FnPtr): 
            ex.check_contract_sig(a[0].n,a[1].n) if hasattr(ex,'check_contract_sig') else None
            st.contracts[a[0].n]=a[1].n
    return f
def candidate(ex,X):
    def f(st,a,I):
        if not isinstance(a[1],X.FnPtr): raise X.Unsupported('candidate function')
        c=(ex.cstr(st,a[0]),a[1].n,ex.cstr(st,a[2]))
        if ex.loopmode is not None and c not in ex.loopmode.cands: ex.loopmode.cands.append(c)
    return f
def size_(ex,X):
    def f(st,a,I):
        lo=a[1]
        if ex.opts.get('bounded'): return named_choice(ex,X)(st,[a[0],lo,lo+int(ex.opts.get('bound') or 2)],I)
        r=named_int(ex,X)(st,[a[0],lo,1<<40],I); z=T.ATOMS[list(r.p.t)[0][0][0]]
        if z not in ex.loopmode.sizes: ex.loopmode.sizes.append(z)
        return r
    return f
def index_(ex,X):
    # an index 0 <= i < n of a sequence of symbolic length
    def f(st,a,I):
        n=a[1]
        if ex.opts.get('bounded') and isinstance(n,int): return named_choice(ex,X)(st,[a[0],0,n-1],I)
        r=named_int(ex,X)(st,[a[0],0,1<<41],I); ex.add_fact(st,f_lt(psub(ex.as_poly(st,r,64),ex.as_poly(st,n,64))))
        z=T.ATOMS[list(r.p.t)[0][0][0]]
        if z not in ex.loopmode.sizes: ex.loopmode.sizes.append(z)
        return r
    return f
def array(ex,X):
    def f(st,a,I):
        nm=ex.cstr(st,a[0]); n=a[1]; k=a[2]
        if isinstance(n,int):
            p=ex.newobj(st,8*n*k,'array '+nm); o=ex.wobj(st,p.o)
            for i in range(n*k):
                q=len(st.inputs); key=('in',q,nm,'R'); at=ex.memo.get(key)
                if at is None: at=ex.memo[key]=new_atom(nm,'R','in')
                st.inputs.append(('real',nm,at.id)); o.cells[8*i]=(8,ratom(at))
            return p
        p=ex.newobj(st,None,'array '+nm); st.mem[p.o].gen=(nm+'#%d#'%len(st.inputs),k,ex.as_poly(st,n,64)); 
        return p
    return f
def at_(ex,X):
    # element of an array at any index (total: no bounds obligation; used in specifications only)
    def f(st,a,I):
        p,i,c=a[0],a[1],a[2]; o=st.mem[p.o]
        if o.gen is not None: return ex.genat(o.gen,ex.as_poly(st,i,64),c)
        k=a[3]; i=ex.as_poly(st,i,64)
        if i.is_const():
            v=o.cells.get(8*(int(i.const())*k+c)); return v[1] if v else ratom(new_atom('out','R','undef'))
        n=o.size//(8*k)
        for j in range(n):
            if ex.decide(st,f_eq(psub(i,P_const(j)))): return o.cells[8*(j*k+c)][1]
        return ratom(new_atom('out','R','undef'))
    return f
def fold(ex,X):
    # vc_fold(name,step,init,i): step(...step(init,0)...,i-1); defined for i>=0
    def f(st,a,I):
        nm=ex.cstr(st,a[0]); fn=a[1].n; init=ex.absforce(st,ex.fl(st,a[2])); idx=ex.as_poly(st,a[3],64)
        cl=st.copy(); cl.pc=[]; cl.facts=set()      # definitions must not depend on the path
        steps=lambda acc,i: ex.loopmode.call(cl,fn,[acc,i],True)
        if idx.is_const():
            v=init
            for i in range(int(idx.const())):
                r=steps(v,i)
                if len(r)!=1:
                    # name the value
                    x=new_atom(nm,'R','fold')
                    for g,w in r: x.defs.append(f_or(f_not(g),f_eq(rsub(ratom(x),w).n)))
                    v=ratom(x)
                else: v=r[0][1]
            return v
        key=('uf','fold '+nm,(R(idx),)); at=ex.memo.get(key)
        if at is None:
            at=ex.memo[key]=new_atom(nm,'R','uf',('fold '+nm,(R(idx),)))
            at.defs.append(f_or(f_not(f_eq(idx)),f_eq(rsub(ratom(at),init).n)))
            iv=X.IV(idx)
            at.data=at.data+([(g,w) for g,w in steps(ratom(at),iv)],)    # values of the next application
        return ratom(at)
    return f
def opt(ex,X):
    def f(st,a,I):
        n=ex.cstr(st,a[0]); v=ex.cstr(st,a[1]) if len(a)>1 else '1'
        if n=='loops' and ex.opts.get('bounded'): return None
        ex.opts[n]=v if v!='0' else None
    return f
def uf(ex,X):
    # double vc_fn(const char* name, int nargs, double...)
    def f(st,a,I):
        n=ex.cstr(st,a[0]); k=a[1]
        args=[]
        for x in a[2:2+k]:
            if isinstance(x,(int,bool)) and not isinstance(x,bool): args.append(rconst(x))
            elif isinstance(x,X.IV): args.append(R(x.p))
            else: args.append(ex.absforce(st,ex.fl(st,x)))
        key=('uf',n,tuple(args)); at=ex.memo.get(key)
        if at is None:
            at=ex.memo[key]=new_atom(n,'R','uf',(n,tuple(args)))
            ex.ufapps.setdefault((n,k),[]).append(at)
        return ratom(at)
    return f
def uf_int(ex,X):
    def f(st,a,I):
        n=ex.cstr(st,a[0]); lo,hi=a[1],a[2]; k=a[3]
        args=[]
        for x in a[4:4+k]:
            if isinstance(x,int): args.append(rconst(x))
            elif isinstance(x,X.IV): args.append(R(x.p))
            else: args.append(ex.absforce(st,ex.fl(st,x)))
        key=('ufi',n,tuple(args)); at=ex.memo.get(key)
        if at is None:
            at=ex.memo[key]=new_atom(n,'I','uf',(n,tuple(args)),lo,hi)
            ex.ufapps.setdefault((n,k),[]).append(at)
        return X.IV(P_atom(at))
    return f
def fabs(ex,X):
    def f(st,a,I):
        v=ex.fl(st,a[0])
        if v is X.NAN or isinstance(v,X.AbsV): return v
        if isinstance(v,X.Inf): return X.PINF
        if v.is_const(): return rconst(abs(v.const()))
        s=sgn_syntactic(v.n) if v.d is ONE else None
        if s in('>0','>=0'): return v
        if s in('<0','<=0'): return rneg(v)
        return X.AbsV(v)
    return f
def sqrt(ex,X): return lambda st,a,I: ex.sqrt(st,a[0])
def floor_(kind):
    def mk(ex,X):
        def f(st,a,I):
            v=ex.absforce(st,ex.fl(st,a[0]))
            if not isinstance(v,R): return v
            if v.is_const():
                c=Fraction(v.const())
                return rconst({'floor':math.floor,'ceil':math.ceil,'trunc':math.trunc}[kind](c))
            if v.d is ONE and p_isint(v.n): return v
            if kind=='floor': return ratom(ex.floor_atom(st,v))
            if kind=='ceil': return rneg(ratom(ex.floor_atom(st,rneg(v))))
            if kind=='trunc':
                return R(ex.trunc_atom(st,v))
            if kind=='round':
                h=rconst(Fraction(1,2))
                if ex.decide(st,f_lt(ex.numsign(st,v))): return rneg(ratom(ex.floor_atom(st,radd(rneg(v),h))))
                return ratom(ex.floor_atom(st,radd(v,h)))
        return f
    return mk
def minmax(s):
    def mk(ex,X):
        def f(st,a,I):
            x,y=ex.fl(st,a[0]),ex.fl(st,a[1])
            if x is X.NAN: return y
            if y is X.NAN: return x
            return x if ex.decide(st,ex.fcmp(st,'ole' if s<0 else 'oge',x,y)) else y
        return f
    return mk
def copysign(ex,X):
    def f(st,a,I):
        x=ex.absforce(st,ex.fl(st,a[0])); y=ex.absforce(st,ex.fl(st,a[1]))
        ax=fabs(ex,X)(st,[x],I); ax=ex.absforce(st,ax)
        if isinstance(y,X.Inf): neg=y.s<0
        else: neg=ex.decide(st,f_lt(ex.numsign(st,y)))
        return ex.fneg(st,ax) if neg else ax
    return f
def iminmax(op,s):
    def mk(ex,X):
        def f(st,a,I):
            c=ex.icmp(st,op,a[0],a[1],I.ty.w)
            return ex.sel(st,c,a[0],a[1],I.ty)
        return f
    return mk
def iabs(ex,X):
    def f(st,a,I):
        c=ex.icmp(st,'slt',a[0],0,I.ty.w)
        n=ex.iarith(st,'sub',0,a[0],I.ty.w,1)
        return ex.sel(st,c,n,a[0],I.ty)
    return f
def ctpop(ex,X):
    def f(st,a,I):
        v=a[0]; w=I.ty.w
        if isinstance(v,int): return bin(v&((1<<w)-1)).count('1')
        for k in range(0,17):   # small values only
            c=ex.icmp(st,'eq',v,k,w)
            if c is True or (c is not False and ex.decide(st,c)): return bin(k).count('1')
        raise X.Unsupported('ctpop of an unbounded integer')
    return f
def memcpy(ex,X): 
    def f(st,a,I): ex.memcpy(st,a[0],a[1],a[2]); return a[0]
    return f
def memset(ex,X):
    def f(st,a,I): ex.memset(st,a[0],a[1],a[2]); return a[0]
    return f
def new(ex,X):
    def f(st,a,I):
        n=a[0]
        if not isinstance(n,int):
            p=ex.as_poly(st,n,64)
            if p.is_const(): n=int(p.const())
            else: raise X.Unsupported('symbolic allocation size')
        return ex.newobj(st,n,'heap')
    return f
def delete(ex,X):
    def f(st,a,I):
        p=a[0]
        if isinstance(p,X.Ptr) and p.o:
            o=st.mem[p.o]
            if o.dead: ex.fail(st,'memory: double free')
            ex.wobj(st,p.o).dead=True
    return f
def throw(ex,X):
    def f(st,a,I):
        if st.contracts.get('#throws_ok'): raise X.PathEnd()
        ti=getattr(I.a[1],'name',None)
        ex.unwind(st,a[0],ti)
    return f
def rethrow(ex,X):
    def f(st,a,I): ex.unwind(st,*st.contracts['#exc'])
    return f
def std_throw(ti):
    def mk(ex,X):
        def f(st,a,I):
            if st.contracts.get('#throws_ok'): raise X.PathEnd()
            ex.unwind(st,ex.newobj(st,16,'exception'),'_ZTISt'+ti)
        return f
    return mk
def typeid_for(ex,X):
    def f(st,a,I): return ex.tyid(I.a[0].name)
    return f
def named_throw(n):
    def mk(ex,X):
        def f(st,a,I): ex.fail(st,'no exception is thrown (%s)'%n)
        return f
    return mk
def mk_assert(ex,X):
    def f(st,a,I):
        ex.fail(st,'library assertion holds: '+ex.cstr(st,a[0])[:120])
    return f
def getp(ex,X): return lambda st,a,I: a[0]
def overflow(op,signed):
    def mk(ex,X):
        def f(st,a,I):
            w=I.ty.elts[0].w
            if isinstance(a[0],int) and isinstance(a[1],int):
                M=(1<<w)-1
                x,y=(a[0],a[1]) if signed else (a[0]&M,a[1]&M)
                r={'add':x+y,'sub':x-y,'mul':x*y}[op]
                ov=not(-(1<<(w-1))<=r<(1<<(w-1))) if signed else not(0<=r<=M)
                return [X.sgnfix(r,w),ov]
            r=ex.iarith(st,op,a[0],a[1],w,1)
            p=ex.as_poly(st,r,w)
            if signed: ov=f_or(f_lt(psub(p,P_const(-(1<<(w-1))))),f_le(psub(P_const(1<<(w-1)),p)))
            else: ov=f_or(f_lt(p),f_le(psub(P_const(1<<w),p)))
            return [r,ov]
        return f
    return mk
# transcendental functions: uninterpreted with the facts below
def const_fn(fn):
    pass
def sincos(which):
    def mk(ex,X):
        def f(st,a,I):
            v=ex.absforce(st,ex.fl(st,a[0]))
            if not isinstance(v,R): return X.NAN
            if v.is_const() and v.const()==0: return rconst(0 if which=='sin' else 1)
            sg=1
            # normalise sign: sin(-x)=-sin x
            if v.n.t and T.lead(v.n)[1]<0: v=rneg(v); sg=-1
            key=('sincos',v); pr=ex.memo.get(key)
            if pr is None:
                s=new_atom('sin','R','uf',('sin',(v,)),-1,1); c=new_atom('cos','R','uf',('cos',(v,)),-1,1)
                SQ[s.id]=psub(ONE,pmul(P_atom(c),P_atom(c)))
                d=f_eq(psub(padd(_sq(s),_sq(c)),ONE)); s.defs.append(_raw_one(s,c)); c.defs.append(_raw_one(s,c))
                for at in(s,c):
                    at.defs.append(('le',psub(P_atom(at),ONE))); at.defs.append(('le',psub(pscale(P_atom(at),-1),ONE)))
                pr=ex.memo[key]=(s,c)
                ex.ufapps.setdefault(('sin',1),[]).append(s); ex.ufapps.setdefault(('cos',1),[]).append(c)
            return rconst(1) and (rmul(rconst(sg),ratom(pr[0])) if which=='sin' else ratom(pr[1]))
        return f
    return mk
def _sq(a): return Poly({((a.id,2),):1})
def _raw_one(s,c): return ('eq',Poly({((s.id,2),):1,((c.id,2),):1,():-1}))
def ufn(name,n,axioms=None):
    def mk(ex,X):
        def f(st,a,I):
            args=tuple(ex.absforce(st,ex.fl(st,x)) for x in a[:n])
            if any(not isinstance(x,R) for x in args): raise X.Unsupported(name+' of non finite')
            key=('uf',name,args); at=ex.memo.get(key)
            if at is None:
                at=ex.memo[key]=new_atom(name,'R','uf',(name,args))
                ex.ufapps.setdefault((name,n),[]).append(at)
                if axioms: axioms(ex,at,args)
            return ratom(at)
        return f
    return mk
PI=Fraction(math.pi)
def atan2(ex,X):
    def f(st,a,I):
        y=ex.absforce(st,ex.fl(st,a[0])); x=ex.absforce(st,ex.fl(st,a[1]))
        if not(isinstance(x,R) and isinstance(y,R)): raise X.Unsupported('atan2 of non finite')
        if x.is_const() and y.is_const():
            if y.const()==0 and x.const()>0: return rconst(0)
            if y.const()==0 and x.const()<0: return rconst(PI)
        # atan2 is invariant under positive scaling: callers rely on the axioms only
        key=('atan2',y,x); at=ex.memo.get(key)
        if at is None:
            at=ex.memo[key]=new_atom('atan2','R','uf',('atan2',(y,x)))
            ex.ufapps.setdefault(('atan2',2),[]).append(at)
            t=P_atom(at); z=lambda r: ex_numsign(r)
            yn,xn=z(y),z(x)
            at.defs.append(f_le(psub(t,P_const(PI)))); at.defs.append(f_lt(psub(P_const(-PI),t)))
            ypos,yneg,yz=f_lt(pscale(yn,-1)),f_lt(yn),f_eq(yn)
            xpos,xneg=f_lt(pscale(xn,-1)),f_lt(xn)
            imp=lambda p,q: f_or(f_not(p),q)
            H=P_const(PI/2)
            at.defs.append(f_iff(ypos, f_and(f_lt(pscale(t,-1)),f_lt(psub(t,P_const(PI))))))
            at.defs.append(f_iff(yneg, f_lt(t)))
            at.defs.append(imp(f_and(yz,xneg), f_eq(psub(t,P_const(PI)))))
            at.defs.append(imp(f_and(yz,f_not(xneg)), f_eq(t)))
            at.defs.append(imp(xpos, f_and(f_lt(psub(t,H)),f_lt(psub(pscale(H,-1),t)))))
            at.defs.append(imp(xneg, f_or(f_lt(psub(H,t)),f_lt(padd(t,H)))))
        return ratom(at)
    return f
def ex_numsign(r): return r.n if r.d is ONE else pmul(r.n,r.d)
def pow_(ex,X):
    def f(st,a,I):
        x=ex.absforce(st,ex.fl(st,a[0])); y=ex.fl(st,a[1])
        if isinstance(y,(int,)) : y=rconst(y)
        if isinstance(x,R) and isinstance(y,R) and y.is_const() and Fraction(y.const()).denominator==1 and 0<=y.const()<=6:
            r=rconst(1)
            for _ in range(int(y.const())): r=rmul(r,x)
            return r
        return ufn('pow',2)(ex,X)(st,[x,y],I)
    return f
TABLE={'vc_real':named_real,'vc_int':named_int,'vc_choice':named_choice,'vc_bool':named_bool,'vc_assume':assume,'vc_ensure':ensure,'vc_cover':cover,
 'vc_use_contract':use_contract,'vc_opt':opt,'vc_candidate':candidate,'vc_size':size_,'vc_index':index_,'vc_array':array,'vc_at':at_,'vc_fold':fold,'vc_fn':uf,'vc_fn_int':uf_int,
 'sqrt':sqrt,'fabs':fabs,'floor':floor_('floor'),'ceil':floor_('ceil'),'trunc':floor_('trunc'),'round':floor_('round'),'fmin':minmax(-1),'fmax':minmax(1),
 'copysign':copysign,'fmod':lambda ex,X:(lambda st,a,I: ex.farith(st,'frem',a[0],a[1])),
 'sin':sincos('sin'),'cos':sincos('cos'),'atan2':atan2,'pow':pow_,'acos':ufn('acos',1),'asin':ufn('asin',1),'atan':ufn('atan',1),'tan':ufn('tan',1),'exp':ufn('exp',1),'log':ufn('log',1),
 'memcpy':memcpy,'memmove':memcpy,'memset':memset,'_Znwm':new,'_Znam':new,'malloc':new,'_ZdlPv':delete,'_ZdlPvm':delete,'_ZdaPv':delete,'_ZdaPvm':delete,'free':delete,
 '_ZnwmSt11align_val_t':new,'_ZdlPvSt11align_val_t':delete,'_ZdlPvmSt11align_val_t':delete,
 '__cxa_throw':throw,'__cxa_rethrow':rethrow,'__cxa_begin_catch':lambda ex,X:(lambda st,a,I:a[0]),'__cxa_end_catch':noop,'_ZNSt11logic_errorC1EPKc':noop,'_ZNSt11logic_errorD1Ev':noop,'_ZNSt13runtime_errorC1EPKc':noop,'_ZNSt13runtime_errorD1Ev':noop,'_ZNSt12out_of_rangeC1EPKc':noop,'_ZNSt12out_of_rangeD1Ev':noop,'_ZNSt16invalid_argumentC1EPKc':noop,'_ZNSt16invalid_argumentD1Ev':noop,'_ZNSt9exceptionD2Ev':noop,'_ZNSt9exceptionD1Ev':noop,'__cxa_allocate_exception':new,'__cxa_free_exception':noop,
 '__cxa_guard_acquire':lambda ex,X:(lambda st,a,I:1),'__cxa_guard_release':lambda ex,X:(lambda st,a,I: ex.store(st,a[0],1,_i8(ex))),'__cxa_atexit':lambda ex,X:(lambda st,a,I:0),
 '_ZSt17__throw_bad_allocv':named_throw('bad_alloc'),'_ZSt20__throw_length_errorPKc':std_throw('12length_error'),'_ZSt28__throw_bad_array_new_lengthv':named_throw('bad_array_new_length'),
 '_ZSt20__throw_out_of_rangePKc':std_throw('12out_of_range'),'_ZSt24__throw_out_of_range_fmtPKcz':std_throw('12out_of_range'),'_ZSt19__throw_logic_errorPKc':std_throw('11logic_error'),
 '_ZSt9terminatev':named_throw('terminate'),'abort':named_throw('abort'),'__clang_call_terminate':named_throw('terminate'),'_ZSt25__throw_bad_function_callv':named_throw('bad_function_call'),
 '_ZN5boost15throw_exceptionERKSt9exception':named_throw('boost'),'_ZN5boost15throw_exceptionERKSt9exceptionRKNS_15source_locationE':named_throw('boost'),
}
class _T: pass
def _i8(ex):
    t=_T(); t.k='int'; t.w=8; t.size=1; return t
LLVM={'llvm.memcpy':memcpy,'llvm.memmove':memcpy,'llvm.memset':memset,'llvm.lifetime':noop,'llvm.dbg':noop,'llvm.assume':noop,'llvm.experimental.noalias':noop,'llvm.invariant':noop,
 'llvm.fabs':fabs,'llvm.sqrt':sqrt,'llvm.floor':floor_('floor'),'llvm.ceil':floor_('ceil'),'llvm.trunc':floor_('trunc'),'llvm.round':floor_('round'),'llvm.rint':None,
 'llvm.minnum':minmax(-1),'llvm.maxnum':minmax(1),'llvm.copysign':copysign,'llvm.pow':pow_,'llvm.powi':pow_,'llvm.sin':sincos('sin'),'llvm.cos':sincos('cos'),
 'llvm.smax':iminmax('sgt',1),'llvm.smin':iminmax('slt',1),'llvm.umax':iminmax('ugt',1),'llvm.umin':iminmax('ult',1),'llvm.abs':iabs,'llvm.ctpop':ctpop,
 'llvm.uadd.with.overflow':overflow('add',False),'llvm.sadd.with.overflow':overflow('add',True),'llvm.umul.with.overflow':overflow('mul',False),'llvm.smul.with.overflow':overflow('mul',True),
 'llvm.usub.with.overflow':overflow('sub',False),'llvm.ssub.with.overflow':overflow('sub',True),
 'llvm.expect':getp,'llvm.stacksave':noop,'llvm.stackrestore':noop,'llvm.launder':getp,'llvm.strip':getp,'llvm.is.constant':lambda ex,X:(lambda st,a,I:False),
 'llvm.trap':named_throw('trap'),'llvm.ubsantrap':named_throw('trap'),'llvm.eh.typeid':typeid_for,'llvm.prefetch':noop,'llvm.donothing':noop,
 'llvm.fmuladd':lambda ex,X:(lambda st,a,I: ex.farith(st,'fadd',ex.farith(st,'fmul',a[0],a[1]),a[2])),'llvm.fma':lambda ex,X:(lambda st,a,I: ex.farith(st,'fadd',ex.farith(st,'fmul',a[0],a[1]),a[2])),
 'llvm.is.fpclass':None,
}
def _fpclass(ex,X):
    def f(st,a,I):
        v=ex.fl(st,a[0]); m=a[1]
        if v is X.NAN: return bool(m&3)
        if isinstance(v,X.Inf): return bool(m&(0x200 if v.s>0 else 0x4))
        if not (m&~3): return False
        if m==0x1f8: return True
        if m==0x204 or m==0x200 or m==4 : return False
        raise X.Unsupported('fpclass %x'%m)
    return f
LLVM['llvm.is.fpclass']=_fpclass
del LLVM['llvm.rint']
