"""Reader for LLVM bitcode/IR through the LLVM-C API (ctypes). No semantics here."""
import ctypes as C, struct, sys
from fractions import Fraction

_lib = None
def lib():
    global _lib
    if _lib is None:
        for p in ("libLLVM-18.so.1", "libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so.1", "libLLVM.so.18.1"):
            try:
                _lib = C.CDLL(p); break
            except OSError:
                continue
        if _lib is None: raise RuntimeError("libLLVM-18 not found")
        vp = ["LLVMContextCreate","LLVMGetFirstFunction","LLVMGetNextFunction","LLVMGetFirstBasicBlock","LLVMGetNextBasicBlock",
              "LLVMGetFirstInstruction","LLVMGetNextInstruction","LLVMGetOperand","LLVMTypeOf","LLVMGetFirstParam","LLVMGetNextParam",
              "LLVMGetElementType","LLVMStructGetTypeAtIndex","LLVMGetReturnType","LLVMGetGEPSourceElementType","LLVMGetAllocatedType","LLVMGetModuleDataLayout",
              "LLVMGetIncomingValue","LLVMGetIncomingBlock","LLVMGetCalledValue","LLVMGetFirstGlobal","LLVMGetNextGlobal","LLVMGetInitializer",
              "LLVMGlobalGetValueType","LLVMGetSuccessor","LLVMGetCalledFunctionType","LLVMValueAsBasicBlock","LLVMBasicBlockAsValue","LLVMGetNormalDest","LLVMGetUnwindDest","LLVMGetClause",
              "LLVMGetAggregateElement","LLVMAliasGetAliasee","LLVMGetNamedGlobal","LLVMGetNamedFunction","LLVMGetSwitchDefaultDest","LLVMGetIndices","LLVMGetFirstGlobalAlias","LLVMGetNextGlobalAlias"]
        for f in vp: getattr(_lib, f).restype = C.c_void_p
        _lib.LLVMGetValueName2.restype = C.c_void_p
        _lib.LLVMConstIntGetSExtValue.restype = C.c_longlong
        _lib.LLVMConstIntGetZExtValue.restype = C.c_ulonglong
        _lib.LLVMConstRealGetDouble.restype = C.c_double
        _lib.LLVMABISizeOfType.restype = C.c_ulonglong
        _lib.LLVMStoreSizeOfType.restype = C.c_ulonglong
        _lib.LLVMOffsetOfElement.restype = C.c_ulonglong
        _lib.LLVMGetAsString.restype = C.c_void_p
        _lib.LLVMPrintValueToString.restype = C.c_void_p
        _lib.LLVMPrintTypeToString.restype = C.c_void_p
    return _lib

OPC = {1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',67:'callbr',66:'fneg',8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',
 14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',26:'alloca',27:'load',28:'store',
 29:'getelementptr',30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',
 41:'bitcast',60:'addrspacecast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',47:'userop1',48:'userop2',49:'vaarg',50:'extractelement',51:'insertelement',
 52:'shufflevector',53:'extractvalue',54:'insertvalue',68:'freeze',55:'fence',56:'atomiccmpxchg',57:'atomicrmw',58:'resume',59:'landingpad',61:'cleanupret',
 62:'catchret',63:'catchpad',64:'cleanuppad',65:'catchswitch'}
ICMP = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
FCMP = {0:'false',1:'oeq',2:'ogt',3:'oge',4:'olt',5:'ole',6:'one',7:'ord',8:'uno',9:'ueq',10:'ugt',11:'uge',12:'ult',13:'ule',14:'une',15:'true'}

class Ty:
    __slots__=('k','w','n','el','size','elts','offs','raw','astep')
    # k: void,float,int,ptr,struct,array,vector,other
    def __repr__(self): return "%s%s"%(self.k,self.w or '')

class Inst:
    __slots__=('op','ty','a','x','id','fn','flags')
    def __repr__(self): return "<%s %s %s>"%(self.op,self.a,self.x)

class Block:
    __slots__=('id','insts','name','succ','idx')
class Func:
    __slots__=('name','params','blocks','entry','decl','mod','ret','noreturn','_bm','varargs','loops')

class Const: pass
class CInt(Const):
    __slots__=('v','w')
    def __init__(s,v,w): s.v=v; s.w=w
    def __repr__(s): return "i%d %d"%(s.w,s.v)
class CFP(Const):
    __slots__=('v',)
    def __init__(s,v): s.v=v
    def __repr__(s): return "fp %r"%s.v
class CNull(Const):
    def __repr__(s): return "null"
class CUndef(Const):
    __slots__=('ty',)
    def __init__(s,ty): s.ty=ty
class CGlobal(Const):
    __slots__=('name','isfn')
    def __init__(s,n,f): s.name=n; s.isfn=f
    def __repr__(s): return "@"+s.name
class CAgg(Const):
    __slots__=('el','ty')
    def __init__(s,el,ty): s.el=el; s.ty=ty
class CExpr(Const):
    __slots__=('op','a','x','ty')
    def __init__(s,op,a,x,ty): s.op=op; s.a=a; s.x=x; s.ty=ty
    def __repr__(s): return "cexpr %s %s %s"%(s.op,s.a,s.x)
class V:
    __slots__=('id',)
    def __init__(s,i): s.id=i
    def __repr__(s): return "%%%x"%s.id

class Module:
    def __init__(self, path):
        L=lib(); self.L=L
        ctx=L.LLVMContextCreate()
        mb=C.c_void_p(); msg=C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(mb), C.byref(msg)):
            raise RuntimeError("cannot read %s: %s"%(path,msg.value))
        mod=C.c_void_p()
        if L.LLVMParseIRInContext(C.c_void_p(ctx), mb, C.byref(mod), C.byref(msg)):
            raise RuntimeError("cannot parse %s: %s"%(path,msg.value))
        self.mod=mod
        self.td=C.c_void_p(L.LLVMGetModuleDataLayout(mod))
        self.tcache={}
        self.fnptr={}
        f=L.LLVMGetFirstFunction(mod)
        while f:
            self.fnptr[self.vname(f)]=f
            f=L.LLVMGetNextFunction(C.c_void_p(f))
        self.globptr={}
        g=L.LLVMGetFirstGlobal(mod)
        while g:
            self.globptr[self.vname(g)]=g
            g=L.LLVMGetNextGlobal(C.c_void_p(g))
        self.alias={}
        g=L.LLVMGetFirstGlobalAlias(mod)
        while g:
            self.alias[self.vname(g)]=self.vname(L.LLVMAliasGetAliasee(C.c_void_p(g)))
            g=L.LLVMGetNextGlobalAlias(C.c_void_p(g))
        self.fcache={}
        self.ccache={}
    def vname(self,v):
        n=C.c_size_t()
        p=self.L.LLVMGetValueName2(C.c_void_p(v),C.byref(n))
        return C.string_at(p,n.value).decode()
    def vstr(self,v):
        return C.string_at(self.L.LLVMPrintValueToString(C.c_void_p(v))).decode()
    def ty(self,t):
        r=self.tcache.get(t)
        if r is not None: return r
        L=self.L; ct=C.c_void_p(t); k=L.LLVMGetTypeKind(ct)
        r=Ty(); self.tcache[t]=r; r.raw=t; r.w=0; r.el=None; r.elts=None; r.offs=None; r.n=0; r.size=0
        if k==0: r.k='void'
        elif k in (1,2,3,4,5,6): r.k='float'; r.w={1:16,2:32,3:64,4:80,5:128,6:128}[k]
        elif k==8: r.k='int'; r.w=L.LLVMGetIntTypeWidth(ct)
        elif k==10:
            r.k='struct'; r.n=L.LLVMCountStructElementTypes(ct)
            r.elts=[self.ty(L.LLVMStructGetTypeAtIndex(ct,i)) for i in range(r.n)]
            if not L.LLVMIsOpaqueStruct(ct): r.offs=[L.LLVMOffsetOfElement(self.td,ct,i) for i in range(r.n)]
        elif k==11:
            r.k='array'; r.n=L.LLVMGetArrayLength(ct); r.el=self.ty(L.LLVMGetElementType(ct))
        elif k==12: r.k='ptr'; r.w=64
        elif k==13: r.k='vector'; r.n=L.LLVMGetVectorSize(ct); r.el=self.ty(L.LLVMGetElementType(ct))
        else: r.k='other'
        if r.k in('float','int','struct','array','ptr','vector'):
            try: r.size=L.LLVMABISizeOfType(self.td,ct)
            except Exception: r.size=0
        return r
    def function(self,name):
        f=self.fcache.get(name)
        if f is None:
            if name in self.alias: name=self.alias[name]
            if name not in self.fnptr: return None
            f=self.fcache[name]=self._decode(name)
        return f
    def const(self,v):
        r=self.ccache.get(v)
        if r is None:
            r=self.ccache[v]=self._const(v)
        return r
    def _const(self,v):
        L=self.L; cv=C.c_void_p(v)
        k=L.LLVMGetValueKind(cv)
        t=self.ty(L.LLVMTypeOf(cv))
        # kinds: 0 Argument,1 BB,2 MemUse,3 MemDef,4 MemPhi,5 Function,6 GlobalAlias,7 GlobalIFunc,8 GlobalVariable,9 BlockAddress,10 ConstantExpr,11 ConstArray,12 ConstStruct,13 ConstVector,14 Undef,15 AggZero,16 DataArray,17 DataVector,18 ConstInt,19 ConstFP,20 NullPtr,21 TokenNone,22 MDAsValue,23 InlineAsm,24 Instruction,25 Poison,26 TargetNone
        if k==5: return CGlobal(self.vname(v),True)
        if k==6:
            a=L.LLVMAliasGetAliasee(cv)
            return self.const(a)
        if k==8: return CGlobal(self.vname(v),False)
        if k==18:
            w=t.w
            if w<=64: return CInt(L.LLVMConstIntGetSExtValue(cv) if w>1 else L.LLVMConstIntGetZExtValue(cv),w)
            s=self.vstr(v).split()[-1]
            return CInt(int(s),w)
        if k==19:
            lo=C.c_int()
            return CFP(L.LLVMConstRealGetDouble(cv,C.byref(lo)))
        if k==20: return CNull()
        if k in(14,25): return CUndef(t)
        if k==15:
            return CAgg(None,t)
        if k in (11,12,13,16,17):
            n=t.n
            return CAgg([self.const(L.LLVMGetAggregateElement(cv,i)) for i in range(n)],t)
        if k==10:
            op=OPC[L.LLVMGetConstOpcode(cv)]
            n=L.LLVMGetNumOperands(cv)
            a=[self.const(L.LLVMGetOperand(cv,i)) for i in range(n)]
            x=None
            if op=='getelementptr': x=self._gep(v,a)
            if op=='icmp': x=ICMP[L.LLVMGetICmpPredicate(cv)]
            return CExpr(op,a,x,t)
        if k==22: return None
        if k==23: return CExpr('asm',[],None,t)
        raise RuntimeError("const kind %d: %s"%(k,self.vstr(v)))
    def operand(self,v):
        k=self.L.LLVMGetValueKind(C.c_void_p(v))
        if k in(0,24): return V(v)
        if k==1: return ('bb',v)
        return self.const(v)
    def _gep(self,v,ops):
        # returns (const offset, [(operand index, scale)])
        L=self.L; t=self.ty(L.LLVMGetGEPSourceElementType(C.c_void_p(v)))
        off=0; var=[]
        cur=None
        for i,o in enumerate(ops[1:],1):
            if i==1:
                sz=t.size; cur=t
            else:
                if cur.k=='struct':
                    idx=o.v; off+=cur.offs[idx]; cur=cur.elts[idx]; continue
                cur=cur.el; sz=cur.size
            if isinstance(o,CInt): off+=o.v*sz
            else: var.append((i,sz))
        return (off,var)
    def _decode(self,name):
        L=self.L; p=self.fnptr[name]; cp=C.c_void_p(p)
        f=Func(); f.name=name; f.mod=self; f.decl=bool(L.LLVMIsDeclaration(cp)); f.params=[]; f.blocks={}; f.entry=None; f.loops=None
        q=L.LLVMGetFirstParam(cp)
        while q:
            f.params.append((q,self.ty(L.LLVMTypeOf(C.c_void_p(q)))))
            q=L.LLVMGetNextParam(C.c_void_p(q))
        f.ret=self.ty(L.LLVMGetReturnType(C.c_void_p(L.LLVMGlobalGetValueType(cp))))
        if f.decl: return f
        b=L.LLVMGetFirstBasicBlock(cp)
        first=True; idx=0
        while b:
            bl=Block(); bl.id=b; bl.insts=[]; bl.idx=idx; idx+=1
            f.blocks[b]=bl
            if first: f.entry=b; first=False
            i=L.LLVMGetFirstInstruction(C.c_void_p(b))
            while i:
                bl.insts.append(self._inst(i,f))
                i=L.LLVMGetNextInstruction(C.c_void_p(i))
            t=bl.insts[-1]
            bl.succ=t.x if t.op=='br' else ([d for _,d in t.x[0]]+[t.x[1]] if t.op=='switch' else (list(t.x) if t.op=='invoke' else []))
            b=L.LLVMGetNextBasicBlock(C.c_void_p(b))
        return f
    def _inst(self,i,f):
        L=self.L; ci=C.c_void_p(i)
        I=Inst(); I.id=i; I.fn=None; I.x=None; I.flags=0
        op=I.op=OPC[L.LLVMGetInstructionOpcode(ci)]
        I.ty=self.ty(L.LLVMTypeOf(ci))
        n=L.LLVMGetNumOperands(ci)
        raw=[L.LLVMGetOperand(ci,j) for j in range(n)]
        if op in('call','invoke'):
            cv=L.LLVMGetCalledValue(ci)
            na=L.LLVMGetNumArgOperands(ci)
            I.a=[self.operand(raw[j]) for j in range(na)]
            I.fn=self.operand(cv)
            I.x=(L.LLVMGetNormalDest(ci),L.LLVMGetUnwindDest(ci)) if op=='invoke' else None
            return I
        if op=='br':
            ns=L.LLVMGetNumSuccessors(ci)
            I.x=[L.LLVMGetSuccessor(ci,j) for j in range(ns)]
            I.a=[self.operand(raw[0])] if ns==2 else []
            return I
        if op=='switch':
            I.a=[self.operand(raw[0])]
            cases=[]
            for j in range(2,n,2):
                cases.append((self.const(raw[j]).v, raw[j+1]))
            I.x=(cases, raw[1]); return I
        if op=='phi':
            k=L.LLVMCountIncoming(ci)
            I.a=[]; I.x={}
            for j in range(k):
                I.x[L.LLVMGetIncomingBlock(ci,j)]=self.operand(L.LLVMGetIncomingValue(ci,j))
            return I
        if op=='landingpad':
            I.a=[self.operand(L.LLVMGetClause(ci,j)) for j in range(L.LLVMGetNumClauses(ci))]; I.x=bool(L.LLVMIsCleanup(ci)); return I
        I.a=[self.operand(r) for r in raw]
        if op=='icmp': I.x=ICMP[L.LLVMGetICmpPredicate(ci)]; 
        elif op=='fcmp': I.x=FCMP[L.LLVMGetFCmpPredicate(ci)]
        elif op=='getelementptr': I.x=self._gep(i,I.a)
        elif op=='alloca': I.x=self.ty(L.LLVMGetAllocatedType(ci))
        elif op in('extractvalue','insertvalue'):
            k=L.LLVMGetNumIndices(ci); ix=L.LLVMGetIndices(ci)
            I.x=[C.cast(ix,C.POINTER(C.c_uint))[j] for j in range(k)]
        elif op=='shufflevector':
            k=L.LLVMGetNumMaskElements(ci); I.x=[L.LLVMGetMaskValue(ci,j) for j in range(k)]
        if op in('add','sub','mul','shl'):
            I.flags=(1 if L.LLVMGetNSW(ci) else 0)|(2 if L.LLVMGetNUW(ci) else 0)
        if op in ('icmp','zext','sext','trunc','fptosi','fptoui','sitofp','uitofp','bitcast','store','ptrtoint','inttoptr'):
            t=self.ty(L.LLVMTypeOf(C.c_void_p(raw[0])))
            if op!='icmp': I.x=t
            else: I.flags=t.w if t.k!='vector' else t.el.w
        return I
    def global_info(self,name):
        g=self.globptr[name]; L=self.L
        t=self.ty(L.LLVMGlobalGetValueType(C.c_void_p(g)))
        ini=L.LLVMGetInitializer(C.c_void_p(g))
        return t,(self.const(ini) if ini else None)
