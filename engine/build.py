"""Compiles a harness against the current /repo to LLVM IR (verification) or to a native program (replay)."""
import subprocess, os, sys, ctypes as C
HERE=os.path.dirname(os.path.abspath(__file__))
REPO=os.environ.get('VC_REPO','/repo')
DEFS="-DBOOST_RESULT_OF_USE_TR1_WITH_DECLTYPE_FALLBACK -DBOOST_CHRONO_HEADER_ONLY -DBOOST_PARAMETER_MAX_ARITY=20".split()
COMMON=["-std=c++14","-w","-I",REPO,"-I",HERE]+DEFS
IRFLAGS=["-O2","-fno-vectorize","-fno-slp-vectorize","-fno-unroll-loops","-ffp-contract=off","-fno-math-errno","-fno-strict-aliasing","-fno-stack-protector","-fno-builtin-memchr","-fwrapv" ]
IRFLAGS.remove("-fwrapv")
CLANG=next((c for c in ("/usr/bin/clang++-18","/usr/lib/llvm-18/bin/clang++") if os.path.exists(c)),"clang++")
OPT=next((c for c in ("/usr/lib/llvm-18/bin/opt","/usr/bin/opt-18") if os.path.exists(c)),"opt")
class BuildError(Exception): pass
def run(cmd,t=600):
    p=subprocess.run(cmd,capture_output=True,text=True,timeout=t)
    if p.returncode: raise BuildError("%s\n%s"%(" ".join(cmd),p.stderr[-6000:]))
    return p.stdout
def to_ir(src,out,extra=(),shape='O2'):
    raw=out+".raw.bc"
    uses='vc_use_contract' in open(src).read()
    if not uses and shape=='O2':
        run([CLANG]+COMMON+IRFLAGS+list(extra)+["-c","-emit-llvm",src,"-o",out]); return
    run([CLANG]+COMMON+IRFLAGS+list(extra)+["-Xclang","-disable-llvm-passes","-c","-emit-llvm",src,"-o",raw])
    # keep functions that are replaced by their contract out of the inliner
    import re
    txt=run(["llvm-dis" if have("llvm-dis") else "/usr/lib/llvm-18/bin/llvm-dis",raw,"-o","-"])
    names=set()
    for l in txt.split('\n'):
        if '@vc_use_contract(' in l and ('call ' in l or 'invoke ' in l):
            for m in re.finditer(r'@("[^"]+"|[\w.$]+)',l):
                n=m.group(1).strip('"')
                if n!='vc_use_contract': names.add(n)
    lines=[]
    for l in txt.split('\n'):
        if l.startswith('define '):
            m=re.search(r'@("[^"]+"|[\w.$]+)\(',l)
            if m and m.group(1).strip('"') in names:
                l=re.sub(r'\balwaysinline\b','',l)
                k=l.rindex(' {')
                # insert noinline before attribute groups / trailing clauses
                mm=re.search(r'\)( (?:local_)?unnamed_addr)?( #\d+)?',l[m.end():])
                l=l[:k]
                j=l.rfind(' #')
                if j>0: l=l[:j]+' noinline'+l[j:]
                else: l=l+' noinline'
                l+=' {'
        lines.append(l)
    ll=out+".raw.ll"
    t='\n'.join(lines)
    # attribute groups may carry alwaysinline
    open(ll,'w').write(t)
    if shape!='O2':      # scalar passes only: loops keep the shape they have in the source
        p="cgscc(devirt<4>(inline,function(sroa<modify-cfg>,early-cse<memssa>,instcombine,simplifycfg,gvn,instcombine,simplifycfg)))"
        run([OPT,"-passes=always-inline,"+p+",globaldce","-inline-threshold=100000",ll,"-o",out]); return
    run([CLANG]+[f for f in IRFLAGS if not f.startswith('-fno-builtin')]+["-x","ir","-c","-emit-llvm",ll,"-o",out])
def have(x):
    import shutil
    return shutil.which(x) is not None
def to_native(src,out,extra=()):
    run(["g++"]+COMMON+["-O1","-DVC_NATIVE","-rdynamic","-fno-math-errno","-ffp-contract=off"]+list(extra)+[src,os.path.join(HERE,"vc_rt.cpp"),"-o",out,"-ldl"],900)
def demangle(names):
    p=subprocess.run(["c++filt"],input="\n".join(names),capture_output=True,text=True)
    return p.stdout.split("\n")[:len(names)]
