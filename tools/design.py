"""regenerate the tables of DESIGN.md from DESIGN.in.md, the property table, known findings and seeded/"""
import json,glob,os,re
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[]
NA=[]
def prop(id,title,st,q,tests,files,mech,level='proof',note='',tech=None,over=None,claimed=True,reason=None):
    if claimed: props.append((id,title,st,q,tests,files,mech,level,note))
    else: NA.append((id,title,reason))
A='geometrix/algorithm/'; P=props
exec(open(R+'/tools/proptable.py').read())
t=open(R+'/DESIGN.in.md').read(); s=''
for id,title,st,q,tests,files,mech,level,note in props:
    hs=sorted(glob.glob(R+'/harness/%s_*.cpp'%id)); con=[]; asm=[]; mains=[]
    for h in hs:
        x=open(h).read(); con+=re.findall(r'^// CONTRACT: (.*)$',x,re.M); asm+=re.findall(r'^// ASSUMES: (.*)$',x,re.M); mains+=re.findall(r'^VC_MAIN\((\w+)\)',x,re.M)
    b=[m for m in mains if m.startswith('b_')]
    s+='### %s %s (%s)\n%s\n\n* Quantifies over: %s.\n* Why tests cannot: %s.\n* Contracts (%d mains, %d bounded%s): %s.\n'%(id,title,level,st,q,tests,len(mains),len(b),(': '+', '.join(b)) if b else '','; '.join(con) or ', '.join(m[0] for m in mech))
    if asm: s+='* Assumes: %s.\n'%'; '.join(dict.fromkeys(asm))
    if note: s+='* Limits: %s\n'%note
    s+='\n'
fx=''.join('* '+f[7:]+'\n' for f in json.load(open(R+'/known_findings.json'))['fixed'])
kf=json.load(open(R+'/known_findings.json'))['findings']
if kf: fx+='\nRecorded, not repaired:\n'+''.join('* %s\n'%(json.dumps(k)) for k in kf)
sd='| bug | property | manifests | breaks |\n|---|---|---|---|\n'
for d in sorted(glob.glob(R+'/seeded/*/meta.json')):
    m=json.load(open(d)); sd+='| %s | %s | %s | %s |\n'%(os.path.basename(os.path.dirname(d)),m['property'],m['needs'],m['what_it_breaks'])
nas=''.join('* **%s %s**: %s\n'%(n[0],n[1],n[-1]) for n in NA)
for k,v in(('@PROPS@',s),('@FIXED@',fx),('@SEEDED@',sd),('@NA@',nas)): t=t.replace(k,v)
open(R+'/DESIGN.md','w').write(t)
