import sys, os
from lacesym import *
src=sys.argv[1]; R=int(sys.argv[2]); th=eval(sys.argv[3]); o=dict(B=2, stop_on_viol=True); fl=[]
for x in sys.argv[4:]:
    if x.startswith('-'): fl.append(x)
    else: k,v=x.split('='); o[k]=eval(v)
RP=os.environ.get('RP','/repo')
ir=build_ir(src,['-I.','-I/tmp/ir/inc','-I'+RP+'/src','-DLACE_C="'+RP+'/src/lace.c"']+fl)
m=irparse.parse(ir)
snaps=[]
class E2(Engine):
    def run_context(s,tid,stop):
        super().run_context(tid,stop)
        snaps.append((s.ctx,tid,dict(s.mem),{k:c.g for k,c in s.threads[tid].items()}))
e=E2(m,o); e.boot(); e.run(th*R,(th+[0])*6)
S1=snaps; snaps=[]
g,k,t=e.viol[0]; print(t)
mo=e.aig.model(g)
inv={n:q for q,n in e.aig.input_names().items()}
f=E2(m,dict(o,stop_on_viol=False),fixed=mo); f.boot(); f.run(th*R,(th+[0])*6)
S2=snaps
mi={inv[n]:v for n,v in mo.items()}
def val(v):
    if v.__class__ is int: return v
    ls=[h for h,x in v]; r=e.aig.eval_model(mi,ls)
    return [x for (h,x),b in zip(v,r) if b]
for a,b in zip(S1,S2):
    print('ctx',a[0],'tid',a[1], 'cfgs sym', [k for k,g in a[3].items() if e.aig.eval_model(mi,[g])[0]], 'fix', [k for k,g in b[3].items() if g==1])
    for ad in a[2]:
        x=val(a[2][ad]); y=b[2].get(ad,POISON)
        if x!=[y] and x!=y: print('  diff', hex(ad), e.cellreg[ad].name, x, y)
    
