import sys; sys.path.insert(0,'/verif'); sys.dont_write_bytecode=True
import time,os
t=time.time()
from pyvc import engine
want=sys.argv[1] if len(sys.argv)>1 else ''
eng=engine.Engine(want[:3].upper()) if want[:1]=='c' and want[1:3].isdigit() else engine.Engine()
verbose=os.environ.get('VC_VERBOSE')
ok=0
for lem,i,p in engine.instances():
    n=engine.pname(lem,p)
    if want not in n: continue
    r=engine.run_instance(eng,lem,p,budget=float(os.environ.get('BUDGET','120')))
    bad=r.failed or r.undecided
    w={k:v for k,v in r.covers.items() if v!='reached'}
    if bad or verbose or r.wall_s>20 or w or r.bounded:
        print(n,'paths',r.paths,'obl',len(r.obligations),'wall %.1f'%r.wall_s,w,sorted(r.bounded))
    else: ok+=1
    seen=set()
    for o in r.failed:
        if o.label in seen: continue
        seen.add(o.label)
        f=o.failed[0]
        print('   FAILED',o.label,'|',str(f.get('imprecise'))[:160],'|',f.get('path'),'|',str(f.get('notes'))[-300:],'|',str(f.get('goal'))[:200])
        if os.environ.get('CEX'): print('     ',str(f['inputs'])[:1500])
    for u in sorted(set(str(u)[:200] for u in r.undecided)): print('   UNDECIDED',u)
    if verbose: print('   ',r.functions, sorted(r.assumptions))
print('ok',ok,'%.1f s'%(time.time()-t))
