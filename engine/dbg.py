import sys,run
from run import *
src=sys.argv[1]; h=sys.argv[2]; pat=sys.argv[3] if len(sys.argv)>3 else ''
d=tempfile.mkdtemp(); ll=compile_ll(src,d+'/m.ll'); mod=Module(ll)
r=run_harness(mod,h,{})
print(r['err'])
n=0
for o in r['ex'].obls:
    if o.status!='discharged' and pat in o.name:
        print('-----',o.name,o.ctx)
        s=z3.Solver(); s.from_string(o.smt)
        for a in s.assertions(): print('   ',a)
        n+=1
        if n>=2: break
