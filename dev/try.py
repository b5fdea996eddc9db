import os, sys; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dst import runner, seams
out=sys.stdout
seams.install(); runner._install_cpu_guard()
prop=sys.argv[1]; n=int(sys.argv[2]) if len(sys.argv)>2 else 200; base=int(sys.argv[3]) if len(sys.argv)>3 else 1
mod=runner.load(prop)
import collections
cnt=collections.Counter(); first={}
t=runner.REAL_CLOCK(); nt=0
fired=collections.Counter(); probes=collections.Counter()
for i in range(n):
    r=runner.run_seed(mod,prop,base,i)
    nt+=r.nontrivial
    fired.update(r.sim.fired); probes.update(r.sim.probes)
    if r.violation:
        k=(r.violation.cls)
        cnt[k]+=1; first.setdefault(k,(i,r))
t=runner.REAL_CLOCK()-t
print(n,'runs',nt,'nontrivial',f'{n/t:.0f}/s',dict(cnt),file=out)
print(dict(fired),dict(probes),file=out)
for k,(i,r) in first.items():
    b=runner.shrink(mod,r.rec,r.blocks,k,15)
    print('==',k,i,len(r.rec),'->',len(b.rec) if b else None,file=out)
    for e in (b or r).events[-40:]: print('   ',e[:400],file=out)
