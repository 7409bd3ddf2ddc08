import sys,cProfile,pstats,threading,time
sys.path.insert(0,'/verif'); sys.setrecursionlimit(12000)
from symex import runner,instr
name,case=sys.argv[1],sys.argv[2]
mod=runner.load(name)
cases=[c for c in mod.cases(sys.argv[3] if len(sys.argv)>3 else 'quick') if c.name==case]
snap=instr.Snapshot(['pdfmajor','harness'])
class V: 
    def __init__(s,v): s.value=v
    def get_lock(s): import contextlib; return contextlib.nullcontext()
class Q(list):
    def put(s,x): s.append(x)
w=runner.Worker(0,cases,snap,None,Q(),V(0),V(0),V(0),time.time()+30,'quick')
from symex import hsym
w.h=hsym.HSym()
pr=cProfile.Profile(); pr.enable(); r=w.explore((0,[])); pr.disable()
print(r['stats'],r['inconclusive'])
for q in w.results[:3]: print(q)
pstats.Stats(pr).sort_stats('tottime').print_stats(int(sys.argv[4]) if len(sys.argv)>4 else 22)
