import sys,threading,time,traceback,collections
sys.path.insert(0,'/verif'); sys.setrecursionlimit(12000)
from symex import runner,instr,core
C=core.Core if hasattr(core,'Core') else type(core.C)
cnt=collections.Counter()
orig=C.branch
def br(self,cond,val=None):
    n=self.stats['branches']
    r=orig(self,cond,val)
    if self.stats['branches']!=n and self.trail and not self.trail[-1].implied if hasattr(self.trail[-1] if self.trail else 0,'implied') else self.stats['branches']!=n:
        st=[f for f in traceback.extract_stack() if '/symex/' not in f.filename or 'intrinsics' in f.filename or 'rematch' in f.filename or 'values' in f.filename]
        cnt[' < '.join('%s:%d'%(f.filename.split('/')[-1],f.lineno) for f in reversed(st[-7:]) if f.name not in('call','mcall'))]+=1
    return r
C.branch=br
sys.argv=['x']+sys.argv[1:]
exec(open('/tmp/prof.py').read().split('pr=cProfile')[0])
r=w.explore((0,[]))
print(r['stats'])
for k,v in cnt.most_common(14): print(v,k)
