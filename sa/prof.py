import sys, time, importlib, collections
sys.setrecursionlimit(20000)
import facts, checklib, interp
mod=importlib.import_module("checks."+sys.argv[1]); root=sys.argv[2]
cls=sys.argv[3] if len(sys.argv)>3 else "R"
class C: pass
ctx=C(); ctx.prog=facts.load(); ctx.rep=checklib.Report("x"); ctx.tier="quick"
import re
class Rep(checklib.Report):
    def ob(self,rid,*a,**k):
        self.rules.setdefault(rid,""); return super().ob(rid,*a,**k)
ctx.rep=Rep("x")
cnt=collections.Counter(); blk=collections.Counter(); runs=collections.Counter()
ob=interp.Interp.block
def block(self,fn,fid,b,st):
    cnt[fn.path]+=1; blk[(fn.path,b)]+=1
    return ob(self,fn,fid,b,st)
interp.Interp.block=block
orun=interp.Interp.run
def run(self,fn,*a):
    runs[fn.path]+=1; return orun(self,fn,*a)
interp.Interp.run=run
R=getattr(mod,cls)
t=time.time()
I,res=checklib.run(ctx,R(ctx.rep),root)
print(len(res),I.steps,time.time()-t)
for k,v in cnt.most_common(25): print(v,runs[k],k)
