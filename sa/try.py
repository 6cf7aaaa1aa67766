import sys, time, facts
from terms import *
import interp, rules
class R(rules.Rule):
    def __init__(s, v): s.v=v; s.n=0
    def on_call(s,I,st,ev):
        s.n+=1
        if s.v and any(x in ev.path for x in s.v): print("CALL", ev.site(), ev.name, [show(a) for a in ev.args])
p=facts.load()
r=R(sys.argv[2:])
I=interp.Interp(p,r)
t=time.time()
res=I.root(sys.argv[1])
print(len(res),"exits",I.steps,"steps",r.n,"calls",round(time.time()-t,2),"s",len(I.fns_seen),"fns")
for s,v in res[:12]: print("  ->",show(I.resolve(s,v))[:600])
