import sys; sys.path.insert(0,'/verif')
from sa.ctx import *
from sa.algebra import show
b=sys.argv[1] if len(sys.argv)>1 else "numpy"
two=(sys.argv[2] if len(sys.argv)>2 else "2")=="2"
form=sys.argv[3] if len(sys.argv)>3 else "original"
kinds=sys.argv[4] if len(sys.argv)>4 else "upu"
c=Ctx(b); it=c.it
def rep(tag):
    if it.dead or it.raised: print(tag,"dead",it.dead,[(e.name,e.args,getattr(e.node,'lineno',None),st[-1] if st else None) for _,e,_,st in it.raised][:6])
lat=c.lattice(two); rep("lat")
c.stub_harmonics()
pw=c.plane_wave(); rep("pw")
for k in ("wavevector","amplitude","a0"): print(k, str(c.attr(pw,k))[:300])
ls=[c.layer(lat,n,k,two) for n,k in zip(("Superstrate","L1","Substrate") if len(kinds)==3 else ["A%d"%i for i in range(len(kinds))],kinds)]; rep("layers")
S=c.run("nannos.simulation.Simulation", ls, pw, sym("nh0","int",integer=True,pos=True), form); rep("sim")
if S:
    for k in it.h(S).d: print(k, str(it.h(S).d[k])[:200])
    r=c.meth(S,"solve"); rep("solve")
    print(str(c.attr(S,"is_solved")))
    for l in ls:
        print({k:str(v)[:160] for k,v in it.h(l).d.items()})
print("OPQ", it.opaque_log[:20])
for e in it.events:
    if e.kind=="attr_write" and e.attr=="a0": 
        v=e.value
        print("A0W", type(v), str(v)[:200], it.h(v).kind if isinstance(v,Ref) else '', str(it.h(v).d)[:1500] if isinstance(v,Ref) else '')
