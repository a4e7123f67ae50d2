import sys; sys.path.insert(0,'/verif')
sys.setrecursionlimit(20000)
import time
from sa.program import Program
from sa.interp import *
for b in ("numpy","scipy","autograd","jax","torch"):
    t=time.time()
    it=Interp(Program("/repo"),b)
    m=it.h(it.modrefs["nannos"]).d
    print(b, round(time.time()-t,2), m.get("BACKEND"), m.get("FLOAT"), m.get("DEVICE"), m.get("backend"), len(it.raised), [ (e.name,e.args) for _,e,_,_ in it.raised][:5], len(it.modrefs))
    print("   opaque", sorted({(w,f) for w,f,l in it.opaque_log})[:50])
