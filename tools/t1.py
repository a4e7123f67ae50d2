import sys; sys.path.insert(0,'/verif')
sys.setrecursionlimit(20000)
import time
from sa.program import Program
from sa.interp import *
from sa.algebra import *
for b in sys.argv[1:] or ["numpy"]:
    it=Interp(Program("/repo"),b)
    m=it.h(it.modrefs["nannos"]).d
    print(b, m.get("BACKEND"), m.get("FLOAT"), it.raised)
    print(it.opaque_log[-3:])
    print(it.get("nannos.constants.pi"), it.get("nannos.excitation.deg2rad") if 0 else "")
    it.opaque_log.clear()
    L=it.get("nannos.lattice.Lattice")
    lat=it.run(L, [[num(1.0),num(0.0)],[num(0.0),num(1.0)]] if 0 else tuple([tuple([num(1),num(0)]),tuple([num(0),num(1)])]))
    print("lat",lat, it.dead, it.raised)
    print(it.h(lat).d)
    print(it.opaque_log)
