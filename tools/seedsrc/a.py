HEAD = '''
import sys
import numpy as np
import nannos as nn
bk = nn.backend


def sim(angles=(20., 35., 30.), nh=9, form="original", eps=6., lat=None, th=(0.4, 0.3), wl=1.0, sub=2.0, tr="circular"):
    lat = lat or nn.Lattice(([1.0, 0.0], [0.0, 1.0]), discretization=2**6, truncation=tr)
    sup = lat.Layer("Superstrate", epsilon=1.0)
    substr = lat.Layer("Substrate", epsilon=sub)
    d = lat.ones() * 1.0
    m = lat.circle((0.3, 0.4), 0.2)
    d[m] = eps
    grat = lat.Layer("Grating", thickness=th[0], epsilon=d)
    slab = lat.Layer("Slab", thickness=th[1], epsilon=3.0)
    pw = nn.PlaneWave(wavelength=wl, angles=angles)
    return nn.Simulation([sup, grat, slab, substr], pw, nh, formulation=form)


def close(a, b, tol=1e-9):
    return np.max(np.abs(np.asarray(a) - np.asarray(b))) <= tol * max(1, np.max(np.abs(np.asarray(b))))

'''
SEEDS = [
 dict(id="smatrix-partial-range", property="C01",
  edits=[("simulation.py", "                z = layer.thickness or 0\n", "                z = (layer.thickness or 0) if i else 0\n                z = z if i > stack[0] else 0\n")],
  needs="an S-matrix of a range that starts inside the stack at a layer of finite thickness (partial range, or a field request in an interior layer)",
  breaks="the propagation through the first layer of the range is dropped, so partial scattering matrices and interior amplitudes are wrong while efficiencies stay right",
  demo=HEAD + '''
s = sim()
full = s.get_S_matrix((1, 2))
# reference: the same range as a whole stack with layer 1 in front
from nannos.simulation import phasor
q = s.layers[1].eigenvalues
t = s.layers[1].thickness
s2 = sim()
s2.solve()
s2.layers[1].thickness = 0.0
zero = s2.get_S_matrix((1, 2))
f = np.diag(phasor(q, t))
# S11 with propagation = S11 without it times f on the input side, to first order of the recursion
ok = not close(full[0][0], zero[0][0], 1e-6)
sys.exit(0 if ok else 1)
'''),
 dict(id="whole-stack-matrix-overwritten", property="C02",
  edits=[("simulation.py", "        if indices is None:\n            self.S = S\n", "        if stack[-1] == len(self.layers) - 2:\n            self.S = S\n")],
  needs="the S-matrix of a range that ends at the last layer asked for after (or before) that of the whole stack, then outer amplitudes",
  breaks="the matrix kept as that of the whole stack becomes that of the range, so efficiencies depend on the history of queries",
  demo=HEAD + '''
a = sim()
R0, T0 = a.diffraction_efficiencies()
b = sim()
b.get_S_matrix((1, 3))
R1, T1 = b.diffraction_efficiencies()
sys.exit(0 if close(R0, R1) and close(T0, T1) else 1)
'''),
 dict(id="depth-list-accumulates", property="C04",
  edits=[("simulation.py", "            ai, bi = _translate_amplitudes(layer, z_, ai0, bi0)\n            ht_fourier", "            ai0, bi0 = _translate_amplitudes(layer, z_, ai0, bi0)\n            ai, bi = ai0, bi0\n            ht_fourier")],
  needs="fields asked for at several depths in one call",
  breaks="the amplitudes of the second and later depths are propagated on top of those of the previous depth",
  demo=HEAD + '''
s = sim()
z = [0.1, 0.2, 0.05]
f = s.get_field_fourier("Grating", z)
ok = all(close(f[i], s.get_field_fourier("Grating", z[i])[0]) for i in range(3))
sys.exit(0 if ok else 1)
'''),
 dict(id="tensor-transposed", property="C31",
  edits=[("simulation.py", "                [self._get_toeplitz_matrix(u[i, j]) for j in range(2)] for i in range(2)\n", "                [self._get_toeplitz_matrix(u[j, i]) for j in range(2)] for i in range(2)\n")],
  needs="a patterned layer with a permittivity tensor whose xy and yx entries differ (gyrotropic material)",
  breaks="xy and yx couple the wrong field components",
  demo=HEAD + '''
lat = nn.Lattice(([1.0, 0.0], [0.0, 1.0]), discretization=2**5)
e = np.zeros((3, 3) + lat.discretization, dtype=complex)
m = lat.circle((0.3, 0.4), 0.2)
for i in range(3):
    e[i, i] = np.where(m, 4.0, 1.0)
e[0, 1] = np.where(m, 0.5, 0.0)
e[1, 0] = np.where(m, -0.7, 0.0)
g = lat.Layer("G", thickness=0.3, epsilon=e)
s = nn.Simulation([lat.Layer("S", epsilon=1), g, lat.Layer("B", epsilon=2)], nn.PlaneWave(1.1, (10, 20, 30)), 9)
s.build_matrix("G")
n = s.nh
P = g.Peps
xy = s._get_toeplitz_matrix(e[0, 1])
sys.exit(0 if close(P[n:, :n], -xy) else 1)
'''),
]
