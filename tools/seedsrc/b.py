HEAD = open("/verif/tools/seedsrc/a.py").read().split("'''")[1]
SEEDS = [
 dict(id="copy-takes-inverse-operator", property="C12",
  edits=[("simulation.py", "            layer.eps_hat = layer.original.eps_hat\n", "            layer.eps_hat = layer.original.eps_hat_inv\n")],
  needs="a stack with a copied patterned layer behind its original, and the z component of the electric field inside the copy",
  breaks="the copy divides by the permittivity operator the wrong way round, so Ez inside copies is wrong while efficiencies are right",
  demo=HEAD + '''
def build(copied):
    lat = nn.Lattice(([1.0, 0.0], [0.0, 1.0]), discretization=2**5)
    d = lat.ones() * 1.0
    d[lat.circle((0.3, 0.4), 0.2)] = 6.0
    a = lat.Layer("A", thickness=0.3, epsilon=d)
    b = a.copy("B") if copied else lat.Layer("B", thickness=0.3, epsilon=d)
    mid = lat.Layer("M", thickness=0.2, epsilon=2.0)
    return nn.Simulation([lat.Layer("S", epsilon=1), a, mid, b, lat.Layer("T", epsilon=1.5)], nn.PlaneWave(1.1, (20, 30, 15)), 9)

x, y = build(True), build(False)
sys.exit(0 if close(x.get_field_fourier("B", 0.1), y.get_field_fourier("B", 0.1), 1e-8) else 1)
'''),
 dict(id="branch-by-conjugation", property="C07",
  edits=[("layers.py", "q = bk.where(bk.imag(q) < 0.0, -q, q)\n            self.eigenvalues, self", "q = bk.where(bk.imag(q) < 0.0, bk.conj(q), q)\n            self.eigenvalues, self")],
  needs="a patterned layer whose squared propagation constants leave the upper half plane (a material with gain)",
  breaks="the propagation constant is no longer a square root of the eigenvalue of the mode problem",
  demo=HEAD + '''
lat = nn.Lattice(([1.0, 0.0], [0.0, 1.0]), discretization=2**5)
d = lat.ones() * (3.0 - 0.4j)
d[lat.circle((0.3, 0.4), 0.2)] = 6.0 - 0.2j
s = nn.Simulation([lat.Layer("S", epsilon=1), lat.Layer("G", thickness=0.3, epsilon=d), lat.Layer("T", epsilon=1.5)], nn.PlaneWave(1.1, (20, 30, 15)), 9)
s.solve()
g = s.layers[1]
w, v = g.eigenvalues**2, g.eigenvectors
sys.exit(0 if close(g.matrix @ v, v * w[None, :], 1e-8) else 1)
'''),
 dict(id="incident-amplitudes-propagated-in-place", property="C10",
  edits=[("simulation.py", "    aim = ai * phasor(q, z)\n    bim", "    aim = ai\n    aim *= phasor(q, z)\n    bim")],
  needs="a field at non-zero depth in the first layer, followed by any other query on the same simulation",
  breaks="the stored incident amplitudes are overwritten by the propagated ones, so later fields get a wrong phase",
  demo=HEAD + '''
a, b = sim(), sim()
a.get_field_fourier("Superstrate", -0.3)
sys.exit(0 if close(a.get_field_fourier("Slab", 0.1), b.get_field_fourier("Slab", 0.1)) else 1)
'''),
 dict(id="flag-of-autograd-left", property="C13",
  edits=[("__init__.py", """        _JAX = True
        _del_vars(["_SCIPY", "_TORCH", "_AUTOGRAD"])""", """        _JAX = True
        _del_vars(["_SCIPY", "_TORCH"])""")],
  needs="a switch from autograd directly to jax",
  breaks="the request for jax is ignored: the flag of autograd is still there and has precedence",
  demo='''
import sys
import nannos as nn
nn.set_backend("autograd")
nn.set_backend("jax")
ok = nn.get_backend() == "jax" and "jax" in nn.backend.__name__
sys.exit(0 if ok else 1)
'''),
 dict(id="partial-matrices-survive-reset", property="C11",
  edits=[("simulation.py", """            _reseter(self, "S")
            self._intermediate_S = {}
""", """            _reseter(self, "S")
            self._intermediate_S = {
                k: v for k, v in self._intermediate_S.items() if k[:2] != "0,"
            }
""")],
  needs="a field in an interior layer, a changed thickness, a full reset, and a field in an interior layer again",
  breaks="matrices of ranges that start inside the stack are taken from before the reset",
  demo=HEAD + '''
a = sim()
a.get_field_fourier("Grating", 0.1)
a.layers[2].thickness = 0.55
a.reset("all")
x = a.get_field_fourier("Grating", 0.1)
b = sim(th=(0.4, 0.55))
sys.exit(0 if close(x, b.get_field_fourier("Grating", 0.1)) else 1)
'''),
 dict(id="permittivity-through-default-type", property="C26",
  edits=[("layers.py", "        self.epsilon = bk.array(epsilon, dtype=COMPLEX)\n", "        self.epsilon = bk.array(bk.array(epsilon), dtype=COMPLEX)\n")],
  needs="the torch backend with a permittivity given as a python number that single precision does not represent",
  breaks="permittivities of uniform layers are rounded to seven digits on torch",
  demo='''
import sys
import numpy as np
import nannos as nn
nn.set_backend("torch")
lat = nn.Lattice(([1.0, 0.0], [0.0, 1.0]), discretization=2**5)
s = nn.Simulation([lat.Layer("S", epsilon=1), lat.Layer("G", thickness=0.3, epsilon=4.1), lat.Layer("T", epsilon=2.3)], nn.PlaneWave(1.1, (0, 0, 0)), 1)
R, T = s.diffraction_efficiencies()
k = 2 * np.pi / 1.1
n1, n2, n3 = 1, np.sqrt(4.1), np.sqrt(2.3)
r12, r23 = (n1 - n2) / (n1 + n2), (n2 - n3) / (n2 + n3)
p = np.exp(2j * k * n2 * 0.3)
r = (r12 + r23 * p) / (1 + r12 * r23 * p)
sys.exit(0 if abs(float(R) - abs(r) ** 2) < 1e-11 else 1)
'''),
 dict(id="h-field-on-default-grid", property="C27",
  edits=[("simulation.py", """            layer_index, z=z, shape=shape, field="H", component=component
""", """            layer_index, z=z, field="H", component=component
""")],
  needs="the magnetic field shorthand with an explicit grid",
  breaks="the grid asked for is ignored",
  demo=HEAD + '''
s = sim()
x = s.get_Hfield_grid("Slab", 0.1, shape=(16, 20), component="y")
y = s.get_field_grid("Slab", 0.1, shape=(16, 20))[1][1]
sys.exit(0 if x.shape == y.shape and close(x, y) else 1)
'''),
 dict(id="parallel-longest-first", property="C23",
  edits=[("parallel.py", """            other_args = args[1:]
            return Parallel(n_jobs=n_jobs, prefer=prefer)(
                delayed(func)(x, *other_args, **kwargs) for x in args[0]
            )
""", """            other_args = args[1:]
            items = list(args[0])
            # larger items first, so that the last job to end is a short one
            items.sort(key=lambda x: x if isinstance(x, int) else 0, reverse=n_jobs > 1)
            return Parallel(n_jobs=n_jobs, prefer=prefer)(
                delayed(func)(x, *other_args, **kwargs) for x in items
            )
""")],
  needs="integer items that are not in the order of the sort",
  breaks="results come in the order of the sorted items instead of the order given",
  demo='''
import sys
import nannos as nn
@nn.parloop(n_jobs=2, prefer="threads")
def f(x):
    return 10 * x
sys.exit(0 if f([3, 1, 2, 5, 4]) == [30, 10, 20, 50, 40] else 1)
'''),
 dict(id="stop-value-of-zero", property="C21",
  edits=[("optimize.py", "                if self.stopval is not None:\n                    self.opt.set_stopval", "                if self.stopval:\n                    self.opt.set_stopval"),
         ("optimize.py", "        if self.stopval is not None and self.f < self.stopval:", "        if self.stopval and self.f < self.stopval:")],
  needs="a stop value of zero",
  breaks="the search goes on after the stop value was reached",
  demo='''
import sys
import numpy as np
import nannos as nn
nn.set_backend("autograd")
from nannos.optimize import TopologyOptimizer
from nannos import backend as bk
seen = []
def f(x, p):
    return bk.sum((x - 0.9) ** 2) - 1.0
opt = TopologyOptimizer(f, np.ones(3) * 0.5, args=(1,), threshold=(0, 1), maxiter=20, stopval=0, callback=lambda x, y, *a: seen.append(float(y)))
x, y = opt.minimize()
sys.exit(0 if sum(1 for v in seen if v < 0) == 1 else 1)
'''),
 dict(id="unit-cell-of-one-point", property="C31",
  edits=[("simulation.py", "            epsilon_zz = epsilon[2, 2] if layer.is_epsilon_anisotropic else epsilon\n            if", "            epsilon_zz = epsilon[0, 0] if layer.is_epsilon_anisotropic else epsilon\n            if")],
  needs="a patterned layer with a permittivity tensor whose zz entry differs from its xx entry",
  breaks="the longitudinal field sees the xx entry of the tensor",
  demo=HEAD + '''
lat = nn.Lattice(([1.0, 0.0], [0.0, 1.0]), discretization=2**5)
e = np.zeros((3, 3) + lat.discretization, dtype=complex)
m = lat.circle((0.3, 0.4), 0.2)
for i, v in enumerate((4.0, 3.0, 2.0)):
    e[i, i] = np.where(m, v, 1.0)
g = lat.Layer("G", thickness=0.3, epsilon=e)
s = nn.Simulation([lat.Layer("S", epsilon=1), g, lat.Layer("B", epsilon=2)], nn.PlaneWave(1.1, (10, 20, 30)), 9)
s.build_matrix("G")
sys.exit(0 if close(g.eps_hat, s._get_toeplitz_matrix(e[2, 2])) else 1)
'''),
 dict(id="oblique-basis-transposed", property="C09",
  edits=[("simulation.py", "            + r[0, 1] * self.harmonics[1, :]\n", "            + r[1, 0] * self.harmonics[1, :]\n"),
         ("simulation.py", "            + r[1, 0] * self.harmonics[0, :]\n", "            + r[0, 1] * self.harmonics[0, :]\n")],
  needs="a lattice whose basis matrix is not symmetric (an oblique one)",
  breaks="orders get the wave vectors of another lattice",
  demo=HEAD + '''
lat = nn.Lattice(([1.0, 0.0], [0.5, 0.9]), discretization=2**5)
s = nn.Simulation([lat.Layer("S", epsilon=1), lat.Layer("G", thickness=0.3, epsilon=lat.ones() * 2.0), lat.Layer("B", epsilon=2)], nn.PlaneWave(1.1, (10, 20, 30)), 9)
a = np.array(lat.basis_vectors)
k = np.stack([s.kx, s.ky])
k = k - np.asarray(s.k0para)[:, None]
# a_i . G_n = 2 pi n_i
sys.exit(0 if close(a @ k.real, 2 * np.pi * np.asarray(s.harmonics)) else 1)
'''),
 dict(id="evanescent-substrate-flux", property="C05",
  edits=[("simulation.py", "        A = layer.Qeps @ phi @ bk.diag(1 / (self.omega * q))\n", "        A = layer.Qeps @ phi @ bk.diag(1 / (self.omega * bk.real(q)))\n")],
  needs="an absorbing last layer, or evanescent orders",
  breaks="the electric field of the modes in the flux is not that of the expansion",
  demo=HEAD + '''
s = sim(sub=2.0 + 0.7j)
R, T = s.diffraction_efficiencies()
aN, b0 = s._solve_ext()
l = s.layers[-1]
f = s.get_field_fourier(3)[0]
e, h = f
n = s.nh
P = np.sum(np.real(e[0] * np.conj(h[1]) - e[1] * np.conj(h[0])))
sys.exit(0 if abs(P / s.incident_flux - T) < 1e-8 else 1)
'''),
]
