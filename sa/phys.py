"""Contexts for the electromagnetic solver."""
from . import algebra as A
from .algebra import *
from .values import *
from .ctx import Ctx, sym, lift, program
from .interp import AnalysisError, Refused

NH = None


def nh():
    declare("nh", pos=True, integer=True)
    return atom("nh")


def parts():
    n = nh()
    return {(n + n).key: (n, n)}


class SimCtx(Ctx):
    """a Simulation object evaluated from its own constructor.
    kinds: one letter per layer ('u','p','a'); cut: attributes replaced by free symbols
    once computed (their definitions are kept in it.defs)"""

    def __init__(self, backend="numpy", two_d=True, formulation="original", kinds="upu",
                 names=None, cut=("kx", "ky", "omega", "a0"), modes=False, stub_tangent=True,
                 stub_solve=False, layers_kw=None, sim_kw=None, thickness=None, orders=None, lattice_kw=None, plane_orders=False):
        super().__init__(backend)
        it = self.it
        self.two_d, self.kinds = two_d, kinds
        self.tag = f"{backend}/{'2D' if two_d else '1D'}/{formulation}/{kinds}"
        self.n = nh()
        self.lat = self.lattice(two_d, **(lattice_kw or {}))
        self.need(self.lat, "Lattice")
        self.stub_harmonics()
        if orders is not None:
            self.fixed_orders(orders)
        if plane_orders:
            # one-dimensional truncations: every order is (i, 0)
            def st1(it, f, a, k, node):
                g = tens("G1", self.n)
                G = tstack([g, T(g.shape, ZERO)])
                return Tup([T(G.shape, G.p, dt="i", kind="arr"), T((), self.n, kind="int")])
            declare("G1", real=True, integer=True)
            it.stubs["nannos.lattice.Lattice.get_harmonics"] = st1
        if stub_tangent:
            def tf(it, f, a, k, node):
                it.event("tangent", node, args=a, kw=k)
                return tens("tau", P(2), atom("N1"), atom("N2") if two_d else P(1))
            it.stubs["nannos.layers.Layer.get_tangent_field"] = tf
        self.pw = self.plane_wave()
        self.need(self.pw, "PlaneWave")
        names = names or [f"M{i}" for i in range(len(kinds))]
        self.names = names
        self.layers = []
        for i, (nm, k) in enumerate(zip(names, kinds)):
            l = self.layer(self.lat, nm, k, two_d, thickness=(thickness or {}).get(i))
            self.need(l, "Lattice.Layer")
            self.layers.append(l)
        for a in cut:
            self.cut_sim(a)
        if modes:
            self.cut_modes()
        if stub_solve:
            self.stub_solve()
        self.raised0 = len(it.raised)
        self.user_layers = lift(it, list(self.layers))
        self.sim = self.run("nannos.simulation.Simulation", self.user_layers, self.pw,
                            sym("nh0", "int", integer=True, pos=True), formulation, **(sim_kw or {}))
        self.need(self.sim, "Simulation")
        it.raised.clear()

    def fixed_orders(self, orders):
        """the set of orders is this one, in this sequence"""
        self.n = P(len(orders))
        it = self.it

        def st(it, f, a, k, node):
            G = T((P(2), P(len(orders))), tstack([tstack([num(o[r]) for o in orders]) for r in (0, 1)]).p, dt="i", kind="arr")
            return Tup([G, num(len(orders))])
        it.stubs["nannos.lattice.Lattice.get_harmonics"] = st

    def need(self, v, what):
        if v is None or self.it.dead:
            r = self.it.raised[-1] if self.it.raised else None
            raise Refused(f"{what} raises on every path: {r[1] if r else ''} {r[1].args if r else ''}")

    def cut_sim(self, a):
        n = self.n

        def f(it, v, obj):
            if not isinstance(v, T):
                return None
            if v.rank == 0:
                declare(a, pos=(a == "omega"))
                return T((), atom(a), dt=v.dt, kind=v.kind)
            t = tens(a, *v.shape)
            return T(t.shape, t.p, dt=v.dt, kind="arr")
        self.it.cuts[("Simulation", a)] = f

    def lname(self, it, obj):
        nm = it.getattr(obj, "name")
        return nm if isinstance(nm, str) else "L"

    def cut_modes(self, attrs=("eigenvalues", "eigenvectors", "Qeps"), kinds="pa"):
        short = {"eigenvalues": "q", "eigenvectors": "phi", "Qeps": "Q", "matrix": "mat", "Peps": "Peps",
                 "eps_hat": "epsh", "Keps": "Keps", "Kmu": "Kmu", "Pmu": "Pmu", "eps_hat_inv": "epshinv"}

        def mk(a):
            def f(it, v, obj):
                if not isinstance(v, T):
                    return None
                nm = self.lname(it, obj)
                if nm in self.names and self.kinds[self.names.index(nm)] not in kinds:
                    return None
                t = tens(f"{short[a]}_{nm}", *v.shape)
                return T(t.shape, t.p, dt=v.dt, kind="arr")
            return f
        for a in attrs:
            self.it.cuts[("Layer", a)] = mk(a)

    def stub_solve(self):
        """modes of every layer are arbitrary: q[2nh], phi[2nh,2nh], Q[2nh,2nh]"""
        n2 = self.n + self.n

        def st(it, f, a, k, node):
            self_ = a[0]
            it.event("solve", node)
            ls = it.getattr(self_, "layers")
            for l in it.items_of(ls):
                nm = self.lname(it, l)
                it.setattr(l, "eigenvalues", tens("q_" + nm, n2), node)
                it.setattr(l, "eigenvectors", tens("phi_" + nm, n2, n2), node)
                it.setattr(l, "Qeps", tens("Q_" + nm, n2, n2), node)
                it.setattr(l, "eps_hat", tens("epsh_" + nm, self.n, self.n), node)
            it.setattr(self_, "is_solved", True, node)
            return None
        self.it.stubs["nannos.simulation.Simulation.solve"] = st

    def expand(self, t):
        """replace cut symbols by their definitions"""
        for a, v in list(self.it.defs.items()):
            if isinstance(v, T) and isinstance(t, T) and not any(bd for (bd, fs), c in v.p.t):
                def fn(*idx, v=v):
                    return A.polysub(v.p, 0, {("f", k): i for k, i in enumerate(idx)})
                t = T(t.shape, subst_atoms(t.p, {a: fn}))
        return t

    def layer_attr(self, i, a):
        return self.it.getattr(self.layers[i], a)

    def S(self, a):
        return self.it.getattr(self.sim, a)


def diagv(v):
    return tdiag(v)


def mm(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = tmatmul(r, x)
    return r


def T2(sh, p):
    return T(sh, p)


def half(t, k):
    n = nh()
    return tindex(t, [Sl(P(0), n)]) if k == 0 else tindex(t, [Sl(n, n + n)])
