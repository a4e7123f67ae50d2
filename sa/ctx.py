"""Analysis contexts: the public objects of the package built by evaluating their own
constructors on value numbers (symbols standing for every input)."""
import os
import sys

from . import algebra as A
from .algebra import P, T, atom, tens, declare
from .values import *
from .interp import Interp, AnalysisError
from .program import Program

sys.setrecursionlimit(30000)
_PROG = {}


def program(root=None):
    root = root or os.environ.get("NANNOS_REPO", "/repo")
    if root not in _PROG:
        _PROG[root] = Program(root)
    return _PROG[root]


def sym(name, kind="float", **facts):
    declare(name, **facts)
    return T((), atom(name), kind=kind)


def lift(it, x):
    """python literal -> value"""
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return x
    if isinstance(x, (int, float, complex)):
        return num(x)
    if isinstance(x, tuple):
        return Tup([lift(it, i) for i in x])
    if isinstance(x, list):
        return it.new_list([lift(it, i) for i in x])
    if isinstance(x, dict):
        return it.alloc("dict", {k: lift(it, v) for k, v in x.items()})
    return x


class Ctx:
    """one analysis context.
    two_d: bi-periodic lattice;  layers: list of material kinds
      'u'  uniform isotropic, 'p' patterned isotropic, 'a' patterned 3x3 tensor"""

    def __init__(self, backend="numpy", stubs=None, root=None, flags=None):
        self.it = Interp(program(root), backend, flags=flags)
        self.backend = backend
        it = self.it
        if it.raised:
            raise AnalysisError(f"importing the package raises: {it.raised[0][1]}")
        it.stubs.update({
            "nannos.utils.time.tic": lambda it, f, a, k, n: num(0.0),
            "nannos.utils.time.toc": lambda it, f, a, k, n: num(0.0),
        })
        it.stubs.update(stubs or {})
        it.opaque_log.clear()
        it.events.clear()

    def lift(self, x):
        return lift(self.it, x)

    def run(self, f, *a, **k):
        if isinstance(f, str):
            f = self.it.get(f)
        return self.it.run(f, *[lift(self.it, x) for x in a], **{q: lift(self.it, v) for q, v in k.items()})

    def meth(self, o, name, *a, **k):
        return self.run(self.it.getattr(o, name), *a, **k)

    def attr(self, o, name):
        return self.it.getattr(o, name)

    # ------------------------------------------------------------------ objects
    def lattice(self, two_d=True, **kw):
        L = self.it.get("nannos.lattice.Lattice")
        if two_d:
            u = tuple(tuple(sym(f"{a}{b}", real=True) for b in "xy") for a in "uv")
            N1, N2 = sym("N1", "int", integer=True, pos=True, lb=4), sym("N2", "int", integer=True, pos=True, lb=4)
            return self.run(L, u, (N1, N2), **kw)
        N1 = sym("N1", "int", integer=True, pos=True, lb=4)
        return self.run(L, sym("period", pos=True), (N1, N1), **kw)

    def stub_harmonics(self, n=None):
        """the truncated set of orders: any integer array G of shape (2, nh)"""
        declare("nh", pos=True, integer=True)
        declare("G", real=True, integer=True)
        n = n if n is not None else atom("nh")
        self.nh = n

        def st(it, f, a, k, node):
            g = tens("G", P(2), n)
            return Tup([T(g.shape, g.p, dt="i", kind="arr"), T((), n, kind="int")])
        self.it.stubs["nannos.lattice.Lattice.get_harmonics"] = st

    def plane_wave(self, **kw):
        PW = self.it.get("nannos.excitation.PlaneWave")
        lam = sym("lam", pos=True)
        th, ph, ps = (sym(x, real=True) for x in ("theta_d", "phi_d", "psi_d"))
        return self.run(PW, lam, (th, ph, ps), **kw)

    def eps(self, tag, kind, two_d=True):
        N1, N2 = atom("N1"), atom("N2")
        if not two_d:
            N2 = P(1)
        declare("N1", pos=True, integer=True)
        declare("N2", pos=True, integer=True)
        if kind == "u":
            return T((), atom("eps_" + tag), kind="complex")
        if kind == "p":
            return tens("eps_" + tag, N1, N2)
        if kind == "a":
            return tens("eps_" + tag, P(3), P(3), N1, N2)
        raise ValueError(kind)

    def layer(self, lat, tag, kind, two_d=True, thickness=None, **kw):
        th = thickness if thickness is not None else sym("d_" + tag, nonneg=True)
        return self.meth(lat, "Layer", tag, th, self.eps(tag, kind, two_d), **kw)
