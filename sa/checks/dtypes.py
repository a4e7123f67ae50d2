"""C26: no step in single precision."""
import ast
from fractions import Fraction as Fr
from .. import algebra as A
from ..algebra import *
from ..values import *
from ..ctx import sym, Ctx, program
from ..phys import SimCtx, parts, nh
from .. import interp as I
from ..interp import AnalysisError, Refused, Interp
from ..decide import deep_factors
from .fields import set_S, solve
from .misc import arr


def exact(t):
    """every entry is a number that single precision represents exactly"""
    for (bd, fs), c in t.p.t:
        for f, e in fs:
            if f[0] not in ("delta", "idx", "cmp", "bool", "ind", "lt", "sel"):
                return False
        for x in (c.re, c.im):
            x = Fr(x)
            if x.denominator & (x.denominator - 1) or abs(x) >= 1 << 20 or x.denominator > 1 << 20:
                return False
    return True


class Watch:
    """record every array of single precision that the evaluation makes"""

    def __enter__(self):
        self.rec = {}
        self.seen = 0
        self.where = set()
        self.old = old = Interp.ev
        w = self

        def ev(self, e, fr):
            v = old(self, e, fr)
            if isinstance(v, T) and v.kind == "arr" and not isinstance(e, (ast.Name, ast.Constant)):
                if v.dt is not None:
                    w.seen += 1
                    w.where.add((fr.qual, e.lineno))
                if v.dt in ("f32", "c64") and not exact(v):
                    w.rec.setdefault((fr.qual, e.lineno), (ast.unparse(e)[:80], v.dt, v))
            return v
        Interp.ev = ev
        return self

    def __exit__(self, *a):
        Interp.ev = self.old


def judge(rep, w, con):
    if not w.seen:
        rep.unknown("double-precision", con, "no array of known type")
        return
    byfn = {}
    for (q, l), (src, dt, v) in w.rec.items():
        byfn.setdefault(q, (l, src, dt))
    for q in sorted({q for q, l in w.where}):
        if q in byfn:
            l, src, dt = byfn[q]
            rep.bad("double-precision", f"{q} ({con})", f"line {l}: {src} is rounded to {dt}")
        else:
            rep.ok("double-precision", f"{q} ({con})")


def want(rep, v, con):
    """a result given to the user"""
    if isinstance(v, Tup):
        vs = list(v.items)
    else:
        vs = [v]
    for x in vs:
        if isinstance(x, T) and x.dt is not None:
            rep.check(x.dt not in ("f32", "c64"), "result-double", con, f"result of type {x.dt}")


def flow(rep, item):
    b, two, form, kinds = item
    with Watch() as w:
        c = SimCtx(b, two, form, kinds, cut=("kx", "ky", "omega", "a0"), modes=True,
                   sim_kw=None)
        it = c.it
        con = f"{c.tag}"
        solve(c)
        it.start_naming()
        z = [sym("z", real=True), sym("z2", real=True)]
        todo = [("get_S_matrix", ()), ("diffraction_efficiencies", ()), ("get_field_fourier", (1, z)),
                ("get_field_grid", (1, z[0])), ("get_z_stress_tensor_integral", (0,)), ("get_epsilon", (1,))]
        for m, a in todo:
            v = c.meth(c.sim, m, *a)
            if it.dead:
                it.dead = False
                rep.unknown("double-precision", f"{con} {m}", f"raises {it.raised[-1][1]}")
                continue
            want(rep, v, f"{m} ({con})")
        v = c.meth(c.sim, "diffraction_efficiencies", True, True)
        want(rep, v, f"diffraction_efficiencies(orders, complex) ({con})")
    for a in ("kx", "ky", "omega", "a0"):
        x = it.defs.get(a)
        x = c.S(a)
        rep.check(getattr(x, "dt", None) not in ("f32", "c64"), "attribute-double", f"Simulation.{a} ({con})", "single precision")
    judge(rep, w, con)
    rep.used(it, con)


INPUTS = ("lattice", "lattice 1D", "plane wave", "layer", "simp array", "project scalar", "project array",
          "multi_project scalar", "multi_project array", "multi_simp scalar", "multi_simp array", "apply_filter", "apply_filter vectors",
          "mask circle", "mask ellipse", "mask rectangle", "mask polygon")


def inputs(rep, item):
    """constructors and helpers fed with plain python numbers, as users write them"""
    b, what = item
    con = f"{b}/{what}"
    with Watch() as w:
        c = Ctx(b)
        it = c.it
        F = lambda n: sym(n, real=True)
        L = it.get("nannos.lattice.Lattice")
        N1, N2 = sym("N1", "int", integer=True, pos=True, lb=4), sym("N2", "int", integer=True, pos=True, lb=4)
        out = []

        def attrs(o, *names):
            for a in names:
                out.append((a, it.getattr(o, a)))
        lat = lambda: c.run(L, ((F("ux"), F("uy")), (F("vx"), F("vy"))), (N1, N2))
        if what == "lattice":
            l = lat()
            attrs(l, "matrix", "reciprocal", "area", "unit_grid", "grid")
            out.append(("ones", c.meth(l, "ones")))
            out.append(("zeros", c.meth(l, "zeros")))
            out.append(("constant", c.meth(l, "constant", F("e"))))
            x, y = arr("X", N1.p, N2.p), arr("Y", N1.p, N2.p)
        elif what == "lattice 1D":
            l = c.run(L, F("period"), N1)
            attrs(l, "matrix", "reciprocal", "unit_grid", "grid")
        elif what == "plane wave":
            pw = c.run("nannos.excitation.PlaneWave", F("lam"), (F("theta_d"), F("phi_d"), F("psi_d")))
            attrs(pw, "wavelength", "angles_deg", "angles", "wavevector", "wavenumber", "amplitude", "frequency_scaled", "a0")
        elif what == "layer":
            l = c.meth(lat(), "Layer", "A", F("h"), F("e"), F("m"))
            attrs(l, "epsilon", "mu")
        elif what.startswith("mask"):
            g = what.split()[1]
            it.stubs["nannos.geometry.shape_mask"] = lambda it, f, a, k, node: it.event("mask", node, args=a) and arr("M", N1.p, N2.p)
            pt = (F("cx"), F("cy"))
            v = {"circle": lambda l: c.meth(l, "circle", pt, F("r")), "ellipse": lambda l: c.meth(l, "ellipse", pt, (F("ra"), F("rb")), F("rot")),
                 "rectangle": lambda l: c.meth(l, "rectangle", pt, (F("wa"), F("wb")), F("rot")),
                 "polygon": lambda l: c.meth(l, "polygon", (pt, (F("px"), F("py")), (F("p2x"), F("p2y"))))}[g](lat())
            for e in it.events:
                if e.kind == "mask":
                    out += [(f"argument {n} of shape_mask", x) for n, x in enumerate(e.data["args"]) if isinstance(x, T)]
        else:
            fn, form = (what.split() + [""])[:2]
            x = F("x") if form == "scalar" else arr("x", N1.p, N2.p)
            if form != "scalar":
                x = T(x.shape, x.p, dt="f64", kind="arr")
            mod = "nannos.optimize."
            if fn == "simp":
                r = c.run(mod + fn, x, F("ea"), F("eb"), F("p"))
            elif fn == "project":
                r = c.run(mod + fn, x, F("beta"), F("thres"))
            elif fn == "multi_project":
                r = c.run(mod + fn, x, F("beta"), 3)
            elif fn == "multi_simp":
                r = c.run(mod + fn, x, it.new_list([F("ea"), F("eb"), F("ec")]), F("p"))
            else:
                r = c.run("nannos.utils.helpers._apply_filter", x, F("rf"), *([((F("ux"), F("uy")), (F("vx"), F("vy")))] if form else []))
            out.append((fn, r))
        if it.dead:
            raise AnalysisError(f"raises {it.raised[-1][1]} {it.raised[-1][1].args}")
        for n, v in out:
            want(rep, v, f"{n} ({con})")
    judge(rep, w, con)
    rep.used(it, con)


def jax64(rep):
    """the only library whose default is single precision for everything is told otherwise"""
    it = Interp(program(), "jax")
    on = [e for e in it.events_boot if e.kind == "ext_call" and e.data["path"].endswith("config.update") and e.data["args"] and e.data["args"][0] == "jax_enable_x64"]
    last = on[-1].data["args"][1] if on else None
    rep.check(last is True and not any(e.pc for e in on[-1:]), "jax-x64", "nannos", "importing the package with the jax backend does not switch jax to 64 bits"
              + (f" (line {on[-1].line})" if on else ""))


def c26(rep):
    quick = rep.tier == "quick"
    jobs = []
    for b in ("torch", "jax", "numpy") + (() if quick else ("autograd", "scipy")):
        for it in ((True, "original", "upu"), (True, "tangent", "uau"), (True, "jones", "upu"), (True, "pol", "upu"), (False, "tangent", "upu"),
                   (False, "original", "upu")):
            if b != "torch" and quick and it[1:] not in (("tangent", "uau"), ("original", "upu")):
                continue
            jobs.append(("flow", (b,) + it))
    for b in ("torch", "jax", "numpy", "autograd"):
        for w in INPUTS:
            jobs.append(("inputs", (b, w)))

    def one(rep, j):
        (flow if j[0] == "flow" else inputs)(rep, j[1])
    rep.fan(one, jobs, 8)
    jax64(rep)


LEVEL = {"C26": "Type inference on the value numbers of every array"}
