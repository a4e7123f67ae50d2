"""C22: invalid input is refused on every path, valid input is accepted."""
from .. import algebra as A
from ..algebra import *
from ..values import *
from ..ctx import sym, Ctx, lift
from ..phys import SimCtx, parts, nh


class Judge:
    def __init__(self, rep, c):
        self.rep, self.c, self.it = rep, c, c.it

    def run(self, f, a, k):
        it = self.it
        s0 = it.st
        it.st = s0.fork()
        n0 = len(it.raised)
        it.dead, it.ncalls = False, 0
        v = self.c.run(f, *a, **k) if not callable(f) else f()
        dead, new = it.dead, it.raised[n0:]
        it.dead = False
        it.st = s0
        del it.raised[n0:]
        return v, dead, new

    def refused(self, what, f, *a, **k):
        v, dead, new = self.run(f, a, k)
        if dead:
            self.rep.ok("refused", what)
        else:
            when = f" unless {[A.show(x) for r in new for x in r[0]]}" if new else ""
            self.rep.bad("refused", what, f"is accepted{when}"[:300])

    def accepted(self, what, f, *a, **k):
        v, dead, new = self.run(f, a, k)
        if dead or new:
            r = new[-1] if new else None
            self.rep.bad("accepted", what, f"is refused: {r[1] if r else ''} {r[1].args if r else ''}"
                         + ("" if dead else f" when {[A.show(x) for x in r[0]]}"))
        else:
            self.rep.ok("accepted", what)
        return v


def c22(rep):
    jobs = ["lattice", "layer", "sim1", "grid", "fields2", "fields1", "queries2", "queries1", "tangent", "backend", "plot"]

    def one(rep, job):
        globals()["j_" + job](rep)
    rep.fan(one, jobs)


TRUNC = ("circular", "parallelogrammic")


def j_lattice(rep):
    c = Ctx("numpy")
    it = c.it
    J = Judge(rep, c)
    L = it.get("nannos.lattice.Lattice")
    u = tuple(tuple(sym(f"{a}{b}", real=True) for b in "xy") for a in "uv")
    N = sym("N1", "int", integer=True, pos=True, lb=4)
    for dim, bv in (("2D", u), ("1D", sym("period", pos=True))):
        for t in ("foo", "", "Circular", "circ", "circular ", "parallelogramic", None, "c", "r", 0):
            J.refused(f"truncation {t!r} ({dim})", L, bv, (N, N), truncation=t)
            J.refused(f"truncation {t!r} given by position ({dim})", L, bv, (N, N), t)
        for t in TRUNC:
            J.accepted(f"truncation {t!r} ({dim})", L, bv, (N, N), truncation=t)
            lat = J.accepted(f"truncation {t!r}, number of points only ({dim})", L, bv, N, truncation=t)
        J.accepted(f"default truncation ({dim})", L, bv)
    # harmonics counts; the lattice has numbers for vectors so that the sets can be enumerated
    for lab, bv in (("square", ((1, 0), (0, 1))), ("oblique", ((1, 0), (0.5, 0.8))), ("1D", 1.0)):
        for t in TRUNC:
            lat = c.run(L, bv, (64, 64), truncation=t)
            for n in (2.5, 7.0001, 0.5):
                for srt in (False, True):
                    J.refused(f"{n} harmonics ({lab}, {t}, sort={srt})", it.getattr(lat, "get_harmonics"), n, srt)
            for n in (1, 2, 3, 7, 9.0, 16, 25) if lab == "1D" or t != "circular" else ():
                for srt in (False, True):
                    J.accepted(f"{n} harmonics ({lab}, {t}, sort={srt})", it.getattr(lat, "get_harmonics"), n, srt)
            J.refused(f"any non-integer number of harmonics ({lab}, {t})", it.getattr(lat, "get_harmonics"), half_int())
    # shapes of bi-periodic lattices on a mono-periodic one
    for t in TRUNC:
        lat1 = c.run(L, sym("period", pos=True), (N, N), truncation=t)
        lat2 = c.run(L, u, (N, N), truncation=t)
        r = sym("rad", pos=True)
        xy = (sym("cx", real=True), sym("cy", real=True))
        for nm, a in (("circle", (xy, r)), ("ellipse", (xy, (r, r))), ("square", (xy, r)), ("rectangle", (xy, (r, r))),
                      ("polygon", (((0, 0), (0, 1), (1, 1)),))):
            J.refused(f"{nm} on a mono-periodic lattice ({t})", it.getattr(lat1, nm), *a)
            if nm in ("ellipse", "square", "rectangle"):
                J.refused(f"rotated {nm} on a mono-periodic lattice ({t})", it.getattr(lat1, nm), *a, rotate=30)
        J.accepted(f"stripe on a mono-periodic lattice ({t})", it.getattr(lat1, "stripe"), xy[0], r)
    rep.used(it, "numpy")


def half_int():
    """2 m + 1/2 for any integer m"""
    declare("mm", integer=True, pos=True)
    return T((), atom("mm") * 2 + P(Fr(1, 2)), kind="float")


from fractions import Fraction as Fr


def j_layer(rep):
    for backend in ("numpy", "torch", "jax", "autograd"):
        c = Ctx(backend)
        it = c.it
        J = Judge(rep, c)
        for two_d in (True, False):
            lat = c.lattice(two_d)
            d = sym("d", pos=True)
            neg = T((), -atom("d"), kind="float")
            mus = [2, 1.0001, 1 + 0.1j, 0, -1, 0.5, 1 - 1e-9]
            for kind in "up":
                eps = c.eps("L", kind, two_d)
                for lab, mk in (("Lattice.Layer", it.getattr(lat, "Layer")), ("Layer", it.get("nannos.layers.Layer"))):
                    kw = {} if lab == "Lattice.Layer" else {"lattice": lat}
                    tag = f"{lab}, {'patterned' if kind == 'p' else 'uniform'}, {'2D' if two_d else '1D'}, {backend}"
                    J.refused(f"negative thickness ({tag})", mk, "L", neg, eps, **kw)
                    J.refused(f"negative thickness by keyword ({tag})", mk, "L", thickness=neg, epsilon=eps, **kw)
                    for v in (-1, -1e-12, -3.5):
                        J.refused(f"thickness {v} ({tag})", mk, "L", v, eps, **kw)
                    for m in mus:
                        J.refused(f"permeability {m} ({tag})", mk, "L", d, eps, m, **kw)
                        J.refused(f"permeability {m} by keyword ({tag})", mk, "L", d, epsilon=eps, mu=m, **kw)
                    for v in (0, 0.0, 2.5, None, d):
                        J.accepted(f"thickness {v!r} ({tag})", mk, "L", v, eps, **kw)
                    for m in (1, 1.0, 1 + 0j):
                        J.accepted(f"permeability {m!r} ({tag})", mk, "L", d, eps, m, **kw)
                    J.accepted(f"defaults ({tag})", mk, **kw)
        rep.used(it, backend)


FORMS = ("original", "tangent", "jones", "pol")
BADFORMS = ("foo", "", "Pol", "orig", "jone", None, "original ", "o", "tangential", "p", 0)


def j_sim1(rep):
    """names, lattices and formulations"""
    for two_d in (True, False):
        c = Ctx("numpy")
        it = c.it
        J = Judge(rep, c)
        fixed(c, [(0, 0), (1, 0), (-1, 0)])
        dim = "2D" if two_d else "1D"
        lat, lat_b = c.lattice(two_d), c.lattice(two_d)
        lat_c = c.lattice(not two_d)
        pw = c.plane_wave()
        S = it.get("nannos.simulation.Simulation")
        it.stubs["nannos.layers.Layer.get_tangent_field"] = lambda it, f, a, k, n: tens("tau", P(2), atom("N1"), atom("N2") if two_d else P(1))
        mk = lambda nm, kind, l=lat, td=two_d: c.layer(l, nm, kind, td)
        nh0 = sym("nh0", "int", integer=True, pos=True)
        sim = lambda ls, *a, **k: (S, [list(ls), pw, *a], k)

        def chk(meth, what, ls, *a, **k):
            getattr(J, meth)(what, S, it.new_list(list(ls)), pw, *a, **k)
        for names in (("a", "a"), ("a", "b", "a"), ("a", "b", "b"), ("a", "a", "b"), ("a", "b", "c", "a"), ("a", "b", "c", "b"), ("a", "b", "c", "d", "d"),
                      ("", ""), ("layer", "layer", "layer")):
            for kinds in ("u", "p"):
                ls = [mk(n, "u" if i in (0, len(names) - 1) else kinds) for i, n in enumerate(names)]
                chk("refused", f"layers named {names} ({dim}, {kinds})", ls, nh0)
        ly = mk("s", "u")
        chk("refused", f"one layer object twice ({dim})", [ly, mk("b", "p"), ly], nh0)
        cp = c.meth(ly, "copy", "s")
        chk("refused", f"a copy with the same name ({dim})", [ly, cp], nh0)
        for names in (("a", "b"), ("a", "ab", "b"), ("a", "A", "aa"), ("a", "b", "c", "d")):
            chk("accepted", f"layers named {names} ({dim})", [mk(n, "u" if i in (0, len(names) - 1) else "p") for i, n in enumerate(names)], nh0)
        for n, bad in ((2, 0), (2, 1), (3, 0), (3, 1), (3, 2), (4, 2), (4, 3)):
            for other, lab, td in ((lat_b, "an equal but distinct lattice", two_d), (lat_c, "a lattice of the other dimension", not two_d), (None, "no lattice", two_d)):
                ls = [mk(f"l{i}", "u") for i in range(n)]
                if other is None:
                    ls[bad] = c.run("nannos.layers.Layer", f"l{bad}", num(1.0), num(2.0))
                else:
                    ls[bad] = mk(f"l{bad}", "u", other, td)
                chk("refused", f"layer {bad} of {n} on {lab} ({dim})", ls, nh0)
        ls = [mk("t", "u"), mk("m", "p"), mk("b", "u")]
        lu = [mk("t", "u"), mk("m", "u"), mk("b", "u")]
        for lay, lab in ((ls, "patterned"), (lu, "uniform")):
            for f in BADFORMS:
                chk("refused", f"formulation {f!r} ({dim}, {lab})", lay, nh0, f)
                chk("refused", f"formulation {f!r} by keyword ({dim}, {lab})", lay, nh0, formulation=f)
            for f in FORMS:
                for h in (nh0, 1, 2, 7):
                    ok = two_d or f in FORMS[:2]
                    chk("accepted" if ok else "refused", f"formulation {f!r}, {h!r} harmonics ({dim}, {lab})", lay, h, f)
            chk("accepted", f"defaults ({dim}, {lab})", lay)
        rep.used(it, dim)


def fixed(c, orders):
    G = T((P(2), P(len(orders))), tstack([tstack([num(o[r]) for o in orders]) for r in (0, 1)]).p, dt="i", kind="arr")
    c.it.stubs["nannos.lattice.Lattice.get_harmonics"] = lambda it, f, a, k, node: Tup([G, num(len(orders))])


def j_grid(rep):
    """grids too coarse for the harmonics"""
    def sets(m, axis):
        o = [(0, 0), (1, 0), (-1, 0)]
        e = lambda v: (v, 0) if axis == 0 else (0, v)
        return {"both signs": o + [e(m), e(-m)], "positive only": o + [e(m)], "negative only": o + [e(-m)], "negative first": [e(-m)] + o,
                "last": o + [(1, 1), (-1, -1), e(-m)]}
    for m in (2, 3, 5, 8):
        for axis in (0, 1):
            for lab, orders in sets(m, axis).items():
                for two_d in (True, False):
                    if not two_d and axis == 1:
                        continue
                    oo = orders if two_d else [o for o in orders if not o[1]]
                    c = Ctx("numpy")
                    it = c.it
                    J = Judge(rep, c)
                    S = it.get("nannos.simulation.Simulation")
                    G = T((P(2), P(len(oo))), tstack([tstack([num(o[r]) for o in oo]) for r in (0, 1)]).p, dt="i", kind="arr")
                    pw = c.plane_wave()
                    for n, ok in ((2 * m - 2, False), (2 * m - 1, False), (2 * m, False), (2 * m + 1, True), (4 * m, True), (m, False), (m + 1, False)):
                        N = (max(n, 2), 64) if axis == 0 else (64, max(n, 2))
                        u = tuple(tuple(sym(f"{a}{b}", real=True) for b in "xy") for a in "uv") if two_d else sym("period", pos=True)
                        lat = c.run("nannos.lattice.Lattice", u, N, harmonics_array=G)
                        if lat is None:
                            rep.bad("accepted", "Lattice with given harmonics", f"{it.raised[-1][1]}")
                            return
                        mk = lambda nm, k: c.meth(lat, "Layer", nm, sym("d" + nm, pos=True), T((), atom("eps" + nm), kind="complex") if k == "u" else tens("eps" + nm, P(N[0]), P(N[1] if two_d else 1)))
                        ls = [mk("t", "u"), mk("m", "p"), mk("b", "u")]
                        what = f"orders up to {m} along axis {axis} ({lab}) on {N} points ({'2D' if two_d else '1D'})"
                        (J.accepted if ok else J.refused)(what, S, it.new_list(ls), pw, 10)
                    rep.used(it, f"{m}")


def j_queries2(rep):
    queries(rep, True)


def j_queries1(rep):
    queries(rep, False)


def queries(rep, two_d):
    dim = "2D" if two_d else "1D"
    orders = [(0, 0), (1, 0), (-1, 0), (2, 0)] + ([(0, 1), (0, -1), (1, 1)] if two_d else [])
    c = SimCtx("numpy", two_d=two_d, kinds="upu", names=["sup", "pat", "sub"], orders=orders, modes=True, stub_solve=True, plane_orders=False)
    it, sim = c.it, c.sim
    it.partitions = parts()
    J = Judge(rep, c)
    m = lambda nm: it.getattr(sim, nm)
    z = sym("z", real=True)
    # orders
    for nm in ("get_order_index",):
        f = m(nm)
        for bad in ((5, 0), (3, 0), (-2, 0), (0, 7), (1, 5), (0.5, 0), (1, 0, 0), (1,), (), 1.5, None, "a") + (((2, 1), (-1, -1), (1, -1), 1, 0, -1) if two_d else ((0, 1), (1, 1), 3, -2, 5)):
            J.refused(f"{nm} of order {bad!r} ({dim})", f, bad)
        for good in orders:
            J.accepted(f"{nm} of order {good!r} ({dim})", f, good)
        if not two_d:
            for good in (0, 1, -1, 2):
                J.accepted(f"{nm} of order {good!r} ({dim})", f, good)
    n = len(orders)
    Av = tens("Av", P(n))
    for bad in ((5, 0), (0, 7)) + ((1,) if two_d else (3,)):
        J.refused(f"get_order of order {bad!r} ({dim})", m("get_order"), Av, bad)
    rep.used(it, dim)


def j_fields2(rep):
    fields(rep, True)


def j_fields1(rep):
    fields(rep, False)


def fields(rep, two_d):
    from .fields import set_S
    dim = "2D" if two_d else "1D"
    c = SimCtx("numpy", two_d=two_d, kinds="upu", names=["sup", "pat", "sub"], modes=True, stub_solve=True)
    it, sim = c.it, c.sim
    it.partitions = parts()
    set_S(c)
    J = Judge(rep, c)
    m = lambda nm: it.getattr(sim, nm)
    z = sym("z", real=True)
    for nm in ("get_layer", "get_field_fourier", "get_field_grid", "get_Efield_grid", "get_Hfield_grid", "build_matrix"):
        f = m(nm)
        for bad in ("foo", "", "Sup", "pa", "pattern", None, 1.0, 3, 17):
            J.refused(f"{nm} of layer {bad!r} ({dim})", f, bad)
        if nm == "get_layer":
            for good in ("sup", "pat", "sub", 0, 1, 2):
                J.accepted(f"{nm} of layer {good!r} ({dim})", f, good)
            for i in range(3):
                J.accepted(f"{nm} of layer object {i} ({dim})", f, c.layers[i])
    other = c.layer(c.lat, "elsewhere", "u", two_d)
    J.refused(f"get_layer of a layer that is not in the stack ({dim})", m("get_layer"), other)
    for i in (0, 1, 2, "pat"):
        for bad in ("foo", "", "e", "EH", "x", None, "al", "ALL", 0, "D"):
            J.refused(f"get_field_grid of field {bad!r} in layer {i} ({dim})", m("get_field_grid"), i, z, field=bad)
            for comp in "xyz":
                J.refused(f"get_field_grid of field {bad!r}, component {comp} in layer {i} ({dim})", m("get_field_grid"), i, z, field=bad, component=comp)
        for nm in ("get_field_grid", "get_Efield_grid", "get_Hfield_grid"):
            for bad in ("foo", "", "X", "xy", None, "E", "al", "ALL", 0, "w"):
                J.refused(f"{nm} of component {bad!r} in layer {i} ({dim})", m(nm), i, z, component=bad)
                if nm == "get_field_grid":
                    for fl in ("E", "H"):
                        J.refused(f"{nm} of field {fl}, component {bad!r} in layer {i} ({dim})", m(nm), i, z, field=fl, component=bad)
    it.stubs["nannos.simulation.Simulation.get_ifft_amplitudes"] = lambda it, f, a, k, node: tens("IF", atom("N1"), atom("N2") if two_d else P(1), P(1))
    for fl in ("all", "E", "H"):
        for comp in ("all", "x", "y", "z"):
            J.accepted(f"get_field_grid of field {fl}, component {comp} ({dim})", m("get_field_grid"), 1, z, field=fl, component=comp)
    for nm in ("get_Efield_grid", "get_Hfield_grid"):
        for comp in ("all", "x", "y", "z"):
            J.accepted(f"{nm} of component {comp} ({dim})", m(nm), 1, z, component=comp)
    rep.used(it, dim)


def j_tangent(rep):
    for backend in ("numpy", "torch"):
        c = Ctx(backend)
        it = c.it
        J = Judge(rep, c)
        for two_d in (True,):
            lat = c.lattice(two_d)
            G = tens("G", P(2), atom("nh"))
            declare("nh", pos=True, integer=True)
            for fn in ("_get_tangent_field_fft", "_get_tangent_field_min"):
                it.stubs["nannos.formulations.tangent." + fn] = lambda it, f, a, k, n: tens("tau", P(2), atom("N1"), atom("N2"))
            for kind in "pa":
                for bad in ("foo", "", "OPT", "ff", "min", "opt ", 1):
                    l = c.layer(lat, "L", kind, two_d, tangent_field_type=bad)
                    if l is None:
                        rep.ok("refused", f"tangent field type {bad!r} of a layer")
                        it.dead = False
                    elif bad != "":
                        J.refused(f"tangent field type {bad!r} of a layer ({kind}, {backend})", it.getattr(l, "get_tangent_field"), G)
                    l = c.layer(lat, "L", kind, two_d)
                    for nrm in (False, True):
                        if bad != "":
                            J.refused(f"tangent field type {bad!r} ({kind}, {backend}, normalize={nrm})", it.getattr(l, "get_tangent_field"), G, nrm, type=bad)
                    if kind == "p":
                        J.refused(f"get_tangent_field, type {bad!r} ({backend})", "nannos.formulations.tangent.get_tangent_field", c.eps("L", kind), G, type=bad)
                for good in ("opt", "fft"):
                    l = c.layer(lat, "L", kind, two_d, tangent_field_type=good)
                    J.accepted(f"tangent field type {good!r} of a layer ({kind}, {backend})", it.getattr(l, "get_tangent_field"), G)
                    l = c.layer(lat, "L", kind, two_d)
                    J.accepted(f"tangent field type {good!r} ({kind}, {backend})", it.getattr(l, "get_tangent_field"), G, type=good)
        rep.used(it, backend)


BACKENDS = ("numpy", "scipy", "autograd", "jax", "torch")


def j_backend(rep):
    for b in BACKENDS:
        c = Ctx(b)
        it = c.it
        J = Judge(rep, c)
        it.stubs["nannos._reload_package"] = lambda it, f, a, k, n: None
        for bad in ("foo", "", "Numpy", "numpy ", "num", "tf", None, 0, "pytorch"):
            J.refused(f"backend {bad!r} from {b}", "nannos.set_backend", bad)
        for good in BACKENDS:
            J.accepted(f"backend {good!r} from {b}", "nannos.set_backend", good)
        rep.used(it, b)


def j_plot(rep):
    for backend in ("numpy", "torch"):
        c = Ctx(backend)
        it = c.it
        J = Judge(rep, c)
        lat = c.lattice(True)
        for kind in "pu":
            l = c.layer(lat, "L", kind)
            f = it.getattr(l, "plot")
            for bad in ("foo", "", "Re", "abs", "r", "e", None, 0, "real"):
                J.refused(f"plot of component {bad!r} ({kind}, {backend})", f, comp=bad)
        l = c.layer(lat, "L", "p")
        f = it.getattr(l, "plot")
        for bad in ((1,), (1, 2, 3), 1.5, None):
            J.refused(f"plot with {bad!r} periods ({backend})", f, bad)
        rep.used(it, backend)
