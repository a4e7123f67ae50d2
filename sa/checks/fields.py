"""C03, C04, C05, C17, C27, C30: mode expansion, fields and power."""
from .. import algebra as A
from ..algebra import *
from ..values import *
from ..ctx import sym
from ..phys import *
from ..phys import SimCtx, parts, nh, half, mm
from .toe import dft, pidx


def comp(t, k):
    return tindex(t, [k])


def amps(tag):
    n2 = nh() + nh()
    return tens("a_" + tag, n2), tens("b_" + tag, n2)


def field_ctx(backend, two_d, form, kinds, **kw):
    """modes of every layer arbitrary"""
    c = SimCtx(backend, two_d, form, kinds, modes=True, **kw)
    return c


def fourier_fields(c, i, z):
    """the six components of get_field_fourier(layer i, depth z) as functions of the
    amplitudes of that layer"""
    it = c.it
    r = c.meth(c.sim, "get_field_fourier", i, z)
    c.need(r, "get_field_fourier")
    return r


def stub_amplitudes(c):
    """mode amplitudes of every layer at its reference planes are arbitrary"""
    it = c.it

    def st(it, f, a, k, node):
        self_, idx = a[0], (a[1] if len(a) > 1 else k.get("layer_index"))
        return NotImplemented
    return st


def set_S(c):
    """scattering matrices of every range are arbitrary matrices"""
    n2 = c.n + c.n
    it = c.it

    def st(it, f, a, k, node):
        self_ = a[0]
        ind = it.simplify(a[1] if len(a) > 1 else k.get("indices"))
        if ind is None:
            tag = "tot"
        else:
            tag = "_".join(A.show(x.p) if isinstance(x, T) else str(x) for x in it.items_of(ind))
        S = it.new_list([it.new_list([tens(f"S{i}{j}_{tag}", n2, n2) for j in (1, 2)]) for i in (1, 2)])
        if ind is None:
            it.setattr(self_, "S", S, node)
        it.event("smatrix", node, tag=tag, indices=ind)
        return S
    it.stubs["nannos.simulation.Simulation.get_S_matrix"] = st


def solve(c):
    c.meth(c.sim, "solve")
    if c.it.dead:
        c.need(None, "solve")


def c04(rep):
    confs = [("numpy", True, "original", "upu"), ("numpy", True, "original", "uau"), ("torch", True, "original", "upu"),
             ("numpy", False, "original", "upu")]
    if rep.tier == "thorough":
        confs += [("jax", True, "original", "upu"), ("autograd", True, "original", "upu"), ("scipy", True, "original", "upu"),
                  ("torch", True, "original", "uau"), ("numpy", True, "tangent", "upu"), ("torch", False, "original", "upu")]
    n = nh()
    n2 = n + n
    def context0(rep, item):
        cf = item
        c = field_ctx(*cf)
        it = c.it
        c.cut_modes(("eps_hat",))
        set_S(c)
        solve(c)
        kx, ky = c.S("kx"), c.S("ky")
        w = c.S("omega")
        z = sym("z", real=True)
        for i in range(3):
            lay = c.layers[i]
            con = f"get_field_fourier, layer {i} ({cf[3][i]}), {c.tag}"
            for nz in (1, 2):
                zs = z if nz == 1 else [z, sym("z2", real=True)]
                F = fourier_fields(c, i, zs)
                if not isinstance(F, T):
                    rep.unknown("curl", con, repr(F)[:200])
                    continue
                for iz in range(nz):
                    f = tindex(F, [iz])
                    e = [tindex(f, [0, k]) for k in range(3)]
                    h = [tindex(f, [1, k]) for k in range(3)]
                    zz = z if iz == 0 else atomT("z2")
                    r1 = tsub(tmul(h[2], w), tsub(tmul(kx, e[1]), tmul(ky, e[0])))
                    rep.zero(r1, "curl-E", con, parts(), what="omega Hz - (kx Ey - ky Ex)")
                    rhs = tsub(tmul(ky, h[0]), tmul(kx, h[1]))
                    if cf[3][i] == "u":
                        lhs = tmul(tmul(c.it.getattr(lay, "epsilon"), e[2]), w)
                    else:
                        lhs = tmul(mm(c.it.getattr(lay, "eps_hat"), e[2]), w)
                    rep.zero(tsub(lhs, rhs), "curl-H", con, parts(), what="eps Ez omega - (ky Hx - kx Hy)")
                    expect_tangential(rep, c, i, zz, e, h, con)
        rep.used(it, c.tag)
    rep.fan(context0, confs)


def atomT(nm):
    return T((), atom(nm), kind="float")


def layer_amplitudes(c, i):
    """(a, b) that the stack assigns to layer i, in terms of the scattering matrices"""
    n2 = c.n + c.n
    N = len(c.layers) - 1
    a0 = c.S("a0")
    if not hasattr(c, "_a0"):
        c._a0 = a0
    S = lambda i, j, tag: tens(f"S{i}{j}_{tag}", n2, n2)
    if i == 0:
        return a0, mm(S(2, 1, "tot"), a0)
    if i == N:
        return mm(S(1, 1, "tot"), a0), T((n2,), ZERO)
    l, r = f"0_{i}", f"{i}_{N}"
    Q = tsub(teye(n2), mm(S(1, 2, l), S(2, 1, r)))
    a = mm(tinv(Q), mm(S(1, 1, l), a0))
    return a, mm(S(2, 1, r), a)


def phase(q, z):
    return tfn("exp", T(q.shape, pmul(A.I if hasattr(A, "I") else P(1j), pmul(q.p, z.p))))


def expect_tangential(rep, c, i, z, e, h, con):
    """tangential fields = mode expansion with forward phases from the top and backward
    phases from the bottom of that very layer"""
    lay = c.layers[i]
    it = c.it
    q, phi, Q = (it.getattr(lay, x) for x in ("eigenvalues", "eigenvectors", "Qeps"))
    d = it.getattr(lay, "thickness")
    w = c.S("omega")
    a, b = layer_amplitudes(c, i)
    ai = tmul(a, phase(q, z))
    bi = tmul(b, phase(q, tsub(d, z)))
    ht = mm(phi, tadd(ai, bi))
    et = mm(Q, mm(phi, tdiv(tsub(ai, bi), tmul(w, q))))
    p = parts()
    rep.zero(tsub(h[0], half(ht, 0)), "mode-expansion H", con, p, what="Hx")
    rep.zero(tsub(h[1], half(ht, 1)), "mode-expansion H", con, p, what="Hy")
    rep.zero(tadd(e[1], half(et, 0)), "mode-expansion E", con, p, what="-Ey")
    rep.zero(tsub(e[0], half(et, 1)), "mode-expansion E", con, p, what="Ex")


def synthesis_of(F, fld, k, n1, n2, harm):
    """values on an n1 x n2 grid of component k of field fld of the Fourier amplitudes F
    (depth, field, component, order)"""
    f = tindex(F, [Sl(P(0), F.shape[0]), fld, k])
    x, y, z, i = (("f", q) for q in range(4))
    g = lambda r: A.nidx(("e", A.shift(A.psub_free(tindex(harm, [r]).p, {("f", 0): i}), 0, 1)))
    kern = pmul(A.pconj(dft(n1, x, g(0))), A.pconj(dft(n2, y, g(1))))
    p = A.psub_free(f.p, {("f", 0): z, ("f", 1): i})
    return tsum(T((n1, n2, f.shape[0], f.shape[1]), pmul(p, kern)), 3)


def c27(rep):
    confs = [("numpy", True, "original", "upu"), ("torch", True, "original", "upu"), ("jax", False, "original", "upu")]
    if rep.tier == "thorough":
        confs += [("numpy", True, "original", "uau"), ("numpy", False, "original", "upu"), ("autograd", True, "original", "upu"),
                  ("scipy", True, "original", "upu"), ("torch", False, "original", "upu"), ("jax", True, "original", "uau")]
    rep.fan(c27_conf, [(cf, i) for cf in confs for i in range(3)])


def c27_conf(rep, item):
    cf, only = item
    if True:
        c = field_ctx(*cf, plane_orders=not cf[1])
        it = c.it
        it.named = {"nannos.simulation.Simulation.get_field_fourier"}
        c.cut_modes(("eps_hat",))
        set_S(c)
        solve(c)
        z1, z2 = sym("z", real=True), sym("z2", real=True)
        m1 = sym("m1", "int", integer=True, pos=True)
        m2 = sym("m2", "int", integer=True, pos=True)
        n1, n2 = atom("N1"), atom("N2") if cf[1] else P(1)
        harm = c.S("harmonics")
        snap = it.st.fork()

        def ask(m, *a, **k):
            it.st = snap.fork()
            return c.meth(c.sim, m, *a, **k)
        for i in (only,):
            for shape in (None, (m1, m2)):
                for z in ((z1, [z1, z2]) if i == 1 else (z1,)):
                    F = ask("get_field_fourier", i, z=z)
                    c.need(F, "get_field_fourier")
                    d = (n1, n2) if shape is None else (m1.p, m2.p)
                    spec = [[synthesis_of(F, f, k, *d, harm) for k in range(3)] for f in range(2)]
                    spec = [s + [tstack(s)] for s in spec]
                    for comp in ("x", "y", "z", "all"):
                        for fld in ("E", "H", "all"):
                            con = (f"get_field_grid(field={fld}, component={comp}, "
                                   f"{'no grid' if shape is None else 'grid given'}, "
                                   f"{'one depth' if z is z1 else 'two depths'}), layer {i} ({cf[3][i]}), {c.tag}")
                            r = ask("get_field_grid", i, z=z, shape=shape, field=fld, component=comp)
                            one(rep, c, con, r, fld, spec, "xyz".index(comp) if comp != "all" else 3)
                        for fld in ("E", "H"):
                            con = f"get_{fld}field_grid(component={comp}, {'no grid' if shape is None else 'grid given'}), layer {i}, {c.tag}"
                            r = ask(f"get_{fld}field_grid", i, z, shape, comp)
                            one(rep, c, con + " (positional)", r, fld, spec, "xyz".index(comp) if comp != "all" else 3)
                            r = ask(f"get_{fld}field_grid", i, component=comp, shape=shape, z=z)
                            one(rep, c, con, r, fld, spec, "xyz".index(comp) if comp != "all" else 3)
            # defaults: top of the layer, every component of both fields, grid of the lattice
            F0 = ask("get_field_fourier", i)
            c.need(F0, "get_field_fourier")
            spec = [[synthesis_of(F0, f, k, n1, n2, harm) for k in range(3)] for f in range(2)]
            spec = [s + [tstack(s)] for s in spec]
            one(rep, c, f"get_field_grid() defaults, layer {i}, {c.tag}", ask("get_field_grid", i), "all", spec, 3)
            # the layer asked for by its name is the same one
            F = ask("get_field_fourier", c.names[i])
            rep.equal(F, F0, "layer-by-name", f"get_field_fourier, layer {i}, {c.tag}")
        rep.used(it, c.tag)


def one(rep, c, con, r, fld, spec, k):
    c.need(r, con)
    if fld == "all":
        rs = [tindex(r, [j]) for j in range(2)] if isinstance(r, T) else c.it.items_of(r) if isinstance(r, Ref) else list(getattr(r, "items", []))
        if len(rs) != 2:
            rep.bad("partial-is-part", con, "electric and magnetic fields are not both returned")
            return
        for nm, v, s in zip("EH", rs, spec):
            rep.equal(v, s[k], "partial-is-part", f"{con}, {nm}", parts())
        return
    rep.equal(r, spec["EH".index(fld)][k], "partial-is-part", con, parts())
