"""C03, C05, C17, C30: continuity, power, linearity, stress."""
from .. import algebra as A
from ..algebra import *
from fractions import Fraction as Fr
from ..values import *
from ..ctx import sym
from ..phys import *
from ..phys import SimCtx, parts, nh, half, mm
from .smatrix import get_S, identity_S, step_residuals
from .fields import set_S, phase, comp, atomT, solve, layer_amplitudes


def tang(c, i, z):
    """(ex, ey, hx, hy) Fourier vectors of the reconstructed field"""
    F = c.meth(c.sim, "get_field_fourier", i, z)
    c.need(F, "get_field_fourier")
    f = tindex(F, [0])
    return [tindex(f, [a, k]) for a in (0, 1) for k in (0, 1)]


def c03(rep):
    """(a) the S-matrix of an interface makes the mode expansions (E, H)_t of its two layers
    equal: M_i (f a_i, b_i) = M_j (a_j, f_j b_j);
    (b) with arbitrary scattering matrices of the parts above and below, the fields of every
    layer are these same expansions, and the amplitudes of an inner layer satisfy the
    scattering relations of both parts.  Together: continuity at every interface."""
    confs = [("numpy", "up"), ("numpy", "ua"), ("numpy", "uu"), ("torch", "ua"), ("numpy", "pa")]
    if rep.tier == "thorough":
        confs += [(b, k) for b in ("jax", "autograd", "scipy", "torch") for k in ("up", "ua", "pp")]
    def context0(rep, item):
        backend, kinds = item
        pre = "" if kinds[0] == "u" else "u"
        o = len(pre)
        c = SimCtx(backend, True, "original", pre + kinds, modes=True)
        solve(c)
        Sn = get_S(c, (o, o + 1))
        for what, r in step_residuals(c, identity_S(c), Sn, o, o + 1):
            rep.zero(r, "mode-matching", f"interface {kinds}, {backend}", parts(), what=what)
        rep.used(c.it, c.tag)
    rep.fan(context0, confs)
    def context1(rep, item):
        backend, kinds = item
        c = SimCtx(backend, True, "original", kinds, modes=True)
        c.cut_modes(("eps_hat",))
        set_S(c)
        solve(c)
        z = sym("z", real=True)
        from .fields import expect_tangential
        for i in range(len(kinds)):
            f = tindex(c.meth(c.sim, "get_field_fourier", i, z), [0])
            e = [tindex(f, [0, k]) for k in range(3)]
            h = [tindex(f, [1, k]) for k in range(3)]
            expect_tangential(rep, c, i, z, e, h, f"layer {i} of {kinds}, {backend}")
            if 0 < i < len(kinds) - 1:
                n2, N = c.n + c.n, len(kinds) - 1
                a, b = layer_amplitudes(c, i)
                S = lambda p, q, t: tens(f"S{p}{q}_{t}", n2, n2)
                con = f"amplitudes of layer {i} of {kinds}, {backend}"
                rep.zero(tsub(a, tadd(mm(S(1, 1, f"0_{i}"), c.S("a0")), mm(S(1, 2, f"0_{i}"), b))), "stack-above", con, parts())
                rep.zero(tsub(b, mm(S(2, 1, f"{i}_{N}"), a)), "stack-below", con, parts())
        rep.used(c.it, c.tag)
    rep.fan(context1, [("numpy", "upau"), ("torch", "upu"), ("numpy", "up"), ("numpy", "uu")])


def flux_ctx(backend, kinds, **kw):
    c = SimCtx(backend, True, "original", kinds, modes=True, **kw)
    c.cut_modes(("eps_hat",))
    set_S(c)
    solve(c)
    return c


def treal(t):
    return T(t.shape, preal(t.p), kind=t.kind)


def flux_total(c, i, a, b):
    """z-directed Poynting flux, per order, of the field with amplitudes a, b"""
    l = c.layers[i]
    q, phi, Q = (c.it.getattr(l, x) for x in ("eigenvalues", "eigenvectors", "Qeps"))
    h = mm(phi, tadd(a, b))
    e = mm(Q, mm(phi, tdiv(tsub(a, b), tmul(c.S("omega"), q))))
    v = treal(tmul(tconj(h), e))
    return tadd(half(v, 0), half(v, 1))


def c05(rep):
    confs = [("numpy", "upu"), ("torch", "uau"), ("numpy", "up")]
    if rep.tier == "thorough":
        confs += [(b, k) for b in ("jax", "autograd", "scipy", "torch") for k in ("upu", "ua")]
    def context0(rep, item):
        backend, kinds = item
        c = flux_ctx(backend, kinds)
        it = c.it
        n2, N = c.n + c.n, len(kinds) - 1
        a, b = tens("a_", n2), tens("b_", n2)
        z2 = T((n2,), ZERO)
        a, b, z2 = (T(x.shape, x.p, kind="arr") for x in (a, b, z2))
        for i, l in enumerate(c.layers):
            con = f"get_z_poynting_flux, layer {i} ({kinds[i]}), {c.tag}"
            def fl(x, y):
                r = c.meth(c.sim, "get_z_poynting_flux", l, x, y)
                c.need(r, "get_z_poynting_flux")
                return it.items_of(r)
            f, g = fl(a, b)
            rep.zero(tsub(tadd(f, g), flux_total(c, i, a, b)), "sum-of-fluxes", con, parts(), what="forward + backward - total")
            f0, g0 = fl(a, z2)
            rep.zero(tsub(f0, flux_total(c, i, a, z2)), "forward-flux", con, parts())
            rep.zero(g0, "forward-flux", con, parts(), what="backward flux without backward wave")
            f1, g1 = fl(z2, b)
            rep.zero(tsub(g1, flux_total(c, i, z2, b)), "backward-flux", con, parts())
            rep.zero(f1, "backward-flux", con, parts(), what="forward flux without forward wave")
        # efficiencies
        con = f"diffraction_efficiencies, {c.tag}"
        ro, to = it.items_of(c.meth(c.sim, "diffraction_efficiencies", orders=True))
        inc = c.S("incident_flux")
        S = lambda i, j: tens(f"S{i}{j}_tot", n2, n2)
        a0 = c.S("a0")
        b0 = mm(S(2, 1), a0)
        aN = mm(S(1, 1), a0)
        bwd = it.items_of(c.meth(c.sim, "get_z_poynting_flux", c.layers[0], a0, b0))[1]
        fwd = it.items_of(c.meth(c.sim, "get_z_poynting_flux", c.layers[-1], aN, z2))[0]
        rep.zero(tadd(tmul(inc, ro), bwd), "reflection", con, parts(), what="R incident + backward flux in the first layer")
        rep.zero(tsub(tmul(inc, to), fwd), "transmission", con, parts(), what="T incident - forward flux in the last layer")
        R, Tt = it.items_of(c.meth(c.sim, "diffraction_efficiencies"))
        rep.zero(tsub(R, tsum(ro, 0)), "totals", con, parts())
        rep.zero(tsub(Tt, tsum(to, 0)), "totals", con, parts())
        rep.used(it, c.tag)
    rep.fan(context0, confs)
    c05_incident(rep, "numpy")
    if rep.tier == "thorough":
        c05_incident(rep, "torch")
        c05_incident(rep, "jax")
    c05_complex(rep, "numpy", "upu", ["Superstrate", "Grating", "Substrate"])
    c05_complex(rep, "numpy", "uu", ["air", "Superstrate"])
    c05_complex(rep, "torch", "uu", ["Substrate", "Superstrate"])


def zeroth(t):
    """specialise to the zeroth diffraction order, which stands at position pord; the
    incident wave travels towards the structure (cos(theta) > 0)"""
    def fn(f):
        if f[0] == "app" and f[1] == "first":
            return atom("pord")
        if f[0] == "bool" and f[1][0] == "any":
            return ONE
        if f[0] == "fn" and f[1] == "cos" and "theta_d" in A.atoms_of(f[2]):
            return atom("ct")
        return None

    def g(f):
        h = f[1] if f[0] == "conj" else f
        if h[0] == "atom" and h[1] == "G" and "pord" in A.skey(h[2][1]):
            return ZERO
        return None
    return A.rewrite(A.rewrite(t, fn), g)


def other_order(t):
    """order mord is not the zeroth one"""
    def fn(f):
        if f[0] in ("cmp", "delta") and "mord" in A.skey(f) and "pord" in A.skey(f):
            return ZERO
        return None
    return A.rewrite(zeroth(t), fn)


def c05_incident(rep, backend):
    """with nothing reflected and everything transmitted: the flux of the incident wave is
    the one used for normalisation, and the complex reflection coefficients vanish"""
    declare("ct", pos=True)
    declare("pord", integer=True, nonneg=True)
    declare("mord", integer=True, nonneg=True)
    declare("eps_X0", pos=True)
    c = SimCtx(backend, True, "original", "uu", cut=(), names=["X0", "X1"])
    it, n2 = c.it, c.n + c.n
    set_S(c)
    solve(c)

    def st(it, f, a, k, node):
        z = T((n2, n2), ZERO, kind="arr")
        e = teye(n2)
        S = it.new_list([it.new_list([e, z]), it.new_list([z, e])])
        it.setattr(a[0], "S", S, node)
        return S
    it.stubs["nannos.simulation.Simulation.get_S_matrix"] = st
    p, m = T((), atom("pord"), kind="int"), T((), atom("mord"), kind="int")
    con = f"incident wave, {backend}"
    f = c.meth(c.sim, "get_z_poynting_flux", c.layers[0], c.S("a0"), T((n2,), ZERO, kind="arr"))
    f = it.items_of(f)[0]
    rep.zero(tsub(zeroth(tindex(f, [p])), zeroth(c.S("incident_flux"))), "incident-flux", con,
             what="forward flux of the incident amplitudes - incident flux")
    r, t = it.items_of(c.meth(c.sim, "diffraction_efficiencies", orders=True, complex=True))
    for k in range(3):
        rep.zero(zeroth(tindex(r, [k, p])), "complex-reflection", con, what=f"component {k}, zeroth order, nothing reflected")
        rep.zero(other_order(tindex(r, [k, m])), "complex-reflection", con, what=f"component {k}, other order, nothing reflected")
    rep.used(it, c.tag)


def c05_complex(rep, backend, kinds, names):
    """complex coefficients: fields of the first and last layer, whatever their names, with
    the weight that makes |t|^2 a flux ratio"""
    declare("incx", real=True)
    c = flux_ctx(backend, kinds, names=names)
    it, N = c.it, len(kinds) - 1
    con = f"complex orders, layers {names}, {backend}"
    v = c.meth(c.sim, "diffraction_efficiencies", orders=True, complex=True)
    if v is None:
        r = it.raised[-1]
        rep.bad("complex-orders", con, f"raises {r[1]} {r[1].args}")
        return
    r, t = it.items_of(v)
    w, kx, ky, k0 = c.S("omega"), c.S("kx"), c.S("ky"), c.S("k0para")
    half_p = Fr(1, 2)

    def gam(l, x, y):
        n2 = tmul(it.getattr(l, "epsilon"), it.getattr(l, "mu"))
        return tpow(tsub(tsub(tmul(tmul(w, w), n2), tmul(x, x)), tmul(y, y)), half_p)
    l0, lN = c.layers[0], c.layers[-1]
    n2 = tmul(it.getattr(l0, "epsilon"), it.getattr(l0, "mu"))
    g0 = gam(l0, tindex(k0, [0]), tindex(k0, [1]))

    def weight(l):
        return tpow(treal(tdiv(tmul(n2, gam(l, kx, ky)), g0)), half_p)
    F0 = tindex(c.meth(c.sim, "get_field_fourier", 0), [0, 0])
    FN = tindex(c.meth(c.sim, "get_field_fourier", N), [0, 0])
    amp = it.getattr(c.pw, "amplitude")
    izo = c.S("index_zeroth_order")
    for k in range(3):
        rep.zero(tsub(tindex(t, [k]), tmul(tindex(FN, [k]), weight(lN))), "complex-transmission", con, parts(), what=f"component {k}")
        d = tset(T((c.n,), ZERO), [izo], num(1))
        e = tsub(tmul(tindex(F0, [k]), weight(l0)), tmul(d, tindex(amp, [k])))
        rep.zero(tsub(tindex(r, [k]), e), "complex-reflection", con, parts(), what=f"component {k}")
    R, Tt = it.items_of(c.meth(c.sim, "diffraction_efficiencies", complex=True))
    for nm, a, b in (("R", R, r), ("T", Tt, t)):
        rep.zero(tsub(a, tsum(b, 1)), "complex-totals", con, parts(), what=nm)
    rep.used(it, c.tag)


def degrees(t, name):
    """set of (number of factors `name`, number of conjugated ones) over the monomials;
    None if the name occurs inside another construct (function, denominator, inverse)"""
    out = set()
    for (bd, fs), c in t.p.t:
        d = [Fr(0), Fr(0)]
        for f, e in fs:
            if f[0] == "atom" and f[1] == name:
                d[0] += e
            elif f[0] == "conj" and f[1][0] == "atom" and f[1][1] == name:
                d[1] += e
            elif name in A.atoms_of(Poly({((), ((f, Fr(1)),)): A.ONE_G})):
                return None
        out.add(tuple(d))
    return out


def c17(rep):
    confs = [("numpy", "upu"), ("torch", "uau"), ("jax", "upu")]
    if rep.tier == "thorough":
        confs += [("autograd", "uau"), ("scipy", "upu"), ("numpy", "uppu")]
    def context0(rep, item):
        backend, kinds = item
        c = flux_ctx(backend, kinds)
        it, sim = c.it, c.sim
        z = sym("z", real=True)

        def lin(v, what, deg):
            con = f"{what}, {c.tag}"
            if not isinstance(v, T):
                rep.unknown("degree", con, repr(v)[:200])
                return
            d = degrees(v, "a0")
            rep.check(d is not None and d <= deg, "degree", con,
                      f"degrees in (a0, conj a0): {'a0 inside a nonlinear construct' if d is None else sorted(map(str, d))}")
        L1, Q2 = {(1, 0)}, {(1, 1)}
        for i in range(len(kinds)):
            lin(c.meth(sim, "get_field_fourier", i, z), f"get_field_fourier({i})", L1)
            for tr in (True, False):
                am = c.meth(sim, "_get_amplitudes", i, z, translate=tr) if has(c, "_get_amplitudes") else None
                for x in (it.items_of(am) if am is not None else ()):
                    lin(x, f"amplitudes of layer {i}", L1)
            for nm, x in zip("xyz", it.items_of(c.meth(sim, "get_z_stress_tensor_integral", i, z))):
                lin(x, f"stress tensor {nm}, layer {i}", Q2)
        for orders in (True, False):
            for nm, x in zip("RT", it.items_of(c.meth(sim, "diffraction_efficiencies", orders=orders))):
                lin(x, f"{nm}, orders={orders}", Q2)
        # nothing about the incident amplitudes enters modes and scattering matrices
        c = SimCtx(backend, True, "original", kinds[:2], modes=True, cut=("a0",))
        solve(c)
        S = [x for row in c.it.items_of(c.meth(c.sim, "get_S_matrix")) for x in c.it.items_of(row)]
        rep.check(not any({"a0", "psi_d"} & A.atoms_of(x) for x in S), "independence", f"get_S_matrix, {c.tag}",
                  "the scattering matrix depends on the incident amplitudes")
        for i in range(2):
            for a in ("eigenvalues", "eigenvectors", "Qeps", "matrix"):
                v = c.it.defs.get(f"{a}_{c.names[i]}", None)
        for k, v in c.it.defs.items():
            if isinstance(v, T) and k not in ("a0",):
                rep.check(not ({"a0", "psi_d"} & A.atoms_of(v)), "independence", f"{k}, {c.tag}", "depends on the incident amplitudes")
        rep.used(c.it, c.tag)
    rep.fan(context0, confs)


def has(c, name):
    cls = c.it.get("nannos.simulation.Simulation")
    return cls.lookup(name) is not UNDEF


def c30(rep):
    confs = [("numpy", "original", "upu"), ("torch", "original", "upu"), ("numpy", "tangent", "upu"), ("numpy", "original", "uau")]
    if rep.tier == "thorough":
        confs += [(b, f, k) for b in ("autograd", "scipy", "jax", "torch") for k in ("upu", "uau") for f in ("original", "pol")]
    def context0(rep, item):
        backend, form, kinds = item
        c = SimCtx(backend, True, form, kinds, modes=True)
        it, sim = c.it, c.sim
        c.cut_modes(("eps_hat", "Peps"))
        z = sym("z", real=True)
        n = c.n
        F = tens("F", P(2), P(3), n)

        def st(it, f, a, k, node):
            d = dict(zip(("self", "layer_index", "z"), a))
            d.update(k)
            it.event("fields", node, layer=d.get("layer_index"), z=d.get("z"))
            return T((P(1), P(2), P(3), n), tstack([F], 0).p, kind="arr")
        solve(c)
        it.stubs["nannos.simulation.Simulation.get_field_fourier"] = st
        for i in range(len(kinds)):
            it.events.clear()
            v = c.meth(sim, "get_z_stress_tensor_integral", i, z)
            c.need(v, "get_z_stress_tensor_integral")
            con = f"get_z_stress_tensor_integral, layer {i} ({kinds[i]}), {c.tag}"
            ev = [e for e in it.events if e.kind == "fields"]
            ok = ev and all(A.show(it.simplify(e.layer).p if isinstance(e.layer, T) else P(-1)) == str(i)
                            and isinstance(e.z, T) and (e.z.p - z.p).is_zero() for e in ev)
            rep.check(bool(ok), "layer-and-depth", con, f"the fields are taken at {[(e.layer, e.z) for e in ev]}")
            e = [tindex(F, [0, k]) for k in range(3)]
            h = [tindex(F, [1, k]) for k in range(3)]
            kx, ky, w = c.S("kx"), c.S("ky"), c.S("omega")
            l = c.layers[i]
            if kinds[i] == "u":
                D = [tmul(it.getattr(l, "epsilon"), x) for x in e[:2]]
            else:
                # the in-plane operator of the mode problem (C07), acting on (-Ey, Ex)
                d = mm(it.getattr(l, "Peps"), tconcat([tneg(e[1]), e[0]], 0))
                D = [half(d, 1), tneg(half(d, 0))]
            # D_z from the curl of H, the operator applied to E_z in the field reconstruction (C04)
            D.append(tdiv(tsub(tmul(ky, h[0]), tmul(kx, h[1])), w))
            cj = tconj
            dot = lambda a, b: tmul(a, cj(b))
            X = treal(tsum(tadd(dot(e[0], D[2]), dot(h[0], h[2])), 0))
            Y = treal(tsum(tadd(dot(e[1], D[2]), dot(h[1], h[2])), 0))
            Zt = tsub(tadd(dot(e[2], D[2]), dot(h[2], h[2])),
                      tadd(tadd(dot(e[0], D[0]), dot(e[1], D[1])), tadd(dot(h[0], h[0]), dot(h[1], h[1]))))
            Z = tmul(num(Fr(1, 2)), treal(tsum(Zt, 0)))
            for nm, a, b in zip("xyz", it.items_of(v), (X, Y, Z)):
                rep.zero(tsub(a, b), "stress", con, parts(), what=f"T_{nm}z", ctx=c)
        rep.used(it, c.tag)
    rep.fan(context0, confs)
