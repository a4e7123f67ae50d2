"""C07, C29, C31: the mode problem and the permittivity operators."""
from fractions import Fraction as Fr
from .. import algebra as A
from ..algebra import *
from ..values import *
from ..ctx import sym
from ..phys import *
from ..phys import SimCtx, parts, nh, half, mm
from .fields import set_S, solve
from .smatrix import block2
from .basis import arr, BACKENDS
from .toe import toeplitz
from .. import decide
from ..interp import AnalysisError


def K2(u, a, b, c, d):
    """[[a u c, a u d], [b u c, b u d]] for diagonal a, b, c, d (given as vectors)"""
    D = tdiag
    return block2([[mm(D(a), u, D(c)), mm(D(a), u, D(d))], [mm(D(b), u, D(c)), mm(D(b), u, D(d))]])


def operators(c, l, uniform):
    """(Q, Kmu, Pmu) from the equations: (-Ey, Ex) = Q H_t / (omega^2 ...), and div-div part"""
    it = c.it
    kx, ky, w = c.S("kx"), c.S("ky"), c.S("omega")
    n = c.n
    E = teye(n + n)
    if uniform:
        u = tmul(tdiv(num(1), it.getattr(l, "epsilon")), teye(n))
    else:
        u = tinv(it.getattr(l, "eps_hat"))
    Keps = K2(u, ky, tneg(kx), ky, tneg(kx))
    Q = tsub(tmul(tmul(w, w), E), Keps)
    Kmu = K2(teye(n), kx, ky, kx, ky)
    return Q, Kmu


def c07(rep):
    confs = [("numpy", True, "original", "upau"), ("torch", True, "original", "upu"), ("jax", True, "original", "uau"),
             ("numpy", True, "tangent", "upu"), ("numpy", True, "pol", "uau"), ("torch", True, "jones", "upu"),
             ("numpy", False, "original", "upu"), ("numpy", False, "tangent", "upu"),
             ("numpy", True, "original", "u")]
    if rep.tier == "thorough":
        confs += [(b, d, f, k) for b in BACKENDS for d, f in ((True, "original"), (True, "tangent"), (True, "pol"),
                                                               (True, "jones"), (False, "original"), (False, "tangent"))
                  for k in (("upau",) if d else ("upu",))]
    def context0(rep, item):
        b, two_d, form, kinds = item
        c = SimCtx(b, two_d, form, kinds, cut=("kx", "ky", "omega"))
        it, n = c.it, c.n
        n2 = n + n
        stub_Peps(c)
        it.events.clear()
        solve(c)
        ev = [e for e in it.events if e.kind == "eig"]
        k = 0
        for i, l in enumerate(c.layers):
            con = f"layer {i} ({kinds[i]}), {c.tag}"
            uni = kinds[i] == "u"
            q, phi, Qe = (it.getattr(l, a) for a in ("eigenvalues", "eigenvectors", "Qeps"))
            Q, Kmu = operators(c, l, uni)
            rep.equal(T(Qe.shape, Qe.p), Q, "magnetic-to-electric", con, parts(), what="Qeps")
            if uni:
                kx, ky, w = c.S("kx"), c.S("ky"), c.S("omega")
                e = tsub(tsub(tmul(it.getattr(l, "epsilon"), tmul(w, w)), tmul(kx, kx)), tmul(ky, ky))
                rep.check(q.rank == 1 and P(q.shape[0]) == n2, "uniform-modes", con, f"shape {q.shape}")
                for h in (0, 1):
                    x = half(q, h)
                    rep.zero(tsub(tmul(x, x), e), "uniform-modes", con, what=f"q^2, polarization {h + 1}")
                rep.zero(tsub(phi, teye(n2)), "uniform-modes", con, parts(), what="mode matrix - identity")
                continue
            rep.check(k < len(ev), "eigenproblem", con, "no eigenvalue problem is solved for this layer")
            M = ev[k].matrix
            k += 1
            Pe = it.getattr(l, "Peps")
            ref = tsub(mm(Pe, Q), Kmu)
            # (P - Kmu/omega^2) Q = P Q - Kmu because Kmu (K of the curl) vanishes
            rep.zero(tsub(T(M.shape, M.p), ref), "eigen-matrix", con, parts(), what="matrix - (P Q - Kmu)")
            kx, ky = c.S("kx"), c.S("ky")
            z = mm(K2(teye(n), kx, ky, kx, ky), tsub(tmul(tmul(c.S("omega"), c.S("omega")), teye(n2)), Q))
            rep.zero(z, "div-curl", con, parts(), what="product of the two transverse operators")
            lam = T((n2,), A.app("eigval", (T(M.shape, M.p),), n2).p)
            vec = T((n2, n2), A.app("eigvec", (T(M.shape, M.p),), n2, n2).p)
            rep.zero(tsub(tmul(q, q), lam), "modes", con, what="q^2 - eigenvalue")
            rep.zero(tsub(phi, vec), "modes", con, what="mode matrix - eigenvectors")
            if form == "original" and kinds[i] == "p":
                eh = it.getattr(l, "eps_hat")
                Z = T((n, n), ZERO)
                rep.zero(tsub(Pe, block2([[eh, Z], [Z, eh]])), "permittivity-operator", con, parts())
        rep.check(k == len(ev), "eigenproblem", c.tag, f"{len(ev)} eigenvalue problems for {k} patterned layers")
        rep.used(it, c.tag)
    rep.fan(context0, confs)


def stub_Peps(c):
    """outside the original formulation the in-plane operator is any matrix (C29 decides it)"""
    n2 = c.n + c.n

    def st(it, f, a, k, node):
        l = a[1]
        return arr("P_" + str(it.getattr(l, "name")), n2, n2)
    c.it.stubs["nannos.simulation.Simulation._get_Peps"] = st


# ------------------------------------------------------------------------- C29, C31
def noeps(t):
    """the guard against division by zero in the norm of the tangent field"""
    return A.rewrite(t, lambda f: ZERO if f[0] == "atom" and f[1] == "epsmach" else None)


def inverse_rule(c, e, tensor, N1, N2):
    """matrix of the inverse rule in the basis (-Ey, Ex)"""
    n = c.n
    toe = lambda u: toeplitz(u, n, N1, N2)
    if not tensor:
        return tinv(toe(tdiv(num(1), e)))
    g = lambda i, j: tindex(e, [i, j])
    det = tsub(tmul(g(0, 0), g(1, 1)), tmul(g(0, 1), g(1, 0)))
    nu = [[toe(tdiv(g(1, 1), det)), toe(tdiv(tneg(g(0, 1)), det))],
          [toe(tdiv(tneg(g(1, 0)), det)), toe(tdiv(g(0, 0), det))]]
    m = tinv(block2(nu))
    b = lambda i, j: tindex(m, [Sl(n * P(i), n * P(i + 1)), Sl(n * P(j), n * P(j + 1))])
    return block2([[b(1, 1), tneg(b(1, 0))], [tneg(b(0, 1)), b(0, 0)]])


def direct_rule(c, e, tensor, N1, N2):
    n = c.n
    toe = lambda u: toeplitz(u, n, N1, N2)
    if not tensor:
        Z = T((n, n), ZERO)
        return block2([[toe(e), Z], [Z, toe(e)]])
    g = lambda i, j: toe(tindex(e, [i, j]))
    return block2([[g(1, 1), tneg(g(1, 0))], [tneg(g(0, 1)), g(0, 0)]])


def vector_spec(c, e, tensor, t):
    """direct rule for the tangential, inverse rule for the normal component"""
    n, N1, N2 = c.n, atom("N1"), atom("N2")
    t0, t1 = tindex(t, [0]), tindex(t, [1])
    ref = direct_rule(c, e, tensor, N1, N2)
    inv = inverse_rule(c, e, tensor, N1, N2)
    if not tensor:
        Z = T((n, n), ZERO)
        inv = block2([[inv, Z], [Z, inv]])
    nt2 = tadd(tmul(t0, tconj(t0)), tmul(t1, tconj(t1)))
    toe = lambda u: toeplitz(tdiv(u, nt2), n, N1, N2)
    # projector on the normal component, acting on (-Ey, Ex):  E_t = Ex t0 + Ey t1
    Pi = block2([[toe(tmul(t0, tconj(t0))), toe(tmul(t1, tconj(t0)))],
                 [toe(tmul(t0, tconj(t1))), toe(tmul(t1, tconj(t1)))]])
    return tsub(ref, mm(tsub(ref, inv), Pi))


def c29(rep):
    backends = BACKENDS if rep.tier == "thorough" else ("numpy", "torch", "jax")
    def context0(rep, item):
        b = item
        for form in ("tangent", "jones", "pol"):
            c = SimCtx(b, True, form, "upau", cut=("kx", "ky", "omega"))
            it, n = c.it, c.n
            N1, N2 = atom("N1"), atom("N2")
            declare("tau", real=False)
            it.stubs["nannos.layers.Layer.get_jones_field"] = lambda it, f, a, k, node: (
                it.event("jones", node, args=a), it.new_list([tindex(arr("J", P(2), N1, N2), [i]) for i in (0, 1)]))[1]
            for i in (1, 2):
                con = f"layer {i} ({c.kinds[i]}), {c.tag}"
                l = c.layers[i]
                it.events.clear()
                c.meth(c.sim, "build_matrix", l)
                c.need(it.getattr(l, "Peps"), "build_matrix")
                tev = [e for e in it.events if e.kind == "tangent"]
                rep.check(len(tev) == 1, "tangent-field", con, f"the tangent field is computed {len(tev)} times")
                if tev:
                    rep.check(tev[0].kw.get("normalize", False) is (form == "tangent"), "tangent-field", con,
                              f"normalize={tev[0].kw.get('normalize')}")
                jev = [e for e in it.events if e.kind == "jones"]
                rep.check(len(jev) == (1 if form == "jones" else 0), "polarization-basis", con, f"Jones field computed {len(jev)} times")
                t = arr("J" if form == "jones" else "tau", P(2), N1, N2)
                t0, t1 = tindex(t, [0]), tindex(t, [1])
                if jev:
                    a = jev[0].args
                    a = a[-1]
                    rep.check(isinstance(a, T) and a.rank == 3 and (a.p - tens("tau", P(2), N1, N2).p).is_zero(), "polarization-basis", con,
                              "the Jones field is not that of the tangent field")
                e = it.getattr(l, "epsilon")
                tensor = c.kinds[i] == "a"
                spec = vector_spec(c, e, tensor, t)
                Pe = noeps(it.getattr(l, "Peps"))
                rep.equal(T(Pe.shape, Pe.p), spec, "factorization", con, parts())
                eh = it.getattr(l, "eps_hat")
                ez = tindex(e, [2, 2]) if tensor else e
                rep.equal(T(eh.shape, eh.p), toeplitz(ez, n, N1, N2), "longitudinal-component", con, parts())
            rep.used(it, c.tag)
        # the Jones field itself
        jones_field(rep, b)
        # one-dimensional gratings
        for form in ("original", "tangent"):
            c = SimCtx(b, False, form, "upu", cut=("kx", "ky", "omega"))
            it, n = c.it, c.n
            N1, N2 = atom("N1"), P(1)
            l = c.layers[1]
            c.meth(c.sim, "build_matrix", l)
            e = it.getattr(l, "epsilon")
            con = f"layer 1, {c.tag}"
            Z = T((n, n), ZERO)
            d = toeplitz(e, n, N1, N2)
            spec = block2([[d, Z], [Z, inverse_rule(c, e, False, N1, N2) if form == "tangent" else d]])
            Pe = it.getattr(l, "Peps")
            rep.equal(T(Pe.shape, Pe.p), spec, "factorization-1D", con, parts())
            rep.used(it, c.tag)
    rep.fan(context0, backends)


def jones_field(rep, b):
    from ..ctx import Ctx
    c = Ctx(b)
    it = c.it
    declare("tr", real=True)
    N1, N2 = atom("N1"), atom("N2")
    t = arr("tr", P(2), N1, N2)
    J = c.run("nannos.formulations.jones.get_jones_field", it.new_list([tindex(t, [0]), tindex(t, [1])]))
    con = f"get_jones_field, {b}"
    if J is None:
        raise AnalysisError("get_jones_field raises")
    J = [it.getitem(J, num(k)) for k in (0, 1)]
    t0, t1 = tindex(t, [0]), tindex(t, [1])
    nt = tpow(tadd(tmul(t0, t0), tmul(t1, t1)), Fr(1, 2))

    def real_angle(t):
        """arctan2 is real and bounded: a name of its own, applied to (y, x)"""
        def fn(f):
            if f[0] == "fn" and f[1] == "atan2":
                g = ("fn", "atan2", f[2])
                declare("thJ", real=True)
                ok = A.skey(f[2]) == A.skey(A.shift(ref_arg, 0, 1)) or (f[2] - A.shift(ref_arg, 0, 1)).is_zero()
                return A.fac(("atom", "thJ" if ok else "thJ_wrong", (("f", 0), ("f", 1))))
            return None
        return A.rewrite(t, fn)
    ref_arg = padd(t1.p, pmul(t0.p, atom("!2")))
    ph = tmul(tdiv(T((), atom("pi")), num(8)), tadd(num(1), tfn("cos", tmul(T((), atom("pi")), nt))))
    nrm = [tneg(t1), t0]
    declare("thJ", real=True)
    ang = tens("thJ", N1, N2)
    e = tfn("exp", tmul(num(-1j), ang))
    for k in (0, 1):
        base = tsub(tmul([t0, t1][k], tfn("cos", ph)), tmul(tmul(num(1j), nrm[k]), tfn("sin", ph)))
        spec = tdiv(tmul(e, base), nt)
        v = noeps(real_angle(J[k]))
        rep.equal(T(v.shape, v.p), spec, "polarization-basis", con, what="xy"[k])


def c31(rep):
    backends = BACKENDS if rep.tier == "thorough" else ("numpy", "torch")
    def context0(rep, item):
        b = item
        c = SimCtx(b, True, "original", "upau", cut=("kx", "ky", "omega"))
        it, n = c.it, c.n
        N1, N2 = atom("N1"), atom("N2")
        l = c.layers[2]
        c.meth(c.sim, "build_matrix", l)
        e = it.getattr(l, "epsilon")
        toe = lambda i, j: toeplitz(tindex(e, [i, j]), n, N1, N2)
        con = f"layer 2, {c.tag}"
        Pe, eh = it.getattr(l, "Peps"), it.getattr(l, "eps_hat")
        # (-Dy, Dx) from (-Ey, Ex):  Dx = xx Ex + xy Ey, Dy = yx Ex + yy Ey
        names = [["yy on Ey", "yx on Ex"], ["xy on Ey", "xx on Ex"]]
        ref = [[toe(1, 1), tneg(toe(1, 0))], [tneg(toe(0, 1)), toe(0, 0)]]
        for i in range(2):
            for j in range(2):
                blk = tindex(Pe, [Sl(n * P(i), n * P(i + 1)), Sl(n * P(j), n * P(j + 1))])
                rep.equal(T(blk.shape, blk.p), ref[i][j], "in-plane-components", con, parts(), what=names[i][j])
        rep.equal(T(eh.shape, eh.p), toe(2, 2), "zz-on-Ez", con)
        # the eigenproblem and the fields use these operators
        M, Q = it.getattr(l, "matrix"), it.getattr(l, "Qeps")
        Qs, Kmu = operators(c, l, False)
        rep.equal(T(Q.shape, Q.p), Qs, "zz-on-Ez", con, parts(), what="Qeps")
        rep.equal(T(M.shape, M.p), tsub(mm(block2(ref), Qs), Kmu), "mode-problem", con, parts())
        rep.used(it, c.tag)
        # fields and stress of a tensor layer
        c2 = SimCtx(b, True, "original", "uau")
        c2.cut_modes(("eigenvalues", "eigenvectors", "Qeps", "eps_hat"))
        tensor_fields(rep, c2)
    rep.fan(context0, backends)
    # a multiple of the identity
    def context1(rep, item):
        b = item
        for form in ("original", "tangent", "jones", "pol"):
            c = SimCtx(b, True, form, "upau", cut=("kx", "ky", "omega"))
            it, n = c.it, c.n
            N1, N2 = atom("N1"), atom("N2")
            it.stubs["nannos.layers.Layer.get_jones_field"] = lambda it, f, a, k, node: (
                it.new_list([tindex(arr("J", P(2), N1, N2), [i]) for i in (0, 1)]))
            s, a = c.layers[1], c.layers[2]
            if form != "original" and (b == "numpy" or rep.tier == "thorough"):
                c.meth(c.sim, "build_matrix", a)
                Pe = noeps(it.getattr(a, "Peps"))
                t = arr("J" if form == "jones" else "tau", P(2), N1, N2)
                rep.equal(T(Pe.shape, Pe.p), vector_spec(c, it.getattr(a, "epsilon"), True, t), "in-plane-components",
                          f"layer 2, {c.tag}", parts())
            es = it.getattr(s, "epsilon")
            ea = tstack([tstack([es if i == j else T(es.shape, ZERO) for j in range(3)]) for i in range(3)])
            it.setattr(a, "epsilon", T(ea.shape, ea.p, dt=es.dt, kind="arr"), None)
            c.meth(c.sim, "build_matrix", s)
            c.meth(c.sim, "build_matrix", a)
            con = f"tensor that is a multiple of the identity, {c.tag}"
            for at in ("Peps", "eps_hat", "Qeps", "matrix"):
                v, r = it.getattr(a, at), it.getattr(s, at)
                rep.equal(T(v.shape, v.p), T(r.shape, r.p), "identity-tensor", con, parts(), what=at)
            rep.used(it, c.tag)
    rep.fan(context1, backends)


def tensor_fields(rep, c):
    it, n = c.it, c.n
    set_S(c)
    solve(c)
    z = sym("z", real=True)
    F = c.meth(c.sim, "get_field_fourier", 1, z)
    c.need(F, "get_field_fourier")
    F = tindex(F, [0])
    kx, ky, w = c.S("kx"), c.S("ky"), c.S("omega")
    Hx, Hy, Ez = tindex(F, [1, 0]), tindex(F, [1, 1]), tindex(F, [0, 2])
    l = c.layers[1]
    lhs = mm(it.getattr(l, "eps_hat"), Ez)
    rhs = tdiv(tsub(tmul(ky, Hx), tmul(kx, Hy)), w)
    rep.zero(tsub(lhs, rhs), "zz-on-Ez", f"fields, {c.tag}", parts(), ctx=c)
    rep.used(it, c.tag)
