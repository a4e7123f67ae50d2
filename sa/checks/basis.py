"""C06, C08, C09: the incident wave, the Fourier convention, the orders."""
import os
import random
from fractions import Fraction as Fr
from .. import algebra as A
from ..algebra import *
from ..values import *
from ..ctx import sym
from ..phys import *
from ..phys import SimCtx, parts, nh, half, mm
from .fields import set_S, solve
from .power import zeroth

BACKENDS = ("numpy", "torch", "jax", "autograd", "scipy")


def arr(name, *shape):
    t = tens(name, *shape)
    return T(t.shape, t.p, kind="arr")


def ang(x):
    """angle in radians of a declared angle in degrees"""
    return T((), pmul(atom(x), pmul(atom("pi"), P(Fr(1, 180)))))


def forward(t):
    """the wave travels towards the structure: cos(theta) > 0"""
    declare("ct", pos=True)

    def fn(f):
        if f[0] == "fn" and f[1] == "cos" and "theta_d" in A.atoms_of(f[2]):
            return atom("ct")
        return None

    def g(f):
        if f[0] == "fn" and f[1] == "sin" and "theta_d" in A.atoms_of(f[2]):
            return atom("st")
        return None
    r = A.rewrite(A.rewrite(t, fn), g)
    return r


def sub_st2(t):
    """sin^2 theta = 1 - cos^2 theta on the two names"""
    p = t.p
    for _ in range(6):
        out, hit = [], False
        for (bd, fs), c in p.t:
            s = next(((f, e) for f, e in fs if f[0] == "atom" and f[1] == "st" and e >= 2 and e.denominator == 1), None)
            if s is None:
                out.append(Poly({(bd, fs): c}))
                continue
            hit = True
            rest = [(g, x) for g, x in fs if g != s[0]] + ([(s[0], s[1] - 2)] if s[1] != 2 else [])
            out.append(A.normalise(list(bd), [], c, 0, raw=rest))
            out.append(A.normalise(list(bd), [], -c, 0, raw=rest + [(("atom", "ct", ()), Fr(2))]))
        p = psum(out)
        if not hit:
            break
    return T(t.shape, p)


def c06(rep):
    backends = BACKENDS if rep.tier == "thorough" else ("numpy", "torch", "jax")
    declare("st", real=True)
    for b in backends:
        c = SimCtx(b, True, "original", "upu", cut=())
        it, pw = c.it, c.pw
        con = f"PlaneWave, {b}"
        th, ph, ps = (ang(x) for x in ("theta_d", "phi_d", "psi_d"))
        lam = T((), atom("lam"))
        pi2 = T((), pscale2(atom("pi")))
        k0 = tdiv(pi2, lam)
        sn, cs = (lambda x: tfn("sin", x)), (lambda x: tfn("cos", x))
        d = [tmul(sn(th), cs(ph)), tmul(sn(th), sn(ph)), cs(th)]
        kv = c.attr(pw, "wavevector")
        am = c.attr(pw, "amplitude")
        rep.zero(tsub(c.attr(pw, "wavelength"), lam), "wavelength", con)
        for k in range(3):
            rep.zero(tsub(tindex(kv, [k]), tmul(k0, d[k])), "wavevector", con, what="xyz"[k])
        dot = lambda x, y: tsum(tmul(x, y), 0)
        rep.zero(tsub(dot(kv, kv), tmul(k0, k0)), "wavenumber", con, what="|k|^2 - (2 pi/wavelength)^2")
        rep.zero(dot(kv, am), "transverse", con, what="k . amplitude")
        rep.zero(tsub(dot(am, am), num(1)), "unit-amplitude", con)
        pvec = [tmul(cs(th), cs(ph)), tmul(cs(th), sn(ph)), tneg(sn(th))]
        svec = [tneg(sn(ph)), cs(ph), num(0)]
        for k in range(3):
            e = tadd(tmul(cs(ps), pvec[k]), tmul(sn(ps), svec[k]))
            rep.zero(tsub(tindex(am, [k]), e), "polarization", con, what="xyz"[k])
        # mode amplitudes: transverse E of the forward wave of the zeroth order in vacuum
        a0 = c.attr(pw, "a0")
        w = k0
        kx, ky = tindex(kv, [0]), tindex(kv, [1])
        Q = [[tsub(tmul(w, w), tmul(ky, ky)), tmul(kx, ky)], [tmul(kx, ky), tsub(tmul(w, w), tmul(kx, kx))]]
        q = tmul(k0, cs(th))
        for r, ref in ((0, tneg(tindex(am, [1]))), (1, tindex(am, [0]))):
            et = tdiv(tadd(tmul(Q[r][0], tindex(a0, [0])), tmul(Q[r][1], tindex(a0, [1]))), tmul(w, q))
            rep.zero(sub_st2(forward(tsub(et, ref))), "amplitudes", con, what=("-Ey", "Ex")[r])
        # what the simulation feeds to the structure
        con = f"Simulation, {b}"
        declare("pord", integer=True, nonneg=True)
        declare("mord", integer=True, nonneg=True)
        A0, bN = c.S("a0"), c.S("bN")
        n2 = c.n + c.n
        rep.check(A0.rank == 1 and P(A0.shape[0]) == n2, "incident-vector", con, f"shape {A0.shape}")
        rep.check(bN.rank == 1 and P(bN.shape[0]) == n2, "no-wave-from-below", con, f"shape {bN.shape}")
        rep.zero(bN, "no-wave-from-below", con)
        pos = zeroth(c.S("index_zeroth_order"))
        rep.zero(tsub(pos, T((), atom("pord"))), "zeroth-order", con, what="position of the zeroth order")
        p, m = T((), atom("pord"), kind="int"), T((), atom("mord"), kind="int")
        # orders are positions below nh
        for what, idx, ref in (("zeroth order, first half", p, tindex(a0, [0])),
                               ("zeroth order, second half", tadd(p, T((), c.n)), tindex(a0, [1])),
                               ("other order, first half", m, num(0)),
                               ("other order, second half", tadd(m, T((), c.n)), num(0))):
            v = tindex(A0, [T((), idx.p, kind="int")])
            rep.zero(tsub(forward(positions(zeroth(v), c.n)), forward(ref)), "incident-vector", con, what=what)
        k0p = c.S("k0para")
        n1 = tpow(tmul(it.getattr(c.layers[0], "epsilon"), it.getattr(c.layers[0], "mu")), Fr(1, 2))
        for k in range(2):
            rep.zero(tsub(tindex(k0p, [k]), tmul(n1, tindex(kv, [k]))), "in-plane-wavevector", con, what="xy"[k])
        rep.zero(tsub(c.S("omega"), k0), "frequency", con)
        rep.used(it, c.tag)
    c06_use(rep)
    for b, two_d, orders in [("numpy", True, o) for o in ORDERS] + [("torch", True, ORDERS[1]), ("numpy", False, ORDERS1[1])]:
        c = SimCtx(b, two_d, "original", "up", cut=("kx", "ky"), orders=orders)
        p0, n = orders.index((0, 0)), len(orders)
        con = f"Simulation, orders {orders[:3]}..., {b}"
        rep.zero(tsub(c.S("index_zeroth_order"), num(p0)), "zeroth-order", con, what="position of the zeroth order")
        a0, A0 = c.attr(c.pw, "a0"), c.S("a0")
        for i in range(2 * n):
            ref = tindex(a0, [i // n]) if i % n == p0 else num(0)
            rep.zero(tsub(tindex(A0, [i]), ref), "incident-vector", con, what=f"entry {i}")
        rep.used(c.it, c.tag)


def pscale2(p):
    return pmul(P(2), p)


def positions(t, n):
    """0 <= pord, mord < nh and mord != pord: decide comparisons of positions"""
    nm = {"pord": 0, "mord": 0}

    def fn(f):
        if f[0] == "cmp" and f[1] == "eq":
            d = f[2]
            cp, cm, cn, rest = Fr(0), Fr(0), Fr(0), False
            ck = Fr(0)
            for (bd, fs), cc in d.t:
                if bd or len(fs) > 1 or (fs and (fs[0][0][0] != "atom" or fs[0][1] != 1)):
                    return None
                v = gval(cc)
                if v is None:
                    return None
                if not fs:
                    ck = v
                elif fs[0][0][1] == "pord":
                    cp = v
                elif fs[0][0][1] == "mord":
                    cm = v
                elif fs[0][0][1] == "nh":
                    cn = v
                else:
                    return None
            if ck == 0 and {cp, cm} == {1, -1} and cn in (0, 1, -1):
                return ZERO       # two different positions, or one in each half
            if ck == 0 and cp == cm == 0 and cn != 0:
                return ZERO
        if f[0] == "delta":
            return None
        return None
    return A.rewrite(t, fn)


def gval(c):
    try:
        return Fr(c.re) if c.im == 0 else None
    except AttributeError:
        try:
            return Fr(c)
        except Exception:
            return None


def c06_use(rep):
    """the wave enters the first layer only"""
    for b in ("numpy", "torch"):
        c = SimCtx(b, True, "original", "upau", modes=True)
        set_S(c)
        solve(c)
        for i in (0, 3):
            z = sym("z", real=True)
            v = c.meth(c.sim, "get_field_fourier", i, z)
            c.need(v, "get_field_fourier")
            rep.check("a0" in A.atoms_of(v), "incident-wave-used", f"layer {i}, {c.tag}", "the fields do not depend on the incident amplitudes")
        rep.used(c.it, c.tag)


# ------------------------------------------------------------------------- C08
def dft(n, k, x):
    return A.fac(("app", "dft", (P(n),), (k, x)))


def c08(rep):
    N1, N2 = atom("N1"), atom("N2")
    M1, M2 = "M1", "M2"
    def context0(rep, item):
        b = item
        c = SimCtx(b, True, "original", "upau", cut=("kx", "ky"))
        it, n = c.it, c.n
        ft = it.get("nannos.formulations.fft.fourier_transform")
        ift = it.get("nannos.formulations.fft.inverse_fourier_transform")
        u3 = arr("u", N1, N2, P(3))
        u2 = arr("u", N1, N2)
        u4 = arr("u", P(3), P(2), N1, N2)

        def spec(u, ax, inverse):
            r = T(u.shape, u.p)
            for x in ax:
                m = r.shape[x]
                k = r.rank
                p = A.psub_free(r.p, {("f", x): ("f", k)})
                kern = dft(m, ("f", x), ("f", k))
                kern = A.pconj(kern) if inverse else pmul(kern, ppow(P(m), -1))
                r = tsum(T(tuple(r.shape) + (m,), pmul(p, kern)), k)
            return r
        for nm, f, inv in (("fourier_transform", ft, False), ("inverse_fourier_transform", ift, True)):
            for u, kw, ax in ((u2, {}, (0, 1)), (u4, {}, (2, 3)), (u3, {"axes": (0, 1)}, (0, 1)), (u4, {"axes": (2, 3)}, (2, 3)),
                              (u3, {"axes": (1, 2)}, (1, 2))):
                con = f"{nm}, rank {u.rank}, axes {kw.get('axes', 'default')}, {b}"
                v = c.run(f, u, **kw)
                c.need(v, nm)
                rep.equal(v, spec(u, ax, inv), "convention", con)
            # the size argument pads or crops the axes transformed (events carry it)
            if not inv:
                it.events.clear()
                v = c.run(f, u3, s=(N1T(), N2T()), axes=(0, 1))
                c.need(v, nm)
                rep.equal(v, spec(u3, (0, 1), inv), "convention", f"{nm}, size given, {b}")
        # the matrix of a material function
        G = arr("G", P(2), n)

        def toe(u):
            i, j, x, y = (("f", k) for k in range(4))
            g = lambda r, k: pidx("G", r, k)
            d0, d1 = g(0, i) - g(0, j), g(1, i) - g(1, j)
            p = A.psub_free(u.p, {("f", 0): x, ("f", 1): y})
            e0, e1 = A.nidx(("e", A.shift(d0, 0, 1))), A.nidx(("e", A.shift(d1, 0, 1)))
            q = pmul(pmul(p, pmul(dft(N1, e0, x), dft(N2, e1, y))), pmul(ppow(N1, -1), ppow(N2, -1)))
            t = T((n, n, N1, N2), q)
            return tsum(tsum(t, 3), 2)
        con = f"matrix of a material function, {b}"
        lay = c.meth(c.sim, "build_matrix", c.layers[1])
        c.need(lay, "build_matrix")
        e1 = c.it.getattr(c.layers[1], "epsilon")
        rep.equal(c.it.getattr(c.layers[1], "eps_hat"), toe(e1), "row-minus-column", con + ", isotropic")
        c.meth(c.sim, "build_matrix", c.layers[2])
        ea = c.it.getattr(c.layers[2], "epsilon")
        rep.equal(c.it.getattr(c.layers[2], "eps_hat"), toe(tindex(ea, [2, 2])), "row-minus-column", con + ", tensor zz")
        # synthesis
        sh = (sym(M1, "int", integer=True, pos=True), sym(M2, "int", integer=True, pos=True))
        w = arr("w", n)

        def syn(w, lead=None):
            # values at (x, y[, k])
            x, y, k, i = (("f", q) for q in range(4))
            g = lambda r: A.nidx(("e", A.shift(pidx("G", r, i), 0, 1)))
            kern = pmul(A.pconj(dft(atom(M1), x, g(0))), A.pconj(dft(atom(M2), y, g(1))))
            if lead is None:
                p = A.psub_free(w.p, {("f", 0): i})
                t = T((atom(M1), atom(M2), P(1), n), pmul(p, kern))
                return T((atom(M1), atom(M2)), tsum(t, 3).p)
            p = A.psub_free(w.p, {("f", 0): k, ("f", 1): i})
            return tsum(T((atom(M1), atom(M2), lead, n), pmul(p, kern)), 3)
        rep.equal(c.meth(c.sim, "get_ifft", w, sh), syn(w), "synthesis", f"get_ifft, {b}")
        w3 = arr("w", P(3), n)
        rep.equal(c.meth(c.sim, "get_ifft_amplitudes", w3, sh), syn(w3, P(3)), "synthesis", f"get_ifft_amplitudes, several vectors, {b}")
        v = c.meth(c.sim, "get_ifft_amplitudes", w, sh)
        c.need(v, "get_ifft_amplitudes")
        w1 = T((P(1), n), A.psub_free(w.p, {("f", 0): ("f", 1)}))
        rep.equal(v, syn(w1, P(1)), "synthesis", f"get_ifft_amplitudes, one vector, {b}")
        # permittivity as the simulation sees it: coefficient of order m at order m
        sh0 = c.lat
        for i, e in ((1, e1), (2, tindex(ea, [2, 2]))):
            v = c.meth(c.sim, "get_epsilon", i)
            c.need(v, "get_epsilon")
            col = tindex(toe(e), [Sl(), T((), atom("pord"), kind="int")])
            v = zeroth(v)
            # G at the zeroth order is zero
            ref = zeroth(syn_N(col, n, N1, N2))
            rep.zero(tsub(v, ref), "synthesis", f"get_epsilon, layer {i}, {b}")
        v = c.meth(c.sim, "get_epsilon", 0)
        rep.equal(v, c.it.getattr(c.layers[0], "epsilon"), "synthesis", f"get_epsilon, uniform layer, {b}")
        rep.used(it, c.tag)
    rep.fan(context0, BACKENDS)


def syn_N(w, n, N1, N2):
    x, y, i = (("f", q) for q in range(3))
    g = lambda r: A.nidx(("e", A.shift(pidx("G", r, i), 0, 1)))
    kern = pmul(A.pconj(dft(N1, x, g(0))), A.pconj(dft(N2, y, g(1))))
    p = A.psub_free(w.p, {("f", 0): i})
    return tsum(T((N1, N2, n), pmul(p, kern)), 2)


def N1T():
    return sym("N1", "int", integer=True, pos=True)


def N2T():
    return sym("N2", "int", integer=True, pos=True)


def pidx(name, r, k):
    return A.fac(("atom", name, (A.nidx(("e", P(r))), k)))


# ------------------------------------------------------------------------- C09
ORDERS = [
    [(0, 0), (1, 0), (-1, 0), (0, 1), (0, -1)],
    [(-2, 0), (-1, 1), (-1, 0), (0, -1), (0, 0), (0, 1), (1, 0), (1, -1), (2, 0)],
    [(2, 1), (-1, -1), (1, 1), (0, 0), (-2, -1), (1, -2), (-1, 2)],
]
ORDERS1 = [[(0, 0), (1, 0), (-1, 0)], [(-2, 0), (-1, 0), (0, 0), (1, 0), (2, 0)], [(3, 0), (0, 0), (-1, 0), (1, 0), (-3, 0)]]


def c09(rep):
    rnd = random.Random(int(os.environ.get("VERIF_SEED", "1")))
    sets = [(b, True, o) for b in ("numpy", "torch") for o in ORDERS] + [("jax", True, ORDERS[1])]
    sets += [("numpy", False, o) for o in ORDERS1] + [("torch", False, ORDERS1[2])]
    if rep.tier == "thorough":
        for b in BACKENDS:
            for k in range(4):
                o = [(i, j) for i in range(-2, 3) for j in range(-2, 3)]
                rnd.shuffle(o)
                o = [x for x in o if x != (0, 0)][:8]
                o.insert(rnd.randrange(9), (0, 0))
                sets.append((b, True, o))
    for b, two_d, orders in sets:
        n = len(orders)
        c = SimCtx(b, two_d, "original", "up", cut=("kx", "ky"), modes=False, orders=orders)
        it = c.it
        con0 = f"{'2D' if two_d else '1D'}, orders {orders[:3]}..., {b}"
        H = c.S("harmonics")
        rep.check(P(H.shape[1]) == P(n), "harmonics", con0, f"shape {H.shape}")
        rep.check(A.show(it.simplify(c.S("nh")).p) == str(n), "harmonics", con0, "number of harmonics")
        kdef = {a: it.defs[a] for a in ("kx", "ky")}
        k0p, Rm = c.S("k0para"), c.attr(c.lat, "reciprocal")
        # reciprocal vectors: columns of the reciprocal matrix satisfy a_i . b_j = 2 pi delta_ij
        vec = c.attr(c.lat, "matrix")
        dd = mm(ttranspose(vec), Rm)
        for i in range(2):
            for j in range(2):
                rep.zero(tsub(tindex(dd, [i, j]), T((), pmul(P(2 * (i == j)), atom("pi")))), "reciprocal", con0 + f" a{i + 1}.b{j + 1}")

        def lookups(when):
            for p, o in enumerate(orders):
                forms = [o, list(o)] + ([o[0]] if not two_d else [])
                for f in forms:
                    v = it.simplify(c.meth(c.sim, "get_order_index", f))
                    rep.check(isinstance(v, T) and A.show(v.p) == str(p), "lookup", f"{con0}: order {f}, {when}",
                              f"position {v} instead of {p}")
                    it.raised.clear()
            A_ = arr("res", P(n))
            for p, o in enumerate(orders):
                v = c.meth(c.sim, "get_order", A_, o)
                rep.zero(tsub(v, tindex(A_, [p])), "get_order", f"{con0}: order {o}, {when}")
        lookups("before any result")
        for p, o in enumerate(orders):
            for r, (nm, k) in enumerate((("kx", "kx"), ("ky", "ky"))):
                e = tadd(tindex(k0p, [r]), tadd(tmul(num(o[0]), tindex(Rm, [r, 0])), tmul(num(o[1]), tindex(Rm, [r, 1]))))
                rep.zero(tsub(tindex(kdef[nm], [p]), e), "wavevector-of-order", f"{con0}: order {o}", what=nm)
        # results under each order
        R_, T_ = arr("Rres", P(n)), arr("Tres", P(n))
        set_S2(c, n)
        solve(c)
        plain = c.meth(c.sim, "diffraction_efficiencies", orders=True)
        plain = it.items_of(plain)
        cpx = it.items_of(c.meth(c.sim, "diffraction_efficiencies", orders=True, complex=True))
        for complex_ in (False, True):
            for rnd_ in (1, 2):
                v = c.meth(c.sim, "diffraction_efficiencies", orders=True, complex=complex_, return_dict=True)
                c.need(v, "diffraction_efficiencies")
                ref = cpx if complex_ else plain
                got = it.items_of(v)
                dicts = []
                for nm, dct, arr_ in zip("RT", got, ref):
                    keys = set()
                    d1 = it.h(dct).d if isinstance(dct, Ref) else None
                    ok = isinstance(d1, dict)
                    if ok:
                        for k1, sub in plain_items(it, dct):
                            for k2, val in plain_items(it, sub):
                                keys.add((k1, k2))
                                if (k1, k2) in orders:
                                    pos = orders.index((k1, k2))
                                    want = tindex(arr_, [Sl(), pos] if complex_ else [pos])
                                    rep.check(isinstance(val, T) and val.rank == want.rank and (val.p - want.p).is_zero(), "dictionary",
                                              f"{con0}: {nm}[{k1}][{k2}], complex={complex_}, request {rnd_}",
                                              "not the value of that order")
                    rep.check(ok and keys == set(orders), "dictionary-keys", f"{con0}: {nm}, complex={complex_}", f"{sorted(keys)}")
                it.raised.clear()
            lookups("after dictionaries" + (" of complex coefficients" if complex_ else ""))
        again = it.items_of(c.meth(c.sim, "diffraction_efficiencies", orders=True))
        for nm, x, y in zip("RT", plain, again):
            rep.equal(x, y, "same-after-dictionaries", f"{con0}: {nm}")
        rep.used(it, c.tag + f" {n} orders")


def plain_items(it, ref):
    out = []
    for k, v in it.h(ref).d.items():
        out.append((pykey(it, k), it.simplify(v)))
    return out


def pykey(it, k):
    if isinstance(k, tuple) and len(k) == 2 and k[0] == "n":
        k = k[1]
    if isinstance(k, T):
        c = k.p.const()
        return int(c.re) if c is not None and hasattr(c, "re") else k
    return k


def set_S2(c, n):
    n2 = P(2 * n)
    it = c.it

    def st(it, f, a, k, node):
        S = it.new_list([it.new_list([arr(f"S{i}{j}", n2, n2) for j in (1, 2)]) for i in (1, 2)])
        it.setattr(a[0], "S", S, node)
        return S
    it.stubs["nannos.simulation.Simulation.get_S_matrix"] = st
    if True:
        it.stubs["nannos.simulation.Simulation.get_z_poynting_flux"] = lambda it, f, a, k, node: Tup(
            [arr("fwd_" + tagof(it, a[1]), P(n)), arr("bwd_" + tagof(it, a[1]), P(n))])
        it.stubs["nannos.simulation.Simulation.get_field_fourier"] = lambda it, f, a, k, node: arr("F", P(1), P(2), P(3), P(n))


def tagof(it, l):
    return str(it.getattr(l, "name"))
