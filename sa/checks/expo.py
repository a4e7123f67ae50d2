"""C18: no growing exponential."""
from fractions import Fraction as Fr
from .. import algebra as A
from ..algebra import *
from ..values import *
from ..ctx import sym
from ..phys import SimCtx, parts, nh, half
from ..decide import deep_factors, gates, under, zero
from ..interp import AnalysisError
from .fields import set_S, solve


def polys(x, seen):
    """every polynomial nested anywhere in a value"""
    if isinstance(x, T):
        x = x.p
    if isinstance(x, Poly):
        if id(x) in seen:
            return
        seen.add(id(x))
        yield x
        for (bd, fs), c in x.t:
            for f, e in fs:
                yield from polys(f, seen)
    elif isinstance(x, tuple):
        for y in x:
            if isinstance(y, (tuple, Poly, T)):
                yield from polys(y, seen)


def exponents(fs):
    """{propagation constant: {length: coefficient}} of one product, or the reason why not"""
    out = {}
    for f, e in fs:
        conj = False
        if f[0] == "conj" and f[1][0] == "fn" and f[1][1] == "exp":
            f, conj = f[1], True
        if f[0] != "fn" or f[1] != "exp":
            continue
        if len(f[2].t) != 1:
            return None, f"exponent {A.show(f[2])}"
        (bd, gs), c = f[2].t[0]
        if bd:
            return None, f"exponent {A.show(f[2])}"
        if conj:
            c = G(c.re, -c.im)
        qs = [(g, x) for g, x in gs if name(g, "q_")]
        ls = [(g, x) for g, x in gs if not name(g, "q_")]
        if len(qs) != 1 or qs[0][1] != 1 or len(ls) != 1 or ls[0][1] != 1 or ls[0][0][0] != "atom":
            return None, f"exponent {A.show(f[2])}: not a propagation constant times a length"
        q = qs[0][0]
        if (q[0] == "conj") != conj and (q[0] == "conj" or conj):
            # exp(-i conj(q) L) is the conjugate of exp(i q L)
            if q[0] == "conj":
                c = G(c.re, -c.im)
        if c.re:
            return None, f"exponent {A.show(f[2])}: not i times a propagation constant times a length"
        d = out.setdefault((A.skey(q), qname(q)), {})
        d[ls[0][0][1]] = d.get(ls[0][0][1], 0) + c.im * e
    return out, None


def name(g, pre):
    if g[0] == "conj":
        g = g[1]
    return g[0] == "atom" and str(g[1]).startswith(pre)


def qname(g):
    return g[1][1] if g[0] == "conj" else g[1]


def decaying(rep, c, v, con, depth=None):
    n = 0
    done = set()
    for p in polys(v, set()):
        for (bd, fs), co in p.t:
            d, why = exponents(fs)
            if d is None:
                rep.bad("decaying", con, why)
                return n
            for (k, q), ls in d.items():
                key = (q, tuple(sorted((a, Fr(b)) for a, b in ls.items())))
                if key in done:
                    continue
                done.add(key)
                n += 1
                M = q[2:]
                thick = Fr(ls.get("d_" + M, 0))
                z = Fr(ls.get("z", 0)) if depth == M else 0
                rest = {a: b for a, b in ls.items() if b and a != "d_" + M and not (a == "z" and depth == M)}
                txt = "exp(i q_%s (%s))" % (M, " + ".join(f"{b} {a}" for a, b in ls.items()))
                rep.check(not rest, "own-length", con, f"{txt}: a length that does not belong to this layer")
                rep.check(thick >= 0 and thick + z >= 0, "decaying", con, f"{txt} grows for evanescent orders")
    return n


def halfplane(rep, c, q, con, layer):
    """Im q >= 0 on both sides of every decision"""
    it = c.it
    if not isinstance(q, T):
        rep.unknown("upper-half-plane", con, repr(q)[:200])
        return
    if q.rank != 1:
        rep.unknown("upper-half-plane", con, repr(q)[:200])
        return
    declare("mode", integer=True)
    todo = [(T((), tindex(x, [atom("mode")]).p), []) for x in ([half(q, 0), half(q, 1)] if layer == "u" else [q])]
    while todo:
        t, pc = todo.pop()
        gs = [g for g in gates(t) if g[0] == "cmp"]
        if gs and len(pc) < 6:
            for v in (1, 0):
                todo.append((under(t, gs[0], v), pc + [(gs[0], v)]))
            continue
        im2 = pscale_i(t.p)
        ok = im2.is_zero()
        for g, v in pc:
            if g[1] == "lt" and not ok:
                # g[2] < 0 (v = 1) or >= 0 (v = 0)
                for k in ratio(im2, g[2]):
                    ok = ok or (k < 0 if v else k > 0)
        if not ok:
            ok = principal(t.p, layer, c)
        rep.check(ok, "upper-half-plane", con, f"the propagation constant {A.show(t.p)[:200]} may lie in the lower half plane" +
                  (f" where {[(A.show(A.fac(g))[:100], v) for g, v in pc]}" if pc else ""))


def pscale_i(p):
    """2 Im p"""
    return A.pscale(p - A.pconj(p), G(0, -1))


def ratio(a, b):
    """k with a = k b"""
    if not b.t or len(a.t) != len(b.t):
        return
    bb = dict(b.t)
    t, c = a.t[0]
    if t not in bb:
        return
    k = c * ginv(bb[t])
    if not k.im and (a - A.pscale(b, k)).is_zero():
        yield k.re


def ginv(g):
    n = g.re * g.re + g.im * g.im
    return G(g.re / n, -g.im / n)


def principal(p, layer, c):
    """the principal root of the closed form of a uniform medium: its argument has a non-negative
    imaginary part in passive media"""
    if layer != "u":
        return False
    if len(p.t) != 1:
        return False
    (bd, fs), co = p.t[0]
    if bd or co.im or co.re <= 0 or len(fs) != 1:
        return False
    f, e = fs[0]
    return e == Fr(1, 2)


def c18(rep):
    fields = [("numpy", True, "original", "upu"), ("torch", True, "original", "uau"), ("jax", True, "original", "upu"),
              ("numpy", False, "original", "upu"), ("numpy", True, "original", "uppu")]
    if rep.tier == "thorough":
        fields += [(b, d, "original", k) for b in ("autograd", "scipy", "torch", "jax") for d in (True, False) for k in ("upu", "uuu", "uppu")]
    ranges = [(b, "upu") for b in ("numpy", "torch", "jax")] + [("numpy", "uu")]
    if rep.tier == "thorough":
        ranges += [("autograd", "upu"), ("scipy", "upu"), ("torch", "uau"), ("jax", "uau")]
    modes = [(b, d, f, k) for b in ("numpy", "torch", "jax", "autograd", "scipy") for d, f, k in
             ((True, "original", "upau"), (False, "tangent", "upu"), (True, "pol", "upu"))]

    def one(rep, job):
        what, cf = job
        if what == "fields":
            c = SimCtx(*cf, modes=True)
            c.cut_modes(("eigenvalues",), kinds="upa")
            it = c.it
            c.cut_modes(("eps_hat",))
            set_S(c)
            solve(c)
            z = sym("z", real=True)
            for i in range(len(cf[3])):
                for m in ("get_field_fourier", "_get_amplitudes"):
                    con = f"{m}, layer {i} ({cf[3][i]}), {c.tag}"
                    r = c.meth(c.sim, m, i, z)
                    c.need(r, m)
                    n = 0
                    for x in (r.items if isinstance(r, Tup) else [r]):
                        if not isinstance(x, T):
                            rep.unknown("decaying", con, repr(x)[:200])
                            continue
                        n += decaying(rep, c, x, con, depth=c.names[i])
                    rep.check(n > 0, "propagates", con, "no propagation factor")
            rep.used(it, c.tag)
        elif what == "S":
            b, kinds = cf
            c = SimCtx(b, True, "original", kinds, modes=True)
            c.cut_modes(("eigenvalues",), kinds="upa")
            it = c.it
            solve(c)
            N = len(kinds) - 1
            for ind in [None] + [(i, j) for i in range(N) for j in range(i + 1, N + 1)][:4]:
                c.run(it.getattr(c.sim, "reset"), "S")
                r = c.meth(c.sim, "get_S_matrix", indices=ind)
                con = f"get_S_matrix, {ind or 'whole stack'}, {c.tag}"
                c.need(r, "get_S_matrix")
                n = 0
                for row in it.items_of(r):
                    for x in it.items_of(row):
                        if not isinstance(x, T):
                            rep.unknown("decaying", con, repr(x)[:200])
                            continue
                        n += decaying(rep, c, x, con)
                rep.check(n > 0, "propagates", con, "no propagation factor")
            rep.used(it, c.tag)
        else:
            from .modes import stub_Peps
            c = SimCtx(*cf, cut=("kx", "ky", "omega"))
            it = c.it
            stub_Peps(c)
            c.cut_modes(("matrix",))
            solve(c)
            for i, l in enumerate(c.layers):
                halfplane(rep, c, it.getattr(l, "eigenvalues"), f"layer {i} ({cf[3][i]}), {c.tag}", cf[3][i])
            rep.used(it, c.tag)
    rep.fan(one, [("fields", x) for x in fields] + [("S", x) for x in ranges] + [("modes", x) for x in modes])


LEVEL = {"C18": "Value numbers of scattering matrices, amplitudes and fields over arbitrary modes: every product in them "
                "is decomposed into its exponentials, and the length that multiplies each propagation constant must be a "
                "non-negative combination of the depths inside that layer. The propagation constants themselves are checked on "
                "both sides of every decision they depend on."}
