"""C24: truncated sets of orders."""
import itertools
import math
from .. import algebra as A
from ..algebra import *
from ..values import *
from ..ctx import sym, Ctx
from ..decide import deep_factors, zero
from fractions import Fraction as Fr
from .misc import leaves

HOLE = {("f", "H"): 0}


def has_hole(x):
    """mentions the position of a search that is not its own"""
    if isinstance(x, T):
        return has_hole(x.p) or any(has_hole(d) for d in x.shape)
    if isinstance(x, Poly):
        return any(has_hole(f) for (bd, fs), c in x.t for f, e in fs)
    if isinstance(x, tuple):
        if x == ("f", "H"):
            return True
        if len(x) > 1 and (x[0] == "app" and x[1] == "first" or x[0] == "any"):
            return False
        return any(has_hole(y) for y in x)
    return False


def outer_gates(v):
    """conditions the value depends on (not the ones that speak about a position of a search)"""
    for f in deep_factors(v.p if isinstance(v, T) else v):
        if f[0] in ("cmp", "bool") and not has_hole(f):
            yield f
    if isinstance(v, T):
        for d in v.shape:
            for f in deep_factors(P(d)):
                if f[0] in ("cmp", "bool") and not has_hole(f):
                    yield f


def cases(it, vs, depth=0):
    """the values on the different sides of the conditions they depend on"""
    c = None
    for x in vs:
        gs = list(outer_gates(x))
        if gs:
            # innermost first: a condition that depends on another one is split after it
            g = next((g for g in gs if not any(h != g and h[0] in ("cmp", "bool") and not has_hole(h) for h in deep_factors(A.fac(g)))), gs[0])
            c = A.fac(g)
            break
    if c is None or depth > 12:
        yield vs
        return
    s0 = it.st
    for side in (c, ONE - c):
        it.st = s0.fork(side)
        try:
            yield from cases(it, [T(tuple(it.assume(P(d)) for d in x.shape), it.assume(x.p), dt=x.dt) for x in vs], depth + 1)
        finally:
            it.st = s0


class Unfold:
    def __init__(self, it, keep=()):
        self.it, self.keep = it, set(keep)

    def __call__(self, p, stop=()):
        for _ in range(12):
            names = [n for n in A.atoms_of(p) if n in self.it.letdefs and n not in stop]
            if not names:
                return p

            def mk(d):
                return lambda *idx: A.polysub(d.p, 0, {("f", k): i for k, i in enumerate(idx)})
            p = A.subst_atoms(p, {n: mk(self.it.letdefs[n]) for n in names})
        return p


def evalp(p, env):
    """numerical value of a closed form (the symbols in env; arrays by entry)"""
    tot = 0
    for (bd, fs), c in P(p).t:
        if bd:
            raise ValueError("sum")
        v = complex(float(c.re), float(c.im)) if c.im else float(c.re)
        for f, e in fs:
            x = evalf(f, env)
            v = v * (x ** float(e) if e != 1 else x)
        tot += v
    return tot


def evalf(f, env):
    if f[0] == "atom":
        if f[1] == "pi":
            return math.pi
        d = env.get("defs", {}).get(f[1])
        if d is not None:
            ix = tuple(int(round(evali(i, env))) for i in f[2])
            memo = env.setdefault("memo", {})
            if (f[1], ix) not in memo:
                memo[f[1], ix] = evalp(A.polysub(d.p, 0, {("f", k): ("c", i) for k, i in enumerate(ix)}), env)
            return memo[f[1], ix]
        if not f[2]:
            return env[f[1]]
        return env[f[1]][tuple(int(evali(i, env)) for i in f[2])]
    if f[0] == "num":
        return float(f[1])
    if f[0] == "sum":
        return evalp(f[1], env)
    if f[0] == "fn":
        x = evalp(f[2], env)
        return {"int": lambda v: int(v + 1e-12), "floor": lambda v: math.floor(v + 1e-12), "ceil": lambda v: math.ceil(v - 1e-12)}.get(f[1], None or getattr(math, f[1], None))(x)
    if f[0] == "cmp":
        x = evalp(f[2], env)
        return float(x < 0) if f[1] == "lt" else float(x == 0)
    if f[0] == "conj":
        x = evalf(f[1], env)
        return x.conjugate() if isinstance(x, complex) else x
    if f[0] == "app" and f[1] == "abs":
        return abs(evalp(f[2][0].p, env))
    raise ValueError(f"no value for {f[0]}")


def evali(i, env):
    if i[0] == "c":
        return i[1]
    if i[0] == "e":
        return evalp(i[1], env)
    raise ValueError("index")


def row(G, r):
    """(array, position) such that G[r, j] = flatten(array)[position(j)]"""
    p = tindex(G, [P(r)]).p
    return p


def one_factor(p):
    if len(p.t) == 1 and not p.t[0][0][0] and p.t[0][1] == ONE_G and len(p.t[0][0][1]) == 1 and p.t[0][0][1][0][1] == 1:
        return p.t[0][0][1][0][0]
    return None


def axis_of(a):
    """a = coordinate along one axis minus an offset -> (axis, offset)"""
    for ax in range(len(a.shape)):
        off = idx_value(("f", ax), 0) - a.p
        if not A.contains_any(off, {("f", k): 0 for k in range(len(a.shape))}):
            return ax, off
    return None


def c24(rep):
    jobs = [(b, t) for b in (("numpy", "torch", "jax") if rep.tier == "quick" else ("numpy", "torch", "jax", "autograd", "scipy"))
            for t in ("circular", "parallelogrammic", "1D", "given")]

    def one(rep, job):
        b, t = job
        {"circular": circular, "parallelogrammic": parallelogram, "1D": oned, "given": given}[t](rep, b)
    rep.fan(one, jobs)


def ctx(b):
    c = Ctx(b)
    declare("K", real=True)

    def st(it, f, a, k, node):
        t = tens("K", P(2), P(2))
        return T(t.shape, t.p, dt="f64", kind="arr")
    c.it.stubs["nannos.lattice.Lattice.reciprocal"] = st
    return c


def lattice(c, **kw):
    u = tuple(tuple(sym(f"{a}{b}", real=True) for b in "xy") for a in "uv")
    N = sym("N1", "int", integer=True, pos=True, lb=4)
    return c.run("nannos.lattice.Lattice", u, (N, N), **kw)


def get(rep, c, lat, nh, srt, con):
    it = c.it
    n0 = len(it.raised)
    v = c.meth(lat, "get_harmonics", nh, srt)
    if it.dead or v is None:
        rep.bad("accepted", con, f"raises: {it.raised[-1][1] if it.raised else ''}")
        it.dead = False
        return None
    if not isinstance(v, Tup) or len(v.items) != 2 or not isinstance(v.items[0], T) or not isinstance(v.items[1], T):
        rep.unknown("orders", con, f"not modelled: {v!r}"[:300])
        return None
    return v.items


def inner_position(it, un, p, con, rep, n):
    """p = flatten(A)[argsort(key)[X]] -> (A, key, X) with X = j, or argsort(anything of length n)[j]"""
    f = one_factor(p)
    if f is None or f[0] != "app" or f[1] != "flatten":
        return None
    arr = f[2][0]
    i = f[3][0]
    if i[0] != "e":
        return None
    g = one_factor(i[1]) if isinstance(i[1], Poly) else None
    if g is None:
        q = shift(i[1], 1, -1)
        g = one_factor(q)
    if g is None or g[0] != "app" or g[1] != "argsort":
        return None
    return arr, g[2][0], block0(g[3][0])


def block0(x):
    """position in the first block of a concatenation: the position itself"""
    while x[0] == "inj" and x[1] == 0:
        x = x[3]
    return x


def shape_rule(rep, it, un, G, con):
    """the two rows are the coordinates of a full centered box, read with one permutation"""
    rows = [peel(it, row(G, r)) for r in (0, 1)]
    got = [inner_position(it, un, un_rows, con, rep, G.shape[1]) for un_rows in rows]
    if None in got:
        # other arrangements are not recognised
        rep.unknown("one-permutation", con, f"not recognised: {A.show(rows[0])[:200]} / {A.show(rows[1])[:200]}")
        return None
    (a0, k0, x0), (a1, k1, x1) = got
    ok = vkey(T(k0.shape, k0.p)) == vkey(T(k1.shape, k1.p)) and x0 == x1
    rep.check(ok, "one-permutation", con, "the two indices of the orders are read with different permutations")
    if not ok:
        return None
    if x0 != ("f", 0):
        g = one_factor(shift(x0[1], 1, -1)) if x0[0] == "e" else None
        ok = g is not None and g[0] == "app" and g[1] == "argsort" and block0(g[3][0]) == ("f", 0) and (P(g[2][0].shape[0]) - P(G.shape[1])).is_zero()
        if not ok:
            rep.unknown("one-permutation", con, f"position {x0}"[:300])
            return None
    out = []
    for a in (a0, a1):
        stop = {g for d in a.shape for g in A.atoms_of(P(d))}
        out.append(T(a.shape, un(a.p, stop=stop)))
    ax = [axis_of(q) for q in out]
    if None in ax:
        rep.unknown("centered-box", con, f"not recognised: {out}"[:300])
        return None
    if {ax[0][0], ax[1][0]} != {0, 1}:
        rep.bad("centered-box", con, "both indices run along the same axis")
        return None
    return (a0, a1), k0, out, ax


def peel(it, p):
    """unfold names until the value is an entry of a flattened array"""
    for _ in range(10):
        f = one_factor(p)
        if f is None or f[0] != "atom" or f[1] not in it.letdefs:
            return p
        p = A.polysub(it.letdefs[f[1]].p, 0, {("f", k): i for k, i in enumerate(f[2])})
    return p


def circular(rep, b):
    for srt in (False, True):
        c = ctx(b)
        it = c.it
        it.start_naming()
        lat = lattice(c, truncation="circular")
        nq = sym("nq", "int", integer=True, pos=True)
        con0 = f"circular, {b}{', sorted' if srt else ''}"
        r = get(rep, c, lat, nq, srt, con0)
        if r is None:
            continue
        un = Unfold(it)
        K = tens("K", P(2), P(2))
        k = lambda i, j: tindex(K, [P(i), P(j)]).p
        ncase = 0
        for G, n in cases(it, [r[0], r[1]]):
            ncase += 1
            con = f"{con0}, case {ncase}"
            rep.check((P(G.shape[1]) - n.p).is_zero(), "count", con, f"{A.show(n.p)} orders are announced, {A.show(P(G.shape[1]))} returned"[:300])
            got = shape_rule(rep, it, un, G, con)
            if got is None:
                continue
            (a0, a1), key, full, ax = got
            # the key is the squared length of the reciprocal vector
            F = [A.fac(("app", "flatten", (a,), (("f", 0),))) for a in (a0, a1)]
            ref = psum([ppow(F[0] * k(i, 0) + F[1] * k(i, 1), 2) for i in (0, 1)])
            stop = set(A.atoms_of(a0)) | set(A.atoms_of(a1))
            kp = un(key.p, stop=stop)
            F2 = un(ref, stop=stop)
            ok, res = zero(T((), kp - F2))
            if not ok:
                # any increasing function of the length ranks alike
                ok, _ = zero(T((), kp - ppow(F2, Fr(1, 2))))
            rep.check(bool(ok), "ranked-by-length", con, f"sorted on {A.show(kp)[:300]}")
            ext = []
            for (axis, off), q in zip(ax, full):
                d = P(q.shape[axis])
                rep.check(zero(T((), d - off * 2 - 1))[0] is True, "centered-box", con, f"{A.show(d)[:100]} values starting at minus {A.show(off)[:100]}")
                ext.append(off)
            extent(rep, it, ext, con)
            cut(rep, it, un, n.p, key, nq.p, con)
        rep.used(it, con0)


SAMPLES = [  # (rows: K[i][j] component i of vector j)
    ((1.0, 0.0), (0.0, 1.0)), ((1.0, 0.5), (0.0, 0.8660254)), ((1.0, 0.9), (0.0, 0.3)), ((1.0, -0.95), (0.0, 0.2)), ((0.2, 0.0), (0.0, 3.0)),
    ((2.0, 1.9), (0.3, 0.7)), ((6.283, 0.0), (0.0, 0.2)), ((1.0, -0.5), (0.2, 1.3)), ((0.1, 1.0), (1.0, 0.4)),
]


def extent(rep, it, ext, con):
    """the box contains every order that may be among the nearest"""
    bad = unk = None
    for Km in SAMPLES:
        env = {"K": {(i, j): Km[i][j] for i in (0, 1) for j in (0, 1)}}
        for nh in (1, 2, 5, 10, 37, 100, 300):
            env = {"K": env["K"], "nq": nh, "defs": it.letdefs}
            try:
                q = [int(round(evalp(e, env))) for e in ext]
            except Exception as e:
                unk = f"{type(e).__name__}: {e}"
                break
            u = [math.hypot(Km[0][j], Km[1][j]) for j in (0, 1)]
            cr = abs(Km[0][0] * Km[1][1] - Km[0][1] * Km[1][0])
            R = math.sqrt(nh * cr / math.pi) + sum(u) / 2
            m = [int(R * u[1 - j] / cr) + 1 for j in (0, 1)]
            ln = sorted((math.hypot(a * Km[0][0] + b * Km[0][1], a * Km[1][0] + b * Km[1][1]), abs(a), abs(b))
                        for a in range(-m[0], m[0] + 1) for b in range(-m[1], m[1] + 1))[:nh]
            need_ = (max(x[1] for x in ln), max(x[2] for x in ln))
            top = ln[-1][0] * (1 - 1e-9)
            need_ = (max([x[1] for x in ln if x[0] < top] or [0]), max([x[2] for x in ln if x[0] < top] or [0]))
            if q[0] < need_[0] or q[1] < need_[1]:
                bad = f"for the reciprocal vectors {Km} and {nh} harmonics the box has half widths {q}, the orders need {need_}"
                break
        if bad or unk:
            break
    if unk:
        rep.unknown("box-contains-shells", con, unk)
    else:
        rep.check(bad is None, "box-contains-shells", con, bad or "")


def cut(rep, it, un, n, key, nq, con):
    """the number of orders kept is a position where the length changes"""
    g = one_factor(n)
    if g is not None and g[0] == "fn" and g[1] == "int":
        # positions and numbers of orders are integers
        n = g[2]
    if n.const() is not None:
        rep.check(n.const() == ONE_G or (n.const().re == 1 and not n.const().im), "complete-shells", con, f"keeps {n.const()} orders whatever their lengths")
        return
    fs = [f for f in deep_factors(n) if f[0] == "app" and f[1] == "first"]
    fs = list({A.skey(f): f for f in fs}.values())
    if len(fs) != 1:
        kk = {g for g in A.atoms_of(n) if g in A.atoms_of(key.p)}
        if not kk:
            rep.bad("complete-shells", con, f"the number of orders kept is {A.show(n)[:200]}: it does not depend on their lengths")
        else:
            rep.unknown("complete-shells", con, f"not recognised: {A.show(n)[:300]}")
        return
    f = fs[0]
    s = n + A.fac(f)
    if any(g[0] == "app" and g[1] == "first" for g in deep_factors(s)):
        rep.unknown("complete-shells", con, f"not recognised: {A.show(n)[:300]}")
        return
    cond, N = f[2]
    # position m <-> step s - m of the search
    m = ("f", 0)
    step = A.nidx(("e", A.shift(s - idx_value(m, 0), 0, 1)), 0)
    cm = A.psub_free(cond, {("f", "H"): step})
    g = one_factor(cm)
    if g is None or g[0] != "cmp" or g[1] != "lt":
        rep.unknown("complete-shells", con, f"condition not recognised: {A.show(cm)[:300]}")
        return
    D = shift(g[2], 1, -1) if False else g[2]
    x, y = key_at(key, idx_value(m, 0)), key_at(key, idx_value(m, 0) - 1)
    from ..models import pabs
    ref = pabs(x - y)
    hit = {t: cf for t, cf in D.t}
    rt = ref.t[0][0] if len(ref.t) == 1 else None
    if rt is None or rt not in hit:
        names = A.atoms_of(key.p)
        rep.bad("complete-shells", con, f"the search stops where {A.show(cm)[:300]}: not where the length of neighbouring orders changes")
        return
    sc = hit[rt]
    if sc.im or sc.re >= 0:
        rep.bad("complete-shells", con, f"the search stops where {A.show(cm)[:300]}")
        return
    tol = (D - A.pscale(mono_(rt), sc))
    tol = A.pscale(tol, G(1 / (-sc.re) * ref.t[0][1].re))
    names = A.atoms_of(key.p)
    tl = tol
    if any(h[0] == "app" and h[1] == "argsort" for h in deep_factors(tol)):
        rep.bad("complete-shells", con, f"the search stops where {A.show(cm)[:300]}")
        return
    ok = None
    try:
        vals = []
        for Km in SAMPLES:
            for t in (1.0, 1e-6, 1e6):
                env = {"K": {(i, j): t * Km[i][j] for i in (0, 1) for j in (0, 1)}, "nq": 50, "defs": it.letdefs}
                u2 = max(math.hypot(Km[0][j], Km[1][j]) for j in (0, 1)) ** 2
                vals.append(evalp(tl, env) / (u2 * t * t))
        ok = all(0 <= v <= 1e-5 for v in vals)
        why = f"relative tolerances between {min(vals):.1e} and {max(vals):.1e}"
    except Exception as e:
        why = f"{type(e).__name__}: {e}"
    if ok is None:
        rep.unknown("tolerance-relative", con, f"{why}: {A.show(tl)[:200]}")
    else:
        rep.check(ok, "tolerance-relative", con, f"orders of equal length are told apart with the tolerance {A.show(tl)[:200]}: {why}")
    # start of the search
    d = (s - nq).const()
    tot = P(key.shape[0])
    d2 = (s - tot).const()
    if d is not None and not d.im:
        rep.check(d.re <= 0, "not-more-than-requested", con, f"up to {A.show(s)[:200]} orders are kept")
    elif d2 is not None and not d2.im:
        g = it.assume(cmpp("lt", nq - tot))
        more = g.const() is not None and not g.const().re
        rep.check(more or bool(d2.re <= 0 and (tot - nq).is_zero()), "not-more-than-requested", con, f"up to {A.show(s)[:200]} orders are kept when {A.show(nq)} are requested")
        rep.check(d2.re <= -1, "inside-box", con, f"the search reads the length number {A.show(s)[:200]}")
    else:
        rep.unknown("not-more-than-requested", con, f"search starts at {A.show(s)[:300]}")
    rep.ok("complete-shells", con)


def mono_(t):
    return Poly({t: ONE_G})


def app_argsort(key, p):
    return A.fac(("app", "argsort", (T(key.shape, key.p),), (A.nidx(("e", A.shift(p, 0, 1)), 0),)))


def key_at(key, p):
    i = A.nidx(("e", A.shift(app_argsort(key, p), 0, 1)), 0)
    return A.psub_free(key.p, {("f", 0): i})


def parallelogram(rep, b):
    for srt in (False, True):
        c = ctx(b)
        it = c.it
        it.start_naming()
        lat = lattice(c, truncation="parallelogrammic")
        nq = sym("nq", "int", integer=True, pos=True)
        con0 = f"parallelogrammic, {b}{', sorted' if srt else ''}"
        r = get(rep, c, lat, nq, srt, con0)
        if r is None:
            continue
        un = Unfold(it)
        for v in range(1, 130 if rep.tier == "quick" else 1500):
            con = f"{con0}, {v} harmonics"
            try:
                n = int(round(evalp(r[1].p, {"nq": v, "defs": it.letdefs})))
                n2 = int(round(evalp(P(r[0].shape[1]), {"nq": v, "defs": it.letdefs})))
            except Exception as e:
                rep.unknown("count", con, f"{type(e).__name__}: {e}")
                break
            q = math.isqrt(n)
            rep.check(n == n2, "count", con, f"{n} orders are announced, {n2} returned")
            rep.check(n <= v, "not-more-than-requested", con, f"{n} orders are kept")
            rep.check(q * q == n and q % 2 == 1, "odd-square", con, f"{n} orders are kept")
        got = shape_rule(rep, it, un, r[0], con0)
        if got is None:
            continue
        (a0, a1), key, full, ax = got
        for v in range(1, 130 if rep.tier == "quick" else 1500):
            env = {"nq": v, "defs": it.letdefs}
            n = int(round(evalp(r[1].p, env)))
            M = (math.isqrt(n) - 1) // 2
            con = f"{con0}, {v} harmonics"
            for (axis, off), q in zip(ax, full):
                d, o = evalp(P(q.shape[axis]), env), evalp(off, env)
                rep.check(abs(o - M) < 1e-9 and abs(d - 2 * M - 1) < 1e-9, "centered-box", con, f"{d} values starting at minus {o} for {n} orders")
        rep.used(it, con0)


def oned(rep, b):
    c = ctx(b)
    it = c.it
    N = sym("N1", "int", integer=True, pos=True, lb=4)
    for t in ("circular", "parallelogrammic"):
        lat = c.run("nannos.lattice.Lattice", sym("period", pos=True), (N, N), truncation=t)
        for v in list(range(1, 24 if rep.tier == "quick" else 40)):
            for srt in (False, True):
                con = f"1D ({t}), {v} harmonics, {b}{', sorted' if srt else ''}"
                it.ncalls = 0
                r = get(rep, c, lat, v, srt, con)
                if r is None:
                    continue
                n = r[1].p.const()
                try:
                    n = int(n.re)
                    o = [tuple(int(tindex(r[0], [k, j]).p.const().re) for k in (0, 1)) for j in range(n)]
                except Exception:
                    rep.unknown("orders", con, f"not modelled: {r[0]!r}"[:300])
                    continue
                rep.check(P(r[0].shape[1]).as_int() == n, "count", con, f"{n} orders are announced")
                rep.check(n <= v, "not-more-than-requested", con, f"{n} orders are kept")
                rep.check(len(set(o)) == n and set(o) == {(i, 0) for i in range(-(n // 2), n // 2 + 1)}, "centered-interval", con, f"{o}")
                if srt:
                    rep.check(o == sorted(o), "sorted", con, f"{o}")
    rep.used(it, b)


def given(rep, b):
    for two_d in (True, False):
        for srt in (False, True):
            c = ctx(b)
            it = c.it
            declare("GG", real=True, integer=True)
            declare("ng", pos=True, integer=True)
            g = tens("GG", P(2), atom("ng"))
            g = T(g.shape, g.p, dt="i", kind="arr")
            u = tuple(tuple(sym(f"{a}{b_}", real=True) for b_ in "xy") for a in "uv") if two_d else sym("period", pos=True)
            N = sym("N1", "int", integer=True, pos=True, lb=4)
            lat = c.run("nannos.lattice.Lattice", u, (N, N), harmonics_array=g)
            con = f"given orders, {'2D' if two_d else '1D'}, {b}{', sorted' if srt else ''}"
            r = get(rep, c, lat, sym("nq", "int", integer=True, pos=True), srt, con)
            if r is None:
                continue
            rep.check((r[1].p - atom("ng")).is_zero() and (P(r[0].shape[1]) - atom("ng")).is_zero(), "count", con, f"{r[1]!r}")
            if not srt:
                rep.zero(T(r[0].shape, r[0].p - g.p), "orders-as-given", con)
            else:
                rows = [one_factor(tindex(r[0], [P(k)]).p) for k in (0, 1)]
                ok = all(f is not None and f[0] == "atom" and f[1] == "GG" for f in rows) and rows[0][2][1] == rows[1][2][1] and [f[2][0] for f in rows] == [("c", 0), ("c", 1)]
                rep.check(ok, "orders-as-given", con, f"{r[0]!r}"[:300])
            rep.used(it, b)
