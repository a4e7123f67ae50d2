"""C21, C22, C23, C25: optimizer, argument checks, parallel loop, material maps."""
from .. import algebra as A
from ..algebra import *
from ..values import *
from ..interp import CallableV, PyRaise
from ..ctx import sym, Ctx
from .history import deep
from fractions import Fraction as Fr


def arr(name, *dims):
    return T(tuple(P(d) for d in dims), tens(name, *dims).p, kind="arr")


# ------------------------------------------------------------------------- C25
def c25(rep):
    def one(rep, backend):
        c = Ctx(backend)
        it = c.it
        p, beta = sym("p", pos=True), sym("beta", pos=True)
        x, th = sym("x", real=True), sym("th", nonneg=True)
        declare("nx", pos=True, integer=True)
        nx = atom("nx")
        const = lambda v: T((nx,), P(v), kind="arr")
        xs = arr("xs", nx)
        declare("xs", real=True)

        def run(con, f, *a, **k):
            n = len(it.raised)
            it.dead = False
            v = c.run("nannos.optimize." + f, *a, **k)
            if it.dead:
                rep.bad("accepted", con, f"raises on every path: {it.raised[-1][1] if it.raised else ''}")
                return None
            return v

        def at_point(v, eps, k, con):
            """value v is material k"""
            ref = T(v.shape, P(0) + eps[k].p) if isinstance(v, T) else None
            if ref is None:
                rep.unknown("end-points", con, f"not modelled: {v!r}")
                return
            d = T(v.shape, v.p - ref.p)
            if d.p.is_zero():
                rep.ok("end-points", con)
                return
            # v is row k of M inv(M) eps for the matrix M that is inverted
            for f in set(x for x in deep_inv(v.p)):
                M, m = f, len(eps)
                inv = tinv(M)
                row = psum([pmul(tindex(M, [P(k), P(a)]).p, pmul(tindex(inv, [P(a), P(b)]).p, eps[b].p))
                            for a in range(m) for b in range(m)])
                if (v.p - row).is_zero():
                    rep.ok("end-points", con)
                    return
            rep.bad("end-points", con, f"gives {A.show(v.p)[:300]} instead of material {k}")

        e2 = [sym(f"eps{k}") for k in range(2)]
        for lab, mk in (("scalar", lambda v: num(v)), ("float", lambda v: num(float(v))), ("array", const)):
            for k in (0, 1):
                for q, pv in (("p", p), ("default exponent", None)):
                    con = f"simp at {k} ({lab}, {q}), {backend}"
                    v = run(con, "simp", mk(k), e2[0], e2[1], *([pv] if pv is not None else []))
                    if v is not None:
                        at_point(v, e2, k, con)
        for m in (2, 3, 4, 5) if rep.tier == "quick" else range(2, 9):
            eps = [sym(f"eps{k}") for k in range(m)]
            for k in range(m):
                pt = num(Fr(k, m - 1))
                for lab, xx in (("scalar", pt), ("array", T((nx,), pt.p, kind="arr"))):
                    con = f"multi_simp of {m} materials at {k}/{m - 1} ({lab}), {backend}"
                    v = run(con, "multi_simp", xx, it.alloc("list", list(eps)), p)
                    if v is not None:
                        at_point(v, eps, k, con)
        # projection
        for lab, xx in (("scalar", x), ("array", xs)):
            for k in (0, 1):
                con = f"project at {k} ({lab}), {backend}"
                v = run(con, "project", num(k) if lab == "scalar" else const(k), beta, th)
                if isinstance(v, T):
                    rep.zero(T(v.shape, v.p - P(k)), "projection-ends", con)
                elif v is not None:
                    rep.unknown("projection-ends", con, f"not modelled: {v!r}")
            con = f"project ({lab}), {backend}"
            v = run(con, "project", xx, beta, th)
            if isinstance(v, T):
                monotone(rep, v, "x" if lab == "scalar" else "xs", con, th)
            for m in (2, 3, 4) if rep.tier == "quick" else range(2, 8):
                con = f"multi_project of {m} levels ({lab}), {backend}"
                v = run(con, "multi_project", xx, beta, m)
                parts = [run(con, "project", xx, beta, num(Fr(j, m))) for j in range(1, m)]
                if isinstance(v, T) and all(isinstance(q, T) for q in parts):
                    rep.equal(T(v.shape, v.p), T(parts[0].shape, pmul(psum([q.p for q in parts]), P(Fr(1, m - 1)))), "mean-of-levels", con)
                elif v is not None:
                    rep.unknown("mean-of-levels", con, f"not modelled: {v!r}")
        rep.used(it, backend)
    rep.fan(one, ["numpy", "torch", "jax", "autograd"])


def deep_inv(p):
    """matrices whose inverse occurs"""
    from ..decide import deep_factors
    for f in deep_factors(p):
        if f[0] == "app" and f[1] == "inv":
            for q in f[2] if isinstance(f[2], tuple) else (f[2],):
                if isinstance(q, T):
                    yield q
        if f[0] == "inv":
            for q in f[1:]:
                if isinstance(q, T):
                    yield q


def monotone(rep, v, x, con, th):
    """v = c + K tanh(s x + b) with K s > 0 and c, K, s independent of x"""
    rest, terms = [], []
    for (bd, fs), cf in v.p.t:
        hit = [(f, e) for f, e in fs if x in A.atoms_of(A.fac(f))]
        if not hit:
            continue
        if len(hit) != 1 or hit[0][1] != 1 or hit[0][0][0] != "fn" or hit[0][0][1] != "tanh":
            rep.unknown("increasing", con, f"not of the form c + K tanh(s x + b): {A.show(v.p)[:200]}")
            return
        g = hit[0][0]
        terms.append((g, (bd, tuple((f, e) for f, e in fs if f != g)), cf))
    if len({A.skey(g) for g, _, _ in terms}) != 1:
        rep.bad("increasing", con, f"the value does not depend on the density through one tanh: {A.show(v.p)[:200]}")
        return
    g = terms[0][0]
    u = g[2] if isinstance(g[2], Poly) else P(g[2])
    K = psum([mono(t, cf) for _, t, cf in terms])
    xt = [((bd, fs), cf) for (bd, fs), cf in u.t if any(x in A.atoms_of(A.fac(f)) for f, e in fs)]
    s = ZERO
    for (bd, fs), cf in xt:
        s = s + mono((bd, tuple((f, e) for f, e in fs if not (f[0] == "atom" and f[1] == x))), cf)
    beta = atom("beta")
    D = tanh_(pmul(beta, th.p)) + tanh_(pmul(beta, ONE - th.p))
    # K s = beta / (tanh(th beta) + tanh((1 - th) beta)) times a positive number
    q = pmul(pmul(K, s), pmul(ppow(beta, -1), D))
    r = q
    from ..decide import zero
    d = r.const()
    if d is None:
        ok, res = zero(T((), r - ONE))
        d = 1 if ok else None
    if d is None:
        rep.unknown("increasing", con, f"sign of the slope not decided: {A.show(r)[:200]}")
    else:
        rep.check(d > 0, "increasing", con, f"the slope has the sign of {d}")


def mono(t, cf):
    return Poly({t: cf})


def tanh_(p):
    return tfn("tanh", T((), p)).p


def unknown_value(name, a, k):
    """value of an unknown function at these arguments"""
    plain = lambda x: T(x.shape, x.p) if isinstance(x, T) else vkey(x)
    return T((), A.app(name, (tuple(plain(x) for x in a), tuple(sorted((q, plain(v)) for q, v in k.items())))).p)


def unknown(name):
    return CallableV(lambda it, a, k, n: unknown_value(name, a, k), name)


# ------------------------------------------------------------------------- C23
def c23(rep):
    c = Ctx("numpy")
    it = c.it
    F = unknown("F")
    declare("M", pos=True, integer=True)
    declare("nj", integer=True)
    seq = arr("xs", atom("M"))
    a2, kw = sym("a2", real=True), sym("kw", real=True)
    cases = []
    for jl, j in (("default", None), ("1", num(1)), ("2", num(2)), ("-1", num(-1)), ("any", sym("nj", "int", integer=True))):
        for pl, pr in (("", None), ("threads", "threads")):
            cases.append((jl, j, pl, pr))
    for jl, j, pl, pr in cases:
        tag = f"n_jobs={jl}{', prefer=' + pl if pl else ''}"
        n0 = len(it.events)
        it.dead = False
        kws = {}
        if j is not None:
            kws["n_jobs"] = j
        if pr is not None:
            kws["prefer"] = pr
        deco = c.run("nannos.parallel.parloop", **kws)
        m = c.run(deco, F)
        for il, items in (("no item", []), ("one item", [num(5)]), ("three items", [num(3), num(1), num(2)]),
                          ("repeated items", [num(2), num(2)]), ("tuple of strings", ("b", "a")), ("array", seq)):
            for al, ex, k in (("", (), {}), ("extra argument", (a2,), {}), ("extra arguments and keywords", (a2, kw), {"k": kw, "l": a2})):
                con = f"{tag}, {il}, {al or 'no extra argument'}"
                src = it.alloc("list", list(items)) if isinstance(items, list) else Tup(items) if isinstance(items, tuple) else items
                n1 = len(it.events)
                v = it.run(m, src, *ex, **k)
                if it.dead:
                    rep.bad("accepted", con, f"raises on every path: {it.raised[-1][1] if it.raised else ''}")
                    it.dead = False
                    continue
                one = lambda x: unknown_value("F", (x,) + tuple(ex), k).p
                got = it.h(v).d if isinstance(v, Ref) else None
                if isinstance(items, (list, tuple)):
                    if not isinstance(got, list):
                        rep.bad("list-of-values", con, f"returns {v!r}, not a list")
                        continue
                    rep.check([vkey(x) for x in got] == [vkey(T((), one(x))) for x in items], "values-in-order", con, f"{got!r}"[:300])
                else:
                    ok = isinstance(got, SymSeq) and got.n == atom("M")
                    if not ok:
                        rep.unknown("values-in-order", con, f"not modelled: {got!r}")
                        continue
                    kk = sym("kk", "int", integer=True)
                    rep.check(vkey(got.at(kk.p)) == vkey(T((), one(tindex(seq, [kk.p])))), "values-in-order", con, f"{got!r}"[:300])
                for e in it.events[n1:]:
                    if e.kind == "parallel":
                        rep.check(set(e.kw) <= {"n_jobs", "prefer", "verbose", "backend", "batch_size", "pre_dispatch", "require", "mmap_mode", "max_nbytes", "temp_folder", "timeout"} or e.kw.get("return_as") in ("list",),
                                  "joblib-returns-a-list", con, f"Parallel is called with {sorted(e.kw)}")
                        want = j if j is not None else num(1)
                        rep.check(vkey(e.kw.get("n_jobs", num(1))) == vkey(want), "jobs-passed-on", con, f"n_jobs={e.kw.get('n_jobs')!r}")
    f = it.get("nannos.optimize.simp")
    m = c.run(c.run("nannos.parallel.parloop", num(2)), f)
    for a in ("__name__", "__doc__"):
        rep.check(vkey(it.getattr(m, a)) == vkey(it.getattr(f, a)), "keeps-name-and-doc", a, f"{it.getattr(m, a)!r}")
    rep.used(it, "numpy")


# ------------------------------------------------------------------------- C21
class Search:
    """what the two libraries promise: scipy's minimize evaluates the objective and its
    gradient at points of its choice, starting with the initial one, and returns one of
    the evaluated points together with the value obtained there (not the last one)"""

    def __init__(self, c):
        self.c, self.calls, self.stage = c, [], 0
        it = c.it
        it.ext_stubs["scipy.optimize.minimize"] = self.scipy
        it.ext_stubs["nlopt.opt"] = self.nlopt

    def point(self, k):
        nm = f"pt{self.stage}_{k}"
        return arr(nm, self.c.nv)

    def scipy(self, it, a, k, node):
        names = ("fun", "x0", "args", "method", "jac", "hess", "hessp", "bounds", "constraints", "tol", "callback", "options")
        d = dict(zip(names, a))
        d.update(k)
        self.stage += 1
        rec = {"kind": "scipy", "x0": d["x0"], "bounds": d.get("bounds"), "options": d.get("options"), "jac": d.get("jac"),
               "args": d.get("args", Tup(())), "evals": [], "node": node, "pc": it.st.pc, "heap": it.st.heap}
        self.calls.append(rec)
        args = it.items_of(rec["args"]) if isinstance(rec["args"], (Tup, Ref)) else [rec["args"]]
        pts = [d["x0"], self.point(1), self.point(2)]
        vals = []
        for x in pts:
            y = it.call(d["fun"], [x] + list(args), {}, node)
            if d.get("jac") is True:
                y, g = it.items_of(y)
            elif d.get("jac") not in (None, False):
                g = it.call(d["jac"], [x] + list(args), {}, node)
            else:
                g = None
            rec["evals"].append((x, y, g))
            vals.append(y)
        return self.obj(it, "scipy.optimize.OptimizeResult", {"x": pts[1], "fun": vals[1], "nit": num(3), "success": True})

    def obj(self, it, name, d):
        return it.alloc("module", dict(d), None, name)

    def nlopt(self, it, a, k, node):
        self.stage += 1
        rec = {"kind": "nlopt", "evals": [], "node": node, "dim": a[1] if len(a) > 1 else None, "set": {}, "setpc": {}, "params": [], "alg": a[0] if a else None}
        self.calls.append(rec)

        def setter(nm):
            def f(it, a, k, n):
                rec["set"][nm] = a[0] if len(a) == 1 else a
                rec["setpc"][nm] = it.st.pc
                return None
            return f

        def param(it, a, k, n):
            rec["params"].append(tuple(a))

        def optimize(it, a, k, n):
            rec["x0"], rec["pc"], rec["heap"] = a[0], it.st.pc, it.st.heap
            f = rec["set"].get("set_min_objective")
            pts = [a[0], self.point(1), self.point(2)]
            vals = []
            for i, x in enumerate(pts):
                g = arr("buf", self.c.nv) if i < 2 else T((P(0),), ZERO, kind="arr")
                g.st = "numpy"
                box = it.alloc("list", [g])
                y = it.call(f, [x, g], {}, n)
                rec["evals"].append((x, y, it.h(box).d[0] if i < 2 else None))
                vals.append(y)
            rec["best"] = vals[1]
            return pts[1]
        d = {"optimize": CallableV(optimize, "optimize"), "set_param": CallableV(param, "set_param"),
             "last_optimum_value": CallableV(lambda it, a, k, n: rec["best"], "last_optimum_value"),
             "last_optimize_result": CallableV(lambda it, a, k, n: num(1), "last_optimize_result")}
        for nm in ("lower_bounds", "upper_bounds", "ftol_rel", "ftol_abs", "xtol_rel", "xtol_abs", "stopval", "maxeval", "maxtime",
                   "min_objective", "max_objective", "initial_step", "population", "vector_storage"):
            d["set_" + nm] = CallableV(setter("set_" + nm), "set_" + nm)
        return self.obj(it, "nlopt.opt", d)


def grad_models(it):
    """the gradient routines of the libraries"""
    def g(it, a, k, node):
        f = a[0]

        def call(it, b, kw, n):
            if k.get("argnums", None) is not None and vkey(k["argnums"]) != vkey(num(0)) or len(a) > 1 and vkey(a[1]) != vkey(num(0)):
                return Opq("gradient with respect to another argument", "grad")
            y = it.call(f, list(b), kw, n)
            return gradient(y, b[0])
        return CallableV(call, "grad")
    for nm in ("autograd.grad", "jax.grad"):
        it.ext_stubs[nm] = lambda it, a, k, node: NotImplemented if isinstance(a[0], T) else g(it, a, k, node)

    def tg(it, a, k, node):
        x = a[1]
        return Tup((gradient(a[0], x),))
    it.ext_stubs["torch.autograd.grad"] = tg


def gradient(y, x):
    p = lambda v: T(v.shape, v.p) if isinstance(v, T) else vkey(v)
    t = A.app("gradient_of", (p(y), p(x)), *(x.shape if isinstance(x, T) else ()))
    return T(t.shape, t.p, kind="arr")


def gates_of(v):
    from ..decide import deep_factors
    for f in deep_factors(v.p if isinstance(v, T) else ZERO):
        if f[0] in ("cmp", "bool"):
            yield f


def leaves(it, v, depth=0):
    """the values v takes on the different sides of the conditions it depends on"""
    if isinstance(v, Phi) or isinstance(v, Tup) or isinstance(v, Ref):
        v = split(it, v)
    vs = v if isinstance(v, list) else [v]
    c = None
    for x in vs:
        if isinstance(x, Phi):
            c = x.c
            break
        if isinstance(x, T):
            f = next(iter(gates_of(x)), None)
            if f is not None:
                c = A.fac(f)
                break
    if c is None or depth > 14:
        yield v
        return
    s0 = it.st
    for side in (c, ONE - c):
        it.st = s0.fork(side)
        ws = [it.simplify(x) if isinstance(x, Phi) else T(x.shape, it.assume(x.p)) if isinstance(x, T) else x for x in vs]
        it.st = s0.fork(side)
        yield from leaves(it, ws if isinstance(v, list) else ws[0], depth + 1)
    it.st = s0


def split(it, v):
    if isinstance(v, Tup):
        return list(v.items)
    if isinstance(v, Ref):
        return list(it.items_of(v))
    return v


def c21(rep):
    confs = [(b, m, sv, cb) for b in ("autograd", "torch") for m in ("scipy", "nlopt", "nlopt-missing")
             for sv in (False, True) for cb in (False, True) if rep.tier == "thorough" or b == "autograd" or (not cb and m != "nlopt-missing")]

    def one(rep, item):
        backend, method, stop, cb = item
        c = Ctx(backend)
        it = c.it
        declare("nv", pos=True, integer=True)
        c.nv = atom("nv")
        grad_models(it)
        if method == "nlopt-missing":
            it.missing.add("nlopt")
        lib = "nlopt" if method == "nlopt" else "scipy"
        s = Search(c)
        F = unknown("objective")
        for nm in ("x0", "buf"):
            declare(nm, real=True)
        x0 = arr("x0", c.nv)
        args = it.alloc("list", [sym("beta0", real=True), sym("a1", real=True), sym("a2", real=True)])
        sv = sym("stopval", real=True)
        maxit = sym("maxit", "int", integer=True, pos=True)
        opts = [("no option", {}), ("options", {"ftol": sym("ftol", pos=True)} if lib == "scipy" else
                                    {"ftol_rel": sym("o1", pos=True), "xtol_rel": sym("o2", pos=True), "ftol_abs": sym("o3", pos=True), "xtol_abs": sym("o4", pos=True)}),
                ("tuple of arguments", {})]
        if lib == "scipy":
            opts.append(("maxiter among the options", {"maxiter": sym("mi2", "int", integer=True, pos=True)}))
        else:
            opts += [(k, {k: sym("o1", pos=True)}) for k in ("ftol_rel", "xtol_rel", "ftol_abs", "xtol_abs")]
        seen_cb = []
        cbf = CallableV(lambda it, a, k, n: seen_cb.append(tuple(a)), "callback")
        snap = it.st.fork()
        for thr in ((0, 1), (2, 4)) if stop and lib == "scipy" else ((0, 1), (0, 3), (2, 4)):
            for ol, od in opts:
                it.st = snap.fork()
                it.dead = False
                s.calls.clear()
                s.stage = 0
                tag = f"{backend}, {method}, {'stop value' if stop else 'no stop value'}{', callback' if cb else ''}, stages {thr}, {ol}"
                o = it.alloc("dict", dict(od)) if od or ol == "options" else None
                a_ = Tup(it.items_of(args)) if ol == "tuple of arguments" else args
                kw = dict(method="nlopt" if method.startswith("nlopt") else "scipy", threshold=Tup((num(thr[0]), num(thr[1]))), maxiter=maxit, args=a_)
                if stop:
                    kw["stopval"] = sv
                if cb:
                    kw["callback"] = cbf
                if o is not None:
                    kw["options"] = o
                before = (vkey(Tup(it.items_of(args))), deep(it, o) if o is not None else None, x0.key)
                opt = it.run(it.get("nannos.optimize.TopologyOptimizer"), F, x0, **kw)
                if it.dead or opt is None:
                    rep.bad("accepted", tag, f"the optimizer cannot be created: {it.raised[-1][1] if it.raised else ''}")
                    continue
                r = it.run(it.getattr(opt, "minimize"))
                if it.dead:
                    rep.bad("accepted", tag, f"minimize raises on every path: {it.raised[-1][1] if it.raised else ''}")
                    continue
                now = (vkey(Tup(it.items_of(args))), deep(it, o) if o is not None else None, x0.key)
                rep.check(now[0] == before[0], "arguments-untouched", tag, f"the extra arguments become {now[0]}")
                rep.check(now[1] == before[1], "options-untouched", tag, f"the options become {now[1]}")
                rep.check(now[2] == before[2], "start-untouched", tag, "the starting point is modified")
                rep.check(len(s.calls) >= 1 and {q["kind"] for q in s.calls} == {lib}, "library", tag, f"{[q['kind'] for q in s.calls]}")
                stages = list(range(*thr))
                rep.check(len(s.calls) == len(stages), "stages", tag, f"{len(s.calls)} searches for {len(stages)} stages")
                base = it.items_of(args)
                prev = {vkey_(x0)}
                for i, (st, q) in enumerate(zip(stages, s.calls)):
                    con = f"stage {st}; {tag}"
                    want = [num(2 ** st)] + list(base[1:])
                    val = lambda x: unknown_value("objective", [x] + want, {})
                    for v in leaves(it, q["x0"]):
                        rep.check(vkey_(v) in prev, "starts-from-previous", con, f"starts from {v!r}, not from a result of the previous stage"[:300])
                    for (x, y, g) in q["evals"]:
                        for xx, yy, gg in leaves(it, Tup((x, y, g))):
                            rep.check(vkey_(yy) == vkey_(val(xx)), "objective", con, f"evaluated at {xx!r} gives {yy!r}"[:400])
                            if gg is not None:
                                rep.check(vkey_(gg) == vkey_(gradient(val(xx), xx)), "gradient", con, f"gradient at {xx!r} is {gg!r}"[:400])
                    if lib == "scipy":
                        rep.check(q["jac"] not in (None, False), "gradient-given", con, "no gradient is given")
                        bounds_scipy(rep, it, q, con)
                        od_ = it.h(q["options"]).d if isinstance(q["options"], Ref) else {}
                        wanto = {"maxiter": maxit, **od}
                        rep.check({k: vkey(v) for k, v in od_.items()} == {k: vkey(v) for k, v in wanto.items()}, "options-applied", con, f"{od_!r}")
                    else:
                        S = q["set"]
                        rep.check(vkey_(S.get("set_lower_bounds")) in (vkey_(T((c.nv,), ZERO)), vkey_(num(0)), vkey_(num(0.0))), "bounds", con, f"lower bounds {S.get('set_lower_bounds')!r}")
                        rep.check(vkey_(S.get("set_upper_bounds")) in (vkey_(T((c.nv,), ONE)), vkey_(num(1)), vkey_(num(1.0))), "bounds", con, f"upper bounds {S.get('set_upper_bounds')!r}")
                        rep.check(vkey_(q["dim"]) == vkey_(T((), c.nv)), "bounds", con, f"dimension {q['dim']!r}")
                        rep.check("set_max_objective" not in S, "objective", con, "the objective is maximised")
                        rep.check(vkey_(S.get("set_maxeval")) == vkey_(maxit), "options-applied", con, f"maxeval {S.get('set_maxeval')!r}")
                        rep.check(("set_stopval" in S) == stop and (not stop or vkey_(S["set_stopval"]) == vkey_(sv)), "stop-value-applied", con, f"stop value {S.get('set_stopval')!r}")
                        for k in S:
                            rep.check(q["setpc"][k] == q["pc"], "options-applied", con, f"{k} is only called when {[A.show(z) for z in q['setpc'][k]]}")
                        for k in ("ftol_rel", "xtol_rel", "ftol_abs", "xtol_abs"):
                            got = S.get("set_" + k)
                            rep.check(vkey_(got) == vkey_(od.get(k)), "options-applied", con, f"{k} is {got!r}")
                    # a stage ends with the point the library returns or, when a value below the
                    # stop value was met, with the point of that value
                    ends = [q["evals"][1][0]] + ([x for x, y, g in q["evals"]] if stop and lib == "scipy" else [])
                    prev = {vkey_(v) for e in ends for v in leaves(it, e)}
                # the result
                if not isinstance(r, (Tup, Phi, Ref)):
                    rep.unknown("point-and-value", tag, f"not modelled: {r!r}")
                    continue
                want = [num(2 ** stages[-1])] + list(base[1:])
                for n, v in enumerate(leaves(it, r)):
                    if not isinstance(v, list) or len(v) != 2:
                        rep.bad("point-and-value", tag, f"returns {v!r}"[:300])
                        continue
                    x, y = v
                    rep.check(vkey_(y) == vkey_(unknown_value("objective", [x] + want, {})), "point-and-value", f"{tag}, outcome {n}",
                              f"the value reported with {x!r} is {y!r}"[:400])
                    rep.check(vkey_(x) in prev, "result-of-last-stage", f"{tag}, outcome {n}", f"the point {x!r} is no result of the last stage"[:400])
        rep.used(it, backend + "/" + method)
    rep.fan(one, confs)
    c21_stop(rep)


def vkey_(v):
    if isinstance(v, T):
        return "T" + ",".join(P(d).key for d in v.shape) + ":" + v.p.key
    return vkey(v)


def bounds_scipy(rep, it, q, con):
    b = q["bounds"]
    ok = None
    v = it.h(b).d if isinstance(b, Ref) else b.items if isinstance(b, Tup) else b
    if isinstance(v, SymSeq):
        ok = v.n == atom("nv") and vkey(v.tmpl) in (vkey(Tup((num(0), num(1)))), vkey(Tup((num(0.0), num(1.0)))))
    elif isinstance(b, Opq) and "Bounds" in b.key:
        ok = True
    rep.check(bool(ok), "bounds", con, f"bounds {v!r}")


def c21_stop(rep):
    """the stop value: the search ends exactly when a value below it is met"""
    c = Ctx("autograd")
    it = c.it
    grad_models(it)
    declare("nv", pos=True, integer=True)
    F = unknown("objective")
    sv = sym("stopval", real=True)
    x, a = arr("xx", atom("nv")), sym("a1", real=True)
    for lab, stop in (("given", sv), ("none", None)):
        n0 = len(it.raised)
        o = it.run(it.get("nannos.optimize.StopFun"), F, **({"stopval": stop} if stop is not None else {}))
        v = it.run(it.getattr(o, "fun"), x, a)
        y = unknown_value("objective", [x, a], {})
        rs = it.raised[n0:]
        con = f"StopFun, stop value {lab}"
        if stop is None:
            rep.check(not rs and not it.dead, "stops-when-below", con, "raises without a stop value")
            rep.check(vkey_(v) == vkey_(y), "objective", con, f"{v!r}")
        else:
            lt = cmpp("lt", y.p - sv.p)
            conds = [pmulall(r[0]) for r in rs]
            rep.check(len(conds) == 1 and conds[0] == lt, "stops-when-below", con, f"raises when {[A.show(q) for q in conds]}")
            rep.check(vkey_(it.simplify(v)) == vkey_(y), "objective", con, f"{v!r}")
    rep.used(it, "stop")


def pmulall(pc):
    r = ONE
    for q in pc:
        r = r * q
    return r
