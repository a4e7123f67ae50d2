"""C15: nothing on the way from the permittivities and thicknesses to R and T stops a derivative."""
import ast
import os
from .. import algebra as A
from ..algebra import *
from ..values import *
from ..ctx import sym, Ctx
from ..phys import SimCtx, nh
from ..interp import Interp, AnalysisError
from ..models import to_T
from .misc import gradient
from ..interp import CallableV

# functions of the value whose derivative is zero wherever it exists
STEPS = ("floor", "ceil", "sign", "round", "int", "trunc", "rint")


class Flow:
    """which symbols a value depends on, comparisons left aside; through the definitions of cut values"""

    def __init__(self):
        self.memo = {}
        self.it = None
        self.values = {}

    def names(self, x, acc, seen, steps=None):
        if isinstance(x, T):
            x = x.p
        if isinstance(x, Poly):
            if id(x) in seen:
                return
            seen[id(x)] = x
            for (bd, fs), c in x.t:
                for f, e in fs:
                    self.names(f, acc, seen, steps)
        elif isinstance(x, tuple):
            if x and x[0] in ("cmp", "bool", "delta", "idx"):
                return
            if len(x) == 3 and x[0] == "atom":
                acc.add(x[1])
                for y in x[2]:
                    self.names(y, acc, seen, steps)
                return
            if steps is not None and len(x) > 2 and x[0] == "fn" and x[1] in STEPS:
                steps.append(x)
            for y in x:
                if isinstance(y, (tuple, Poly, T)):
                    self.names(y, acc, seen, steps)

    def direct(self, x):
        acc = set()
        self.names(x, acc, {})
        return acc

    def defs_of(self, n):
        it = self.it
        d = it.defs.get(n) if it is not None else None
        if d is None and it is not None:
            d = it.letdefs.get(n)
        return d

    def reach(self, x):
        """all symbols, definitions unfolded"""
        todo = list(self.direct(x))
        out = set()
        while todo:
            n = todo.pop()
            if n in out:
                continue
            out.add(n)
            m = self.memo.get(n)
            if m is None:
                d = self.defs_of(n)
                m = self.direct(d) if isinstance(d, T) else set()
                if isinstance(d, T):
                    self.memo[n] = m
            todo += [y for y in m if y not in out]
        return out


def rules(backend):
    """autograd: names with a derivative rule, read from the sources of the library"""
    if backend != "autograd":
        return None
    import glob
    for d in glob.glob("/opt/venv/lib/python3*/site-packages/autograd"):
        have, none, python = set(), set(), set()
        for f in ("numpy/numpy_vjps.py", "numpy/linalg.py", "numpy/fft.py", "numpy/numpy_wrapper.py", "numpy/numpy_boxes.py"):
            p = os.path.join(d, f)
            if not os.path.exists(p):
                return None
            t = ast.parse(open(p).read())
            for n in ast.walk(t):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("defvjp", "defvjp_argnum", "def_linear", "defvjp_argnums") and n.args:
                    a = n.args[0]
                    have.add(a.attr if isinstance(a, ast.Attribute) else getattr(a, "id", ""))
                if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "nograd_functions":
                    none |= {a.attr for a in n.value.elts if isinstance(a, ast.Attribute)}
            if f.endswith("numpy_wrapper.py") or f.endswith("linalg.py") or f.endswith("fft.py"):
                python |= {n.name for n in t.body if isinstance(n, ast.FunctionDef) and not any("primitive" in ast.unparse(x) for x in n.decorator_list)}
                python |= {x.id for n in t.body if isinstance(n, ast.Assign) and isinstance(n.value, ast.Lambda) for x in n.targets if isinstance(x, ast.Name)}
        return have, none, python
    return None


AWARE = {"torch": ("torch.",), "autograd": ("autograd.",), }
# torch functions that give constants or plain copies
TORCH_PLAIN = {"zeros_like", "ones_like", "full_like", "empty_like", "eye", "arange"}


class Track:
    def __init__(self, backend, design):
        self.backend, self.design = backend, set(design)
        self.flow = Flow()
        self.cutlist = {}
        self.n = 0
        self.rules = rules(backend)
        self.stored = []

    def dep(self, t):
        return bool(self.flow.reach(t) & self.design)

    def cut(self, it, t, how, node):
        if not isinstance(t, T) or not self.dep(t):
            return t
        self.n += 1
        nm = f"severed{self.n}"
        q, _ = it.callstack[-1] if it.callstack else ("<module>", None)
        self.cutlist[nm] = (how, q, getattr(node, "lineno", 0), ast.unparse(node)[:100] if isinstance(node, ast.AST) else "")
        s = tens(nm, *t.shape)
        return T(s.shape, s.p, dt=t.dt, kind=t.kind)

    def sever(self, it, t, how, node):
        self.flow.it = it
        return self.cut(it, t, how, node)

    def ext(self, it, path, args, kw, node, go):
        self.flow.it = it
        if path.startswith("builtins."):
            return go()
        r = go()
        if not isinstance(r, (T, Tup)):
            return r
        name = path.split(".")[-1]
        why = None
        if not path.startswith(AWARE[self.backend]):
            why = f"{path} (a function of another library)"
        elif self.backend == "autograd" and self.rules:
            have, none, python = self.rules
            if name in none:
                why = f"{path} (autograd passes no derivative through it)"
            elif name not in have and name not in python:
                why = f"{path} (autograd has no derivative rule for it)"
        if why is None:
            return r
        if name in ("logical_and", "logical_or", "logical_not", "isclose", "allclose", "all", "any", "argsort", "iscomplexobj", "shape", "ndim"):
            return r

        def c(x):
            if isinstance(x, T):
                return self.cut(it, x, why, node)
            if isinstance(x, Tup):
                return Tup([c(y) for y in x.items])
            return x
        return c(r)

    def __enter__(self):
        Interp.sever_hook = staticmethod(self.sever)
        Interp.ext_hook = staticmethod(self.ext)
        return self

    def __exit__(self, *a):
        Interp.sever_hook = None
        Interp.ext_hook = None


def flow(rep, job):
    backend, two_d, kinds = job
    n = len(kinds)
    design = [f"eps_M{i}" for i in range(n)] + [f"d_M{i}" for i in range(n)]
    with Track(backend, design) as tr:
        th = {}
        for i in range(n):
            declare(f"d_M{i}", nonneg=True)
            th[i] = T((), atom(f"d_M{i}"), dt="f64", kind="arr")
        c = Grad(backend, two_d, kinds, th)
        it = c.it
        tr.flow.it = it
        con = f"{c.tag}"
        it.start_naming()
        for lab, orders in (("totals", False), ("per order", True)):
            v = c.meth(c.sim, "diffraction_efficiencies", orders)
            if it.dead:
                rep.bad("differentiable", f"{con} {lab}", f"raises {it.raised[-1][1]}")
                return
            for nm, x in zip("RT", it.items_of(v)):
                if not isinstance(x, T):
                    rep.unknown("differentiable", f"{nm} ({lab}, {con})", f"not modelled: {x!r}")
                    continue
                judge(rep, tr, c, x, f"{nm} ({lab}, {con})", design, kinds)
        for e in it.events:
            if e.kind == "setitem":
                vd = isinstance(e.data["value"], T) and tr.dep(e.data["value"])
                td = tr.dep(e.data["target"])
                if backend == "autograd" and (vd or td):
                    rep.bad("overwritten", f"{e.func} ({con})", f"line {e.line}: an entry that depends on the structure is stored in place")
            if e.kind == "ext_call" and e.data["path"].split(".")[-1] in ("no_grad", "inference_mode", "set_grad_enabled"):
                rep.bad("recording-on", f"{e.func} ({con})", f"line {e.line}: {e.data['path']} stops the recording of derivatives")
        rep.ok("overwritten", con)
        rep.ok("recording-on", con)
        rep.used(it, con)


class Grad(SimCtx):
    def __init__(self, backend, two_d, kinds, th):
        super().__init__(backend, two_d, "original", kinds, cut=("kx", "ky", "omega", "a0", "incident_flux", "k0para"), modes=True, thickness=th)
        for k, f in list(self.it.cuts.items()):
            if k[0] == "Layer":
                self.it.cuts[k] = self.kept(f)

    def kept(self, f):
        """the definition of a value that was replaced by a symbol"""
        def g(it, v, obj):
            r = f(it, v, obj)
            if isinstance(r, T):
                for n in A.atoms_of(r.p):
                    it.defs[n] = v
            return r
        return g

    def eps(self, tag, kind, two_d=True):
        t = super().eps(tag, kind, two_d)
        return T(t.shape, t.p, dt="c128", kind="arr")


def judge(rep, tr, c, x, con, design, kinds):
    r = tr.flow.reach(x)
    cuts = [k for k in r if k in tr.cutlist]
    for k in sorted(cuts)[:3]:
        how, q, l, src = tr.cutlist[k]
        rep.bad("unbroken", f"{q}: {con}", f"line {l}: the derivative ends in {how}: {src}")
    if not cuts:
        rep.ok("unbroken", con)
    for d in design:
        if d[0] == "d" and d[-1] in ("0", str(len(kinds) - 1)):
            continue
        rep.check(d in r, "reached", f"{con} from {d}", f"does not depend on {d} in a differentiable way")
    steps = []
    seen = {}
    todo, done = [x], set()
    while todo:
        y = todo.pop()
        acc = set()
        tr.flow.names(y, acc, seen, steps)
        for n in acc - done:
            done.add(n)
            d = tr.flow.defs_of(n)
            if isinstance(d, T):
                todo.append(d)
    bad = [s for s in steps if any(tr.dep(P(0) + y) for y in s if isinstance(y, Poly))]
    rep.check(not bad, "smooth", con, f"goes through {bad[0][1] if bad else ''}, whose derivative is zero")


def grad_def(rep, backend):
    """the gradient function of the package differentiates the function it is given, at the point it is given"""
    con = f"grad ({backend})"
    c = Ctx(backend)
    it = c.it
    seen = []

    def f(it, a, k, node):
        seen.append((a, k))
        t = A.app("objective", tuple(T(v.shape, v.p) for v in a if isinstance(v, T)))
        return T((), t.p, kind="arr", dt="f64")
    fv = CallableV(f, "objective")
    n = atom("nv")
    declare("nv", pos=True, integer=True)
    x = tens("xg", n)
    x = T(x.shape, x.p, dt="f64", kind="arr")
    tracked = []

    def req(it, a, k, node):
        # the graph must contain the very tensor that is differentiated
        y, v = a[0], a[1]
        tracked.append(v)
        return Tup((gradient(y, v),))
    it.ext_stubs["torch.autograd.grad"] = req

    def lib(it, a, k, node):
        g = a[0]
        if isinstance(g, T):
            return NotImplemented

        def call(it, b, kw, nn):
            return gradient(it.call(g, list(b), kw, nn), b[0])
        rep.check(len(a) < 2 or same0(a[1]), "gradient-of-first", con, "differentiates with respect to another argument")
        return CallableV(call, "grad")
    it.ext_stubs["autograd.grad"] = lib
    p = sym("pg", real=True)
    g = c.run("nannos.grad", fv)
    v = it.run(g, x, p) if g is not None else None
    given = list(seen)
    if it.dead or not isinstance(v, T):
        rep.bad("gradient", con, f"raises or gives no array: {it.raised[-1][1] if it.raised else v!r}")
        return
    want = gradient(f(it, [x, p], {}, None), x)
    rep.zero(T(v.shape, v.p - want.p), "gradient", con, what="not the derivative of the function at the point with its arguments")
    if backend == "torch":
        on = [e.data["value"] for e in it.events if e.kind == "requires_grad" and e.data["on"] is True]
        x0, x1 = (given[0][0][0], tracked[0]) if given and tracked else (None, None)
        rep.check(any(o is x0 and o is x1 for o in on), "gradient-recorded", con,
                  "the tensor that is differentiated, the one given to the function and the one marked for differentiation are not one")


def helpers(rep, backend):
    """the maps from densities to permittivities"""
    from .misc import arr
    with Track(backend, ["xd"]) as tr:
        c = Ctx(backend)
        it = c.it
        tr.flow.it = it
        declare("N1", pos=True, integer=True)
        declare("N2", pos=True, integer=True)
        t = tens("xd", atom("N1"), atom("N2"))
        declare("xd", real=True)
        F = lambda n: sym(n, real=True)
        m = "nannos.optimize."
        for nm, run in (("simp", lambda x: c.run(m + "simp", x, F("ea"), F("eb"), F("p"))),
                        ("project", lambda x: c.run(m + "project", x, F("beta"), F("thres"))),
                        ("multi_project", lambda x: c.run(m + "multi_project", x, F("beta"), 3)),
                        ("multi_simp", lambda x: c.run(m + "multi_simp", x, it.new_list([F("ea"), F("eb"), F("ec")]), F("p"))),
                        ("apply_filter", lambda x: c.run("nannos.utils.helpers._apply_filter", x, F("rf")))):
            con = f"{nm} ({backend})"
            it.dead = False
            v = run(T(t.shape, t.p, dt="f64", kind="arr"))
            if it.dead or not isinstance(v, T):
                rep.unknown("differentiable", con, f"not modelled: {v!r} {it.raised[-1:]}")
                continue
            judge(rep, tr, c, v, con, ["xd"], "uuu")
        rep.used(it, f"helpers/{backend}")


def same0(v):
    return isinstance(v, T) and v.p.is_zero()


def c15(rep):
    jobs = []
    for b in ("autograd", "torch"):
        for two in (True, False):
            jobs.append((b, two, "upu"))
        jobs.append((b, True, "uuu"[:0] + "upup"[:3] if False else "upuu"))
        if rep.tier != "quick":
            jobs += [(b, True, "uau"), (b, True, "uppu")]
    rep.fan(flow, jobs, 8)
    for b in ("autograd", "torch"):
        grad_def(rep, b)
        helpers(rep, b)


LEVEL = {"C15": "Dependence analysis through every operation that ends a derivative"}
