"""C14: every backend carries out the same computation."""
import ast
import json
import os
from .. import algebra as A
from ..algebra import *
from ..values import *
from ..ctx import sym, Ctx, program
from .. import decide
from ..phys import SimCtx, nh
from ..interp import AnalysisError
from .fields import solve
from .misc import arr

BACKENDS = ("numpy", "scipy", "autograd", "jax", "torch")


def picture(it, v, d=0):
    """the value without the identity of objects; numbers as (shape, normal form)"""
    if isinstance(v, T):
        return ("num", tuple(P(x).key for x in v.shape), v.p)
    if isinstance(v, Tup):
        return ("seq",) + tuple(picture(it, x, d + 1) for x in v.items)
    if isinstance(v, Ref) and d < 8:
        o = it.h(v)
        if isinstance(o.d, dict):
            if o.cls is not None:
                return ("object", o.cls.qual)
            return (o.kind,) + tuple((str(k), picture(it, x, d + 1)) for k, x in o.d.items())
        if isinstance(o.d, list):
            return ("seq",) + tuple(picture(it, x, d + 1) for x in o.d)
        return o.kind
    if isinstance(v, (bool, str, int, float, type(None))):
        return repr(v)
    if isinstance(v, (Opq, Phi)):
        return ("unknown", repr(v)[:80])
    return type(v).__name__


def unknown(p):
    return isinstance(p, tuple) and ((p and p[0] == "unknown") or any(unknown(x) for x in p))


def equal(x, y):
    """the same up to identities of numbers"""
    if x == y:
        return True
    if not (isinstance(x, tuple) and isinstance(y, tuple)) or len(x) != len(y) or not x or x[0] != y[0]:
        return False
    if x[0] == "num":
        if x[1] != y[1]:
            return False
        d = decide.zero(T(tuple(P(1) for _ in x[1]), x[2] - y[2]))
        return bool(d[0])
    return all(equal(a, b) for a, b in zip(x[1:], y[1:]))


class Log:
    def __init__(self, it):
        self.it, self.out = it, []

    def put(self, name, f):
        it = self.it
        it.raised.clear()
        it.dead = False
        v = f()
        # what an old release of a library lacks is no difference between the backends
        r = sorted({x[1].name for x in it.raised if "__version__" not in str(x[0])})
        if it.dead:
            self.out.append((name, ("raises",) + tuple(r)))
        else:
            if r:
                self.out.append((name + " may raise", tuple(r)))
            self.out.append((name, picture(it, v)))
        it.dead = False
        it.raised.clear()


# ---------------------------------------------------------------- scenarios
def s_lattice(b, arg):
    two, tr, given = arg
    c = Ctx(b)
    kw = {"truncation": tr}
    if given:
        kw["harmonics_array"] = T((P(2), nh()), tens("H", P(2), nh()).p, dt="i", kind="arr")
        declare("H", real=True, integer=True)
    l = c.lattice(two, **kw)
    lg = Log(c.it)
    at = lambda n: (lambda: c.attr(l, n))
    for n in ("is_1D", "basis_vectors", "discretization", "truncation", "matrix", "reciprocal", "area", "unit_grid", "grid"):
        try:
            lg.put(n, at(n))
        except AnalysisError as e:
            lg.out.append((n, ("unknown", str(e))))
    lg.put("ones", lambda: c.meth(l, "ones"))
    lg.put("zeros", lambda: c.meth(l, "zeros"))
    lg.put("constant", lambda: c.meth(l, "constant", sym("e", "complex")))
    lg.put("transform", lambda: c.meth(l, "transform", arr("g", P(2), atom("N1"), atom("N2"))))
    if given:
        lg.put("get_harmonics", lambda: c.meth(l, "get_harmonics", 9))
    return c, lg


def s_orders(b, arg):
    two, tr, n = arg
    c = Ctx(b)
    L = c.it.get("nannos.lattice.Lattice")
    l = c.run(L, ((1.0, 0.0), (0.25, 1.0)) if two else 1.0, (8, 8) if two else 8, truncation=tr)
    lg = Log(c.it)
    lg.put("get_harmonics", lambda: c.meth(l, "get_harmonics", n))
    lg.put("get_harmonics sorted", lambda: c.meth(l, "get_harmonics", n, sort=True))
    return c, lg


def s_wave(b, arg):
    c = Ctx(b)
    pw = c.plane_wave()
    lg = Log(c.it)
    for n in ("wavelength", "angles_deg", "angles", "wavevector", "wavenumber", "amplitude", "frequency_scaled", "a0"):
        lg.put(n, lambda: c.attr(pw, n))
    return c, lg


def s_layer(b, arg):
    c = Ctx(b)
    lat = c.lattice(True)
    lg = Log(c.it)
    for k in "upa":
        for mu in "up":
            l = c.layer(lat, "A" + k + mu, k, mu=c.eps("mu" + mu, mu)) if mu != "u" else c.layer(lat, "A" + k + mu, k)
            for n in ("epsilon", "mu", "thickness", "is_uniform", "is_epsilon_anisotropic", "is_mu_anisotropic", "is_epsilon_uniform", "is_mu_uniform", "name", "iscopy"):
                lg.put(f"{k}{mu}.{n}", lambda: c.attr(l, n))
    return c, lg


def s_fft(b, arg):
    fn, s, axes, rank = arg
    c = Ctx(b)
    dims = [atom(f"N{i + 1}") for i in range(rank)]
    for i in range(rank):
        declare(f"N{i + 1}", pos=True, integer=True, lb=4)
    a, k = [arr("u", *dims)], {}
    if s:
        declare("S1", pos=True, integer=True, lb=4)
        declare("S2", pos=True, integer=True, lb=4)
        k["s"] = Tup([T((), atom("S1"), kind="int"), T((), atom("S2"), kind="int")]) if s == "sym" else s
    if axes is not None:
        k["axes"] = axes
    lg = Log(c.it)
    lg.put(f"{fn}", lambda: c.run("nannos.formulations.fft." + fn, *a, **k))
    return c, lg


def s_help(b, arg):
    c = Ctx(b)
    it = c.it
    n = nh()
    lg = Log(it)
    H = "nannos.utils.helpers."
    M = arr("M", n + n, n + n)
    B = [[arr(f"B{i}{j}", n, n) for j in range(2)] for i in range(2)]
    N = T((), n, kind="int")
    bl = lambda: it.new_list([it.new_list(r) for r in B])
    lg.put("block", lambda: c.run(H + "block", bl()))
    lg.put("get_block", lambda: c.run(H + "get_block", M, 1, 0, N))
    lg.put("blockmatmul", lambda: c.run(H + "blockmatmul", M, arr("M2", n + n, n + n), N))
    lg.put("block2list", lambda: c.run(H + "block2list", M, N))
    lg.put("inv2by2block", lambda: c.run(H + "inv2by2block", M, N))
    lg.put("norm", lambda: c.run(H + "norm", arr("V", P(2), atom("N1"), atom("N2"))))
    lg.put("set_index", lambda: c.run(H + "set_index", arr("W", n, n, n), it.new_list([num(1), num(2)]), arr("w", n)))
    x = T((atom("N1"), atom("N2")), tens("x", atom("N1"), atom("N2")).p, dt="f64", kind="arr")
    lg.put("_apply_filter", lambda: c.run(H + "_apply_filter", x, sym("rf", pos=True)))
    lg.put("_apply_filter pair", lambda: c.run(H + "_apply_filter", x, (sym("rf", pos=True), sym("rg", pos=True))))
    lg.put("_apply_filter vectors", lambda: c.run(H + "_apply_filter", x, sym("rf", pos=True), tuple(tuple(sym(f"{p}{q}", real=True) for q in "xy") for p in "uv")))
    lg.put("is_scalar", lambda: c.run(H + "is_scalar", sym("e", "complex")))
    for k in "upa":
        lg.put("is_anisotropic " + k, lambda: c.run(H + "is_anisotropic", c.eps("h", k)))
        lg.put("is_uniform " + k, lambda: c.run(H + "is_uniform", c.eps("h", k)))
    return c, lg


def s_opt(b, arg):
    c = Ctx(b)
    it = c.it
    lg = Log(it)
    O = "nannos.optimize."
    x = T((atom("N1"), atom("N2")), tens("x", atom("N1"), atom("N2")).p, dt="f64", kind="arr")
    F = lambda n: sym(n, real=True)
    for nm, y in (("array", x), ("scalar", F("y"))):
        lg.put("simp " + nm, lambda: c.run(O + "simp", y, F("ea"), F("eb"), F("p")))
        lg.put("project " + nm, lambda: c.run(O + "project", y, F("beta"), F("thres")))
        lg.put("multi_project " + nm, lambda: c.run(O + "multi_project", y, F("beta"), 3))
        lg.put("multi_simp " + nm, lambda: c.run(O + "multi_simp", y, it.new_list([F("ea"), F("eb"), F("ec")]), F("p")))
    return c, lg


def s_jones(b, arg):
    c = Ctx(b)
    lg = Log(c.it)
    t = arr("t", P(2), atom("N1"), atom("N2"))
    lg.put("get_jones_field", lambda: c.run("nannos.formulations.jones.get_jones_field", t))
    return c, lg


def s_index(b, arg):
    c = Ctx(b)
    it = c.it
    lg = Log(it)
    n = nh()
    for i, j in ((1, 3), (None, 2)):
        lg.put(f"set_index_2d {i},{j}", lambda: c.run("nannos.geometry.set_index_2d", arr("W", n, n), arr("w", P(2), P(2)), (i, j), (0, 2)))
    return c, lg


def s_eig(b, arg):
    c = Ctx(b)
    lat = c.lattice(True)
    l = c.layer(lat, "A", "p")
    lg = Log(c.it)
    m = arr("M", nh() + nh(), nh() + nh())
    lg.put("solve_eigenproblem", lambda: c.meth(l, "solve_eigenproblem", m))
    lg.put("eigenvalues", lambda: c.attr(l, "eigenvalues"))
    cp = c.meth(l, "copy")
    lg.put("solve_eigenproblem of a copy", lambda: c.meth(cp, "solve_eigenproblem", m))
    u = c.layer(lat, "B", "u")
    lg.put("solve_uniform", lambda: c.meth(u, "solve_uniform", sym("omega", pos=True), arr("kx", nh()), arr("ky", nh()), T((), nh(), kind="int")))
    lg.put("plan", lambda: c.attr(u, "eigenvectors"))
    return c, lg


def s_tangent(b, arg):
    c = Ctx(b)
    lg = Log(c.it)
    g = T((P(6), P(6)), tens("e", P(6), P(6)).p, dt="f64", kind="arr")
    H = "nannos.formulations.tangent."
    lg.put("_get_tangent_field_fft", lambda: c.run(H + "_get_tangent_field_fft", g, arg))
    x, y = arr("x", P(6), P(6)), arr("y", P(6), P(6))
    lg.put("_ft_filt", lambda: c.run(H + "_ft_filt", x, 0.5))
    lg.put("_normalize", lambda: c.run(H + "_normalize", x, y))
    return c, lg


def s_sim(b, arg, shared):
    two, form, kinds = arg
    c = SimCtx(b, two, form, kinds, cut=("kx", "ky", "omega", "a0"), modes=True)
    it = c.it
    it.lets, it.letdefs = shared
    q = "nannos._array"

    def plain(it, f, a, k, node):
        """the conversion of one library is a function of the package: its locals get no names"""
        old, it.lets = it.lets, None
        st = it.stubs.pop(q)
        try:
            return it.call(f, a, k, node)
        finally:
            it.lets = old
            it.stubs[q] = st
    it.stubs[q] = plain
    it.stubs["nannos.layers.Layer.get_jones_field"] = lambda it, f, a, k, n: tens("jj", P(2), atom("N1"), atom("N2") if two else P(1))
    lg = Log(it)
    for a in ("kx", "ky", "omega", "a0", "nh", "harmonics"):
        lg.put(a, lambda: it.defs.get(a) if isinstance(it.defs.get(a), T) else c.S(a))
    lg.put("solve", lambda: solve(c))
    for i, k in enumerate(kinds):
        for a in ("eigenvalues", "eigenvectors", "Qeps", "matrix", "eps_hat", "Keps", "Peps"):
            if a in it.h(c.layers[i]).d if isinstance(it.h(c.layers[i]).d, dict) else False:
                lg.put(f"layer {i} {a}", lambda: c.layer_attr(i, a))
        for a, v in list(it.defs.items()):
            if a.endswith("_" + c.names[i]):
                lg.put(f"layer {i} {a}", lambda: v)
    z = [sym("z", real=True), sym("z2", real=True)]
    last = len(kinds) - 1
    N = T((), atom("N1"), kind="int")
    for m, a, k in (("get_S_matrix", (), {}), ("get_S_matrix", ([0, 1],), {}), ("diffraction_efficiencies", (), {}),
                    ("diffraction_efficiencies", (), {"orders": True}), ("diffraction_efficiencies", (), {"orders": True, "complex": True}),
                    ("get_field_fourier", (1, z), {}), ("get_field_fourier", (0,), {}), ("get_field_grid", (1, z[0]), {}),
                    ("get_field_grid", (last, z[0]), {"field": "E", "component": "y", "shape": (8, 6)}),
                    ("get_field_grid", (last, z[0]), {"component": "z"}),
                    ("get_z_stress_tensor_integral", (0,), {}), ("get_z_poynting_flux", "amp", {}), 
                    ("get_epsilon", (1,), {}), ("get_epsilon", (0,), {}),
                    ("get_ifft", (arr("uu", nh()), (8, 6)), {})):
        if a == "amp":
            n2 = nh() + nh()
            a = (c.layers[0], arr("an", n2), arr("bn", n2))
        nm = f"{m}({', '.join(str(x) if isinstance(x, (int, str, list, tuple)) and not m.startswith(('get_field', 'get_ifft', 'get_z_p')) else '.' for x in a)}{', ' if k else ''}{', '.join(k)})"
        try:
            lg.put(nm, lambda: c.meth(c.sim, m, *a, **k))
        except AnalysisError as e:
            lg.out.append((nm, ("unknown", str(e))))
    return c, lg


def same_by(rep, item):
    kind, arg = item
    shared = ({}, {})
    ref = None
    for b in BACKENDS:
        f = globals()["s_" + kind]
        c, lg = f(b, arg, shared) if kind == "sim" else f(b, arg)
        con = f"{kind} {arg}" if arg != () else kind
        rep.used(c.it, f"{b}/{con}")
        if ref is None:
            ref = lg
            continue
        names = [n for n, _ in ref.out]
        d = dict(lg.out)
        dr = dict(ref.out)
        for n in names + [n for n, _ in lg.out if n not in dr]:
            x, y = dr.get(n), d.get(n)
            where = f"{b} {con} {n}"
            if x == y or equal(x, y):
                if unknown(x):
                    rep.unknown("same-computation", where, f"value not modelled: {x}"[:200])
                else:
                    rep.ok("same-computation", where)
            elif unknown(x) or unknown(y):
                rep.unknown("same-computation", where, f"value not modelled: {x if unknown(x) else y}"[:300])
            else:
                rep.bad("same-computation", where, f"{show(y)} on {b}, {show(x)} on numpy")


def show(x):
    if isinstance(x, tuple) and x and x[0] == "num":
        return f"array of shape {x[1]}: {A.show(x[2])[:200]}"
    return str(x)[:200]


WORDS = ("get_backend", "BACKEND", "_TORCH", "_JAX", "_AUTOGRAD", "_SCIPY", "HAS_TORCH", "HAS_JAX", "hasattr", "isinstance")


def uses(tree):
    """(function, line, name) of every use of the selected library outside code for one library"""
    al, flags = set(), set(WORDS)
    for n in ast.walk(tree):
        if isinstance(n, (ast.ImportFrom, ast.Import)):
            for x in n.names:
                if x.name == "backend":
                    al.add(x.asname or x.name)
        if isinstance(n, ast.Assign) and any(w in ast.unparse(n.value) for w in WORDS):
            flags |= {t.id for t in n.targets if isinstance(t, ast.Name)}

    def names(n):
        return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)} | {x.attr for x in ast.walk(n) if isinstance(x, ast.Attribute)}

    def guarded(test):
        """a condition on which library is selected"""
        return bool(names(test) & flags)
    out, called = [], {}

    def body(stmts, fn, on):
        for x in stmts:
            go(x, fn, on)
            if isinstance(x, ast.If) and guarded(x.test) and x.body and isinstance(x.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                on = False

    def go(n, fn, on):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn = (fn + "." if fn else "") + n.name
            body(n.body, fn, True if not isinstance(n, ast.Lambda) and not fn.count(".") else on)
            for d in list(n.decorator_list) + (n.args.defaults + [x for x in n.args.kw_defaults if x] if isinstance(n, ast.FunctionDef) else []):
                go(d, fn, on)
            return
        if isinstance(n, (ast.If, ast.IfExp)) and guarded(n.test):
            on = False
        if isinstance(n, ast.Try):
            on = False
        if isinstance(n, ast.Attribute):
            s = ast.unparse(n)
            p = s.split(".")
            if p[0] in al and all(x.isidentifier() for x in p):
                out.append((fn, n.lineno, p[1:], on))
                return
        if isinstance(n, ast.Name):
            called.setdefault(n.id, set()).add(on)
        for f, v in ast.iter_fields(n):
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                body(v, fn, on)
            elif isinstance(v, list):
                for c in v:
                    if isinstance(c, ast.AST):
                        go(c, fn, on)
            elif isinstance(v, ast.AST):
                go(v, fn, on)
    body(tree.body, "", True)
    # functions that only code for one library refers to
    special = {k for k, v in called.items() if v == {False}}
    return [(fn, l, p, on and not any(q in special for q in fn.split("."))) for fn, l, p, on in out]


def made_names(tree):
    """names the package itself puts into a library"""
    out = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Attribute):
                    s = ast.unparse(t)
                    for pre, lib in (("jax.numpy.", "jax"), ("backend.", "torch"), ("torch.", "torch")):
                        if s.startswith(pre):
                            out.setdefault(lib, set()).add(s[len(pre):])
    return out


def scan(rep):
    """every name of the selected library that is used exists in each library"""
    tab = json.load(open(os.path.join(os.path.dirname(os.path.dirname(__file__)), "libnames.json")))
    tab = {k: set(v) for k, v in tab.items()}
    prog = program()
    for m, tree in ((k, v[0]) for k, v in prog.modules.items()):
        for lib, ns in made_names(tree).items():
            tab[lib] |= ns
    for m, tree in ((k, v[0]) for k, v in prog.modules.items()):
        by = {}
        for fn, line, path, on in uses(tree):
            if not on:
                continue
            nm = ".".join(path[:2]) if path[0] in ("linalg", "fft", "random") and len(path) > 1 else path[0]
            by.setdefault((fn, nm), line)
        for (fn, nm), line in sorted(by.items(), key=str):
            miss = [k for k in tab if nm not in tab[k]]
            rep.check(not miss, "name-exists", f"{m} {fn or '(module)'} {nm}", f"line {line}: {', '.join(miss)} has no {nm}")


def jobs(quick):
    out = [("wave", ()), ("layer", ()), ("help", ()), ("opt", ()), ("jones", ()), ("index", ()), ("eig", ()), ("tangent", True), ("tangent", False)]
    for given in (False, True):
        out += [("lattice", (True, "circular", given)), ("lattice", (False, "circular", given))]
    out += [("orders", (True, "parallelogrammic", n)) for n in (1, 4, 9, 13, 25)] + [("orders", (False, "circular", n)) for n in (1, 4, 5)]
    for fn in ("fourier_transform", "inverse_fourier_transform"):
        for rank in (2, 3):
            for s in (None, "sym"):
                for axes in (None, (0, 1), (-2, -1)):
                    out.append(("fft", (fn, s, axes, rank)))
    for a in ((True, "original", "upu"), (True, "original", "uau"), (True, "tangent", "upu"), (True, "jones", "upu"), (True, "pol", "upu"),
              (False, "original", "upu"), (False, "tangent", "upu"), (True, "tangent", "uau")):
        out.append(("sim", a))
    return out


def c14(rep):
    scan(rep)
    rep.fan(same_by, jobs(rep.tier == "quick"), 8)


LEVEL = {"C14": "Value numbers of every public result, one library against another"}
