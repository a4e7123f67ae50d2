"""C10, C11, C12: what queries, resets and copies do to the state of the objects."""
from .. import algebra as A
from ..algebra import *
from ..values import *
from ..ctx import sym, Ctx
from ..phys import *
from ..phys import SimCtx, parts, nh, mm
from .fields import set_S

SIM = "nannos.simulation.Simulation."


def deep(it, v, st=None, seen=None):
    """structural key of a value: objects are described by their content"""
    seen = seen or {}
    heap = (st or it.st).heap
    if isinstance(v, Ref):
        if v.id in seen:
            return f"<cycle {seen[v.id]}>"
        o = heap.get(v.id)
        if o is None:
            return f"<gone {v.id}>"
        s2 = {**seen, v.id: len(seen)}
        if o.kind == "module" or o.kind == "frame":
            return f"<{o.kind} {o.name}>"
        if isinstance(o.d, dict):
            return o.kind + (o.cls.name if o.cls else "") + "{" + ",".join(
                f"{vkey(k)}:{deep(it, x, st, s2)}" for k, x in o.d.items()) + "}"
        if isinstance(o.d, list):
            return "[" + ",".join(deep(it, x, st, s2) for x in o.d) + "]"
        return vkey(o.d)
    if isinstance(v, Tup):
        return "(" + ",".join(deep(it, x, st, seen) for x in v.items) + ")"
    if isinstance(v, Phi):
        return f"({v.c.key} ? {deep(it, v.a, st, seen)} : {deep(it, v.b, st, seen)})"
    if isinstance(v, Bound):
        return f"bound({vkey(v.func)},{deep(it, v.self_, st, seen)})"
    if isinstance(v, T):
        return "T" + ",".join(P(d).key for d in v.shape) + ":" + v.p.key
    return vkey(v)


def reach(heap, roots):
    """identities of the objects reachable from the roots"""
    out, todo = set(), list(roots)
    while todo:
        v = todo.pop()
        if isinstance(v, Ref):
            if v.id in out or v.id not in heap:
                continue
            o = heap[v.id]
            if o.kind in ("module", "frame"):
                continue
            out.add(v.id)
            todo += list(o.d.values()) if isinstance(o.d, dict) else list(o.d) if isinstance(o.d, (list, tuple)) else []
        elif isinstance(v, Tup):
            todo += list(v.items)
        elif isinstance(v, Phi):
            todo += [v.a, v.b]
        elif isinstance(v, Bound):
            todo.append(v.self_)
    return out


def arrays(heap, ids, roots=()):
    out = {}
    todo = [x for i in ids for x in (heap[i].d.values() if isinstance(heap[i].d, dict) else heap[i].d if isinstance(heap[i].d, list) else [])]
    todo += list(roots)
    while todo:
        v = todo.pop()
        if isinstance(v, T) and v.rank:
            n = 0
            while v.st is not None and isinstance(v.st, T) and n < 50:
                out[id(v)] = v
                v = v.st
                n += 1
            out[id(v)] = v
        elif isinstance(v, Tup):
            todo += list(v.items)
    return out


class Purity:
    """what one call changed in the objects that existed before it"""

    def __init__(self, c, roots):
        self.c, self.roots = c, roots

    def run(self, name, *a, obj=None, keep=(), **k):
        """returns (value, list of changes)"""
        c, it = self.c, self.c.it
        args = [c.lift(x) for x in a]
        kw = {q: c.lift(x) for q, x in k.items()}
        roots = list(self.roots) + list(keep) + args + list(kw.values())
        before = dict(it.st.heap)
        ids = reach(before, roots)
        arrs = arrays(before, ids, roots)
        solved = it.getattr(c.sim, "is_solved") is True if getattr(c, "sim", None) is not None else True
        n0 = len(it.events)
        f = name if not isinstance(name, str) else it.getattr(obj if obj is not None else c.sim, name)
        v = it.run(f, *args, **kw)
        dead = it.dead
        out = []
        heap = it.st.heap
        for i in sorted(ids):
            o, n = before[i], heap.get(i)
            if n is None or n is o:
                continue
            out += self.changes(i, o, n, solved, before, heap)
        for e in it.events[n0:]:
            if e.kind == "array_write":
                for t in (e.target, e.storage):
                    if id(t) in arrs:
                        out.append(f"an array that existed before the call is written in {e.func}, line {e.line}")
                        break
        if any(e.kind in ("opaque_write",) for e in it.events[n0:]):
            e = [e for e in it.events[n0:] if e.kind == "opaque_write"][0]
            if not isinstance(e.obj, (Opq, Ext)):
                out.append(f"?write to {e.obj!r} in {e.func}")
        return v, out, dead

    def changes(self, i, o, n, solved, before, heap):
        c, it = self.c, self.c.it
        nm = (o.cls.name if o.cls else o.kind)
        if isinstance(o.d, list):
            if i in self.caches and isinstance(n.d, list) and [vkey(x) for x in n.d[:len(o.d)]] == [vkey(x) for x in o.d]:
                return []
            if [vkey(x) for x in o.d] == [vkey(x) for x in (n.d if isinstance(n.d, list) else [UNDEF])]:
                return []
            return [f"a list is modified: {o.d!r} becomes {n.d!r}"[:200]]
        if not isinstance(o.d, dict):
            return [] if vkey(o.d) == vkey(n.d) else [f"{nm} is modified"]
        out = []
        S0, S1 = State_(before), State_(heap)
        for k, x in o.d.items():
            y = n.d.get(k, UNDEF)
            if y is x or vkey(x) == vkey(y):
                continue
            if nm == "Simulation" and not solved and isinstance(k, str):
                if k == "is_solved" and y is True:
                    continue
            if o.kind == "obj" and isinstance(x, Ref) and isinstance(y, Ref):
                if deep(it, x, S1) == deep(it, y, S1) or [vkey(q) for q in listof(before, x)] == [vkey(q) for q in listof(heap, y)]:
                    continue
                if not listof(before, x):
                    continue      # an empty container filled
            if o.kind == "obj" and x is False and y is True and not solved:
                continue
            what = f"key {k!r} of a dictionary" if o.kind == "dict" else f"{nm}.{k}"
            out.append(f"{what} changes from {shortv(x)} to {shortv(y)}")
        if o.kind == "dict" and i not in self.caches:
            new = [k for k in n.d if k not in o.d]
            if new:
                out.append(f"a dictionary gets the keys {new}")
        return out


class State_:
    def __init__(self, heap):
        self.heap = heap


def listof(heap, v):
    o = heap.get(v.id)
    if o is None:
        return []
    return o.d if isinstance(o.d, list) else list(o.d.values()) if isinstance(o.d, dict) else [o.d]


def shortv(x):
    s = repr(x)
    return s if len(s) < 80 else s[:77] + "..."


ORDERS = [(-1, 0), (0, 0), (1, 0)]


def sim_ctx(backend, kinds="upa", form="original", **kw):
    c = SimCtx(backend, True, form, kinds, modes=True, orders=ORDERS, cut=("kx", "ky", "omega", "a0"), **kw)
    c.cut_modes(("eps_hat", "Peps"))
    c.it.start_naming()
    return c


def queries(c, L):
    """(label, function of the context returning the value of the request, request)"""
    z, z2 = sym("z", real=True), sym("z2", real=True)
    m1, m2 = (sym(x, "int", integer=True, pos=True) for x in ("m1", "m2"))
    n2 = P(2 * len(ORDERS))
    an, bn = (T((n2,), tens(x, n2).p, kind="arr") for x in ("an", "bn"))
    v = T((P(len(ORDERS)),), tens("va", P(len(ORDERS))).p, kind="arr")
    vv = T((P(2), P(len(ORDERS))), tens("vv", P(2), P(len(ORDERS))).p, kind="arr")
    q = [("get_S_matrix()", "get_S_matrix", (), {})]
    q += [(f"get_S_matrix({[a, b]})", "get_S_matrix", ([a, b],), {}) for a in range(L) for b in range(a + 1, L)]
    for o in (False, True):
        for cx in (False, True):
            for d in ((False, True) if o else (False,)):
                q.append((f"diffraction_efficiencies(orders={o}, complex={cx}, return_dict={d})", "diffraction_efficiencies", (),
                          dict(orders=o, complex=cx, return_dict=d)))
    for i in range(L):
        q += [(f"get_field_fourier({i}, z)", "get_field_fourier", (i, z), {}),
              (f"get_field_fourier({i}, [z1, z2])", "get_field_fourier", (i,), dict(z=[z, z2])),
              (f"get_z_stress_tensor_integral({i})", "get_z_stress_tensor_integral", (i, z), {}),
              (f"get_epsilon({i})", "get_epsilon", (i,), {}),
              (f"get_layer({i})", "get_layer", (i,), {}),
              (f"get_z_poynting_flux(layer {i})", "get_z_poynting_flux", (c.layers[i], an, bn), {})]
    q += [("get_field_grid(1)", "get_field_grid", (1, z), dict(shape=(m1, m2))),
          ("get_Efield_grid(0, x)", "get_Efield_grid", (0,), dict(z=[z, z2], component="x")),
          ("get_Hfield_grid(1)", "get_Hfield_grid", (1,), {}),
          ("get_layer('M1')", "get_layer", ("M1",), {}), ("get_layer_by_name('M2')", "get_layer_by_name", (f"M{L - 1}",), {}),
          ("get_order_index((1, 0))", "get_order_index", ((1, 0),), {}), ("get_order(A, (-1, 0))", "get_order", (v, (-1, 0)), {}),
          ("get_ifft(u)", "get_ifft", (v, (m1, m2)), {}), ("get_ifft_amplitudes(u)", "get_ifft_amplitudes", (vv, (m1, m2)), {})]
    return q


def caches(it, c):
    """containers that are empty once the objects are built"""
    heap = it.st.heap
    return {i for i in reach(heap, [c.sim]) if heap[i].kind in ("dict", "list") and not heap[i].d}


def c10(rep):
    confs = [("numpy", "upa", "original", False), ("numpy", "upa", "original", True), ("torch", "upa", "original", True),
             ("jax", "up", "original", False), ("torch", "up", "original", False)]
    if rep.tier == "thorough":
        confs += [(b, "upa", f, s) for b in ("autograd", "scipy", "jax", "torch") for s in (False, True) for f in ("original", "pol")]

    def purity(rep, item):
        backend, kinds, form, solved = item
        c = sim_ctx(backend, kinds, form)
        it, L = c.it, len(kinds)
        roots = [c.sim, c.lat, c.pw] + c.layers + [c.user_layers]
        p = Purity(c, roots)
        p.caches = caches(it, c)
        if solved:
            c.meth(c.sim, "solve")
            c.need(c.sim, "solve")
        snap = it.st.fork()
        answers, writers, states = {}, [], set()
        for label, nm, a, k in queries(c, L):
            it.st = snap.fork()
            con = f"{label}, {'solved' if solved else 'first use'}, {c.tag}"
            old = dict(it.st.heap)
            v, ch, dead = p.run(nm, *a, **k)
            answers[label] = deep(it, v)
            st = tuple((i, deep(it, Ref(i))) for i, o in sorted(old.items(), key=str) if it.st.heap.get(i) is not o)
            if st and st not in states:
                states.add(st)
                writers.append((label, nm, a, k))
            if dead:
                rep.unknown("query", con, f"raises on every path: {it.raised[-1][1] if it.raised else ''}")
                continue
            rep.check(not ch, "query-writes-nothing", con, "; ".join(ch))
            # the same request again leaves the first answer alone
            if solved:
                keep = it.alloc("list", [v])
                d0 = deep(it, v)
                v2, ch, dead = p.run(nm, *a, keep=[keep], **k)
                rep.check(not ch, "earlier-results-untouched", con, "; ".join(ch))
        # requests that store something (solution, partial matrices): the answer to any other
        # request afterwards is the one it would have had before
        later = {"diffraction_efficiencies(orders=True, complex=False, return_dict=True)", "get_z_poynting_flux(layer 1)",
                 "diffraction_efficiencies(orders=True, complex=True, return_dict=False)", "get_field_fourier(0, z)",
                 "get_field_fourier(1, z)", "get_field_fourier(2, z)", "get_z_stress_tensor_integral(1)", "get_epsilon(1)",
                 "get_field_grid(1)", "get_order_index((1, 0))"}
        if rep.tier == "thorough":
            later = set(answers)
        if solved:
            for l1, n1, a1, k1 in writers:
                it.st = snap.fork()
                c.meth(c.sim, n1, *a1, **k1)
                mid = it.st.fork()
                for label, nm, a, k in queries(c, L):
                    if nm != "get_S_matrix" and label not in later:
                        continue
                    it.st = mid.fork()
                    v = c.meth(c.sim, nm, *a, **k)
                    rep.check(deep(it, v) == answers[label], "later-answers", f"{l1}; {label}, {c.tag}",
                              "the answer differs from the one without the first request")
        rep.used(it, c.tag)
    rep.fan(purity, confs)
    c10_other(rep)


def c10_other(rep):
    """constructors, plots, layer and lattice requests"""
    def other(rep, backend):
        c = sim_ctx(backend, "upu")
        it = c.it
        p = Purity(c, [c.sim, c.lat, c.pw, c.user_layers] + c.layers)
        p.caches = caches(it, c)
        x = T((P(3), P(5)), tens("xx", P(3), P(5)).p, kind="arr")
        arrl = [tens("eps_new", atom("N1"), atom("N2"))]
        eps = T(arrl[0].shape, arrl[0].p, kind="arr")
        grid = T((P(2), atom("N1"), atom("N2")), tens("gr", P(2), atom("N1"), atom("N2")).p, kind="arr")
        lay = c.layers[1]
        Lat, PW, Lay, Sim = (it.get(f"nannos.{m}") for m in ("lattice.Lattice", "excitation.PlaneWave", "layers.Layer", "simulation.Simulation"))
        s = lambda n, **k: sym(n, real=True, **k)
        todo = [("Simulation(...)", Sim, (c.user_layers, c.pw, sym("nh0", "int", integer=True, pos=True)), {}),
                ("Lattice(lists)", Lat, ([[s("ux"), s("uy")], [s("vx"), s("vy")]], [sym("N1", "int", pos=True, integer=True), sym("N2", "int", pos=True, integer=True)]), {}),
                ("Lattice(one period)", Lat, (s("px"), [sym("N1", "int", pos=True, integer=True), sym("N2", "int", pos=True, integer=True)]), {}),
                ("PlaneWave(list of angles)", PW, (sym("lam", pos=True), [s("theta_d"), s("phi_d"), s("psi_d")]), {}),
                ("Layer(array)", Lay, ("new", sym("d_new", nonneg=True), eps), dict(lattice=c.lat)),
                ("Lattice.Layer(array)", it.getattr(c.lat, "Layer"), ("new", sym("d_new", nonneg=True), eps), {}),
                ("Layer.copy()", it.getattr(lay, "copy"), (), {}),
                ("Layer.copy(name)", it.getattr(lay, "copy"), ("other",), {})]
        for at in ("is_uniform", "is_epsilon_uniform", "is_epsilon_anisotropic", "is_mu_uniform", "is_solved"):
            todo.append((f"Layer.{at}", lambda at=at: it.getattr(lay, at), (), {}))
        for at in ("area", "matrix", "reciprocal", "unit_grid", "grid"):
            todo.append((f"Lattice.{at}", lambda at=at: it.getattr(c.lat, at), (), {}))
        todo += [("Lattice.transform(grid)", it.getattr(c.lat, "transform"), (grid,), {}),
                 ("Lattice.ones()", it.getattr(c.lat, "ones"), (), {}), ("Lattice.zeros()", it.getattr(c.lat, "zeros"), (), {}),
                 ("Lattice.constant(v)", it.getattr(c.lat, "constant"), (s("val"),), {})]
        for sh, a in (("circle", ([s("cx"), s("cy")], s("rad"))), ("ellipse", ([s("cx"), s("cy")], [s("r1"), s("r2")])),
                      ("square", ([s("cx"), s("cy")], s("wid"))), ("rectangle", ([s("cx"), s("cy")], [s("w1"), s("w2")])),
                      ("polygon", ([[s("p1"), s("p2")], [s("p3"), s("p4")], [s("p5"), s("p6")]],)), ("stripe", (s("cx"), s("wid")))):
            todo.append((f"Lattice.{sh}", it.getattr(c.lat, sh), a, {}))
        todo += [("Simulation.plot_structure()", it.getattr(c.sim, "plot_structure"), (), {}),
                 ("Layer.plot()", it.getattr(lay, "plot"), (), {})]
        it.rec_default = 0
        snap = it.st.fork()
        for label, f, a, k in todo:
            it.st = snap.fork()
            con = f"{label}, {backend}"
            if not isinstance(f, (Bound, FuncV, ClassV)) and callable(f):
                p0, args = f, ()
                before = dict(it.st.heap)
                n0 = len(it.events)
                f()
                ids = reach(before, p.roots)
                ch = [q for i in ids if it.st.heap[i] is not before[i] for q in p.changes(i, before[i], it.st.heap[i], False, before, it.st.heap)]
                rep.check(not ch, "query-writes-nothing", con, "; ".join(ch))
                continue
            v, ch, dead = p.run(f, *a, **k)
            if dead:
                rep.unknown("query", con, f"raises on every path: {it.raised[-1][1] if it.raised else ''}")
                continue
            rep.check(not ch, "query-writes-nothing", con, "; ".join(ch))
        rep.used(it, c.tag)
    rep.fan(other, ["numpy", "torch"] if rep.tier == "quick" else ["numpy", "torch", "jax", "autograd", "scipy"])


# ---------------------------------------------------------------- C11, C12
def tangent_stub(it):
    """tangent fields: an unknown function of what the routine is given"""
    def st(it, f, a, k, node):
        key = ("tangent", tuple(vkey(x) for x in a), tuple((q, vkey(x)) for q, x in sorted(k.items())))
        eps = a[0] if a else k.get("grid", None)
        sh = eps.shape[-2:] if isinstance(eps, T) else (atom("N1"), atom("N2"))
        t = A.app("tangent_field", key, P(2), *sh)
        return T(t.shape, t.p, kind="arr")
    it.stubs["nannos.formulations.tangent.get_tangent_field"] = st


class World(SimCtx):
    """a stack whose modes are named by their definitions (nothing is cut but the
    wavevectors of the orders, the frequency and the incident amplitudes)"""

    def __init__(self, backend, kinds, form, two_d=True, orders=None):
        super().__init__(backend, two_d, form, kinds, orders=orders, stub_tangent=False,
                         cut=("kx", "ky", "omega", "a0"))
        tangent_stub(self.it)
        self.form = form
        self.it.start_naming()
        self.L = len(kinds)
        self.sim = self.build(self.layers)

    def cut_sim2(self, a):
        """the same quantity of another simulation"""
        declare("omega_2", pos=True)

        def f(it, v, obj):
            if not isinstance(v, T):
                return None
            if v.rank == 0:
                return T((), atom(a + "_2"), dt=v.dt, kind=v.kind)
            t = tens(a + "_2", *v.shape)
            return T(t.shape, t.p, dt=v.dt, kind="arr")
        self.it.cuts[("Simulation", a)] = f

    def build(self, layers, form=None):
        s = self.run("nannos.simulation.Simulation", self.lift(list(layers)), self.pw,
                     sym("nh0", "int", integer=True, pos=True), form or self.form)
        self.need(s, "Simulation")
        return s

    def fresh_layer(self, name, thick, eps):
        l = self.meth(self.lat, "Layer", name, thick, eps)
        self.need(l, "Lattice.Layer")
        return l

    def queries(self, only=None):
        z, z2 = sym("z", real=True), sym("z2", real=True)
        L = self.L
        q = [("get_S_matrix()", "get_S_matrix", (), {})]
        q += [(f"get_S_matrix({[a, b]})", "get_S_matrix", ([a, b],), {}) for a in range(L) for b in range(a + 1, L)]
        q += [("efficiencies", "diffraction_efficiencies", (), {}),
              ("efficiencies(orders)", "diffraction_efficiencies", (), dict(orders=True)),
              ("efficiencies(orders, complex)", "diffraction_efficiencies", (), dict(orders=True, complex=True))]
        for i in range(L):
            q += [(f"get_field_fourier({i})", "get_field_fourier", (i,), dict(z=[z, z2])),
                  (f"get_z_stress_tensor_integral({i})", "get_z_stress_tensor_integral", (i, z), {}),
                  (f"get_epsilon({i})", "get_epsilon", (i,), {})]
        i = L - 1
        q += [("get_field_grid(1, E)", "get_field_grid", (1, z), dict(field="E", component="x"))]
        n2 = self.n + self.n
        an, bn = (T((n2,), tens(x, n2).p, kind="arr") for x in ("an", "bn"))
        self.flux_args = (an, bn)
        q += [(f"get_z_poynting_flux(layer {i})", "get_z_poynting_flux", (i, an, bn), {}) for i in range(L)]
        return q

    def ask(self, sim, q):
        label, nm, a, k = q
        if nm == "get_z_poynting_flux":
            a = (self.it.getitem(self.it.getattr(sim, "layers"), num(a[0])),) + tuple(a[1:])
        v = self.meth(sim, nm, *a, **k)
        return v, self.it.dead


def c11(rep):
    confs = [("numpy", "upu", "original"), ("torch", "uap", "original"), ("numpy", "upu", "pol"), ("jax", "uuu", "original")]
    if rep.tier == "thorough":
        confs += [(b, k, f) for b in ("scipy", "autograd", "jax", "torch", "numpy") for k in ("upu", "uap", "uppu")
                  for f in ("original", "tangent", "pol", "jones")]

    def one(rep, item):
        (backend, kinds, form), part = item
        w = World(backend, kinds, form)
        it, L = w.it, len(kinds)
        Q = w.queries()
        snap = it.st.fork()

        def answers(prep, what, layers=None, qs=Q):
            """label -> key of the answer, each asked on its own after `prep`"""
            it.st = snap.fork()
            it.ncalls = 0
            sim = prep()
            mid = it.st.fork()
            out = {}
            for q in qs:
                it.st = mid.fork()
                v, dead = w.ask(sim, q)
                if dead:
                    r = it.raised[-1][1] if it.raised else ""
                    rep.bad("answered", f"{q[0]} after {what}, {w.tag}", f"raises on every path: {r}")
                    continue
                out[q[0]] = deep(it, v)
            return out

        def fresh(changes=(), solve=True):
            def prep():
                ls = []
                for i, nm in enumerate(w.names):
                    th, eps = w.attr(w.layers[i], "thickness"), it.getattr(w.layers[i], "epsilon")
                    for (j, a, v) in changes:
                        if j == i:
                            th, eps = (v, eps) if a == "thickness" else (th, v)
                    ls.append(w.fresh_layer(nm, th, eps))
                s = w.build(ls)
                if solve:
                    w.meth(s, "solve")
                return s
            return prep

        ref = answers(fresh(), "solve")
        unsolved = answers(fresh(solve=False), "nothing") if part == 0 else {}
        for k, v in ref.items():
            if k in unsolved:
                rep.check(unsolved[k] == v, "solved-on-demand", f"{k} as the first request, {w.tag}",
                          "the answer differs from the one after solve()")

        def changed(changes, history, resets):
            def prep():
                s = w.sim
                if history == "all":
                    for q in Q:
                        w.ask(s, q)
                elif history == "solve":
                    w.meth(s, "solve")
                elif history == "S":
                    w.meth(s, "get_S_matrix")
                for (i, a, v) in changes:
                    it.setattr(w.layers[i], a, v, None)
                for r in resets:
                    if isinstance(r, tuple):
                        w.meth(w.layers[r[0]], "reset", *r[1:])
                    else:
                        w.meth(s, "reset", *([r] if r else []))
                    w.need(s, f"reset({r!r})")
                return s
            return prep

        new = {i: (sym(f"dn_{i}", nonneg=True), w.eps(f"new{i}", kinds[i])) for i in range(1, L)}
        new = {i: (d, T(e.shape, e.p, kind="arr" if e.rank else "complex")) for i, (d, e) in new.items()}
        cases = []
        thorough = rep.tier == "thorough"
        few = Q if thorough else [q for q in Q if q[1] in ("get_S_matrix", "get_field_fourier", "get_z_poynting_flux", "get_epsilon")
                                  and "[0, 1]" not in q[0] and "1, 2" not in q[0] or q[0] in (
                                  "efficiencies(orders)", "efficiencies(orders, complex)", "get_z_stress_tensor_integral(1)")]
        for hist in ("all", "solve", "S", "none") if thorough else ("all", "none"):
            cases.append((f"{hist}; reset()", (), hist, [None]))
            cases.append((f"{hist}; reset('all')", (), hist, ["all"]))
            cases.append((f"{hist}; reset('S')", (), hist, ["S"]))
            cases.append((f"{hist}; reset('solve')", (), hist, ["solve"]))
        for i in range(1, L):
            ch = [(i, "thickness", new[i][0])]
            for hist in ("all", "S") if thorough else ("all",):
                for r in ("S", "solve", None):
                    cases.append((f"{hist}; layer {i} thickness changed; reset({r!r})", ch, hist, [r]))
            ch = [(i, "epsilon", new[i][1])]
            for hist in ("all", "S") if thorough else ("all",):
                for r in (["solve"], [None], [(i,), "all"], [(i, "eig"), (i, "matrix"), "solve"]):
                    cases.append((f"{hist}; layer {i} epsilon changed; reset {r}", ch, hist, r))
            ch = [(i, "epsilon", new[i][1]), (i, "thickness", new[i][0])]
            cases.append((f"all; layer {i} epsilon and thickness changed; reset()", ch, "all", [None]))
        refs = {}
        for what, ch, hist, rs in cases[part::2]:
            ck = tuple((i, a, vkey(v)) for i, a, v in ch)
            if ck not in refs:
                refs[ck] = answers(fresh(ch), "solve", qs=few) if ch else ref
            got = answers(changed(ch, hist, rs), what, qs=few)
            for k, v in got.items():
                if k in refs[ck]:
                    rep.check(v == refs[ck][k], "recomputed", f"{what}; {k}, {w.tag}",
                              "the answer is not the one of a new simulation with these layers")
        # several rounds: change, reset, ask, change back, reset
        it.st = snap.fork()
        rep.used(it, w.tag)
    rep.fan(one, [(c, p) for c in confs for p in (0, 1)], width=8)


def c12(rep):
    confs = [("numpy", "original"), ("torch", "original"), ("numpy", "pol"), ("jax", "tangent")]
    if rep.tier == "thorough":
        confs = [(b, f) for b in ("numpy", "scipy", "autograd", "jax", "torch") for f in ("original", "tangent", "pol", "jones")]

    def stacks(w, kind):
        """name -> function building (layers of the stack, description of every layer)"""
        it = w.it
        run_copy = lambda l, nm=None: w.meth(l, "copy", *([nm] if nm else []))
        lay = lambda nm, d, e: w.fresh_layer(nm, d, e)
        d0, d1, d2, d3 = (sym(f"d_{i}", nonneg=True) for i in range(4))
        u0, u1 = w.eps("top", "u"), w.eps("bot", "u")
        p, p2 = (w.eps(t, kind) for t in ("pat", "pat2"))
        p, p2 = (T(e.shape, e.p, kind="arr" if e.rank else "complex") for e in (p, p2))

        def ends():
            return lay("top", d0, u0), lay("bot", d3, u1)

        def thick(l, d):
            it.setattr(l, "thickness", d, None)
            return l

        def other_use(l):
            """the layer was used in another simulation before, with another plane wave"""
            a, b = lay("oa", d0, u1), lay("ob", d3, u0)
            PW = it.get("nannos.excitation.PlaneWave")
            pw = w.run(PW, sym("lam2", pos=True), tuple(sym(x, real=True) for x in ("th2", "ph2", "ps2")))
            cuts = dict(it.cuts)
            for at in ("kx", "ky", "omega", "a0"):
                it.cuts.pop(("Simulation", at), None)
            for at in ("kx", "ky", "omega", "a0"):
                w.cut_sim2(at)
            s = w.run("nannos.simulation.Simulation", it.alloc("list", [a, l, b]), pw, sym("nh0", "int", integer=True, pos=True), w.form)
            w.meth(s, "solve")
            w.meth(s, "get_S_matrix")
            it.cuts.clear()
            it.cuts.update(cuts)

        def s1():
            a, b = ends()
            o = lay("M", d1, p)
            c = thick(run_copy(o), d2)
            return [a, o, c, b], [("top", d0, u0), ("M", d1, p), ("M (copy)", d2, p), ("bot", d3, u1)]

        def s2():
            a, b = ends()
            o = lay("M", d1, p)
            c = thick(run_copy(o, "C"), d2)
            return [a, c, o, b], [("top", d0, u0), ("C", d2, p), ("M", d1, p), ("bot", d3, u1)]

        def s3():
            a, b = ends()
            c = run_copy(lay("M", d1, p), "C")
            return [a, c, b], [("top", d0, u0), ("C", d1, p), ("bot", d3, u1)]

        def s4():
            a, b = ends()
            o = lay("M", d1, p)
            c = run_copy(o, "C")
            e = thick(run_copy(c, "E"), d2)
            return [a, e, c, b], [("top", d0, u0), ("E", d2, p), ("C", d1, p), ("bot", d3, u1)]

        def s5():
            a, b = ends()
            return [a, b, thick(run_copy(a), d1), thick(run_copy(b, "end"), d2)], [
                ("top", d0, u0), ("bot", d3, u1), ("top (copy)", d1, u0), ("end", d2, u1)]

        def s6():
            a, b = ends()
            o = lay("M", d1, p)
            other_use(o)
            c = thick(run_copy(o, "C"), d2)
            return [a, c, o, b], [("top", d0, u0), ("C", d2, p), ("M", d1, p), ("bot", d3, u1)]

        def s7():
            a, b = ends()
            o = lay("M", d1, p)
            c = thick(run_copy(o, "C"), d2)
            other_use(o)
            return [a, c, b], [("top", d0, u0), ("C", d2, p), ("bot", d3, u1)]

        def s8():
            a, b = ends()
            o = lay("M", d1, p)
            c = thick(run_copy(o, "C"), d2)
            it.setattr(o, "epsilon", p2, None)
            return [a, o, c, b], [("top", d0, u0), ("M", d1, p2), ("C", d2, p), ("bot", d3, u1)]

        def s9():
            a, b = ends()
            o = lay("M", d1, p)
            c = thick(run_copy(o, "C"), d2)
            it.setattr(c, "epsilon", p2, None)
            return [a, o, c, b], [("top", d0, u0), ("M", d1, p), ("C", d2, p2), ("bot", d3, u1)]

        def s10():
            a, b = ends()
            o = lay("M", d1, p)
            c, e = run_copy(o, "C"), thick(run_copy(o, "E"), d2)
            other_use(c)
            return [a, e, c, o, b], [("top", d0, u0), ("E", d2, p), ("C", d1, p), ("M", d1, p), ("bot", d3, u1)]

        def s11():
            a, b = ends()
            c = run_copy(lay("M", d1, p), "C")
            it.setattr(c, "epsilon", u1, None)
            e = run_copy(a, "E")
            it.setattr(e, "epsilon", p2, None)
            it.setattr(e, "thickness", d2, None)
            return [a, c, e, b], [("top", d0, u0), ("C", d1, u1), ("E", d2, p2), ("bot", d3, u1)]

        return [("original, copy", s1), ("copy, original", s2), ("copy alone", s3), ("copy of a copy, copy", s4),
                ("copies of uniform layers", s5), ("copy of a layer used before, original", s6),
                ("copy, original used elsewhere", s7), ("original changed after copying, copy", s8),
                ("original, copy changed", s9), ("two copies, one used before, original", s10),
                ("copies changed between uniform and patterned", s11)]

    def one(rep, item):
        (backend, form), kind = item
        w = World(backend, "uuu", form)
        it = w.it
        cache = {}
        snap = it.st.fork()
        for nm, f in stacks(w, kind):
            it.st = snap.fork()
            it.ncalls = 0
            con = f"{nm} ({kind}), {backend}/{form}"
            ls, desc = f()
            if nm == "copies changed between uniform and patterned" and kind == "a":
                continue
            w.L = len(ls)
            Q = [q for q in w.queries() if rep.tier == "thorough" or not q[0].startswith(("get_field_grid", "efficiencies(orders, c"))]
            if rep.tier != "thorough" and len(ls) > 3:
                Q = [q for q in Q if q[1] != "get_S_matrix" or "[1, " in q[0] or q[0] == "get_S_matrix()"]
            for i, (l, (n_, d, e)) in enumerate(zip(ls, desc)):
                rep.check(it.getattr(l, "name") == n_, "copy-name", f"layer {i} of {con}", f"{it.getattr(l, 'name')!r} instead of {n_!r}")
                rep.check(vkey(it.getattr(l, "thickness")) == vkey(d), "copy-thickness", f"layer {i} of {con}", repr(it.getattr(l, "thickness")))
            sim = w.build(ls)
            w.meth(sim, "solve")
            w.need(sim, f"solve() of {con}")
            mine = it.st
            it.st = snap.fork()
            ref = w.build([w.fresh_layer(*x) for x in desc])
            w.meth(ref, "solve")
            theirs = it.st
            for q in Q:
                it.st = mine.fork()
                v, dead = w.ask(sim, q)
                if dead:
                    rep.bad("answered", f"{q[0]}, {con}", f"raises on every path: {it.raised[-1][1] if it.raised else ''}")
                    continue
                a = deep(it, v)
                it.st = theirs.fork()
                v, dead = w.ask(ref, q)
                b = deep(it, v)
                rep.check(a == b, "like-a-new-layer", f"{q[0]}, {con}",
                          "the answer is not the one of the stack whose copies are built anew")
        rep.used(it, w.tag)
    kinds = [(c, k) for c in confs for k in "pa" if not (k == "a" and c[1] in ("tangent", "jones") and rep.tier != "thorough")]
    rep.fan(one, kinds, width=8)
