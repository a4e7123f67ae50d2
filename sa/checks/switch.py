"""C13: switching backend and precision."""
import itertools
from ..algebra import *
from ..values import *
from ..ctx import program, lift
from ..interp import Interp, Dead, AnalysisError, PyRaise

LIB = {"numpy": "numpy", "scipy": "numpy", "autograd": "autograd.numpy", "torch": "torch", "jax": "jax.numpy"}
NAMES = ("numpy", "scipy", "autograd", "torch", "jax")


class Process(Interp):
    """a process that imported the package and keeps switching"""

    def __init__(self, environ=None, cuda=False, device0="cpu"):
        self._env, self.cuda = dict(environ or {}), cuda
        super().__init__(program(), "numpy")

    def boot(self):
        self.environ = self._env
        self.live_modules = True
        self.ext_stubs["importlib.reload"] = self._reload
        self.ext_stubs["torch.cuda.is_available"] = lambda it, a, k, n: self.cuda
        self.stubs["nannos.utils.time.tic"] = lambda it, f, a, k, n: num(0.0)
        self.depth = 0
        self.load("nannos")

    def _reload(self, it, a, k, node):
        r = a[0]
        if not isinstance(r, Ref) or self.h(r).kind != "module":
            raise AnalysisError("reload of something that is no module of the package")
        self.depth += 1
        if self.depth > 6:
            raise AnalysisError("reloads itself for ever")
        try:
            self.event("reload", node, name=self.h(r).name)
            self.exec_module(self.h(r).name)
        finally:
            self.depth -= 1
        return r

    def glob(self, m="nannos"):
        return self.h(self.modrefs[m]).d

    def do(self, fn, *args):
        """calls a function of the package; None or the exception"""
        self.raised.clear()
        self.dead = False
        self.run(self.get("nannos." + fn), *[lift(self, x) for x in args])
        r = self.raised[0][1].name if self.raised else None
        dead = self.dead
        self.dead = False
        self.raised.clear()
        return r if dead else ("maybe " + r if r else None)


def picture(it, v, seen=None, depth=0):
    """what a value is made of, without the identity of modules, classes and functions"""
    seen = seen or set()
    if isinstance(v, Ext):
        return "ext:" + v.path
    if isinstance(v, T):
        return ("num", tuple(str(P(d).key) for d in v.shape), str(v.p.key))
    if isinstance(v, (str, bool, int, float, type(None))):
        return repr(v)
    if isinstance(v, Tup):
        return ("tup",) + tuple(picture(it, x, seen, depth + 1) for x in v.items)
    if isinstance(v, FuncV):
        if id(v) in seen or depth > 12:
            return "func:" + v.qual
        seen = seen | {id(v)}
        out = ["func:" + v.qual]
        for k, x in _defaults(v):
            out.append((k, picture(it, x, seen, depth + 1)))
        c = v.closure
        if isinstance(c, Ref):
            o = it.h(c)
            if o.kind != "module":
                out.append(("closure", tuple((k, picture(it, x, seen, depth + 1)) for k, x in sorted(o.d.items()) if not k.startswith("__"))))
        elif c is not None and hasattr(c, "ref"):
            f = c
            while f is not None and it.h(f.ref).kind != "module":
                o = it.h(f.ref)
                out.append(("closure", tuple((k, picture(it, x, seen, depth + 1)) for k, x in sorted(o.d.items()) if not k.startswith("__"))))
                f = f.parent
        if v.wraps is not None:
            out.append(("wraps", picture(it, v.wraps, seen, depth + 1)))
        return tuple(out)
    if isinstance(v, ClassV):
        if id(v) in seen or depth > 12:
            return "class:" + v.qual
        seen = seen | {id(v)}
        return ("class:" + v.qual, tuple((k, picture(it, x, seen, depth + 1)) for k, x in sorted(v.attrs.items()) if k != "__doc__"),
                tuple(picture(it, b, seen, depth + 1) for b in v.bases))
    if isinstance(v, Prop):
        return ("prop", picture(it, v.fget, seen, depth + 1))
    if isinstance(v, (StaticM, ClassM)):
        return ("static", picture(it, v.f, seen, depth + 1))
    if isinstance(v, Bound):
        return ("bound", picture(it, v.func, seen, depth + 1), picture(it, v.self_, seen, depth + 1))
    if isinstance(v, Ref):
        o = it.h(v)
        if o.kind == "module":
            return "module:" + o.name
        if v.id in seen or depth > 12:
            return "object"
        seen = seen | {v.id}
        d = o.d
        if isinstance(d, dict):
            return (o.kind, o.cls.qual if o.cls is not None else "", tuple((str(k), picture(it, x, seen, depth + 1)) for k, x in sorted(d.items(), key=lambda q: str(q[0]))))
        if isinstance(d, list):
            return (o.kind, tuple(picture(it, x, seen, depth + 1) for x in d))
        return o.kind
    return type(v).__name__


def _defaults(f):
    a = f.node.args
    ns = [x.arg for x in a.posonlyargs + a.args] if hasattr(a, "posonlyargs") else []
    ds = list(f.defaults or [])
    for nm, x in zip(ns[len(ns) - len(ds):], ds):
        yield "default of " + nm, x
    kw = f.kwdefaults or {}
    for nm, x in (kw.items() if isinstance(kw, dict) else zip([x.arg for x in a.kwonlyargs], kw)):
        if x is not None:
            yield "default of " + str(nm), x


SKIP = {"nannos": {"_FORCE_BACKEND", "_FORCE_GPU", "_NUMPY", "_CPU_DEVICE", "_GPU_DEVICE", "_backend_env_var", "_gpu_env_var", "DEVICE",
                   "_SCIPY", "_AUTOGRAD", "_TORCH", "_JAX", "_USE_32", "HAS_CUDA"}}


def snapshot(it):
    out = {}
    for m in it.modrefs:
        for k, v in it.h(it.modrefs[m]).d.items():
            if k.startswith("__") or k == "DEVICE" or k in SKIP.get(m, ()):
                continue
            out[m, k] = picture(it, v)
    return out


def first_difference(a, b, path=""):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                return first_difference(x, y, path + (f" {a[0]}" if isinstance(a[0], str) else ""))
    return f"{path.strip()}: {str(a)[:120]} instead of {str(b)[:120]}"


_FRESH = {}


def fresh(b, single):
    """a process in which this was the first selection"""
    k = (b, single)
    if k not in _FRESH:
        it = Interp(program(), b, flags={"_USE_32": True} if single else {}, stubs={})
        it.environ = {}
        _FRESH[k] = snapshot(it)
    return _FRESH[k]


def state_rules(rep, it, want, con):
    b, single = want
    d = it.glob()
    r = it.run(it.get("nannos.get_backend"))
    rep.check(r == b and d.get("BACKEND") == b, "reported", con, f"get_backend() is {r!r}, BACKEND is {d.get('BACKEND')!r} instead of {b!r}")
    rep.check(isinstance(d.get("backend"), Ext) and d["backend"].path == LIB[b], "module", con, f"the numerical module is {d.get('backend')!r} instead of {LIB[b]}")
    types = tuple(LIB[b] + "." + t for t in (("float32", "complex64") if single else ("float64", "complex128")))
    t = it.run(it.get("nannos.get_types"))
    got = tuple(x.path for x in t.items) if isinstance(t, Tup) and all(isinstance(x, Ext) for x in t.items) else t
    rep.check(got == types, "types", con, f"the number types are {got} instead of {types}")
    for m in sorted(it.modrefs):
        g = it.glob(m)
        for nm, ty in zip(("FLOAT", "COMPLEX"), types):
            if nm in g and isinstance(g[nm], Ext):
                rep.check(g[nm].path == ty, "types", f"{m}.{nm}, {con}", f"is {g[nm].path} instead of {ty}")
    ref = fresh(b, single)
    now = snapshot(it)
    left = []
    for k, v in ref.items():
        if k[1] == "grad" and k[0] == "nannos" or k in now:
            if k not in now:
                rep.bad("as-fresh", f"{k[0]}.{k[1]}, {con}", "does not exist")
                continue
            if now[k] != v:
                left.append(f"{k[0]}.{k[1]}: {first_difference(now[k], v)}")
        else:
            left.append(f"{k[0]}.{k[1]} does not exist")
    rep.check(not left, "as-fresh", con, "differs from a process in which this was the first selection: " + "; ".join(left[:3]))
    return now


def c13(rep):
    ops = [("set_backend", b) for b in NAMES] + [("use_32_bit", True), ("use_32_bit", False)]
    jobs = [("seq", None, (a, b)) for a in NAMES for b in NAMES]
    jobs += [("seq", "torch", (a,)) for a in NAMES] + [("seq", "jax", (a,)) for a in NAMES]
    jobs += [("gpu", cuda) for cuda in (False, True)]
    jobs += [("held",)]
    jobs += [("seq", None, (a, b, c)) for a in NAMES for b in NAMES for c in NAMES if a != b != c]
    if rep.tier == "thorough":
        jobs += [("seq", None, s) for s in itertools.product(NAMES, repeat=4) if all(x != y for x, y in zip(s, s[1:]))]
        jobs += [("seq", e, (a, b)) for e in ("autograd", "scipy", "nonsense") for a in NAMES for b in NAMES]

    def one(rep, job):
        if job[0] == "held":
            return held(rep)
        if job[0] == "gpu":
            return gpu(rep, job[1])
        _, env, seq = job
        it = Process({"NANNOS_BACKEND": env} if env else {})
        con0 = f"environment {env}: " if env else ""
        want = (env if env in NAMES else "numpy", False)
        state_rules(rep, it, want, con0 + "after import")
        hist = []
        toggles = [None, True, None, False] if len(seq) > 1 else [True, None]
        for i, b in enumerate(seq):
            for op in ([("use_32_bit", True)] if i == 1 else []) + [("set_backend", b), ("set_backend", "nonsense")] + ([("use_32_bit", i % 2 == 1)] if i == len(seq) - 1 else []):
                hist.append(f"{op[0]}({op[1]!r})")
                con = con0 + ", ".join(hist)
                before = snapshot(it) if op[1] == "nonsense" else None
                r = it.do(*op)
                if op[1] == "nonsense":
                    rep.check(r is not None and not r.startswith("maybe"), "unknown-refused", con, f"{r or 'accepted'}")
                    now = snapshot(it)
                    diff = [f"{k[0]}.{k[1]}" for k in set(now) | set(before) if now.get(k) != before.get(k)]
                    rep.check(not diff, "unknown-refused", con, f"changed {diff[:4]}")
                else:
                    rep.check(r is None, "accepted", con, f"raises {r}")
                    want = (op[1], want[1]) if op[0] == "set_backend" else (want[0], op[1])
                state_rules(rep, it, want, con)
        rep.contexts.add(con0 + ",".join(seq))
        rep.functions |= set(it.analysed)
    rep.fan(one, jobs)


def held(rep):
    """functions and classes the user keeps across a switch carry nothing of the previous selection"""
    base = fresh("numpy", False)
    for b in NAMES:
        for s in (False, True):
            other = fresh(b, s)
            for k, v in base.items():
                if not isinstance(v, tuple) or not str(v[0]).startswith(("func:", "class:")):
                    continue
                w = other.get(k)
                if w is None:
                    continue
                if isinstance(w, tuple) and w[0] != v[0] or not isinstance(w, tuple):
                    # another implementation under the same name: selected by the module itself (grad)
                    continue
                rep.check(w == v, "nothing-captured", f"{k[0]}.{k[1]}, numpy -> {b}{', 32 bit' if s else ''}",
                          f"keeps values of the selection that was active when it was defined: {first_difference(v, w)}")
    rep.contexts.add("held")


def gpu(rep, cuda):
    for b in NAMES:
        it = Process({}, cuda=cuda)
        it.do("set_backend", b)
        want = "cpu"
        hist = []
        for yes in (False, True, False, True, True):
            hist.append(yes)
            con = f"{b}, cuda {'present' if cuda else 'absent'}: " + ", ".join(f"use_gpu({h})" for h in hist)
            r = it.do("use_gpu", yes)
            rep.check(r is None, "accepted", con, f"raises {r}")
            want = "cuda" if yes and (b == "jax" or b == "torch" and cuda) else "cpu"
            got = it.run(it.get("nannos.get_device"))
            d = it.glob()["DEVICE"]
            rep.check(got == want and d == want, "device", con, f"get_device() is {got!r}, DEVICE is {d!r} instead of {want!r}")
            for m in sorted(it.modrefs):
                g = it.glob(m)
                if "DEVICE" in g:
                    rep.check(g["DEVICE"] == want, "device", f"{m}.DEVICE, {con}", f"is {g['DEVICE']!r} instead of {want!r}")
            state_rules(rep, it, (b, False), con)
        rep.functions |= set(it.analysed)
    rep.contexts.add(f"cuda {cuda}")


LEVEL = {"C13": "The switching functions, the reloads they cause and the body of every module are evaluated for every pair of "
                "selections (and settings of the environment), in the order in which the interpreter's module table lists the "
                "modules; afterwards every module level name must denote what it denotes in a process where the last selection "
                "was the first."}
