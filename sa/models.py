"""Transfer functions of the external libraries (numpy, torch, jax.numpy, autograd.numpy,
scipy, builtins) on value numbers.  Anything not listed here becomes an opaque but
congruent value and is logged."""
import ast
from fractions import Fraction as Fr

from . import algebra as A
from .algebra import *
from .algebra import _all_int, _norm_bound
from .values import *

declare("pi", pos=True)
declare("epsmach", pos=True)

OPN = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div", ast.Pow: "pow",
       ast.MatMult: "matmul", ast.FloorDiv: "floordiv", ast.Mod: "mod", ast.BitAnd: "and",
       ast.BitOr: "or", ast.BitXor: "xor", ast.LShift: "lshift", ast.RShift: "rshift"}

# ------------------------------------------------------------------------- dtypes
DTNAMES = {"float64": "f64", "double": "f64", "float32": "f32", "complex128": "c128", "cdouble": "c128",
           "complex64": "c64", "int64": "i", "int32": "i", "long": "i", "bool": "b", "bool_": "b",
           "float": "f64", "complex": "c128", "int": "i", "float_": "f64", "complex_": "c128", "uint8": "i"}
CAT = {"b": 0, "i": 1, "f32": 2, "f64": 2, "c64": 3, "c128": 3}


def is32(dt):
    return dt in ("f32", "c64")


def dtype_of(d):
    if d is None:
        return None
    if isinstance(d, Ext):
        return DTNAMES.get(d.path.split(".")[-1])
    if isinstance(d, str):
        return DTNAMES.get(d)
    if isinstance(d, Opq) and d.key.startswith("dtype:"):
        return d.key[6:] or None
    return None


def default_float(it):
    return "f32" if it.backend == "torch" else "f64"


def promote(it, a, b):
    """result dtype of a binary operation"""
    pa, pb = a.kind in PYKINDS, b.kind in PYKINDS
    if pa and pb:
        return None
    if pa or pb:
        w, s = (a, b) if pa else (b, a)
        d = s.dt
        if d is None:
            return None
        wc = {"bool": 0, "int": 1, "float": 2, "complex": 3}[w.kind]
        if wc <= CAT[d]:
            return d
        if wc == 2:
            return default_float(it)
        if wc == 3:
            return "c64" if d == "f32" else "c128" if d == "f64" else ("c64" if it.backend == "torch" else "c128")
        return "i"
    if a.dt is None or b.dt is None:
        return None
    da, db = a.dt, b.dt
    if it.backend == "torch" and (a.rank == 0) != (b.rank == 0):
        z, d = (da, db) if a.rank == 0 else (db, da)
        if CAT[z] <= CAT[d]:
            if CAT[z] == 3 and CAT[d] == 3:
                return d
            return d
        if CAT[z] == 3 and CAT[d] == 2:
            return z
        return z
    c = max(CAT[da], CAT[db])
    if c == 3:
        if "c128" in (da, db) or "f64" in (da, db):
            return "c128"
        if "i" in (da, db) and it.backend in ("numpy", "scipy", "autograd"):
            return "c128"
        return "c64"
    if c == 2:
        if "f64" in (da, db):
            return "f64"
        if "i" in (da, db) and it.backend in ("numpy", "scipy", "autograd"):
            return "f64"
        return "f32"
    return "i" if c == 1 else "b"


def real_dt(dt):
    return {"c128": "f64", "c64": "f32"}.get(dt, dt)


# ------------------------------------------------------------------------ coercion
def to_T(it, v):
    v = it.simplify(v)
    if isinstance(v, T):
        return v
    if isinstance(v, bool):
        return num(v)
    if isinstance(v, (Tup, Ref)):
        if isinstance(v, Ref):
            o = it.h(v)
            if o.kind != "list":
                return None
            if isinstance(o.d, SymSeq):
                return to_T(it, o.d)
            if isinstance(o.d, Phi):
                return to_T(it, o.d)
            if not isinstance(o.d, list):
                return None
            items = o.d
        else:
            items = v.items
        ts = [to_T(it, x) if not isinstance(x, it.GuardedT) else None for x in items]
        if any(t is None for t in ts):
            return None
        if not ts:
            return T((0,), ZERO, dt="f64")
        if any(t.rank != ts[0].rank for t in ts):
            return None
        r = tstack(ts)
        r.dt = join_dt(it, ts)
        r.kind = "arr"
        return r
    if isinstance(v, SymSeq):
        t = v.tmpl
        t = to_T(it, t) if not isinstance(t, T) else t
        if t is None:
            return None
        p = psub_free(t.p, {**{("f", k): ("f", k + 1) for k in range(t.rank)}, v.K: ("f", 0)})
        return T((v.n,) + tuple(t.shape), p, dt=t.dt or ("b" if t.kind == "bool" else None))
    if isinstance(v, RangeV):
        return T((v.n,), v.a + v.s * idx_value(("f", 0)), dt="i")
    if isinstance(v, Phi):
        a, b = to_T(it, v.a), to_T(it, v.b)
        if a is None or b is None:
            return None
        r = mkphi(v.c, a, b)
        if not isinstance(r, T) and len(a.shape) == len(b.shape) and all(
                P(x) == P(y) for x, y in zip(a.shape, b.shape)):
            r = T(a.shape, pmul(v.c, a.p) + pmul(ONE - v.c, b.p), dt=join_dt(it, [a, b]))
        return r if isinstance(r, T) else None
    return None


def kind_dt(it, t):
    if t.dt is not None:
        return t.dt
    return {"bool": "b", "int": "i", "float": default_float(it), "complex": "c64" if it.backend == "torch" else "c128"}.get(t.kind)


def join_dt(it, ts):
    ds = [t.dt if t.dt is not None else ({"bool": "b", "int": "i", "float": default_float(it),
                                          "complex": "c64" if it.backend == "torch" else "c128"}.get(t.kind)) for t in ts]
    if any(d is None for d in ds):
        return None
    r = ds[0]
    for t, d in zip(ts[1:], ds[1:]):
        r = promote(it, T((1,), ZERO, dt=r), T((1,), ZERO, dt=d))
    return r


def mk(it, t, dt=None, kind="arr"):
    t.dt = dt
    t.kind = kind
    return t


def is_py(v):
    return isinstance(v, T) and v.rank == 0 and v.kind in PYKINDS


def mark_calls(name, args, kw):
    return f"{name}(" + ",".join(vkey(a) for a in args) + "".join(f",{k}={vkey(v)}" for k, v in sorted(kw.items())) + ")"


def sever(it, t, how, node):
    """the derivative of a value is lost here"""
    it.event("sever", node, how=how, value=t)
    if it.sever_hook is not None and isinstance(t, T):
        return it.sever_hook(it, t, how, node)
    return t


# ------------------------------------------------------------------- external calls
def call_ext(it, path, args, kw, node, fr):
    if it.ext_hook is not None:
        return it.ext_hook(it, path, args, kw, node, lambda: call_ext1(it, path, args, kw, node, fr))
    return call_ext1(it, path, args, kw, node, fr)


def call_ext1(it, path, args, kw, node, fr):
    for i, a in enumerate(args):
        if isinstance(a, Phi):
            a = it.simplify(a)
            if isinstance(a, Phi):
                if path in PHI_OK:
                    break
                def go(x, i=i):
                    return lambda: call_ext(it, path, args[:i] + [x] + args[i + 1:], kw, node, fr)
                return it.branch(a.c, go(a.a), go(a.b))
            args = args[:i] + [a] + args[i + 1:]
    for k, a in kw.items():
        if isinstance(a, Phi):
            a = it.simplify(a)
            if isinstance(a, Phi):
                def go2(x, k=k):
                    return lambda: call_ext(it, path, args, {**kw, k: x}, node, fr)
                return it.branch(a.c, go2(a.a), go2(a.b))
            kw = {**kw, k: a}
    it.event("ext_call", node, path=path, args=args, kw=kw)
    ov = it.st.heap.get("ext")
    if ov is not None and path in ov.d:
        return it.call(ov.d[path], args, kw, node, fr)
    for suf, fn in it.ext_stubs.items():
        if path == suf or path.endswith("." + suf):
            r = fn(it, args, kw, node)
            if r is not NotImplemented:
                return r
    parts = path.split(".")
    name = parts[-1]
    if parts[0] == "builtins":
        fn = globals().get("b_" + name)
        if fn is not None:
            return fn(it, args, kw, node, fr)
        if name.endswith("Error") or name in ("Exception", "BaseException", "StopIteration", "UserWarning"):
            return ExcV(name, tuple(args), None)
    else:
        fn = globals().get("x_" + "_".join(parts[-2:])) if parts[-2] in ("linalg", "fft", "fftpack", "environ", "random", "path") else globals().get("x_" + name)
        if fn is not None and (parts[0] in LIBS or path in EXTRA):
            try:
                r = fn(it, args, kw, node)
            except (ShapeError, Unsupported, Opaque) as e:
                return it.opaque(mark_calls(path, args, kw), f"{path}: {e}", node)
            if r is not NotImplemented:
                return r
    return it.opaque(mark_calls(path, args, kw), path, node)


class Opaque(Exception):
    pass


LIBS = {"numpy", "torch", "jax", "autograd", "scipy", "math", "functools", "copy", "importlib", "joblib",
        "os", "time", "logging", "shapely", "np"}
EXTRA = set()
PHI_OK = {"builtins.isinstance", "builtins.hasattr", "builtins.getattr", "builtins.setattr", "builtins.print",
          "builtins.str", "builtins.repr", "builtins.callable", "builtins.list", "builtins.tuple", "builtins.delattr"}


def arg(a, k, i, *names, default=None):
    for n in names:
        if n in k:
            return k[n]
    if len(a) > i:
        return a[i]
    return default


def need(it, v):
    t = to_T(it, v)
    if t is None:
        raise Opaque("operand " + repr(v)[:60])
    return t


def intc(v):
    c = as_const(v) if not isinstance(v, bool) else int(v)
    if c is None or not isinstance(c, int):
        raise Opaque("axis")
    return c


def shape_of(it, v):
    """shape argument -> list of Poly"""
    v = it.simplify(v)
    if isinstance(v, T) and v.rank == 0:
        return [v.p]
    t = v
    if isinstance(t, (Tup, Ref)):
        out = []
        for x in it.items_of(t):
            x = to_T(it, x)
            if x is None or x.rank:
                raise Opaque("shape")
            out.append(x.p)
        return out
    if isinstance(t, T) and t.rank == 1 and t.shape[0].as_int() is not None:
        return [tindex(t, [i]).p for i in range(t.shape[0].as_int())]
    raise Opaque("shape")


def cast(it, t, d, node=None):
    """conversion of a value number to a dtype"""
    if d is None:
        return t
    if d == "i" and not _all_int(t.p):
        return T(t.shape, fnp("int", t.p) if not t.p.const() else P(int(t.p.const().re)), dt="i")
    if d in ("f32", "f64") and not all_real(t.p):
        src = t.dt
        if src in ("c64", "c128") or t.kind == "complex":
            it.event("cast_real", node, value=t)
    return T(t.shape, t.p, dt=d)


def x_array(it, a, k, node):
    v = a[0] if a else arg(a, k, 0, "object", "data")
    if isinstance(it.simplify(v), (Opq, SymDict)):
        raise Opaque("array of opaque")
    t = need(it, v)
    d = arg(a, k, 1, "dtype")
    dd = dtype_of(d)
    nt = T(t.shape, t.p, dt=dd or kind_dt(it, t) if not isinstance(t.dt, str) or dd else t.dt)
    if dd:
        nt = cast(it, T(t.shape, t.p, dt=t.dt, kind=t.kind), dd, node)
    nt.kind = "arr"
    nt.st = None
    return nt


x_asarray = x_ascontiguousarray = x_array
x_as_tensor = x_from_numpy = x_array


def x_tensor(it, a, k, node):
    v = it.simplify(a[0])
    if not isinstance(v, T):
        def has_arr(x):
            x = it.simplify(x)
            if isinstance(x, T):
                return x.kind == "arr"
            if isinstance(x, Tup):
                return any(has_arr(y) for y in x.items)
            if isinstance(x, Ref) and it.h(x).kind == "list" and isinstance(it.h(x).d, list):
                return any(has_arr(y) for y in it.h(x).d)
            if isinstance(x, Ref) and it.h(x).kind == "list" and isinstance(it.h(x).d, SymSeq):
                return has_arr(it.h(x).d.tmpl)
            if isinstance(x, SymSeq):
                return has_arr(x.tmpl)
            return False
        if has_arr(v):
            t = to_T(it, v)
            t2 = sever(it, t, "tensor(list of tensors)", node)
            a = [t2 if t2 is not t else v] + list(a[1:])
    elif v.kind == "arr":
        a = [sever(it, v, "tensor(tensor)", node)] + list(a[1:])
    return x_array(it, a, k, node)


def x_copy(it, a, k, node):
    v = it.simplify(a[0])
    if isinstance(v, Ref):
        o = it.h(v)
        r = it.alloc(o.kind, dict(o.d) if isinstance(o.d, dict) else list(o.d) if isinstance(o.d, list) else o.d,
                     cls=o.cls, name=o.name, origin=o.origin)
        it.event("copy", node, src=v, dst=r)
        return r
    if isinstance(v, T):
        return T(v.shape, v.p, dt=v.dt, kind=v.kind)
    if isinstance(v, SymObj):
        n = SymObj(v.cls, f"copy({v.key})@{it.nid}", None, v.schema)
        it.nid += 1
        src = v
        def sch(it2, o, name, src=src):
            return it2.symattr(src, name, None)
        n.schema = sch
        return n
    return v


def x_deepcopy(it, a, k, node):
    memo = {}

    def go(v):
        v = it.simplify(v)
        if isinstance(v, Ref):
            if v.id in memo:
                return memo[v.id]
            o = it.h(v)
            if o.kind in ("module", "frame"):
                return v
            r = it.alloc(o.kind, o.d, cls=o.cls, name=o.name, origin=o.origin)
            memo[v.id] = r
            if isinstance(o.d, dict):
                nd = {kk: go(x) for kk, x in o.d.items()}
            elif isinstance(o.d, list):
                nd = [go(x) for x in o.d]
            else:
                nd = o.d
            it.hw(r).d = nd
            return r
        if isinstance(v, Tup):
            return Tup([go(x) for x in v.items])
        if isinstance(v, T):
            return T(v.shape, v.p, dt=v.dt, kind=v.kind)
        return v
    return go(a[0])


def mk_fill(val):
    def f(it, a, k, node):
        sh = arg(a, k, 0, "shape", "size")
        if len(a) > 1 and isinstance(a[1], T) and a[1].rank == 0 and a[1].kind in ("int", "arr") and it.backend == "torch":
            dims = [need(it, x).p for x in a]
        else:
            dims = shape_of(it, sh)
        d = dtype_of(arg(a, k, 1, "dtype"))
        return T(dims, P(val), dt=d or default_float(it))
    return f


x_zeros = x_empty = mk_fill(0)
x_ones = mk_fill(1)


def x_full(it, a, k, node):
    v = need(it, a[1])
    return T(shape_of(it, a[0]), v.p, dt=dtype_of(arg(a, k, 2, "dtype")) or v.dt)


def mk_like(val):
    def f(it, a, k, node):
        t = need(it, a[0])
        return T(t.shape, P(val), dt=dtype_of(arg(a, k, 1, "dtype")) or kind_dt(it, t))
    return f


x_zeros_like = x_empty_like = mk_like(0)
x_ones_like = mk_like(1)


def x_eye(it, a, k, node):
    n = need(it, a[0])
    m = arg(a, k, 1, "M")
    t = teye(n.p)
    if isinstance(m, T):
        t = T((n.p, m.p), t.p)
    return mk(it, t, dtype_of(arg(a, k, 3, "dtype")) or default_float(it))


x_identity = x_eye


def x_diag(it, a, k, node):
    t = need(it, a[0])
    return mk(it, tdiag(t), t.dt)


def x_arange(it, a, k, node):
    ts = [need(it, x) for x in a]
    s = ONE
    if len(ts) == 1:
        lo, hi = ZERO, ts[0].p
    else:
        lo, hi = ts[0].p, ts[1].p
        if len(ts) > 2:
            s = ts[2].p
    r = RangeV(lo, hi, s)
    n = r.n
    return T((n,), lo + pmul(s, idx_value(("f", 0))), dt=dtype_of(arg(a, k, 3, "dtype")) or "i")


def x_linspace(it, a, k, node):
    lo, hi = need(it, a[0]), need(it, a[1])
    n = need(it, arg(a, k, 2, "num", "steps", default=num(50)))
    if n.p.as_int() == 1:
        return T((1,), lo.p, dt=default_float(it))
    st = (hi.p - lo.p) / (n.p - 1)
    return T((n.p,), lo.p + pmul(st, idx_value(("f", 0))), dt=dtype_of(k.get("dtype")) or default_float(it))


def x_meshgrid(it, a, k, node):
    ts = [need(it, x) for x in a]
    ij = k.get("indexing", "ij" if it.backend == "torch" else "xy") == "ij"
    if any(t.rank != 1 for t in ts):
        raise Opaque("meshgrid rank")
    order = list(range(len(ts)))
    if not ij and len(ts) >= 2:
        order[0], order[1] = 1, 0
    shape = [None] * len(ts)
    for i, t in enumerate(ts):
        shape[order[i]] = t.shape[0]
    return it.new_list([T(shape, psub_free(t.p, {("f", 0): ("f", order[i])}), dt=t.dt) for i, t in enumerate(ts)])


def seq_ts(it, v):
    v = it.simplify(v)
    if isinstance(v, T):
        n = v.shape[0].as_int()
        if n is None:
            raise Opaque("sequence")
        return [T(tindex(v, [i]).shape, tindex(v, [i]).p, dt=v.dt) for i in range(n)]
    k, items = it.iterate(v)
    if k != "const":
        raise Opaque("symbolic sequence")
    return [need(it, x) for x in items]


def x_hstack(it, a, k, node):
    try:
        ts = seq_ts(it, a[0])
    except Opaque:
        t = to_T(it, a[0])
        if t is not None and t.rank == 1:
            return T(t.shape, t.p, dt=t.dt)
        raise
    ts = [T((1,), t.p, dt=t.dt) if t.rank == 0 else t for t in ts]
    return mk(it, tconcat(ts, 0 if ts[0].rank == 1 else 1), join_dt(it, ts))


def x_vstack(it, a, k, node):
    try:
        ts = seq_ts(it, a[0])
    except Opaque:
        t = to_T(it, a[0])
        if t is not None and t.rank == 2:
            return T(t.shape, t.p, dt=t.dt)
        raise
    if ts[0].rank <= 1:
        return mk(it, tstack(ts), join_dt(it, ts))
    if ts[0].rank == 2 and all(t.shape[0].as_int() == 1 for t in ts):
        return mk(it, tstack([tindex(t, [0]) for t in ts]), join_dt(it, ts))
    return mk(it, tconcat(ts, 0), join_dt(it, ts))


def x_stack(it, a, k, node):
    ax = intc(arg(a, k, 1, "axis", "dim", default=num(0)))
    try:
        ts = seq_ts(it, a[0])
    except Opaque:
        t = to_T(it, a[0])
        if t is not None and ax == 0:
            return T(t.shape, t.p, dt=t.dt)
        raise
    if any(t.rank != ts[0].rank for t in ts):
        raise ShapeError("stack of different ranks")
    return mk(it, tstack(ts, ax), join_dt(it, ts))


def x_concatenate(it, a, k, node):
    ts = seq_ts(it, a[0])
    ax = intc(arg(a, k, 1, "axis", "dim", default=num(0)))
    return mk(it, tconcat(ts, ax), join_dt(it, ts))


x_cat = x_concatenate


def x_block(it, a, k, node):
    rows = it.items_of(a[0])
    out = []
    for r in rows:
        ts = [need(it, x) for x in it.items_of(r)]
        out.append(tconcat(ts, 1) if ts[0].rank > 1 else tconcat(ts, 0))
    return tconcat(out, 0)


def x_einsum(it, a, k, node):
    spec = a[0]
    if not isinstance(spec, str):
        raise Opaque("einsum")
    spec = spec.replace(" ", "")
    ins, _, out = spec.partition("->")
    ins = ins.split(",")
    ts = [need(it, x) for x in a[1:]]
    if len(ts) != len(ins) or "..." in spec:
        raise Opaque("einsum")
    if "->" not in spec:
        cnt = {}
        for s in ins:
            for ch in s:
                cnt[ch] = cnt.get(ch, 0) + 1
        out = "".join(sorted(c for c, n in cnt.items() if n == 1))
    dims = {}
    prod = ONE
    for s, t in zip(ins, ts):
        if len(s) != t.rank:
            raise ShapeError("einsum rank")
        for ch, d in zip(s, t.shape):
            if ch in dims and dims[ch] != d:
                A.MISMATCH.append((repr(dims[ch]), repr(d)))
            dims.setdefault(ch, d)
        prod = pmul(prod, psub_free(t.p, {("f", i): ("f", ("E", ch)) for i, ch in enumerate(s)}))
    rest = [c for c in dims if c not in out]
    order = list(out) + rest
    p = psub_free(prod, {("f", ("E", c)): ("f", i) for i, c in enumerate(order)})
    t = T([dims[c] for c in order], p)
    for i in range(len(order) - 1, len(out) - 1, -1):
        t = tsum(t, i)
    return mk(it, t, join_dt(it, ts))


def x_matmul(it, a, k, node):
    x, y = need(it, a[0]), need(it, a[1])
    if x.rank == 0 or y.rank == 0:
        raise ShapeError("matmul: scalar operand")
    if x.shape[-1] != y.shape[0 if y.rank == 1 else -2]:
        it.event("dim_mismatch", node, a=x.shape, b=y.shape)
    return mk(it, tmatmul(x, y), promote_r(it, x, y))


def promote_r(it, x, y):
    return promote(it, T((1,), ZERO, dt=kind_dt(it, x)), T((1,), ZERO, dt=kind_dt(it, y)))


def x_dot(it, a, k, node):
    x, y = need(it, a[0]), need(it, a[1])
    if x.rank == 0 or y.rank == 0:
        return tmul(x, y)
    return x_matmul(it, [x, y], {}, node)


x_mm = x_inner = x_dot


def x_vdot(it, a, k, node):
    x, y = need(it, a[0]), need(it, a[1])
    return tsum(tmul(tconj(x), y))


def x_outer(it, a, k, node):
    x, y = need(it, a[0]), need(it, a[1])
    return T((x.shape[0], y.shape[0]), pmul(x.p, psub_free(y.p, {("f", 0): ("f", 1)})), dt=promote_r(it, x, y))


def x_tensordot(it, a, k, node):
    x, y = need(it, a[0]), need(it, a[1])
    ax = arg(a, k, 2, "axes", "dims", default=num(2))
    if isinstance(ax, T):
        raise Opaque("tensordot")
    ia, ib = it.items_of(ax)
    def one(v):
        if isinstance(v, (Tup, Ref)):
            xs = it.items_of(v)
            if len(xs) != 1:
                raise Opaque("tensordot")
            v = xs[0]
        return intc(v)
    return mk(it, tensordot_pair(x, y, one(ia) % x.rank, one(ib) % y.rank), promote_r(it, x, y))


def x_cross(it, a, k, node):
    if it.backend == "torch" and not all(isinstance(it.simplify(x), T) for x in a[:2]):
        raise it.PyRaise(ExcV("TypeError", ("cross: not a tensor",), node))
    x, y = need(it, a[0]), need(it, a[1])
    if x.rank != 1 or y.rank != 1:
        raise Opaque("cross")
    n = x.shape[0].as_int()
    e = lambda t, i: tindex(t, [i]).p
    if n == 2:
        return T((), pmul(e(x, 0), e(y, 1)) - pmul(e(x, 1), e(y, 0)), dt=promote_r(it, x, y))
    if n == 3:
        c = [pmul(e(x, (i + 1) % 3), e(y, (i + 2) % 3)) - pmul(e(x, (i + 2) % 3), e(y, (i + 1) % 3)) for i in range(3)]
        return mk(it, tstack([T((), p) for p in c]), promote_r(it, x, y))
    raise Opaque("cross")


def inv2(t):
    e = lambda i, j: tindex(t, [i, j]).p
    det = pmul(e(0, 0), e(1, 1)) - pmul(e(0, 1), e(1, 0))
    di = ppow(det, -1)
    rows = [[e(1, 1), -e(0, 1)], [-e(1, 0), e(0, 0)]]
    return tstack([tstack([T((), pmul(di, p)) for p in r]) for r in rows])


def x_linalg_inv(it, a, k, node):
    t = need(it, a[0])
    if t.rank == 2 and t.shape[0].as_int() == 2 and t.shape[1].as_int() == 2:
        r = inv2(t)
    else:
        r = tinv(t)
    return mk(it, r, t.dt)


x_inv = x_linalg_inv


def x_linalg_solve(it, a, k, node):
    t, b = need(it, a[0]), need(it, a[1])
    r = x_linalg_inv(it, [t], {}, node)
    if t.shape[1] != b.shape[0]:
        it.event("dim_mismatch", node, a=t.shape, b=b.shape)
    return mk(it, tmatmul(T(r.shape, r.p), b), promote_r(it, t, b))


def x_linalg_eig(it, a, k, node):
    t = need(it, a[0])
    n = t.shape[0]
    c = "c64" if is32(t.dt) else "c128" if t.dt else None
    it.event("eig", node, matrix=t)
    return Tup([mk(it, app("eigval", (T(t.shape, t.p),), n), c), mk(it, app("eigvec", (T(t.shape, t.p),), n, n), c)])


def x_linalg_eigvals(it, a, k, node):
    return x_linalg_eig(it, a, k, node).items[0]


def x_linalg_det(it, a, k, node):
    t = need(it, a[0])
    if t.rank == 2 and t.shape[0].as_int() == 2:
        e = lambda i, j: tindex(t, [i, j]).p
        return T((), pmul(e(0, 0), e(1, 1)) - pmul(e(0, 1), e(1, 0)), dt=t.dt)
    raise Opaque("det")


def x_linalg_norm(it, a, k, node):
    t = need(it, a[0])
    ax = arg(a, k, 2, "axis", "dim")
    ab = T(t.shape, pmul(t.p, pconj(t.p)))
    s = tsum(ab) if ax is None else tsum(ab, intc(ax))
    return T(s.shape, ppow(s.p, Fr(1, 2)), dt=real_dt(t.dt))


def ew(name, real=False):
    def f(it, a, k, node):
        t = need(it, a[0])
        if it.backend == "torch" and t.kind in PYKINDS:
            raise it.PyRaise(ExcV("TypeError", (f"{name}: tensor expected",), node))
        d = kind_dt(it, t)
        if d in ("i", "b"):
            d = default_float(it)
        return T(t.shape, fnp(name, t.p), dt=d)
    return f


for _n in ("sin", "cos", "tan", "tanh", "exp", "log", "log2", "log10", "arctan", "arcsin", "arccos", "sinh", "cosh"):
    globals()["x_" + _n] = ew(_n)
x_atan, x_asin, x_acos = x_arctan, x_arcsin, x_arccos


def x_floor(it, a, k, node):
    t = need(it, a[0])
    return T(t.shape, fnp("floor", t.p), dt=t.dt)


def x_ceil(it, a, k, node):
    t = need(it, a[0])
    return T(t.shape, fnp("ceil", t.p), dt=t.dt)


def x_nan_to_num(it, a, k, node):
    t = need(it, a[0])
    return T(t.shape, t.p, dt=kind_dt(it, t), kind="arr")


def x_round(it, a, k, node):
    t = need(it, a[0])
    return T(t.shape, fnp("round", t.p) if not t.p.const() or t.p.const().re.denominator != 1 else t.p, dt=kind_dt(it, t), kind="arr")


x_around = x_rint = x_round


def x_sqrt(it, a, k, node):
    t = need(it, a[0])
    if it.backend == "torch" and t.kind in PYKINDS:
        raise it.PyRaise(ExcV("TypeError", ("sqrt: tensor expected",), node))
    return T(t.shape, ppow(t.p, Fr(1, 2)), dt=kind_dt(it, t))


def x_arctan2(it, a, k, node):
    y, x = need(it, a[0]), need(it, a[1])
    sh, (py, px) = bcast([y, x])
    return T(sh, fac(("fn", "atan2", A.shift(py, 0, 1) + A.shift(px, 0, 1) * fac(("atom", "!2", ())))), dt=promote(it, x, y))


x_atan2 = x_arctan2


def pabs(p):
    if all_real(p) and poly_nonneg(p):
        return p
    c = p.const()
    if c is not None and not c.im:
        return P(abs(c.re))
    return ppow(pmul(p, pconj(p)), Fr(1, 2))


def x_abs(it, a, k, node):
    t = need(it, a[0])
    return T(t.shape, pabs(t.p), dt=real_dt(t.dt), kind="float" if t.kind == "complex" else t.kind)


x_absolute = x_abs


def x_conj(it, a, k, node):
    t = need(it, a[0])
    return T(t.shape, pconj(t.p), dt=t.dt, kind="arr")


x_conjugate = x_conj


def x_real(it, a, k, node):
    t = need(it, a[0])
    return T(t.shape, preal(t.p), dt=real_dt(t.dt), kind="arr")


def x_imag(it, a, k, node):
    t = need(it, a[0])
    if it.backend == "torch" and t.dt is not None and t.dt not in ("c64", "c128"):
        raise it.PyRaise(ExcV("RuntimeError", ("imag of a real tensor",), node))
    return T(t.shape, pimag(t.p), dt=real_dt(t.dt), kind="arr")


def x_angle(it, a, k, node):
    t = need(it, a[0])
    return T(t.shape, fnp("angle", t.p), dt=real_dt(t.dt))


def x_sign(it, a, k, node):
    t = need(it, a[0])
    return T(t.shape, fnp("sign", t.p), dt=t.dt)


def ew2(op):
    def f(it, a, k, node):
        return binop(it, op(), a[0], a[1], node)
    return f


x_add, x_subtract, x_multiply, x_divide, x_power = ew2(ast.Add), ew2(ast.Sub), ew2(ast.Mult), ew2(ast.Div), ew2(ast.Pow)
x_true_divide, x_pow = x_divide, x_power


def x_square(it, a, k, node):
    t = need(it, a[0])
    return T(t.shape, pmul(t.p, t.p), dt=t.dt)


def x_reciprocal(it, a, k, node):
    t = need(it, a[0])
    return T(t.shape, ppow(t.p, -1), dt=t.dt)


def x_negative(it, a, k, node):
    t = need(it, a[0])
    return T(t.shape, -t.p, dt=t.dt)


def x_where(it, a, k, node):
    c = need(it, a[0])
    if len(a) < 3:
        raise Opaque("where")
    x, y = need(it, a[1]), need(it, a[2])
    sh, (pc, px, py) = bcast([c, x, y])
    return T(sh, pmul(pc, px) + pmul(ONE - pc, py), dt=promote(it, x, y))


def red(name):
    def f(it, a, k, node):
        t = need(it, a[0])
        if t.rank == 0:
            return T((), t.p, dt=t.dt)
        ax = arg(a, k, 1, "axis", "dim")
        if name == "sum":
            if ax is None:
                return mk(it, tsum(t), t.dt)
            if isinstance(ax, Tup):
                axs = sorted({intc(x) % t.rank for x in ax.items}, reverse=True)
                for x in axs:
                    t = tsum(t, x)
                return t
            r = tsum(t, intc(ax) % t.rank)
            if k.get("keepdims") is True:
                sp = [Sl()] * r.rank
                sp.insert(intc(ax) % t.rank, None)
                r = tindex(r, sp)
            return mk(it, r, t.dt)
        if name == "mean":
            n = ONE
            if ax is None:
                for d in t.shape:
                    n = pmul(n, d)
                s = tsum(t)
            else:
                n = t.shape[intc(ax) % t.rank]
                s = tsum(t, intc(ax) % t.rank)
            return T(s.shape, s.p / n, dt=t.dt)
        if ax is None:
            n = t.shape[0].as_int()
            if t.rank == 1 and n == 1:
                return T((), tindex(t, [0]).p, dt=t.dt)
            if name in ("all", "any") and t.rank == 1 and n is not None and n <= 40:
                es = [as_bool(it, tindex(t, [i]).p, t) for i in range(n)]
                r = ONE
                for e in es:
                    r = r * (e if name == "all" else ONE - e)
                r = it.assume(r if name == "all" else ONE - r)
                return T((), r, dt="b")
            if name in ("all", "any"):
                # independent of the index: the element itself
                if not t.p.t or t.p.const() is not None:
                    return T((), as_bool(it, t.p, t), dt="b")
                return T((), fac(("bool", (name, T(t.shape, t.p)))), dt="b")
            if name in ("max", "min", "amax", "amin"):
                name2 = name[-3:]
                c = t.p.const()
                if c is not None or (not A.contains_any(t.p, {("f", i): 0 for i in range(t.rank)})):
                    return T((), t.p, dt=t.dt)
                v = const_entries(t)
                if v:
                    return T((), P(max(v) if name2 == "max" else min(v)), dt=t.dt)
                if n is not None and t.rank == 1 and n == 2:
                    x, y = tindex(t, [0]).p, tindex(t, [1]).p
                    lt = cmpp("lt", x - y)
                    r = pmul(lt, y) + pmul(ONE - lt, x) if name2 == "max" else pmul(lt, x) + pmul(ONE - lt, y)
                    return T((), r, dt=t.dt)
                return T((), fac(("app", name2, (T(t.shape, t.p),), ())), dt=t.dt)
            return T((), fac(("app", name, (T(t.shape, t.p),), ())), dt=t.dt)
        x = intc(ax) % t.rank
        sh = [d for i, d in enumerate(t.shape) if i != x]
        return mk(it, app(name, (T(t.shape, t.p), P(x)), *sh), t.dt)
    return f


def as_bool(it, p, t):
    if t.dt == "b" or t.kind == "bool":
        return p
    c = p.const()
    if c is not None:
        return ONE if c else ZERO
    if len(p.t) and all(all(f[0] in ("cmp", "bool") for f, e in fs) for (bd, fs), cc in p.t):
        return p
    return ONE - cmpp("eq", p)


x_sum, x_mean, x_max, x_min, x_amax, x_amin, x_all, x_any, x_prod, x_argmax, x_argmin, x_trapz, x_std, x_cumsum = [
    red(n) for n in ("sum", "mean", "max", "min", "amax", "amin", "all", "any", "prod", "argmax", "argmin", "trapz", "std", "cumsum")]
x_trapezoid = x_trapz


def x_maximum(it, a, k, node):
    x, y = need(it, a[0]), need(it, a[1])
    sh, (p, q) = bcast([x, y])
    lt = cmpp("lt", p - q)
    return T(sh, pmul(lt, q) + pmul(ONE - lt, p))


def x_minimum(it, a, k, node):
    x, y = need(it, a[0]), need(it, a[1])
    sh, (p, q) = bcast([x, y])
    lt = cmpp("lt", p - q)
    return T(sh, pmul(lt, p) + pmul(ONE - lt, q))


def const_entries(t, limit=400):
    """the entries of an explicit array of rational numbers, in row order"""
    import itertools
    if not isinstance(t, T):
        return None
    dims = [d.as_int() for d in t.shape]
    n = 1
    for d in dims:
        if d is None:
            return None
        n *= d
    if n > limit:
        return None
    from .algebra import atoms_of
    if A.atoms_of(t.p):
        return None
    out = []
    for ix in itertools.product(*[range(d) for d in dims]):
        c = tindex(t, list(ix)).p.const() if ix else t.p.const()
        if c is None or c.im:
            return None
        out.append(c.re)
    return out


def from_entries(vals, dt):
    return T((P(len(vals)),), tstack([num(v) for v in vals]).p, dt=dt, kind="arr")


def x_argsort(it, a, k, node):
    t = need(it, a[0])
    if t.rank == 1:
        v = const_entries(t)
        if v:
            if len(set(v)) < len(v):
                it.event("argsort_ties", node, value=t)
            return from_entries(sorted(range(len(v)), key=lambda i: v[i]), "i")
    return T(t.shape, app("argsort", (T(t.shape, t.p),), *t.shape).p, dt="i")


def x_sort(it, a, k, node):
    t = need(it, a[0])
    if t.rank == 1:
        v = const_entries(t)
        if v:
            return from_entries(sorted(v), t.dt)
    return T(t.shape, app("sort", (T(t.shape, t.p),), *t.shape).p, dt=t.dt)


def x_transpose(it, a, k, node):
    t = need(it, a[0])
    ax = arg(a, k, 1, "axes")
    if ax is None:
        return mk(it, ttranspose(t), t.dt)
    return mk(it, ttranspose(t, [intc(x) for x in it.items_of(ax)]), t.dt)


x_permute = x_transpose


def x_swapaxes(it, a, k, node):
    t = need(it, a[0])
    i, j = intc(a[1]) % t.rank, intc(a[2]) % t.rank
    p = list(range(t.rank))
    p[i], p[j] = p[j], p[i]
    return mk(it, ttranspose(t, p), t.dt)


def x_reshape(it, a, k, node):
    t = need(it, a[0])
    sh = arg(a, k, 1, "newshape", "shape")
    if isinstance(sh, T) and sh.rank == 0 and len(a) > 2:
        dims = [need(it, x).p for x in a[1:]]
    else:
        dims = shape_of(it, sh)
    return do_reshape(t, dims)


def do_reshape(t, dims):
    if len(dims) == t.rank and all(x == y for x, y in zip(dims, t.shape)):
        return T(t.shape, t.p, dt=t.dt)
    ns = [i for i, d in enumerate(t.shape) if d.as_int() != 1]
    nd = [i for i, d in enumerate(dims) if d.as_int() != 1]
    neg = [i for i in nd if dims[i].as_int() == -1]
    if neg:
        have = [t.shape[i] for i in ns]
        rest = [dims[i] for i in nd if i not in neg]
        if len(neg) == 1:
            left = list(have)
            ok = True
            for r in rest:
                if r in left:
                    left.remove(r)
                else:
                    ok = False
            if ok:
                tot = ONE
                for x in left:
                    tot = pmul(tot, x)
                dims = list(dims)
                dims[neg[0]] = tot
                nd = [i for i, d in enumerate(dims) if d.as_int() != 1]
    if len(ns) == len(nd) and all(t.shape[i] == dims[j] for i, j in zip(ns, nd)):
        mp = {("f", i): ("f", j) for i, j in zip(ns, nd)}
        for i in range(t.rank):
            if i not in ns:
                mp[("f", i)] = ("c", 0)
        return T(dims, psub_free(t.p, mp), dt=t.dt)
    if len(dims) == 1 and t.rank == 2:
        return flat(t)
    r = app("reshape", (T(t.shape, t.p), tuple(dims)), *dims)
    r.dt = t.dt
    return r


def flat(t):
    if t.rank == 1:
        return T(t.shape, t.p, dt=t.dt)
    if t.rank == 0:
        return T((1,), t.p, dt=t.dt)
    n = ONE
    for d in t.shape:
        n = pmul(n, d)
    if sum(1 for d in t.shape if d.as_int() != 1) <= 1:
        return do_reshape(t, [n])
    if n.as_int() is not None and n.as_int() <= 64 and t.rank == 2:
        return tstack([tindex(t, [i, j]) for i in range(t.shape[0].as_int()) for j in range(t.shape[1].as_int())])
    return T((n,), app("flatten", (T(t.shape, t.p),), n).p, dt=t.dt)


def x_ravel(it, a, k, node):
    t = need(it, a[0])
    return mk(it, flat(t), t.dt)


x_flatten = x_ravel


def x_squeeze(it, a, k, node):
    t = need(it, a[0])
    return do_reshape(t, [d for d in t.shape if d.as_int() != 1])


def x_expand_dims(it, a, k, node):
    t = need(it, a[0])
    ax = intc(arg(a, k, 1, "axis", "dim"))
    sp = [Sl()] * t.rank
    sp.insert(ax % (t.rank + 1), None)
    return mk(it, tindex(t, sp), t.dt)


x_unsqueeze = x_expand_dims


def x_shape(it, a, k, node):
    t = need(it, a[0])
    return Tup([T((), d, kind="int") for d in t.shape])


def x_size(it, a, k, node):
    t = need(it, a[0])
    n = ONE
    for d in t.shape:
        n = pmul(n, d)
    return T((), n, kind="int")


def x_allclose(it, a, k, node):
    x, y = need(it, a[0]), need(it, a[1])
    d = tsub(x, y)
    if d.p.is_zero():
        return True
    return T((), fac(("bool", ("allclose", T(d.shape, d.p)))), kind="bool")


def x_isclose(it, a, k, node):
    x, y = need(it, a[0]), need(it, a[1])
    d = tsub(x, y)
    return T(d.shape, fac(("cmp", "close", A.shift(d.p, 0, 1))), dt="b")


def x_logical_and(it, a, k, node):
    x, y = need(it, a[0]), need(it, a[1])
    return T(bcast([x, y])[0], pmul(*bcast([x, y])[1]), dt="b")


def x_logical_or(it, a, k, node):
    x, y = need(it, a[0]), need(it, a[1])
    sh, (p, q) = bcast([x, y])
    return T(sh, p + q - pmul(p, q), dt="b")


def x_logical_not(it, a, k, node):
    x = need(it, a[0])
    return T(x.shape, ONE - x.p, dt="b")


def x_kron(it, a, k, node):
    raise Opaque("kron")


def x_gradient(it, a, k, node):
    t = need(it, a[0])
    return it.new_list([mk(it, app("gradient", (T(t.shape, t.p), P(i)), *t.shape), t.dt) for i in range(t.rank)])


def x_finfo(it, a, k, node):
    d = dtype_of(a[0]) or "f64"
    return it.alloc("obj", {"eps": T((), atom("epsmach") if not is32(d) else atom("epsmach32"), kind="float")}, cls=None, name="finfo")


def x_iinfo(it, a, k, node):
    raise Opaque("iinfo")


def x_int32(it, a, k, node):
    t = need(it, a[0])
    return cast(it, t, "i", node)


x_int64 = x_int32


def x_float64(it, a, k, node):
    t = need(it, a[0])
    return T(t.shape, t.p, dt="f64")


def x_complex128(it, a, k, node):
    t = need(it, a[0])
    return T(t.shape, t.p, dt="c128")


def x_is_tensor(it, a, k, node):
    v = it.simplify(a[0])
    return isinstance(v, T) and v.kind == "arr"


def x_isscalar(it, a, k, node):
    v = it.simplify(a[0])
    return isinstance(v, T) and v.kind in PYKINDS


def x_errstate(it, a, k, node):
    return Opq("errstate")


# -------------------------------------------------------------------------- FFT
def dft_axis(t, ax, inverse):
    n = t.shape[ax]
    r = t.rank
    p = psub_free(t.p, {("f", ax): ("f", r)})
    kern = fac(("app", "dft", (n,), (("f", ax), ("f", r))))
    if inverse:
        kern = pconj(kern) / n
    full = T(tuple(t.shape) + (n,), pmul(p, kern))
    return tsum(full, r)


def fft2(inverse):
    def f(it, a, k, node):
        t = need(it, a[0])
        s = arg(a, k, 1, "s", "shape")
        axes = arg(a, k, 2, "axes", "dim", default=None)
        axs = [-2, -1] if axes is None else [intc(x) for x in it.items_of(axes)]
        if t.rank < 2:
            raise ShapeError("fft2 of a vector")
        norm = arg(a, k, 3, "norm", default=None) if "fftpack" not in getattr(node, "_path", "") else None
        if norm not in (None, "backward", "forward", "ortho"):
            raise Opaque("fft norm")
        axs = [x % t.rank for x in axs]
        if s is not None:
            dims = shape_of(it, s)
            for x, d in zip(axs, dims):
                if t.shape[x] != d:
                    # cut or filled with zeros up to the requested length
                    sh = [d if i == x else n for i, n in enumerate(t.shape)]
                    t = app(f"resize{x}", (T(t.shape, t.p),), *sh)
        d = "c64" if is32(t.dt) else "c128"
        it.event("fft", node, inverse=inverse, axes=axs, value=t, args=a, kw=k)
        r = T(t.shape, t.p)
        for x in axs:
            r = dft_axis(r, x, inverse)
            if norm in ("forward", "ortho"):
                n = r.shape[x]
                r = T(r.shape, (pmul(r.p, n) if inverse else r.p / n) if norm == "forward"
                      else (pmul(r.p, ppow(P(n), Fr(1, 2))) if inverse else r.p / ppow(P(n), Fr(1, 2))))
        return mk(it, r, d)
    return f


x_fft_fft2, x_fft_ifft2 = fft2(False), fft2(True)
x_fftpack_fft2, x_fftpack_ifft2 = x_fft_fft2, x_fft_ifft2
x_fft2, x_ifft2 = x_fft_fft2, x_fft_ifft2


def fft1(inverse):
    def f(it, a, k, node):
        t = need(it, a[0])
        ax = intc(arg(a, k, 2, "axis", "dim", default=num(-1))) % t.rank
        return mk(it, dft_axis(T(t.shape, t.p), ax, inverse), "c64" if is32(t.dt) else "c128")
    return f


x_fft_fft, x_fft_ifft = fft1(False), fft1(True)
x_fftpack_fft, x_fftpack_ifft = x_fft_fft, x_fft_ifft


def x_fft_fftfreq(it, a, k, node):
    n = need(it, a[0])
    return mk(it, app("fftfreq", (n.p,), n.p), default_float(it))


def x_fft_fftshift(it, a, k, node):
    t = need(it, a[0])
    ax = arg(a, k, 1, "axes", "dim")
    key = vkey(ax) if ax is not None else ""
    return mk(it, app("fftshift" + key, (T(t.shape, t.p),), *t.shape), t.dt)


def x_fft_ifftshift(it, a, k, node):
    t = need(it, a[0])
    return mk(it, app("ifftshift", (T(t.shape, t.p),), *t.shape), t.dt)


# ---------------------------------------------------------------------- misc libs
def x_wraps(it, a, k, node):
    src = a[0]

    def deco(it2, args, kw, n):
        f = args[0]
        if isinstance(f, FuncV):
            g = FuncV(f.node, f.mod, f.closure, f.defaults, f.kwdefaults, f.qual, f.cls, wraps=src if isinstance(src, FuncV) else None)
            g.attrs = dict(f.attrs)
            return g
        return f
    return CallableV_(deco, "wraps:" + vkey(src))


def CallableV_(fn, key):
    from .interp import CallableV
    return CallableV(fn, key)


def x_update_wrapper(it, a, k, node):
    return a[0]


def x_partial(it, a, k, node):
    f, pre, kw0 = a[0], a[1:], dict(k)
    return CallableV_(lambda it2, args, kw, n: it2.call(f, list(pre) + list(args), {**kw0, **kw}, n), "partial:" + vkey(f) + vkey(tuple(pre)))


def x_lru_cache(it, a, k, node):
    if a and isinstance(a[0], FuncV):
        it.event("memoize", node, func=a[0])
        return a[0]

    def deco(it2, args, kw, n):
        it2.event("memoize", n, func=args[0])
        return args[0]
    return CallableV_(deco, "lru_cache")


x_cache = x_lru_cache


def x_reload(it, a, k, node):
    it.event("reload", node, module=a[0])
    return a[0]


def x_environ_get(it, a, k, node):
    return it.environ.get(a[0] if isinstance(a[0], str) else "?", a[1] if len(a) > 1 else None)


def x_Parallel(it, a, k, node):
    it.event("parallel", node, kw=k)

    def run(it2, args, kw, n):
        v = it2.simplify(args[0])
        kk, items = it2.iterate(v, n)
        if kk == "const":
            return it2.new_list(items)
        if isinstance(v, SymSeq):
            return it2.alloc("list", v)
        if isinstance(v, Opq):
            return it2.opaque("parallel(" + vkey(v) + ")", "parallel")
        K = it2.newK()
        A.UBI[K] = items[0]
        return it2.alloc("list", SymSeq(items[0], K, items[1](idx_value(K))))
    return CallableV_(run, "Parallel")


def x_delayed(it, a, k, node):
    f = a[0]
    return CallableV_(lambda it2, args, kw, n: it2.call(f, args, kw, n), "delayed:" + vkey(f))


# ------------------------------------------------------------------------ builtins
def b_len(it, a, k, node, fr):
    v = it.simplify(a[0])
    return length(it, v, node)


def length(it, v, node=None):
    if isinstance(v, Phi):
        return it.branch(v.c, lambda: length(it, it.simplify(v.a), node), lambda: length(it, it.simplify(v.b), node))
    if isinstance(v, T):
        if v.rank == 0:
            raise it.PyRaise(ExcV("TypeError", ("len of unsized object",), node))
        return T((), v.shape[0], kind="int")
    if isinstance(v, (Tup,)):
        return num(len(v.items))
    if isinstance(v, str):
        return num(len(v))
    if isinstance(v, Ref):
        o = it.h(v)
        if o.kind in ("list", "set", "dict"):
            d = o.d
            if isinstance(d, SymSeq):
                return T((), d.n, kind="int")
            if isinstance(d, (list, dict)):
                if any(isinstance(x, it.GuardedT) for x in d):
                    n = ZERO
                    for x in d:
                        n = n + (x.c if isinstance(x, it.GuardedT) else ONE)
                    return T((), n, kind="int")
                return num(len([x for x in (d if isinstance(d, list) else d.values()) if x is not UNDEF]))
            return T((), fac(("app", "len", (vkey(d),), ())), kind="int")
        f = o.cls.lookup("__len__") if o.cls else UNDEF
        if f is not UNDEF:
            return it.call_func(f, [v], {}, node)
        raise it.PyRaise(ExcV("TypeError", ("len",), node))
    if isinstance(v, SymSeq):
        return T((), v.n, kind="int")
    if isinstance(v, RangeV):
        n = v.n
        return T((), n, kind="int")
    if isinstance(v, (Opq, SymDict, SStr)):
        A.INT.add("len")
        return T((), fac(("app", "len", (vkey(v),), ())), kind="int")
    raise it.PyRaise(ExcV("TypeError", ("len",), node))


def b_range(it, a, k, node, fr):
    ts = []
    for x in a:
        x = it.simplify(x)
        if isinstance(x, Phi):
            raise it.AnalysisError("range over gate")
        t = to_T(it, x)
        if t is None:
            return it.opaque(mark_calls("range", a, k), "range", node)
        if t.kind == "float":
            raise it.PyRaise(ExcV("TypeError", ("range float",), node))
        ts.append(t.p)
    if len(ts) == 1:
        return RangeV(P(0), ts[0], P(1))
    if len(ts) == 2:
        return RangeV(ts[0], ts[1], P(1))
    return RangeV(*ts)


def b_enumerate(it, a, k, node, fr):
    st = arg(a, k, 1, "start")
    return IterV("enumerate", [a[0]] + ([st] if st is not None else []))


def b_zip(it, a, k, node, fr):
    return IterV("zip", a)


def b_map(it, a, k, node, fr):
    return IterV("map", a)


def b_reversed(it, a, k, node, fr):
    return IterV("reversed", a)


def b_iter(it, a, k, node, fr):
    return a[0]


def b_isinstance(it, a, k, node, fr):
    v = it.simplify(a[0])
    if isinstance(v, Phi):
        p = v.c * it.truth(b_isinstance(it, [v.a, a[1]], k, node, fr)) + (ONE - v.c) * it.truth(b_isinstance(it, [v.b, a[1]], k, node, fr))
        p = it.assume(p)
        return bool(p.const()) if p.const() is not None else T((), p, kind="bool")
    t = a[1]
    ts = it.items_of(t) if isinstance(t, (Tup, Ref)) else [t]
    res = ZERO
    for x in ts:
        r = isinst(it, v, x)
        if r is True:
            return True
        if r is None:
            q = fac(("bool", ("isinstance", vkey(v), vkey(x))))
            res = res + q - res * q
    if res.is_zero():
        return False
    return T((), res, kind="bool")


def isinst(it, v, t):
    if isinstance(t, ClassV):
        if isinstance(v, Ref):
            o = it.h(v)
            return o.cls is not None and t.name in o.cls.mro_names()
        if isinstance(v, SymObj):
            return v.cls is not None and t.name in v.cls.mro_names()
        return None if isinstance(v, Opq) else False
    if isinstance(t, Ext):
        n = t.path.split(".")[-1]
        if isinstance(v, (Opq,)):
            return None
        if n == "str":
            return isinstance(v, (str, SStr))
        if n == "bool":
            return isinstance(v, bool) or (isinstance(v, T) and v.kind == "bool")
        if n in ("int", "Integral"):
            return isinstance(v, bool) or (isinstance(v, T) and v.rank == 0 and v.kind in ("int", "bool"))
        if n in ("float",):
            return isinstance(v, T) and v.rank == 0 and v.kind == "float"
        if n in ("Real", "Number", "complex"):
            return isinstance(v, T) and v.rank == 0 and v.kind in (PYKINDS if n == "Number" else ("complex",) if n == "complex" else PYKINDS[:2])
        if n in ("list",):
            return isinstance(v, Ref) and it.h(v).kind == "list" or isinstance(v, SymSeq)
        if n == "tuple":
            return isinstance(v, Tup)
        if n == "dict":
            return isinstance(v, Ref) and it.h(v).kind == "dict" or isinstance(v, SymDict)
        if n in ("ndarray", "Tensor", "Array", "ArrayBox"):
            return isinstance(v, T) and v.kind == "arr" and not (n == "ndarray" and it.backend == "torch")
        if n == "slice":
            return isinstance(v, SliceV)
        if n == "Sequence":
            return isinstance(v, (Tup, str)) or isinstance(v, Ref) and it.h(v).kind == "list"
        if n in ("ModuleType",):
            return isinstance(v, Ref) and it.h(v).kind == "module" or isinstance(v, Ext)
        if n in ("object",):
            return True
        if isinstance(v, T) and n in ("integer", "floating", "generic"):
            return None if v.kind == "arr" and v.rank == 0 else False
        return None if isinstance(v, (T, Ext)) and not t.path.startswith("builtins") else False
    return None


def b_issubclass(it, a, k, node, fr):
    return isinstance(a[0], ClassV) and isinstance(a[1], ClassV) and a[1].name in a[0].mro_names()


def b_hasattr(it, a, k, node, fr):
    if isinstance(a[1], SStr):
        p = fac(("bool", ("hasattr", vkey(a[0]), vkey(a[1]))))
        return T((), p, kind="bool")
    p = it.assume(it.hasattr(a[0], a[1]))
    c = p.const()
    return bool(c) if c is not None else T((), p, kind="bool")


def b_getattr(it, a, k, node, fr):
    if not isinstance(a[1], str):
        return it.opaque(mark_calls("getattr", a, k), "dynamic attribute", node)
    if len(a) > 2:
        return it.getattr(a[0], a[1], node, default=a[2])
    return it.getattr(a[0], a[1], node)


def b_setattr(it, a, k, node, fr):
    if not isinstance(a[1], str):
        it.event("opaque_write", node, obj=a[0], dict_key=a[1], value=a[2])
        return None
    it.setattr(a[0], a[1], a[2], node)


def b_delattr(it, a, k, node, fr):
    it.delattr(a[0], a[1], node)


def b_callable(it, a, k, node, fr):
    v = it.simplify(a[0])
    if isinstance(v, (FuncV, Bound, ClassV)):
        return True
    if isinstance(v, (T, str, Tup)) or v is None:
        return False
    return T((), fac(("bool", ("callable", vkey(v)))), kind="bool")


def b_int(it, a, k, node, fr):
    if not a:
        return num(0)
    v = it.simplify(a[0])
    if isinstance(v, bool):
        return num(int(v))
    if isinstance(v, T):
        if v.rank:
            if all(d.as_int() == 1 for d in v.shape):
                v = tindex(v, [0] * v.rank)
            else:
                raise it.PyRaise(ExcV("TypeError", ("int() of array",), node))
        if v.kind == "arr":
            v = sever(it, v, "int()", node)
        c = v.p.const()
        if c is not None:
            if c.im:
                raise it.PyRaise(ExcV("TypeError", ("int() of complex",), node))
            return num(int(c.re))
        if _all_int(v.p):
            return T((), v.p, kind="int")
        return T((), fnp("int", v.p), kind="int")
    if v is None or isinstance(v, (Tup,)):
        raise it.PyRaise(ExcV("TypeError", ("int()",), node))
    if isinstance(v, str):
        try:
            return num(int(v))
        except ValueError:
            raise it.PyRaise(ExcV("ValueError", ("int()",), node))
    return it.opaque(f"int({vkey(v)})", "int", node)


def b_float(it, a, k, node, fr):
    v = it.simplify(a[0])
    if isinstance(v, bool):
        v = num(int(v))
    if isinstance(v, T):
        if v.kind == "arr":
            v = sever(it, v, "float()", node)
        if v.rank and all(d.as_int() == 1 for d in v.shape):
            v = tindex(v, [0] * v.rank)
        return T(v.shape, v.p, kind="float")
    if v is None or isinstance(v, (Tup,)):
        raise it.PyRaise(ExcV("TypeError", ("float()",), node))
    return it.opaque(f"float({vkey(v)})", "float", node)


def b_complex(it, a, k, node, fr):
    v = it.simplify(a[0])
    t = to_T(it, v)
    if t is None:
        return it.opaque(mark_calls("complex", a, k), "complex", node)
    if t.kind == "arr":
        t = sever(it, t, "complex()", node)
    p = t.p
    if len(a) > 1:
        p = p + IMAG * need(it, a[1]).p
    return T((), p, kind="complex")


def b_bool(it, a, k, node, fr):
    p = it.assume(it.truth(a[0]))
    c = p.const()
    return bool(c) if c is not None else T((), p, kind="bool")


def b_abs(it, a, k, node, fr):
    v = it.simplify(a[0])
    t = to_T(it, v) if not isinstance(v, (Ref, Tup)) else None
    if t is None:
        return it.opaque(mark_calls("abs", a, k), "abs", node)
    return x_abs(it, [t], {}, node)


def b_round(it, a, k, node, fr):
    t = to_T(it, a[0])
    if t is None:
        return it.opaque(mark_calls("round", a, k), "round", node)
    if _all_int(t.p):
        return t
    return T(t.shape, fnp("round", t.p), kind="int" if len(a) == 1 else "float")


def b_pow(it, a, k, node, fr):
    return it.binop(ast.Pow(), a[0], a[1], node)


def b_divmod(it, a, k, node, fr):
    return Tup([it.binop(ast.FloorDiv(), a[0], a[1], node), it.binop(ast.Mod(), a[0], a[1], node)])


def b_sum(it, a, k, node, fr):
    v = it.simplify(a[0])
    acc = arg(a, k, 1, "start", default=num(0))
    if isinstance(v, Opq):
        return it.opaque(mark_calls("sum", a, k), "sum", node)
    kk, items = it.iterate(v, node)
    if kk == "const":
        for x in items:
            if isinstance(x, it.GuardedT):
                x2 = to_T(it, x.v)
                if x2 is None:
                    return it.opaque(mark_calls("sum", a, k), "sum", node)
                acc = binop(it, ast.Add(), acc, T(x2.shape, pmul(x.c, x2.p), kind=x2.kind, dt=x2.dt), node)
            else:
                acc = it.binop(ast.Add(), acc, x, node)
        return acc
    K = it.newK()
    A.UBI[K] = items[0]
    t = to_T(it, items[1](idx_value(K)))
    if t is None:
        return it.opaque(mark_calls("sum", a, k), "sum", node)
    s = it.sum_over(T(t.shape, t.p), K, items[0])
    r = tadd(acc, s) if isinstance(acc, T) else s
    return T(r.shape, r.p, dt=t.dt, kind=t.kind if r.rank == 0 else "arr")


def minmax(name):
    def f(it, a, k, node, fr):
        if len(a) == 1:
            v = it.simplify(a[0])
            if isinstance(v, T):
                return globals()["x_" + name](it, [v], {}, node)
            if isinstance(v, Opq):
                return it.opaque(mark_calls(name, a, k), name, node)
            kk, items = it.iterate(v, node)
            if kk != "const":
                t = to_T(it, v)
                if t is None or k:
                    return it.opaque(mark_calls(name, a, k), name, node)
                return globals()["x_" + name](it, [t], {}, node)
        else:
            items = list(a)
        if "key" in k or not items:
            return it.opaque(mark_calls(name, a, k), name, node)
        acc = to_T(it, items[0])
        for x in items[1:]:
            x = to_T(it, x)
            if x is None or acc is None:
                return it.opaque(mark_calls(name, a, k), name, node)
            d = acc.p - x.p
            lt = it.assume(cmpp("lt", d))
            p = pmul(lt, acc.p) + pmul(ONE - lt, x.p) if name == "min" else pmul(lt, x.p) + pmul(ONE - lt, acc.p)
            kind = acc.kind if acc.kind == x.kind else "arr" if "arr" in (acc.kind, x.kind) else "float"
            acc = T(acc.shape, p, kind=kind, dt=acc.dt)
        return acc
    return f


b_min, b_max = minmax("min"), minmax("max")


def b_list(it, a, k, node, fr):
    if not a:
        return it.new_list([])
    v = it.simplify(a[0])
    if isinstance(v, Phi):
        return it.branch(v.c, lambda: b_list(it, [v.a], k, node, fr), lambda: b_list(it, [v.b], k, node, fr))
    if isinstance(v, Opq):
        return it.opaque(f"list({vkey(v)})", "list", node)
    kk, items = it.iterate(v, node)
    if kk == "const":
        return it.new_list(items)
    if isinstance(v, SymSeq):
        return it.alloc("list", v)
    K = it.newK()
    A.UBI[K] = items[0]
    return it.alloc("list", SymSeq(items[0], K, items[1](idx_value(K))))


def b_tuple(it, a, k, node, fr):
    if not a:
        return Tup([])
    v = it.simplify(a[0])
    if isinstance(v, Phi):
        return it.branch(v.c, lambda: b_tuple(it, [v.a], k, node, fr), lambda: b_tuple(it, [v.b], k, node, fr))
    if isinstance(v, Opq):
        return it.opaque(f"tuple({vkey(v)})", "tuple", node)
    kk, items = it.iterate(v, node)
    if kk == "const" and not any(isinstance(x, it.GuardedT) for x in items):
        return Tup(items)
    r = b_list(it, [v], {}, node, fr)
    o = it.h(r).d
    return o if isinstance(o, SymSeq) else r


def b_set(it, a, k, node, fr):
    if not a:
        return it.alloc("set", [])
    v = it.simplify(a[0])
    if isinstance(v, (SymSeq,)) or isinstance(v, Ref) and isinstance(it.h(v).d, SymSeq):
        s = v if isinstance(v, SymSeq) else it.h(v).d
        return Opq(f"set({vkey(s)})", "set")
    if isinstance(v, Opq):
        return Opq(f"set({v.key})", "set")
    kk, items = it.iterate(v, node)
    if kk != "const":
        return Opq(f"set({vkey(v)})", "set")
    seen, out = set(), []
    for x in items:
        if vkey(x) not in seen:
            seen.add(vkey(x))
            out.append(x)
    return it.alloc("set", out)


b_frozenset = b_set


def b_dict(it, a, k, node, fr):
    d = {}
    if a:
        v = it.simplify(a[0])
        if isinstance(v, Ref) and it.h(v).kind == "dict":
            d.update(it.h(v).d)
        elif isinstance(v, Opq):
            return it.opaque(f"dict({v.key})", "dict", node)
        else:
            for x in it.items_of(v):
                kk, vv = it.unpack(x, 2, node)
                d[it.dkey(kk)] = vv
    d.update(k)
    return it.alloc("dict", d)


def b_sorted(it, a, k, node, fr):
    v = it.simplify(a[0])
    try:
        items = it.items_of(v)
        cs = [as_const(x) if not isinstance(x, str) else x for x in items]
        if all(c is not None for c in cs) and "key" not in k:
            o = sorted(range(len(cs)), key=lambda i: cs[i], reverse=k.get("reverse") is True)
            return it.new_list([items[i] for i in o])
    except (it.AnalysisError, TypeError):
        pass
    return it.opaque(mark_calls("sorted", a, k), "sorted", node)


def b_any(it, a, k, node, fr):
    return anyall(it, a, node, True)


def b_all(it, a, k, node, fr):
    return anyall(it, a, node, False)


def anyall(it, a, node, is_any):
    v = it.simplify(a[0])
    if isinstance(v, Opq):
        return T((), fac(("bool", ("any" if is_any else "all", v.key))), kind="bool")
    kk, items = it.iterate(v, node)
    if kk == "const":
        r = ONE
        for x in items:
            g = ONE
            if isinstance(x, it.GuardedT):
                g, x = x.c, x.v
            c = it.truth(x)
            r = r * (ONE - g * c if is_any else ONE - g * (ONE - c))
        r = it.assume(ONE - r if is_any else r)
        c = r.const()
        return bool(c) if c is not None else T((), r, kind="bool")
    K = it.newK()
    A.UBI[K] = items[0]
    c = it.truth(items[1](idx_value(K)))
    if c.const() is not None:
        return bool(c.const())
    cn = psub_free(c, {K: ("f", "H")})
    if is_any:
        p = fac(("bool", ("any", cn, items[0])))
    else:
        p = ONE - fac(("bool", ("any", ONE - cn, items[0])))
    return T((), p, kind="bool")


def b_str(it, a, k, node, fr):
    if not a:
        return ""
    v = it.simplify(a[0])
    if isinstance(v, (str, SStr)):
        return v
    c = as_const(v) if isinstance(v, T) and v.kind == "int" else None
    if c is not None:
        return str(c)
    return SStr([v])


def b_repr(it, a, k, node, fr):
    return SStr([Tup(["repr", a[0]])])


def b_format(it, a, k, node, fr):
    return SStr([Tup(["format"] + list(a))])


def b_print(it, a, k, node, fr):
    it.event("print", node, args=a)
    return None


def b_type(it, a, k, node, fr):
    v = it.simplify(a[0])
    if isinstance(v, Ref) and it.h(v).cls is not None:
        return it.h(v).cls
    if isinstance(v, SymObj):
        return v.cls
    if isinstance(v, str):
        return Ext("builtins.str")
    if isinstance(v, Tup):
        return Ext("builtins.tuple")
    if isinstance(v, bool):
        return Ext("builtins.bool")
    if isinstance(v, T):
        if v.kind in PYKINDS:
            return Ext("builtins." + v.kind)
        return Ext("numpy.ndarray")
    if isinstance(v, Ref):
        return Ext("builtins." + it.h(v).kind)
    return Opq(f"type({vkey(v)})", "type")


def b_property(it, a, k, node, fr):
    return Prop(a[0])


def b_staticmethod(it, a, k, node, fr):
    return StaticM(a[0])


def b_classmethod(it, a, k, node, fr):
    return ClassM(a[0])


def b_slice(it, a, k, node, fr):
    a = list(a)
    if len(a) == 1:
        return SliceV(None, a[0], None)
    return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)


def b_id(it, a, k, node, fr):
    return Opq(f"id({vkey(a[0])})", "id")


def b_hash(it, a, k, node, fr):
    return Opq(f"hash({vkey(a[0])})", "hash")


def b_vars(it, a, k, node, fr):
    return a[0]


def b_next(it, a, k, node, fr):
    return it.opaque(mark_calls("next", a, k), "next", node)


def b___import__(it, a, k, node, fr):
    return Ext(a[0]) if isinstance(a[0], str) else Opq("import")


# ----------------------------------------------------------------- external names
def ext_attr(it, ext, name, node):
    ov = it.st.heap.get("ext")
    if ov is not None and ext.path + "." + name in ov.d:
        return ov.d[ext.path + "." + name]
    if name in ("pi",) and ext.path.split(".")[0] in LIBS:
        return T((), atom("pi"), kind="float")
    if name == "newaxis":
        return None
    if name in ("inf", "nan", "e") and ext.path.split(".")[0] in ("numpy", "math", "jax", "torch", "autograd"):
        declare(name, real=True)
        return T((), atom(name), kind="float")
    if ext.path == "sys" and name == "modules":
        if it.live_modules:
            return it.alloc("dict", {m: it.modrefs[m] for m in it.modorder})
        return Opq("sys.modules")
    if ext.path == "numpy" and name == "linalg":
        pass
    return Ext(ext.path + "." + name)


# -------------------------------------------------------------------------- tensors
ARR_METHODS = """conj conjugate sum mean max min copy clone detach cpu to double float numpy tolist ravel flatten reshape astype
item transpose dot all any argsort sort squeeze type requires_grad_ size dim cuda view fill diagonal round numel std
long int swapaxes permute argmax argmin prod repeat trace nonzero is_complex contiguous set_ cumsum type_as bool
block_until_ready device_put backward unsqueeze abs sqrt exp""".split()


def tensor_attr(it, t, name, node):
    if t.kind in PYKINDS:
        if name == "real":
            return T((), preal(t.p), kind="float" if t.kind == "complex" else t.kind)
        if name == "imag":
            return T((), pimag(t.p), kind="float" if t.kind == "complex" else t.kind)
        if name in ("conjugate", "is_integer", "bit_length", "as_integer_ratio"):
            return Meth_(t, name)
        if name in ("__add__", "__mul__"):
            return Meth_(t, name)
        return UNDEF
    if name == "T":
        return mk_view(it, t, ttranspose(t))
    if name == "mT":
        return mk_view(it, t, ttranspose(t))
    if name == "H" and it.backend == "torch":
        return mk_view(it, t, tconj(ttranspose(t)))
    if name == "shape":
        return Tup([T((), d, kind="int") for d in t.shape])
    if name == "real":
        return T(t.shape, preal(t.p), dt=real_dt(t.dt))
    if name == "imag":
        if it.backend == "torch" and t.dt is not None and t.dt not in ("c64", "c128"):
            raise it.PyRaise(ExcV("RuntimeError", ("imag",), node))
        return T(t.shape, pimag(t.p), dt=real_dt(t.dt))
    if name == "ndim":
        return num(t.rank)
    if name == "size" and (it.backend != "torch" or t.st == "numpy"):
        n = ONE
        for d in t.shape:
            n = pmul(n, d)
        return T((), n, kind="int")
    if name == "data" and it.backend == "torch":
        return sever(it, t, "data", node)
    if name == "dtype":
        return Opq("dtype:" + (t.dt or ""))
    if name == "__len__":
        return Meth_(t, name)
    if name == "at" and it.backend == "jax":
        return AtV(t)
    if name in ("device", "grad", "requires_grad", "flags", "is_cuda", "grad_fn"):
        return Opq(f"{t.key}.{name}")
    if name in ("detach", "cpu", "numpy", "requires_grad_", "clone", "to", "double", "cuda", "numel", "dim") and it.backend != "torch":
        return UNDEF
    if name in ("astype", "tolist") or name in ARR_METHODS:
        if name in ("astype", "copy", "dot", "tobytes") and it.backend == "torch" and name != "dot":
            return UNDEF
        return Meth_(t, name)
    if name in ("__iter__", "__getitem__", "__array__"):
        return Meth_(t, name)
    return UNDEF


def mk_view(it, base, t):
    t.st = base if base.st is None else base.st
    t.dt = base.dt
    return t


def Meth_(o, n):
    from .interp import Meth
    return Meth(o, n)


def call_method(it, o, name, args, kw, node):
    if isinstance(o, Phi):
        o = it.simplify(o)
    if isinstance(o, T):
        it.event("method_call", node, obj=o, name=name, args=args, kw=kw)
        try:
            return tensor_method(it, o, name, args, kw, node)
        except (ShapeError, Unsupported, Opaque) as e:
            return it.opaque(mark_calls(f"{o.key}.{name}", args, kw), f"method {name}: {e}", node)
    if isinstance(o, (str, SStr)):
        return str_method(it, o, name, args, kw, node)
    if isinstance(o, Ref):
        h = it.h(o)
        if h.kind == "list":
            return list_method(it, o, name, args, kw, node)
        if h.kind in ("dict", "module"):
            return dict_method(it, o, name, args, kw, node)
        if h.kind == "set":
            if name == "add":
                hw = it.hw(o)
                if vkey(args[0]) not in {vkey(x) for x in hw.d}:
                    hw.d = hw.d + [args[0]]
                it.event("list_write", node, obj=o, value=args[0])
                return None
    if isinstance(o, SymDict):
        if name == "get":
            return it.dict_get(o, args[0], node, default=args[1] if len(args) > 1 else None)
        if name in ("clear", "update", "pop", "setdefault", "popitem"):
            it.event("dict_write", node, obj=o, dict_key=None, value=None)
        return Opq(f"{vkey(o)}.{name}({','.join(vkey(a) for a in args)})")
    if isinstance(o, (Tup, SymSeq, RangeV)):
        if name == "__len__":
            return length(it, o, node)
        if name == "count":
            return it.opaque(mark_calls(vkey(o) + ".count", args, kw), "count", node)
        if name == "index":
            return it.opaque(mark_calls(vkey(o) + ".index", args, kw), "index", node)
        if name == "copy":
            return o
    return it.opaque(mark_calls(f"{vkey(o)}.{name}", args, kw), f"method {name}", node)


def tensor_method(it, t, name, args, kw, node):
    if name in ("conj", "conjugate"):
        return T(t.shape, pconj(t.p), dt=t.dt, kind=t.kind)
    if name in ("sum", "mean", "max", "min", "all", "any", "argsort", "squeeze", "prod", "argmax", "argmin", "std",
                "ravel", "flatten", "dot", "swapaxes", "sort", "cumsum", "unsqueeze", "abs", "sqrt", "exp"):
        return globals()["x_" + name](it, [t] + list(args), kw, node)
    if name == "reshape" or name == "view":
        if len(args) == 1:
            return x_reshape(it, [t, args[0]], {}, node)
        return x_reshape(it, [t, Tup(args)], {}, node)
    if name in ("transpose", "permute"):
        if not args:
            return mk(it, ttranspose(t), t.dt)
        if it.backend == "torch" and name == "transpose":
            return x_swapaxes(it, [t] + list(args), {}, node)
        ax = args[0] if len(args) == 1 else Tup(args)
        return x_transpose(it, [t, ax], {}, node)
    if name in ("copy", "clone"):
        return T(t.shape, t.p, dt=t.dt, kind=t.kind)
    if name in ("detach",):
        t = sever(it, t, "detach", node)
        return t
    if name in ("numpy",):
        t = sever(it, t, "numpy", node)
        return t
    if name == "item":
        t = sever(it, t, "item", node)
        if all(d.as_int() == 1 for d in t.shape):
            t = tindex(t, [0] * t.rank) if t.rank else t
        kind = {"i": "int", "b": "bool", "f64": "float", "f32": "float"}.get(t.dt, "complex" if t.dt else "float")
        return T((), t.p, kind=kind)
    if name == "requires_grad_":
        it.event("requires_grad", node, value=t, on=args[0] if args else kw.get("requires_grad", True))
        return t
    if name in ("cpu", "cuda", "contiguous", "block_until_ready"):
        return t
    if name == "to":
        d = next((d for d in map(dtype_of, list(args) + [kw.get("dtype")]) if d), None)
        return cast(it, t, d, node) if d else t
    if name in ("double",):
        return T(t.shape, t.p, dt="f64")
    if name == "float":
        return T(t.shape, t.p, dt="f32")
    if name in ("long", "int"):
        return cast(it, t, "i", node)
    if name in ("astype", "type"):
        d = dtype_of(args[0]) if args else dtype_of(kw.get("dtype"))
        r = cast(it, t, d, node)
        return T(r.shape, r.p, dt=d or t.dt)
    if name == "tolist":
        t = sever(it, t, "tolist", node)
        return tolist(it, t)
    if name == "__len__":
        return length(it, t, node)
    if name == "size":
        sh = Tup([T((), d, kind="int") for d in t.shape])
        return it.getitem(sh, args[0], node) if args else sh
    if name == "dim":
        return num(t.rank)
    if name == "numel":
        return x_size(it, [t], {}, node)
    if name == "diagonal":
        return tdiag(t)
    if name == "is_integer":
        c = t.p.const()
        if c is not None:
            return c.re.denominator == 1 and not c.im
        return T((), cmpp("eq", fnp("int", t.p) - t.p), kind="bool")
    if name == "fill":
        it.inplace(t, T(t.shape, need(it, args[0]).p, dt=t.dt), node)
        return None
    raise Opaque(name)


def tolist(it, t):
    if t.rank == 0:
        kind = {"i": "int", "b": "bool", "f64": "float", "f32": "float"}.get(t.dt, "complex" if t.dt in ("c64", "c128") else "float")
        return T((), t.p, kind=kind)
    n = t.shape[0].as_int()
    if n is not None and n <= 64:
        return it.new_list([tolist(it, tindex(T(t.shape, t.p, dt=t.dt), [i]) if True else None) for i in range(n)])
    K = it.newK()
    A.UBI[K] = t.shape[0]
    e = tindex(t, [idx_value(K)])
    e = T(e.shape, e.p, dt=t.dt)
    return it.alloc("list", SymSeq(t.shape[0], K, tolist(it, e)))


def str_method(it, s, name, args, kw, node):
    if isinstance(s, str) and all(isinstance(x, str) for x in args) and not kw and name in (
            "lower", "upper", "strip", "startswith", "endswith", "replace", "capitalize", "title", "isdigit", "find"):
        r = getattr(s, name)(*args)
        return num(r) if isinstance(r, int) and not isinstance(r, bool) else r
    if name == "format" and isinstance(s, str):
        parts = []
        import re
        pos, auto = 0, 0
        for m in re.finditer(r"\{(\w*)\}", s):
            parts.append(s[pos:m.start()])
            key = m.group(1)
            if key == "":
                v = args[auto] if auto < len(args) else None
                auto += 1
            elif key.isdigit():
                v = args[int(key)]
            else:
                v = kw.get(key)
            c = as_const(v) if isinstance(v, T) else None
            parts.append(v if isinstance(v, str) else str(c) if c is not None else v)
            pos = m.end()
        parts.append(s[pos:])
        r = SStr([p for p in parts if p != ""])
        if all(isinstance(p, str) for p in r.parts):
            return "".join(r.parts)
        return r
    if name == "join":
        try:
            items = it.items_of(args[0])
            parts = []
            for i, x in enumerate(items):
                if i:
                    parts.append(s if isinstance(s, str) else s)
                parts.extend(x.parts if isinstance(x, SStr) else [x])
            r = SStr(parts)
            return "".join(r.parts) if all(isinstance(p, str) for p in r.parts) else r
        except it.AnalysisError:
            pass
    if name in ("startswith", "endswith") and isinstance(s, SStr) and isinstance(args[0], str) and isinstance(s.parts[0], str) and name == "startswith" \
            and (len(s.parts[0]) >= len(args[0])):
        return s.parts[0].startswith(args[0])
    if name == "split" and isinstance(s, str):
        return it.new_list(s.split(*args))
    return it.opaque(mark_calls(f"{vkey(s)}.{name}", args, kw), f"str.{name}", node)


def list_method(it, o, name, args, kw, node):
    h = it.h(o)
    if name == "append":
        it.list_append(o, args[0], node)
        return None
    if name == "extend":
        it.list_extend(o, args[0], node)
        return None
    if name == "insert":
        hw = it.hw(o)
        it.event("list_write", node, obj=o, value=args[1])
        c = as_const(args[0])
        if isinstance(hw.d, list) and c is not None:
            hw.d.insert(c, args[1])
        else:
            hw.d = Opq(f"insert({vkey(h.d)},{vkey(args)})", "insert")
        return None
    if name == "pop":
        hw = it.hw(o)
        it.event("list_write", node, obj=o, value=None)
        c = as_const(args[0]) if args else -1
        if isinstance(hw.d, list) and c is not None:
            try:
                return hw.d.pop(c)
            except IndexError:
                raise it.PyRaise(ExcV("IndexError", ("pop",), node))
        r = Opq(f"pop({vkey(h.d)},{vkey(args)})", "pop")
        hw.d = Opq(f"popped({vkey(h.d)},{vkey(args)})", "pop")
        return r
    if name == "copy":
        return it.alloc("list", list(h.d) if isinstance(h.d, list) else h.d)
    if name == "__len__":
        return length(it, o, node)
    if name in ("sort", "reverse", "clear", "remove"):
        hw = it.hw(o)
        it.event("list_write", node, obj=o, value=None)
        if name == "clear":
            hw.d = []
        elif name == "reverse" and isinstance(hw.d, list):
            hw.d = hw.d[::-1]
        else:
            hw.d = Opq(f"{name}({vkey(h.d)},{vkey(args)})", name)
        return None
    if name == "index" and isinstance(h.d, list):
        r = None
        anyc = ZERO
        conds = []
        for i, x in enumerate(h.d):
            c = it.truth(it.compare(ast.Eq(), x, args[0], node))
            conds.append(c)
        none = ONE
        res = ZERO
        for i, c in enumerate(conds):
            res = res + none * c * i
            none = none * (ONE - c)
        it.mayraise(none, ExcV("ValueError", ("not in list",), node))
        return T((), it.assume(res), kind="int")
    if name == "count" and isinstance(h.d, list):
        tot = ZERO
        for x in h.d:
            tot = tot + it.truth(it.compare(ast.Eq(), x, args[0], node))
        return T((), tot, kind="int")
    return it.opaque(mark_calls(f"{vkey(h.d)}.{name}", args, kw), f"list.{name}", node)


def dict_method(it, o, name, args, kw, node):
    h = it.h(o)
    if not isinstance(h.d, dict):
        if name in ("update", "pop", "setdefault", "clear", "popitem"):
            it.event("dict_write", node, obj=o, dict_key=None, value=None)
        return it.opaque(mark_calls(f"{vkey(h.d)}.{name}", args, kw), f"dict.{name}", node)
    live = {k: v for k, v in h.d.items() if v is not UNDEF}
    kv = lambda k: num(k) if isinstance(k, (int, float)) and not isinstance(k, bool) else Tup([kv(x) for x in k]) if isinstance(k, tuple) else k
    if name == "get":
        return it.dict_get(o, args[0], node, default=args[1] if len(args) > 1 else None)
    if name == "keys":
        return Tup([kv(k) for k in live])
    if name == "values":
        return Tup(list(live.values()))
    if name == "items":
        out = []
        for k, v in live.items():
            if isinstance(v, Phi) and (v.a is UNDEF or v.b is UNDEF):
                c = v.c if v.b is UNDEF else ONE - v.c
                out.append(it.GuardedT(c, Tup([kv(k), v.a if v.b is UNDEF else v.b])))
            else:
                out.append(Tup([kv(k), v]))
        return it.new_list(out)
    if name == "copy":
        r = it.alloc("dict", dict(h.d), name=h.name)
        it.event("copy", node, src=o, dst=r)
        return r
    if name == "update":
        if args:
            m = it.simplify(args[0])
            if isinstance(m, Ref) and it.h(m).kind == "dict" and isinstance(it.h(m).d, dict):
                for k, v in it.h(m).d.items():
                    it.setitem(o, kv(k), v, node)
            elif isinstance(m, (Tup, Ref)):
                for x in it.items_of(m):
                    k, v = it.unpack(x, 2, node)
                    it.setitem(o, k, v, node)
            else:
                it.event("opaque_write", node, obj=o, dict_key=None, value=m)
        for k, v in kw.items():
            it.setitem(o, k, v, node)
        return None
    if name == "setdefault":
        k = it.dkey(args[0])
        cur = it.dict_get(o, args[0], node, default=UNDEF_DEF)
        if cur is UNDEF_DEF:
            v = args[1] if len(args) > 1 else None
            it.setitem(o, args[0], v, node)
            return v
        return cur
    if name == "pop":
        k = it.dkey(args[0])
        v = it.dict_get(o, args[0], node, default=args[1] if len(args) > 1 else UNDEF)
        it.event("dict_delete", node, obj=o, dict_key=k)
        hw = it.hw(o)
        hw.d.pop(k, None)
        return v
    if name == "clear":
        it.event("dict_write", node, obj=o, dict_key=None, value=None)
        it.hw(o).d = {}
        return None
    if name == "__len__":
        return num(len(live))
    return it.opaque(mark_calls(f"dict{o.id}.{name}", args, kw), f"dict.{name}", node)


class _UD:
    key = "UNDEF_DEF"


UNDEF_DEF = _UD()


# ---------------------------------------------------------------------- operators
def binop(it, op, a, b, node):
    nm = OPN[type(op)]
    # strings
    if isinstance(a, (str, SStr)) or isinstance(b, (str, SStr)):
        if nm == "add" and isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            pa = a.parts if isinstance(a, SStr) else (a,)
            pb = b.parts if isinstance(b, SStr) else (b,)
            r = SStr(list(pa) + list(pb))
            if all(isinstance(p, str) for p in r.parts):
                return "".join(r.parts)
            return r
        if nm == "mod" and isinstance(a, str):
            return SStr([a, Tup(["%", b])])
        if nm == "mul":
            c = as_const(b if isinstance(a, str) else a)
            s = a if isinstance(a, str) else b
            if c is not None and isinstance(s, str):
                return s * c
            return SStr([Tup(["rep", a, b])])
        if not isinstance(a, Opq) and not isinstance(b, Opq):
            raise it.PyRaise(ExcV("TypeError", ("string operand",), node))
    # sequences
    la = isinstance(a, Ref) and it.h(a).kind == "list"
    lb = isinstance(b, Ref) and it.h(b).kind == "list"
    if isinstance(a, Tup) and isinstance(b, Tup) and nm == "add":
        return Tup(a.items + b.items)
    if la and lb and nm == "add":
        da, db = it.h(a).d, it.h(b).d
        if isinstance(da, list) and isinstance(db, list):
            return it.new_list(da + db)
        return it.alloc("list", seq_concat(it, da, db))
    if (isinstance(a, Tup) or la) and nm == "mul" and is_py(b) or (isinstance(b, Tup) or lb) and nm == "mul" and is_py(a):
        s, n = (a, b) if (isinstance(a, Tup) or la) else (b, a)
        c = as_const(n)
        items = list(s.items) if isinstance(s, Tup) else it.h(s).d
        if isinstance(c, int) and isinstance(items, list):
            return Tup(items * c) if isinstance(s, Tup) else it.new_list(items * c)
        if isinstance(items, list) and len(items) == 1:
            K = it.newK()
            A.UBI[K] = n.p
            return it.alloc("list", SymSeq(n.p, K, items[0])) if not isinstance(s, Tup) else SymSeq(n.p, K, items[0])
        return it.opaque(f"repeat({vkey(s)},{vkey(n)})", "list repetition", node)
    if isinstance(a, bool):
        a = num(a)
    if isinstance(b, bool):
        b = num(b)
    # objects with operator methods
    for x, y, m in ((a, b, f"__{nm}__"), (b, a, f"__r{nm}__")):
        if isinstance(x, Ref) and it.h(x).kind == "obj" and it.h(x).cls is not None:
            f = it.h(x).cls.lookup(m)
            if f is not UNDEF:
                return it.call_func(f, [x, y], {}, node)
    if isinstance(a, T) or isinstance(b, T):
        # array with list operand
        arr = (isinstance(a, T) and a.kind == "arr") or (isinstance(b, T) and b.kind == "arr")
        if not isinstance(a, T) and arr and (isinstance(a, (Tup, SymSeq)) or la):
            a2 = to_T(it, a)
            a = a2 if a2 is not None else a
        if not isinstance(b, T) and arr and (isinstance(b, (Tup, SymSeq)) or lb):
            b2 = to_T(it, b)
            b = b2 if b2 is not None else b
    if isinstance(a, T) and isinstance(b, T):
        try:
            return arith(it, nm, a, b, node)
        except (ShapeError, Unsupported, Opaque) as e:
            return it.opaque(f"{nm}({a.key},{b.key})", f"{nm}: {e}", node)
    if a is None or b is None or isinstance(a, (FuncV, ClassV)) or isinstance(b, (FuncV, ClassV)):
        raise it.PyRaise(ExcV("TypeError", (f"{nm}: {a!r}, {b!r}",), node))
    if isinstance(a, (Tup,)) or isinstance(b, Tup) or la or lb:
        if not isinstance(a, Opq) and not isinstance(b, Opq):
            raise it.PyRaise(ExcV("TypeError", (f"{nm}: sequence operand",), node))
    return it.opaque(f"{nm}({vkey(a)},{vkey(b)})", f"{nm} on an opaque operand", node)


def seq_concat(it, a, b):
    return Opq(f"concat({vkey(a)},{vkey(b)})", "list concatenation")


def arith(it, nm, a, b, node):
    py = a.kind in PYKINDS and b.kind in PYKINDS
    dt = None if py else promote(it, a, b)
    order = {"bool": 0, "int": 1, "float": 2, "complex": 3}
    kind = max((a.kind, b.kind), key=lambda x: order[x]) if py else "arr"
    if kind == "bool" and nm not in ("and", "or", "xor"):
        kind = "int"
    if nm == "matmul":
        if a.rank == 0 or b.rank == 0:
            raise it.PyRaise(ExcV("ValueError", ("matmul: scalar operand",), node))
        return x_matmul(it, [a, b], {}, node)
    if nm in ("add", "sub", "mul", "div", "pow", "floordiv", "mod"):
        n0 = len(A.MISMATCH)
        sh, (p, q) = bcast([a, b])
        if len(A.MISMATCH) > n0:
            it.event("shape_mismatch", node, a=a.shape, b=b.shape)
            del A.MISMATCH[n0:]
    if nm == "add":
        r = p + q
    elif nm == "sub":
        r = p - q
    elif nm == "mul":
        r = pmul(p, q)
    elif nm == "div":
        c = q.const()
        if c is not None and not c and py:
            raise it.PyRaise(ExcV("ZeroDivisionError", (), node))
        r = pmul(p, ppow(q, Fr(-1)))
        kind = {"int": "float"}.get(kind, kind)
        if dt in ("i", "b"):
            dt = default_float(it)
    elif nm == "pow":
        t = tpow(T(a.shape, a.p), b if b.rank or b.p.const() is None else Fr(b.p.const().re) if not b.p.const().im else b)
        r = t.p
        if py and kind == "int" and b.p.const() is not None and b.p.const().re < 0:
            kind = "float"
        if a.kind in PYKINDS and b.kind in PYKINDS and b.kind == "float":
            kind = "float" if a.kind != "complex" else "complex"
        if t.rank != len(sh):
            r = psub_free(t.p, {})
    elif nm == "floordiv":
        ca, cb = p.const(), q.const()
        if ca is not None and cb is not None and not ca.im and not cb.im:
            r = P(ca.re // cb.re)
        elif cb is not None and cb == ONE_G:
            r = p
        else:
            r = floordiv(p, q)
    elif nm == "mod":
        ca, cb = p.const(), q.const()
        if ca is not None and cb is not None and not ca.im and not cb.im:
            r = P(ca.re % cb.re)
        else:
            r = p - pmul(floordiv(p, q), q)
    elif nm in ("and", "or", "xor"):
        sh, (p, q) = bcast([a, b])
        if (a.dt == "b" or a.kind == "bool") and (b.dt == "b" or b.kind == "bool"):
            r = pmul(p, q) if nm == "and" else p + q - pmul(p, q) if nm == "or" else p + q - 2 * pmul(p, q)
            if py:
                kind = "bool"
            else:
                dt = "b"
        elif p.const() is not None and q.const() is not None:
            x, y = int(p.const().re), int(q.const().re)
            r = P(x & y if nm == "and" else x | y if nm == "or" else x ^ y)
        else:
            raise Opaque("bitwise")
    elif nm in ("lshift",):
        c = b.p.as_int()
        if c is None or c < 0:
            raise Opaque("shift")
        sh, r = a.shape, a.p * P(2 ** c)
    else:
        raise Opaque(nm)
    return T(sh, r, dt=dt, kind=kind if len(sh) == 0 and py else "arr")


def floordiv(p, q):
    """floor(p/q) of integer polynomials; integer parts are pulled out"""
    c = q.as_int()
    if c is not None and c > 0 and _all_int(p):
        whole, rest = {}, {}
        for m, g in p.t:
            if not g.im and g.re.denominator == 1:
                k = g.re // c
                w = G(k)
                rr = G(g.re - k * c)
                if w:
                    whole[m] = w
                if rr:
                    rest[m] = rr
            else:
                rest[m] = g
        w, r = Poly(whole), Poly(rest)
        if r.is_zero():
            return w
        return w + fnp("floor", r / P(c))
    return fnp("floor", p / q)


def compare(it, op, a, b, node):
    o = type(op)
    if o in (ast.Is, ast.IsNot):
        r = same(it, a, b)
        if o is ast.IsNot:
            r = (not r) if isinstance(r, bool) else T((), ONE - r.p, kind="bool")
        return r
    if o in (ast.In, ast.NotIn):
        r = contains(it, a, b, node)
        if o is ast.NotIn:
            r = (not r) if isinstance(r, bool) else T((), ONE - r.p, kind="bool")
        return r
    if o in (ast.Eq, ast.NotEq):
        r = equals(it, a, b, node)
        if o is ast.NotEq:
            if isinstance(r, bool):
                return not r
            if isinstance(r, T):
                return T(r.shape, ONE - r.p, dt=r.dt, kind=r.kind)
            return it.opaque(f"not({vkey(r)})", "!=", node)
        return r
    # ordering
    if isinstance(a, bool):
        a = num(a)
    if isinstance(b, bool):
        b = num(b)
    if isinstance(a, T) and not isinstance(b, T):
        b2 = to_T(it, b) if not isinstance(b, (str, SStr)) and b is not None else None
        if b2 is not None and a.kind == "arr":
            b = b2
    if isinstance(b, T) and not isinstance(a, T):
        a2 = to_T(it, a) if not isinstance(a, (str, SStr)) and a is not None else None
        if a2 is not None and b.kind == "arr":
            a = a2
    if isinstance(a, T) and isinstance(b, T):
        if "complex" in (a.kind, b.kind):
            raise it.PyRaise(ExcV("TypeError", ("ordering of complex",), node))
        sh, (p, q) = bcast([a, b])
        d = p - q
        if o is ast.Lt:
            r = cmpp("lt", d)
        elif o is ast.GtE:
            r = ONE - cmpp("lt", d)
        elif o is ast.Gt:
            r = cmpp("lt", -d)
        else:
            r = ONE - cmpp("lt", -d)
        return mkbool(it, sh, r, a, b)
    if a is None or b is None or isinstance(a, (str, Tup)) != isinstance(b, (str, Tup)):
        if not isinstance(a, Opq) and not isinstance(b, Opq):
            raise it.PyRaise(ExcV("TypeError", (f"ordering {a!r} {b!r}",), node))
    return T((), fac(("bool", (o.__name__, vkey(a), vkey(b)))), kind="bool")


def mkbool(it, sh, r, a, b):
    if not sh:
        r = it.assume(r)
        c = r.const()
        if c is not None and a.kind in PYKINDS and b.kind in PYKINDS:
            return bool(c)
        return T((), r, kind="bool" if a.kind in PYKINDS and b.kind in PYKINDS else "arr", dt=None if a.kind in PYKINDS and b.kind in PYKINDS else "b")
    return T(sh, r, dt="b")


def same(it, a, b):
    if a is None or b is None:
        if a is None and b is None:
            return True
        x = b if a is None else a
        if isinstance(x, Opq):
            return T((), fac(("bool", ("is None", x.key))), kind="bool")
        return False
    if isinstance(a, bool) or isinstance(b, bool):
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        x, y = (a, b) if isinstance(a, bool) else (b, a)
        if isinstance(y, T) and y.kind == "bool":
            return mkbool(it, (), y.p if x else ONE - y.p, num(0), num(0))
        if isinstance(y, T):
            return False
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a == b
    if isinstance(a, SymObj) and isinstance(b, SymObj):
        return equals(it, a, b, None)
    if a is b:
        return True
    if isinstance(a, (ClassV, FuncV, Ext)) and isinstance(b, (ClassV, FuncV, Ext)):
        return vkey(a) == vkey(b)
    if isinstance(a, T) and isinstance(b, T) and a.kind == "int" and b.kind == "int":
        return equals(it, a, b, None)
    if it.lets is not None and isinstance(a, T) and isinstance(b, T) and a.rank and b.rank and a.key != b.key:
        # one object has one value: different value numbers, different arrays
        return False
    return T((), fac(("bool", ("is", vkey(a), vkey(b)))), kind="bool")


def contains(it, a, b, node):
    if isinstance(b, Ref):
        h = it.h(b)
        if h.kind in ("dict", "module"):
            if isinstance(h.d, dict):
                k = it.dkey(a)
                if isinstance(k, (T, SStr, Opq, Tup)):
                    if any(vkey(kk) == vkey(k) for kk in h.d):
                        return True
                    p = ZERO
                    if isinstance(k, T):
                        for kk in h.d:
                            if isinstance(kk, (int, float)) and not isinstance(kk, bool) or isinstance(kk, T):
                                c = cmpp("eq", k.p - (kk.p if isinstance(kk, T) else P(kk)))
                                p = p + c - p * c
                        return mkbool(it, (), p, num(0), num(0))
                    return T((), fac(("bool", ("in", vkey(a), vkey(b)))), kind="bool") if h.d else False
                v = h.d.get(k, UNDEF)
                if isinstance(v, Phi):
                    v = it.simplify(v)
                if v is UNDEF:
                    return False
                if isinstance(v, Phi) and (v.a is UNDEF or v.b is UNDEF):
                    c = v.c if v.b is UNDEF else ONE - v.c
                    return mkbool(it, (), c, num(0), num(0))
                return True
            return T((), fac(("bool", ("in", vkey(a), vkey(h.d)))), kind="bool")
        if h.kind == "obj":
            f = h.cls.lookup("__contains__") if h.cls else UNDEF
            if f is not UNDEF:
                return it.call_func(f, [b, a], {}, node)
    if isinstance(b, (str, SStr)) :
        if isinstance(a, str) and isinstance(b, str):
            return a in b
        return T((), fac(("bool", ("in", vkey(a), vkey(b)))), kind="bool")
    if isinstance(b, SymDict):
        v, present = b.tmpl(it, b, a)
        it.event("dict_get", node, obj=b, dict_key=a)
        return mkbool(it, (), present, num(0), num(0))
    if isinstance(b, Opq):
        return T((), fac(("bool", ("in", vkey(a), vkey(b)))), kind="bool")
    kk, items = it.iterate(b, node)
    if kk == "const":
        r = ONE
        for x in items:
            g = ONE
            if isinstance(x, it.GuardedT):
                g, x = x.c, x.v
            e = it.truth(equals(it, x, a, node))
            r = r * (ONE - g * e)
        return mkbool(it, (), ONE - r, num(0), num(0))
    K = it.newK()
    A.UBI[K] = items[0]
    c = it.truth(equals(it, items[1](idx_value(K)), a, node))
    if c.const() is not None:
        return bool(c.const())
    return T((), fac(("bool", ("any", psub_free(c, {K: ("f", "H")}), items[0]))), kind="bool")


def equals(it, a, b, node):
    a, b = it.simplify(a), it.simplify(b)
    if isinstance(a, Phi):
        p = it.assume(a.c * it.truth(equals(it, a.a, b, node)) + (ONE - a.c) * it.truth(equals(it, a.b, b, node)))
        return mkbool(it, (), p, num(0), num(0))
    if isinstance(b, Phi):
        return equals(it, b, a, node)
    if isinstance(a, bool):
        a = num(a)
    if isinstance(b, bool):
        b = num(b)
    if a is None or b is None:
        if a is None and b is None:
            return True
        x = b if a is None else a
        if isinstance(x, Opq):
            return T((), fac(("bool", ("is None", x.key))), kind="bool")
        if isinstance(x, T) and x.rank:
            return T(x.shape, ZERO, dt="b")
        return False
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        if vkey(a) == vkey(b):
            return True
        if str_disjoint(a, b):
            return False
        r = sstr_eq(it, a, b)
        if r is not None:
            return r
        return T((), fac(("bool", ("streq",) + tuple(sorted([vkey(a), vkey(b)])))), kind="bool")
    if isinstance(a, (str, SStr)) != isinstance(b, (str, SStr)):
        if isinstance(a, Opq) or isinstance(b, Opq):
            return T((), fac(("bool", ("eq",) + tuple(sorted([vkey(a), vkey(b)])))), kind="bool")
        return False
    if isinstance(a, T) and isinstance(b, T):
        sh, (p, q) = bcast([a, b])
        return mkbool(it, sh, cmpp("eq", p - q), a, b)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, T) and isinstance(y, (Tup, SymSeq)) or isinstance(x, T) and isinstance(y, Ref) and it.h(y).kind == "list":
            if x.kind == "arr":
                t = to_T(it, y)
                if t is not None:
                    sh, (p, q) = bcast([x, t])
                    return T(sh, cmpp("eq", p - q), dt="b")
            return False
    def seq(x):
        if isinstance(x, Tup):
            return list(x.items), "t"
        if isinstance(x, Ref) and it.h(x).kind == "list" and isinstance(it.h(x).d, list):
            return it.h(x).d, "l"
        return None, None
    sa, ka = seq(a)
    sb, kb = seq(b)
    if sa is not None and sb is not None:
        if ka != kb or len(sa) != len(sb):
            return False
        r = ONE
        for x, y in zip(sa, sb):
            e = equals(it, x, y, node)
            r = r * it.truth(e)
        return mkbool(it, (), r, num(0), num(0))
    if isinstance(a, Ref) and isinstance(b, Ref):
        oa = it.h(a)
        if oa.kind == "obj" and oa.cls is not None and oa.cls.lookup("__eq__") is not UNDEF:
            return it.call_func(oa.cls.lookup("__eq__"), [a, b], {}, node)
        if a == b:
            return True
        if oa.kind in ("obj", "module"):
            return False
    if isinstance(a, SymObj) and isinstance(b, SymObj):
        if a.fam != b.fam:
            return False
        if a.idx is None and b.idx is None or skey(a.idx) == skey(b.idx):
            return True
        return mkbool(it, (), cmpp("eq", idx_value(a.idx) - idx_value(b.idx)), num(0), num(0))
    if vkey(a) == vkey(b):
        return True
    if isinstance(a, (FuncV, ClassV, Ext)) and isinstance(b, (FuncV, ClassV, Ext)):
        return False
    if isinstance(a, (T, Tup)) and isinstance(b, (T, Tup)):
        return False
    if isinstance(a, Ref) and it.h(a).kind == "obj" and not isinstance(b, Opq) or isinstance(b, Ref) and it.h(b).kind == "obj" and not isinstance(a, Opq):
        return False
    return T((), fac(("bool", ("eq",) + tuple(sorted([vkey(a), vkey(b)])))), kind="bool")


def str_disjoint(a, b):
    """provably different strings"""
    pa = a.parts if isinstance(a, SStr) else (a,)
    pb = b.parts if isinstance(b, SStr) else (b,)
    if pa and pb and isinstance(pa[0], str) and isinstance(pb[0], str):
        n = min(len(pa[0]), len(pb[0]))
        if pa[0][:n] != pb[0][:n]:
            return True
    if pa and pb and isinstance(pa[-1], str) and isinstance(pb[-1], str):
        n = min(len(pa[-1]), len(pb[-1]))
        if n and pa[-1][-n:] != pb[-1][-n:]:
            return True
    return False


def sstr_eq(it, a, b):
    """same literal skeleton: equal iff the (integer) parts are"""
    if not (isinstance(a, SStr) and isinstance(b, SStr)) or len(a.parts) != len(b.parts):
        return None
    r = ONE
    for x, y in zip(a.parts, b.parts):
        if isinstance(x, str) or isinstance(y, str):
            if x != y:
                return None
            continue
        if isinstance(x, T) and isinstance(y, T) and x.rank == 0 and y.rank == 0:
            r = r * cmpp("eq", x.p - y.p)
        else:
            return None
    lits = [x for x in a.parts if isinstance(x, str)]
    # adjacent holes without a separator are ambiguous
    for x, y in zip(a.parts, a.parts[1:]):
        if not isinstance(x, str) and not isinstance(y, str):
            return None
    return mkbool(it, (), r, num(0), num(0))
