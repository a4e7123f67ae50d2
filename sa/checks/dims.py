"""C16: dimensional analysis of value numbers (degree in lengths)."""
import os
import time
from itertools import product
from fractions import Fraction as Fr
from .. import algebra as A
from ..algebra import *
from ..values import *
from ..ctx import sym, Ctx
from ..phys import SimCtx
from ..interp import AnalysisError
from .fields import set_S, solve

# inputs that are lengths; every other input is a number
LENGTHS = {"lam", "ux", "uy", "vx", "vy", "period", "z", "cx", "cy", "rad", "wid"}
PURE = {"exp", "sin", "cos", "tan", "log", "log10", "tanh", "sinh", "cosh", "arctan", "arcsin", "arccos", "atan", "floor",
        "ceil", "round", "int", "trunc", "rint"}
SAME = {"abs", "conj", "real", "imag", "re", "im"}
# functions of arrays: the degree of the result is that of the (first) argument
KEEP = {"eigval", "sort", "max", "min", "reshape", "flatten", "norm", "gradient", "amax", "amin", "fftshift", "ifftshift", "trace"}
NONE = {"eigvec", "argsort", "first", "len", "dft", "fftfreq", "argmin", "argmax"}


class Mixed(Exception):
    pass


class Unknown(Exception):
    pass


def flat(vs):
    return all(x == vs[0] for x in vs)


def at(v, k):
    if k < len(v):
        return v[k]
    if flat(v):
        return v[0]
    raise Unknown("blocks")


class Dims:
    """degree in lengths of a value number.  Tables that hold different quantities in
    different blocks (the electric and the magnetic rows of an interface matrix) have a
    degree  base + (a number per block)  along each axis; a contraction is homogeneous when
    the gradings of the axes that meet cancel."""

    def __init__(self, it, lengths=(), given=None):
        self.it = it
        self.len = LENGTHS | set(lengths)
        self.table = dict(given or {})
        self.defs = {}
        self.memo = {}
        self.busy = set()

    def of(self, x):
        """the degree; None for zero.  Raises Mixed when terms or entries differ."""
        g = self.graded(x)
        if g is None:
            return None
        base, vec = g
        for i, v in vec.items():
            if not flat(v):
                raise Mixed(f"entries of different dimension along an axis: length^{sorted(set(base + y for y in v))}")
            base += v[0]
        return base

    def graded(self, x):
        if isinstance(x, T):
            x = x.p
        if not isinstance(x, Poly):
            raise Unknown(repr(x)[:120])
        k = id(x)
        if k not in self.memo:
            self.memo[k] = (x, self.poly(x))
        return self.memo[k][1]

    def poly(self, x):
        terms = []
        for (bd, fs), c in x.t:
            base, vec, where = Fr(0), {}, {}
            zero = False
            for f, e in fs:
                if f[0] == "delta":
                    for i, j in ((f[1], f[2]), (f[2], f[1])):
                        if i[0] in ("f", "b") and j[0] in ("inj", "c"):
                            where[i] = j[1]
                    if f[1][0] in ("f", "b") and f[2][0] in ("f", "b"):
                        where.setdefault(f[1], f[2])
                    continue
                g = self.factor(f)
                if g is None:
                    zero = zero or e > 0
                    continue
                base += g[0] * e
                for i, v in g[1].items():
                    if i[0] == "inj" or i[0] == "c":
                        base += at(v, i[1]) * e
                    elif i[0] == "e":
                        if not flat(v):
                            raise Unknown("position in a table of different quantities")
                        base += v[0] * e
                    else:
                        w = vec.get(i)
                        v = tuple(y * e for y in v)
                        if w is not None and len(w) != len(v):
                            if not flat(w) and not flat(v):
                                raise Unknown("blocks")
                            w, v = (w, (v[0],) * len(w)) if not flat(w) else ((w[0],) * len(v), v)
                        vec[i] = v if w is None else tuple(p + q for p, q in zip(v, w))
            if zero:
                continue
            # d(i, j): the gradings of both names of the same position add up
            for i, j in list(where.items()):
                if isinstance(j, tuple):
                    del where[i]
                    if i in vec:
                        v = vec.pop(i)
                        w = vec.get(j)
                        vec[j] = v if w is None else tuple(p + q for p, q in zip(v, w))
            for i in list(vec):
                if i in where:
                    base += at(vec.pop(i), where[i])
            m = ((bd, fs), c)
            for i in list(vec):
                if i[0] == "b":
                    v = vec.pop(i)
                    if not flat(v):
                        raise Mixed(f"the terms of the sum {self.mono(m)} have dimensions length^{sorted(set(base + y for y in v))}")
                    base += v[0]
            terms.append((base, vec, {i: k for i, k in where.items() if i[0] == "f"}, m))
        if not terms:
            return None
        axes = {}
        for base, vec, where, m in terms:
            for i, v in vec.items():
                if not flat(v):
                    axes[i] = max(axes.get(i, 0), len(v))
            for i, k in where.items():
                axes[i] = max(axes.get(i, 0), k + 1)
        order = sorted(axes, key=A.skey)
        cells = {}
        for base, vec, where, m in terms:
            rng = [[where[i]] if i in where else range(axes[i]) for i in order]
            extra = sum((v[0] for i, v in vec.items() if i not in axes), Fr(0))
            for pos in product(*rng):
                d = base + extra
                for i, k in zip(order, pos):
                    v = vec.get(i)
                    if v is not None:
                        d += at(v, k)
                if pos in cells and cells[pos][0] != d:
                    raise Mixed(f"adds {self.mono(cells[pos][1])} [length^{cells[pos][0]}] and {self.mono(m)} [length^{d}]")
                cells.setdefault(pos, (d, m))
        # degree of a cell = base + sum over the axes
        pot = {}
        todo = sorted(cells)
        base = cells[todo[0]][0]
        for n, k in enumerate(todo[0]):
            pot[n, k] = Fr(0)
        for _ in range(len(todo) + 1):
            for pos in todo:
                un = [(n, k) for n, k in enumerate(pos) if (n, k) not in pot]
                if len(un) == 1:
                    pot[un[0]] = cells[pos][0] - base - sum(pot[q] for q in enumerate(pos) if q in pot)
        # a block that shares no row or column with the others can be graded freely
        for _ in range(sum(axes.values())):
            left = next(((pos, [q for q in enumerate(pos) if q not in pot]) for pos in todo if any(q not in pot for q in enumerate(pos))), None)
            if left is None:
                break
            pot[left[1][0]] = Fr(0)
            for _ in range(len(todo) + 1):
                for pos in todo:
                    un = [q for q in enumerate(pos) if q not in pot]
                    if len(un) == 1:
                        pot[un[0]] = cells[pos][0] - base - sum(pot[q] for q in enumerate(pos) if q in pot)
        for pos in todo:
            if base + sum(pot[q] for q in enumerate(pos)) != cells[pos][0]:
                raise Mixed(f"the blocks of a matrix have dimensions {dict((q, str(r[0])) for q, r in cells.items())}: no unit per row and column")
        return base, {i: tuple(pot.get((n, k), Fr(0)) for k in range(axes[i])) for n, i in enumerate(order)}

    def mono(self, m):
        s = A.show(Poly({m[0]: m[1]}))
        return s if len(s) < 120 else s[:120] + "..."

    def zero_dim(self, x, what):
        d = self.of(x)
        if d not in (None, 0):
            raise Mixed(f"{what} of a quantity of dimension length^{d}: {A.show(x.p if isinstance(x, T) else x)[:150]}")

    def plain(self, x):
        d = self.of(x)
        return None if d is None else (d, {})

    def factor(self, f):
        """(base, {index: grading}) of one factor"""
        t = f[0]
        one = (Fr(0), {})
        if t == "atom":
            g = self.atom(f[1])
            if g is None:
                return None
            vec = {}
            base = g[0]
            for i, v in g[1].items():
                ix = f[2][i[1]]
                if ix in vec:
                    vec[ix] = tuple(p + q for p, q in zip(vec[ix], v))
                else:
                    vec[ix] = v
            return base, vec
        if t == "conj":
            return self.factor(f[1])
        if t in ("ival", "num", "div0"):
            return one
        if t == "cmp":
            self.graded(f[2])
            return one
        if t == "bool":
            self.inside(f[1])
            return one
        if t == "sum":
            g = self.graded(f[1])
            if g is not None and any(not flat(v) and i[0] == "b" for i, v in g[1].items()):
                raise Unknown("table of different quantities under a power")
            return g
        if t == "inv":
            g = self.graded(f[1])
            if g is None:
                return one
            r, c = g[1].get(("f", 0)), g[1].get(("f", 1))
            vec = {}
            for ix, v in ((f[2], c), (f[3], r)):
                if v is not None:
                    v = tuple(-y for y in v)
                    vec[ix] = v if ix not in vec else tuple(p + q for p, q in zip(v, vec[ix]))
            return -g[0], vec
        if t == "fn":
            if f[1] in PURE:
                self.zero_dim(f[2], f[1])
                return one
            if f[1] in SAME:
                return self.plain(f[2])
            if f[1] in ("sqrt",):
                d = self.of(f[2])
                return None if d is None else (d / 2, {})
            if f[1] in ("angle", "sign", "heaviside"):
                self.of(f[2])
                return one
            if f[1] == "atan2":
                # y + marker x: both coordinates are like quantities
                self.table["!2"] = (Fr(0), {})
                self.of(f[2])
                return one
            raise Unknown(f"function {f[1]}")
        if t == "app":
            n = f[1].rstrip("0123456789")
            if n.startswith("fftshift") or n.startswith("resize"):
                n = "fftshift"
            ds = [self.of(a) for a in f[2] if isinstance(a, (T, Poly))]
            if n in NONE:
                return one
            if n in ("max", "min", "amax", "amin", "maximum", "minimum"):
                dd = {d for d in ds if d is not None}
                if len(dd) > 1:
                    raise Mixed(f"{n} of quantities of different dimension")
                return (dd.pop(), {}) if dd else None
            if n in KEEP:
                return None if ds[0] is None else (ds[0], {})
            if all(d in (None, 0) for d in ds):
                return one
            raise Unknown(f"function {f[1]} of a dimensional quantity")
        raise Unknown(t)

    def inside(self, x):
        if isinstance(x, (T, Poly)):
            self.graded(x)
        elif isinstance(x, tuple):
            for y in x:
                self.inside(y)

    def atom(self, n):
        if n in self.table:
            return self.table[n]
        n = str(n)
        d = (Fr(0), {})
        if n in self.len or n.startswith("d_"):
            d = (Fr(1), {})
        else:
            v = self.defs.get(n)
            if v is None:
                v = self.it.defs.get(n)
            if v is None:
                v = self.it.letdefs.get(n)
            if isinstance(v, T):
                if n in self.busy:
                    raise Unknown(f"{n} defined by itself")
                self.busy.add(n)
                try:
                    d = self.graded(v)
                except Mixed as e:
                    raise Mixed(f"{n}: {e}")
                finally:
                    self.busy.discard(n)
        self.table[n] = d
        return d


def homogeneous(rep, D, v, con, want=0, each=True):
    """want: the degree, or None if any"""
    if not isinstance(v, T):
        rep.unknown("homogeneous", con, f"not modelled: {repr(v)[:150]}")
        return
    try:
        d = D.of(v) if want is not None else D.graded(v)
    except Mixed as e:
        rep.bad("homogeneous", con, str(e))
        return
    except Unknown as e:
        rep.unknown("homogeneous", con, str(e))
        return
    if want is None or d is None:
        rep.ok("homogeneous", con)
    else:
        rep.check(d == want, "dimension", con, f"scales as length^{d} instead of length^{want}")


def items(it, v):
    if isinstance(v, T):
        return [v]
    out = []
    for x in it.items_of(v):
        out += items(it, x)
    return out


def c16(rep):
    confs = [("numpy", True, "original", "upu"), ("numpy", True, "original", "uau"), ("numpy", True, "tangent", "upu"),
             ("torch", True, "original", "upu"), ("numpy", False, "original", "upu"), ("jax", True, "pol", "upu"),
             ("numpy", False, "tangent", "upu"), ("torch", True, "jones", "upu"), ("numpy", True, "original", "uu")]
    if rep.tier == "thorough":
        confs += [(b, d, f, k) for b in ("numpy", "torch", "jax", "autograd", "scipy") for d in (True, False)
                  for f in (("original", "tangent", "pol", "jones") if d else ("original", "tangent")) for k in ("upu", "uau")]
        confs = list(dict.fromkeys(confs))

    def one(rep, job):
        what, cf = job
        t0 = time.time()
        globals()["_" + what](rep, *cf)
        if os.environ.get("SA_DEBUG"):
            print(what, cf, round(time.time() - t0, 1))
    jobs = [("sim", cf) for cf in confs] + [("smat", (b, True, "original", k)) for b in ("numpy", "torch", "jax") for k in ("upu", "ua")]
    jobs += [("lattice", (b,)) for b in ("numpy", "torch", "jax")]
    rep.fan(one, jobs)


def layer_defs(it, D):
    """keep what the free symbols of every layer stand for"""
    for k, f in list(it.cuts.items()):
        if k[0] != "Layer":
            continue

        def g(it, v, obj, f=f):
            nv = f(it, v, obj)
            if isinstance(nv, T) and isinstance(v, T):
                for n in A.atoms_of(nv.p) - A.atoms_of(v.p):
                    D.defs[n] = v
            return nv
        it.cuts[k] = g


def _sim(rep, b, two_d, form, kinds):
    c = SimCtx(b, two_d, form, kinds, modes=True, plane_orders=not two_d)
    it, sim = c.it, c.sim
    set_S(c)
    D = Dims(it)
    layer_defs(it, D)
    if two_d:
        it.start_naming()
    solve(c)
    z = sym("z", real=True)
    con = lambda s: f"{s}, {c.tag}"
    for a, d in (("kx", -1), ("ky", -1), ("omega", -1), ("a0", 0), ("incident_flux", 0), ("k0para", -1)):
        homogeneous(rep, D, c.S(a), con(a), d)
    for a, d in (("wavelength", 1), ("wavenumber", -1), ("wavevector", -1), ("amplitude", 0), ("a0", 0), ("frequency_scaled", -1), ("angles", 0)):
        if a in it.h(c.pw).d:
            homogeneous(rep, D, it.getattr(c.pw, a), con(f"{a} of the plane wave"), d)
    for i, l in enumerate(c.layers):
        for a, d in (("eigenvalues", -1), ("eigenvectors", 0), ("Qeps", None), ("thickness", 1)):
            homogeneous(rep, D, it.getattr(l, a), con(f"{a} of layer {i} ({kinds[i]})"), d)
    for n, v in list(it.defs.items()) + list(D.defs.items()):
        if isinstance(v, T):
            homogeneous(rep, D, v, con(f"definition of {n}"), None)
    for i in range(len(kinds)):
        f = c.meth(sim, "get_field_fourier", i, z)
        c.need(f, "get_field_fourier")
        homogeneous(rep, D, f, con(f"get_field_fourier({i})"), 0)
        for nm, x in zip("xyz", it.items_of(c.meth(sim, "get_z_stress_tensor_integral", i, z))):
            homogeneous(rep, D, x, con(f"stress tensor {nm}, layer {i}"), 0)
        g = c.meth(sim, "get_field_grid", i, z=z)
        for x in items(it, g):
            homogeneous(rep, D, x, con(f"get_field_grid({i})"), 0)
    for orders in (True, False):
        for cx in (True, False):
            r = c.meth(sim, "diffraction_efficiencies", orders=orders, complex=cx)
            c.need(r, "diffraction_efficiencies")
            for nm, x in zip("RT", it.items_of(r)):
                homogeneous(rep, D, x, con(f"{nm}, orders={orders}, complex={cx}"), 0)
    intermediates(rep, it, D, c.tag)
    rep.used(it, c.tag)


def intermediates(rep, it, D, tag):
    for n, v in list(it.letdefs.items()):
        homogeneous(rep, D, v, f"intermediate {n} = {A.show(v.p)[:80]}, {tag}", None)


def _smat(rep, b, two_d, form, kinds):
    c = SimCtx(b, two_d, form, kinds, modes=True)
    it = c.it
    D = Dims(it)
    layer_defs(it, D)
    it.start_naming()
    solve(c)
    S = c.meth(c.sim, "get_S_matrix")
    c.need(S, "get_S_matrix")
    intermediates(rep, it, D, c.tag)
    for k, x in enumerate(items(it, S)):
        homogeneous(rep, D, x, f"get_S_matrix, block {k}, {c.tag}", 0)
    rep.used(it, c.tag)


def _lattice(rep, b):
    c = Ctx(b)
    it = c.it
    it.start_naming()
    lat = c.lattice(True)
    D = Dims(it)
    nh0 = sym("nh0", "int", integer=True, pos=True)
    for tr in ("circular", "parallelogrammic"):
        l = c.lattice(True, truncation=tr)
        r = c.meth(l, "get_harmonics", nh0)
        if r is None:
            rep.unknown("homogeneous", f"get_harmonics, {tr}, {b}", "not evaluated")
            continue
        G, n = it.items_of(r)
        for nm, x in (("orders", G), ("number", n)):
            homogeneous(rep, D, x, f"get_harmonics {nm}, {tr}, {b}", 0)
    for a, d in (("area", 2), ("matrix", 1), ("reciprocal", -1), ("grid", 1), ("unit_grid", 0)):
        homogeneous(rep, D, it.getattr(lat, a), f"{a}, {b}", d)
    intermediates(rep, it, D, b)
    homogeneous(rep, D, c.meth(lat, "stripe", sym("cx", real=True), sym("wid", pos=True)), f"stripe, {b}", 0)
    rep.used(it, b)


LEVEL = {"C16": "The degree in lengths of every value number: sums must be homogeneous, comparisons between like quantities, "
                "arguments of transcendental functions and results must be pure numbers."}
