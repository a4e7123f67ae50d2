"""C19: shape masks."""
import itertools
from .. import algebra as A
from .. import decide
from fractions import Fraction as Fr
from ..algebra import *
from ..values import *
from ..ctx import sym, Ctx
from ..interp import AnalysisError, CallableV, Mock
from .misc import arr

I2 = ((ONE, ZERO), (ZERO, ONE))


def mul2(a, b):
    return tuple(tuple(psum([pmul(a[i][k], b[k][j]) for k in range(2)]) for j in range(2)) for i in range(2))


def app2(a, v):
    return tuple(psum([pmul(a[i][k], v[k]) for k in range(2)]) for i in range(2))


def num_of(it, v):
    v = it.simplify(v)
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        v = num(v)
    if isinstance(v, T) and v.rank == 0:
        return v.p
    if isinstance(v, T) and all(d.as_int() == 1 for d in v.shape):
        return tindex(v, [0] * v.rank).p
    raise AnalysisError(f"a coordinate that is no number: {v!r}"[:200])


class Point(Mock):
    def __init__(self, x, y):
        super().__init__(f"Point({x.key},{y.key})")
        self.xy = (x, y)

    def attr(self, it, name, node):
        if name in ("x", "y"):
            return T((), self.xy["xy".index(name)])
        if name == "buffer":
            def buf(it, a, k, n):
                q = [x for x in list(a[1:2]) + [k.get(w) for w in ("quad_segs", "resolution", "quadsegs")] if x is not None]
                if set(k) - {"quad_segs", "resolution", "quadsegs", "distance"}:
                    raise AnalysisError("a buffer that is no disc")
                r = num_of(it, a[0] if a else k["distance"])
                segs = num_of(it, q[0]).const() if q else 16
                return Geom("disc", None, ((r, ZERO), (ZERO, r)), self.xy, segs)
            return CallableV(buf, "buffer")
        return super().attr(it, name, node)


class Geom(Mock):
    """a shape: an affine image A p + b of the unit disc, of a polygon or of a shape of the user"""

    def __init__(self, base, verts, a=I2, b=(ZERO, ZERO), segs=16):
        super().__init__("Geom(" + repr((base, [tuple(x.key for x in v) for v in verts or ()], [[x.key for x in r] for r in a], [x.key for x in b], segs)) + ")")
        self.base, self.verts, self.a, self.b, self.segs = base, verts, a, b, segs

    def apply(self, m, t):
        b = app2(m, self.b)
        return Geom(self.base, self.verts, mul2(m, self.a), tuple(x + y for x, y in zip(b, t)), self.segs)

    def points(self):
        return [tuple(x + y for x, y in zip(app2(self.a, v), self.b)) for v in self.verts]

    def center(self):
        if self.base == "disc":
            return self.b
        if self.base == "poly" and len(self.verts) == 4:
            # box and area centers of a rectangle
            ps = self.points()
            return tuple(psum([p[i] for p in ps]) / P(4) for i in range(2))
        raise AnalysisError("center of a shape that has no symmetry")

    def attr(self, it, name, node):
        if name == "centroid":
            return Point(*self.center())
        if name in ("intersects", "contains", "covers", "disjoint", "contains_properly"):
            return CallableV(lambda it, a, k, n: predicate(it, self, name, a[0], n), name)
        return super().attr(it, name, node)


def predicate(it, g, name, o, node):
    raise AnalysisError("membership in a shape outside of the raster")


def vertices(it, v):
    v = it.simplify(v)
    if isinstance(v, T) and v.rank == 2 and v.shape[0].as_int() is not None:
        return [(tindex(v, [i, 0]).p, tindex(v, [i, 1]).p) for i in range(v.shape[0].as_int())]
    out = []
    for p in it.items_of(v):
        p = it.simplify(p)
        if isinstance(p, Point):
            out.append(p.xy)
        elif isinstance(p, T):
            out.append((tindex(p, [0]).p, tindex(p, [1]).p))
        else:
            x, y = it.items_of(p)
            out.append((num_of(it, x), num_of(it, y)))
    return out


def origin(it, v, g):
    v = it.simplify(v)
    if isinstance(v, Point):
        return v.xy
    if isinstance(v, str):
        if v in ("center", "centroid"):
            return g.center()
        raise AnalysisError("origin " + v)
    if isinstance(v, Geom):
        raise AnalysisError("origin is a shape")
    x, y = list(it.items_of(v))[:2]
    return num_of(it, x), num_of(it, y)


def about(g, m, o):
    """the linear map m around the point o"""
    mo = app2(m, o)
    return g.apply(m, tuple(x - y for x, y in zip(o, mo)))


def getarg(a, k, i, name, default=None):
    return a[i] if len(a) > i else k.get(name, default)


def install(it):
    def point(it, a, k, n):
        if len(a) == 1:
            x, y = list(it.items_of(a[0]))[:2] if not isinstance(a[0], T) else [tindex(a[0], [i]) for i in (0, 1)]
        else:
            x, y = a[:2]
        return Point(num_of(it, x), num_of(it, y))

    def polygon(it, a, k, n):
        if len(a) > 1 and a[1] is not None or k.get("holes") is not None:
            raise AnalysisError("a polygon with holes")
        return Geom("poly", vertices(it, a[0] if a else k["shell"]))

    def box(it, a, k, n):
        x0, y0, x1, y1 = [num_of(it, getarg(a, k, i, w)) for i, w in enumerate(("minx", "miny", "maxx", "maxy"))]
        return Geom("poly", [(x1, y0), (x1, y1), (x0, y1), (x0, y0)])

    def geom(v):
        v = it.simplify(v)
        if isinstance(v, Point):
            raise AnalysisError("a moved point")
        if not isinstance(v, Geom):
            raise AnalysisError(f"no shape: {v!r}"[:150])
        return v

    def scale(it, a, k, n):
        g = geom(a[0])
        fx, fy = [num_of(it, getarg(a, k, i, w, num(1))) for i, w in ((1, "xfact"), (2, "yfact"))]
        return about(g, ((fx, ZERO), (ZERO, fy)), origin(it, getarg(a, k, 4, "origin", "center"), g))

    def rotate(it, a, k, n):
        g = geom(a[0])
        o = origin(it, getarg(a, k, 2, "origin", "center"), g)
        t = num_of(it, getarg(a, k, 1, "angle"))
        if getarg(a, k, 3, "use_radians", False) is not True:
            t = t * atom("pi") / P(180)
        c, s = fnp("cos", t), fnp("sin", t)
        return about(g, ((c, -s), (s, c)), o)

    def translate(it, a, k, n):
        g = geom(a[0])
        return g.apply(I2, tuple(num_of(it, getarg(a, k, i, w, num(0))) for i, w in ((1, "xoff"), (2, "yoff"))))

    def affine(it, a, k, n):
        g = geom(a[0])
        m = getarg(a, k, 1, "matrix")
        m = it.simplify(m)
        ms = [num_of(it, x) for x in (it.items_of(m) if not isinstance(m, T) else [tindex(m, [i]) for i in range(m.shape[0].as_int())])]
        if len(ms) != 6:
            raise AnalysisError(f"affine matrix of {len(ms)} numbers")
        return g.apply(((ms[0], ms[1]), (ms[2], ms[3])), (ms[4], ms[5]))
    for pre in ("shapely.geometry.", "shapely."):
        it.ext_stubs[pre + "Point"] = point
        it.ext_stubs[pre + "Polygon"] = polygon
        it.ext_stubs[pre + "box"] = box
    it.ext_stubs["shapely.geometry.polygon.Polygon"] = polygon
    for f in (scale, rotate, translate):
        it.ext_stubs["shapely.affinity." + f.__name__] = f
    it.ext_stubs["shapely.affinity.affine_transform"] = affine


def leaves(it, v, conds=()):
    if isinstance(v, Phi):
        return leaves(it, v.a, conds + ((v.c, True),)) + leaves(it, v.b, conds + ((v.c, False),))
    return [(conds, v)]


def poly_zero(p):
    return decide.zero(T((), p))[0]


def sub_rot(p):
    return subst_atoms(p, {"rot": lambda: ZERO})


def match(g, base, verts, m, t, mat):
    """is mat*(g) the shape (base, verts) mapped by m, t ?  None or what differs"""
    if g.base != base:
        return f"a {g.base} instead of a {base}"
    a, b = mul2(mat, g.a), app2(mat, g.b)
    if base == "user":
        bad = [(i, j) for i in range(2) for j in range(2) if not poly_zero(a[i][j] - m[i][j])] + [i for i in range(2) if not poly_zero(b[i] - t[i])]
        return f"entries {bad} of the map differ" if bad else None
    if base == "disc":
        if not isinstance(g.segs, int) and not (hasattr(g.segs, "re") and g.segs.im == 0 and g.segs.re >= 16) or isinstance(g.segs, int) and g.segs < 16:
            return "a coarse polygon instead of a disc"
        for i in range(2):
            if not poly_zero(b[i] - t[i]):
                return f"center {A.show(b[i])[:150]} instead of {A.show(t[i])[:150]}"
        aa = mul2(a, tuple(zip(*a)))
        ee = mul2(m, tuple(zip(*m)))
        for i, j in ((0, 0), (0, 1), (1, 1)):
            if not poly_zero(aa[i][j] - ee[i][j]):
                return f"extent: {A.show(aa[i][j])[:150]} instead of {A.show(ee[i][j])[:150]}"
        return None
    have = [tuple(x + y for x, y in zip(app2(a, v), b)) for v in g.verts]
    want = [tuple(x + y for x, y in zip(app2(m, v), t)) for v in verts]
    if len(have) == len(want) + 1 and all(poly_zero(x - y) for x, y in zip(have[0], have[-1])):
        have = have[:-1]
    if len(have) != len(want):
        return f"{len(have)} corners instead of {len(want)}"
    n = len(want)
    eq = {}

    def same(i, j):
        if (i, j) not in eq:
            eq[i, j] = all(poly_zero(x - y) for x, y in zip(have[i], want[j]))
        return eq[i, j]
    for s in range(n):
        for d in (1, -1):
            if all(same(i, (s + d * i) % n) for i in range(n)):
                return None
    return f"corner ({', '.join(A.show(x)[:100] for x in have[0])}) instead of ({', '.join(A.show(x)[:100] for x in want[0])})"


def helper(rep, item):
    b, what, rot = item
    con = f"{b} {what}{'' if rot is None else ' rotate=' + str(rot)}"
    c = Ctx(b)
    it = c.it
    F = lambda n, **k: sym(n, **(k or {"real": True}))
    lat = c.lattice(True)
    install(it)
    seen = []

    def mask(it, f, a, k, node):
        x, y = a[1], a[2]
        if not (isinstance(x, T) and isinstance(y, T) and x.rank == y.rank == 1):
            raise AnalysisError("points that are no vectors")
        seen.append((a[0], x, y))
        return arr("mask", y.shape[0], x.shape[0])
    it.stubs["nannos.geometry.shape_mask"] = mask
    cx, cy = F("cx"), F("cy")
    ctr = (cx.p, cy.p)
    r = sym("rot", real=True) if rot == "any" else None
    kw = {} if rot is None else {"rotate": r if rot == "any" else rot}
    th = ZERO if rot in (None, 0) else (r.p if rot == "any" else P(rot)) * atom("pi") / P(180)
    R = ((fnp("cos", th), -fnp("sin", th)), (fnp("sin", th), fnp("cos", th))) if not th.is_zero() else I2
    if what == "circle":
        v = c.meth(lat, "circle", (cx, cy), F("r", pos=True))
        exp = ("disc", None, ((atom("r"), ZERO), (ZERO, atom("r"))), ctr)
    elif what == "ellipse":
        v = c.meth(lat, "ellipse", (cx, cy), (F("ra", pos=True), F("rb", pos=True)), **kw)
        exp = ("disc", None, mul2(R, ((atom("ra"), ZERO), (ZERO, atom("rb")))), ctr)
    elif what in ("rectangle", "square"):
        w = (F("wa", pos=True), F("wb", pos=True)) if what == "rectangle" else F("wa", pos=True)
        v = c.meth(lat, what, (cx, cy), w, **kw)
        wa, wb = atom("wa"), atom("wb" if what == "rectangle" else "wa")
        h = P(1) / P(2)
        vs = [(-wa * h, -wb * h), (wa * h, -wb * h), (wa * h, wb * h), (-wa * h, wb * h)]
        exp = ("poly", vs, R, ctr)
    elif what.startswith("polygon"):
        n = int(what[-1])
        pts = [(F(f"px{i}"), F(f"py{i}")) for i in range(n)]
        v = c.meth(lat, "polygon", [tuple(p) for p in pts])
        exp = ("poly", [(x.p, y.p) for x, y in pts], I2, (ZERO, ZERO))
    else:
        v = c.meth(lat, "geometry_mask", Geom("user", None))
        exp = ("user", None, I2, (ZERO, ZERO))
    if it.dead or v is None:
        rep.bad("accepted", con, f"raises {it.raised[-1][1] if it.raised else ''}")
        return
    M = c.attr(lat, "matrix")
    mat = tuple(tuple(tindex(M, [i, j]).p for j in range(2)) for i in range(2))
    # the matrix of the lattice: first basis vector in the first column
    for i in range(2):
        for j in range(2):
            rep.check(poly_zero(mat[i][j] - atom("uv"[j] + "xy"[i])), "lattice-matrix", con, f"entry {i},{j} is {A.show(mat[i][j])}")
    if not seen:
        rep.unknown("shape", con, "no raster of a shape is made")
        return
    for g, x, y in seen:
        for conds, leaf in leaves(it, it.simplify(g)):
            if not isinstance(leaf, Geom):
                rep.unknown("shape", con, f"not a known shape: {leaf!r}"[:200])
                continue
            base, vs, m, t = exp
            mm = mat
            if r is not None and any((cc == cmpp("eq", r.p)) == val for cc, val in conds if cc in (cmpp("eq", r.p), ONE - cmpp("eq", r.p))):
                m = tuple(tuple(sub_rot(z) for z in row) for row in m)
                leaf = Geom(leaf.base, leaf.verts, tuple(tuple(sub_rot(z) for z in row) for row in leaf.a), tuple(sub_rot(z) for z in leaf.b), leaf.segs)
            d = match(leaf, base, vs, m, t, mm)
            rep.check(d is None, "shape", con, d or "")
        for w, q, N in (("first", x, "N1"), ("second", y, "N2")):
            ok = q.rank == 1 and P(q.shape[0]) == atom(N)
            if ok:
                i = P(0) + T((), P(0)).p
                e = T(q.shape, q.p * (atom(N) - 1))
                ref = tmap_index(q.shape[0])
                ok = decide.zero(T(q.shape, e.p - ref.p))[0]
            rep.check(ok, "points", f"{con} {w}", f"{A.show(q.p)[:200]} of {q.shape} instead of i/({N}-1)")
        want = ttranspose(arr("mask", y.shape[0], x.shape[0]))
        if isinstance(v, T):
            rep.check(v.rank == 2 and [P(d) for d in v.shape] == [P(d) for d in want.shape] and (v.p == want.p or decide.zero(T(v.shape, v.p - want.p))[0]),
                      "axes", con, f"the mask returned is {A.show(v.p)[:200]}")
        else:
            rep.unknown("axes", con, f"not modelled: {v!r}"[:200])
    rep.used(it, con)


def tmap_index(n):
    """i -> i"""
    return T((P(n),), idx_value(("f", 0)))


def stripe(rep, item):
    b, two = item
    con = f"{b} stripe {'2D' if two else '1D'}"
    c = Ctx(b)
    it = c.it
    lat = c.lattice(two)
    ce, w = sym("ce", real=True), sym("w", pos=True)
    v = c.meth(lat, "stripe", ce, w)
    x = tindex(c.attr(lat, "grid"), [0])
    rep.check(isinstance(v, T) and [P(d) for d in v.shape] == [P(d) for d in x.shape], "stripe", con + " shape", f"{getattr(v, 'shape', v)}")
    if isinstance(v, T):
        # |x - ce| <= w/2 :  not (w/2 - |x - ce| < 0)
        d = T(x.shape, fnp("abs", x.p - ce.p) - w.p / P(2))
        want = ONE - cmpp("lt", -d.p)
        ab = ONE - cmpp("lt", w.p / P(2) - ppow((x.p - ce.p) * (x.p - ce.p), Fr(1, 2)))
        sq = T(x.shape, (x.p - ce.p) * (x.p - ce.p) - w.p * w.p / P(4))
        two_sided = pmul(ONE - cmpp("lt", (ce.p + w.p / P(2)) - x.p), ONE - cmpp("lt", x.p - (ce.p - w.p / P(2))))
        rep.check(v.p in (want, ab, ONE - cmpp("lt", -sq.p), two_sided) or (v.p - want).is_zero(), "stripe", con, f"{A.show(v.p)[:200]} instead of {A.show(want)[:200]}")
    rep.used(it, con)


# ------------------------------------------------------------------- the raster
def raster(rep, item):
    """every point of the raster is decided by itself or by a block of points around it, for any shape"""
    b, ny, nx = item
    con = f"{b} raster {ny}x{nx}"
    c = Ctx(b)
    it = c.it
    install(it)
    X = [atom(f"X{i}") for i in range(nx)]
    Y = [atom(f"Y{i}") for i in range(ny)]
    for i, x in enumerate(X):
        declare(f"X{i}", real=True)
    for i, x in enumerate(Y):
        declare(f"Y{i}", real=True)
    kx, ky = {x.key: i for i, x in enumerate(X)}, {y.key: i for i, y in enumerate(Y)}
    blocks = {}

    def name_of(o):
        """(x range, y range) of the points of the argument"""
        ps = [o.xy] if isinstance(o, Point) else o.points() if isinstance(o, Geom) and o.base == "poly" else None
        if ps is None:
            raise AnalysisError("membership of something that is no block of points")
        try:
            xs, ys = sorted({kx[p[0].key] for p in ps}), sorted({ky[p[1].key] for p in ps})
        except KeyError:
            return None
        if isinstance(o, Geom) and {(kx[p[0].key], ky[p[1].key]) for p in ps} != set(itertools.product(xs, ys)):
            return None
        return (xs[0], xs[-1]), (ys[0], ys[-1])

    class Any(Mock):
        def attr(self, it, name, node):
            if name not in ("intersects", "contains", "covers", "disjoint"):
                return super().attr(it, name, node)

            def q(it, a, k, n):
                o = it.simplify(a[0])
                r = name_of(o)
                what = {"disjoint": "intersects", "covers": "contains"}.get(name, name)
                pt = r is not None and r[0][0] == r[0][1] and r[1][0] == r[1][1]
                if r is None:
                    nm = f"{what}_{len(blocks)}"
                elif pt and (what == "contains" and isinstance(o, Point)):
                    nm = f"in_{r[0][0]}_{r[1][0]}"
                else:
                    nm = f"{what}_{r[0][0]}_{r[0][1]}_{r[1][0]}_{r[1][1]}"
                blocks[nm] = (what, r, isinstance(o, Point))
                p = fac(("bool", nm))
                return T((), ONE - p if name == "disjoint" else p, kind="bool", dt="b")
            return CallableV(q, name)
    xs = T((P(nx),), tstack([T((), x) for x in X]).p, dt="f64", kind="arr")
    ys = T((P(ny),), tstack([T((), y) for y in Y]).p, dt="f64", kind="arr")
    v = c.run("nannos.geometry.shape_mask", Any("the shape"), xs, ys)
    if it.dead or v is None:
        rep.bad("accepted", con, f"raises {it.raised[-1][1] if it.raised else ''}")
        return
    v = it.simplify(v)
    rep.used(it, con)
    if not isinstance(v, T):
        rep.unknown("raster", con, f"not modelled: {v!r}"[:200])
        return
    rep.check([P(d).as_int() for d in v.shape] == [ny, nx], "raster", con + " shape", f"{v.shape}")
    if [P(d).as_int() for d in v.shape] != [ny, nx]:
        return
    for j in range(ny):
        for i in range(nx):
            p = tindex(v, [j, i]).p
            res = consistent(p, blocks, i, j)
            rep.check(res is None, "raster", f"{con} point {i},{j}", res or "")


def consistent(p, blocks, i, j):
    """p is 1 exactly when the shape contains the point (i, j), for every outcome of the queries that a
    shape can give: a block that is inside holds its points, a block that is not met holds none"""
    me = f"in_{i}_{j}"
    want = fac(("bool", me))
    used = {}

    def bools(q):
        for (bd, fs), c in q.t:
            for f, e in fs:
                if f[0] == "bool" and isinstance(f[1], str):
                    used[f[1]] = f
                elif f[0] != "delta":
                    used["?"] = f
    bools(p)
    if "?" in used:
        return f"depends on {A.show_factor(used['?'])[:100]}"
    for nm in used:
        if nm == me:
            continue
        what, r, ispt = blocks[nm]
        if r is None:
            return "a block whose corners are no points of the grid decides it"
        if what == "contains" and ispt:
            return f"decided by the point {r[0][0]},{r[1][0]}"
    # every assignment of the queries
    names = sorted(set(used) | {me})

    def at(ix, bv):
        if ix[0] == "c":
            return ix[1]
        if ix[0] == "b":
            return bv[ix[2]]
        if ix[0] == "inj":
            return sum(P(d).as_int() for d in ix[2][:ix[1]]) + at(ix[3], bv)
        raise AnalysisError(f"index {ix}"[:80])

    terms = {}
    for (bd, fs), c in p.t:
        # the sums over positions are finite
        bs = frozenset(f[1] for f, e in fs if f[0] == "bool")
        for bv in itertools.product(*(range(P(d).as_int()) for d in bd)):
            if all(at(f[1], bv) == at(f[2], bv) for f, e in fs if f[0] == "delta"):
                terms[bs] = terms.get(bs, 0) + c.re
    terms = [(bs, v) for bs, v in terms.items() if v]

    def ev(q, asg):
        return sum(v for bs, v in terms if all(asg[n] for n in bs))

    def holds(r, x, y):
        return r[0][0] <= x <= r[0][1] and r[1][0] <= y <= r[1][1]

    def rec(k, asg):
        if k == len(names):
            for nm, val in asg.items():
                if nm == me:
                    continue
                what, r, ispt = blocks[nm]
                if holds(r, i, j):
                    if what == "contains" and val and not asg[me]:
                        return None
                    if what == "intersects" and not val and asg[me]:
                        return None
            if ev(p, asg) != asg[me]:
                return f"gives {ev(p, asg)} where the point is {'in' if asg[me] else 'out'}side: {asg}"
            return None
        for val in (0, 1):
            asg[names[k]] = val
            d = rec(k + 1, asg)
            if d:
                return d
        del asg[names[k]]
        return None
    return rec(0, {})


def c19(rep):
    jobs = []
    full = rep.tier == "thorough"
    for b in ("numpy", "torch", "jax") + (("autograd", "scipy") if full else ()):
        for w in ("circle", "polygon3", "polygon4", "geometry_mask"):
            jobs.append((helper, (b, w, None)))
        for w in ("ellipse", "rectangle", "square"):
            for r in (None, "any", 0, 30):
                jobs.append((helper, (b, w, r)))
        for two in (True, False):
            jobs.append((stripe, (b, two)))
        for s in ((1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2)) + (((3, 3), (2, 4), (4, 2), (1, 5), (5, 1), (4, 3), (3, 4), (4, 4), (5, 2), (2, 5)) if full else ((3, 3), (2, 4), (4, 2), (1, 5), (5, 1))):
            jobs.append((raster, (b,) + s))
    rep.fan(lambda rep, j: j[0](rep, j[1]), jobs, 8)


LEVEL = {"C19": "Shapes as affine images of a disc or polygon, and the raster for every answer the shape can give"}
