"""Abstract values of the interpreter (besides numeric value numbers, algebra.T)."""
from .algebra import *
from . import algebra as A


class Ref:
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(("ref", self.id))

    @property
    def key(self):
        return f"ref{self.id}"

    def __repr__(self):
        return f"&{self.id}"


class HObj:
    """heap object.  kind: obj | list | dict | module | frame | set"""
    __slots__ = ("kind", "d", "cls", "name", "origin")

    def __init__(self, kind, d, cls=None, name="", origin=None):
        self.kind, self.d, self.cls, self.name, self.origin = kind, d, cls, name, origin

    def copy(self):
        return HObj(self.kind, dict(self.d) if isinstance(self.d, dict) else list(self.d) if isinstance(self.d, list) else self.d,
                    self.cls, self.name, self.origin)


class _Undef:
    key = "UNDEF"

    def __repr__(self):
        return "UNDEF"


UNDEF = _Undef()


class Tup:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    @property
    def key(self):
        return "Tup(" + ",".join(vkey(i) for i in self.items) + ")"

    def __eq__(self, o):
        return isinstance(o, Tup) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return f"({', '.join(map(repr, self.items))})"


class Phi:
    """gated value: a if c else b"""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    @property
    def key(self):
        return f"Phi({self.c.key},{vkey(self.a)},{vkey(self.b)})"

    def __repr__(self):
        return f"φ({show(self.c)} ? {self.a!r} : {self.b!r})"


class FuncV:
    def __init__(self, node, mod, closure, defaults, kwdefaults, qual, cls=None, wraps=None):
        self.node, self.mod, self.closure = node, mod, closure
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.qual, self.cls, self.wraps = qual, cls, wraps
        self.attrs = {}

    @property
    def key(self):
        return f"func:{self.qual}@{self.closure.id if self.closure else ''}"

    def __repr__(self):
        return f"<func {self.qual}>"


class Bound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    @property
    def key(self):
        return f"bound:{vkey(self.func)}:{vkey(self.self_)}"

    def __repr__(self):
        return f"<bound {self.func!r}>"


class ClassV:
    def __init__(self, name, mod, bases, attrs, qual):
        self.name, self.mod, self.bases, self.attrs, self.qual = name, mod, bases, attrs, qual

    @property
    def key(self):
        return f"class:{self.qual}"

    def lookup(self, n):
        if n in self.attrs:
            return self.attrs[n]
        for b in self.bases:
            if isinstance(b, ClassV):
                r = b.lookup(n)
                if r is not UNDEF:
                    return r
        return UNDEF

    def mro_names(self):
        out = [self.name]
        for b in self.bases:
            if isinstance(b, ClassV):
                out += b.mro_names()
            elif isinstance(b, Ext):
                out.append(b.path.split(".")[-1])
        return out

    def __repr__(self):
        return f"<class {self.qual}>"


class Ext:
    """a name of an external library (or builtin: path 'builtins.x')"""
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    @property
    def key(self):
        return f"ext:{self.path}"

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(self.path)

    def __repr__(self):
        return f"<{self.path}>"


class Prop:
    def __init__(self, fget):
        self.fget = fget
        self.key = "prop:" + vkey(fget)


class StaticM:
    def __init__(self, f):
        self.f = f
        self.key = "static:" + vkey(f)


class ClassM:
    def __init__(self, f):
        self.f = f
        self.key = "classm:" + vkey(f)


class SStr:
    """string with symbolic parts"""
    __slots__ = ("parts",)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != "":
                out.append(p)
        self.parts = tuple(out)

    @property
    def key(self):
        return "S\"" + "".join(p if isinstance(p, str) else "{" + vkey(p) + "}" for p in self.parts) + "\""

    def __repr__(self):
        return "f'" + "".join(p if isinstance(p, str) else "{" + repr(p) + "}" for p in self.parts) + "'"


class SliceV:
    __slots__ = ("a", "b", "s")

    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s

    @property
    def key(self):
        return f"slice({vkey(self.a)},{vkey(self.b)},{vkey(self.s)})"


class RangeV:
    __slots__ = ("a", "b", "s")

    def __init__(self, a, b, s):
        self.a, self.b, self.s = P(a), P(b), P(s)

    @property
    def key(self):
        return f"range({self.a.key},{self.b.key},{self.s.key})"

    @property
    def n(self):
        if self.s == P(1):
            return self.b - self.a
        if self.s == P(-1):
            return self.a - self.b
        return app_dim("rangelen", self.a, self.b, self.s)

    def at(self, k):
        return T((), self.a + k * self.s, kind="int")

    def __repr__(self):
        return f"range({self.a},{self.b},{self.s})"


class SymSeq:
    """sequence of symbolic length n whose k-th element is tmpl with free index K := k"""
    __slots__ = ("n", "K", "tmpl", "tag")

    def __init__(self, n, K, tmpl, tag="list"):
        self.n, self.K, self.tmpl, self.tag = n, K, tmpl, tag

    @property
    def key(self):
        return f"Seq({self.n.key},{vkey(vsubst(self.tmpl, {self.K: ('f', 'SEQ')}))})"

    def at(self, k):
        return vsubst(self.tmpl, {self.K: nidx(("e", A.shift(P(k), 0, 1)))})

    def __repr__(self):
        return f"[{self.tmpl!r} for {show_idx(self.K)}<{self.n}]"


class SymObj:
    """object of a symbolic family (e.g. the idx-th layer of the stack)"""
    __slots__ = ("cls", "fam", "idx", "schema")

    def __init__(self, cls, fam, idx, schema):
        self.cls, self.fam, self.idx, self.schema = cls, fam, idx, schema

    @property
    def key(self):
        return f"{self.fam}[{skey(self.idx) if self.idx is not None else ''}]"

    def __repr__(self):
        return f"{self.fam}[{show_idx(self.idx) if self.idx is not None else ''}]"


class SymDict:
    """dictionary whose keys are not tracked individually; stores are events"""
    __slots__ = ("name", "tmpl")

    def __init__(self, name, tmpl=None):
        self.name, self.tmpl = name, tmpl

    @property
    def key(self):
        return f"symdict:{self.name}"


class IterV:
    """lazy iterator wrappers: enumerate / zip / map / reversed"""
    __slots__ = ("kind", "args")

    def __init__(self, kind, args):
        self.kind, self.args = kind, args

    @property
    def key(self):
        return f"{self.kind}({','.join(vkey(a) for a in self.args)})"


class AtV:
    """jax x.at"""
    def __init__(self, t):
        self.t = t
        self.key = f"at:{t.key}"


class AtIdx:
    def __init__(self, t, idx):
        self.t, self.idx = t, idx
        self.key = f"at:{t.key}[{vkey(idx)}]"


class ExcV:
    def __init__(self, name, args=(), node=None):
        self.name, self.args, self.node = name, args, node

    @property
    def key(self):
        return f"exc:{self.name}"

    def __repr__(self):
        return f"{self.name}()"


class Opq:
    """a value the analysis does not model; key keeps it congruent"""
    __slots__ = ("key", "why")

    def __init__(self, key, why=""):
        if len(key) > 4000:
            key = A._h(key)
        self.key, self.why = key, why

    def __eq__(self, o):
        return isinstance(o, Opq) and o.key == self.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return f"?{self.key[:80]}"


def vkey(v):
    if v is None or isinstance(v, (bool, str, int, float)):
        return repr(v)
    k = getattr(v, "key", None)
    if k is None:
        if isinstance(v, (tuple, list)):
            return "(" + ",".join(vkey(x) for x in v) + ")"
        if isinstance(v, dict):
            return "{" + ",".join(f"{vkey(a)}:{vkey(b)}" for a, b in v.items()) + "}"
        return repr(v)
    return k


def vsubst(v, mp):
    """substitute free index terms in a value"""
    if isinstance(v, T):
        q = psub_free(v.p, mp)
        sh = tuple(psub_free(d, mp) for d in v.shape)
        if q == v.p and sh == v.shape:
            return v
        return T(sh, q, dt=v.dt, st=v.st, kind=v.kind)
    if isinstance(v, A.Poly):
        return psub_free(v, mp)
    if isinstance(v, Tup):
        return Tup([vsubst(x, mp) for x in v.items])
    if isinstance(v, tuple):
        return tuple(vsubst(x, mp) for x in v)
    if isinstance(v, list):
        return [vsubst(x, mp) for x in v]
    if isinstance(v, Phi):
        c = psub_free(v.c, mp)
        k = c.const()
        if k is not None:
            return vsubst(v.a if k else v.b, mp)
        return Phi(c, vsubst(v.a, mp), vsubst(v.b, mp))
    if isinstance(v, SymObj):
        if v.idx is None:
            return v
        idx = v.idx
        for k, w in mp.items():
            if idx == k:
                idx = w
                break
        else:
            idx = A.msub(idx, 0, mp)
        return SymObj(v.cls, v.fam, idx, v.schema)
    if isinstance(v, SStr):
        return SStr([vsubst(x, mp) for x in v.parts])
    if isinstance(v, SymSeq):
        return SymSeq(psub_free(v.n, mp), v.K, vsubst(v.tmpl, mp), v.tag)
    if isinstance(v, RangeV):
        return RangeV(psub_free(v.a, mp), psub_free(v.b, mp), v.s)
    if isinstance(v, IterV):
        return IterV(v.kind, [vsubst(x, mp) for x in v.args])
    if isinstance(v, Bound):
        return Bound(v.func, vsubst(v.self_, mp))
    if isinstance(v, SliceV):
        return SliceV(vsubst(v.a, mp), vsubst(v.b, mp), vsubst(v.s, mp))
    return v


def num(x, kind=None):
    if kind is None:
        kind = "bool" if isinstance(x, bool) else "int" if isinstance(x, int) else \
            "float" if isinstance(x, float) else "complex" if isinstance(x, complex) else "arr"
    return T((), P(x), kind=kind)


def is_int_T(v):
    return isinstance(v, T) and v.rank == 0


def as_const(v):
    """python number of a constant scalar, else None"""
    if isinstance(v, bool):
        return v
    if isinstance(v, T) and v.rank == 0:
        c = v.p.const()
        if c is None:
            return None
        if not c.im:
            if c.re.denominator == 1:
                return int(c.re)
            return float(c.re)
        return complex(float(c.re), float(c.im))
    return None


PYKINDS = ("int", "float", "complex", "bool")


def mkphi(c, a, b):
    """gate two values"""
    k = c.const()
    if k is not None:
        return a if k else b
    if a is b:
        return a
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return T((), c if a else ONE - c, kind="bool")
    a2 = num(a) if isinstance(a, bool) else a
    b2 = num(b) if isinstance(b, bool) else b
    if isinstance(a2, T) and isinstance(b2, T):
        if a2.shape == b2.shape and (not A.free_of(c) or True):
            if a2.p == b2.p:
                return a2 if a2.kind == b2.kind else T(a2.shape, a2.p, dt=a2.dt if a2.dt == b2.dt else None)
            if a2.kind == b2.kind or (a2.kind in PYKINDS) == (b2.kind in PYKINDS):
                kind = a2.kind if a2.kind == b2.kind else ("complex" if "complex" in (a2.kind, b2.kind) else
                                                         "float" if "float" in (a2.kind, b2.kind) else "int")
                return T(a2.shape, pmul(c, a2.p) + pmul(ONE - c, b2.p),
                         dt=a2.dt if a2.dt == b2.dt else None,
                         st=a2.st if a2.st is not None and a2.st is b2.st else None, kind=kind)
        return Phi(c, a, b)
    if vkey(a) == vkey(b):
        return a
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        return Tup([mkphi(c, x, y) for x, y in zip(a.items, b.items)])
    # nested gates on the same condition
    if isinstance(a, Phi) and a.c == c:
        a = a.a
    if isinstance(b, Phi) and b.c == c:
        b = b.b
    if isinstance(b, Phi) and vkey(b.a) == vkey(a):
        return mkphi(c + (ONE - c) * b.c, a, b.b)
    if isinstance(a, Phi) and vkey(a.b) == vkey(b):
        return mkphi(c * a.c, a.a, b)
    return Phi(c, a, b)
