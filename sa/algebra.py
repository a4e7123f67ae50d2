"""Algebraic value numbers.

The abstract domain of the value-graph analysis.  A value number is a canonical
(multivariate, commutative) polynomial with Gaussian-rational coefficients over
*indexed* atoms: a matrix product is a sum over a bound index, a diagonal matrix
carries a Kronecker delta, a slice of a block vector an injection into the
block.  Two expressions get the same value number iff their canonical forms are
identical; the canonical form does not depend on how a product is bracketed, on
the order of commuting operands, on temporaries or on helper functions.

No value of the analysed program is ever computed here: atoms are uninterpreted.
"""
from fractions import Fraction as Fr
from functools import lru_cache
from itertools import permutations
import time as _time

DEADLINE = [None]


class Budget(Exception):
    """the time allowed for one obligation is used up"""


# ----------------------------------------------------------------- properties
REAL = set()      # atom names known to be real
POS = set()       # atom names known to be positive (or non-negative: see NONNEG)
NONNEG = set()    # non-negative
INT = set()       # integer valued
BOOL = set()      # 0/1 valued atoms
LB = {}
UB = {}           # atom name -> Poly: strict upper bound (integers)
UBI = {}          # free loop index -> strict upper bound
SYM = set()       # symmetric matrix atoms (A[i,j] == A[j,i])


def declare(name, real=False, pos=False, nonneg=False, integer=False, boolean=False,
            ub=None, lb=None, sym=False):
    if real or pos or nonneg or integer or boolean:
        REAL.add(name)
    if pos:
        POS.add(name)
    if pos or nonneg:
        NONNEG.add(name)
    if integer:
        INT.add(name)
    if boolean:
        BOOL.add(name)
    if ub is not None:
        UB[name] = ub
    if lb is not None:
        LB[name] = lb
    if sym:
        SYM.add(name)


# ------------------------------------------------------- Gaussian rationals
class G:
    __slots__ = ("re", "im")

    def __init__(self, re=0, im=0):
        self.re = re if isinstance(re, Fr) else Fr(re)
        self.im = im if isinstance(im, Fr) else Fr(im)

    def __add__(s, o):
        return G(s.re + o.re, s.im + o.im)

    def __mul__(s, o):
        if not s.im and not o.im:
            return G(s.re * o.re)
        return G(s.re * o.re - s.im * o.im, s.re * o.im + s.im * o.re)

    def __neg__(s):
        return G(-s.re, -s.im)

    def conj(s):
        return G(s.re, -s.im)

    def inv(s):
        d = s.re * s.re + s.im * s.im
        return G(s.re / d, -s.im / d)

    def __bool__(s):
        return bool(s.re or s.im)

    def __eq__(s, o):
        return isinstance(o, G) and s.re == o.re and s.im == o.im

    def __hash__(s):
        return hash((s.re, s.im))

    def __repr__(s):
        if not s.im:
            return str(s.re)
        if not s.re:
            return f"{s.im}i"
        return f"({s.re}+{s.im}i)"


ONE_G, ZERO_G, I_G = G(1), G(0), G(0, 1)


def to_g(x):
    if isinstance(x, bool):
        return G(int(x))
    if isinstance(x, (int, Fr)):
        return G(x)
    if isinstance(x, float):
        return G(Fr(repr(x)))
    if isinstance(x, complex):
        return G(Fr(repr(x.real)), Fr(repr(x.imag)))
    raise TypeError(x)


# ------------------------------------------------------------------- polynomials
def skey(x):
    """A deterministic sort/equality key (string) of any canonical structure."""
    if isinstance(x, tuple):
        try:
            k = _SKEY.get(x)
        except TypeError:
            return "(" + ",".join([skey(y) for y in x]) + ")"
        if k is None:
            k = _SKEY[x] = "(" + ",".join([skey(y) for y in x]) + ")"
        return k
    if isinstance(x, Poly) or hasattr(x, "key"):
        return x.key
    return repr(x)


_SKEY = {}
_REFS = {}
_NOREF = frozenset()


def refs(x):
    """index references ('f',k) / ('b',lv,k) occurring in a structure"""
    if isinstance(x, tuple):
        try:
            r = _REFS.get(x)
        except TypeError:
            r = None
        if r is None:
            r = set()
            if x and (x[0] == "f" or x[0] == "b"):
                r.add(x)
            for y in x:
                if isinstance(y, (tuple, Poly)):
                    r |= refs(y)
            r = frozenset(r)
            try:
                _REFS[x] = r
            except TypeError:
                pass
        return r
    if isinstance(x, Poly):
        if x._r is None:
            r = set()
            for (bd, fs), c in x.t:
                for f, e in fs:
                    r |= refs(f)
            x._r = frozenset(r)
        return x._r
    return _NOREF


class Poly:
    """canonical sum: tuple of (mono, G); mono = (bound dims, ((factor, exp),...))"""
    __slots__ = ("t", "_k", "_h", "_r")

    def __init__(self, terms):
        # terms: dict mono -> G (already canonical monomials)
        self.t = tuple(sorted(((m, c) for m, c in terms.items() if c),
                              key=lambda mc: (len(mc[0][1]), skey(mc[0]))))
        self._k = None
        self._h = None
        self._r = None

    @property
    def key(self):
        if self._k is None:
            self._k = "P[" + "+".join(f"{c!r}*{skey(m)}" for m, c in self.t) + "]"
        return self._k

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key)
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and (self is o or self.key == o.key)

    def is_zero(self):
        return not self.t

    def const(self):
        """Gaussian value if constant else None"""
        if not self.t:
            return ZERO_G
        if len(self.t) == 1 and self.t[0][0] == MONO1:
            return self.t[0][1]
        return None

    def as_int(self):
        c = self.const()
        if c is not None and not c.im and c.re.denominator == 1:
            return int(c.re)
        return None

    def single(self):
        """(factor, exp) if the poly is exactly one factor with coefficient 1"""
        if len(self.t) == 1:
            (bd, fs), c = self.t[0]
            if not bd and len(fs) == 1 and c == ONE_G:
                return fs[0]
        return None

    def __repr__(self):
        return show(self)

    def __add__(a, b):
        return padd(a, P(b))

    __radd__ = __add__

    def __sub__(a, b):
        return padd(a, pscale(P(b), G(-1)))

    def __rsub__(a, b):
        return P(b) - a

    def __neg__(a):
        return pscale(a, G(-1))

    def __mul__(a, b):
        return pmul(a, P(b))

    __rmul__ = __mul__

    def __truediv__(a, b):
        return pmul(a, ppow(P(b), Fr(-1)))

    def __pow__(a, e):
        return ppow(a, Fr(e))


MONO1 = ((), ())


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, T):
        assert x.shape == (), x
        return x.p
    if isinstance(x, G):
        return Poly({MONO1: x})
    return Poly({MONO1: to_g(x)})


def fac(f, e=1, lv=0):
    """Poly of one raw factor"""
    return normalise([], [(f, Fr(e))], ONE_G, lv)


def atom(name, *idx):
    return fac(("atom", name, tuple(idx)))


def padd(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    d = dict(a.t)
    for m, c in b.t:
        if m in d:
            d[m] = d[m] + c
        else:
            d[m] = c
    return Poly(d)


def pscale(a, g):
    if not g:
        return ZERO
    return Poly({m: c * g for m, c in a.t})


ZERO = Poly({})
ONE = Poly({MONO1: ONE_G})
IMAG = Poly({MONO1: I_G})


def psum(ps):
    d = {}
    for p in ps:
        for m, c in p.t:
            d[m] = d[m] + c if m in d else c
    return Poly(d)


def pmul(a, b, lv=0):
    if not a.t or not b.t:
        return ZERO
    ca, cb = a.const(), b.const()
    if ca is not None:
        return pscale(b, ca)
    if cb is not None:
        return pscale(a, cb)
    k = (a.key, b.key, lv)
    r = _mulcache.get(k)
    if r is not None:
        return r
    out = []
    for ma, xa in a.t:
        for mb, xb in b.t:
            n = len(ma[0])
            fb = mb[1]
            if n and mb[0]:
                mp = {("b", lv, j): ("b", lv, j + n) for j in range(len(mb[0]))}
                fb = [(msub(f, lv, mp), e) for f, e in fb]
            out.append(normalise(list(ma[0]) + list(mb[0]), list(ma[1]) + list(fb), xa * xb, lv))
    r = psum(out)
    _mulcache[k] = r
    return r


_mulcache = {}


def root_fr(c, e):
    """c**e for positive rational c, exact or None"""
    if e.denominator == 1:
        return c ** int(e)
    if e.denominator == 2:
        n, d = c.numerator, c.denominator
        import math
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return Fr(rn, rd) ** int(e.numerator)
    return None


def ppow(a, e, lv=0):
    e = Fr(e)
    if e == 0:
        return ONE
    if e == 1:
        return a
    if not a.t:
        if e > 0:
            return ZERO
        return fac(("div0",), 1, lv)
    if e.denominator == 1 and e > 0 and (len(a.t) > 1 or a.t[0][0][0]):
        if e > 6:
            return normalise([], [(("sum", shift(a, lv, 1)), e)], ONE_G, lv)
        r = ONE
        for _ in range(int(e)):
            r = pmul(r, a, lv)
        return r
    if len(a.t) == 1:
        (bd, fs), c = a.t[0]
        if not bd:
            if e.denominator == 1:
                n = int(e)
                cc = c if n > 0 else c.inv()
                g = ONE_G
                for _ in range(abs(n)):
                    g = g * cc
                return normalise([], [(f, x * e) for f, x in fs], g, lv)
            # fractional power of a monomial: only what is sound on the principal branch
            pos, rest = [], []
            for f, x in fs:
                (pos if is_pos_factor(f) else rest).append((f, x))
            if c.im == 0 and c.re > 0:
                r = root_fr(c.re, e)
                if r is None:
                    numf, g = [(("num", c.re), e)], ONE_G
                else:
                    numf, g = [], G(r)
                cbase = ONE_G
            else:
                numf, g, cbase = [], ONE_G, c
            if cbase == ONE_G and not rest:
                return normalise([], [(f, x * e) for f, x in pos] + numf, g, lv)
            if cbase == ONE_G and len(rest) == 1 and rest[0][1] in (1, Fr(1, 2)):
                return normalise([], [(f, x * e) for f, x in pos] + [(rest[0][0], rest[0][1] * e)] + numf, g, lv)
            base = Poly({((), tuple(rest)): cbase})
            return normalise([], [(f, x * e) for f, x in pos] + numf + [(("sum", shift(base, lv, 1)), e)], g, lv)
    # sums: make monic by a positive rational
    c = a.t[0][1]
    lead = abs(c.re) if c.re else abs(c.im)
    base = pscale(a, G(1 / lead))
    if e.denominator == 1 and (base.t[0][1] == G(-1) or base.t[0][1].re < 0):
        # odd/even integer power: pull the sign too
        base = pscale(base, G(-1))
        sg = G(-1) if int(e) % 2 else ONE_G
    else:
        sg = ONE_G
    r = root_fr(lead, e)
    fs = [(("sum", shift(base, lv, 1)), e)]
    g = sg
    if r is None:
        fs.append((("num", lead), e))
    else:
        g = g * G(r)
    return normalise([], fs, g, lv)


def is_pos_factor(f):
    if f[0] == "atom":
        return f[1] in POS or f[1] in NONNEG
    if f[0] in ("num", "ival"):
        return True
    if f[0] == "fn" and f[1] == "exp":
        return all_real(f[2])
    if f[0] == "sum":
        return poly_nonneg(f[1])
    if f[0] == "app":
        return f[1] in NONNEG_APPS
    return False


def is_real_factor(f):
    if f[0] == "atom":
        return f[1] in REAL
    if f[0] in ("num", "delta", "ival", "cmp", "bool"):
        return True
    if f[0] == "fn" and f[1] in ("exp", "cos", "sin", "tanh", "tan", "arctan", "log2", "floor", "ceil", "int"):
        return all_real(f[2])
    if f[0] == "sum":
        return all_real(f[1])
    if f[0] == "app":
        return f[1] in REAL_APPS
    return False


NONNEG_APPS = {"abs", "dim", "first", "rangelen"}
REAL_APPS = {"abs", "rangelen", "eigval_real", "dim", "max", "min", "argsort", "first"}


def all_real(p):
    for (bd, fs), c in p.t:
        if c.im:
            return False
        for f, e in fs:
            if not is_real_factor(f):
                return False
            if e.denominator != 1 and not is_pos_factor(f):
                return False
    return True


def poly_nonneg(p):
    """sufficient test: every monomial is a non-negative product"""
    for (bd, fs), c in p.t:
        if c.im or c.re < 0:
            return False
        for f, e in fs:
            if is_pos_factor(f):
                continue
            if is_real_factor(f) and e.denominator == 1 and int(e) % 2 == 0:
                continue
            if f[0] in ("delta", "cmp", "bool", "ival"):
                continue
            return False
    return True


def poly_pos_const(p):
    """p >= something strictly positive (used for index arithmetic)"""
    if LB:
        d, hit = dict(p.t), Fr(0)
        for (bd, fs), c in p.t:
            if not bd and len(fs) == 1 and fs[0][1] == 1 and fs[0][0][0] == "atom" and fs[0][0][1] in LB \
                    and not c.im and c.re > 0:
                d.pop((bd, fs))
                hit += c.re * LB[fs[0][0][1]]
        if hit:
            c0 = d.get(MONO1)
            d[MONO1] = G(hit + (c0.re if c0 else 0), c0.im if c0 else 0)
            q = Poly(d)
            c0 = dict(q.t).get(MONO1)
            if c0 is not None and not c0.im and c0.re > 0 and poly_nonneg(q):
                return True
    if not poly_nonneg(p):
        return False
    c = dict(p.t).get(MONO1)
    if c is not None and c.re > 0:
        return True
    for (bd, fs), c in p.t:
        if all(f[0] == "atom" and f[1] in POS for f, e in fs):
            return True
    return False


def known_neg(p):
    """sufficient: integer-valued p < 0 using the declared upper bounds"""
    q = p
    for _ in range(4):
        done = True
        for (bd, fs), c in q.t:
            if len(fs) == 1 and not bd and fs[0][1] == 1 and c.re > 0:
                f = fs[0][0]
                ub = None
                if f[0] == "atom" and f[1] in UB:
                    ub = UB[f[1]]
                elif f[0] == "ival" and f[1] in UBI:
                    ub = UBI[f[1]]
                if ub is not None:
                    q = q - P(c) * (fac(f) - (ub - 1))
                    done = False
                    break
        if done:
            break
    return poly_pos_const(-q)


# -------------------------------------------------------- index terms and maps
def msub(x, lv, mp):
    """substitute index references in factor/idx structure living at level lv"""
    if not mp:
        return x
    if isinstance(x, tuple):
        if x in mp:
            return mp[x]
        if len(x) == 2 and x[0] in ("f", "c"):
            return x
        if len(x) == 3 and x[0] == "b":
            return x
        tag = x[0] if x else None
        if tag == "e":
            return nidx(("e", polysub(x[1], lv + 1, mp)), lv)
        if tag == "inj":
            return ("inj", x[1], x[2], msub(x[3], lv, mp))
        if tag in ("fn",):
            return ("fn", x[1], polysub(x[2], lv + 1, mp))
        if tag == "sum":
            return ("sum", polysub(x[1], lv + 1, mp))
        if tag == "cmp":
            return ("cmp", x[1], polysub(x[2], lv + 1, mp))
        if tag == "conj":
            return ("conj", msub(x[1], lv, mp))
        if tag == "atom":
            return ("atom", x[1], tuple(msub(i, lv, mp) for i in x[2]))
        if tag == "app":
            return ("app", x[1], closed_sub(x[2], mp), tuple(msub(i, lv, mp) for i in x[3]))
        if tag == "delta":
            return ("delta", msub(x[1], lv, mp), msub(x[2], lv, mp))
        if tag == "ival":
            return ("ival", msub(x[1], lv, mp))
        if tag == "inv":
            return ("inv", closed_sub(x[1], mp), msub(x[2], lv, mp), msub(x[3], lv, mp))
        if tag == "bool":
            return ("bool", closed_sub(x[1], mp))
        if tag in ("num", "div0"):
            return x
        raise ValueError(f"msub: {x!r}")
    return x


class Unsupported(Exception):
    """the analysis cannot represent this"""


def is_K(k):
    return isinstance(k, tuple) and len(k) == 2 and k[0] == "f" and isinstance(k[1], tuple) and k[1][0] == "K"


def closed_sub(x, mp):
    """substitute loop indices (globally named, never formal) inside a closed argument"""
    mk = {k: v for k, v in mp.items() if is_K(k)}
    if not mk or not contains_any(x, mk):
        return x
    for v in mk.values():
        if _has_bound(v):
            raise Unsupported("bound index inside a closed argument")
    return _csub(x, mk)


def _has_bound(v):
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == "b":
            return True
        return any(_has_bound(y) for y in v)
    if isinstance(v, Poly):
        return any(_has_bound(f) for (bd, fs), c in v.t for f, e in fs)
    return False


def contains_any(x, mk):
    if isinstance(x, T):
        return contains_any(x.p, mk) or any(contains_any(d, mk) for d in x.shape)
    if isinstance(x, Poly):
        return any(contains_any(f, mk) for (bd, fs), c in x.t for f, e in fs)
    if isinstance(x, tuple):
        if x in mk:
            return True
        return any(contains_any(y, mk) for y in x)
    return False


def _csub(x, mk):
    if isinstance(x, T):
        return T([polysub(d, 0, mk) for d in x.shape], polysub(x.p, 0, mk), dt=x.dt, st=x.st, kind=x.kind)
    if isinstance(x, Poly):
        return polysub(x, 0, mk)
    if isinstance(x, tuple):
        if x in mk:
            return mk[x]
        return tuple(_csub(y, mk) for y in x)
    return x


def polysub(p, lv, mp):
    """apply an index substitution to a poly whose own bound indices are at level lv"""
    if not mp or not p.t:
        return p
    if not mentions(p, mp):
        return p
    mp2 = {k: shift_idx(v, lv, 1) for k, v in mp.items()} if any(_has_own(v, lv) for v in mp.values()) else mp
    out = []
    for (bd, fs), c in p.t:
        out.append(resimp([], bd, [(msub(f, lv, mp2), e) for f, e in fs], c, lv))
    return psum(out)


def _has_own(v, lv):
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == "b":
            return v[1] >= lv
        return any(_has_own(y, lv) for y in v)
    if isinstance(v, Poly):
        return any(_has_own(m, lv) for m, _ in v.t)
    return False


def mentions(x, mp):
    if isinstance(x, T):
        return contains_any(x, {k: 1 for k in mp if is_K(k)})
    if isinstance(x, Poly):
        return any(mentions(f, mp) for (bd, fs), c in x.t for f, e in fs)
    if isinstance(x, tuple):
        if x in mp:
            return True
        return any(mentions(y, mp) for y in x)
    return False


def shift(p, frm, by):
    """raise the level of bound references >= frm by `by` in poly p"""
    out = {}
    changed = False
    for (bd, fs), c in p.t:
        nf = tuple((shift_idx(f, frm, by), e) for f, e in fs)
        if nf != fs:
            changed = True
        out[(bd, nf)] = c
    if not changed:
        return p
    # order of factors may change; re-sort
    out2 = {}
    for (bd, fs), c in out.items():
        out2[(bd, tuple(sorted(fs, key=skey)))] = c
    return Poly(out2)


def shift_idx(x, frm, by):
    if isinstance(x, tuple):
        if len(x) == 3 and x[0] == "b" and isinstance(x[1], int):
            return ("b", x[1] + by, x[2]) if x[1] >= frm else x
        if x and x[0] == "inv":
            return ("inv", x[1], shift_idx(x[2], frm, by), shift_idx(x[3], frm, by))
        if x and x[0] == "app":
            return ("app", x[1], x[2], tuple(shift_idx(i, frm, by) for i in x[3]))
        return tuple(shift_idx(y, frm, by) for y in x)
    if isinstance(x, Poly):
        return shift(x, frm, by)
    return x


def nidx(ix, lv=0):
    """normalise an index term"""
    if ix[0] == "e":
        p = ix[1]
        n = p.as_int()
        if n is not None:
            return ("c", n)
        s = p.single()
        if s is not None and s[0][0] == "ival" and s[1] == 1:
            return s[0][1]
    return ix


def idx_value(ix, lv=0):
    """numeric value of an index term as a Poly"""
    if ix[0] == "c":
        return P(ix[1])
    if ix[0] == "e":
        return shift(ix[1], lv + 1, -1)
    if ix[0] == "inj":
        off = psum([P(d) for d in ix[2][:ix[1]]])
        return off + idx_value(ix[3], lv)
    return Poly({((), ((("ival", ix), Fr(1)),)): ONE_G})


def resimp(pre, bd, fs, c, lv):
    """re-normalise factors (after a substitution some may have become polys)"""
    res = normalise(list(bd), [], c, lv, raw=list(fs))
    return res


# ----------------------------------------------------------- factor simplification
IDEMP = ("cmp", "bool", "delta")


def _is_idemp(f):
    return f[0] in IDEMP or (f[0] == "atom" and f[1] in BOOL)


def simp_factor(f, e, lv):
    """returns None if f is already simple, else a Poly equal to f**e"""
    tag = f[0]
    if tag == "delta":
        a, b = f[1], f[2]
        r = simp_delta(a, b, lv)
        if r == f:
            return None
        if isinstance(r, Poly):
            return r
        return Poly({((), ((r, Fr(1)),)): ONE_G})
    if tag == "ival":
        if f[1][0] in ("c", "e", "inj"):
            return ppow(idx_value(f[1], lv), e, lv)
        return None
    if tag == "cmp":
        n = simp_cmp(f[1], f[2], lv)
        if n is None:
            return None
        return n
    if tag == "fn":
        r = simp_fn(f[1], f[2], lv)
        if r is None:
            return None
        return ppow(r, e, lv)
    if tag == "sum":
        # base may have simplified after a substitution
        b = f[1]
        if len(b.t) == 1 and not b.t[0][0][0] and e.denominator != 1:
            fs1, c1 = b.t[0][0][1], b.t[0][1]
            if fs1 and not any(is_pos_factor(g) for g, _ in fs1):
                if c1 != ONE_G and (c1.im or c1.re < 0):
                    return None
                if c1 == ONE_G and (len(fs1) > 1 or fs1[0][1] not in (1, Fr(1, 2))):
                    return None
        if len(b.t) == 0 or (len(b.t) == 1):
            q = ppow(shift(b, lv + 1, -1), e, lv)
            s = q.single()
            if s is not None and s == (f, e):
                return None
            return q
        c = b.t[0][1]
        lead = abs(c.re) if c.re else abs(c.im)
        if lead != 1 or (e.denominator == 1 and c.re < 0) or (e.denominator == 1 and 0 < e <= 6):
            return ppow(shift(b, lv + 1, -1), e, lv)
        return None
    if tag == "conj":
        inner = f[1]
        if inner[0] in ("atom",) and inner[1] in REAL:
            return Poly({((), ((inner, e),)): ONE_G})
        if inner[0] in ("atom", "app"):
            if inner[0] == "app" and inner[1] in REAL_APPS:
                return Poly({((), ((inner, e),)): ONE_G})
            return None
        return ppow(conj_factor(inner, lv), e, lv)
    if tag == "inv":
        # explicit small matrices
        A = f[1]
        n = A.shape[0].as_int()
        if n in (1, 2):
            def ent(i, j):
                return polysub(A.p, 0, {("f", 0): ("c", i), ("f", 1): ("c", j)})
            if n == 1:
                return ppow(ent(0, 0), -e, lv)
            a, b, c, d = ent(0, 0), ent(0, 1), ent(1, 0), ent(1, 1)
            det = a * d - b * c
            rd = ppow(det, Fr(-1))
            ad = [[d, -b], [-c, a]]
            out = ZERO
            for i in range(2):
                for j in range(2):
                    q = shift(ad[i][j] * rd, 0, lv) if lv else ad[i][j] * rd
                    w = normalise([], [(("delta", f[2], ("c", i)), Fr(1)), (("delta", f[3], ("c", j)), Fr(1))], ONE_G, lv)
                    out = out + pmul(q, w, lv)
            return ppow(out, e, lv)
        return None
    if tag == "atom" and f[1] in SYM and len(f[2]) == 2:
        i, j = f[2]
        if skey(i) > skey(j):
            return Poly({((), ((("atom", f[1], (j, i)), e),)): ONE_G})
        return None
    return None


def simp_cmp(op, p, lv):
    """canonical comparison: 'lt' p<0, 'eq' p==0.  None if already canonical"""
    c = p.const()
    if c is not None:
        if op == "eq":
            return ONE if not c else ZERO
        if c.im == 0:
            return ONE if c.re < 0 else ZERO
        return None
    if op == "lt":
        if poly_nonneg(p):
            return ZERO
        if poly_pos_const(-p):
            return ONE
    if op == "eq":
        if poly_pos_const(p) or poly_pos_const(-p):
            return ZERO
        if _all_int(p) and (known_neg(p) or known_neg(-p)):
            return ZERO
    lead = p.t[0][1]
    # positive scaling; for eq any sign
    s = abs(lead.re) if lead.re else abs(lead.im)
    q = pscale(p, G(1 / s))
    if op == "eq":
        l2 = q.t[0][1]
        if l2.re < 0 or (l2.re == 0 and l2.im < 0):
            q = -q
    if q == p:
        return None
    return Poly({((), ((("cmp", op, q), Fr(1)),)): ONE_G})


def _all_int(p):
    for (bd, fs), c in p.t:
        if c.im or c.re.denominator != 1:
            return False
        for f, e in fs:
            if e.denominator != 1 or e < 0:
                return False
            if f[0] == "ival" or (f[0] == "atom" and f[1] in INT):
                continue
            if f[0] in ("cmp", "bool", "delta") or f[0] == "app" and f[1] in INT_APPS or f[0] == "fn" and f[1] in ("int", "floor", "ceil"):
                continue
            return False
    return True


INT_APPS = {"first", "argsort", "rangelen", "dim"}


def lead_sign(p):
    c = p.t[0][1]
    if c.re:
        return 1 if c.re > 0 else -1
    return 1 if c.im > 0 else -1


def simp_fn(name, p, lv):
    """p at level lv+1 (own bound) ; result at level lv. None if canonical"""
    if name == "exp":
        if not p.t:
            return ONE
        if len(p.t) > 1:
            r = ONE
            for m, c in p.t:
                r = pmul(r, fnp("exp", shift(Poly({m: c}), lv + 1, -1), lv), lv)
            return r
        c = p.t[0][1]
        # exp(n*c0*m) with integer n: pull the integer into the exponent
        cc = c.re if c.re else c.im
        if c.re == 0 or c.im == 0:
            n = cc.numerator
            if n != 1:
                base = pscale(p, G(Fr(1, n)))
                return Poly({((), ((("fn", "exp", base), Fr(n)),)): ONE_G})
        return None
    if name in ("cos", "sin", "tanh", "tan", "arctan"):
        if not p.t:
            return ONE if name == "cos" else ZERO
        if lead_sign(p) < 0:
            q = Poly({((), ((("fn", name, -p), Fr(1)),)): ONE_G})
            return q if name == "cos" else -q
        return None
    if name in ("int", "floor", "ceil"):
        if _all_int(p):
            return shift(p, lv + 1, -1)
        c = dict(p.t).get(MONO1)
        if c is not None and not c.im and c.re.denominator != 1:
            n = c.re.numerator // c.re.denominator
            rest = p - P(c.re)
            if _all_int(rest) and (name != "int" or poly_nonneg(p)):
                if name == "ceil":
                    n += 1
                return shift(rest + P(n), lv + 1, -1)
        return None
    return None


def fnp(name, p, lv=0):
    return normalise([], [(("fn", name, shift(p, lv, 1)), Fr(1))], ONE_G, lv)


def cmpp(op, p, lv=0):
    """boolean poly for p<0 ('lt') or p==0 ('eq')"""
    return normalise([], [(("cmp", op, shift(p, lv, 1)), Fr(1))], ONE_G, lv)


def simp_delta(a, b, lv):
    """returns a factor ('delta',a,b) in canonical orientation, or a Poly"""
    if a == b:
        return ONE
    if a[0] == "inj" and b[0] == "inj" and a[2] == b[2]:
        if a[1] != b[1]:
            return ZERO
        return simp_delta(a[3], b[3], lv)
    if a[0] == "c" and b[0] == "c":
        return ZERO
    for x, y in ((a, b), (b, a)):
        if x[0] == "inj" and y[0] in ("c", "e"):
            off = psum([P(d) for d in x[2][:x[1]]])
            v = idx_value(y, lv) - off
            if poly_pos_const(-v) or (_all_int(v) and known_neg(v)):
                return ZERO
            if poly_pos_const(v - P(x[2][x[1]]) + 1):   # v >= size
                return ZERO
            return simp_delta(x[3], nidx(("e", shift(v, lv, 1)), lv), lv)
    if a[0] in ("c", "e") and b[0] in ("c", "e"):
        d = idx_value(a, lv) - idx_value(b, lv)
        if d.is_zero():
            return ONE
        if poly_pos_const(d) or poly_pos_const(-d) or (_all_int(d) and (known_neg(d) or known_neg(-d))):
            return ZERO
    # orientation: variable first
    ka, kb = _dorder(a), _dorder(b)
    if ka < kb:
        a, b = b, a
    return ("delta", a, b)


def _dorder(i):
    """bigger = preferred to be eliminated (left side of the delta)"""
    t = i[0]
    r = {"b": 5, "f": 4, "inj": 3, "e": 2}.get(t, 1)
    return (r, skey(i))


def contains_idx(x, v):
    if isinstance(v, tuple) and v and (v[0] == "b" or v[0] == "f"):
        return v in refs(x)
    if x == v:
        return True
    if isinstance(x, tuple):
        return any(contains_idx(y, v) for y in x)
    if isinstance(x, Poly):
        return any(contains_idx(f, v) for (bd, fs), c in x.t for f, e in fs)
    return False


# ------------------------------------------------------------------- normalisation
def normalise(bdims, factors, coeff, lv, raw=None):
    """canonical Poly of coeff * sum_{bound} prod factors"""
    if not coeff:
        return ZERO
    if DEADLINE[0] is not None and _time.monotonic() > DEADLINE[0]:
        raise Budget()
    todo = list(raw) if raw is not None else []
    todo += list(factors)
    facs = {}
    guard = 0
    dims = {("b", lv, k): d for k, d in enumerate(bdims)}
    while True:
        guard += 1
        if guard > 2000:
            raise RuntimeError("normalise: no fixpoint")
        # absorb the todo list
        while todo:
            f, e = todo.pop()
            if e == 0:
                continue
            e2 = Fr(1) if _is_idemp(f) else e
            s = simp_factor(f, e2, lv)
            if s is not None:
                if not s.t:
                    return ZERO
                if len(s.t) == 1 and not s.t[0][0][0]:
                    (bd, fs), c = s.t[0]
                    coeff = coeff * c
                    todo.extend(fs)
                    continue
                # a genuine sum: distribute
                rest = Poly({((), ()): coeff})
                base = _assemble(dims, list(facs.items()) + todo, coeff, lv)
                return _distribute(dims, list(facs.items()) + todo, coeff, s, lv)
            if f[0] == "num" and f[1] == 1:
                continue
            if f in facs:
                ne = facs[f] + e2
                if _is_idemp(f):
                    ne = Fr(1)
                if ne == 0:
                    del facs[f]
                else:
                    facs[f] = ne
                    if f[0] == "sum" and (ne.denominator == 1 and ne > 0):
                        del facs[f]
                        s = ppow(shift(f[1], lv + 1, -1), ne, lv)
                        return _distribute(dims, list(facs.items()) + todo, coeff, s, lv)
                    if f[0] == "num" and ne.denominator == 1:
                        del facs[f]
                        coeff = coeff * G(f[1] ** int(ne))
            else:
                facs[f] = e2
        changed = False
        # deltas
        for f in list(facs):
            if f[0] != "delta":
                continue
            a, b = f[1], f[2]
            if a in dims and not contains_idx(b, a):
                del facs[f]
                del dims[a]
                todo = [(msub(g, lv, {a: b}), e) for g, e in facs.items()]
                facs = {}
                changed = True
                break
            if b in dims and not contains_idx(a, b):
                del facs[f]
                del dims[b]
                todo = [(msub(g, lv, {b: a}), e) for g, e in facs.items()]
                facs = {}
                changed = True
                break
            if a[0] in ("f", "b") and not contains_idx(b, a):
                oth = [(g, e) for g, e in facs.items() if g != f and contains_idx(g, a)]
                if oth:
                    for g, e in oth:
                        del facs[g]
                    todo = [(msub(g, lv, {a: b}), e) for g, e in oth]
                    changed = True
                    break
        if changed:
            continue
        # trig reduction: sin^2 -> 1 - cos^2
        for f, e in list(facs.items()):
            if f[0] == "fn" and f[1] == "sin" and e >= 2 and e.denominator == 1:
                del facs[f]
                cosf = ("fn", "cos", f[2])
                s = psum([ONE, Poly({((), ((cosf, Fr(2)),)): G(-1)})])
                fs = list(facs.items())
                if e > 2:
                    fs.append((f, e - 2))
                return _distribute(dims, fs, coeff, s, lv)
        # products of exclusive equalities
        eqs = [f for f in facs if f[0] == "cmp" and f[1] == "eq"]
        for i in range(len(eqs)):
            for j in range(i + 1, len(eqs)):
                d = eqs[i][2] - eqs[j][2]
                if poly_pos_const(d) or poly_pos_const(-d):
                    return ZERO
        # x * [x == 0] = 0
        for f in eqs:
            if len(f[2].t) == 1:
                (qbd, qfs), qc = f[2].t[0]
                if not qbd and len(qfs) == 1 and qfs[0][1] == 1 and facs.get(qfs[0][0], 0) > 0:
                    return ZERO
        # inverse times matrix
        r = _inverse_rule(dims, facs, coeff, lv)
        if r is not None:
            return r
        break
    # unused bound indices count their dimension
    for b in list(dims):
        if not any(contains_idx(f, b) for f in facs):
            d = dims.pop(b)
            rest = normalise_keep(dims, facs, coeff, lv)
            return pmul(shift(P(d), 0, 0), rest, lv)
    return normalise_keep(dims, facs, coeff, lv)


def _assemble(dims, fs, coeff, lv):
    return None


def _distribute(dims, fs, coeff, s, lv):
    """sum over the terms of s of  coeff * prod fs * term"""
    out = []
    names = list(dims)
    n = len(names)
    mp = {b: ("b", lv, ("d", k)) for k, b in enumerate(names)}
    mp2 = {("b", lv, ("d", k)): ("b", lv, k) for k in range(n)}
    base = [(msub(msub(f, lv, mp), lv, mp2), e) for f, e in fs]
    bd0 = [dims[b] for b in names]
    for (bd, tfs), c in s.t:
        if bd:
            m3 = {("b", lv, j): ("b", lv, j + n) for j in range(len(bd))}
            tfs = [(msub(f, lv, m3), e) for f, e in tfs] if n else tfs
        # note: terms of s refer to outer bound indices only through `dims` names
        else:
            tfs = [(msub(msub(f, lv, mp), lv, mp2), e) for f, e in tfs]
        out.append(normalise(bd0 + list(bd), base + list(tfs), coeff * c, lv))
    return psum(out)


def _inverse_rule(dims, facs, coeff, lv):
    for f in list(facs):
        if f[0] != "inv" or facs[f] != 1:
            continue
        A = f[1]
        piv = pivot(A)
        if piv is None:
            continue
        pf, pscal, pc, others = piv     # pivot matrix factor, scalar factors, coeff
        for side in (0, 1):
            x = f[2] if side == 0 else f[3]     # contracted index of the inverse
            if x not in dims:
                continue
            m = match_pivot(pf, facs, dims, f, side, x)
            # side 0:  sum_x  M[i,x] Inv[x,y] ; side 1: sum_x Inv[y,x] M[x,j]
            if m is None:
                continue
            i, matched, inner = m
            y = f[3] if side == 0 else f[2]
            rest = [(h, e) for h, e in facs.items() if h != f and h not in matched]
            dims = {b: d for b, d in dims.items() if b not in inner}
            # identity term
            scal_inv = [(h, -e) for h, e in pscal]
            cinv = coeff * pc.inv()
            names = list(dims)
            del_dims = {b: d for b, d in dims.items() if b != x}
            t1 = _norm_named(del_dims, rest + scal_inv + [(("delta", i, y), Fr(1))], cinv, lv)
            out = [t1]
            for (obd, ofs), oc in others.t:
                # substitute formal indices of A
                nb = {}
                k0 = 900 + len(dims)
                mp = {}
                for k in range(len(obd)):
                    mp[("b", 0, k)] = ("b", lv, ("o", k))
                    nb[("b", lv, ("o", k))] = obd[k]
                mp[("f", 0)] = ("b", lv, ("r",))
                mp[("f", 1)] = ("b", lv, ("c",))
                ofs2 = [(msub(shift_idx(h, 1, lv) if lv else h, lv, mp), e) for h, e in ofs]
                mp2 = {("b", lv, ("r",)): i if side == 0 else x, ("b", lv, ("c",)): x if side == 0 else i}
                ofs2 = [(msub(h, lv, mp2), e) for h, e in ofs2]
                dd = dict(dims)
                dd.update(nb)
                out.append(_norm_named(dd, rest + scal_inv + ofs2 + [(f, Fr(1))], -(cinv * oc), lv))
            return psum(out)
    return None


def _norm_named(dims, fs, coeff, lv):
    names = list(dims)
    mp = {b: ("b", lv, ("z", k)) for k, b in enumerate(names)}
    mp2 = {("b", lv, ("z", k)): ("b", lv, k) for k in range(len(names))}
    fs = [(msub(msub(f, lv, mp), lv, mp2), e) for f, e in fs]
    return normalise([dims[b] for b in names], [], coeff, lv, raw=fs)


@lru_cache(maxsize=None)
def _pivot_cached(A):
    """the monomial of A eliminated by  sum_x A[i,x] inv(A)[x,j] = delta[i,j]"""
    best = None
    for (bd, fs), c in A.p.t:
        mats = [(f, e) for f, e in fs if contains_idx(f, ("f", 0)) or contains_idx(f, ("f", 1))
                or any(contains_idx(f, ("b", 0, k)) for k in range(len(bd)))]
        scal = [(f, e) for f, e in fs if (f, e) not in mats]
        if not mats or any(f[0] == "delta" for f, e in mats):
            continue
        if not any(contains_idx(f, ("f", 0)) for f, e in mats) or not any(contains_idx(f, ("f", 1)) for f, e in mats):
            continue
        key = (len(mats), len(fs), skey(fs))
        if best is None or key < best[0]:
            best = (key, (tuple(mats), len(bd), tuple(scal), c, ((bd, fs), c)))
    if best is None:
        return None
    mats, nb, scal, c, term = best[1]
    others = Poly({m: x for m, x in A.p.t if m != term[0]})
    return (mats, nb), scal, c, others


def pivot(A):
    return _pivot_cached(A)


def match_pivot(pf, facs, dims, inv, side, x):
    """find factors of the monomial equal to the pivot with its contracted formal index
    bound to x.  Returns (image of the other formal, matched factors, consumed bound) or None"""
    mats, nb = pf
    var, other = (("f", 0), ("f", 1)) if side == 0 else (("f", 1), ("f", 0))
    avail = [(g, e) for g, e in facs.items() if g != inv]

    def walk(p, q, env):
        if isinstance(p, tuple):
            if p in env:
                return env if env[p] == q else None
            if p == var or (len(p) == 3 and p[0] == "b" and p[1] == 0 and isinstance(p[2], int) and p[2] < nb):
                if p != var and q not in dims:
                    return None
                env = dict(env)
                env[p] = q
                return env
            if not isinstance(q, tuple) or len(p) != len(q):
                return None
            for a, b in zip(p, q):
                env = walk(a, b, env)
                if env is None:
                    return None
            return env
        return env if p == q else None

    def go(k, env, used):
        if k == len(mats):
            return env, used
        f, e = mats[k]
        for n, (g, ge) in enumerate(avail):
            if n in used or ge != e:
                continue
            env2 = walk(f, g, env)
            if env2 is None:
                continue
            r = go(k + 1, env2, used + (n,))
            if r is not None:
                return r
        return None
    r = go(0, {other: x}, ())
    if r is None:
        return None
    env, used = r
    if var not in env:
        return None
    matched = [avail[n][0] for n in used]
    inner = [env[("b", 0, k)] for k in range(nb)]
    if len(set(inner)) != nb or x in inner:
        return None
    # consumed indices may not occur elsewhere
    for g, e in facs.items():
        if g in matched or g == inv:
            continue
        if contains_idx(g, x) or any(contains_idx(g, b) for b in inner):
            return None
    if any(contains_idx(env[var], b) for b in inner + [x]):
        return None
    return env[var], matched, inner


def normalise_keep(dims, facs, coeff, lv):
    """final canonical labelling of the bound indices"""
    fs = list(facs.items())
    names = list(dims)
    if not names:
        return Poly({((), tuple(sorted(fs, key=skey))): coeff})
    # colour refinement
    color = {b: skey(dims[b]) for b in names}
    for _ in range(3):
        cm = {b: ("b", lv, "?" + color[b]) for b in names}
        sigs = {b: [] for b in names}
        for f, e in fs:
            for b in names:
                if contains_idx(f, b):
                    m = dict(cm)
                    m[b] = ("b", lv, "!" + color[b])
                    sigs[b].append(repr(e) + skey(rawsub(f, m)))
        color = {b: _h(color[b] + "|" + "&".join(sorted(sigs[b]))) for b in names}
    classes = {}
    for b in names:
        classes.setdefault(color[b], []).append(b)
    order_classes = [classes[c] for c in sorted(classes)]
    cands = [[]]
    for cl in order_classes:
        perms = list(permutations(cl)) if len(cl) <= 4 else [tuple(cl)]
        cands = [c + list(p) for c in cands for p in perms]
        if len(cands) > 200:
            cands = cands[:200]
    best = None
    for cand in cands:
        m1 = {b: ("b", lv, k) for k, b in enumerate(cand)}
        nf = tuple(sorted(((rawsub(f, m1), e) for f, e in fs), key=skey))
        k = skey(nf)
        if best is None or k < best[0]:
            best = (k, nf, tuple(dims[b] for b in cand))
    # nested polys must be re-sorted after the renaming
    nf = tuple(sorted(((resort(f), e) for f, e in best[1]), key=skey))
    return Poly({(best[2], nf): coeff})


def _h(s):
    import hashlib
    return hashlib.md5(s.encode()).hexdigest()[:12]


def rawsub(x, mp):
    """simultaneous renaming of index references, without simplification"""
    if isinstance(x, (tuple, Poly)) and refs(x).isdisjoint(mp):
        return x
    if isinstance(x, tuple):
        if x in mp:
            return mp[x]
        if x and x[0] == "inv":
            return ("inv", x[1], rawsub(x[2], mp), rawsub(x[3], mp))
        if x and x[0] == "app":
            return ("app", x[1], x[2], tuple(rawsub(i, mp) for i in x[3]))
        return tuple(rawsub(y, mp) for y in x)
    if isinstance(x, Poly):
        if not any(contains_idx(x, b) for b in mp):
            return x
        d = {}
        for (bd, fs), c in x.t:
            k = (bd, tuple(sorted(((rawsub(f, mp), e) for f, e in fs), key=skey)))
            d[k] = d[k] + c if k in d else c       # colourings may identify terms
        return Poly({k: c for k, c in d.items() if c})
    return x


def resort(x):
    return x


# ------------------------------------------------------------------------ conjugate
def conj_factor(f, lv=0):
    tag = f[0]
    one = lambda g: Poly({((), ((g, Fr(1)),)): ONE_G})
    if tag == "atom":
        return one(f) if f[1] in REAL else one(("conj", f))
    if tag == "app":
        return one(f) if f[1] in REAL_APPS else one(("conj", f))
    if tag in ("delta", "cmp", "ival", "num", "bool", "div0"):
        return one(f)
    if tag == "conj":
        return one(f[1])
    if tag == "fn":
        if f[1] in ("exp", "cos", "sin", "tanh", "tan"):
            return fnp(f[1], shift(pconj(f[2], lv + 1), lv + 1, -1), lv)
        return one(f) if is_real_factor(f) else one(("fn", "conj_" + f[1], f[2]))
    if tag == "sum":
        return one(("sum", pconj(f[1], lv + 1)))
    if tag == "inv":
        return one(("inv", T(f[1].shape, pconj(f[1].p)), f[2], f[3]))
    raise ValueError(f)


def pconj(p, lv=0):
    out = []
    for (bd, fs), c in p.t:
        n = len(bd)
        acc_f, acc_p = [], []
        for f, e in fs:
            q = conj_factor(f, lv)
            if len(q.t) == 1 and not q.t[0][0][0] and q.t[0][1] == ONE_G:
                acc_f += [(g, x * e) for g, x in q.t[0][0][1]]
            else:
                acc_p.append(ppow(q, e, lv))
        r = normalise(list(bd), acc_f, c.conj(), lv)
        for q in acc_p:
            r = pmul(r, q, lv)     # (only bound-free factors end up here)
        out.append(r)
    return psum(out)


def preal(p):
    return pscale(p + pconj(p), G(Fr(1, 2)))


def pimag(p):
    return pscale(p - pconj(p), G(0, Fr(-1, 2)))


# ---------------------------------------------------------------------- tensors
class T:
    """A tensor-valued value number: shape (dims as Polys) and the entry as a Poly in
    the free indices ('f',0..rank-1)."""
    __slots__ = ("shape", "p", "_k", "dt", "st", "kind")

    def __init__(self, shape, p, dt=None, st=None, kind="arr"):
        self.shape = tuple(P(d) for d in shape)
        self.p = p
        self._k = None
        self.dt = dt
        self.st = st          # storage identity (for in-place writes)
        self.kind = kind      # 'arr', or 'int' | 'float' | 'bool' | 'complex' for python scalars

    @property
    def rank(self):
        return len(self.shape)

    @property
    def key(self):
        if self._k is None:
            self._k = "T" + skey(self.shape) + self.p.key
        return self._k

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, T) and self.key == o.key

    def __repr__(self):
        return f"T{list(self.shape)}:{self.p}"

    def const(self):
        return self.p.const() if self.rank == 0 else None


class ShapeError(Exception):
    pass


def scal(x, kind="arr"):
    return T((), P(x), kind=kind)


def tens(name, *dims):
    """tensor atom"""
    return T(dims, atom(name, *[("f", k) for k in range(len(dims))]))


def app(name, args, *dims):
    """result of an uninterpreted function; args: hashable canonical structure"""
    return T(dims, fac(("app", name, args, tuple(("f", k) for k in range(len(dims))))))


MISMATCH = []       # (context) shape mismatches found while broadcasting


def bcast(ts):
    r = max(t.rank for t in ts)
    shape = []
    for k in range(r):
        cand = []
        for t in ts:
            j = k - (r - t.rank)
            if j >= 0:
                cand.append(t.shape[j])
        d = None
        for c in cand:
            if c.as_int() == 1:
                continue
            if d is None:
                d = c
            elif d != c:
                MISMATCH.append((repr(d), repr(c)))
        shape.append(d if d is not None else P(1))
    ps = []
    for t in ts:
        mp = {}
        for j in range(t.rank):
            k = j + (r - t.rank)
            if t.shape[j].as_int() == 1 and shape[k].as_int() != 1:
                mp[("f", j)] = ("c", 0)
            elif k != j:
                mp[("f", j)] = ("f", k)
        ps.append(psub_free(t.p, mp))
    return tuple(shape), ps


def psub_free(p, mp):
    """simultaneous substitution of free indices"""
    mp = {k: v for k, v in mp.items() if k != v}
    if not mp:
        return p
    # two-step to make it simultaneous
    tmp = {k: ("f", ("t", i)) for i, k in enumerate(mp)}
    back = {("f", ("t", i)): v for i, (k, v) in enumerate(mp.items())}
    simple = all(v not in mp and not any(contains_idx(v, k) for k in mp) for v in mp.values())
    if simple:
        return polysub(p, 0, mp)
    return polysub(polysub(p, 0, tmp), 0, back)


def tmap(fn, *ts):
    shape, ps = bcast(ts)
    return T(shape, fn(*ps))


def tadd(a, b):
    return tmap(lambda x, y: x + y, a, b)


def tsub(a, b):
    return tmap(lambda x, y: x - y, a, b)


def tmul(a, b):
    return tmap(lambda x, y: pmul(x, y), a, b)


def tdiv(a, b):
    return tmap(lambda x, y: pmul(x, ppow(y, Fr(-1))), a, b)


def tneg(a):
    return T(a.shape, -a.p)


def tpow(a, e):
    """e: Fraction or T"""
    if isinstance(e, T):
        c = e.const()
        if c is None or c.im:
            # x ** y with symbolic y: exp-like opaque
            shape, (x, y) = bcast([a, e])
            if x.const() is not None and x.const() == ONE_G:
                return T(shape, ONE)
            return T(shape, psympow(x, y))
        e = c.re
    return T(a.shape, ppow(a.p, Fr(e)))


def psympow(x, y):
    """x**y for symbolic exponent: canonical ('fn', 'pow', ...)"""
    c = x.const()
    if c is not None:
        if c == ONE_G:
            return ONE
        if not c and poly_pos_const(y):
            return ZERO
    s = x.single()
    if s is not None and s[0][0] == "app" and s[0][1] == "sympow" and s[1] == 1 and not s[0][3]:
        # (b**u)**y -> b**(u*y)
        b, u = s[0][2]
        return psympow(b, u * y)
    return fac(("app", "sympow", (x, y), tuple(sorted(free_of(x) | free_of(y), key=skey))))


def free_of(p):
    out = set()

    def walk(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == "f":
                out.add(x)
                return
            for y in x:
                walk(y)
        elif isinstance(x, Poly):
            for (bd, fs), c in x.t:
                for f, e in fs:
                    walk(f)
    walk(p)
    return out


def tsum(a, axis=None):
    """sum over one axis (int), or all"""
    if axis is None:
        r = a
        for _ in range(a.rank):
            r = tsum(r, r.rank - 1)
        return r
    if axis < 0:
        axis += a.rank
    n = a.rank
    mp = {("f", axis): ("b", 0, "s")}
    for k in range(axis + 1, n):
        mp[("f", k)] = ("f", k - 1)
    out = []
    dim = a.shape[axis]
    nd = dim.as_int()
    if nd is not None and nd <= 8:
        res = ZERO
        for c in range(nd):
            m = {("f", axis): ("c", c)}
            m.update({("f", k): ("f", k - 1) for k in range(axis + 1, n)})
            res = res + psub_free(a.p, m)
        return T(a.shape[:axis] + a.shape[axis + 1:], res)
    for (bd, fs), c in a.p.t:
        nb = len(bd)
        m = {("f", axis): ("b", 0, nb)}
        shiftm = {("f", k): ("f", ("t", k)) for k in range(axis + 1, n)}
        back = {("f", ("t", k)): ("f", k - 1) for k in range(axis + 1, n)}
        nf = [(msub(msub(msub(f, 0, m), 0, shiftm), 0, back), e) for f, e in fs]
        out.append(normalise(list(bd) + [dim], [], c, 0, raw=nf))
    return T(a.shape[:axis] + a.shape[axis + 1:], psum(out))


def ttranspose(a, perm=None):
    n = a.rank
    perm = list(range(n))[::-1] if perm is None else [p % n for p in perm]
    mp = {("f", perm[k]): ("f", k) for k in range(n)}
    return T([a.shape[p] for p in perm], psub_free(a.p, mp))


def tensordot_pair(a, b, ia, ib):
    """contract axis ia of a with axis ib of b; result axes: rest of a, rest of b"""
    ra, rb = a.rank, b.rank
    n = ra + rb
    # outer product on a big index space, then identify
    mpa = {("f", k): ("f", ("A", k)) for k in range(ra)}
    mpb = {("f", k): ("f", ("B", k)) for k in range(rb)}
    pa = polysub(a.p, 0, mpa)
    pb = polysub(b.p, 0, mpb)
    pb = polysub(pb, 0, {("f", ("B", ib)): ("f", ("A", ia))})
    prod = pmul(pa, pb)
    rest = [("A", k) for k in range(ra) if k != ia] + [("B", k) for k in range(rb) if k != ib]
    mp = {("f", r): ("f", k) for k, r in enumerate(rest)}
    prod = polysub(prod, 0, mp)
    dim = a.shape[ia]
    if dim != b.shape[ib]:
        MISMATCH.append((repr(dim), repr(b.shape[ib])))
    shape = [a.shape[k] for k in range(ra) if k != ia] + [b.shape[k] for k in range(rb) if k != ib]
    mp = {("f", ("A", ia)): ("f", len(rest))}
    full = T(tuple(shape) + (dim,), polysub(prod, 0, mp))
    return tsum(full, len(rest))


def tmatmul(a, b):
    if a.rank == 0 or b.rank == 0:
        raise ShapeError("matmul of scalar")
    if a.rank <= 2 and b.rank <= 2:
        return tensordot_pair(a, b, a.rank - 1, 0 if b.rank == 1 else b.rank - 2)
    raise ShapeError("batched matmul")


def tdiag(a):
    if a.rank == 1:
        n = a.shape[0]
        d = fac(("delta", ("f", 0), ("f", 1)))
        return T((n, n), pmul(a.p, d))
    if a.rank == 2:
        return T((a.shape[0],), psub_free(a.p, {("f", 1): ("f", 0)}))
    raise ShapeError("diag")


def teye(n):
    return T((n, n), fac(("delta", ("f", 0), ("f", 1))))


def _partition(a):
    """sizes of the diagonal blocks every monomial of the matrix is placed in"""
    prt = None
    for (bd, fs), c in a.p.t:
        rows = [g[2] for f, e in fs if f[0] == "delta" for g in (f, ("delta", f[2], f[1]))
                if g[1] == ("f", 0) and g[2][0] == "inj"]
        cols = [g[2] for f, e in fs if f[0] == "delta" for g in (f, ("delta", f[2], f[1]))
                if g[1] == ("f", 1) and g[2][0] == "inj"]
        if len(rows) != 1 or len(cols) != 1 or rows[0][1:3] != cols[0][1:3]:
            return None
        if prt is not None and rows[0][2] != prt:
            return None
        prt = rows[0][2]
    if prt is None or len(prt) < 2 or P(a.shape[0]) != P(a.shape[1]):
        return None
    return prt


def tinv(a):
    if a.rank != 2:
        raise ShapeError("inv")
    s = a.p.single()
    if s is not None and s[0][0] == "inv" and s[1] == 1 and s[0][2] == ("f", 0) and s[0][3] == ("f", 1):
        return s[0][1]
    if a.p == teye(a.shape[0]).p:
        return a
    # diagonal: c*delta*g[f]
    if all(any(f == ("delta", ("f", 1), ("f", 0)) for f, e in fs) for (bd, fs), c in a.p.t) and a.p.t:
        diag = tdiag(a)
        return tdiag(T(diag.shape, ppow(diag.p, Fr(-1))))
    # block diagonal
    prt = _partition(a)
    if prt is not None:
        n = len(prt)
        ents = block_entries(a, {a.shape[0].key: prt})
        if all(ents[(i, j)].p.is_zero() for i in range(n) for j in range(n) if i != j):
            rows = [tconcat([tinv(ents[(i, i)]) if i == j else T((prt[i], prt[j]), ZERO) for j in range(n)], 1)
                    for i in range(n)]
            return tconcat(rows, 0)
    return T(a.shape, fac(("inv", T(a.shape, a.p), ("f", 0), ("f", 1))))


def tconj(a):
    return T(a.shape, pconj(a.p))


def tfn(name, a):
    return T(a.shape, fnp(name, a.p))


def tstack(items, axis=0):
    """list of same-shape T's -> new leading axis"""
    shape, ps = bcast(items)
    n = len(items)
    r = len(shape)
    mp = {("f", k): ("f", k + 1) for k in range(r)}
    tot = ZERO
    for k, p in enumerate(ps):
        tot = tot + pmul(psub_free(p, mp), fac(("delta", ("f", 0), ("c", k)))) if n > 1 else psub_free(p, mp)
    t = T((P(n),) + shape, tot)
    if axis not in (0, -r - 1):
        if axis < 0:
            axis += r + 1
        perm = list(range(1, r + 1))
        perm.insert(axis, 0)
        t = ttranspose(t, perm)
    return t


def tconcat(items, axis=0):
    if len(items) == 1:
        return items[0]
    r = items[0].rank
    axis %= r
    parts = tuple(t.shape[axis] for t in items)
    tot = ZERO
    for k, t in enumerate(items):
        # sum_b delta(f_axis, inj_k(b)) t[.., b, ..]
        p = psub_free(t.p, {("f", axis): ("f", "cc")})
        out = []
        if parts[k].as_int() == 1:
            pass
        for (bd, fs), c in p.t:
            nb = len(bd)
            m = {("f", "cc"): ("b", 0, nb)}
            nf = [(msub(f, 0, m), e) for f, e in fs]
            nf.append((("delta", ("f", axis), ("inj", k, parts, ("b", 0, nb))), Fr(1)))
            out.append(normalise(list(bd) + [parts[k]], [], c, 0, raw=nf))
        tot = tot + psum(out)
    dim = psum([P(d) for d in parts])
    shape = list(items[0].shape)
    shape[axis] = dim
    return T(shape, tot)


# ------------------------------------------------------------ indexing
class Sl:
    """symbolic slice; bounds Poly or None"""
    __slots__ = ("a", "b", "s")

    def __init__(self, a=None, b=None, s=None):
        self.a, self.b, self.s = a, b, s


def _norm_bound(x, dim):
    n = x.as_int()
    if n is not None and n < 0:
        return dim + n
    if n is None and poly_pos_const(-x):
        return dim + x
    return x


def slice_index(sl, dim, var):
    """index term for element `var` of the slice, and the slice's dim; or None (opaque)"""
    step = sl.s
    if step is not None and step.as_int() == 1:
        step = None
    if step is not None:
        if step.as_int() == -1 and sl.a is None and sl.b is None:
            return nidx(("e", dim - 1 - idx_value(var))), dim
        if sl.a is None and sl.b is None:
            return nidx(("e", shift(step * idx_value(var), 0, 1))), app_dim("cdiv", dim, step)
        return None
    a = P(0) if sl.a is None else _norm_bound(sl.a, dim)
    b = dim if sl.b is None else _norm_bound(sl.b, dim)
    if a.is_zero() and b == dim:
        return var, dim
    da, db = dim.as_int(), b.as_int()
    if da is not None and db is not None and a.as_int() is not None:
        lo, hi = min(a.as_int(), da), min(db, da)
        if lo == 0 and hi == da:
            return var, dim
        b = P(hi)
        a = P(lo)
    parts, k = [], 0
    if not a.is_zero():
        parts.append(a)
        k = 1
    parts.append(b - a)
    if not (dim - b).is_zero():
        parts.append(dim - b)
    if len(parts) == 1:
        return var, dim
    return ("inj", k, tuple(parts), var), b - a


def app_dim(name, *args):
    return fac(("app", name, tuple(args), ()))


def tindex(t, spec):
    """spec: list of int | Poly (scalar index) | Sl | None (newaxis) | Ellipsis | T (index array)"""
    n_ax = sum(1 for s in spec if s is not None and s is not Ellipsis)
    if any(s is Ellipsis for s in spec):
        k = [i for i, s in enumerate(spec) if s is Ellipsis][0]
        spec = list(spec[:k]) + [Sl()] * (t.rank - n_ax) + list(spec[k + 1:])
    else:
        spec = list(spec) + [Sl()] * (t.rank - n_ax)
    if sum(1 for s in spec if s is not None) > t.rank:
        raise ShapeError("too many indices")
    arrays = [s for s in spec if isinstance(s, T) and s.rank > 0]
    ashape, aps = ((), [])
    if arrays:
        ashape, aps = bcast(arrays)
    out_shape = []
    mp = {}
    ax = 0
    pos = 0
    apos = None
    nar = len(ashape)
    ai = 0
    # first pass: compute output positions
    plan = []
    for s in spec:
        if s is None:
            plan.append(("new",))
            continue
        if isinstance(s, T) and s.rank == 0:
            s = s.p
        if isinstance(s, int):
            s = P(s)
        if isinstance(s, Poly):
            plan.append(("idx", ax, s))
        elif isinstance(s, Sl):
            plan.append(("sl", ax, s))
        else:
            plan.append(("arr", ax, aps[ai]))
            ai += 1
        ax += 1
    arr_pos = [i for i, q in enumerate(plan) if q[0] == "arr"]
    adjacent = not arr_pos or all(plan[i][0] == "arr" for i in range(arr_pos[0], arr_pos[-1] + 1))
    if arrays and not adjacent:
        out_shape = list(ashape)
        apos = 0
        pos = nar
    for q in plan:
        if q[0] == "new":
            out_shape.append(P(1))
            pos += 1
        elif q[0] == "idx":
            d = t.shape[q[1]]
            v = _norm_bound(q[2], d)
            mp[("f", q[1])] = nidx(("e", shift(v, 0, 1)))
        elif q[0] == "sl":
            d = t.shape[q[1]]
            r = slice_index(q[2], d, ("f", pos))
            if r is None:
                raise ShapeError("slice")
            mp[("f", q[1])] = r[0]
            out_shape.append(r[1])
            pos += 1
        else:
            if apos is None:
                apos = pos
                out_shape.extend(ashape)
                pos += nar
            pp = psub_free(q[2], {("f", k): ("f", k + apos) for k in range(nar)})
            mp[("f", q[1])] = nidx(("e", shift(pp, 0, 1)))
    return T(out_shape, psub_free(t.p, mp))


def tset(t, spec, val):
    """functional update t[spec] = val (basic indexing only)"""
    n_ax = sum(1 for s in spec if s is not None and s is not Ellipsis)
    if any(s is Ellipsis for s in spec):
        k = [i for i, s in enumerate(spec) if s is Ellipsis][0]
        spec = list(spec[:k]) + [Sl()] * (t.rank - n_ax) + list(spec[k + 1:])
    else:
        spec = list(spec) + [Sl()] * (t.rank - n_ax)
    inds = []            # delta factors; bound vars
    sel_shape = []
    sel_idx = []         # index term (in t's own index space) of each selected axis
    nb = 0
    bdims = []
    ax = 0
    for s in spec:
        if s is None:
            sel_shape.append(P(1))
            sel_idx.append(("c", 0))
            continue
        if isinstance(s, T):
            if s.rank:
                raise ShapeError("array index assignment")
            s = s.p
        if isinstance(s, int):
            s = P(s)
        if isinstance(s, Poly):
            v = _norm_bound(s, t.shape[ax])
            inds.append((("delta", ("f", ax), nidx(("e", shift(v, 0, 1)))), Fr(1)))
        else:
            r = slice_index(s, t.shape[ax], ("b", 0, nb))
            if r is None:
                raise ShapeError("slice assign")
            if r[0] == ("b", 0, nb):
                sel_shape.append(r[1])
                sel_idx.append(("f", ax))
            else:
                inds.append((("delta", ("f", ax), r[0]), Fr(1)))
                bdims.append(r[1])
                sel_shape.append(r[1])
                sel_idx.append(("b", 0, nb))
                nb += 1
        ax += 1
    if val.rank > len(sel_shape):
        # allow leading singleton axes
        if all(d.as_int() == 1 for d in val.shape[:val.rank - len(sel_shape)]):
            val = tindex(val, [0] * (val.rank - len(sel_shape)))
        else:
            raise ShapeError("assign rank")
    # broadcast val to sel_shape
    mp = {}
    off = len(sel_shape) - val.rank
    for k in range(val.rank):
        if val.shape[k].as_int() == 1:
            mp[("f", k)] = ("c", 0)
        else:
            mp[("f", k)] = sel_idx[off + k]
    ind = normalise(list(bdims), list(inds), ONE_G, 0)
    # val part: sum_b ind * val
    if any(x[0] == "b" for x in mp.values() if isinstance(x, tuple)):
        fr = {k: (("f", ("v", v[2])) if v[0] == "b" else v) for k, v in mp.items()}
        vp = psub_free(val.p, fr)
        tot = ZERO
        for (bd, fs), c in vp.t:
            n0 = len(bd)
            m = {("f", ("v", j)): ("b", 0, n0 + j) for j in range(nb)}
            nf = [(msub(f, 0, m), e) for f, e in fs]
            sh = {("b", 0, j): ("b", 0, n0 + j) for j in range(nb)}
            nf += [(rawsub(f, sh), e) for f, e in inds]
            tot = tot + normalise(list(bd) + list(bdims), [], c, 0, raw=nf)
        vpart = tot
    else:
        vpart = pmul(psub_free(val.p, mp), ind)
    return T(t.shape, t.p - pmul(t.p, ind) + vpart)


# ------------------------------------------------------------ rewriting of atoms
def rewrite(x, fn):
    """bottom-up rewriting of leaf factors: fn(factor) -> Poly or None.
    Works on Poly/T at level 0 (closed sub-terms included)."""
    if isinstance(x, T):
        return T([rewrite(d, fn) for d in x.shape], rewrite(x.p, fn), dt=x.dt, st=x.st, kind=x.kind)
    return _rw(x, fn, 0)


def _rw(p, fn, lv):
    out = []
    for (bd, fs), c in p.t:
        bd2 = [_rw(P(d), fn, 0) for d in bd]
        simple, sums = [], []
        for f, e in fs:
            g = _rwf(f, fn, lv)
            r = fn(g)
            if r is None and g[0] == "sum" and g[1].const() is not None:
                r = P(g[1].const())
            if r is None:
                simple.append((g, e))
            else:
                r = shift(r, 0, lv) if lv else r
                if r.const() is not None or (len(r.t) == 1 and not r.t[0][0][0]):
                    q = ppow(r, e, lv)
                    sums.append(q)
                else:
                    sums.append(ppow(r, e, lv))
        n = len(bd)
        if not sums:
            out.append(normalise(bd2, [], c, lv, raw=simple))
        else:
            # multiply inside the binder: expand sums over the monomial
            acc = [(simple, c, list(bd2))]
            for q in sums:
                nacc = []
                for sf, sc, sb in acc:
                    for (qb, qf), qc in q.t:
                        k = len(sb)
                        if qb:
                            m = {("b", lv, j): ("b", lv, ("q", j)) for j in range(len(qb))}
                            m2 = {("b", lv, ("q", j)): ("b", lv, k + j) for j in range(len(qb))}
                            # bound indices of q are its own: only rename those
                            qf = [(rawsub(rawsub(f, m), m2), e) for f, e in qf]
                        nacc.append((sf + list(qf), sc * qc, sb + list(qb)))
                acc = nacc
            for sf, sc, sb in acc:
                out.append(normalise(sb, [], sc, lv, raw=sf))
    return psum(out)


def _rwi(ix, fn, lv):
    if ix[0] == "e":
        return nidx(("e", _rw(ix[1], fn, lv + 1)), lv)
    if ix[0] == "inj":
        return ("inj", ix[1], tuple(_rw(P(d), fn, 0) for d in ix[2]), _rwi(ix[3], fn, lv))
    return ix


def rw_arg(a, fn):
    """rewrite inside closed arguments of app factors"""
    if isinstance(a, T):
        return rewrite(a, fn)
    if isinstance(a, Poly):
        return _rw(a, fn, 0)
    if isinstance(a, tuple):
        return tuple(rw_arg(y, fn) for y in a)
    return a


def _rwf(f, fn, lv):
    tag = f[0]
    if tag == "atom":
        return ("atom", f[1], tuple(_rwi(i, fn, lv) for i in f[2]))
    if tag == "app":
        return ("app", f[1], rw_arg(f[2], fn), tuple(_rwi(i, fn, lv) for i in f[3]))
    if tag == "fn":
        return ("fn", f[1], _rw(f[2], fn, lv + 1))
    if tag == "sum":
        return ("sum", _rw(f[1], fn, lv + 1))
    if tag == "cmp":
        return ("cmp", f[1], _rw(f[2], fn, lv + 1))
    if tag == "conj":
        inner = _rwf(f[1], fn, lv)
        return ("conj", inner)
    if tag == "inv":
        return ("inv", rewrite(f[1], fn), _rwi(f[2], fn, lv), _rwi(f[3], fn, lv))
    if tag == "delta":
        return ("delta", _rwi(f[1], fn, lv), _rwi(f[2], fn, lv))
    if tag == "ival":
        return ("ival", _rwi(f[1], fn, lv))
    if tag == "bool":
        return ("bool", rw_arg(f[1], fn))
    return f


def subst_atoms(x, mp):
    """mp: scalar atom name -> Poly"""
    def fn(f):
        if f[0] == "atom" and f[1] in mp:
            v = mp[f[1]]
            return v(*f[2]) if callable(v) else v
        if f[0] == "conj" and f[1][0] == "atom" and f[1][1] in mp:
            v = mp[f[1][1]]
            return pconj(v(*f[1][2]) if callable(v) else v)
        return None
    return rewrite(x, fn)


def atoms_of(x, acc=None):
    """names of all atoms occurring anywhere (closed sub-terms included)"""
    if acc is None:
        acc = set()
    if isinstance(x, T):
        atoms_of(x.p, acc)
        for d in x.shape:
            atoms_of(d, acc)
    elif isinstance(x, Poly):
        for (bd, fs), c in x.t:
            for f, e in fs:
                atoms_of(f, acc)
    elif isinstance(x, tuple):
        if len(x) == 3 and x[0] == "atom":
            acc.add(x[1])
        for y in x:
            atoms_of(y, acc)
    elif isinstance(x, list):
        for y in x:
            atoms_of(y, acc)
    return acc


def factors_of(x, pred, acc=None):
    """all factors (nested ones too) satisfying pred"""
    if acc is None:
        acc = []
    if isinstance(x, T):
        factors_of(x.p, pred, acc)
    elif isinstance(x, Poly):
        for (bd, fs), c in x.t:
            for f, e in fs:
                factors_of(f, pred, acc)
    elif isinstance(x, tuple):
        if x and isinstance(x[0], str) and pred(x):
            acc.append(x)
        for y in x:
            factors_of(y, pred, acc)
    return acc


# ------------------------------------------------------------- block expansion
def expand_blocks(t, parts_of):
    """split every bound index whose dimension has a known partition, so that identities
    that hold block by block become syntactic.  parts_of: {dim key: parts}"""
    p = t.p

    def go(p):
        out = []
        again = False
        for (bd, fs), c in p.t:
            hit = None
            for k, d in enumerate(bd):
                if d.key in parts_of:
                    hit = k
                    break
            if hit is None:
                out.append(Poly({(bd, fs): c}))
                continue
            again = True
            parts = parts_of[bd[hit].key]
            for j in range(len(parts)):
                nb = list(bd)
                nb[hit] = parts[j]
                m = {("b", 0, hit): ("inj", j, parts, ("b", 0, hit))}
                nf = [(msub(f, 0, {("b", 0, hit): ("b", 0, "X")}), e) for f, e in fs]
                nf = [(msub(f, 0, {("b", 0, "X"): ("inj", j, parts, ("b", 0, hit))}), e) for f, e in nf]
                out.append(normalise(nb, [], c, 0, raw=nf))
        r = psum(out)
        return go(r) if again else r
    return T(t.shape, go(p))


def block_entries(t, parts_of):
    """entries of t with every free axis of a partitioned dim split: dict of index -> Poly"""
    res = {(): (t.p, list(t.shape))}
    for ax in range(t.rank):
        d = t.shape[ax]
        parts = parts_of.get(d.key)
        new = {}
        for k, (p, sh) in res.items():
            if parts is None:
                new[k + (None,)] = (p, sh)
            else:
                for j in range(len(parts)):
                    q = psub_free(psub_free(p, {("f", ax): ("f", "tmp")}),
                                  {("f", "tmp"): ("inj", j, parts, ("f", ax))})
                    sh2 = list(sh)
                    sh2[ax] = parts[j]
                    new[k + (j,)] = (q, sh2)
        res = new
    return {k: T(sh, p) for k, (p, sh) in res.items()}


def equal(a, b, parts_of=None):
    """value-number equality (with block refinement)"""
    if isinstance(a, T) and isinstance(b, T):
        if a.rank != b.rank:
            return False
        if any(x != y for x, y in zip(a.shape, b.shape)):
            return False
        if a.p == b.p:
            return True
        d = T(a.shape, a.p - b.p)
        return iszero(d, parts_of)
    return a == b


def iszero(d, parts_of=None):
    if d.p.is_zero():
        return True
    if not parts_of:
        return False
    for k, e in block_entries(d, parts_of).items():
        if not expand_blocks(e, parts_of).p.is_zero():
            return False
    return True


# ------------------------------------------------------------------------ display
def show_idx(i):
    if not isinstance(i, tuple):
        return str(i)
    if i[0] == "f":
        return "ijklmnpq"[i[1]] if isinstance(i[1], int) and i[1] < 8 else f"f{i[1]}"
    if i[0] == "b":
        return f"{'abcdeghrstuvw'[i[2]] if isinstance(i[2], int) and i[2] < 13 else i[2]}{'' if i[1] == 0 else i[1]}"
    if i[0] == "c":
        return str(i[1])
    if i[0] == "inj":
        return f"blk{i[1]}({show_idx(i[3])})"
    if i[0] == "e":
        return "<" + show(i[1]) + ">"
    return str(i)


def show_factor(f):
    t = f[0]
    if t == "atom":
        return f[1] + ("[" + ",".join(map(show_idx, f[2])) + "]" if f[2] else "")
    if t == "app":
        a = ",".join(show_arg(x) for x in f[2]) if isinstance(f[2], tuple) else show_arg(f[2])
        if len(a) > 200:
            a = a[:200] + "..."
        return f"{f[1]}({a})" + ("[" + ",".join(map(show_idx, f[3])) + "]" if f[3] else "")
    if t == "fn":
        return f"{f[1]}({show(f[2])})"
    if t == "sum":
        return f"({show(f[1])})"
    if t == "cmp":
        return f"[{show(f[2])}{'<0' if f[1] == 'lt' else '==0'}]"
    if t == "conj":
        return f"conj({show_factor(f[1])})"
    if t == "inv":
        return f"inv({show(f[1].p)})[{show_idx(f[2])},{show_idx(f[3])}]"
    if t == "delta":
        return f"d({show_idx(f[1])},{show_idx(f[2])})"
    if t == "ival":
        return f"#{show_idx(f[1])}"
    if t == "num":
        return str(f[1])
    if t == "bool":
        return f"?{show_arg(f[1])}"
    return str(f)


def show_arg(a):
    if isinstance(a, (T,)):
        return show(a.p)
    if isinstance(a, Poly):
        return show(a)
    if isinstance(a, tuple):
        return "(" + ",".join(show_arg(y) for y in a) + ")"
    return str(a)


def show(p):
    if not p.t:
        return "0"
    out = []
    for (bd, fs), c in p.t[:40]:
        s = "*".join(show_factor(f) + (f"^{e}" if e != 1 else "") for f, e in fs)
        if c == ONE_G and s:
            out.append(s)
        elif c == G(-1) and s:
            out.append("-" + s)
        else:
            out.append(f"{c!r}" + ("*" + s if s else ""))
    if len(p.t) > 40:
        out.append(f"... ({len(p.t)} terms)")
    return " + ".join(out)
