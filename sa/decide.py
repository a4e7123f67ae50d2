"""Deciding obligations on value numbers: normal forms, case split on gates, clearing of
scalar denominators.  Nothing here searches or calls a solver: every step is a rewriting
of the normal form."""
from fractions import Fraction as Fr

from . import algebra as A
from .algebra import P, T, Poly, ONE, ZERO, G, pmul, psum, ppow, normalise, rewrite, iszero


def factors(p):
    for (bd, fs), c in p.t:
        for f, e in fs:
            yield bd, f, e


def has_bound(x):
    if isinstance(x, tuple):
        if len(x) == 3 and x[0] == "b":
            return True
        return any(has_bound(y) for y in x)
    if isinstance(x, Poly):
        return any(has_bound(f) for _, f, _ in factors(x))
    if isinstance(x, T):
        return has_bound(x.p)
    return False


def deep_factors(x, seen=None):
    """every factor occurring anywhere in a term"""
    if seen is None:
        seen = set()
    if isinstance(x, T):
        x = x.p
    if isinstance(x, Poly):
        for (bd, fs), c in x.t:
            for f, e in fs:
                yield from deep_factors(f, seen)
    elif isinstance(x, tuple):
        if x and isinstance(x[0], str) and x[0] in ("atom", "app", "fn", "sum", "cmp", "conj", "inv", "delta", "bool", "ival"):
            if id(x) in seen:
                return
            seen.add(id(x))
            yield x
        for y in x:
            if isinstance(y, (tuple, Poly, T)):
                yield from deep_factors(y, seen)


def clear_denominators(t, maxit=12):
    """multiply by the scalar sums occurring with negative exponents"""
    p = t.p
    for _ in range(maxit):
        den = None
        for bd, f, e in factors(p):
            if e < 0 and f[0] in ("sum", "atom", "fn", "conj", "app") and not has_bound(f) and not (
                    f[0] == "atom" and A.is_pos_factor(f) and False):
                k = (f[0] != "sum", A.skey(f))
                if den is None or k < den[0]:
                    den = (k, f, e)
        if den is None:
            break
        f = den[1]
        m = min(e for bd, g, e in factors(p) if g == f)
        p2 = ZERO
        out = []
        for (bd, fs), c in p.t:
            nf = []
            hit = False
            for g, e in fs:
                if g == f:
                    hit = True
                    if e - m:
                        nf.append((g, e - m))
                else:
                    nf.append((g, e))
            if not hit:
                nf.append((f, -m))
            out.append(normalise(list(bd), [], c, 0, raw=nf))
        p2 = psum(out)
        p = p2
        if p.is_zero():
            break
    return T(t.shape, p)


def trig(t):
    """sin^2 -> 1 - cos^2 (top level)"""
    p = t.p
    for _ in range(8):
        hit = False
        out = []
        for (bd, fs), c in p.t:
            s = next(((f, e) for f, e in fs if f[0] == "fn" and f[1] == "sin" and e.denominator == 1 and e >= 2), None)
            if s is None:
                out.append(Poly({(bd, fs): c}))
                continue
            hit = True
            f, e = s
            rest = [(g, x) for g, x in fs if g != f] + ([(f, e - 2)] if e != 2 else [])
            out.append(normalise(list(bd), [], c, 0, raw=rest))
            out.append(normalise(list(bd), [], -c, 0, raw=rest + [(("fn", "cos", f[2]), Fr(2))]))
        p = psum(out)
        if not hit:
            break
    return T(t.shape, p)


def gates(t):
    """scalar 0/1 factors (no summed index) occurring in the value"""
    out = {}
    for f in deep_factors(t):
        if f[0] in ("cmp", "bool") and not has_bound(f):
            out[A.skey(f)] = f
    return [out[k] for k in sorted(out)]


def under(t, gate, value):
    """the value where the 0/1 factor is known"""
    v = ONE if value else ZERO
    return T(t.shape, rewrite(t.p, lambda f: v if f == gate else None))


def zero(t, parts=None, facts=(), depth=6, stats=None, budget=25):
    """(True, None) or (False, residual T)"""
    if isinstance(t, Poly):
        t = T((), t)
    old = A.DEADLINE[0]
    d = A._time.monotonic() + budget
    A.DEADLINE[0] = d if old is None else min(d, old)
    try:
        for g, v in facts:
            t = under(t, g, v)
        return _zero(t, parts or {}, depth, stats)
    except A.Budget:
        if old is not None and A._time.monotonic() > old:
            raise
        return False, t
    finally:
        A.DEADLINE[0] = old


def _norm(t, parts):
    ok, res = _norm1(t, parts)
    if not ok:
        t2 = renorm(t)
        if t2.p != t.p:
            ok, res2 = _norm1(t2, parts)
            if ok:
                return True, None
    return ok, res


def _norm1(t, parts):
    if iszero(t, parts):
        return True, None
    u = t
    ents = A.block_entries(u, parts) if parts else {(): u}
    for k, e in ents.items():
        if parts:
            e = A.expand_blocks(e, parts)
        if e.p.is_zero():
            continue
        e = clear_denominators(e)
        e = trig(e)
        if e.p.is_zero():
            continue
        e = clear_denominators(e)
        if not e.p.is_zero():
            e = renorm(e)
        if not e.p.is_zero():
            return False, e
    return True, None


def renorm(e):
    """rebuild the normal form bottom up (names of bound indices inside nested terms)"""
    for _ in range(2):
        p = rewrite(e.p, lambda f: None)
        if p == e.p or p.is_zero():
            return T(e.shape, p)
        e = T(e.shape, p)
    return e


def _zero(t, parts, depth, stats):
    ok, res = _norm(t, parts)
    if stats is not None:
        stats["forms"] = stats.get("forms", 0) + 1
    if ok:
        return True, None
    if depth > 0:
        gs = gates(res)
        if gs:
            g = gs[0]
            for v in (1, 0):
                r = under(t, g, v)
                ok, rr = _zero(r, parts, depth - 1, stats)
                if not ok:
                    return False, rr
            return True, None
    return False, res


def opaque_names(t):
    """names of constructs the analysis could not interpret inside a value"""
    out = set()
    for f in deep_factors(t):
        if f[0] == "app" and str(f[1]).startswith("?"):
            out.add(f[1])
    return out
