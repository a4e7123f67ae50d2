"""C01, C02: scattering matrices."""
from .. import algebra as A
from ..algebra import *
from ..values import *
from ..ctx import sym
from ..phys import *
from ..phys import SimCtx, parts, nh, half, mm
from .fields import phase


def blocks(c, S):
    it = c.it
    r = [it.items_of(x) for x in it.items_of(S)]
    return [[x for x in row] for row in r]


def modes(c, i):
    n2 = c.n + c.n
    l = c.layers[i]
    return tuple(c.it.getattr(l, a) for a in ("eigenvalues", "eigenvectors", "Qeps", "thickness"))


def mode_matrix(c, i):
    """tangential (E, H) of the forward and backward modes of a layer"""
    q, phi, Q, d = modes(c, i)
    a = mm(Q, tmul(phi, tdiv(num(1), q)))
    return block2([[a, tneg(a)], [phi, phi]])


def block2(rows):
    return tconcat([tconcat(r, 1) for r in rows], 0)


def interface(c, i, j):
    n2 = c.n + c.n
    I = mm(tinv(mode_matrix(c, i)), mode_matrix(c, j))
    def blk(k, l):
        return tindex(I, [Sl(n2 * P(k), n2 * P(k + 1)), Sl(n2 * P(l), n2 * P(l + 1))])
    return [[blk(k, l) for l in range(2)] for k in range(2)]


def unrolled(rep, backend, N, cuts=()):
    pass


def get_S(c, indices):
    r = c.meth(c.sim, "get_S_matrix", indices=indices)
    c.need(r, f"get_S_matrix({indices})")
    return blocks(c, r)


def identity_S(c):
    n2 = c.n + c.n
    z = T((n2, n2), ZERO)
    return [[teye(n2), z], [z, teye(n2)]]


def step_residuals(c, S, Sn, i, j):
    """S: matrix of a range ending in layer i, Sn: the range prolonged to layer j=i+1.
    With arbitrary incoming a0 (first layer) and b' (last layer), the amplitudes at the
    last interface must satisfy the continuity relation of that interface:
       M_i (f a_i, b_i) = M_j (a_j, f_j b')
    where a_i = S11 a0 + S12 b_i and both outgoing amplitudes are those of Sn."""
    qi, _, _, di = modes(c, i)
    qj, _, _, dj = modes(c, j)
    f, fj = phase(qi, di), phase(qj, dj)
    I = interface(c, i, j)
    Df, Dfj = tdiag(f), tdiag(fj)
    n2 = c.n + c.n
    out = []
    for nm, col in (("a0", 0), ("b'", 1)):
        # coefficients of a0 and of b'
        aj = Sn[0][col]
        bj = T((n2, n2), ZERO) if col == 0 else teye(n2)
        # backward amplitude at the bottom of layer i
        bi = tadd(mm(I[1][0], aj), mm(I[1][1], Dfj, bj))
        a = S[0][0] if col == 0 else T((n2, n2), ZERO)
        ai = tadd(a, mm(S[0][1], bi))
        r1 = tsub(mm(Df, ai), tadd(mm(I[0][0], aj), mm(I[0][1], Dfj, bj)))
        b0 = S[1][0] if col == 0 else T((n2, n2), ZERO)
        r2 = tsub(tadd(b0, mm(S[1][1], bi)), Sn[1][col])
        out.append((f"forward wave leaving the last interface, coefficient of {nm}", r1))
        out.append((f"backward wave leaving the first layer, coefficient of {nm}", r2))
    return out


def c01(rep):
    confs = [("numpy", 3, [(0, 1), (0, 2), (1, 2)]), ("torch", 3, [(0, 1), (0, 2)]),
             ("numpy", 4, [(1, 3), (2, 3)])]
    if rep.tier == "thorough":
        confs += [("jax", 3, [(0, 1), (0, 2)]), ("autograd", 3, [(0, 1), (0, 2)]), ("scipy", 3, [(0, 1), (0, 2)]),
                  ("numpy", 4, [(0, 3), (1, 2), (1, 3), (2, 3)])]
    def context0(rep, item):
        backend, L, ranges = item
        for rng in ranges:
            a, b = rng
            con = f"get_S_matrix(({a}, {b})), {L} layers, {backend}"
            c = stack(backend, L)
            Sn = get_S(c, (a, b))
            if b - a == 1:
                S = identity_S(c)
            else:
                S = get_S(stack(backend, L), (a, b - 1))
            n4 = c.n * P(4)
            pr = parts()
            for what, r in step_residuals(c, S, Sn, b - 1, b):
                rep.zero(r, "interface-step", con, pr, what=what)
            rep.used(c.it, c.tag)
        # the whole stack is the range from the first to the last layer
        if L == 3:
            c = stack(backend, L)
            S = blocks(c, c.meth(c.sim, "get_S_matrix"))
            R = get_S(stack(backend, L), (0, L - 1))
            for i in range(2):
                for j in range(2):
                    rep.equal(S[i][j], R[i][j], "whole-stack", f"get_S_matrix(), block {i+1}{j+1}, {backend}", parts())
    rep.fan(context0, confs)


def stack(backend, L, thickness=None):
    """stack of uniform, patterned and tensor layers; the modes of the patterned ones are arbitrary"""
    c = SimCtx(backend, True, "original", ("upa" * L)[:L], modes=True, thickness=thickness,
               cut=("kx", "ky", "omega", "a0"))
    c.meth(c.sim, "solve")
    c.need(c.sim, "solve")
    return c


class Histories:
    """one solved simulation whose state can be put back; array values are hash-consed
    names, so equal answers have equal names"""

    def __init__(self, backend, L):
        c = self.c = stack(backend, L)
        c.it.start_naming()
        self.snap = c.it.st.fork()
        self.scratch = {}
        self.cache = {}

    def fresh(self):
        self.c.it.st = self.snap.fork()

    def ask(self, r):
        c = self.c
        if r == "RT":
            v = c.meth(c.sim, "diffraction_efficiencies", orders=True)
            c.need(v, "diffraction_efficiencies")
            return tuple(vkey(x) for x in c.it.items_of(v))
        if isinstance(r, tuple) and r[0] == "amp":
            v = c.meth(c.sim, "get_field_fourier", r[1], sym("z", real=True))
            c.need(v, "get_field_fourier")
            return vkey(v)
        v = c.meth(c.sim, "get_S_matrix", indices=r)
        c.need(v, f"get_S_matrix({r})")
        return tuple(tuple(vkey(x) for x in row) for row in blocks(c, v))

    def scr(self, r):
        if r not in self.scratch:
            self.fresh()
            self.scratch[r] = self.ask(r)
        return self.scratch[r]


def c02(rep):
    import os
    import random
    rnd = random.Random(int(os.environ.get("VERIF_SEED", "1")))
    # every ordered pair (and, thorough, triple) of requests on a 4-layer stack
    confs = [("numpy", 4, 2), ("torch", 3, 3)]
    if rep.tier == "thorough":
        confs = [("numpy", 4, 3), ("torch", 4, 2), ("jax", 4, 2), ("autograd", 4, 2), ("scipy", 4, 2)]
    def context0(rep, item):
        backend, L, depth = item
        h = Histories(backend, L)
        reqs = [(a, b) for a in range(L) for b in range(a + 1, L)] + [None, "RT"] + [("amp", i) for i in range(L)]
        for r in reqs:
            h.scr(r)

        def go(hist, st, d):
            for r in reqs:
                h.c.it.st = st.fork()
                v = h.ask(r)
                rep.check(v == h.scratch[r], "history", f"{backend}, {L} layers: {'; '.join(map(str, hist + [r]))}",
                          f"the answer to {r} differs from the one computed from scratch")
                if d > 1:
                    go(hist + [r], h.c.it.st, d - 1)
        go([], h.snap, depth)
        rep.used(h.c.it, h.c.tag)
    rep.fan(context0, confs)
    # many layers: layer numbers of one and two digits; all ranges in several orders
    L = 13
    h = Histories("numpy", L)
    reqs = [(a, b) for a in range(L) for b in range(a + 1, L)] + [None, "RT"]
    for r in reqs:
        h.scr(r)
    orders = [("ascending", reqs), ("descending", reqs[::-1])]
    for k in range(2 if rep.tier == "quick" else 12):
        q = reqs[:]
        rnd.shuffle(q)
        orders.append((f"shuffled {k}", q))
    for nm, q in orders:
        h.fresh()
        for r in q:
            v = h.ask(r)
            rep.check(v == h.scratch[r], "long-history", f"{L} layers, {nm} order: {r}",
                      f"the answer to {r} differs from the one computed from scratch")
    rep.used(h.c.it, f"numpy/{L} layers")
