"""the matrix of a material function: coefficient of that function at (row order - column order)"""
from .. import algebra as A
from ..algebra import *


def dft(n, k, x):
    return A.fac(("app", "dft", (P(n),), (k, x)))


def pidx(name, r, k):
    return A.fac(("atom", name, (A.nidx(("e", P(r))), k)))


def toeplitz(u, n, N1, N2):
    """u of shape (N1, N2) -> (n, n)"""
    i, j, x, y = (("f", k) for k in range(4))
    g = lambda r, k: pidx("G", r, k)
    d0, d1 = g(0, i) - g(0, j), g(1, i) - g(1, j)
    p = A.psub_free(u.p, {("f", 0): x, ("f", 1): y})
    e0, e1 = A.nidx(("e", A.shift(d0, 0, 1))), A.nidx(("e", A.shift(d1, 0, 1)))
    k2 = dft(N2, e1, y)
    q = pmul(pmul(p, pmul(dft(N1, e0, x), k2)), pmul(ppow(P(N1), -1), ppow(P(N2), -1)))
    t = T((n, n, P(N1), P(N2)), q)
    return tsum(tsum(t, 3), 2)
