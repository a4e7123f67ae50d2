"""C28: several simulations in one process."""
from .. import algebra as A
from ..algebra import *
from ..values import *
from ..ctx import sym
from .history import World, deep

CUT = ("kx", "ky", "omega", "a0")


def c28(rep):
    confs = [("numpy", "upu", "original"), ("torch", "uap", "original"), ("numpy", "upu", "pol"), ("jax", "uuu", "original")]
    if rep.tier == "thorough":
        confs += [(b, k, f) for b in ("scipy", "autograd", "jax", "torch", "numpy") for k, f in (("upu", "original"), ("uap", "tangent"), ("uppu", "jones"))]

    def one(rep, item):
        backend, kinds, form = item
        w = World(backend, kinds, form)
        it = w.it
        few = [q for q in w.queries() if q[0] in ("get_S_matrix()", "get_S_matrix([0, 1])", "efficiencies(orders)", "get_field_fourier(1)",
                                                  "get_field_fourier(0)", "get_z_stress_tensor_integral(1)", "get_epsilon(1)")]
        lam2 = sym("lam2", pos=True)
        pw2 = w.run("nannos.excitation.PlaneWave", lam2, tuple(sym(x, real=True) for x in ("theta2", "phi2", "psi2")))
        w.need(pw2, "PlaneWave")
        snap = it.st.fork()

        def layers():
            return [w.fresh_layer(nm, w.attr(l, "thickness"), it.getattr(l, "epsilon")) for nm, l in zip(w.names, w.layers)]

        def A_(ls):
            return w.build(ls)

        def B_(ls, same=False, form=None):
            """a simulation with another excitation"""
            pw = w.pw
            try:
                if not same:
                    w.pw = pw2
                    for a in CUT:
                        w.cut_sim2(a)
                return w.build(ls, form)
            finally:
                w.pw = pw
                for a in CUT:
                    w.cut_sim(a)

        def solve(s):
            w.meth(s, "solve")
            w.need(True, "solve")
            return s

        def all_of(s):
            for q in few:
                w.ask(s, q)
            return s

        def answers(prep):
            it.st = snap.fork()
            it.ncalls = 0
            s = prep()
            mid = it.st.fork()
            out = {}
            for q in few:
                it.st = mid.fork()
                v, dead = w.ask(s, q)
                out[q[0]] = "raises" if dead else deep(it, v)
            return out

        refA = answers(lambda: solve(A_(layers())))
        refB = answers(lambda: solve(B_(layers())))
        rep.check(any(refA[k] != refB[k] for k in refA), "distinct", f"the two simulations, {w.tag}", "the analysis does not tell them apart")

        def before(first, second):
            """both on the same layers, the second one created and asked last"""
            def prep():
                ls = layers()
                all_of(first(ls))
                return second(ls)
            return prep

        def idle(after):
            def prep():
                ls = layers()
                b = None if after else B_(ls)
                a = solve(A_(ls))
                if after:
                    b = B_(ls)
                return a
            return prep

        def apart():
            """separate layers on one lattice"""
            a = solve(A_(layers()))
            all_of(solve(B_(layers())))
            return a

        def between(same=False):
            def prep():
                ls = layers()
                a = solve(A_(ls))
                all_of(solve(B_(ls, same)))
                return a
            return prep

        def late(same=False):
            """A is created first, solved after B"""
            ls = layers()
            a = A_(ls)
            all_of(solve(B_(ls)))
            return a

        def cases():
            yield "layers shared: B answers everything, then A is created", before(B_, A_), refA
            yield "layers shared: A answers everything, then B is created", before(A_, B_), refB
            yield "layers shared: A answers everything, then A is created again", before(A_, A_), refA
            yield "layers shared: B created before A, never solved", idle(False), refA
            yield "layers shared: A solved, B created, never solved", idle(True), refA
            yield "layers shared: A created, B solved and asked, A solved on demand", late, refA
            yield "separate layers on one lattice: A solved, B solved and asked", apart, refA
            yield "layers shared: A solved, a second simulation with the same excitation solved and asked", between(True), refA
        for what, prep, ref in cases():
            got = answers(prep)
            for k in ref:
                rep.check(got[k] == ref[k], "undisturbed", f"{what}; {k}, {w.tag}", "the answer is not the one given without the other simulation")
        got = answers(between())
        bad = [k for k in refA if got[k] != refA[k]]
        rep.check(not bad, "interleaved", "layers shared: A solved, B solved with another excitation, then A asked",
                  f"answers of A changed, {w.tag}: {bad}")
        it.st = snap.fork()
        rep.used(it, w.tag)
    rep.fan(one, confs, width=8)


LEVEL = {"C28": "Two simulations are built and asked in every order on shared and on separate layers; answers (hash-consed value numbers) "
                "are compared with those of the simulation on its own."}
