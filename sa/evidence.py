import os
import time


def build(rep, ev, cov, viol, undec, kn, t0):
    return {
        "property": rep.pid,
        "tier": rep.tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": cov,
        "assumptions": ASSUMPTIONS + rep.notes,
        "wall_s": round(time.time() - t0, 3),
        "violations": len(viol),
    }


ASSUMPTIONS = [
    "exact arithmetic: obligations are identities over the complex field, rounding is not modelled",
    "library calls (numpy, torch, jax, autograd, scipy) have their documented meaning (transfer functions in sa/models.py)",
    "matrices inverted or diagonalised by the code are invertible/diagonalisable; square roots are taken on the principal branch",
]
