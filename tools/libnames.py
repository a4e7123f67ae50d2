"""writes sa/libnames.json: the public names of the array libraries the package can select (run with the venv's python)"""
import json, warnings
warnings.simplefilter("ignore")
import numpy, torch, autograd.numpy, jax, jax.numpy
import autograd.numpy.linalg, autograd.numpy.fft
out = {}
for k, m in (("numpy", numpy), ("torch", torch), ("autograd", autograd.numpy), ("jax", jax.numpy)):
    s = set(x for x in dir(m) if not x.startswith("_"))
    for sub in ("linalg", "fft", "random"):
        if hasattr(m, sub):
            s |= {f"{sub}.{x}" for x in dir(getattr(m, sub)) if not x.startswith("_")}
    if k == "numpy":
        # numpy looks some names up on request
        s |= {x for x in ("trapz", "in1d", "row_stack") if hasattr(m, x)}
    out[k] = sorted(s)
json.dump(out, open("/verif/sa/libnames.json", "w"), indent=0)
print({k: len(v) for k, v in out.items()})
