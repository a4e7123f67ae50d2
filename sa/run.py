"""entry point:  python -m sa.run <property id> [tier]"""
import os
import sys
import importlib

sys.setrecursionlimit(30000)

MODULES = ["fields", "smatrix", "power", "basis", "modes", "history", "misc", "inputs", "sets", "expo", "switch", "dtypes", "grads", "backends", "masks", "dims", "several"]


def registry():
    reg = {}
    for m in MODULES:
        mod = importlib.import_module("sa.checks." + m)
        for k in dir(mod):
            if len(k) == 3 and k[0] == "c" and k[1:].isdigit():
                reg["C" + k[1:]] = (getattr(mod, k), getattr(mod, "LEVEL", {}).get("C" + k[1:], ""))
    return reg


if __name__ == "__main__":
    import threading
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    threading.stack_size(512 * 1024 * 1024)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    from sa import harness
    fn, level = registry()[pid]
    rc = [2]

    def go():
        rc[0] = harness.main(pid, tier, fn, level)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
