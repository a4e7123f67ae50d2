#!/usr/bin/env python3
"""mkseed.py [ids]: write /verif/seeded/<id> from tools/seedsrc/*.py (each defines SEEDS: list of dicts)"""
import sys, os, glob, json, subprocess, shutil
only = set(sys.argv[1:])
for f in sorted(glob.glob("/verif/tools/seedsrc/*.py")):
    ns = {}
    exec(open(f).read(), ns)
    for s in ns["SEEDS"]:
        if only and s["id"] not in only:
            continue
        d = "/verif/seeded/" + s["id"]
        os.makedirs(d, exist_ok=True)
        w = "/tmp/mkseed"
        shutil.rmtree(w, ignore_errors=True)
        shutil.copytree("/repo", w, ignore=shutil.ignore_patterns("__pycache__", "doc", "tutorials", "examples"))
        for file, old, new in s["edits"]:
            p = f"{w}/nannos/{file}"
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], file, old, t.count(old))
            open(p, "w").write(t.replace(old, new))
        r = subprocess.run(["git", "diff", "--", "nannos"], cwd=w, capture_output=True, text=True)
        assert r.stdout, s["id"]
        open(d + "/patch.diff", "w").write(r.stdout)
        shutil.rmtree(w)
        open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        env = "".join(f"export {k}={v}\n" for k, v in s.get("env", {}).items())
        open(d + "/demo.sh", "w").write(f"""#!/bin/bash
# exit 0: the property holds in this run; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
export MPLBACKEND=agg PYVISTA_OFF_SCREEN=true JAX_PLATFORMS=cpu OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
{env}exec /opt/venv/bin/python -W ignore "$here/demo.py"
""")
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print("written", s["id"])
