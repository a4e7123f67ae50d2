#!/usr/bin/env python3
"""mut.py CHECK[,CHECK] file old new [count]: run checks on a scratch copy with one textual change"""
import sys, os, shutil, subprocess, tempfile
checks, f, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix="mut")
shutil.copytree("/repo/nannos", d + "/nannos")
p = f"{d}/nannos/{f}"
s = open(p).read()
n = s.count(old)
if n == 0: print("NOT FOUND"); shutil.rmtree(d); sys.exit(3)
k = int(sys.argv[5]) if len(sys.argv) > 5 else 0
if k:
    parts = s.split(old); s = old.join(parts[:k]) + new + old.join(parts[k:])
else:
    s = s.replace(old, new)
open(p, "w").write(s)
compile(s, p, "exec")
for c in checks.split(","):
    r = subprocess.run(["/verif/check", c], env={**os.environ, "NANNOS_REPO": d}, capture_output=True, text=True, timeout=900)
    out = (r.stdout + r.stderr).strip().splitlines()
    print(f"[{c}] rc={r.returncode} (occurrences {n})", *[o[:150] for o in out[-3:]], sep="\n   ")
shutil.rmtree(d)
