"""Source model: parses every module of /repo's package on each run."""
import ast
import hashlib
import os


class Program:
    def __init__(self, root="/repo", package="nannos"):
        self.root, self.package = root, package
        self.modules = {}       # dotted name -> (ast, path, is_pkg, source)
        base = os.path.join(root, package)
        for d, _, files in sorted(os.walk(base)):
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, root)[:-3].replace(os.sep, ".")
                is_pkg = rel.endswith(".__init__")
                name = rel[:-len(".__init__")] if is_pkg else rel
                src = open(path, encoding="utf-8").read()
                self.modules[name] = (ast.parse(src, path), path, is_pkg, src)
        self.digest = hashlib.sha256("".join(
            m + s[3] for m, s in sorted(self.modules.items())).encode()).hexdigest()[:16]

    def tree(self, name):
        return self.modules[name][0]

    def functions(self):
        """(qualified name, node) of every function of the package"""
        out = []

        def walk(body, q):
            for n in body:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    out.append((q + "." + n.name, n))
                    walk(n.body, q + "." + n.name)
                elif isinstance(n, ast.ClassDef):
                    walk(n.body, q + "." + n.name)
                elif isinstance(n, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                    for b in ("body", "orelse", "finalbody"):
                        walk(getattr(n, b, []) or [], q)
                    for h in getattr(n, "handlers", []) or []:
                        walk(h.body, q)
        for m, (t, p, k, s) in self.modules.items():
            walk(t.body, m)
        return out

    def relpath(self, modname):
        return os.path.relpath(self.modules[modname][1], self.root)
