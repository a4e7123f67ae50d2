"""Obligations, verdicts, evidence files and the command line of a check."""
import json
import os
import re
import sys
import time
import traceback

from . import algebra as A
from . import decide
from .algebra import T, Poly
from .interp import AnalysisError, Refused
from .values import Opq, Phi, Ref, Tup

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NANNOS_REPO", "/repo")


class Enough(Exception):
    """enough violations have been found"""


class Report:
    limit = 4

    def __init__(self, pid, tier):
        self.known = {k for k, _ in known_findings(pid)}
        self.pid, self.tier = pid, tier
        self.obs = []           # (rule, construct, verdict, detail)
        self.contexts = set()
        self.functions = set()
        self.stats = {}
        self.notes = []

    # ------------------------------------------------------------ recording
    def ok(self, rule, construct, detail=""):
        self.obs.append((rule, construct, "held", detail))

    def bad(self, rule, construct, detail=""):
        self.obs.append((rule, construct, "violated", detail))
        if sum(1 for o in self.obs if o[2] == "violated" and f"{o[0]}|{o[1]}" not in self.known) >= self.limit:
            raise Enough()

    def unknown(self, rule, construct, detail=""):
        self.obs.append((rule, construct, "undecided", detail))

    def check(self, cond, rule, construct, detail=""):
        (self.ok if cond else self.bad)(rule, construct, "" if cond else detail)
        return bool(cond)

    def zero(self, t, rule, construct, parts=None, facts=(), what="", ctx=None):
        """obligation: value number is identically zero"""
        if not isinstance(t, (T, Poly)):
            self.unknown(rule, construct, f"value not modelled: {short(t)}")
            return None
        ok, res = decide.zero(t, parts, facts, stats=self.stats)
        if not ok and ctx is not None and isinstance(t, T):
            # not an identity for arbitrary values of the cut attributes: use their definitions
            t2 = ctx.expand(t)
            if t2.p != t.p:
                ok, res = decide.zero(t2, parts, facts, stats=self.stats)
        if ok:
            self.ok(rule, construct)
            return True
        self.bad(rule, construct, (what + ": " if what else "") + "residual " + short(A.show(res.p), 400))
        return False

    def equal(self, a, b, rule, construct, parts=None, facts=(), what=""):
        if not isinstance(a, T) or not isinstance(b, T):
            if not isinstance(a, (T, Opq, Phi)) and not isinstance(b, (T, Opq, Phi)):
                return self.check(same(a, b), rule, construct, f"{what} {short(a)} is not {short(b)}")
            self.unknown(rule, construct, f"value not modelled: {short(a)} / {short(b)}")
            return None
        if a.rank != b.rank or any(A.P(x) != A.P(y) for x, y in zip(a.shape, b.shape)):
            self.bad(rule, construct, f"{what} shape {a.shape} instead of {b.shape}")
            return False
        return self.zero(T(a.shape, a.p - b.p), rule, construct, parts, facts, what)

    def fan(self, fn, items, width=6):
        """fn(report, item) for every item, each in a process of its own (the analyses of
        different contexts are independent); obligations are merged in order"""
        import pickle
        items = list(items)
        out = [None] * len(items)
        running = {}
        todo = list(range(len(items)))

        def reap(block):
            import select
            r, _, _ = select.select([f for f in running], [], [], 0.5 if block else 0)
            for f in r:
                k, pid, buf = running[f]
                d = os.read(f, 1 << 20)
                if d:
                    buf.append(d)
                    continue
                os.close(f)
                os.waitpid(pid, 0)
                del running[f]
                try:
                    out[k] = pickle.loads(b"".join(buf))
                except Exception:
                    out[k] = ("error", "analysis process died (memory)", [], set(), set(), {})
        while todo or running:
            while todo and len(running) < width:
                k = todo.pop(0)
                rd, wr = os.pipe()
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    os.close(rd)
                    sub = Report(self.pid, self.tier)
                    st = "ok"
                    msg = ""
                    try:
                        fn(sub, items[k])
                    except Enough:
                        pass
                    except A.Budget:
                        st, msg = "error", "time used up"
                    except Refused as e:
                        sub.obs.append(("accepted", short(repr(items[k]), 80), "violated", f"a valid request: {e}"))
                    except BaseException as e:
                        if os.environ.get("SA_DEBUG"):
                            traceback.print_exc()
                        tb = traceback.extract_tb(sys.exc_info()[2])
                        loc = f"{os.path.basename(tb[-1].filename)}:{tb[-1].lineno}" if tb else ""
                        st, msg = "error", f"{type(e).__name__}: {e} ({loc}) [{short(repr(items[k]), 80)}]"
                    data = pickle.dumps((st, msg, sub.obs, sub.contexts, sub.functions, sub.stats))
                    with os.fdopen(wr, "wb") as f:
                        f.write(data)
                    os._exit(0)
                os.close(wr)
                running[rd] = (k, pid, [])
            reap(True)
        failed = []
        for k, r in enumerate(out):
            st, msg, obs, ctxs, fns, stats = r
            self.obs += obs
            self.contexts |= ctxs
            self.functions |= fns
            for q, v in stats.items():
                self.stats[q] = self.stats.get(q, 0) + v
            if st != "ok":
                failed.append(msg)
        for m in failed:
            self.unknown("analysis", "engine", m)
        if sum(1 for o in self.obs if o[2] == "violated" and f"{o[0]}|{o[1]}" not in self.known) >= self.limit:
            raise Enough()

    def used(self, it, ctx=""):
        self.functions |= set(it.analysed)
        if ctx:
            self.contexts.add(ctx)


def same(a, b):
    from .values import vkey
    return vkey(a) == vkey(b)


def short(x, n=200):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + "..."


def known_findings(pid):
    out = []
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=\[(.*?)\] (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def finish(rep, t0, level_text):
    known = known_findings(rep.pid)
    viol, undec, kn = [], [], []
    for rule, con, verdict, detail in rep.obs:
        key = f"{rule}|{con}"
        if verdict == "held":
            continue
        k = next((d for kk, d in known if kk == key), None)
        if k is not None:
            kn.append((key, k))
            continue
        (viol if verdict == "violated" else undec).append((rule, con, detail))
    n = len(rep.obs)
    held = sum(1 for o in rep.obs if o[2] == "held")
    rules = sorted({o[0] for o in rep.obs})
    ev = {
        "property": rep.pid,
        "tier": rep.tier,
        "seconds": round(time.time() - t0, 2),
    }
    cov = {
        "explanation": level_text + f" This run: {n} obligations over {len(rep.contexts)} analysis contexts, "
                       f"{held} discharged, {len(viol)} violated, {len(undec)} undecided, {len(kn)} known findings; "
                       f"{len(rep.functions)} functions of the package evaluated.",
        "obligations": n, "discharged": held, "violated": len(viol), "undecided": len(undec),
        "contexts": sorted(rep.contexts), "functions": sorted(rep.functions), "rules": rules,
        "obligation_list": [f"{o[0]} @ {o[1]}: {o[2]}" for o in sorted(rep.obs, key=lambda o: o[2] == "held")][:400],
    }
    write_evidence(rep, ev, cov, viol, undec, kn, t0)
    for key, d in dict(kn).items():
        print(f"KNOWN-FINDING: property={rep.pid} {d}")
    print(f"{rep.pid}: {n} obligations, {held} held, {len(viol)} violated, {len(undec)} undecided "
          f"({round(time.time() - t0, 1)} s)")
    if viol:
        d = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{rep.pid}.txt")
        with open(path, "w") as f:
            for r, c, det in viol:
                f.write(f"rule: {r}\nconstruct: {c}\n{det}\n\n")
        for r, c, det in viol[:20]:
            print(f"  violated: [{r}] {c}: {short(det, 300)}")
        print(f"VIOLATION property={rep.pid} replay={path}")
        return 1
    if undec:
        for r, c, det in undec[:20]:
            print(f"  UNDECIDED: [{r}] {c}: {short(det, 300)}")
        # what was explored held; what was not is named above and in the evidence.  An analysis that
        # decides less than half of its obligations is no answer.
        return 0 if held >= len(undec) and held else 2
    if not n:
        print("no obligation was generated: analysis broken")
        return 2
    return 0


def write_evidence(rep, ev, cov, viol, undec, kn, t0):
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    from .evidence import build
    with open(os.path.join(d, rep.pid + ".json"), "w") as f:
        json.dump(build(rep, ev, cov, viol, undec, kn, t0), f, indent=1)


def main(pid, tier, fn, level_text):
    t0 = time.time()
    rep = Report(pid, tier)
    A.DEADLINE[0] = time.monotonic() + (800 if tier == "quick" else 3000)
    try:
        fn(rep)
    except Enough:
        rep.notes.append("stopped after the first violations")
    except Refused as e:
        rep.obs.append(("accepted", "request", "violated", f"a valid request: {e}"))
    except A.Budget:
        if not any(o[2] == "violated" for o in rep.obs):
            rep.unknown("analysis", "engine", "time used up")
    except (AnalysisError, MemoryError, Exception) as e:
        if os.environ.get("SA_DEBUG"):
            raise
        tb = traceback.extract_tb(sys.exc_info()[2])
        loc = f"{os.path.basename(tb[-1].filename)}:{tb[-1].lineno}" if tb else ""
        rep.unknown("analysis", "engine", f"{type(e).__name__}: {e} ({loc})")
    return finish(rep, t0, level_text)
