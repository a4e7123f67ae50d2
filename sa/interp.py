"""Interprocedural construction of the gated value graph.

Forward dataflow over the syntax tree of the current source: every expression is mapped
to an abstract value (a value number), joins are gated by the value number of the branch
condition (gated SSA), loops are summarised by closed forms (sum, map, scatter, first hit)
or kept as recurrences, calls to functions of the package are expanded in their calling
context with conditional constant propagation.  Nothing of the analysed package is
executed and no path is enumerated: after a join there is one state again.
"""
import ast
from fractions import Fraction as Fr

from . import algebra as A
from .algebra import *
from .algebra import _norm_bound
from .values import *


class Dead(Exception):
    """the current program point is unreachable"""


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class AnalysisError(Exception):
    """the analysis cannot give an answer"""


class Refused(AnalysisError):
    """a valid request raises on every path"""


class State:
    __slots__ = ("heap", "pc")

    def __init__(self, heap, pc=()):
        self.heap, self.pc = heap, pc

    def fork(self, c=None):
        return State(dict(self.heap), self.pc + ((c,) if c is not None else ()))


class Event:
    def __init__(self, kind, it, node=None, **data):
        self.kind = kind
        self.node = node
        self.func = it.callstack[-1][0] if it.callstack else "<module>"
        self.stack = tuple(q for q, _ in it.callstack)
        self.line = getattr(node, "lineno", 0)
        self.pc = it.st.pc if it.st else ()
        self.data = data
        self.loops = tuple(l.id for l in it.loopstack)

    def __getattr__(self, n):
        try:
            return self.__dict__["data"][n]
        except KeyError:
            raise AttributeError(n)

    def __repr__(self):
        return f"<{self.kind} {self.func}:{self.line} {self.data}>"


class LoopRec:
    def __init__(self, id, node, func, n, K):
        self.id, self.node, self.func, self.n, self.K = id, node, func, n, K
        self.init, self.head, self.body, self.after = {}, {}, {}, {}
        self.seq = None
        self.kind = {}
        self.breaks = []


class CallCtx:
    def __init__(self, qual, node):
        self.qual, self.node = qual, node
        self.returns = []


class LoopCtx:
    def __init__(self):
        self.breaks, self.continues = [], []


def relcond(pc, base_len):
    c = ONE
    for p in pc[base_len:]:
        c = c * p
    return c


class Interp:
    MAXDEPTH = 60

    def __init__(self, program, backend="numpy", stubs=None, flags=None):
        self.program = program
        self.backend = backend
        self.stubs = dict(stubs or {})
        self.st = State({})
        self.nid = 0
        self.events = []
        self.raised = []
        self.tries = [self.raised]
        self.callstack = []
        self.ctxs = []
        self.loopctx = []
        self.loopstack = []
        self.loops = []
        self.nK = 0
        self.cuts = {}
        self.defs = {}
        self.modrefs, self.modorder = {}, []
        self.live_modules = False
        self.symattrs = []      # overlays of SymObj attributes live in heap['sym']
        self.analysed = set()
        self.ncalls = 0
        self.opaque_log = []
        self.inputs = {}
        self.hooks = {}
        self.ext_stubs = {}
        self.environ = {}
        self.recursion_limit = {}
        self.rec_default = 6
        self.missing = set()
        self.st.heap["sym"] = HObj("list", [])
        self.flags = dict(flags or {})
        self.rnames, self.rdefs = {}, {}
        if program is not None:
            self.boot()

    # ------------------------------------------------------------------ modules
    BACKEND_FLAG = {"scipy": "_SCIPY", "autograd": "_AUTOGRAD", "jax": "_JAX", "torch": "_TORCH"}

    def boot(self):
        pre = {"_FORCE_BACKEND": num(1), "_FORCE_GPU": num(1), "DEVICE": "cpu"}
        if self.backend in self.BACKEND_FLAG:
            pre[self.BACKEND_FLAG[self.backend]] = True
        pre.update(self.flags)
        self.load("nannos", pre)
        self.events_boot = self.events
        self.events = []

    def alloc(self, kind, d, cls=None, name="", origin=None):
        self.nid += 1
        if self.lets is not None:
            for x in d.values() if isinstance(d, dict) else d if isinstance(d, list) else ():
                self.name_value(x)
        self.st.heap[self.nid] = HObj(kind, d, cls, name, origin)
        return Ref(self.nid)

    def h(self, ref):
        return self.st.heap[ref.id]

    lets = None
    named = frozenset()
    letdefs = {}

    def hw(self, ref):
        """heap object for writing (copied)"""
        o = self.st.heap[ref.id].copy()
        self.st.heap[ref.id] = o
        return o

    def load(self, name, pre=None):
        if name in self.modrefs:
            return self.modrefs[name]
        if name not in self.program.modules:
            raise AnalysisError(f"module {name} not in package")
        parent = name.rpartition(".")[0]
        if parent and parent not in self.modrefs:
            self.load(parent)
            if name in self.modrefs:
                return self.modrefs[name]
        d = {"__name__": name}
        if pre:
            d.update(pre)
        r = self.alloc("module", d, name=name)
        self.modrefs[name] = r
        self.exec_module(name)
        if parent:
            self.hw(self.modrefs[parent]).d.setdefault(name.rpartition(".")[2], r)
        return r

    def exec_module(self, name):
        """(re-)execute the body of a module in its own dictionary; sys.modules lists the modules in
        the order in which their execution ended"""
        tree, path, is_pkg, src = self.program.modules[name]
        r = self.modrefs[name]
        fr = Frame(r, r, None, name)
        self.callstack.append((name, tree))
        sp, sc, sl = self.ctxs, self.loopctx, self.loopstack
        self.ctxs, self.loopctx, self.loopstack = [CallCtx(name, tree)], [], []
        try:
            self.block(tree.body, fr)
        except Dead:
            pass
        self.ctxs, self.loopctx, self.loopstack = sp, sc, sl
        self.callstack.pop()
        if name in self.modorder:
            self.modorder.remove(name)
        self.modorder.append(name)

    def is_pkg_module(self, name):
        return name in self.program.modules

    def resolve_from(self, fr, node):
        """absolute module name of an ImportFrom"""
        mod = self.h(fr.mod).name
        if node.level:
            is_pkg = self.program.modules[mod][2]
            parts = mod.split(".")
            up = node.level - (1 if is_pkg else 0)
            if up:
                parts = parts[:-up]
            return ".".join(parts + ([node.module] if node.module else []))
        return node.module

    # --------------------------------------------------------------- name lookup
    def lookup(self, fr, name, node=None):
        f = fr
        while f is not None:
            d = self.h(f.ref).d
            if name in d:
                v = d[name]
                if isinstance(v, Phi):
                    v = self.simplify(v)
                if v is not UNDEF:
                    return v
            f = f.parent
        d = self.h(fr.mod).d
        if name in d:
            v = d[name]
            if isinstance(v, Phi):
                v = self.simplify(v)
            return v
        if name in PYBUILTINS:
            return Ext("builtins." + name)
        raise PyRaise(ExcV("NameError" if f is None else "UnboundLocalError", (name,), node))

    def start_naming(self):
        self.lets, self.letdefs = {}, {}
        for o in list(self.st.heap.values()):
            for x in o.d.values() if isinstance(o.d, dict) else o.d if isinstance(o.d, list) else ():
                for y in x.items if isinstance(x, Tup) else (x,):
                    self.name_value(y)

    def name_value(self, v):
        """hash-consed name of an array value (value numbering): equal definitions share
        one name, so equal names imply equal values"""
        if not isinstance(v, T) or v.rank == 0 or v.kind != "arr" or self.loopstack:
            return v
        key = (tuple(P(d).key for d in v.shape), v.p.key)
        nm = self.lets.get(key)
        if nm is None:
            if v.dt in ("i", "int", "b", "bool") and not A.atoms_of(v):
                return v
            if len(v.p.t) == 1:
                (bd, fs), c = v.p.t[0]
                if not bd and len(fs) <= 1:
                    return v
            nm = f"v{len(self.lets)}"
            self.lets[key] = nm
            self.letdefs[nm] = T(v.shape, v.p)
            if len(v.p.t) <= 20 and A.all_real(v.p):
                A.declare(nm, real=True, integer=A._all_int(v.p))
        # the object keeps its identity (aliases and views)
        v.p = tens(nm, *v.shape).p
        v._k = None
        return v

    def setvar(self, fr, name, v):
        if self.lets is not None:
            v = self.name_value(v)
        if name in fr.globals:
            self.event("global_write", None, mod=self.h(fr.mod).name, name=name, value=v)
            self.hw(fr.mod).d[name] = v
            return
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if name in self.h(f.ref).d:
                    self.hw(f.ref).d[name] = v
                    return
                f = f.parent
        self.hw(fr.ref).d[name] = v

    sever_hook = None       # called where the derivative of a value is lost
    ext_hook = None         # called around every call into a library

    def event(self, kind, node, **data):
        e = Event(kind, self, node, **data)
        self.events.append(e)
        return e

    def opaque(self, key, why="", node=None):
        self.opaque_log.append((why or key[:80], self.callstack[-1][0] if self.callstack else "", getattr(node, "lineno", 0)))
        return Opq(key, why)

    # ----------------------------------------------------------------- branching
    def assume(self, p):
        """simplify a boolean under the path condition"""
        if p.const() is not None:
            return p
        mp0, mp1 = set(), set()
        for c in self.st.pc:
            if len(c.t) == 1 and c.t[0][1] == ONE_G and not c.t[0][0][0]:
                for f, e in c.t[0][0][1]:
                    mp1.add(f)
            elif len(c.t) == 2:
                n = ONE - c
                if len(n.t) == 1 and n.t[0][1] == ONE_G and not n.t[0][0][0] and len(n.t[0][0][1]) == 1:
                    mp0.add(n.t[0][0][1][0][0])
        if mp0 or mp1:
            def fn(f):
                if f in mp1:
                    return ONE
                if f in mp0:
                    return ZERO
                return None
            p2 = rewrite(p, fn)
            if p2.const() is not None:
                return p2
            p = p2
        # a path condition implied / excluded as a whole
        for c in self.st.pc:
            if len(c.t) > 1 or True:
                q = c * p
                if q.is_zero():
                    return ZERO
                if q == c:
                    return ONE
        return p

    def simplify(self, v):
        if isinstance(v, Phi):
            c = self.assume(v.c)
            k = c.const()
            if k is not None:
                return self.simplify(v.a if k else v.b)
        return v

    def branch(self, c, f_then, f_else):
        """run both arms under the gate c; returns the gated value"""
        c = self.assume(c)
        k = c.const()
        if k is not None:
            return f_then() if k else f_else()
        s0 = self.st
        base = len(s0.pc)
        self.st = s0.fork(c)
        outs = []
        try:
            v1 = f_then()
            outs.append((self.st, v1))
        except Dead:
            pass
        except PyRaise as e:
            self.register_raise(e.exc)
        self.st = s0.fork(ONE - c)
        try:
            v2 = f_else()
            outs.append((self.st, v2))
        except Dead:
            pass
        except PyRaise as e:
            self.register_raise(e.exc)
        return self.join(outs, base)

    def register_raise(self, exc):
        self.tries[-1].append((self.st.pc, exc, self.st, tuple(q for q, _ in self.callstack)))

    def mayraise(self, c, exc):
        """raise under condition c; continue under 1-c"""
        c = self.assume(c)
        k = c.const()
        if k is not None:
            if k:
                raise PyRaise(exc)
            return
        s = self.st.fork(c)
        self.tries[-1].append((s.pc, exc, s, tuple(q for q, _ in self.callstack)))
        self.st = self.st.fork(ONE - c)

    def join(self, outs, base):
        if not outs:
            raise Dead()
        st, v = outs[-1]
        acc_c = relcond(st.pc, base)
        for s2, v2 in reversed(outs[:-1]):
            c = relcond(s2.pc, base)
            st, v = self.join2(c, s2, v2, st, v, s2.pc[:base]), mkphi(c, v2, v)
            acc_c = acc_c + c
        pc = outs[0][0].pc[:base]
        k = acc_c.const()
        if not (k is not None and k == ONE_G):
            # literals common to all
            if len(outs) == 1:
                pc = outs[0][0].pc
            else:
                pc = pc + (acc_c,)
        st = State(st.heap, pc)
        self.st = st
        return v

    def join2(self, c, s1, v1, s2, v2, pc):
        if s1.heap is s2.heap:
            return State(s1.heap, pc)
        heap = {}
        for k in s1.heap.keys() | s2.heap.keys():
            a, b = s1.heap.get(k), s2.heap.get(k)
            if a is b:
                heap[k] = a
            elif a is None:
                heap[k] = b
            elif b is None:
                heap[k] = a
            else:
                heap[k] = self.join_obj(c, a, b)
        return State(heap, pc)

    def join_obj(self, c, a, b):
        if isinstance(a.d, dict) and isinstance(b.d, dict):
            d = {}
            for k in list(a.d) + [k for k in b.d if k not in a.d]:
                x, y = a.d.get(k, UNDEF), b.d.get(k, UNDEF)
                d[k] = x if x is y else mkphi(c, x, y)
            return HObj(a.kind, d, a.cls, a.name, a.origin)
        if isinstance(a.d, list) and isinstance(b.d, list):
            if a.name == "symoverlay" or a.origin == "sym":
                pass
            if len(a.d) == len(b.d):
                return HObj(a.kind, [x if x is y else mkphi(c, x, y) for x, y in zip(a.d, b.d)], a.cls, a.name, a.origin)
            n = min(len(a.d), len(b.d))
            head = [x if x is y else mkphi(c, x, y) for x, y in zip(a.d[:n], b.d[:n])]
            tail = [Guarded(c, x) for x in a.d[n:]] + [Guarded(ONE - c, x) for x in b.d[n:]]
            return HObj(a.kind, head + tail, a.cls, a.name, a.origin)
        return HObj(a.kind, mkphi(c, a.d, b.d), a.cls, a.name, a.origin)

    # --------------------------------------------------------------------- truth
    def truth(self, v, node=None):
        """0/1 Poly"""
        v = self.simplify(v)
        if v is None:
            return ZERO
        if isinstance(v, bool):
            return ONE if v else ZERO
        if isinstance(v, str):
            return ONE if v else ZERO
        if isinstance(v, T):
            if v.rank == 0:
                if v.kind == "bool" or v.dt == "b":
                    return v.p
                return ONE - cmpp("eq", v.p)
            n1 = v
            if all(d.as_int() == 1 for d in v.shape):
                return self.truth(tindex(v, [0] * v.rank))
            return fac(("bool", ("arr", v)))
        if isinstance(v, Tup):
            return ONE if v.items else ZERO
        if isinstance(v, Ref):
            o = self.h(v)
            if o.kind in ("list", "dict", "set"):
                if isinstance(o.d, (list, dict)):
                    if o.kind == "list" and any(isinstance(x, Guarded) for x in o.d):
                        c = ONE
                        for x in o.d:
                            if not isinstance(x, Guarded):
                                return ONE
                            c = c * (ONE - x.c)
                        return ONE - c
                    return ONE if o.d else ZERO
                if isinstance(o.d, SymSeq):
                    return self.truth(T((), o.d.n, kind="int"))
                return fac(("bool", ("nonempty", vkey(o.d))))
            return ONE
        if isinstance(v, Phi):
            return v.c * self.truth(v.a) + (ONE - v.c) * self.truth(v.b)
        if isinstance(v, SymSeq):
            return ONE - cmpp("eq", v.n)
        if isinstance(v, RangeV):
            return ONE - cmpp("eq", v.n)
        if isinstance(v, (FuncV, Bound, ClassV, SymObj)):
            return ONE
        if isinstance(v, Ext):
            return ONE
        if isinstance(v, SStr):
            return ONE
        if isinstance(v, (Opq, SymDict, IterV)):
            return fac(("bool", ("truth", vkey(v))))
        if v is UNDEF:
            raise PyRaise(ExcV("UnboundLocalError"))
        return fac(("bool", ("truth", vkey(v))))

    # ----------------------------------------------------------------- statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise AnalysisError(f"statement {type(s).__name__} at {fr.qual}:{s.lineno}")
        try:
            m(s, fr)
        except PyRaise as e:
            if e.exc.node is None:
                e.exc.node = s
            self.register_raise(e.exc)
            raise Dead()

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Global(self, s, fr):
        fr.globals |= set(s.names)

    def s_Nonlocal(self, s, fr):
        fr.nonlocals |= set(s.names)

    def s_Import(self, s, fr):
        for a in s.names:
            top = a.name.split(".")[0]
            if self.is_pkg_module(a.name):
                v = self.load(a.name)
                if not a.asname:
                    v = self.modrefs[top]
                    if top == "nannos":
                        pass
            else:
                if top in self.missing:
                    raise PyRaise(ExcV("ModuleNotFoundError", (top,), s))
                v = Ext(a.name if a.asname else top)
            self.event("import", s, name=a.name)
            self.setvar(fr, a.asname or top, v)

    def s_ImportFrom(self, s, fr):
        name = self.resolve_from(fr, s)
        if not self.is_pkg_module(name):
            if name.split(".")[0] in self.missing:
                raise PyRaise(ExcV("ModuleNotFoundError", (name,), s))
            for a in s.names:
                v = Ext(name + "." + a.name)
                self.setvar(fr, a.asname or a.name, self.norm_ext(v))
            return
        for a in s.names:
            if a.name == "*":
                r = self.load(name)
                d = self.h(r).d
                al = d.get("__all__")
                if al is not None:
                    names = [x for x in self.items_of(al)]
                else:
                    names = [k for k in d if not k.startswith("_")]
                for k in names:
                    if k in d:
                        self.setvar(fr, k, d[k])
                continue
            sub = name + "." + a.name
            r = self.load(name)
            d = self.h(r).d
            if a.name in d:
                v = d[a.name]
            elif self.is_pkg_module(sub):
                v = self.load(sub)
            else:
                raise PyRaise(ExcV("ImportError", (sub,), s))
            self.setvar(fr, a.asname or a.name, v)

    def norm_ext(self, v):
        head, _, last = v.path.rpartition(".")
        return self.models.ext_attr(self, Ext(head), last, None) if head and last in (
            "pi", "inf", "nan", "e", "newaxis") else v

    def s_FunctionDef(self, s, fr):
        v = self.make_func(s, fr)
        for d in reversed(s.decorator_list):
            dec = self.ev(d, fr)
            v = self.call(dec, [v], {}, d)
        self.setvar(fr, s.name, v)

    def make_func(self, s, fr):
        defaults = [self.ev(d, fr) for d in s.args.defaults]
        kwd = {a.arg: (self.ev(d, fr) if d is not None else UNDEF)
               for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults)}
        q = fr.qual + "." + getattr(s, "name", "<lambda>")
        closure = fr if not fr.is_module else None
        if fr.is_class:
            closure = fr.parent
        return FuncV(s, fr.mod, closure, defaults, kwd, q, cls=fr.cls)

    def s_ClassDef(self, s, fr):
        bases = [self.ev(b, fr) for b in s.bases]
        q = fr.qual + "." + s.name
        ref = self.alloc("frame", {})
        cf = Frame(ref, fr.mod, fr if not fr.is_module else None, q)
        cf.is_class = True
        self.block(s.body, cf)
        cls = ClassV(s.name, self.h(fr.mod).name, bases, dict(self.h(ref).d), q)
        for k, f in cls.attrs.items():
            for g in (f, getattr(f, "fget", None), getattr(f, "f", None)):
                if isinstance(g, FuncV) and g.qual.startswith(q + "."):
                    g.cls = cls
        v = cls
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d, fr), [v], {}, d)
        self.setvar(fr, s.name, v)

    def s_Return(self, s, fr):
        v = self.ev(s.value, fr) if s.value is not None else None
        self.ctxs[-1].returns.append((self.st, v))
        raise Dead()

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.setvar(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            items = self.unpack(v, len(t.elts), t, star)
            for e, x in zip(t.elts, items):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, fr)
            self.setitem(base, self.ev_index(t.slice, fr), v, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise AnalysisError(f"assignment target {type(t).__name__}")

    def unpack(self, v, n, node, star=()):
        v = self.simplify(v)
        if isinstance(v, Phi):
            a, b = self.unpack(v.a, n, node), self.unpack(v.b, n, node)
            return [mkphi(v.c, x, y) for x, y in zip(a, b)]
        if isinstance(v, Opq):
            return [Opq(f"{v.key}#{i}", v.why) for i in range(n)]
        kind, items = self.iterate(v, node)
        if kind == "sym":
            dim = items[0]
            # the length is symbolic: unpacking n elements
            return [items[1](P(i)) for i in range(n)]
        if star:
            k = star[0]
            m = len(items) - (n - 1)
            return items[:k] + [self.new_list(items[k:k + m])] + items[k + m:]
        if len(items) != n:
            raise PyRaise(ExcV("ValueError", ("unpack",), node))
        return items

    def s_AugAssign(self, s, fr):
        t = s.target
        rhs = self.ev(s.value, fr)
        if isinstance(t, ast.Name):
            cur = self.lookup(fr, t.id, s)
            if isinstance(cur, Ref) and self.h(cur).kind == "list" and isinstance(s.op, ast.Add):
                self.list_extend(cur, rhs, s)
                return
            new = self.binop(s.op, cur, rhs, s)
            if isinstance(cur, T) and cur.rank > 0 and isinstance(new, T) and self.inplace_arrays():
                self.inplace(cur, new, s)
                if self.lookup(fr, t.id, s) is not new:
                    self.setvar(fr, t.id, new)
                return
            self.setvar(fr, t.id, new)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr, t)
            if isinstance(cur, Ref) and self.h(cur).kind == "list" and isinstance(s.op, ast.Add):
                self.list_extend(cur, rhs, s)
                self.setattr(o, t.attr, cur, t)
                return
            new = self.binop(s.op, cur, rhs, s)
            if isinstance(cur, T) and cur.rank > 0 and self.inplace_arrays():
                self.event("array_write", s, target=cur, storage=self.storage(cur), value=new)
            self.setattr(o, t.attr, new, t)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, fr)
            idx = self.ev_index(t.slice, fr)
            cur = self.getitem(base, idx, t)
            self.setitem(base, idx, self.binop(s.op, cur, rhs, s), t)
        else:
            raise AnalysisError("augmented assignment target")

    def inplace_arrays(self):
        return self.backend != "jax"

    def storage(self, t):
        s = t.st
        n = 0
        while isinstance(s, T) and n < 50:
            if s.st is None:
                return s
            s = s.st
            n += 1
        return s if s is not None else t

    def inplace(self, old, new, node):
        """array `old` now holds `new`: every alias (same instance) is updated"""
        self.event("array_write", node, target=old, storage=self.storage(old), value=new)
        if old.st is not None:
            new.st = old.st
        for k, o in list(self.st.heap.items()):
            if isinstance(o.d, dict):
                hit = [n for n, x in o.d.items() if x is old or (isinstance(x, Tup) and any(y is old for y in x.items))]
                if hit:
                    o2 = o.copy()
                    for n in hit:
                        x = o2.d[n]
                        o2.d[n] = new if x is old else Tup([new if y is old else y for y in x.items])
                    self.st.heap[k] = o2
            elif isinstance(o.d, list):
                if any(x is old for x in o.d):
                    o2 = o.copy()
                    o2.d = [new if x is old else x for x in o2.d]
                    self.st.heap[k] = o2

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                o = self.hw(fr.ref if t.id not in fr.globals else fr.mod)
                if t.id not in o.d:
                    raise PyRaise(ExcV("NameError", (t.id,), s))
                del o.d[t.id]
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value, fr)
                idx = self.ev_index(t.slice, fr)
                self.delitem(base, idx, t)
            elif isinstance(t, ast.Attribute):
                self.delattr(self.ev(t.value, fr), t.attr, t)

    def s_If(self, s, fr):
        c = self.truth(self.ev(s.test, fr))

        def th():
            self.block(s.body, fr)

        def el():
            self.block(s.orelse, fr)
        self.branch(c, th, el)

    def s_Assert(self, s, fr):
        c = self.truth(self.ev(s.test, fr))
        self.mayraise(ONE - c, ExcV("AssertionError", (), s))

    def s_Raise(self, s, fr):
        if s.exc is None:
            raise PyRaise(self.current_exc or ExcV("Exception", (), s))
        e = self.ev(s.exc, fr)
        raise PyRaise(self.as_exc(e, s))

    current_exc = None

    def as_exc(self, e, node):
        if isinstance(e, ExcV):
            e.node = e.node or node
            return e
        if isinstance(e, ClassV):
            x = ExcV(e.name, (), node)
            x.cls = e
            return x
        if isinstance(e, Ext):
            return ExcV(e.path.split(".")[-1], (), node)
        if isinstance(e, Ref) and self.h(e).kind == "obj":
            x = ExcV(self.h(e).cls.name, (), node)
            x.cls = self.h(e).cls
            x.obj = e
            return x
        return ExcV("Exception", (), node)

    def s_With(self, s, fr):
        for it in s.items:
            v = self.ev(it.context_expr, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, Opq(f"enter({vkey(v)})"), fr)
            self.event("with", s, value=v)
        self.block(s.body, fr)

    def s_Try(self, s, fr):
        base = len(self.st.pc)
        pending = []
        self.tries.append(pending)
        outs = []
        try:
            self.block(s.body, fr)
            body_ok = True
        except Dead:
            body_ok = False
        self.tries.pop()
        if body_ok:
            try:
                self.block(s.orelse, fr)
                outs.append((self.st, None))
            except Dead:
                pass
        # handlers
        for pc, exc, st, stack in pending:
            self.st = State(dict(st.heap), pc)
            caught = False
            for hd in s.handlers:
                if self.exc_matches(exc, hd.type, fr):
                    caught = True
                    old = self.current_exc
                    self.current_exc = exc
                    try:
                        if hd.name:
                            self.setvar(fr, hd.name, getattr(exc, "obj", None) or Opq(f"exc:{exc.name}"))
                        self.block(hd.body, fr)
                        outs.append((self.st, None))
                    except Dead:
                        pass
                    self.current_exc = old
                    break
            if not caught:
                self.tries[-1].append((pc, exc, st, stack))
        self.join(outs, base)
        if s.finalbody:
            self.block(s.finalbody, fr)

    EXC_PARENTS = {"KeyError": ("LookupError",), "IndexError": ("LookupError",), "ModuleNotFoundError": ("ImportError",),
                   "UnboundLocalError": ("NameError",), "NotImplementedError": ("RuntimeError",),
                   "ZeroDivisionError": ("ArithmeticError",), "RecursionError": ("RuntimeError",)}

    def exc_matches(self, exc, typ, fr):
        if typ is None:
            return True
        t = self.ev(typ, fr)
        ts = t.items if isinstance(t, Tup) else [t]
        names = {exc.name, "Exception", "BaseException"}
        names |= set(self.EXC_PARENTS.get(exc.name, ()))
        c = getattr(exc, "cls", None)
        if c is not None:
            names |= set(c.mro_names())
        for x in ts:
            n = x.name if isinstance(x, ClassV) else x.path.split(".")[-1] if isinstance(x, Ext) else None
            if n in names:
                return True
        return False

    def s_Break(self, s, fr):
        self.loopctx[-1].breaks.append((self.st, None))
        raise Dead()

    def s_Continue(self, s, fr):
        self.loopctx[-1].continues.append((self.st, None))
        raise Dead()

    # ----------------------------------------------------------------- loops
    def s_For(self, s, fr):
        it = self.simplify(self.ev(s.iter, fr))
        if isinstance(it, Phi):
            # loop over a gated sequence: run the loop once per gate
            def mk(v):
                return lambda: self.for_over(s, fr, v)
            self.branch(it.c, mk(it.a), mk(it.b))
            return
        self.for_over(s, fr, it)

    def for_over(self, s, fr, it):
        kind, items = self.iterate(it, s)
        base = len(self.st.pc)
        if kind == "const":
            outs = []
            lc = LoopCtx()
            alive = True
            for x in items:
                self.loopctx.append(lc)
                b0 = len(self.st.pc)
                try:
                    if isinstance(x, Guarded):
                        def body():
                            self.assign(s.target, x.v, fr)
                            self.block(s.body, fr)
                        self.branch(x.c, body, lambda: None)
                    else:
                        self.assign(s.target, x, fr)
                        self.block(s.body, fr)
                    done = [(self.st, None)]
                except Dead:
                    done = []
                except PyRaise as e:
                    self.register_raise(e.exc)
                    done = []
                self.loopctx.pop()
                done = lc.continues + done
                lc.continues = []
                if not done:
                    alive = False
                    break
                self.join(done, b0)
            if alive:
                try:
                    self.block(s.orelse, fr)
                    outs.append((self.st, None))
                except Dead:
                    pass
            outs = lc.breaks + outs
            self.join(outs, base)
            return
        self.sym_loop(s, fr, items[0], lambda k: self.assign(s.target, items[1](k), fr), s.body, it)
        if s.orelse:
            self.block(s.orelse, fr)

    def s_While(self, s, fr):
        c = self.truth(self.ev(s.test, fr))
        if c.is_zero():
            self.block(s.orelse, fr)
            return
        # counted loop written as while?
        ind = self.induction(s, fr)
        if ind is not None:
            name, start, stop, step, body = ind
            n = stop - start

            def bind(k):
                self.setvar(fr, name, T((), start + k, kind="int"))
            self.sym_loop(s, fr, n, bind, body, RangeV(start, stop, P(1)), skip={name})
            self.setvar(fr, name, T((), stop, kind="int"))
            return
        self.sym_loop(s, fr, None, lambda k: None, s.body, None, test=s.test)

    def induction(self, s, fr):
        """while i < N: ...; i += 1 with i not otherwise assigned"""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.NotEq))
                and isinstance(t.left, ast.Name)):
            return None
        name = t.left.id
        incs = [x for b in s.body for x in ast.walk(b) if isinstance(x, (ast.Assign, ast.AugAssign, ast.For))
                and name in _targets(x)]
        if len(incs) != 1 or incs[0] is not s.body[-1]:
            return None
        if any(isinstance(x, (ast.Continue,)) for b in s.body for x in ast.walk(b)):
            return None
        x = incs[0]
        ok = isinstance(x, ast.AugAssign) and isinstance(x.op, ast.Add) and isinstance(x.value, ast.Constant) and x.value.value == 1
        ok = ok or (isinstance(x, ast.Assign) and isinstance(x.value, ast.BinOp) and isinstance(x.value.op, ast.Add)
                    and ast.dump(x.value.left) == ast.dump(ast.Name(id=name, ctx=ast.Load()))
                    and isinstance(x.value.right, ast.Constant) and x.value.right.value == 1)
        if not ok:
            return None
        bound_names = {n.id for n in ast.walk(t.comparators[0]) if isinstance(n, ast.Name)}
        assigned = {n for b in s.body for y in ast.walk(b) if isinstance(y, (ast.Assign, ast.AugAssign, ast.For)) for n in _targets(y)}
        if bound_names & assigned:
            return None
        start = self.lookup(fr, name)
        stop = self.ev(t.comparators[0], fr)
        if not (isinstance(start, T) and isinstance(stop, T) and start.rank == 0 and stop.rank == 0):
            return None
        return name, start.p, stop.p, 1, s.body[:-1]

    def newK(self):
        self.nK += 1
        return ("f", ("K", self.nK))

    def sym_loop(self, s, fr, n, bind, body, seq, test=None, skip=()):
        """summarise a loop of symbolic trip count"""
        K = self.newK()
        if n is not None:
            A.UBI[K] = n
        kpoly = idx_value(K)
        rec = LoopRec(len(self.loops), s, fr.qual, n, K)
        rec.seq = seq
        self.loops.append(rec)
        s_entry = self.st
        base = len(s_entry.pc)
        # ---- 1st pass: which cells change?
        ev0 = len(self.events)
        ra0 = [len(t) for t in self.tries]
        ret0 = len(self.ctxs[-1].returns)
        nl0, op0, nid0 = len(self.loops), len(self.opaque_log), self.nid
        changed = set()
        heads = {}
        for attempt in range(6):
            del self.events[ev0:]
            for t, m in zip(self.tries, ra0):
                del t[m:]
            del self.ctxs[-1].returns[ret0:]
            del self.loops[nl0:]
            self.st = s_entry.fork()
            for cell in changed:
                heads[cell] = self.make_head(rec, cell, s_entry, heads.get(cell))
                self.put_cell(cell, heads[cell])
            start_heap = dict(self.st.heap)
            self.loopstack.append(rec)
            lc = LoopCtx()
            self.loopctx.append(lc)
            outs = []
            rec.test = None
            try:
                if test is not None:
                    c = self.truth(self.ev(test, fr))
                    rec.test = c
                    self.st = self.st.fork(c) if c.const() is None else self.st
                bind(kpoly)
                self.block(body, fr)
                outs = [(self.st, None)]
            except Dead:
                pass
            except PyRaise as e:
                self.register_raise(e.exc)
            self.loopctx.pop()
            self.loopstack.pop()
            outs = lc.continues + outs
            try:
                self.join(outs, base)
                alive = True
            except Dead:
                alive = False
            end = self.st if alive else None
            new = set()
            cand = [end] if alive else []
            cand += [st for st, _ in lc.breaks]
            for st in cand:
                for k, o in st.heap.items():
                    o0 = start_heap.get(k)
                    if o0 is None or o0 is o:
                        continue
                    if isinstance(o.d, dict):
                        for nm, x in o.d.items():
                            y = o0.d.get(nm, UNDEF) if isinstance(o0.d, dict) else UNDEF
                            if x is not y and vkey(x) != vkey(y):
                                new.add((k, nm))
                    else:
                        if vkey(o.d) != vkey(o0.d):
                            new.add((k, None))
            new = {c for c in new if not (c[0] == fr.ref.id and c[1] in skip)}
            new = {c for c in new if c[0] in s_entry.heap}
            if new <= changed:
                break
            changed |= new
        else:
            raise AnalysisError(f"loop at {fr.qual}:{s.lineno} not summarised")
        rec.events = (ev0, len(self.events))
        # ---- results
        endv = {c: self.get_cell(end, c) for c in changed} if alive else {}
        rec.alive = alive
        rec.init = {c: self.get_cell(s_entry, c) for c in changed}
        rec.head = dict(heads)
        rec.body = endv
        rec.names = {c: (c[1] if c[0] == fr.ref.id else f"{s_entry.heap[c[0]].name}.{c[1]}") for c in changed}
        rets = self.ctxs[-1].returns[ret0:]
        del self.ctxs[-1].returns[ret0:]
        rec.breaks = [(relcond(st.pc, base), {c: self.get_cell(st, c) for c in changed}) for st, _ in lc.breaks]
        rec.rets = [(relcond(st.pc, base), v) for st, v in rets]
        exits = [(relcond(st.pc, base), st, v, "ret") for st, v in rets] + \
                [(relcond(st.pc, base), st, None, "brk") for st, _ in lc.breaks]
        after = s_entry.fork()
        self.st = after
        if n is None:
            # general while: everything changed becomes a fixpoint value
            for c in changed:
                v = rec.init[c]
                self.put_cell(c, self.fix_value(rec, c, v))
            rec.exits = exits
            if exits:
                outs = []
                for c0, st, v, knd in exits:
                    s2 = State(dict(st.heap), s_entry.pc + (fac(("bool", ("exit", f"L{rec.id}", len(outs)))),))
                    if knd == "ret":
                        self.ctxs[-1].returns.append((s2, v))
                    outs.append((s2, knd))
                # conditions of leaving are kept symbolic
                b = [o for o, k in outs if k == "brk"]
                if test is not None and isinstance(test, ast.Constant) and test.value:
                    # while True: leaves only by break/return
                    if not b:
                        raise Dead()
                    st = b[-1]
                    self.st = State(dict(st.heap), s_entry.pc)
                    return
            return
        heads_used = lambda v: any(contains_head(v, rec.id) for _ in (0,))
        if exits:
            # search loop: the exit conditions may not depend on loop-carried values
            tot = ZERO
            ok = True
            for c0, st, v, knd in exits:
                if contains_head(c0, rec.id):
                    ok = False
                tot = tot + c0
            if not ok:
                for c in changed:
                    self.put_cell(c, self.fix_value(rec, c, rec.init[c]))
                if any(k == "ret" for _, _, _, k in exits):
                    for c0, st, v, knd in exits:
                        if knd == "ret":
                            cond = fac(("bool", ("loopexit", f"{fr.qual}", rec.id)))
                            s2 = State(dict(st.heap), s_entry.pc + (cond,))
                            self.ctxs[-1].returns.append((s2, v))
                            self.st = self.st.fork(ONE - cond)
                return
            cn = psub_free(tot, {K: ("f", "H")})
            first = fac(("app", "first", (cn, n), ()))
            found = fac(("bool", ("any", cn, n)))
            if tot == ONE:
                first, found = ZERO, ONE - cmpp("lt", n - 1)
            fidx = nidx(("e", A.shift(first, 0, 1)))
            outs = []
            for c0, st, v, knd in exits:
                cK = psub_free(c0, {K: fidx}) if len(exits) > 1 else ONE
                s2 = s_entry.fork(found) if found.const() is None else s_entry.fork()
                if len(exits) > 1:
                    s2 = s2.fork(cK)
                self.st = s2
                for c in changed:
                    x = self.get_cell(st, c)
                    self.put_cell(c, self.close(rec, c, x, rec.init[c], fidx))
                # objects allocated in the loop
                for k, o in st.heap.items():
                    if k not in self.st.heap:
                        self.st.heap[k] = HObj(o.kind, vsubst_d(o.d, {K: fidx}), o.cls, o.name, o.origin)
                if knd == "ret":
                    self.ctxs[-1].returns.append((self.st, vsubst(v, {K: fidx})))
                else:
                    outs.append((self.st, None))
            # not found: ran to the end
            nf = (ONE - found)
            if not nf.is_zero():
                self.st = s_entry.fork(nf)
                if alive:
                    last = nidx(("e", A.shift(n - 1, 0, 1)))
                    for c in changed:
                        self.put_cell(c, self.close(rec, c, endv[c], rec.init[c], last))
                outs.append((self.st, None))
            self.join(outs, base)
            return
        # plain loop
        if not alive:
            # every iteration ends in a raise
            cz = cmpp("lt", n - 1)
            self.st = s_entry.fork(cz)
            return
        for k, o in end.heap.items():
            if k not in self.st.heap:
                self.st.heap[k] = o
        for c in changed:
            self.put_cell(c, self.summary(rec, c, rec.init[c], heads.get(c), endv[c]))
        # loop target keeps its last value (only when the loop ran)

    def close(self, rec, c, x, x0, idx):
        if contains_head(x, rec.id):
            h = rec.head.get(c)
            if h is not None and vkey(x) == vkey(h):
                return x0
            return self.fix_value(rec, c, x0)
        return vsubst(x, {rec.K: idx})

    def make_head(self, rec, cell, s_entry, old):
        if old is not None:
            return old
        v = self.get_cell(s_entry, cell)
        nm = f"head{rec.id}:{cell[1]}@{cell[0]}"
        return self.head_of(v, nm, rec)

    def head_of(self, v, nm, rec):
        if isinstance(v, bool):
            v = num(v)
        if isinstance(v, T):
            t = tens(nm, *v.shape)
            return T(t.shape, t.p, dt=v.dt, kind=v.kind)
        if isinstance(v, Tup):
            return Tup([self.head_of(x, f"{nm}.{i}", rec) for i, x in enumerate(v.items)])
        if isinstance(v, list):
            return HeadList(nm, v, [])
        if isinstance(v, SymSeq) or isinstance(v, HeadList):
            return HeadList(nm, v, [])
        return Opq(nm, "loop-carried")

    def get_cell(self, st, c):
        o = st.heap.get(c[0])
        if o is None:
            return UNDEF
        if c[1] is None:
            return o.d
        return o.d.get(c[1], UNDEF)

    def put_cell(self, c, v):
        o = self.st.heap[c[0]].copy()
        if c[1] is None:
            o.d = v
        else:
            o.d[c[1]] = v
        self.st.heap[c[0]] = o

    def fix_value(self, rec, c, v0, tag="rec"):
        nm = f"{tag}{rec.id}:{rec.names.get(c, c[1]) if hasattr(rec, 'names') else c[1]}"
        if isinstance(v0, bool):
            v0 = num(v0)
        if isinstance(v0, T):
            t = tens(nm, *v0.shape)
            r = T(t.shape, t.p, dt=v0.dt, kind=v0.kind)
        elif isinstance(v0, Tup):
            r = Tup([self.fix_value(rec, (c[0], f"{c[1]}.{i}"), x, tag) for i, x in enumerate(v0.items)])
        else:
            r = Opq(nm, "recurrence")
        rec.after[c] = r
        rec.kind[c] = "recurrence"
        return r

    def summary(self, rec, c, v0, head, v1):
        """value of a cell after the loop"""
        n, K = rec.n, rec.K
        rid = rec.id
        if v0 is UNDEF or head is None:
            # first defined inside: last iteration
            if contains_head(v1, rid):
                return self.fix_value(rec, c, v1)
            last = nidx(("e", A.shift(n - 1, 0, 1)))
            rec.kind[c] = "last"
            r = vsubst(v1, {K: last})
            ne = cmpp("lt", n - 1)       # n < 1
            return mkphi(self.assume(ne), v0, r)
        if isinstance(v1, HeadList) and isinstance(head, HeadList):
            if len(v1.extra) == 0:
                return v0
            if not any(contains_head(x, rid) for x in v1.extra):
                rec.kind[c] = "append"
                if isinstance(v0, list) and len(v0) == 0:
                    if len(v1.extra) == 1:
                        x = v1.extra[0]
                        return SymSeq(n, K, x)
                return HeadList(v1.nm, v0, [("loop", n, K, tuple(v1.extra))])
            return self.fix_value(rec, c, v0)
        v1b = num(v1) if isinstance(v1, bool) else v1
        v0b = num(v0) if isinstance(v0, bool) else v0
        if isinstance(v1b, T) and isinstance(head, T):
            if not contains_head(v1b, rid):
                last = nidx(("e", A.shift(n - 1, 0, 1)))
                rec.kind[c] = "last"
                r = vsubst(v1b, {K: last})
                return mkphi(self.assume(cmpp("lt", n - 1)), v0b, r)
            if isinstance(v0b, T):
                # accumulation: v1 = head + g(K)
                if head.rank < v1b.rank or True:
                    try:
                        g = tsub(v1b, head)
                    except ShapeError:
                        g = None
                    if g is not None and not contains_head(g, rid):
                        rec.kind[c] = "sum"
                        tot = self.sum_over(g, K, n)
                        r = tadd(v0b, tot)
                        return T(r.shape, r.p, kind=v0b.kind if r.rank == 0 else "arr", dt=v1b.dt)
                # scatter: v1 = head*(1-ind(K)) + val(K)*ind(K)
                if g is not None and v1b.shape == v0b.shape:
                    r = self.scatter(g, head, v0b, K, n, rid)
                    if r is not None:
                        rec.kind[c] = "scatter"
                        return T(r.shape, r.p, kind=v0b.kind, dt=v1b.dt)
        if isinstance(v1, Tup) and isinstance(head, Tup) and isinstance(v0, Tup) and len(v1.items) == len(v0.items):
            return Tup([self.summary(rec, (c[0], f"{c[1]}.{i}"), a, b, d)
                        for i, (a, b, d) in enumerate(zip(v0.items, head.items, v1.items))])
        if not contains_head(v1, rid):
            last = nidx(("e", A.shift(n - 1, 0, 1)))
            rec.kind[c] = "last"
            return mkphi(self.assume(cmpp("lt", n - 1)), v0, vsubst(v1, {K: last}))
        return self.fix_value(rec, c, v1 if isinstance(v1, T) else v0)

    def sum_over(self, g, K, n):
        r = g.rank
        p = psub_free(g.p, {K: ("f", r)})
        return tsum(T(tuple(g.shape) + (n,), p), r)

    def scatter(self, g, head, v0, K, n, rid):
        """g = val*ind - head*ind with ind a product of deltas on K; iterations write
        disjoint cells"""
        # coefficient of head in g
        hn = None
        for (bd, fs), c in head.p.t:
            hn = fs[0][0][1]
        if hn is None:
            return None
        # substitute head := 0 -> val*ind ; head := 1 -> val*ind - ind
        z0 = T(g.shape, rewrite(g.p, lambda f: ZERO if f[0] == "atom" and f[1] == hn else None))
        z1 = T(g.shape, rewrite(g.p, lambda f: ONE if f[0] == "atom" and f[1] == hn else None))
        if contains_head(z0, rid) or contains_head(z1, rid):
            return None
        ind = tsub(z0, z1)
        # g must be z0 - head*ind
        if g.p != z0.p - pmul(head.p, ind.p):
            # head may occur under the delta with substituted indices
            if not iszero(T(g.shape, pmul(ind.p, head.p) + g.p - z0.p)):
                return None
        # disjointness: ind(K)*ind(K') = 0 for K != K'  <=  ind contains delta(axis, K)
        for (bd, fs), c in ind.p.t:
            if not any(f[0] == "delta" and (f[1] == K or f[2] == K) for f, e in fs):
                return None
        tot_ind = self.sum_over(ind, K, n)
        tot_val = self.sum_over(z0, K, n)
        return T(v0.shape, v0.p - pmul(v0.p, tot_ind.p) + tot_val.p)

    # ------------------------------------------------------------- iteration
    def new_list(self, items):
        return self.alloc("list", list(items))

    def items_of(self, v, node=None):
        k, it = self.iterate(v, node)
        if k == "const":
            return it
        raise AnalysisError(f"constant sequence expected: {v!r}")

    def iterate(self, v, node=None):
        """('const', [items]) or ('sym', (n, fn))"""
        v = self.simplify(v)
        if isinstance(v, Tup):
            return "const", list(v.items)
        if isinstance(v, str):
            return "const", list(v)
        if isinstance(v, Ref):
            o = self.h(v)
            if o.kind == "list":
                if isinstance(o.d, list):
                    return "const", list(o.d)
                if isinstance(o.d, SymSeq):
                    return "sym", (o.d.n, o.d.at)
                if isinstance(o.d, Phi):
                    return self.iterate_phi(o.d, node)
                if isinstance(o.d, HeadList):
                    return "sym", (fac(("app", "len", (o.d.key,), ())), lambda k: Opq(f"{o.d.key}[{k.key}]"))
                return "sym", (fac(("app", "len", (vkey(o.d),), ())), lambda k: Opq(f"{vkey(o.d)}[{k.key}]"))
            if o.kind in ("dict", "module"):
                return "const", [k for k, x in o.d.items() if x is not UNDEF]
            if o.kind == "set":
                return "const", list(o.d)
            f = o.cls.lookup("__iter__") if o.cls else UNDEF
            if f is not UNDEF:
                return self.iterate(self.call(Bound(f, v), [], {}, node), node)
        if isinstance(v, SymSeq):
            n = v.n.as_int()
            if n is not None and n <= 16:
                return "const", [v.at(P(i)) for i in range(n)]
            return "sym", (v.n, v.at)
        if isinstance(v, RangeV):
            n = v.n.as_int()
            if n is None and v.s.as_int() is not None and v.a.as_int() is not None and v.b.as_int() is not None:
                n = len(range(v.a.as_int(), v.b.as_int(), v.s.as_int()))
            if n is not None and n <= 64:
                return "const", [v.at(P(i)) for i in range(max(n, 0))]
            return "sym", (v.n, v.at)
        if isinstance(v, T):
            if v.rank == 0:
                raise PyRaise(ExcV("TypeError", ("iteration over a 0-d array",), node))
            n = v.shape[0].as_int()
            if n is not None and n <= 64:
                return "const", [self.view(v, tindex(v, [i])) for i in range(n)]
            return "sym", (v.shape[0], lambda k: self.view(v, tindex(v, [k])))
        if isinstance(v, IterV):
            return self.iterate_lazy(v, node)
        if isinstance(v, Phi):
            return self.iterate_phi(v, node)
        if isinstance(v, (Opq, SymDict)):
            n = fac(("app", "len", (vkey(v),), ()))
            return "sym", (n, lambda k: Opq(f"{vkey(v)}[{k.key}]"))
        raise PyRaise(ExcV("TypeError", (f"not iterable: {v!r}",), node))

    def iterate_phi(self, v, node):
        ka, a = self.iterate(v.a, node)
        kb, b = self.iterate(v.b, node)
        if ka == kb == "const" and len(a) == len(b):
            return "const", [mkphi(v.c, x, y) for x, y in zip(a, b)]
        fa = a if ka == "sym" else None
        if ka == kb == "sym" and a[0] == b[0]:
            return "sym", (a[0], lambda k: mkphi(v.c, a[1](k), b[1](k)))
        raise AnalysisError(f"iteration over a gated sequence: {v!r}")

    def iterate_lazy(self, v, node):
        if v.kind == "enumerate":
            k, it = self.iterate(v.args[0], node)
            st = v.args[1].p if len(v.args) > 1 else P(0)
            if k == "const":
                return k, [Tup([T((), st + i, kind="int"), x]) for i, x in enumerate(it)]
            return k, (it[0], lambda j: Tup([T((), st + j, kind="int"), it[1](j)]))
        if v.kind == "zip":
            its = [self.iterate(a, node) for a in v.args]
            if all(k == "const" for k, _ in its):
                return "const", [Tup(x) for x in zip(*[i for _, i in its])]
            ns = [i[0] for k, i in its if k == "sym"]
            fns = []
            for k, i in its:
                if k == "sym":
                    fns.append(i[1])
                else:
                    fns.append(lambda j, i=i: self.pick(i, j))
            n = ns[0]
            cl = [len(i) for k, i in its if k == "const"]
            for m in ns[1:]:
                if m != n:
                    n = fac(("app", "min", tuple(sorted([n, m], key=skey)), ()))
            if cl:
                return "const", [Tup([f(P(j)) for f in fns]) for j in range(min(cl))]
            return "sym", (n, lambda j: Tup([f(j) for f in fns]))
        if v.kind == "reversed":
            k, it = self.iterate(v.args[0], node)
            if k == "const":
                return k, it[::-1]
            return k, (it[0], lambda j: it[1](it[0] - 1 - j))
        if v.kind == "map":
            k, it = self.iterate(v.args[1], node)
            if k == "const":
                return k, [self.call(v.args[0], [x], {}, node) for x in it]
            return k, (it[0], lambda j: self.call(v.args[0], [it[1](j)], {}, node))
        raise AnalysisError(v.kind)

    def pick(self, items, j):
        k = j.as_int()
        if k is not None:
            return items[k]
        r = items[-1]
        for i in range(len(items) - 2, -1, -1):
            r = mkphi(cmpp("eq", j - i), items[i], r)
        return r

    def view(self, base, t):
        if isinstance(t, T) and t.rank > 0:
            t.st = base if base.st is None else base.st
        if isinstance(t, T):
            t.dt = base.dt
            t.kind = "arr"
        return t

    # ------------------------------------------------------------- expressions
    def ev(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise AnalysisError(f"expression {type(e).__name__} at {fr.qual}:{e.lineno}")
        try:
            v = m(e, fr)
        except ShapeError as x:
            self.event("shape_error", e, what=str(x))
            raise PyRaise(ExcV("ValueError", (f"shape: {x}",), e))
        return v

    def e_Constant(self, e, fr):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        if v is Ellipsis:
            return Ellipsis
        if isinstance(v, bytes):
            return Opq(repr(v))
        return num(v)

    def e_Name(self, e, fr):
        return self.lookup(fr, e.id, e)

    def e_Tuple(self, e, fr):
        return Tup(self.ev_list(e.elts, fr))

    def e_List(self, e, fr):
        return self.new_list(self.ev_list(e.elts, fr))

    def e_Set(self, e, fr):
        return self.alloc("set", self.ev_list(e.elts, fr))

    def ev_list(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out += self.items_of(self.ev(x.value, fr), x)
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                m = self.ev(v, fr)
                if isinstance(m, Ref):
                    d.update(self.h(m).d)
                continue
            kk = self.dkey(self.ev(k, fr))
            d[kk] = self.ev(v, fr)
        return self.alloc("dict", d)

    def dkey(self, k):
        """concrete dictionary key, or the abstract value itself"""
        if isinstance(k, (str, bool)) or k is None:
            return k
        c = as_const(k)
        if c is not None:
            return c
        if isinstance(k, Tup) and all(not isinstance(self.dkey(x), (T, SStr)) for x in k.items):
            return tuple(self.dkey(x) for x in k.items)
        return k

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, fr)
                c = as_const(x)
                if isinstance(x, str) and v.conversion == -1 and v.format_spec is None:
                    parts.append(x)
                elif c is not None and v.format_spec is None:
                    parts.append(str(c))
                elif isinstance(x, SStr) and v.conversion == -1 and v.format_spec is None:
                    parts.extend(x.parts)
                else:
                    parts.append(x if v.format_spec is None and v.conversion == -1 else
                                 Tup([x, ast.dump(v.format_spec) if v.format_spec else "", num(v.conversion)]))
        s = SStr(parts)
        if all(isinstance(p, str) for p in s.parts):
            return "".join(s.parts)
        return s

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr, e)

    def ev_index(self, s, fr):
        if isinstance(s, ast.Tuple):
            return Tup([self.ev_index(x, fr) for x in s.elts])
        if isinstance(s, ast.Slice):
            return SliceV(*[self.ev(x, fr) if x is not None else None for x in (s.lower, s.upper, s.step)])
        return self.ev(s, fr)

    def e_Slice(self, s, fr):
        return self.ev_index(s, fr)

    def e_Subscript(self, e, fr):
        base = self.ev(e.value, fr)
        return self.getitem(base, self.ev_index(e.slice, fr), e)

    def e_Starred(self, e, fr):
        return self.ev(e.value, fr)

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.setvar(fr, e.target.id, v)
        return v

    def e_IfExp(self, e, fr):
        c = self.truth(self.ev(e.test, fr))
        return self.branch(c, lambda: self.ev(e.body, fr), lambda: self.ev(e.orelse, fr))

    def e_BoolOp(self, e, fr):
        return self.boolop(isinstance(e.op, ast.And), [lambda x=x: self.ev(x, fr) for x in e.values])

    def boolop(self, is_and, thunks):
        v = thunks[0]()
        if len(thunks) == 1:
            return v
        c = self.truth(v)
        rest = lambda: self.boolop(is_and, thunks[1:])
        if is_and:
            return self.branch(c, rest, lambda: v)
        return self.branch(c, lambda: v, rest)

    def e_UnaryOp(self, e, fr):
        v = self.simplify(self.ev(e.operand, fr))
        if isinstance(e.op, ast.Not):
            c = self.assume(self.truth(v))
            k = c.const()
            if k is not None:
                return not k
            return T((), ONE - c, kind="bool")
        return self.unop(e.op, v, e)

    def unop(self, op, v, node):
        if isinstance(v, Phi):
            return mkphi(v.c, self.unop(op, v.a, node), self.unop(op, v.b, node))
        if isinstance(v, bool):
            v = T((), P(int(v)), kind="bool")
        if isinstance(v, T):
            k = "int" if v.kind == "bool" else v.kind
            if isinstance(op, ast.USub):
                return T(v.shape, -v.p, dt=v.dt, kind=k)
            if isinstance(op, ast.UAdd):
                return v
            if isinstance(op, ast.Invert):
                if v.dt == "b" or v.kind == "bool":
                    return T(v.shape, ONE - v.p, dt=v.dt, kind=v.kind)
        if isinstance(v, Ref) and self.h(v).kind in ("list",):
            raise PyRaise(ExcV("TypeError", ("bad operand",), node))
        return self.opaque(f"un{type(op).__name__}({vkey(v)})", "unary", node)

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return self.binop(e.op, a, b, e)

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            v = self.compare(op, left, right, e)
            if res is None:
                res = v
            else:
                a, b = self.truth(res), self.truth(v)
                p = self.assume(a * b)
                res = bool(p.const()) if p.const() is not None else T((), p, kind="bool")
            left = right
        return res

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr)

    def e_ListComp(self, e, fr):
        return self.comp(e, fr, "list")

    def e_GeneratorExp(self, e, fr):
        return self.comp(e, fr, "gen")

    def e_SetComp(self, e, fr):
        return self.comp(e, fr, "set")

    def e_DictComp(self, e, fr):
        ref = self.alloc("frame", {})
        cf = Frame(ref, fr.mod, fr, fr.qual)
        out = {}

        def rec(gens):
            if not gens:
                out[self.dkey(self.ev(e.key, cf))] = self.ev(e.value, cf)
                return
            g = gens[0]
            k, it = self.iterate(self.ev(g.iter, cf), g.iter)
            if k != "const":
                raise Unsupported("dict comprehension over a symbolic sequence")
            for x in it:
                self.assign(g.target, x, cf)
                ok = True
                for i in g.ifs:
                    c = self.assume(self.truth(self.ev(i, cf))).const()
                    if c is None:
                        raise Unsupported("filter")
                    ok = ok and bool(c)
                if ok:
                    rec(gens[1:])
        try:
            rec(e.generators)
        except Unsupported as x:
            return self.opaque(f"dictcomp@{e.lineno}:{e.col_offset}:{fr.qual}", str(x), e)
        return self.alloc("dict", out)

    def comp(self, e, fr, what):
        ref = self.alloc("frame", {})
        cf = Frame(ref, fr.mod, fr, fr.qual)

        def rec(gens, guard):
            if not gens:
                v = self.ev(e.elt, cf)
                return [v if guard is None else Guarded(guard, v)]
            g = gens[0]
            k, it = self.iterate(self.ev(g.iter, cf), g.iter)
            if k == "const":
                out = []
                for x in it:
                    gd = guard
                    if isinstance(x, Guarded):
                        gd = x.c if gd is None else gd * x.c
                        x = x.v
                    self.assign(g.target, x, cf)
                    skip = False
                    for i in g.ifs:
                        c = self.assume(self.truth(self.ev(i, cf)))
                        kk = c.const()
                        if kk is not None:
                            if not kk:
                                skip = True
                                break
                        else:
                            gd = c if gd is None else gd * c
                    if not skip:
                        out += rec(gens[1:], gd)
                return out
            if len(gens) > 1:
                raise Unsupported("nested symbolic comprehension")
            K = self.newK()
            A.UBI[K] = it[0]
            self.assign(g.target, it[1](idx_value(K)), cf)
            filt = ONE
            for i in g.ifs:
                filt = filt * self.truth(self.ev(i, cf))
            v = self.ev(e.elt, cf)
            if filt != ONE:
                return FilterSeq(it[0], K, v, filt)
            return SymSeq(it[0], K, v)
        try:
            r = rec(e.generators, None)
        except Unsupported as x:
            return self.opaque(f"comp@{fr.qual}:{e.lineno}:{e.col_offset}", str(x), e)
        if isinstance(r, FilterSeq):
            r2 = Opq("filter:" + vkey(vsubst(r.tmpl, {r.K: ("f", "SEQ")})) + psub_free(r.filt, {r.K: ("f", "SEQ")}).key + r.n.key,
                     "filtered sequence")
            self.filters = getattr(self, "filters", {})
            self.filters[r2.key] = r
            return r2
        if isinstance(r, SymSeq):
            return self.alloc("list", r) if what == "list" else r
        if what == "set":
            return self.alloc("set", r)
        return self.new_list(r)

    def e_Call(self, e, fr):
        # super() and globals()/locals() need the frame
        if isinstance(e.func, ast.Name) and e.func.id == "globals" and not e.args:
            try:
                return self.lookup(fr, "globals") if False else fr.mod
            except PyRaise:
                pass
        if isinstance(e.func, ast.Name) and e.func.id == "locals" and not e.args:
            return fr.ref
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            slf = self.lookup(fr, "self")
            return SuperV(slf, fr.cls)
        f = self.ev(e.func, fr)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.simplify(self.ev(a.value, fr))
                k, it = self.iterate(v, a)
                if k == "sym":
                    args.append(StarSeq(v))
                else:
                    args += it
            else:
                args.append(self.ev(a, fr))
        for k in e.keywords:
            if k.arg is None:
                v = self.simplify(self.ev(k.value, fr))
                if isinstance(v, Ref) and self.h(v).kind == "dict" and isinstance(self.h(v).d, dict):
                    kw.update(self.h(v).d)
                else:
                    kw["**"] = v
            else:
                kw[k.arg] = self.ev(k.value, fr)
        return self.call(f, args, kw, e, fr)

    def e_Yield(self, e, fr):
        raise AnalysisError("generator")

    # -------------------------------------------------------------------- calls
    def call(self, f, args, kw, node, fr=None):
        f = self.simplify(f)
        if isinstance(f, Phi):
            return self.branch(f.c, lambda: self.call(f.a, args, kw, node, fr), lambda: self.call(f.b, args, kw, node, fr))
        if isinstance(f, Bound):
            if isinstance(f.func, FuncV):
                return self.call_func(f.func, [f.self_] + list(args), kw, node)
            return self.call(f.func, [f.self_] + list(args), kw, node, fr)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw, node)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw, node)
        if isinstance(f, Ext):
            if f.path == "builtins.vars" and not args:
                return fr.ref
            return self.models.call_ext(self, f.path, args, kw, node, fr)
        if isinstance(f, Meth):
            return self.models.call_method(self, f.obj, f.name, args, kw, node)
        if isinstance(f, Ref) and self.h(f).kind == "obj":
            c = self.h(f).cls.lookup("__call__")
            if c is not UNDEF:
                return self.call_func(c, [f] + list(args), kw, node)
        if isinstance(f, Opq):
            self.event("opaque_call", node, f=f, args=args, kw=kw)
            return self.opaque(f"call({f.key};{','.join(vkey(a) for a in args)};{','.join(k + '=' + vkey(v) for k, v in sorted(kw.items()))})", "unknown callee", node)
        if isinstance(f, CallableV):
            return f.fn(self, args, kw, node)
        if isinstance(f, T) or f is None or isinstance(f, (str, bool, Tup)):
            raise PyRaise(ExcV("TypeError", ("not callable",), node))
        if isinstance(f, (Ref, SymSeq)):
            raise PyRaise(ExcV("TypeError", ("not callable",), node))
        raise AnalysisError(f"call of {f!r}")

    def stub_for(self, qual):
        if qual in self.stubs:
            return self.stubs[qual]
        for k, v in self.stubs.items():
            if k.startswith("*") and qual.endswith(k[1:]):
                return v
        return None

    def call_func(self, f, args, kw, node):
        stub = self.stub_for(f.qual)
        if stub is not None:
            self.event("call", node, qual=f.qual, args=args, kw=kw)
            r = stub(self, f, args, kw, node)
            if r is not NotImplemented:
                return r
        depth = sum(1 for q, _ in self.callstack if q == f.qual)
        if len(self.callstack) > self.MAXDEPTH or depth > self.recursion_limit.get(f.qual, self.rec_default):
            self.event("recursion", node, qual=f.qual, args=args, kw=kw)
            return self.opaque(f"rec({f.qual};{','.join(vkey(a) for a in args)})", "recursion", node)
        self.event("call", node, qual=f.qual, args=args, kw=kw)
        self.ncalls += 1
        if self.ncalls > 60000:
            raise AnalysisError("too many calls")
        self.analysed.add(f.qual)
        local = self.bind_args(f, args, kw, node)
        ref = self.alloc("frame", local)
        fr = Frame(ref, f.mod, f.closure, f.qual, cls=f.cls)
        base = len(self.st.pc)
        ctx = CallCtx(f.qual, node)
        self.ctxs.append(ctx)
        self.callstack.append((f.qual, node))
        lc, self.loopctx = self.loopctx, []
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body, fr)
                ctx.returns.append((self.st, v))
            else:
                self.block(f.node.body, fr)
                ctx.returns.append((self.st, None))
        except Dead:
            pass
        finally:
            self.loopctx = lc
            self.callstack.pop()
            self.ctxs.pop()
        v = self.join(ctx.returns, base)
        if f.qual in self.named and isinstance(v, T) and v.rank:
            v = self.name_result(v)
        return v

    def name_result(self, v):
        """value numbering of the results of chosen functions: equal results share one name"""
        key = (tuple(P(d).key for d in v.shape), v.p.key)
        if key not in self.rnames:
            self.rnames[key] = f"r{len(self.rnames)}"
            self.rdefs[self.rnames[key]] = v
        t = tens(self.rnames[key], *v.shape)
        return T(t.shape, t.p, dt=v.dt, kind=v.kind)

    def bind_args(self, f, args, kw, node):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        local = {}
        kw = dict(kw)
        star_kw = kw.pop("**", None)
        args = list(args)
        if args and isinstance(args[-1], StarSeq):
            ss = args.pop()
            if a.vararg is None:
                # f(*seq): fill the rest with elements
                k = 0
                while len(args) < len(names) - len(f.defaults):
                    args.append(self.getitem(ss.v, num(k), node))
                    k += 1
            else:
                while len(args) < len(names):
                    args.append(self.getitem(ss.v, num(0), node))
                local[a.vararg.arg] = ss.v
        for n, v in zip(names, args):
            local[n] = v
        extra = args[len(names):]
        if a.vararg is not None:
            local.setdefault(a.vararg.arg, Tup(extra))
        elif extra:
            raise PyRaise(ExcV("TypeError", (f"{f.qual}: too many arguments",), node))
        kwonly = [x.arg for x in a.kwonlyargs]
        rest = {}
        for k, v in kw.items():
            if k in names or k in kwonly:
                if k in local:
                    raise PyRaise(ExcV("TypeError", (f"{f.qual}: multiple values for {k}",), node))
                local[k] = v
            else:
                rest[k] = v
        if a.kwarg is not None:
            local[a.kwarg.arg] = self.alloc("dict", rest) if star_kw is None else star_kw
        elif rest:
            raise PyRaise(ExcV("TypeError", (f"{f.qual}: unexpected keyword {sorted(rest)}",), node))
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in local:
                j = i - (len(names) - nd)
                if j < 0:
                    raise PyRaise(ExcV("TypeError", (f"{f.qual}: missing argument {n}",), node))
                local[n] = f.defaults[j]
        for n in kwonly:
            if n not in local:
                if f.kwdefaults.get(n, UNDEF) is UNDEF:
                    raise PyRaise(ExcV("TypeError", (f"{f.qual}: missing {n}",), node))
                local[n] = f.kwdefaults[n]
        return local

    def instantiate(self, cls, args, kw, node):
        if self.stub_for(cls.qual) is not None:
            r = self.stub_for(cls.qual)(self, cls, args, kw, node)
            if r is not NotImplemented:
                return r
        if any(n.endswith("Error") or n in ("Exception", "BaseException") for n in cls.mro_names()[1:]):
            x = ExcV(cls.name, tuple(args), None)
            x.cls = cls
            return x
        o = self.alloc("obj", {}, cls=cls, name=cls.name, origin=node)
        init = cls.lookup("__init__")
        if init is not UNDEF:
            self.call_func(init, [o] + list(args), kw, node)
        return o

    # ---------------------------------------------------------------- attributes
    def getattr(self, o, name, node=None, default=UNDEF):
        o = self.simplify(o)
        if isinstance(o, Phi):
            return self.branch(o.c, lambda: self.getattr(o.a, name, node, default), lambda: self.getattr(o.b, name, node, default))
        v = self.getattr0(o, name, node)
        if isinstance(v, Phi):
            v = self.simplify(v)
        if isinstance(v, Phi) and (v.a is UNDEF or v.b is UNDEF):
            miss = v.c if v.a is UNDEF else ONE - v.c
            good = v.b if v.a is UNDEF else v.a
            if default is not UNDEF:
                return mkphi(miss, default, good)
            self.mayraise(miss, ExcV("AttributeError", (name,), node))
            return good
        if v is UNDEF:
            if default is not UNDEF:
                return default
            raise PyRaise(ExcV("AttributeError", (f"{o!r}.{name}",), node))
        return v

    def hasattr(self, o, name):
        """0/1 Poly"""
        o = self.simplify(o)
        if isinstance(o, Phi):
            return o.c * self.hasattr(o.a, name) + (ONE - o.c) * self.hasattr(o.b, name)
        if isinstance(o, Opq):
            return fac(("bool", ("hasattr", o.key, name)))
        if isinstance(o, SymObj):
            v = self.symattr(o, name, None)
            if v is UNDEF:
                return ONE if o.cls is not None and o.cls.lookup(name) is not UNDEF else ZERO
            if isinstance(v, MaybeAttr):
                return v.c
            return ONE
        try:
            s0 = self.st
            v = self.getattr0(o, name, None, peek=True)
        except PyRaise:
            return ZERO
        if v is UNDEF:
            return ZERO
        if isinstance(v, Phi):
            def h(x):
                if x is UNDEF:
                    return ZERO
                if isinstance(x, Phi):
                    return x.c * h(x.a) + (ONE - x.c) * h(x.b)
                return ONE
            return self.assume(h(v))
        return ONE

    def bindm(self, f, o):
        if isinstance(f, FuncV):
            return Bound(f, o)
        if isinstance(f, StaticM):
            return f.f
        return f

    def getattr0(self, o, name, node, peek=False):
        if isinstance(o, Mock):
            return o.attr(self, name, node)
        if isinstance(o, Ref):
            h = self.h(o)
            if h.kind == "module":
                if name in h.d:
                    return h.d[name]
                sub = h.name + "." + name
                if self.is_pkg_module(sub) and sub in self.modrefs:
                    return self.modrefs[sub]
                return UNDEF
            if h.kind == "obj":
                if name == "__dict__":
                    return o
                if name == "__class__":
                    return h.cls
                if name in h.d:
                    self.note_read(o, name, node)
                    return h.d[name]
                f = h.cls.lookup(name) if h.cls is not None else UNDEF
                if f is UNDEF:
                    return UNDEF
                if isinstance(f, Prop):
                    if peek:
                        return f
                    return self.call(f.fget, [o], {}, node)
                if isinstance(f, ClassM):
                    return Bound(f.f, h.cls)
                return self.bindm(f, o)
            if h.kind in ("list", "dict", "set"):
                if name in LISTATTRS.get(h.kind, ()):
                    return Meth(o, name)
                if name in ("__len__", "__iter__", "__getitem__", "__contains__"):
                    return Meth(o, name)
                return UNDEF
        if isinstance(o, SymObj):
            v = self.symattr(o, name, node)
            if isinstance(v, MaybeAttr):
                if peek:
                    return v
                self.mayraise(ONE - v.c, ExcV("AttributeError", (name,), node))
                return v.v
            if v is not UNDEF:
                return v
            f = o.cls.lookup(name) if o.cls is not None else UNDEF
            if f is UNDEF:
                return UNDEF
            if isinstance(f, Prop):
                if peek:
                    return f
                return self.call(f.fget, [o], {}, node)
            return self.bindm(f, o)
        if isinstance(o, SuperV):
            for b in o.cls.bases:
                if isinstance(b, ClassV):
                    f = b.lookup(name)
                    if f is not UNDEF:
                        return self.bindm(f, o.self_)
            return CallableV(lambda it, a, k, n: None, "super." + name)
        if isinstance(o, ClassV):
            if name == "__name__":
                return o.name
            f = o.lookup(name)
            if isinstance(f, StaticM):
                return f.f
            if isinstance(f, ClassM):
                return Bound(f.f, o)
            return f
        if isinstance(o, FuncV):
            if name == "__name__":
                return (o.wraps or o).node.name if not isinstance(o.node, ast.Lambda) else "<lambda>"
            if name == "__doc__":
                return Opq(f"doc({(o.wraps or o).qual})")
            if name in o.attrs:
                return o.attrs[name]
            if name == "__wrapped__" and o.wraps is not None:
                return o.wraps
            return UNDEF
        if isinstance(o, Ext):
            return self.models.ext_attr(self, o, name, node)
        if isinstance(o, T):
            return self.models.tensor_attr(self, o, name, node)
        if isinstance(o, (str, SStr)):
            return Meth(o, name)
        if isinstance(o, (Tup, SymSeq, RangeV)):
            if name in ("__len__", "index", "count", "__iter__", "__getitem__") or (isinstance(o, SymSeq) and name in LISTATTRS["list"]):
                return Meth(o, name)
            return UNDEF
        if isinstance(o, SymDict):
            return Meth(o, name)
        if isinstance(o, Opq):
            return Opq(f"{o.key}.{name}", o.why)
        if isinstance(o, AtIdx):
            if name not in ("set", "add", "multiply", "get"):
                return UNDEF
            return CallableV(lambda it, a, k, n, o=o, name=name: it.at_update(o, name, a, n), f"{o.key}.{name}")
        if isinstance(o, SliceV):
            return {"start": o.a, "stop": o.b, "step": o.s}.get(name, UNDEF)
        if isinstance(o, CallableV):
            return UNDEF
        if isinstance(o, ExcV):
            return Opq(f"exc.{name}")
        return UNDEF

    def note_read(self, o, name, node):
        pass

    def symattr(self, o, name, node):
        """attribute of a family object, with the overlay of writes"""
        v = o.schema(self, o, name)
        for w in self.st.heap["sym"].d:
            if isinstance(w, Guarded):
                g, w = w.c, w.v
            else:
                g = ONE
            fam, idx, nm, val = w.items
            if fam != o.fam or nm != name:
                continue
            if o.idx is None and idx is None or skey(idx) == skey(o.idx):
                c = ONE
            elif idx is None or o.idx is None:
                continue
            else:
                c = cmpp("eq", idx_value(idx) - idx_value(o.idx))
            c = self.assume(c * g)
            k = c.const()
            if k is not None:
                if k:
                    v = val
                continue
            v = mkphi(c, val, v)
        return v

    def setattr(self, o, name, v, node):
        o = self.simplify(o)
        if isinstance(o, Phi):
            self.branch(o.c, lambda: self.setattr(o.a, name, v, node), lambda: self.setattr(o.b, name, v, node))
            return
        if isinstance(o, Ref):
            h = self.h(o)
            if h.kind in ("obj", "module"):
                self.event("attr_write", node, obj=o, cls=h.cls.name if h.cls else h.name, attr=name, value=v)
                cut = self.cuts.get((h.cls.name if h.cls else "", name))
                if cut is not None:
                    nv = cut(self, v, o)
                    if nv is not None:
                        self.defs[name] = v
                        if isinstance(v, T) and isinstance(nv, T):
                            self.replace_alias(v, nv)
                        v = nv
                if self.lets is not None:
                    self.name_value(v)
                self.hw(o).d[name] = v
                return
        if isinstance(o, SymObj):
            self.event("attr_write", node, obj=o, cls=o.cls.name if o.cls else o.fam, attr=name, value=v)
            s = self.hw(Ref("sym"))
            s.d = s.d + [Tup([o.fam, o.idx, name, v])]
            return
        if isinstance(o, FuncV):
            o.attrs[name] = v
            return
        if isinstance(o, ClassV):
            self.event("attr_write", node, obj=o, cls=o.name, attr=name, value=v)
            o.attrs[name] = v
            return
        if isinstance(o, Ext):
            self.event("ext_write", node, path=o.path + "." + name, value=v)
            h = self.st.heap.get("ext")
            d = dict(h.d) if h else {}
            d[o.path + "." + name] = v
            self.st.heap["ext"] = HObj("dict", d)
            return
        self.event("attr_write", node, obj=o, cls="?", attr=name, value=v)

    def replace_alias(self, old, new):
        for k, o in list(self.st.heap.items()):
            if isinstance(o.d, dict) and any(x is old for x in o.d.values()):
                o2 = o.copy()
                for n, x in o2.d.items():
                    if x is old:
                        o2.d[n] = new
                self.st.heap[k] = o2

    def delattr(self, o, name, node):
        o = self.simplify(o)
        if isinstance(o, Ref) and self.h(o).kind == "obj":
            h = self.hw(o)
            cur = h.d.get(name, UNDEF)
            if cur is UNDEF:
                raise PyRaise(ExcV("AttributeError", (name,), node))
            self.event("attr_delete", node, obj=o, cls=h.cls.name, attr=name)
            if isinstance(cur, Phi):
                c = self.hasattr(o, name)
                self.mayraise(ONE - c, ExcV("AttributeError", (name,), node))
                h = self.hw(o)
            del h.d[name]
            return
        if isinstance(o, SymObj):
            self.event("attr_delete", node, obj=o, cls=o.cls.name, attr=name)
            s = self.hw(Ref("sym"))
            s.d = s.d + [Tup([o.fam, o.idx, name, UNDEF])]
            return
        self.event("attr_delete", node, obj=o, cls="?", attr=name)

    # ------------------------------------------------------------------ indexing
    def to_spec(self, idx):
        out = []
        for x in (idx.items if isinstance(idx, Tup) else [idx]):
            x = self.simplify(x)
            if x is None or x is Ellipsis:
                out.append(x)
            elif isinstance(x, SliceV):
                b = []
                for y in (x.a, x.b, x.s):
                    y = self.simplify(y)
                    if y is None:
                        b.append(None)
                    elif isinstance(y, T) and y.rank == 0:
                        b.append(y.p)
                    else:
                        raise Unsupported(f"slice bound {y!r}")
                out.append(Sl(*b))
            elif isinstance(x, bool):
                raise Unsupported("bool index")
            elif isinstance(x, T):
                if x.rank and (x.dt == "b" or x.kind == "bool"):
                    raise Unsupported("mask index")
                out.append(x if x.rank else x.p)
            elif isinstance(x, (Tup, Ref, SymSeq)):
                t = self.models.to_T(self, x)
                out.append(t)
            else:
                raise Unsupported(f"index {x!r}")
        return out

    def getitem(self, o, idx, node=None):
        o = self.simplify(o)
        idx = self.simplify(idx)
        if isinstance(o, Phi):
            return self.branch(o.c, lambda: self.getitem(o.a, idx, node), lambda: self.getitem(o.b, idx, node))
        if isinstance(idx, Phi):
            return self.branch(idx.c, lambda: self.getitem(o, idx.a, node), lambda: self.getitem(o, idx.b, node))
        if isinstance(o, T):
            if o.rank == 0 and not (isinstance(idx, Tup) and len(idx.items) == 0) and idx is not None and idx is not Ellipsis:
                raise PyRaise(ExcV("IndexError", ("0-d",), node))
            try:
                spec = self.to_spec(idx)
                r = tindex(o, spec)
            except (Unsupported, ShapeError) as e:
                return self.opaque(f"getitem({o.key},{vkey(idx)})", f"index: {e}", node)
            if any(isinstance(s, T) and s.rank for s in spec):
                r.dt = o.dt
                return r
            return self.view(o, r)
        if isinstance(o, Tup):
            return self.seq_get(list(o.items), idx, node, Tup)
        if isinstance(o, str):
            r = self.seq_get(list(o), idx, node, list)
            if isinstance(r, list):
                return "".join(r)
            return r
        if isinstance(o, Ref):
            h = self.h(o)
            if h.kind == "list":
                if isinstance(h.d, list):
                    r = self.seq_get(h.d, idx, node, list)
                    return self.new_list(r) if isinstance(r, list) else r
                if isinstance(h.d, SymSeq):
                    r = self.symseq_get(h.d, idx, node)
                    return self.alloc("list", r) if isinstance(r, SymSeq) else r
                if isinstance(h.d, Phi):
                    return self.getitem(h.d, idx, node)
                return self.opaque(f"item({vkey(h.d)},{vkey(idx)})", "list content", node)
            if h.kind in ("dict", "module"):
                return self.dict_get(o, idx, node)
            f = h.cls.lookup("__getitem__") if h.cls else UNDEF
            if f is not UNDEF:
                return self.call_func(f, [o, idx], {}, node)
        if isinstance(o, SymSeq):
            return self.symseq_get(o, idx, node)
        if isinstance(o, list):
            return self.seq_get(o, idx, node, list)
        if isinstance(o, RangeV):
            if isinstance(idx, T):
                k = idx.p
                n = k.as_int()
                if n is not None and n < 0:
                    k = o.n + n
                    self.mayraise(cmpp("lt", o.n + n), ExcV("IndexError", ("range",), node))
                else:
                    self.mayraise(cmpp("lt", o.n - k - 1), ExcV("IndexError", ("range",), node))
                return o.at(k)
        if isinstance(o, SymDict):
            return self.dict_get(o, idx, node)
        if isinstance(o, AtV):
            return AtIdx(o.t, idx)
        if isinstance(o, IterV):
            raise PyRaise(ExcV("TypeError", ("not subscriptable",), node))
        if isinstance(o, (Opq, Ext)):
            return Opq(f"{vkey(o)}[{vkey(idx)}]", getattr(o, "why", ""))
        if o is None or isinstance(o, (FuncV, bool)):
            raise PyRaise(ExcV("TypeError", (f"{o!r} not subscriptable",), node))
        if isinstance(o, HeadList):
            return self.opaque(f"item({o.key},{vkey(idx)})", "loop list", node)
        return self.opaque(f"getitem({vkey(o)},{vkey(idx)})", "getitem", node)

    def seq_get(self, items, idx, node, ctor):
        if isinstance(idx, SliceV):
            b = [as_const(x) if x is not None else None for x in (idx.a, idx.b, idx.s)]
            for x, y in zip(b, (idx.a, idx.b, idx.s)):
                if x is None and y is not None:
                    return self.opaque(f"slice({vkey(items)},{vkey(idx)})", "symbolic slice of a list", node)
            return ctor(items[slice(*b)])
        if isinstance(idx, bool):
            idx = num(int(idx))
        if not isinstance(idx, T):
            raise PyRaise(ExcV("TypeError", ("index",), node))
        c = as_const(idx)
        if c is not None:
            try:
                r = items[c]
            except IndexError:
                raise PyRaise(ExcV("IndexError", (), node))
            except TypeError:
                raise PyRaise(ExcV("TypeError", (), node))
            if isinstance(r, Guarded):
                return self.opaque(f"guarded({vkey(items)},{c})", "guarded list", node)
            return r
        if any(isinstance(x, Guarded) for x in items) or not items:
            return self.opaque(f"idx({vkey(items)},{vkey(idx)})", "list index", node)
        return self.pick(items, idx.p)

    def symseq_get(self, s, idx, node):
        if isinstance(idx, SliceV):
            a = idx.a.p if isinstance(idx.a, T) else None
            b = idx.b.p if isinstance(idx.b, T) else None
            st = as_const(idx.s) if idx.s is not None else None
            if idx.s is None or st == 1:
                lo = P(0) if a is None else _norm_bound(a, s.n)
                hi = s.n if b is None else _norm_bound(b, s.n)
                return SymSeq(hi - lo, s.K, vsubst(s.tmpl, {s.K: nidx(("e", A.shift(idx_value(s.K) + lo, 0, 1)))}))
            if st == -1 and a is None and b is None:
                return SymSeq(s.n, s.K, vsubst(s.tmpl, {s.K: nidx(("e", A.shift(s.n - 1 - idx_value(s.K), 0, 1)))}))
            return self.opaque(f"slice({vkey(s)},{vkey(idx)})", "slice", node)
        if not isinstance(idx, T):
            raise PyRaise(ExcV("TypeError", ("index",), node))
        k = _norm_bound(idx.p, s.n)
        return s.at(k)

    def dict_get(self, o, key, node, default=UNDEF):
        k = self.dkey(key)
        if isinstance(o, SymDict):
            self.event("dict_get", node, obj=o, dict_key=key)
            v, present = o.tmpl(self, o, key)
            # overlay of stores done in this analysis
            for w in self.st.heap["sym"].d:
                if isinstance(w, Guarded):
                    continue
                fam, wk, nm, val = w.items
                if fam == "dict:" + o.name and vkey(wk) == vkey(key):
                    return val
            if default is not UNDEF:
                return mkphi(present, v, default)
            self.mayraise(ONE - present, ExcV("KeyError", (), node))
            return v
        h = self.h(o)
        if not isinstance(h.d, dict):
            return self.opaque(f"dget({vkey(h.d)},{vkey(key)})", "dict", node)
        if isinstance(k, (T, SStr, Opq, Tup)):
            for kk, vv in h.d.items():
                if vkey(kk) == vkey(k):
                    return vv
            self.event("dict_get", node, obj=o, dict_key=key)
            if not h.d:
                if default is not UNDEF:
                    return default
                raise PyRaise(ExcV("KeyError", (), node))
            # symbolic key on a concrete dict
            res, anyc = None, ZERO
            if isinstance(k, T):
                for kk, vv in h.d.items():
                    kp = P(kk) if isinstance(kk, (int, float)) and not isinstance(kk, bool) else kk.p if isinstance(kk, T) else None
                    if kp is None:
                        continue
                    c = cmpp("eq", k.p - kp)
                    anyc = anyc + c - anyc * c
                    res = vv if res is None else mkphi(c, vv, res)
                self.mayraise(ONE - anyc, ExcV("KeyError", (), node))
                return res
            return self.opaque(f"dget({h.name}{o.id},{vkey(key)})", "symbolic key", node)
        v = h.d.get(k, UNDEF)
        v = self.simplify(v) if isinstance(v, Phi) else v
        if isinstance(v, Phi) and (v.a is UNDEF or v.b is UNDEF):
            miss = v.c if v.a is UNDEF else ONE - v.c
            good = v.b if v.a is UNDEF else v.a
            if default is not UNDEF:
                return mkphi(miss, default, good)
            self.mayraise(miss, ExcV("KeyError", (k,), node))
            return good
        if v is UNDEF:
            if any(isinstance(x, (T, SStr, Opq)) for x in h.d):
                return self.opaque(f"dget({o.id},{vkey(key)})", "dict with symbolic keys", node)
            if default is not UNDEF:
                return default
            raise PyRaise(ExcV("KeyError", (k,), node))
        return v

    def setitem(self, o, idx, v, node):
        o = self.simplify(o)
        if isinstance(o, Phi):
            self.branch(o.c, lambda: self.setitem(o.a, idx, v, node), lambda: self.setitem(o.b, idx, v, node))
            return
        idx = self.simplify(idx)
        if self.lets is not None and isinstance(o, Ref):
            self.name_value(v)
        if isinstance(o, T):
            if self.backend == "jax":
                self.event("jax_setitem", node, target=o)
            val = self.models.to_T(self, v)
            try:
                if not isinstance(val, T):
                    raise Unsupported("value")
                new = self.tset_gen(o, self.to_spec(idx), val)
            except (Unsupported, ShapeError) as e:
                self.opaque(f"setitem({o.key})", f"setitem: {e}", node)
                new = T(o.shape, app("opaque_set", (o, vkey(idx), vkey(v)), *o.shape).p, dt=o.dt, st=o.st)
            new.dt, new.kind = o.dt, o.kind
            self.event("setitem", node, target=o, index=idx, value=val)
            self.inplace(o, new, node)
            return
        if isinstance(o, Ref):
            h = self.h(o)
            if h.kind == "list":
                c = as_const(idx) if isinstance(idx, T) else None
                self.event("list_write", node, obj=o, value=v)
                hw = self.hw(o)
                if isinstance(hw.d, list) and c is not None:
                    try:
                        hw.d[c] = v
                    except IndexError:
                        raise PyRaise(ExcV("IndexError", (), node))
                else:
                    hw.d = Opq(f"listset({vkey(h.d)},{vkey(idx)},{vkey(v)})", "list store")
                return
            if h.kind in ("dict", "module"):
                k = self.dkey(idx)
                self.event("dict_write", node, obj=o, dict_key=idx, value=v)
                hw = self.hw(o)
                if isinstance(k, (T, SStr, Opq, Tup)):
                    for kk in hw.d:
                        if vkey(kk) == vkey(k):
                            hw.d[kk] = v
                            return
                hw.d[k] = v
                return
            f = h.cls.lookup("__setitem__") if h.cls else UNDEF
            if f is not UNDEF:
                self.call_func(f, [o, idx, v], {}, node)
                return
        if isinstance(o, SymDict):
            self.event("dict_write", node, obj=o, dict_key=idx, value=v)
            s = self.hw(Ref("sym"))
            s.d = s.d + [Tup(["dict:" + o.name, idx, "", v])]
            return
        if isinstance(o, (Tup, str)) or o is None:
            raise PyRaise(ExcV("TypeError", ("item assignment",), node))
        self.event("opaque_write", node, obj=o, dict_key=idx, value=v)

    def tset_gen(self, t, spec, val):
        """assignment with scalar, slice and index-array subscripts"""
        spec = [s.p if isinstance(s, T) and s.rank == 0 else s for s in spec]
        arrs = [s for s in spec if isinstance(s, T)]
        if not arrs:
            return tset(t, spec, val)
        # index arrays a_1..a_r (same 1-d shape m): t[a_1[b],..,a_r[b], rest] = val[b, rest]
        n_ax = sum(1 for s in spec if s is not None and s is not Ellipsis)
        if any(s is None or s is Ellipsis for s in spec):
            # only trailing None's (set_index adds one): they add singleton axes to val
            while spec and spec[-1] is None:
                spec = spec[:-1]
                if val.rank > 0 and val.shape[-1].as_int() == 1:
                    val = tindex(val, [Ellipsis, 0])
            if any(s is None or s is Ellipsis for s in spec):
                raise Unsupported("newaxis with index arrays")
        spec = spec + [Sl()] * (t.rank - len(spec))
        if any(a.rank != 1 for a in arrs):
            raise Unsupported("index array rank")
        m = arrs[0].shape[0]
        ps = [s for s in spec if isinstance(s, (T, Poly, int))]
        if any(isinstance(s, Sl) and not (s.a is None and s.b is None and s.s is None) for s in spec):
            raise Unsupported("slice with index array")
        # indicator(b, axes) = prod delta(f_ax, a_ax[b])
        B = ("f", "BB")
        ind = ONE
        rest_axes = []
        for ax, s in enumerate(spec):
            if isinstance(s, T):
                q = psub_free(s.p, {("f", 0): B})
                ind = pmul(ind, fac(("delta", ("f", ax), nidx(("e", A.shift(q, 0, 1))))))
            elif isinstance(s, (Poly, int)):
                ind = pmul(ind, fac(("delta", ("f", ax), nidx(("e", A.shift(_norm_bound(P(s), t.shape[ax]), 0, 1))))))
            else:
                rest_axes.append(ax)
        # value with axes (b, rest...)
        full = 1 + len(rest_axes)
        mp = {}
        off = full - val.rank
        for k in range(val.rank):
            tgt = B if off + k == 0 else ("f", rest_axes[off + k - 1])
            mp[("f", k)] = ("c", 0) if val.shape[k].as_int() == 1 else tgt
        vp = psub_free(val.p, mp)

        def sumB(p):
            r = t.rank
            return tsum(T(tuple(t.shape) + (m,), psub_free(p, {B: ("f", r)})), r).p
        tot_ind = sumB(ind)
        return T(t.shape, t.p - pmul(t.p, tot_ind) + sumB(pmul(ind, vp)))

    def at_update(self, o, name, a, node):
        """jax functional update x.at[idx].set(v)"""
        t = o.t
        cur = None
        if name == "get":
            return self.getitem(t, o.idx, node)
        val = self.models.to_T(self, a[0])
        try:
            spec = self.to_spec(o.idx)
            if val is None:
                raise Unsupported("value")
            if name == "add":
                val = tadd(tindex(t, spec), val)
            elif name == "multiply":
                val = tmul(tindex(t, spec), val)
            new = self.tset_gen(t, spec, val)
        except (Unsupported, ShapeError) as e:
            self.opaque(f"at({t.key})", f"at[].{name}: {e}", node)
            new = T(t.shape, app("opaque_set", (t, vkey(o.idx), vkey(a[0])), *t.shape).p)
        return T(new.shape, new.p, dt=t.dt)

    def delitem(self, o, idx, node):
        o = self.simplify(o)
        if isinstance(o, Ref) and self.h(o).kind in ("dict", "module"):
            h = self.hw(o)
            k = self.dkey(idx)
            if h.d.get(k, UNDEF) is UNDEF:
                raise PyRaise(ExcV("KeyError", (k,), node))
            self.event("dict_delete", node, obj=o, dict_key=k)
            v = h.d[k]
            if isinstance(v, Phi) and (v.a is UNDEF or v.b is UNDEF):
                miss = v.c if v.a is UNDEF else ONE - v.c
                self.mayraise(miss, ExcV("KeyError", (k,), node))
                h = self.hw(o)
            del h.d[k]
            return
        self.event("opaque_write", node, obj=o, dict_key=idx, value=None)

    def list_extend(self, ref, v, node):
        h = self.hw(ref)
        self.event("list_write", node, obj=ref, value=v)
        k, it = self.iterate(v, node)
        if isinstance(h.d, list) and k == "const":
            h.d = h.d + it
        elif isinstance(h.d, HeadList) and k == "const":
            h.d = HeadList(h.d.nm, h.d.base, h.d.extra + it)
        else:
            h.d = Opq(f"extend({vkey(h.d)},{vkey(v)})", "extend")

    def list_append(self, ref, v, node):
        if self.lets is not None:
            self.name_value(v)
        h = self.hw(ref)
        self.event("list_write", node, obj=ref, value=v)
        if isinstance(h.d, list):
            h.d = h.d + [v]
        elif isinstance(h.d, HeadList):
            h.d = HeadList(h.d.nm, h.d.base, h.d.extra + [v])
        elif isinstance(h.d, SymSeq):
            h.d = HeadList("seq", h.d, [v])
        else:
            h.d = Opq(f"append({vkey(h.d)},{vkey(v)})", "append")

    # ------------------------------------------------------------------ operators
    def binop(self, op, a, b, node):
        a, b = self.simplify(a), self.simplify(b)
        if isinstance(a, Phi):
            return self.branch(a.c, lambda: self.binop(op, a.a, b, node), lambda: self.binop(op, a.b, b, node))
        if isinstance(b, Phi):
            return self.branch(b.c, lambda: self.binop(op, a, b.a, node), lambda: self.binop(op, a, b.b, node))
        return self.models.binop(self, op, a, b, node)

    def compare(self, op, a, b, node):
        a, b = self.simplify(a), self.simplify(b)
        if isinstance(a, Phi):
            return self.branch(a.c, lambda: self.compare(op, a.a, b, node), lambda: self.compare(op, a.b, b, node))
        if isinstance(b, Phi):
            return self.branch(b.c, lambda: self.compare(op, a, b.a, node), lambda: self.compare(op, a, b.b, node))
        return self.models.compare(self, op, a, b, node)

    # ------------------------------------------------------------------ helpers
    def get(self, path):
        """resolve 'nannos.simulation.Simulation' in the evaluated package"""
        parts = path.split(".")
        for k in range(len(parts), 0, -1):
            m = ".".join(parts[:k])
            if m in self.program.modules:
                v = self.load(m)
                for p in parts[k:]:
                    if isinstance(v, Ref):
                        v = self.h(v).d.get(p, UNDEF)
                    elif isinstance(v, ClassV):
                        v = v.lookup(p)
                    else:
                        v = UNDEF
                    if v is UNDEF:
                        raise AnalysisError(f"anchor vanished: {path}")
                return v
        raise AnalysisError(f"anchor vanished: {path}")

    def run(self, f, *args, **kw):
        """analyse a call; returns the value (None if every path raises: see .dead)"""
        self.dead = False
        try:
            return self.call(f, list(args), kw, None)
        except PyRaise as e:
            self.register_raise(e.exc)
            self.dead = True
        except Dead:
            self.dead = True
        return None


class Frame:
    def __init__(self, ref, mod, parent, qual, cls=None):
        self.ref, self.mod, self.parent, self.qual, self.cls = ref, mod, parent, qual, cls
        self.globals, self.nonlocals = set(), set()
        self.is_module = ref == mod
        self.is_class = False

    @property
    def id(self):
        return self.ref.id


class Guarded:
    def __init__(self, c, v):
        self.c, self.v = c, v
        self.key = f"G({c.key},{vkey(v)})"


class FilterSeq:
    def __init__(self, n, K, tmpl, filt):
        self.n, self.K, self.tmpl, self.filt = n, K, tmpl, filt


class HeadList:
    """list carried around a loop: unknown prefix + appended items"""
    def __init__(self, nm, base, extra):
        self.nm, self.base, self.extra = nm, base, list(extra)

    @property
    def key(self):
        return f"HL({self.nm},{vkey(self.base)},{vkey(tuple(self.extra))})"


class MaybeAttr:
    """attribute present iff c"""
    def __init__(self, c, v):
        self.c, self.v = c, v
        self.key = f"maybe({c.key},{vkey(v)})"


class StarSeq:
    def __init__(self, v):
        self.v = v
        self.key = "*" + vkey(v)


class SuperV:
    def __init__(self, self_, cls):
        self.self_, self.cls = self_, cls
        self.key = "super"


class Meth:
    """bound method of a builtin value"""
    def __init__(self, obj, name):
        self.obj, self.name = obj, name
        self.key = f"meth:{vkey(obj)}.{name}"


class Mock(Opq):
    """an object of a library with a meaning known to one check"""

    def attr(self, it, name, node):
        raise AnalysisError(f"attribute {name} of {self.key[:60]}")


class CallableV:
    def __init__(self, fn, key):
        self.fn, self.key = fn, key


LISTATTRS = {
    "list": {"append", "extend", "insert", "pop", "remove", "sort", "reverse", "copy", "index", "count", "clear"},
    "dict": {"get", "items", "keys", "values", "copy", "update", "pop", "setdefault", "clear", "popitem"},
    "set": {"add", "discard", "remove", "update", "copy", "union", "pop", "clear"},
}

PYBUILTINS = set("""abs all any bool callable complex dict dir divmod enumerate filter float format frozenset getattr
globals hasattr hash id input int isinstance issubclass iter len list locals map max min next object open ord pow
print property range repr reversed round set setattr delattr slice sorted staticmethod classmethod str sum super tuple type vars zip
Exception ValueError TypeError KeyError IndexError AttributeError RuntimeError NotImplementedError
ModuleNotFoundError ImportError StopIteration AssertionError BaseException ZeroDivisionError NameError
UserWarning Warning DeprecationWarning RuntimeWarning FutureWarning SyntaxWarning PendingDeprecationWarning
KeyboardInterrupt SystemExit OSError IOError FileNotFoundError PermissionError EOFError TimeoutError UnicodeError GeneratorExit bytes bytearray memoryview exec eval compile ascii bin hex oct format ArithmeticError LookupError OverflowError RecursionError
__import__ __name__ NotImplemented Ellipsis __file__""".split())


def _targets(x):
    out = set()
    ts = x.targets if isinstance(x, ast.Assign) else [x.target]
    for t in ts:
        for n in ast.walk(t):
            if isinstance(n, ast.Name):
                out.add(n.id)
    return out


def contains_head(v, rid):
    """does the value depend on a loop-carried head of loop rid?"""
    pre = f"head{rid}:"
    return _has(v, pre)


def _has(v, pre):
    if isinstance(v, T):
        return any(n.startswith(pre) for n in atoms_all(v))
    if isinstance(v, Poly):
        return any(n.startswith(pre) for n in atoms_all(v))
    return pre in vkey(v)


def atoms_all(x):
    k = x.key
    return {k[i:k.find("'", i)] for i in _finditer(k, "head")}


def _finditer(k, s):
    i = k.find(s)
    while i >= 0:
        yield i
        i = k.find(s, i + 1)


def vsubst_d(d, mp):
    if isinstance(d, dict):
        return {k: vsubst(v, mp) for k, v in d.items()}
    if isinstance(d, list):
        return [vsubst(v, mp) for v in d]
    return vsubst(d, mp)


from . import models as _models     # noqa: E402
Interp.models = _models
Interp.GuardedT = Guarded
Interp.PyRaise = PyRaise
Interp.AnalysisError = AnalysisError

