"""Value-graph construction: abstract interpretation of resolved C++ function bodies into terms.

Structured dataflow: one pass over each statement, states joined at merges (no path enumeration), loops closed into
comprehensions / recurrences, repository helpers inlined, everything else an uninterpreted operator.
"""
from fractions import Fraction
from decimal import Decimal
import re

from terms import *
from modular import FRAME, MODULAR
import terms as T


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------------------------------------ program
class Program:
    def __init__(self):
        self.functions = {}
        self.by_q = {}
        self.records = {}
        self.enums = {}
        self.globals = {}
        self.overriders = {}
        self.derived = {}
        self.bindings = {}

    def add_unit(self, u, spec=False):
        types = u["types"]
        for k, f in u["functions"].items():
            f["types"] = types
            f["key"] = k
            if k in self.functions and not spec:
                continue
            self.functions[k] = f
            self.by_q.setdefault(f["q"], []).append(f)
        for k, r in u["records"].items():
            r["types"] = types
            self.records.setdefault(k, r)
        for k, e in u["enums"].items():
            self.enums.setdefault(k, e)
            pre = k.rsplit("::", 1)[0]
            T.ENUMS.setdefault(k, [pre + "::" + c["n"] if "::" in k else c["n"] for c in e["c"]])
        for k, g in u["globals"].items():
            if g:
                g["types"] = types
                self.globals.setdefault(k, g)

    def finish(self):
        for k, f in self.functions.items():
            for o in f.get("overrides", []):
                self.overriders.setdefault(o, set()).add(k)
        for k, r in self.records.items():
            for b in r["bases"]:
                self.derived.setdefault(b, set()).add(k)
        # indirect overriders
        changed = True
        while changed:
            changed = False
            for o, s in list(self.overriders.items()):
                for x in list(s):
                    for y in self.overriders.get(x, ()):
                        if y not in s:
                            s.add(y)
                            changed = True

    def field(self, cls, name):
        r = self.records.get(cls)
        if not r:
            return None
        for f in r["fields"]:
            if f["n"] == name:
                return r, f
        for b in r["bases"]:
            x = self.field(b, name)
            if x:
                return x
        return None

    def all_fields(self, cls):
        r = self.records.get(cls)
        if not r:
            return []
        out = []
        for b in r["bases"]:
            out += self.all_fields(b)
        return out + [(r, f) for f in r["fields"]]


# ------------------------------------------------------------------------------------------------ state
def blind(t):
    """t with every reference to an object created here replaced by one symbol (an order of terms that does not depend on locations)"""
    return rebuild(t, lambda x: mk("sym", "cell") if x.op == "cell" else None if x.cell else x, {}) if t.cell else t


class State:
    __slots__ = ("store", "pc")

    def __init__(self, store=None, pc=TRUE):
        self.store = {} if store is None else store
        self.pc = pc

    def copy(self):
        return State(dict(self.store), self.pc)


INVARIANT = {("placo::kinematics::KinematicsSolver", "N"): ("&robot", "model", "nv"),
             ("placo::dynamics::DynamicsSolver", "N"): ("&robot", "model", "nv")}


# calls whose result depends on the solution of a problem solved before
READS_SOLUTION = {"placo::humanoid::LIPM::get_trajectory", "placo::problem::Integrator::value",
                  "placo::problem::Integrator::get_trajectory"}

STD_EXC = {
    "std::runtime_error": ["std::exception"], "std::logic_error": ["std::exception"], "std::invalid_argument": ["std::logic_error"],
    "std::out_of_range": ["std::logic_error"], "std::domain_error": ["std::logic_error"], "std::length_error": ["std::logic_error"],
    "std::overflow_error": ["std::runtime_error"], "std::range_error": ["std::runtime_error"],
    "placo::problem::QPError": ["std::runtime_error"],
}


class Exit:
    __slots__ = ("kind", "pc", "store", "val", "line")

    def __init__(self, kind, pc, store, val=None, line=0):
        self.kind, self.pc, self.store, self.val, self.line = kind, pc, store, val, line


class Frame:
    def __init__(self, fn, this=None, parent=None):
        self.fn = fn
        self.types = fn["types"]
        self.this = this  # pointer term
        self.env = {}  # var id -> pointer term
        self.exits = []
        self.parent = parent
        self.depth = 0 if parent is None else parent.depth + 1
        self.ret_ref = False


_loc = [0]


def new_loc(tag="v"):
    _loc[0] += 1
    return mk("loc", _loc[0])


def ptr(root, path):
    return mk("addr", root, path) if path else root


def unptr(p):
    if p.op == "addr":
        return p.args[0], p.args[1]
    return p, ()


def extend(p, acc):
    """pointer to a sub-object"""
    if p.op == "ite":
        return lift(("ext", acc), lambda x: extend(x, acc), (p,))
    if p.op == "iter":
        c, i = p.args
        r, path = unptr(c)
        return mk("addr", r, path + (("i", i), acc))
    r, path = unptr(p)
    return mk("addr", r, path + (acc,))


def acc_get(t, acc):
    k = acc[0]
    if k == "f":
        return fld(t, acc[1])
    if k == "i":
        return idx(t, acc[1])
    if k == "n":
        return lift("nth", lambda c, i: mk("nth", c, i), (t, acc[1]))
    if k == "r":
        r = acc[1]
        if len(r) == 4 and r[2] is ONE and r[3] is ONE:
            return el(t, r[0], r[1])
        return blk(t, *r)
    if k == "lin":
        return lin(t)
    if k == "trs":
        return trs(t)
    if k == "tr":
        return tr(t)
    if k == "sel":
        return sel(t, acc[1], acc[2])
    if k == "diag":
        return lift("diag", lambda x: mk("app", "diagonal", x), (t,))
    if k == "affm":
        return aff_matrix(t)
    if k == "array":
        return lift("array", lambda x: mk("app", "array", x), (t,))
    if k == "opt":
        return t
    raise Unsupported("acc " + str(k))


def acc_set(t, acc, v):
    k = acc[0]
    if k == "f":
        return rec(t, {acc[1]: v})
    if k == "i":
        return set_idx(t, acc[1], v)
    if k == "n":
        return lift("setnth", lambda c, i, x: mk("app", "set_nth", c, i, x), (t, acc[1], v))
    if k == "r":
        r = acc[1]
        if t.op == "ite":
            return lift("setr", lambda tt, vv, *rr: set_region(tt, rr, vv), (t, v) + tuple(r))
        if any(x.op == "ite" for x in r):
            return lift(("setr2", t), lambda vv, *rr: set_region(t, rr, vv), (v,) + tuple(r))
        return set_region(t, r, v)
    if k == "lin":
        return aff_norm(v, trs(t))
    if k == "trs":
        return aff_norm(lin(t), v)
    if k == "tr":
        return tr(v)
    if k == "diag":
        return lift("setdiag", lambda a, b: mk("app", "set_diagonal", a, b), (t, v))
    if k == "sel":
        return lift("setsel", lambda a, i, j, b: mk("app", "set_sel", a, i, j, b), (t, acc[1], acc[2], v))
    if k == "affm":
        return aff_of(v)
    if k == "array":
        return lift("unarray", lambda x: x.args[1] if x.op == "app" and x.args[0] == "array" else x, (v,))
    if k == "opt":
        return v
    raise Unsupported("set acc " + str(k))


def set_idx(c, i, v):
    if c.op == "listlit":
        k = T._const(i)
        if k is not None and 0 <= k < len(c.args[0]):
            a = list(c.args[0])
            a[k] = v
            return mk("listlit", tuple(a))
    if c.op == "seq":
        base, ents = c.args
        n = size(base)
        for j, (g, bs, x) in enumerate(ents):
            if g is not TRUE or bs:
                break
            if n is i:
                e = list(ents)
                e[j] = (g, bs, v)
                return mk("seq", base, tuple(e))
            n = add2(n, ONE)
        # last element
        if ents and not ents[-1][1] and ents[-1][0] is TRUE and size(c) is add2(i, ONE):
            e = list(ents)
            e[-1] = (TRUE, (), v)
            return mk("seq", base, tuple(e))
    if c.op == "ite":
        return lift(("setidx", v), lambda cc, ii: set_idx(cc, ii, v), (c, i))
    return wr(c, [(TRUE, (), (i,), v)])


def type_default(prog, types, ti):
    pass


PURE_METHODS_MUT = {"push_back", "emplace_back", "clear", "erase", "insert", "resize", "pop_back", "reserve", "setZero"}


class Engine:
    def __init__(self, prog, opaque=None, limit=400000, theory=False, spec_map=None):
        self.no_invariant = None
        self.p = prog
        self.spec_map = spec_map or {}
        self.dontcare = FALSE
        self.opaque = dict(opaque or {})
        self.used_modular = self.used_theory = False
        self.theory = theory
        if theory:
            from theory import THEORY
            for k, v in THEORY.items():
                self.opaque.setdefault(k, v)
        self.limit = limit
        self.inline_depth = 25
        self.lambdas = {}
        self._names = {}
        self.cells = set()
        self.newcount = {}
        self.unknown = {}
        self.stack = []
        self.values = set()  # temporaries holding what a call returned
        self.trace_calls = set()
        from handlers import Handlers
        self.h = Handlers(self)

    # -------------------------------------------------------------------------------------------- types
    def ty(self, fr, e):
        return self.rty(fr, fr.types[e["t"]])

    def rty(self, fr, t):
        while t and t["k"] in ("ref", "rref"):
            t = fr.types[t["t"]]
        return t

    @staticmethod
    def rty_types(types, t):
        while t and t["k"] in ("ref", "rref"):
            t = types[t["t"]]
        return t

    def note_unknown(self, what, fr=None, line=0):
        self.unknown.setdefault(what, []).append((fr.fn.get("file") if fr else None, line))

    @staticmethod
    def is_mat(t):
        return t["k"] == "rec" and "rows" in t

    @staticmethod
    def is_aff(t):
        return t["k"] == "rec" and t["n"].startswith("Eigen::Transform")

    @staticmethod
    def is_num(t):
        return t["k"] in ("int", "float")

    def shape_from_type(self, term, t):
        if self.is_mat(t) and term.op not in ("ite", "poly", "num", "mat"):
            T.set_shape(term, t["rows"], t["cols"])

    # -------------------------------------------------------------------------------------------- memory
    def content(self, st, root):
        c = st.store.get(root)
        if c is None:
            if root.op == "loc":
                return UNDEF
            if root.op == "pvar" and T.SOLUTION in st.store:
                sol = st.store[T.SOLUTION]
                return rec(mk("deref", root), {"value": mk("app", "valueof", root, sol), "version": mk("app", "versionof", root, sol)})
            h = st.store.get(T.HEAPF)
            if h is not None and root.op in ("idx", "nth", "get", "ite"):
                return T.get_region_any(h, (root,))
            return mk("deref", root)
        return c

    def load(self, st, p):
        if p.op == "ite":
            return ite(as_bool(p.args[0]), self.load(st, p.args[1]), self.load(st, p.args[2]))
        if p.op == "iter":
            return self.load(st, self.iter_lv(p))
        root, path = unptr(p)
        t = self.content(st, root)
        for a in path:
            t = acc_get(t, a)
        return t

    def iter_lv(self, p):
        c, i = p.args[0], p.args[1]
        if c.op == "ite":
            return lift(("iterlv",) + p.args[1:], lambda x: self.iter_lv(mk("iter", x, *p.args[1:])), (c,))
        r, path = unptr(c)
        kind = p.args[2] if len(p.args) > 2 else "i"
        return mk("addr", r, path + ((kind, i),))

    def store(self, st, p, v):
        if p.op == "ite":
            c = as_bool(p.args[0])
            s1 = st.copy()
            self.store(s1, p.args[1], v)
            s2 = st.copy()
            self.store(s2, p.args[2], v)
            st.store = self.merge_stores(c, s1.store, s2.store)
            return
        if p.op == "iter":
            return self.store(st, self.iter_lv(p), v)
        root, path = unptr(p)
        if root.op in ("null", "undef"):
            return
        t = self.content(st, root)
        st.store[root] = self._set(t, path, v)

    def _set(self, t, path, v):
        if not path:
            return v
        sub = acc_get(t, path[0])
        return acc_set(t, path[0], self._set(sub, path[1:], v) if len(path) > 1 else v)

    def merge_stores(self, c, a, b):
        out = {}
        for k in set(a) | set(b):
            x = a.get(k)
            y = b.get(k)
            if x is None:
                x = UNDEF if k.op == "loc" else mk("deref", k)
            if y is None:
                y = UNDEF if k.op == "loc" else mk("deref", k)
            if x is y:
                out[k] = x
            elif k.op == "loc" and x is UNDEF:
                out[k] = y
            elif k.op == "loc" and y is UNDEF:
                out[k] = x
            else:
                out[k] = ite(c, x, y)
        return out

    # -------------------------------------------------------------------------------------------- entry point
    def summarize(self, fn, this=None, args=None, fresh=None):
        """-> dict(ret, stores {root: term}, throw cond); fresh: class of an object under construction passed as args[0]"""
        set_budget(self.limit)
        fr = Frame(fn, this)
        st = State()
        if fresh is not None:
            self.fresh_object(fresh, args[0], st)
        params = fn["params"]
        for i, prm in enumerate(params):
            a = args[i]
            fr.env[prm["id"]] = a
            pt = self.rty_types(fr.types, fr.types[prm["t"]]) if prm.get("t", -1) >= 0 else None
            if pt and self.is_mat(pt) and a.op == "sym":
                T.set_shape(mk("deref", a), pt["rows"], pt["cols"])
        rt = fr.types[fn["rt"]] if fn["rt"] >= 0 else {"k": "void"}
        fr.ret_ref = rt["k"] in ("ref", "rref")
        if fn.get("ctor"):
            self.run_ctor_inits(fn, fr, st, this)
        live = self.exec(fn["body"], fr, st)
        if live is not None:
            fr.exits.append(Exit("ret", live.pc, live.store, None))
        return self.combine(fr)

    def resolve_cells(self, store, keep=()):
        """references held by collections to objects created here become the objects' values"""
        cells = [r for r in store if not isinstance(r, tuple) and r.op == "loc" and r in self.cells and r not in keep]
        if not cells:
            return
        m = {mk("cell", r).id: store[r] for r in cells}
        for _ in range(3):
            ch = False
            for r, x in store.items():
                if x.cell:
                    y = subst(x, m)
                    if y is not x:
                        store[r] = y
                        ch = True
            if not ch:
                break

    def combine(self, fr):
        for x in fr.exits:
            # also in the path condition and the result
            x.store[("pc",)] = x.pc
            if isinstance(x.val, Term):
                x.store[("val",)] = x.val
            self.resolve_cells(x.store)
            x.pc = x.store.pop(("pc",))
            if isinstance(x.val, Term):
                x.val = x.store.pop(("val",))
        rets = [x for x in fr.exits if x.kind == "ret"]
        thr = FALSE
        for x in fr.exits:
            if x.kind == "throw":
                thr = b_or(thr, x.pc)
        if not rets:
            return dict(ret=None, store=None, throw=thr, pc=FALSE)
        res = rets[-1]
        val, store = res.val, res.store
        pc = res.pc
        for x in reversed(rets[:-1]):
            if val is not None and x.val is not None:
                val = ite(x.pc, x.val, val)
            elif x.val is not None:
                val = x.val
            store = self.merge_stores(x.pc, x.store, store)
            pc = b_or(pc, x.pc)
        # results only matter when no exception leaves
        nthr = b_not(thr)
        if thr is not FALSE:
            if val is not None and val.op == "ite":
                val = restrict(val, nthr)
            store = {k: (restrict(v, nthr) if v.op == "ite" else v) for k, v in store.items()}
        return dict(ret=val, store=store, throw=thr, pc=pc)

    # -------------------------------------------------------------------------------------------- statements
    def exec(self, s, fr, st):
        """-> live state or None"""
        if s is None:
            return st
        k = s["k"]
        m = getattr(self, "s_" + k, None)
        if m is None:
            self.note_unknown("stmt " + k, fr, s.get("l"))
            raise Unsupported("statement " + k)
        return m(s, fr, st)

    def s_null(self, s, fr, st):
        return st

    def s_block(self, s, fr, st):
        for x in s["b"]:
            st = self.exec(x, fr, st)
            if st is None:
                return None
        return st

    def s_expr(self, s, fr, st):
        e = s["e"]
        if e["k"] == "throw":
            fr.exits.append(Exit("throw", st.pc, st.store, self.thrown_type(e, fr), s["l"]))
            return None
        self.ev(e, fr, st)
        if st.pc is FALSE:
            return None
        return st

    def s_decl(self, s, fr, st):
        for v in s["v"]:
            self.decl_var(v, fr, st)
            if st.pc is FALSE:
                return None
        return st

    def decl_var(self, v, fr, st):
        t = fr.types[v["t"]]
        init = v.get("init")
        if v.get("static"):
            # static locals: initialised once; value treated as its initialiser when const, else a global symbol
            root = mk("sym", "static", fr.fn["q"], v["n"])
            fr.env[v["id"]] = root
            if init is not None and t.get("const"):
                st.store[root] = self.ev(init, fr, st)
            return
        if t["k"] in ("ref", "rref"):
            p = self.lv(init, fr, st)
            fr.env[v["id"]] = p
        else:
            rt = t
            if self.is_view(rt) and init is not None:
                p = self.lv(init, fr, st)
                fr.env[v["id"]] = p
            else:
                root = new_loc()
                fr.env[v["id"]] = root
                if init is not None:
                    val = self.ev(init, fr, st)
                    val = self.coerce(val, rt, fr)
                else:
                    val = self.default_value(rt, fr, st)
                st.store[root] = val
        for b in v.get("bindings", []):
            if "id" in b:
                self.decl_var(b, fr, st)
        if v.get("bindings"):
            # tuple-like bindings refer to the decomposed object through get<>; plain ones via member expressions
            fr.env[("dec", v["id"])] = fr.env[v["id"]]

    def is_view(self, t):
        return t["k"] == "rec" and (t["n"].startswith("Eigen::Block") or t["n"].startswith("Eigen::VectorBlock")) and not t.get("const")

    def coerce(self, v, t, fr):
        return v

    def canon_rec(self, cls, v):
        """a modified copy of a value object is fully described by its fields"""
        if v.op == "ite":
            return lift(("canon", cls), lambda x: self.canon_rec(cls, x), (v,))
        if v.op != "rec" or cls not in self.p.records:
            return v
        names = self._names.get(cls)
        if names is None:
            names = self._names[cls] = [f["n"] for _, f in self.p.all_fields(cls)]
        base = v.args[0]
        if base.op == "obj" and len(v.args[1]) == len(names):
            x = base
        d = {n: fld(v, n) for n in names}
        # eta: every field read from one object
        b0 = None
        for n in names:
            f = d[n]
            if f.op == "fld" and f.args[1] == n and (b0 is None or b0 is f.args[0]):
                b0 = f.args[0]
            else:
                b0 = None
                break
        if b0 is not None:
            return b0
        return rec(mk("obj", cls), d)

    def default_value(self, t, fr, st):
        if self.is_mat(t):
            r = num(t["rows"]) if t["rows"] >= 0 else ZERO
            c = num(t["cols"]) if t["cols"] >= 0 else ZERO
            return mk("uninit", r, c)
        if t["k"] in ("int", "float", "bool", "enum", "ptr"):
            return UNDEF
        if t["k"] == "rec":
            return self.default_object(t["n"], fr, st)
        return UNDEF

    def default_object(self, cls, fr, st):
        if cls.startswith(("std::vector", "std::map", "std::set", "std::basic_string", "std::__cxx11::basic_string", "std::deque")):
            return mk("empty")
        return mk("obj", re.sub(r"<.*", "", cls))

    def s_if(self, s, fr, st):
        if s.get("init"):
            st = self.exec(s["init"], fr, st)
        if s.get("cv"):
            st = self.exec(s["cv"], fr, st)
        c = self.cond(s["c"], fr, st)
        if st.pc is FALSE:
            return None
        c = restrict(c, st.pc) if st.pc is not TRUE else c
        if c is TRUE:
            return self.exec(s["a"], fr, st)
        if c is FALSE:
            return self.exec(s["b"], fr, st)
        return self.branch(c, fr, st, lambda f, x: self.exec(s["a"], f, x), lambda f, x: self.exec(s["b"], f, x))

    def branch(self, c, fr, st, fa, fb):
        s1 = st.copy()
        s1.pc = b_and(st.pc, c)
        s2 = st.copy()
        s2.pc = b_and(st.pc, b_not(c))
        n0 = dict(self.newcount)
        r1 = fa(fr, s1) if s1.pc is not FALSE else None
        n1 = self.newcount  # exclusive branches may share the numbers of their new objects
        self.newcount = n0
        r2 = fb(fr, s2) if s2.pc is not FALSE else None
        if r1 is not None and r2 is not None:
            for k in n1:
                self.newcount[k] = max(n1[k], self.newcount.get(k, 0))
        elif r1 is not None:
            self.newcount = n1
        if r1 is None and r2 is None:
            return None
        if r1 is None:
            st.store, st.pc = r2.store, r2.pc
            return st
        if r2 is None:
            st.store, st.pc = r1.store, r1.pc
            return st
        st.store = self.merge_stores(c, r1.store, r2.store)
        st.pc = b_or(r1.pc, r2.pc)
        return st

    def s_return(self, s, fr, st):
        v = None
        if s.get("e"):
            if fr.ret_ref:
                v = self.lv(s["e"], fr, st)
            else:
                v = self.ev(s["e"], fr, st)
        if st.pc is FALSE:
            return None
        fr.exits.append(Exit("ret", st.pc, st.store, v, s["l"]))
        return None

    def s_break(self, s, fr, st):
        fr.exits.append(Exit("brk", st.pc, st.store, None, s["l"]))
        return None

    def s_continue(self, s, fr, st):
        fr.exits.append(Exit("cont", st.pc, st.store, None, s["l"]))
        return None

    def s_switch(self, s, fr, st):
        if s.get("init"):
            st = self.exec(s["init"], fr, st)
        x = self.ev(s["c"], fr, st)
        body = s["body"]["b"] if s["body"]["k"] == "block" else [s["body"]]
        # flatten: list of (labels, stmts)
        groups = []
        has_default = False

        def flat(n):
            labels = []
            while n is not None and n["k"] in ("case", "default"):
                labels.append(None if n["k"] == "default" else n["c"])
                n = n["b"]
            return labels, n

        for n in body:
            if n["k"] in ("case", "default"):
                l, b = flat(n)
                groups.append((l, [b] if b else []))
            elif groups:
                groups[-1][1].append(n)
        saved = fr.exits
        fr.exits = []
        conds = []
        alln = FALSE
        for labels, _ in groups:
            c = FALSE
            for l in labels:
                if l is not None:
                    c = b_or(c, self.equal(x, self.ev(l, fr, st), True))
            conds.append(c)
            alln = b_or(alln, c)
        for i, (labels, _) in enumerate(groups):
            if None in labels:
                conds[i] = b_or(conds[i], b_not(alln))
        matched = FALSE
        for c in conds:
            matched = b_or(matched, c)
        skip = None
        pc0 = st.pc
        if b_and(pc0, b_not(matched)) is not FALSE:
            skip = Exit("brk", b_and(pc0, b_not(matched)), dict(st.store))
        base = st.copy()
        live = None
        for c, (_, stmts) in zip(conds, groups):
            ent = base.copy()
            ent.pc = b_and(pc0, c)
            if live is not None and live.pc is not FALSE:
                cur = State(self.merge_stores(live.pc, live.store, ent.store), b_or(live.pc, ent.pc))
            else:
                cur = ent
            if cur.pc is FALSE:
                live = None
                continue
            for n in stmts:
                cur = self.exec(n, fr, cur)
                if cur is None:
                    break
            live = cur
        brks = [x for x in fr.exits if x.kind == "brk"]
        others = [x for x in fr.exits if x.kind != "brk"]
        fr.exits = saved + others
        if skip:
            brks.append(skip)
        if live is not None:
            brks.append(Exit("brk", live.pc, live.store))
        return self.join_exits(st, brks)

    def join_exits(self, st, exits):
        exits = [x for x in exits if x.pc is not FALSE]
        if not exits:
            return None
        store = exits[-1].store
        pc = exits[-1].pc
        for x in reversed(exits[:-1]):
            store = self.merge_stores(x.pc, x.store, store)
            pc = b_or(pc, x.pc)
        st.store, st.pc = store, pc
        return st

    def s_try(self, s, fr, st):
        saved = fr.exits
        fr.exits = []
        self.in_try = getattr(self, "in_try", 0) + 1
        live = self.exec(s["b"], fr, st.copy())
        self.in_try -= 1
        thr = [x for x in fr.exits if x.kind == "throw"]
        rest = [x for x in fr.exits if x.kind != "throw"]
        fr.exits = saved + rest
        outs = []
        if live is not None:
            outs.append(Exit("n", live.pc, live.store))
        pending = thr
        for h in s["h"]:
            thr = [x for x in pending if self.caught_by(x.val, h, fr)]
            pending = [x for x in pending if not self.caught_by(x.val, h, fr)]
            if not thr:
                continue
            ts = self.join_exits(st.copy(), thr)
            if ts is not None:
                if h.get("v"):
                    root = new_loc()
                    fr.env[h["v"]["id"]] = root
                    ts.store[root] = mk("app", "exception")
                r = self.exec(h["b"], fr, ts)
                if r is not None:
                    outs.append(Exit("n", r.pc, r.store))
        fr.exits += pending
        return self.join_exits(st, outs)

    # -------------------------------------------------------------------------------------------- loops
    def s_for(self, s, fr, st):
        if s.get("init"):
            st = self.exec(s["init"], fr, st)
            if st is None:
                return None
        return self.loop(fr, st,
                         (lambda x: self.cond(s["c"], fr, x)) if s.get("c") else None,
                         lambda x: self.exec(s["body"], fr, x),
                         (lambda x: self.ev(s["inc"], fr, x)) if s.get("inc") else None, s["l"])

    def s_while(self, s, fr, st):
        return self.loop(fr, st, lambda x: self.cond(s["c"], fr, x), lambda x: self.exec(s["body"], fr, x), None, s["l"])

    def s_do(self, s, fr, st):
        # do B while(c)  ==  while(true) { B; if(!c) break; }
        def body(x):
            r = self.exec(s["body"], fr, x)
            # continue jumps to the condition
            conts = [e for e in fr.exits if e.kind == "cont"]
            fr.exits = [e for e in fr.exits if e.kind != "cont"]
            if r is not None:
                conts.append(Exit("cont", r.pc, r.store))
            r = self.join_exits(x, conts)
            if r is None:
                return None
            c = self.cond(s["c"], fr, r)
            nb = b_and(r.pc, b_not(c))
            if nb is not FALSE:
                fr.exits.append(Exit("brk", nb, dict(r.store)))
            r.pc = b_and(r.pc, c)
            return r if r.pc is not FALSE else None

        return self.loop(fr, st, None, body, None, s["l"])

    def s_rangefor(self, s, fr, st):
        rng = s["range"]
        v = s["v"]
        vt = fr.types[v["t"]]
        # initializer lists / braces: unroll
        ct = self.ty(fr, rng)
        p = self.lv(rng, fr, st)
        c = self.load(st, p)
        if c.op == "listlit" and len(c.args[0]) <= 12:
            return self.unroll(s, fr, st, c, v, vt)
        assoc = ct["k"] == "rec" and ct["n"].startswith(("std::map", "std::set", "std::unordered", "std::multimap"))
        b = fresh_lc()
        n = mk("app", "size", c) if assoc else size(c)
        acc = ("n", b) if assoc else ("i", b)

        def body(x):
            ep = extend(p, acc)
            if vt["k"] in ("ref", "rref"):
                fr.env[v["id"]] = ep
            else:
                root = new_loc()
                fr.env[v["id"]] = root
                x.store[root] = self.load(x, ep)
            for bd in v.get("bindings", []):
                if "id" in bd:
                    self.decl_var(bd, fr, x)
            return self.exec(s["body"], fr, x)

        return self.loop(fr, st, None, body, None, s["l"], dom=(b, n, p))

    def unroll(self, s, fr, st, c, v, vt):
        saved = fr.exits
        fr.exits = []
        done = []
        for item in c.args[0]:
            root = new_loc()
            fr.env[v["id"]] = root
            st.store[root] = item
            live = self.exec(s["body"], fr, st)
            conts = [e for e in fr.exits if e.kind == "cont"]
            done += [e for e in fr.exits if e.kind != "cont"]
            fr.exits = []
            if live is not None:
                conts.append(Exit("cont", live.pc, live.store))
            st2 = self.join_exits(State(), conts)
            if st2 is None:
                st = None
                break
            st = st2
        brks = [e for e in done if e.kind == "brk"]
        fr.exits = saved + [e for e in done if e.kind != "brk"]
        if st is not None:
            brks.append(Exit("brk", st.pc, st.store))
        return self.join_exits(State(), brks)

    @staticmethod
    def diff_paths(a, b, path=()):
        """paths at which term a differs from term b"""
        if a is b:
            return []
        ba = a.args[0] if a.op == "rec" else a
        bb = b.args[0] if b.op == "rec" else b
        if ba is bb and (a.op == "rec" or b.op == "rec"):
            fa = dict(a.args[1]) if a.op == "rec" else {}
            fb = dict(b.args[1]) if b.op == "rec" else {}
            out = []
            for k in sorted(set(fa) | set(fb)):
                x = fa[k] if k in fa else fld(ba, k)
                y = fb[k] if k in fb else fld(bb, k)
                out += Engine.diff_paths(x, y, path + (("f", k),))
            return out
        return [path]

    def loop(self, fr, st, cond_fn, body_fn, inc_fn, line, dom=None):
        pre = dict(st.store)
        lc0 = T._fresh[0]
        dmask = dom[0].lc if dom is not None else 0

        def fold(store):
            """writes through pointers that differ per iteration become entries of the heap family"""
            for r in [r for r in store if r.op != "loc" and r not in pre and (r.lc & dmask or r.lc >> (lc0 + 1))]:
                v = store.pop(r)
                h = store.get(T.HEAPF, T.HEAPF0)
                store[T.HEAPF] = wr(h, [(TRUE, (), (r,), v)])

        W = {}  # (root, path) -> lc symbol
        outer_exits = fr.exits
        env0 = dict(fr.env)
        for attempt in range(8):
            s = State(dict(pre), TRUE)
            for (root, path), (symb, init) in W.items():
                self.store(s, ptr(root, path), symb)
            start = dict(s.store)
            fr.exits = []
            fr.env = dict(env0)
            c = TRUE
            hoisted = []
            if cond_fn is not None:
                c = cond_fn(s)
                # a condition that may throw does so before the first iteration too
                mask = 0
                for symb, _ in W.values():
                    mask |= symb.lc
                hoisted = [e for e in fr.exits if e.kind == "throw" and not (e.pc.lc & mask)]
                fr.exits = [e for e in fr.exits if e not in hoisted]
            s.pc = TRUE
            after_cond = dict(s.store)
            live = body_fn(s)
            conts = [e for e in fr.exits if e.kind == "cont"]
            exits = [e for e in fr.exits if e.kind != "cont"]
            if live is not None:
                conts.append(Exit("cont", live.pc, live.store))
            live = self.join_exits(State(), conts)
            if live is not None and inc_fn is not None:
                fr.exits = []
                inc_fn(live)
            new = []
            stores = ([live.store] if live is not None else []) + [e.store for e in exits]
            for x in stores:
                fold(x)
                self.resolve_cells(x, start)
            for store in stores:
                for root in set(store) | set(start):
                    if root not in start and root.op == "loc":
                        continue
                    x = store.get(root)
                    if x is None:
                        continue
                    y = start.get(root)
                    if y is None:
                        y = mk("deref", root)
                    for pth in self.diff_paths(x, y):
                        key = (root, pth)
                        # a modified sub-path of an existing one?
                        if any(root is r2 and pth[:len(p2)] == p2 for (r2, p2) in W):
                            continue
                        if key not in new:
                            new.append(key)
            if not new:
                break
            for key in new:
                # drop finer entries
                for k2 in [k for k in W if k[0] is key[0] and k[1][:len(key[1])] == key[1]]:
                    del W[k2]
            for root, pth in new:
                init = self.content(State(pre), root)
                for a in pth:
                    init = acc_get(init, a)
                if init.op == "iter":
                    symb = mk("iter", init.args[0], fresh_lc(), *init.args[2:])
                else:
                    symb = fresh_lc()
                W[(root, pth)] = (symb, init)
        else:
            fr.exits = outer_exits
            raise Unsupported("loop does not stabilise")
        fr.exits = outer_exits
        for e in hoisted:
            fr.exits.append(Exit("throw", b_and(st.pc, e.pc), dict(pre), e.val, e.line))
            st.pc = b_and(st.pc, b_not(e.pc))
        # ---- iteration domain
        if dom is not None:
            b, n, _ = dom
        else:
            b, n = fresh_lc(), None
        sigma = {}

        def S(t):
            return subst(t, sigma) if t is not None else None

        nexts = {}
        inits = {}
        for key, (symb, init) in W.items():
            k = symb
            if symb.op == "iter":
                k = symb.args[1]
                inits[k] = init.args[1]
            else:
                inits[k] = init
            if live is not None:
                t = self.content(live, key[0])
                for a in key[1]:
                    t = acc_get(t, a)
                if symb.op == "iter":
                    t = t.args[1] if t.op == "iter" else mk("unk", "iter")
                nexts[k] = t
            else:
                nexts[k] = k
        # containers whose elements (only) are rewritten keep their dimensions
        for k, N in nexts.items():
            if N.op == "wr" and N.args[0] is k:
                init = inits[k]
                sigma[mk("app", "size", k).id] = size(init)
                if init.op != "empty":
                    sh = shape(init)
                    sigma[mk("app", "rows", k).id] = sh[0]
                    sigma[mk("app", "cols", k).id] = sh[1]
        if sigma and c.lc:
            c = S(c)
            exits = [Exit(e.kind, S(e.pc), e.store, e.val, e.line) for e in exits]
        # ---- exits
        E = FALSE
        xs = list(exits)
        nat = False
        if cond_fn is not None:
            r = self.find_induction(c, nexts, inits, b) if not exits or True else None
            if r is not None:
                k, rep, n = r
                sigma[k.id] = rep
            else:
                nat = True
                xs = [Exit("brk", b_not(c), after_cond, None, line)] + [
                    Exit(e.kind, b_and(c, e.pc), e.store, e.val, e.line) for e in xs]
        elif dom is None:
            nat = True
        if nat:
            n = mk("app", "infinity")
        for e in xs:
            E = b_or(E, e.pc)
        # ---- closed forms
        todo = [k for k in nexts if k.id not in sigma]
        closed = {k: sigma[k.id] for k in nexts if k.id in sigma}
        notE = b_not(E)
        # only resolve what is needed: everything changed
        progress = True
        while todo and progress:
            progress = False
            for k in list(todo):
                N = S(nexts[k])
                if E is not FALSE and N.op == "ite":
                    N = restrict(N, S(notE))
                own = k.lc
                others = 0
                for q in todo:
                    if q is not k:
                        others |= q.lc
                if N.lc & others:
                    continue
                f = self.closed_form(k, N, b, inits[k])
                if f is None:
                    continue
                closed[k] = f
                sigma[k.id] = f
                todo.remove(k)
                progress = True
        if todo:
            # strongly connected components of general recurrences
            deps = {}
            for k in todo:
                N = S(nexts[k])
                deps[k] = [q for q in todo if N.lc & q.lc]
            # order by dependency: process sccs (small sets)
            remaining = list(todo)
            while remaining:
                comp = None
                for k in remaining:
                    r = reach(k, deps, remaining)
                    scc = [q for q in r if k in reach(q, deps, remaining)] or [k]
                    if k not in scc:
                        scc = [k] + scc
                    if all(d in scc for q in scc for d in deps[q] if d in remaining):
                        comp = scc
                        break
                if comp is None:
                    comp = list(remaining)
                Ns = {k: S(nexts[k]) for k in comp}
                if E is not FALSE:
                    Ns = {k: restrict(v, S(notE)) if v.op == "ite" else v for k, v in Ns.items()}
                if len(comp) == 1:
                    f = self.closed_form(comp[0], Ns[comp[0]], b, inits[comp[0]])
                    if f is not None:
                        closed[comp[0]] = f
                        sigma[comp[0].id] = f
                        remaining.remove(comp[0])
                        continue
                ph = {k.id: mk("sym", "ph") for k in comp}
                comp = sorted(comp, key=lambda k: (blind(inits[k]).id, blind(subst(Ns[k], ph)).id))
                lvs = {k.id: mk("lv", 0, i) for i, k in enumerate(comp)}
                nx = tuple(subst(Ns[k], lvs) for k in comp)
                ini = tuple(inits[k] for k in comp)
                for i, k in enumerate(comp):
                    closed[k] = mk_it(b, 0, nx, ini, i, b)
                for k in comp:
                    sigma[k.id] = closed[k]
                    remaining.remove(k)
        # ---- final stores
        ES = S(E)
        st.store = dict(pre)
        pc0 = st.pc

        def at(t, bval):
            return subst(t, {b.id: bval})

        base = State(dict(pre))
        if E is FALSE:
            if n is None or nat:
                # infinite loop
                return None
            for key, (symb, init) in W.items():
                k = symb.args[1] if symb.op == "iter" else symb
                v = at(closed[k], n)
                if symb.op == "iter":
                    v = mk("iter", symb.args[0], v, *symb.args[2:])
                self.store(base, ptr(*key), v)
            st.store = base.store
            return st
        any_e = any_(b, ES, n) if not nat else TRUE
        first = first_(b, ES, n)
        outs = []
        if any_e is not TRUE:
            for key, (symb, init) in W.items():
                k = symb.args[1] if symb.op == "iter" else symb
                v = at(closed[k], n)
                if symb.op == "iter":
                    v = mk("iter", symb.args[0], v, *symb.args[2:])
                self.store(base, ptr(*key), v)
            outs.append(Exit("n", b_and(pc0, b_not(any_e)), base.store))
        thr = [e for e in xs if e.kind == "throw"]
        if len(thr) > 1:
            one = thr[0]
            for e in thr[1:]:
                one = Exit("throw", b_or(one.pc, e.pc), self.merge_stores(one.pc, one.store, e.store),
                           one.val if one.val == e.val else None, one.line)
            xs = [one] + [e for e in xs if e.kind != "throw"]
        for e in xs:
            g = at(S(e.pc), first)
            if nat and len(xs) == 1:
                g = TRUE
            elif len(xs) == 1:
                g = TRUE
            sx = State(dict(pre))
            for key, (symb, init) in W.items():
                k = symb.args[1] if symb.op == "iter" else symb
                t = self.content(State(e.store), key[0])
                for a in key[1]:
                    t = acc_get(t, a)
                v = at(S(restrict(t, e.pc) if t.op == "ite" else t), first)
                self.store(sx, ptr(*key), v)
            pc = b_and(pc0, b_and(any_e, g))
            if pc is FALSE:
                continue
            val = e.val
            if isinstance(val, Term):
                val = at(S(restrict(e.val, e.pc) if e.val.op == "ite" else e.val), first)
            if e.kind == "brk":
                outs.append(Exit("n", pc, sx.store))
            else:
                fr.exits.append(Exit(e.kind, pc, sx.store, val, e.line))
        if not outs:
            return None
        r = self.join_exits(st, outs)
        return r

    def find_induction(self, c, nexts, inits, b):
        """c: loop condition over the carried symbols -> (symbol, closed form in b, trip count)"""
        conj = None
        if c.op != "ite":
            return None
        atom, a, bb = c.args
        if a is TRUE and bb is FALSE:
            sign = 1
        elif a is FALSE and bb is TRUE:
            sign = -1
        else:
            return None
        for k, N in nexts.items():
            if not (c.lc & k.lc):
                continue
            others = c.lc & ~k.lc
            if any(others & q.lc for q in nexts if q is not k):
                continue
            d = sub2(N, k)
            if d.lc & k.lc or d.op == "ite":
                continue
            if any(d.lc & q.lc for q in nexts):
                continue
            if atom.op == "pos":
                p, isint = atom.args
                if sign < 0:
                    if not isint:
                        continue
                    p = sub2(ONE, p)
                # p linear in k
                dd = poly_of(p)
                coef = dd.get((((k, 1),), ()), None)
                if coef is None:
                    continue
                rest = sub2(p, scale(k, coef))
                if rest.lc & k.lc:
                    continue
                if d.op == "num" and d.args[0] == 1 and coef == -1:
                    # k < rest
                    return k, add2(inits[k], b), trip(sub2(rest, inits[k]))
                if d.op == "num" and d.args[0] == -1 and coef == 1:
                    # k > -rest
                    return k, sub2(inits[k], b), trip(add2(inits[k], rest))
            elif atom.op == "eq" and sign < 0:
                q, v = atom.args
                p = sub2(v, q)
                dd = poly_of(p)
                coef = dd.get((((k, 1),), ()), None)
                if coef is None:
                    continue
                rest = sub2(p, scale(k, coef))
                if rest.lc & k.lc:
                    continue
                if coef == 1:
                    rest = neg(rest)
                    coef = -1
                if d.op == "num" and d.args[0] == 1 and coef == -1:
                    return k, add2(inits[k], b), trip(sub2(rest, inits[k]))
        return None

    def closed_form(self, k, N, b, init):
        """value of carried symbol k at the start of iteration b, N = next value (own symbol k), or None"""
        if N is k:
            return init
        if not (N.lc & k.lc):
            return prevv(b, N, init, b) if N.lc & b.lc else ite(pos(b, True), N, init)
        if N.op == "wr" and N.args[0] is k:
            ents = N.args[1]
            # reads of the element being written, and sizes, see the initial value
            m = {}
            keys = {e[2] for e in ents if not e[1]}
            if len(keys) == 1 and not any(e[1] for e in ents):
                key, = keys
                if len(key) == 1 and key[0] is b:
                    m[mk("idx", k, b).id] = idx(init, b)
                    m[mk("nth", k, b).id] = mk("nth", init, b)
                elif len(key) == 1 and key[0].lc & b.lc:
                    m[mk("get", k, key).id] = T.get_region_any(init, key)
                elif len(key) == 4 and (key[0] is b or key[1] is b):
                    if key[2] is ONE and key[3] is ONE:
                        m[mk("el", k, key[0], key[1]).id] = el(init, key[0], key[1])
                    m[mk("blk", k, *key).id] = blk(init, *key)
            m[mk("app", "size", k).id] = size(init)
            sh = shape(init) if init.op not in ("empty",) else None
            if sh:
                m[mk("app", "rows", k).id] = sh[0]
                m[mk("app", "cols", k).id] = sh[1]
            ents2 = tuple(map_terms(e, lambda t: subst(t, m)) for e in ents)
            if any(t.lc & k.lc for t in T._iter(ents2)):
                return None
            return wr(init, [bind_to(e, b) for e in ents2])
        if N.op in ("seq", "bag") and N.args[0] is k:
            ents = N.args[1]
            m = {}
            if any(t.lc & k.lc for t in T._iter(ents)):
                return None
            f = seq if N.op == "seq" else bag
            return f(init, [bind_to(e, b) for e in ents])
        if N.op in ("rec",):
            return None
        # accumulation
        for mat in (False, True):
            try:
                d = sub2(N, k, mat, mat)
            except Exception:
                continue
            if not (d.lc & k.lc):
                bb = fresh_lc()
                return add2(init, psum(bb, subst(d, {b.id: bb}), b, mat), mat, mat)
        # boolean accumulation
        ka = mk("B", k)
        if N.op == "ite" and is_boolean(N):
            n1 = subst(N, {k.id: TRUE})
            n0 = subst(N, {k.id: FALSE})
            bb = fresh_lc()
            if n1 is TRUE:
                return b_or(as_bool(init), any_(bb, subst(n0, {b.id: bb}), b))
            if n0 is FALSE:
                return b_and(as_bool(init), b_not(any_(bb, b_not(subst(n1, {b.id: bb})), b)))
        # conditional overwrite with an invariant value
        if N.op == "ite":
            leaves = {}
            if collect_leaves(N, TRUE, leaves, 64):
                vals = [v for v in leaves if v is not k]
                if len(vals) == 1 and not (vals[0].lc & (k.lc | b.lc)) and not any(g.lc & k.lc for g in leaves.values()):
                    bb = fresh_lc()
                    return ite(any_(bb, subst(leaves[vals[0]], {b.id: bb}), b), vals[0], init)
        return None

    # -------------------------------------------------------------------------------------------- expressions
    def cond(self, e, fr, st):
        v = self.ev(e, fr, st)
        return as_bool(v) if v.op not in ("true", "false") else v

    def ev(self, e, fr, st):
        """value of an expression"""
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            self.note_unknown("expr " + e["k"], fr, e.get("l"))
            return mk("unk", e["k"], fr.fn["q"], e.get("l"))
        v = m(e, fr, st)
        if v is None:
            v = UNDEF
        t = fr.types[e["t"]] if e["t"] >= 0 else None
        if t:
            t = self.rty(fr, t)
            self.shape_from_type(v, t)
            if T.BOX[0] and v.op == "ite" and (t["k"] == "float" or self.is_mat(t) or self.is_aff(t)):
                v = T.box(v)
            if t["k"] == "int" and v.op in ("fld", "deref", "idx", "nth", "get", "app"):
                T.note_int(v)
        return v

    def lv(self, e, fr, st):
        """address of an expression (temporaries get a fresh location)"""
        k = e["k"]
        if k == "ref":
            d = e["d"]
            if d == "var":
                p = fr.env.get(e["id"])
                f = fr
                if p is None:
                    p = mk("unk", "var", e["n"])
                    self.note_unknown("variable " + e["n"], fr, e["l"])
                return p
            if d == "global":
                return mk("sym", "global", e["q"])
        if k == "mem":
            if e.get("a"):
                p = self.ev(e["b"], fr, st)
            else:
                p = self.lv(e["b"], fr, st)
            if (e.get("q"), e["n"]) in INVARIANT and not (fr.fn.get("ctor") and fr.fn.get("cls") == e["q"]) \
                    and not (self.no_invariant == e["q"]):
                # class invariant, established by the constructor: another name for the same quantity
                for n in INVARIANT[(e["q"], e["n"])]:
                    p = self.load(st, extend(p, ("f", n[1:]))) if n[0] == "&" else extend(p, ("f", n))
                return p
            p = extend(p, ("f", e["n"]))
            # reference members hold addresses
            fi = self.p.field(e.get("q", ""), e["n"])
            if fi and fi[0]["types"][fi[1]["t"]]["k"] in ("ref", "rref"):
                return self.load(st, p)
            return p
        if k == "un" and e["op"] == "*":
            p = self.ev(e["e"], fr, st)
            return p
        if k == "un" and e["op"] in ("++", "--") and not e.get("post"):
            self.ev(e, fr, st)
            return self.lv(e["e"], fr, st)
        if k == "this":
            return fr.this
        if k == "asg":
            self.ev(e, fr, st)
            return self.lv(e["a"], fr, st)
        if k == "sub":
            t = self.rty(fr, fr.types[e["a"]["t"]])
            p = self.lv(e["a"], fr, st) if t["k"] == "array" else self.ev(e["a"], fr, st)
            return extend(p, ("i", self.ev(e["b"], fr, st)))
        if k == "cond":
            c = self.cond(e["c"], fr, st)
            return ite(c, self.lv(e["a"], fr, st), self.lv(e["b"], fr, st))
        if k == "call":
            r = self.call(e, fr, st, want_lv=True)
            if r is not None and r[0] == "lv":
                return r[1]
            return self.temp(st, r[1] if r is not None else UNDEF, "tv")
        if k in ("downcast", "dyncast"):
            return self.lv(e["e"], fr, st)
        return self.temp(st, self.ev(e, fr, st))

    def temp(self, st, v, tag="t"):
        root = new_loc(tag)
        if tag == "tv":
            self.values.add(root)
        st.store[root] = v
        return root

    def e_int(self, e, fr, st):
        return num(e["v"])

    def e_float(self, e, fr, st):
        return num(Fraction(Decimal(e["v"])))

    def e_bool(self, e, fr, st):
        return TRUE if e["v"] else FALSE

    def e_str(self, e, fr, st):
        return string(e["v"])

    def e_null(self, e, fr, st):
        return NULL

    def e_zero(self, e, fr, st):
        t = self.ty(fr, e)
        if t["k"] in ("int", "float"):
            return ZERO
        if t["k"] == "bool":
            return FALSE
        if t["k"] == "ptr":
            return NULL
        return self.default_value(t, fr, st)

    def e_this(self, e, fr, st):
        return fr.this

    def e_tovoid(self, e, fr, st):
        self.ev(e["e"], fr, st)
        return UNDEF

    def e_ref(self, e, fr, st):
        d = e["d"]
        if d == "var":
            p = self.lv(e, fr, st)
            return self.load(st, p)
        if d == "enum":
            q = e["q"]
            t = self.ty(fr, e)
            en = t["n"] if t["k"] == "enum" else q.rsplit("::", 1)[0]
            return mk("enum", q, en)
        if d == "global":
            g = self.p.globals.get(e["q"])
            if g and g.get("init") and g["types"][g["t"]].get("const"):
                f2 = Frame(dict(types=g["types"], q=e["q"], file="", rt=-1), None)
                return self.ev(g["init"], f2, st)
            return self.load(st, mk("sym", "global", e["q"]))
        if d == "func":
            return mk("sym", "fn", e["f"])
        return mk("unk", "ref", e.get("n"))

    def e_mem(self, e, fr, st):
        return self.load(st, self.lv(e, fr, st))

    def e_f2i(self, e, fr, st):
        v = self.ev(e["e"], fr, st)

        def f(x):
            if x.op == "num":
                q = x.args[0]
                return num(int(q))
            return mk("app", "trunc", x)

        return lift("trunc", f, (v,))

    def e_i2f(self, e, fr, st):
        return self.ev(e["e"], fr, st)

    def e_tobool(self, e, fr, st):
        v = self.ev(e["e"], fr, st)
        t = self.ty(fr, e["e"])
        if t["k"] in ("int", "float"):
            return b_not(eq_num(v, ZERO, t["k"] == "int"))
        return as_bool(v)

    def e_dyncast(self, e, fr, st):
        v = self.ev(e["e"], fr, st)
        t = self.ty(fr, e)
        n = fr.types[t["t"]].get("n", "?") if t["k"] == "ptr" else t.get("n", "?")
        return lift(("dyncast", n), lambda x: mk("app", "dyncast", string(n), x), (v,))

    def e_downcast(self, e, fr, st):
        return self.ev(e["e"], fr, st)

    def e_un(self, e, fr, st):
        op = e["op"]
        if op == "*":
            return self.load(st, self.ev(e["e"], fr, st))
        if op == "&":
            return self.lv(e["e"], fr, st)
        if op == "!":
            return b_not(self.cond(e["e"], fr, st))
        if op in ("++", "--"):
            p = self.lv(e["e"], fr, st)
            old = self.load(st, p)
            new = add2(old, ONE if op == "++" else num(-1))
            self.store(st, p, new)
            return old if e.get("post") else new
        v = self.ev(e["e"], fr, st)
        if op == "-":
            return neg(v)
        if op == "+":
            return v
        self.note_unknown("unary " + op, fr, e["l"])
        return mk("app", "un" + op, v)

    def e_bin(self, e, fr, st):
        op = e["op"]
        if op == ",":
            self.ev(e["a"], fr, st)
            return self.ev(e["b"], fr, st)
        if op in ("&&", "||"):
            a = self.cond(e["a"], fr, st)
            if op == "&&" and a is FALSE or op == "||" and a is TRUE:
                return a
            s2 = st.copy()
            guard = a if op == "&&" else b_not(a)
            s2.pc = b_and(st.pc, guard)
            b = self.cond(e["b"], fr, s2)
            if s2.store != st.store:
                st.store = self.merge_stores(guard, s2.store, st.store)
            return b_and(a, b) if op == "&&" else b_or(a, b)
        a = self.ev(e["a"], fr, st)
        b = self.ev(e["b"], fr, st)
        ta, tb = self.ty(fr, e["a"]), self.ty(fr, e["b"])
        isint = ta["k"] in ("int", "enum", "bool") and tb["k"] in ("int", "enum", "bool")
        return self.binop(op, a, b, isint, self.ty(fr, e), ta, tb)

    def equal(self, a, b, isint):
        if a.op in ("enum", "str", "null", "true", "false") or b.op in ("enum", "str", "null", "true", "false"):
            return eq(a, b)
        return eq_num(a, b, isint)

    def binop(self, op, a, b, isint, t, ta=None, tb=None):
        if op == "+":
            return add2(a, b)
        if op == "-":
            return sub2(a, b)
        if op == "*":
            return mul2(a, b)
        if op == "/":
            if isint:
                def f(x, y):
                    if x.op == "num" and y.op == "num" and y.args[0] != 0:
                        return num(int(x.args[0] / y.args[0]))
                    return mk("app", "idiv", x, y)
                return lift("idiv", f, (a, b))
            return div2(a, b)
        if op == "%":
            return lift("imod", lambda x, y: mk("app", "imod", x, y), (a, b))
        if op in ("<", ">", "<=", ">="):
            return {"<": lambda: lt(a, b, isint), ">": lambda: lt(b, a, isint), "<=": lambda: le(a, b, isint),
                    ">=": lambda: le(b, a, isint)}[op]()
        if op in ("==", "!="):
            k = ta["k"] if ta else ""
            if k in ("enum", "ptr", "bool", "rec") or (tb and tb["k"] in ("ptr", "enum", "bool")):
                if k == "bool" or (tb and tb["k"] == "bool"):
                    x, y = as_bool(a), as_bool(b)
                    r = T._ite3(x, y, b_not(y))
                else:
                    r = eq(a, b)
            else:
                r = self.equal(a, b, isint)
            return r if op == "==" else b_not(r)
        if op in ("&", "|", "^") and t["k"] == "bool":
            x, y = as_bool(a), as_bool(b)
            return {"&": b_and, "|": b_or}.get(op, lambda u, v: T._ite3(u, b_not(v), v))(x, y)
        return lift(("bin", op), lambda x, y: mk("app", "bin" + op, x, y), (a, b))

    def written(self, e, fr, st):
        """where an assignment writes; writing through what a call returned by value is not understood"""
        p = self.lv(e, fr, st)
        if (p.args[0] if p.op == "addr" else p) in self.values:
            raise Unsupported("write through " + str(e.get("n")))
        return p

    def e_asg(self, e, fr, st):
        op = e["op"]
        p = None
        if op == "=":
            v = self.ev(e["b"], fr, st)
            p = self.written(e["a"], fr, st)
            t = self.ty(fr, e["a"])
            self.store(st, p, v)
            return v
        p = self.written(e["a"], fr, st)
        old = self.load(st, p)
        b = self.ev(e["b"], fr, st)
        ta, tb = self.ty(fr, e["a"]), self.ty(fr, e["b"])
        isint = ta["k"] == "int" and tb["k"] == "int"
        v = self.binop(op[:-1], old, b, isint, ta, ta, tb)
        self.store(st, p, v)
        return v

    def e_cond(self, e, fr, st):
        c = self.cond(e["c"], fr, st)
        if c is TRUE:
            return self.ev(e["a"], fr, st)
        if c is FALSE:
            return self.ev(e["b"], fr, st)
        s1, s2 = st.copy(), st.copy()
        s1.pc = b_and(st.pc, c)
        s2.pc = b_and(st.pc, b_not(c))
        if e["a"]["k"] == "throw":
            fr.exits.append(Exit("throw", s1.pc, s1.store, self.thrown_type(e["a"], fr), e["l"]))
            v = self.ev(e["b"], fr, s2)
            st.store, st.pc = s2.store, s2.pc
            return v
        if e["b"]["k"] == "throw":
            fr.exits.append(Exit("throw", s2.pc, s2.store, self.thrown_type(e["b"], fr), e["l"]))
            v = self.ev(e["a"], fr, s1)
            st.store, st.pc = s1.store, s1.pc
            return v
        a = self.ev(e["a"], fr, s1)
        b = self.ev(e["b"], fr, s2)
        st.store = self.merge_stores(c, s1.store, s2.store)
        st.pc = b_or(s1.pc, s2.pc)
        return ite(c, a, b)

    def e_sub(self, e, fr, st):
        return self.load(st, self.lv(e, fr, st))

    def e_throw(self, e, fr, st):
        fr.exits.append(Exit("throw", st.pc, dict(st.store), self.thrown_type(e, fr), e["l"]))
        st.pc = FALSE
        return UNDEF

    def thrown_type(self, e, fr):
        """class of the thrown object (None: not known)"""
        if not e.get("e"):
            return None
        t = self.rty(fr, self.ty(fr, e["e"]))
        return t.get("n") if t and t["k"] == "rec" else None

    def caught_by(self, cls, handler, fr):
        """does a handler (its JSON) catch an exception of this class?"""
        if handler.get("t") is None or cls is None:
            return True
        t = fr.types[handler["t"]]
        while t["k"] in ("ref", "rref"):
            t = fr.types[t["t"]]
        n = t.get("n")
        if n is None:
            return True
        n = strip_targs(n)
        seen, todo = set(), [strip_targs(cls)]
        while todo:
            c = todo.pop()
            if c == n:
                return True
            if c in seen:
                continue
            seen.add(c)
            r = self.p.records.get(c)
            if r is not None:
                todo += [strip_targs(b) for b in r["bases"]]
            elif c in STD_EXC:
                todo += STD_EXC[c]
        return False

    def e_delete(self, e, fr, st):
        p = self.ev(e["e"], fr, st)
        root = mk("sym", "heap")
        cur = self.content(st, root)
        st.store[root] = bag(cur, [(TRUE, (), mk("app", "delete", p))])
        return UNDEF

    def e_new(self, e, fr, st):
        t = fr.types[e["ct"]]
        cls = t.get("n", t["k"])
        v = self.ev(e["e"], fr, st) if e.get("e") else self.default_value(t, fr, st)
        k = self.newcount.get(cls, 0)
        self.newcount[cls] = k + 1
        p = mk("new", cls, k)
        if v.op == "ctorthis":
            v = v.args[0]
        # constructors that publish `this` have used the location of the object
        if v.op == "built":
            root, val = v.args
            st.store = {r: (x if r is root else x) for r, x in st.store.items()}
            m = {root.id: p}
            st.store = {r: subst(x, m) for r, x in st.store.items() if r is not root}
            v = subst(val, m)
        st.store[p] = v
        return p

    def e_lambda(self, e, fr, st):
        env = dict(fr.env)
        for c in e["caps"]:
            if "id" in c and not c.get("byref"):
                if "init" in c:
                    root = new_loc()
                    st.store[root] = self.ev(c["init"], fr, st)
                    env[c["id"]] = root
                elif c["id"] in env:
                    root = new_loc()
                    st.store[root] = self.load(st, env[c["id"]])
                    env[c["id"]] = root
        t = mk("lambda", len(self.lambdas))
        self.lambdas[t.args[0]] = (e, env, fr)
        return t

    def e_initlist(self, e, fr, st):
        t = self.ty(fr, e)
        vals = [self.ev(a, fr, st) for a in e["args"]]
        if t["k"] == "rec" and t["n"] in self.p.records:
            fs = self.p.all_fields(t["n"])
            d = {}
            for (r, f), v in zip(fs, vals):
                d[f["n"]] = v
            return rec(mk("obj", t["n"]), d)
        if t["k"] in ("int", "float", "bool", "ptr", "enum") and len(vals) == 1:
            return vals[0]
        if t["k"] == "rec" and t["n"].startswith(("std::pair",)) and len(vals) == 2:
            return rec(mk("obj", "std::pair"), dict(first=vals[0], second=vals[1]))
        return mk("listlit", tuple(vals))

    def e_typeid(self, e, fr, st):
        return mk("app", "typeid")

    def e_memfunc(self, e, fr, st):
        return mk("sym", "fn", e["f"])

    def e_unk(self, e, fr, st):
        self.note_unknown("expr " + e.get("n", "?"), fr, e["l"])
        return mk("unk", e.get("n"), fr.fn["q"], e["l"])

    # -------------------------------------------------------------------------------------------- construction
    def e_ctor(self, e, fr, st):
        cls = e["c"]
        args = e["args"]
        if e.get("copy") and len(args) == 1:
            return self.canon_rec(cls, self.ev(args[0], fr, st))
        if self.theory and cls == "placo::problem::Expression" and len(args) == 1:
            self.used_theory = True
            return self.ev(args[0], fr, st)
        r = self.h.construct(e, fr, st)
        if r is not None:
            return r
        fn = self.p.functions.get(e["f"])
        if fn is not None and self.inlinable(fn):
            return self.construct_repo(fn, e, fr, st)
        if cls in self.p.records:
            # implicit constructor: default member initialisers
            if not args:
                return self.implicit_default(cls, st)
        vals = [self.ev(a, fr, st) for a in args]
        base = re.sub(r"<.*", "", cls)
        if not vals:
            return mk("obj", base)
        self.note_unknown("ctor " + base, fr, e["l"])
        return lift(("ctor", base), lambda *x: mk("app", "ctor:" + base, *x), tuple(vals))

    def implicit_default(self, cls, st):
        root = new_loc()
        st.store[root] = mk("obj", cls)
        self.init_defaults(cls, root, st, set())
        v = st.store[root]
        del st.store[root]
        return v

    def init_defaults(self, cls, root, st, skip, only_own=False):
        r = self.p.records.get(cls)
        if r is None:
            return
        if not only_own:
            for b in r["bases"]:
                fn = self.p.functions.get(b + "::" + b.split("::")[-1] + "()")
                if fn is not None and self.inlinable(fn):
                    self.call_fn(fn, root, [], Frame(dict(types=r["types"], q=cls, file=r["loc"], rt=-1), root), st)
                    continue
                self.init_defaults(b, root, st, skip)
        f2 = Frame(dict(types=r["types"], q=cls, file=r["loc"], rt=-1), root)
        for f in r["fields"]:
            if f["n"] in skip:
                continue
            t = r["types"][f["t"]]
            if f.get("init") is not None:
                v = self.ev(f["init"], f2, st)
            elif t["k"] == "rec":
                v = self.default_value_rec(t, f2, st)
            else:
                v = UNDEF
            st.store[root] = rec(self.content(st, root), {f["n"]: v})

    def default_value_rec(self, t, fr, st):
        if self.is_mat(t):
            return self.default_value(t, fr, st)
        n = t["n"]
        if n in self.p.records:
            # user default constructor?
            for k in (n + "::" + n.split("::")[-1] + "()",):
                fn = self.p.functions.get(k)
                if fn is not None:
                    root = new_loc()
                    st.store[root] = mk("obj", n)
                    self.call_fn(fn, root, [], fr, st)
                    v = st.store.pop(root)
                    return v
            return self.implicit_default(n, st)
        return self.default_object(n, fr, st)

    def construct_repo(self, fn, e, fr, st):
        root = new_loc("o")
        st.store[root] = mk("obj", fn["cls"])
        argp = self.bind_args(fn, e["args"], fr, st)
        self.call_fn(fn, root, argp, fr, st)
        v = self.content(st, root)
        escaped = any(contains(x, lambda t: t is root) for r, x in st.store.items() if r is not root) or contains(
            v, lambda t: t is root)
        st.store.pop(root, None)
        if escaped:
            return mk("built", root, v)
        return v

    def run_ctor_inits(self, fn, fr, st, this):
        cls = fn["cls"]
        done = set()
        inits = fn.get("inits", [])
        for i in inits:
            if i.get("deleg"):
                e = i["e"]
                f2 = self.p.functions.get(e["f"]) if e["k"] == "ctor" else None
                if f2:
                    argp = self.bind_args(f2, e["args"], fr, st)
                    self.call_fn(f2, this, argp, fr, st)
                return
        r = self.p.records.get(cls)
        cur = self.content(st, this)
        # base classes
        for i in inits:
            if "base" in i:
                e = i["e"]
                bt = fr.types[i["base"]]
                if e and e["k"] == "ctor":
                    f2 = self.p.functions.get(e["f"])
                    if f2 and self.inlinable(f2):
                        argp = self.bind_args(f2, e["args"], fr, st)
                        self.call_fn(f2, this, argp, fr, st)
                    elif bt["n"] in self.p.records:
                        self.init_defaults(bt["n"], this, st, set())
                    else:
                        vals = [self.ev(a, fr, st) for a in e["args"]]
        for i in inits:
            if "n" in i:
                done.add(i["n"])
                ft = None
                if r:
                    for f in r["fields"]:
                        if f["n"] == i["n"]:
                            ft = r["types"][f["t"]]
                e = i["e"]
                if ft is not None and ft["k"] in ("ref", "rref"):
                    v = self.lv(e, fr, st)
                else:
                    v = self.ev(e, fr, st) if e is not None else UNDEF
                    if ft is not None and e is not None and e["k"] == "ctor" and e.get("def") and not e["args"] and ft["k"] == "rec":
                        v = self.default_value_rec(ft, fr, st) if not self.is_mat(ft) else self.default_value(ft, fr, st)
                if v.op == "built":
                    v = v.args[1]
                st.store[this] = rec(self.content(st, this), {i["n"]: v})
        if r:
            self.init_defaults(cls, this, st, done, only_own=True) if False else self._rest_defaults(r, this, st, done)

    def fresh_object(self, cls, root, st):
        """object under construction as a reference sees it: members of class type are default constructed, others unset"""
        r = self.p.records.get(cls)
        if r is None:
            return
        for b in r.get("bases", []):
            b = b["n"] if isinstance(b, dict) else (r["types"][b]["n"] if isinstance(b, int) else b)
            self.fresh_object(b, root, st)
        for f in r["fields"]:
            t = r["types"][f["t"]]
            f2 = Frame(dict(types=r["types"], q=r["loc"], file=r["loc"], rt=-1), root)
            v = self.default_value_rec(t, f2, st) if t["k"] == "rec" else T.UNINIT
            st.store[root] = rec(self.content(st, root), {f["n"]: v})

    def _rest_defaults(self, r, this, st, done):
        for f in r["fields"]:
            if f["n"] in done:
                continue
            t = r["types"][f["t"]]
            f2 = Frame(dict(types=r["types"], q=r["loc"], file=r["loc"], rt=-1), this)
            if f.get("init") is not None:
                v = self.ev(f["init"], f2, st)
            elif t["k"] == "rec":
                v = self.default_value_rec(t, f2, st)
            else:
                v = T.UNINIT
            st.store[this] = rec(self.content(st, this), {f["n"]: v})

    # -------------------------------------------------------------------------------------------- calls
    def note_opaque(self, q):
        if q in MODULAR:
            self.used_modular = True
        else:
            self.used_theory = True

    def inlinable(self, fn):
        if self.opaque.get(fn["key"]) or self.opaque.get(fn["q"]):
            self.note_opaque(fn["q"])
            return False
        if fn.get("body") is None and not fn.get("ctor"):
            return False
        if len(self.stack) > self.inline_depth or fn["key"] in self.stack:
            return False
        return True

    def bind_args(self, fn, args, fr, st):
        out = []
        types = fn["types"]
        for i, prm in enumerate(fn["params"]):
            t = types[prm["t"]]
            a = args[i] if i < len(args) else None
            if a is None:
                out.append(new_loc())
                continue
            if t["k"] in ("ref", "rref"):
                out.append(self.lv(a, fr, st))
            else:
                root = new_loc()
                v = self.ev(a, fr, st)
                st.store[root] = v
                out.append(root)
        return out

    def call_fn(self, fn, this, argp, fr, st):
        """inline; returns value or (for reference results) pointer"""
        nf = Frame(fn, this, fr)
        for prm, a in zip(fn["params"], argp):
            nf.env[prm["id"]] = a
        rt = fn["types"][fn["rt"]] if fn["rt"] >= 0 else {"k": "void"}
        nf.ret_ref = rt["k"] in ("ref", "rref")
        self.stack.append(fn["key"])
        self.trace_calls.add(fn["key"])
        s2 = State(dict(st.store), st.pc)
        try:
            if fn.get("ctor"):
                self.run_ctor_inits(fn, nf, s2, this)
            live = self.exec(fn["body"], nf, s2)
        finally:
            self.stack.pop()
        return self.finish_inline(nf, live, fr, st)

    def finish_inline(self, nf, live, fr, st):
        if live is not None:
            nf.exits.append(Exit("ret", live.pc, live.store, None))
        rets = [x for x in nf.exits if x.kind == "ret" and x.pc is not FALSE]
        for x in nf.exits:
            if x.kind == "throw" and x.pc is not FALSE:
                fr.exits.append(x)
        if not rets:
            st.pc = FALSE
            return UNDEF
        val, store, pc = rets[-1].val, rets[-1].store, rets[-1].pc
        for x in reversed(rets[:-1]):
            if x.val is not None and val is not None:
                val = ite(x.pc, x.val, val)
            store = self.merge_stores(x.pc, x.store, store)
            pc = b_or(pc, x.pc)
        if len(rets) > 1 and val is not None and val.op == "ite" and st.pc is not TRUE:
            val = restrict(val, st.pc)
        st.store, st.pc = store, pc
        return val

    def call(self, e, fr, st, want_lv=False):
        """-> ('lv', pointer) or ('v', value)"""
        key = e.get("f")
        # lambda or function object
        if key is None:
            c = self.ev(e["callee"], fr, st)
            if c.op == "sym" and c.args[0] == "fn":
                fn = self.p.functions.get(c.args[1])
                if fn is not None:
                    argp = self.bind_args(fn, e["args"], fr, st)
                    return self.wrap_ret(fn, self.call_fn(fn, None, argp, fr, st))
            vals = [self.ev(a, fr, st) for a in e["args"]]
            self.note_unknown("indirect call", fr, e["l"])
            return ("v", mk("unk", "call", *vals))
        if e.get("op") == "()" and e.get("obj"):
            o = self.ev(e["obj"], fr, st) if self.ty(fr, e["obj"])["k"] == "rec" and not self.is_mat(self.ty(fr, e["obj"])) else None
            if o is not None and o.op == "lambda":
                return self.call_lambda(o, e, fr, st)
            if o is not None and o.op == "sym" and o.args[0] == "fn":
                fn = self.p.functions.get(o.args[1])
                if fn is not None:
                    argp = self.bind_args(fn, e["args"], fr, st)
                    return self.wrap_ret(fn, self.call_fn(fn, None, argp, fr, st))
        op = self.opaque.get(key) or self.opaque.get(e.get("q"))
        fn = self.p.functions.get(key)
        if op is not None:
            self.note_opaque(e.get("q"))
            return self.call_opaque(op, e, fr, st)
        if e.get("q") == "spec::bind":
            # reference member := address
            m = e["args"][0]
            while m["k"] != "mem" and m.get("e"):
                m = m["e"]
            o = self.ev(m["b"], fr, st) if m.get("a") else self.lv(m["b"], fr, st)
            self.store(st, extend(o, ("f", m["n"])), self.lv(e["args"][1], fr, st))
            return ("v", UNDEF)
        if e.get("q") == "spec::init":
            v = self.ev(e["args"][1], fr, st)
            self.store(st, self.lv(e["args"][0], fr, st), v)
            return ("v", UNDEF)
        if e.get("q") == "spec::require":
            c = self.cond(e["args"][0], fr, st)
            self.dontcare = b_or(self.dontcare, b_and(st.pc, b_not(c)))
            st.pc = b_and(st.pc, c)
            return ("v", UNDEF)
        if fn is not None and e.get("virt") and self.virtual_target(key) is False:
            return self.call_virtual(e, fr, st)
        sfn = self.spec_map.get(key)
        if sfn is not None and self.inlinable(sfn):
            pre = []
            if e.get("m") and not e.get("mstatic"):
                pre = [self.obj_ptr(e, fr, st)]
            tmp = dict(sfn)
            tmp["params"] = sfn["params"][len(pre):]
            argp = pre + self.bind_args(tmp, e["args"], fr, st)
            return self.wrap_ret(sfn, self.call_fn(sfn, None, argp, fr, st))
        if fn is not None and self.inlinable(fn):
            this = None
            if e.get("m") and not e.get("mstatic"):
                this = self.obj_ptr(e, fr, st)
            argp = self.bind_args(fn, e["args"], fr, st)
            v = self.call_fn(fn, this, argp, fr, st)
            return self.wrap_ret(fn, v)
        if e.get("virt") and fn is None and (e.get("c") in self.p.records):
            return self.call_virtual(e, fr, st)
        r = self.h.call(e, fr, st)
        if r is not None:
            return r
        return self.call_generic(e, fr, st)

    def wrap_ret(self, fn, v):
        rt = fn["types"][fn["rt"]] if fn["rt"] >= 0 else {"k": "void"}
        if rt["k"] in ("ref", "rref"):
            return ("lv", v if v is not None else UNDEF)
        return ("v", v if v is not None else UNDEF)

    def obj_ptr(self, e, fr, st):
        o = e["obj"]
        t = self.rty(fr, fr.types[o["t"]])
        if t["k"] == "ptr":
            return self.ev(o, fr, st)
        return self.lv(o, fr, st)

    def call_lambda(self, lam, e, fr, st):
        node, env, dfr = self.lambdas[lam.args[0]]
        nf = Frame(dfr.fn, dfr.this, fr)
        nf.types = dfr.types
        nf.env = dict(env)
        for prm, a in zip(node["params"], e["args"]):
            t = dfr.types[prm["t"]]
            if t["k"] in ("ref", "rref"):
                nf.env[prm["id"]] = self.lv(a, fr, st)
            else:
                root = new_loc()
                st.store[root] = self.ev(a, fr, st)
                nf.env[prm["id"]] = root
        rt = fr.types[e["rt"]]
        nf.ret_ref = rt["k"] in ("ref", "rref")
        s2 = State(dict(st.store), st.pc)
        live = self.exec(node["body"], nf, s2)
        v = self.finish_inline(nf, live, fr, st)
        return ("lv", v) if nf.ret_ref else ("v", v)

    def apply_lambda(self, lam, argp, fr, st):
        """call a lambda term with argument pointers"""
        node, env, dfr = self.lambdas[lam.args[0]]
        nf = Frame(dfr.fn, dfr.this, fr)
        nf.types = dfr.types
        nf.env = dict(env)
        for prm, a in zip(node["params"], argp):
            t = dfr.types[prm["t"]]
            if t["k"] in ("ref", "rref"):
                nf.env[prm["id"]] = a
            else:
                root = new_loc()
                st.store[root] = self.load(st, a)
                nf.env[prm["id"]] = root
        s2 = State(dict(st.store), st.pc)
        live = self.exec(node["body"], nf, s2)
        return self.finish_inline(nf, live, fr, st)

    def virtual_target(self, key):
        """False when the call may dispatch to an override"""
        return not self.p.overriders.get(key)

    def call_virtual(self, e, fr, st):
        p = self.obj_ptr(e, fr, st)
        name = "virtual:" + e["q"]
        return self.effect_call(name, p, e, fr, st, const=e.get("mconst"))

    def arg_vals(self, e, fr, st):
        """values of arguments; addresses of non-const reference/pointer parameters"""
        vals, outs = [], []
        for i, a in enumerate(e["args"]):
            pt = fr.types[e["pt"][i]] if i < len(e["pt"]) else None
            if pt is not None and pt["k"] == "ref" and not fr.types[pt["t"]].get("const"):
                p = self.lv(a, fr, st)
                outs.append((i, p))
                vals.append(self.load(st, p))
            else:
                v = self.ev(a, fr, st)
                if pt is not None and pt["k"] == "ptr" and v.op not in ("null", "str") and not fr.types[pt["t"]].get("const"):
                    vals.append(v)
                else:
                    vals.append(v)
        return vals, outs

    def effect_call(self, name, p, e, fr, st, const=False, pure=False, paths=None):
        """opaque method on *p; paths: what it may change in its reference arguments"""
        obj = self.load(st, p)
        vals, outs = self.arg_vals(e, fr, st)
        args = (obj,) + tuple(vals)
        if not const and not pure:
            self.store(st, p, app(name + "!", *args))
        for i, q in outs:
            if paths is None:
                self.store(st, q, app(name + "#%d" % i, *args))
                continue
            for j, path in enumerate(paths.get(i, ())):
                w = q
                for a in path:
                    w = extend(w, ("i", vals[a[1]]) if a[0] == "i" else a)
                self.store(st, w, app(name + "#%d.%d" % (i, j), *args))
        rt = fr.types[e["rt"]]
        if rt["k"] == "void":
            return ("v", UNDEF)
        r = app(name, *args)
        if rt["k"] in ("ref", "rref"):
            return ("lv", r)
        return ("v", r)

    def call_opaque(self, spec, e, fr, st):
        if callable(spec):
            return spec(self, e, fr, st)
        kind = spec if isinstance(spec, str) else spec[0]
        name = e["q"]
        if kind == "pure":
            vals = []
            if e.get("m") and not e.get("mstatic"):
                vals.append(self.load(st, self.obj_ptr(e, fr, st)))
            vals += [self.ev(a, fr, st) for a in e["args"]]
            if T.SOLUTION in st.store and strip_targs(name) in READS_SOLUTION:
                vals.append(st.store[T.SOLUTION])
            r = app(sig(e), *vals)
            return ("v", r)
        if kind == "ignore":
            return ("v", UNDEF)
        if kind == "effect":
            keep, paths = FRAME.get(name, (False, None))
            return self.effect_call(sig(e), self.obj_ptr(e, fr, st), e, fr, st, const=keep, paths=paths)
        raise Unsupported("opaque kind " + str(kind))

    def call_generic(self, e, fr, st):
        name = strip_targs(e["q"])
        self.note_unknown("call " + name, fr, e["l"])
        if e.get("m") and not e.get("mstatic"):
            p = self.obj_ptr(e, fr, st)
            return self.effect_call(name, p, e, fr, st, const=e.get("mconst"))
        vals, outs = self.arg_vals(e, fr, st)
        for i, q in outs:
            self.store(st, q, app(name + "#%d" % i, *vals))
        rt = fr.types[e["rt"]]
        if rt["k"] == "void":
            return ("v", UNDEF)
        r = app(name, *vals)
        return ("lv", r) if rt["k"] == "ref" else ("v", r)

    def e_call(self, e, fr, st):
        r = self.call(e, fr, st)
        if r[0] == "lv":
            return self.load(st, r[1])
        return r[1]


def app(name, *args):
    args = tuple(a if a is not None else UNDEF for a in args)
    if any(a.op in STRUCT for a in args):
        return mk("app", name, *args)
    return lift(("app", name), lambda *x: mk("app", name, *x), args)


def strip_targs(q):
    out, d = [], 0
    q = q.replace("operator<", "operator\x01").replace("operator>", "operator\x02")
    for ch in q:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out.append(ch)
    return "".join(out).replace("\x01", "<").replace("\x02", ">")


def sig(e):
    """name + parameter types: distinguishes overloads"""
    return e["f"]


def trip(n):
    if n.op == "num":
        return num(max(0, n.args[0]))
    return n


def bind_to(e, b):
    bb = fresh_lc()
    e2 = map_terms(e, lambda t: subst(t, {b.id: bb}))
    return bind_entry(e2, bb, b)


def is_boolean(t, memo=None):
    if t.op in ("true", "false"):
        return True
    if t.op == "ite":
        return is_boolean(t.args[1]) and is_boolean(t.args[2])
    return False


def collect_leaves(t, g, out, limit):
    if t.op == "ite":
        a = mk("ite", t.args[0], TRUE, FALSE)
        return collect_leaves(t.args[1], b_and(g, a), out, limit) and collect_leaves(t.args[2], b_and(g, b_not(a)), out, limit)
    out[t] = b_or(out.get(t, FALSE), g)
    return len(out) < limit


def reach(k, deps, allowed):
    seen = []
    st = [k]
    while st:
        x = st.pop()
        for d in deps.get(x, []):
            if d in allowed and d not in seen:
                seen.append(d)
                st.append(d)
    return seen
