"""Memory analyses: ownership, lifetime of temporaries and of references into containers, bounded text."""
import json
from bind import walk
from lints import Lint, ALL

UNITS = ("problem_expr", "problem", "tools", "kin_solver", "kin_tasks", "dyn_solver", "dyn_tasks", "humanoid_a", "humanoid_b")
PLAIN = ("Eigen::Matrix", "Eigen::Array", "Eigen::Transform", "Eigen::Quaternion", "Eigen::AngleAxis", "Eigen::Translation", "Eigen::Rotation2D")
UNBOUNDED = ("sprintf", "vsprintf", "strcpy", "strcat", "gets", "scanf", "sscanf", "fscanf", "stpcpy", "alloca")
GROW = ("push_back", "emplace_back", "insert", "emplace", "erase", "resize", "clear", "reserve", "assign", "pop_back", "shrink_to_fit",
        "push_front", "pop_front", "emplace_front", "swap")
SEQ = ("std::vector", "std::deque", "std::basic_string")


def functions(p):
    for k, f in sorted(p.functions.items()):
        if f.get("body") and (k.startswith("placo::") or "placo" in (f.get("file") or "")) and not k.startswith("spec::"):
            yield k, f


def bodies(p):
    """functions with a body, and the registrations and lambdas of the interface"""
    for k, f in sorted(p.functions.items()):
        if f.get("body") and not k.startswith("spec::"):
            yield k, f


def viol(k, f, l, what, code, req, ident=None):
    return dict(where=k, what=what, id=ident or "%s:%s" % (k, what), file=f.get("file"), line=l or f.get("line"), code=code, required=req)


def strip(n):
    """an expression without positions, to compare two of them"""
    if isinstance(n, dict):
        return {k: strip(v) for k, v in n.items() if k not in ("l", "t", "rt", "pt", "mconst", "arrow")}
    if isinstance(n, list):
        return [strip(x) for x in n]
    return n


def same(a, b):
    return json.dumps(strip(a), sort_keys=True) == json.dumps(strip(b), sort_keys=True)


def ty(f, n):
    return f["types"][n["t"]] if isinstance(n, dict) and isinstance(n.get("t"), int) else None


def deref(f, t):
    while t and t.get("k") in ("ref", "rref"):
        t = f["types"][t["t"]]
    return t


class Bounded(Lint):
    """no C function that writes text of unknown length"""
    props = ("M01",)
    units = UNITS

    def run(self, p, ext):
        n, out = 0, []
        for k, f in functions(p):
            for x in walk(f["body"]):
                if x.get("k") == "call" and x.get("n"):
                    n += 1
                    if x["n"] in UNBOUNDED:
                        out.append(viol(k, f, x.get("l"), x["n"], "call of %s, whose output length depends on its arguments" % x["n"],
                                        "text is built with a bounded function or a string"))
        return dict(name="unbounded C text functions", obligations=n, decided=n, violations=out,
                    rule="no function calls " + ", ".join(UNBOUNDED))


class Ownership(Lint):
    """objects that own others are not copied; objects are released through a virtual destructor"""
    props = ("M02",)
    units = UNITS
    bindings = True

    def run(self, p, ext):
        own, n, out = set(), 0, []
        derived = set()
        for c, r in p.records.items():
            for b in r.get("bases", []):
                derived.add(b["n"] if isinstance(b, dict) else b)
        for k, f in bodies(p):
            for x in walk(f["body"]):
                if x.get("k") != "delete":
                    continue
                n += 1
                t = ty(f, x["e"])
                t = f["types"][t["t"]] if t and t.get("k") == "ptr" else None
                if not t or t.get("k") != "rec":
                    continue
                r = p.records.get(t["n"])
                if r is not None and not r.get("vdtor") and t["n"] in derived:
                    out.append(viol(k, f, x.get("l"), "release of " + t["n"], "deleted through %s, whose destructor is not virtual" % t["n"],
                                    "a class with derived classes is deleted through a virtual destructor"))
                if f.get("dtor") and f.get("cls"):
                    own.add(f["cls"])
            # a destructor that calls a releasing member function owns too
        for k, f in bodies(p):
            if f.get("dtor") and f.get("cls"):
                todo, seen = [f], set()
                while todo:
                    g = todo.pop()
                    if g["key"] in seen or not g.get("body"):
                        continue
                    seen.add(g["key"])
                    for x in walk(g["body"]):
                        if x.get("k") == "delete":
                            own.add(f["cls"])
                        if x.get("k") == "call" and (x.get("obj") or {}).get("k") == "this" and x.get("f") in p.functions:
                            todo.append(p.functions[x["f"]])
        direct = set(own)
        while True:
            more = {c for c, r in p.records.items() if c not in own and c.startswith("placo::")
                    and any(r["types"][x["t"]].get("k") == "rec" and r["types"][x["t"]]["n"] in own for x in r["fields"])}
            if not more:
                break
            own |= more
        for k, f in bodies(p):
            ok = set()
            for s in walk(f["body"]):
                # a local object that is returned is constructed in place
                if s.get("k") == "return" and isinstance(s.get("e"), dict) and s["e"].get("k") == "ctor" and s["e"].get("copy"):
                    a = s["e"]["args"][0]
                    while a.get("k") in ("cast", "paren"):
                        a = a["e"]
                    if a.get("k") == "ref" and self.local(f, a):
                        ok.add(id(s["e"]))
            for x in walk([f["body"], f.get("inits")]):
                if x.get("k") == "ctor" and x.get("copy") and x.get("c") in own and id(x) not in ok:
                    out.append(viol(k, f, x.get("l"), "copy of " + x["c"], "copies an object that releases what it owns when destroyed",
                                    "objects that own others are referred to, never copied"))
                elif x.get("k") == "call" and x.get("op") == "=" and x.get("c") in own:
                    out.append(viol(k, f, x.get("l"), "assignment of " + x["c"], "assigns an object that releases what it owns when destroyed",
                                    "objects that own others are referred to, never copied"))
                n += x.get("k") == "ctor" and x.get("c") in own
        return dict(name="ownership", obligations=n + len(own), decided=n + len(own), violations=out, owners=sorted(own), owners_direct=sorted(direct),
                    rule="no copy construction or assignment of a class whose destructor (or that of a member) deletes; every delete of a class with "
                         "derived classes goes through a virtual destructor")

    def local(self, f, a):
        ids = {v["id"] for s in walk(f["body"]) if s.get("k") == "decl" for v in s["v"]}
        return a.get("id") in ids


class Lifetime(Lint):
    """no lazily evaluated matrix expression, reference or iterator outlives what it refers to"""
    props = ("M03",)
    units = UNITS
    bindings = True

    def lazy(self, t):
        return bool(t) and t.get("k") == "rec" and t["n"].startswith("Eigen::") and t["n"] not in PLAIN and "rows" in t

    def plain_value(self, f, n):
        """a call or construction that yields a matrix by value"""
        if n.get("k") == "ctor":
            return n.get("c") in PLAIN
        if n.get("k") == "call" and isinstance(n.get("rt"), int):
            t = f["types"][n["rt"]]
            return t.get("k") == "rec" and t["n"] in ("Eigen::Matrix", "Eigen::Array")
        return False

    def operands(self, n):
        k = n.get("k")
        if k == "call":
            return [x for x in [n.get("obj")] + n.get("args", []) if isinstance(x, dict)]
        if k in ("cond",):
            return [n["a"], n["b"]]
        if k == "bin":
            return [n["a"], n["b"]]
        if k in ("un", "cast", "paren"):
            return [n["e"]]
        if k == "ctor" and n.get("copy"):
            return n["args"]
        if k == "mem":
            return [n["b"]] if isinstance(n.get("b"), dict) else []
        return []

    def temp(self, f, n):
        """a temporary matrix that the lazy expression n still refers to"""
        for x in self.operands(n):
            t = deref(f, ty(f, x))
            if self.plain_value(f, x):
                # fixed-size scalars and indices are not operands of the expression
                return x
            if self.lazy(t) or x.get("k") in ("cast", "paren", "cond", "un") or x.get("k") == "ctor" and x.get("copy"):
                y = self.temp(f, x)
                if y:
                    return y
            if x.get("k") == "mem" or x.get("k") == "call" and f["types"][x["rt"]].get("k") in ("ref", "rref") if isinstance(x.get("rt"), int) or x.get("k") == "mem" else False:
                pass
        return None

    def run(self, p, ext):
        n, out = 0, []
        for k, f in bodies(p):
            lams = []
            for x in walk(f["body"]):
                if x.get("k") == "decl":
                    for v in x["v"]:
                        t = f["types"][v["t"]]
                        if self.lazy(t) and isinstance(v.get("init"), dict):
                            n += 1
                            y = self.temp(f, v["init"])
                            if y:
                                out.append(viol(k, f, v.get("l"), "lifetime of " + v["n"],
                                                "an expression that refers to a temporary matrix destroyed at the end of the statement",
                                                "the value is evaluated (or the temporary named) before it is used"))
                        if t.get("k") in ("ref", "rref") and isinstance(v.get("init"), dict):
                            n += 1
                            y = self.refs_temp(f, v["init"])
                            if y:
                                out.append(viol(k, f, v.get("l"), "lifetime of " + v["n"],
                                                "a reference obtained from a temporary destroyed at the end of the statement",
                                                "a reference is bound to an object that outlives it"))
            r = f["types"][f["rt"]] if isinstance(f.get("rt"), int) else None
            if r:
                own = {v["id"] for s in walk(f["body"]) if s.get("k") == "decl" for v in s["v"]
                       if not v.get("static") and f["types"][v["t"]].get("k") not in ("ref", "rref", "ptr")}
                own |= {q["id"] for q in f.get("params", []) if f["types"][q["t"]].get("k") not in ("ref", "rref", "ptr")}
                lam = set()
                for x in walk(f["body"]):
                    if x.get("k") == "lambda":
                        lam |= {id(y) for y in walk(x)}
                for s in walk(f["body"]):
                    if s.get("k") != "return" or id(s) in lam or not isinstance(s.get("e"), dict):
                        continue
                    if r.get("k") == "ref" or r.get("k") == "ptr":
                        n += 1
                        a = s["e"]
                        if r.get("k") == "ptr":
                            if not (a.get("k") == "un" and a["op"] == "&"):
                                continue
                            a = a["e"]
                        root = self.root(f, a)
                        if root is not None and root.get("k") == "ref" and root.get("id") in own:
                            out.append(viol(k, f, s.get("l"), "lifetime of the result", "refers to the local " + str(root.get("n")),
                                            "the result refers to an object that outlives the call"))
                    elif self.lazy(r):
                        n += 1
            m, o = Invalidation(k, f).run()
            n += m
            out += o
        return dict(name="lifetime of references, expressions and iterators", obligations=n, decided=n, violations=out,
                    rule="no variable holds an unevaluated matrix expression over, or a reference into, a temporary; no function returns a reference "
                         "to a local; no reference or iterator into a container is used after the container was changed")

    def root(self, f, a):
        """the variable whose storage the lvalue lies in, None if it goes through a pointer, a reference or an unknown call"""
        while True:
            k = a.get("k")
            if k in ("cast", "paren"):
                a = a["e"]
            elif k == "mem":
                if a.get("a"):
                    return None
                a = a["b"]
            elif k == "call" and a.get("obj") and a.get("n") in ("operator[]", "at", "front", "back", "operator()", "value", "coeffRef") \
                    or k == "call" and a.get("obj") and a.get("op") in ("[]", "()"):
                t = deref(f, ty(f, a["obj"]))
                if not t or t.get("k") != "rec" or not (t["n"] in ("std::vector", "std::map", "std::array", "std::deque", "std::unordered_map") or t["n"] == "Eigen::Matrix"):
                    return None
                a = a["obj"]
            else:
                return a

    def refs_temp(self, f, a):
        """x in `T& r = x` is a member function result by reference of a by-value call, e.g. f().at(0)"""
        while a.get("k") in ("cast", "paren"):
            a = a["e"]
        if a.get("k") == "call" and isinstance(a.get("rt"), int) and f["types"][a["rt"]].get("k") == "ref" and a.get("obj"):
            o = a["obj"]
            while o.get("k") in ("cast", "paren", "mem") and not o.get("a"):
                o = o.get("e") or o.get("b")
                if not isinstance(o, dict):
                    return None
            t = deref(f, ty(f, o))
            if o.get("k") == "call" and isinstance(o.get("rt"), int) and f["types"][o["rt"]].get("k") == "rec" and t and t.get("k") == "rec" and \
                    t["n"] in ("std::vector", "std::map", "std::array", "std::deque", "std::unordered_map", "Eigen::Matrix", "std::basic_string"):
                return o
        return None


class Invalidation:
    """references and iterators into a growing container (flow-sensitive over the statements of one function)"""

    def __init__(self, k, f):
        self.k, self.f, self.n, self.out = k, f, 0, []

    def run(self):
        self.stmt(self.f["body"], {}, set())
        return self.n, self.out

    def container(self, o):
        t = deref(self.f, ty(self.f, o))
        return bool(t) and t.get("k") == "rec" and t["n"] in SEQ

    def into(self, e):
        """the container expression that a reference bound to e points into"""
        while isinstance(e, dict):
            k = e.get("k")
            if k in ("cast", "paren"):
                e = e["e"]
            elif k == "mem" and not e.get("a"):
                e = e["b"]
            elif k == "call" and e.get("obj") and (e.get("op") == "[]" or e.get("n") in ("at", "back", "front")):
                return e["obj"] if self.container(e["obj"]) else None
            else:
                return None
        return None

    def iterator(self, e):
        while isinstance(e, dict) and e.get("k") in ("cast", "paren", "ctor"):
            e = e.get("e") or (e.get("args") or [None])[0]
        if isinstance(e, dict) and e.get("k") == "call" and e.get("obj") and e.get("n") in ("begin", "end", "rbegin", "find", "insert", "erase") \
                and self.container(e["obj"]):
            return e["obj"]
        return None

    def ordered(self, e):
        """sub-expressions, operands first"""
        if isinstance(e, dict):
            if e.get("k") == "lambda":
                return
            for k, v in e.items():
                if isinstance(v, (dict, list)):
                    yield from self.ordered(v)
            yield e
        elif isinstance(e, list):
            for x in e:
                yield from self.ordered(x)

    def expr(self, e, env, dead):
        """env: variable -> container expression; dead: invalidated variables"""
        if not isinstance(e, dict):
            return
        for x in self.ordered(e):
            if x.get("k") == "ref" and x.get("id") in dead:
                if x.get("id") in self.assigned_here(e):
                    continue
                self.out.append(viol(self.k, self.f, x.get("l") or e.get("l"), "use of " + str(x.get("n")),
                                     "refers into a container that was changed since", "references and iterators are used before their container changes"))
                dead.discard(x.get("id"))
        self.change(e, env, dead)
        # it = v.erase(it)
        for x in self.ordered(e):
            if x.get("k") == "asg" or x.get("k") == "call" and x.get("op") == "=":
                a = x.get("a") or x.get("obj")
                if isinstance(a, dict) and a.get("k") == "ref" and a.get("id") in env:
                    dead.discard(a["id"])

    def assigned_here(self, e):
        s = set()
        for x in self.ordered(e):
            if x.get("k") == "asg" and x["a"].get("k") == "ref":
                s.add(x["a"].get("id"))
            if x.get("k") == "call" and x.get("op") == "=" and (x.get("obj") or {}).get("k") == "ref":
                s.add(x["obj"].get("id"))
        return s

    def change(self, e, env, dead):
        for x in self.ordered(e):
            if x.get("k") == "call" and x.get("n") in GROW and x.get("obj") and self.container(x["obj"]):
                self.n += 1
                for v, c in env.items():
                    if same(c, x["obj"]) and not (x["n"] in ("pop_back",)):
                        dead.add(v)

    def stmt(self, s, env, dead):
        """returns whether control falls through; env and dead are updated in place"""
        if not isinstance(s, dict):
            return True
        k = s.get("k")
        if k == "block":
            inner = dict(env)
            for x in s["b"]:
                if not self.stmt(x, inner, dead):
                    return False
            return True
        if k == "decl":
            for v in s["v"]:
                if isinstance(v.get("init"), dict):
                    self.expr(v["init"], env, dead)
                    t = self.f["types"][v["t"]]
                    c = self.into(v["init"]) if t.get("k") in ("ref", "rref") else self.iterator(v["init"])
                    if c is not None:
                        self.n += 1
                        env[v["id"]] = c
                        dead.discard(v["id"])
            return True
        if k in ("return", "throw"):
            self.expr(s.get("e"), env, dead)
            return False
        if k in ("break", "continue"):
            return False
        if k == "expr":
            self.expr(s["e"], env, dead)
            e = s["e"]
            return not (isinstance(e, dict) and e.get("k") == "throw")
        if k == "if":
            self.stmt(s.get("init"), env, dead)
            self.stmt(s.get("cv"), env, dead)
            self.expr(s.get("c"), env, dead)
            d1, d2 = set(dead), set(dead)
            l1 = self.stmt(s.get("a"), dict(env), d1)
            l2 = self.stmt(s.get("b"), dict(env), d2)
            dead.clear()
            if l1:
                dead |= d1
            if l2:
                dead |= d2
            return l1 or l2
        if k in ("for", "while", "do", "rangefor"):
            inner = dict(env)
            self.stmt(s.get("init"), inner, dead)
            if k == "rangefor":
                c = s["range"]
                while isinstance(c, dict) and c.get("k") in ("cast", "paren"):
                    c = c["e"]
                if self.container(c) and c.get("k") in ("ref", "mem", "call"):
                    self.n += 1
                    inner["<range>"] = c
                    t = self.f["types"][s["v"]["t"]]
                    if t.get("k") in ("ref", "rref"):
                        inner[s["v"]["id"]] = c
                self.expr(s["range"], env, dead)
            self.expr(s.get("c"), inner, dead) if isinstance(s.get("c"), dict) else None
            d = set(dead)
            if self.stmt(s.get("body"), inner, d) or self.continues(s.get("body")):
                if "<range>" in d:
                    self.out.append(viol(self.k, self.f, s.get("l"), "iteration over a container", "the container is changed while it is iterated over",
                                         "a container does not change between the steps of an iteration over it"))
                    d.discard("<range>")
                if isinstance(s.get("inc"), dict):
                    self.expr(s["inc"], inner, d)
                # second round: what the first one invalidated is used again
                if isinstance(s.get("c"), dict):
                    self.expr(s["c"], inner, d)
                d.discard(s["v"]["id"]) if k == "rangefor" else None
                seen = len(self.out)
                self.stmt(s.get("body"), inner, d)
                del self.out[seen + 1:]
            dead |= {v for v in d if v in env}
            return True
        if k == "try":
            self.stmt(s.get("b"), env, dead)
            for h in s.get("h", []):
                self.stmt(h.get("b"), dict(env), set(dead))
            return True
        if k in ("switch", "case", "default"):
            self.expr(s.get("c"), env, dead) if isinstance(s.get("c"), dict) else None
            self.stmt(s.get("body") or s.get("b"), env, dead)
            return True
        return True

    def continues(self, s):
        # invalidations on a path that ends in `continue` are not followed
        return False


ALL += [Bounded(), Ownership(), Lifetime()]
