"""Structural analyses that are not function-by-function comparisons."""


class Lint:
    units = ()
    bindings = False
    props = ()

    def run(self, p, ext):
        raise NotImplementedError


ALL = []


def for_property(pid):
    return [l for l in ALL if pid in l.props]


class Bindings(Lint):
    """every attribute of the Python interface reads, writes and calls the C++ entity recorded in spec/bindings.tsv"""
    props = ("B01",)
    bindings = True
    units = ("none",)

    def simple(self, p, acc, depth=0):
        """canonical accessor: a lambda or one-line function that only forwards is what it forwards to"""
        import bind
        if acc.kind in ("field", "enum"):
            return acc.kind, acc.target
        if acc.kind == "func":
            return "func", acc.target
        if acc.kind != "lambda":
            return None
        n = acc.node
        prm = [x["id"] for x in n["params"]]
        body = [s for s in n["body"].get("b", [n["body"]]) if s.get("k") not in ("null", "empty", "nop")]
        if len(body) != 1 or not prm:
            return None
        s = body[0]

        def var(x):
            x = bind.peel(x)
            while x.get("k") in ("ctor", "cast", "i2f") and (x.get("e") or len(x.get("args") or []) == 1):
                x = bind.peel(x.get("e") or x["args"][0])
            return x["id"] if x.get("k") == "ref" and x.get("d") == "var" else None
        e = s.get("e")
        if e is None:
            return None
        e = bind.peel(e)
        while e.get("k") == "ctor" and e.get("copy") and len(e["args"]) == 1:
            e = bind.peel(e["args"][0])
        if s.get("k") == "return" and e.get("k") == "mem" and var(e["b"]) == prm[0]:
            return "field", e["q"] + "::" + e["n"]
        if e.get("k") == "call" and e.get("op") == "=" and e.get("obj") and e["obj"].get("k") == "mem" and len(e["args"]) == 1:
            e = dict(k="asg", op="=", a=e["obj"], b=e["args"][0])
        if e.get("k") == "asg" and e.get("op") == "=" and e["a"].get("k") == "mem" and var(e["a"]["b"]) == prm[0] and len(prm) == 2 \
                and var(e["b"]) == prm[1]:
            return "field", e["a"]["q"] + "::" + e["a"]["n"]
        if e.get("k") == "call" and e.get("m") and e.get("obj") and var(e["obj"]) == prm[0] and [var(a) for a in e["args"]] == prm[1:]:
            return "func", e["f"]
        return None

    def judge(self, p, key, a, wkind, wt):
        """an accessor that is not a plain member or function any more: compare what it does with what the recorded one does"""
        import bind
        import compare
        if a.fn is None or len(p.bindings[key]) != 1:
            return None
        cls, name = wt.split("(")[0].rsplit("::", 1)
        r = p.records.get(cls)
        if r is None:
            return None
        unit = dict(types=list(r["types"]))
        types = unit["types"]
        if wkind == "field":
            f = [x for x in r["fields"] if x["n"] == name]
            if not f:
                return None
            fn = bind.synth(key[0], key[1], key[2], bind.Acc("field", wt, {"t": f[0]["t"]}, a.line), unit)
        elif wkind == "func":
            m = [x for x in r["methods"] if x["f"] == wt]
            if not m or m[0]["static"]:
                return None
            m = m[0]
            types += [{"k": "rec", "n": key[0]}, {"k": "ref", "t": len(types)}]
            sid = 10 ** 7 + len(types)
            obj = {"k": "ref", "d": "var", "id": sid, "n": "self", "t": len(types) - 2, "l": a.line}
            ps = [{"id": sid, "n": "self", "t": len(types) - 1}]
            args = []
            for i, q in enumerate(m["params"]):
                ps.append({"id": sid + 1 + i, "n": "a%d" % i, "t": q["t"]})
                args.append({"k": "ref", "d": "var", "id": sid + 1 + i, "n": "a%d" % i, "t": q["t"], "l": a.line})
            if len(a.fn["params"]) != len(ps):
                return None
            call = {"k": "call", "obj": obj, "m": True, "mconst": m["const"], "f": wt, "q": wt.split("(")[0], "n": name, "rt": m["rt"], "t": m["rt"],
                    "args": args, "pt": [q["t"] for q in m["params"]], "c": cls, "l": a.line}
            void = types[m["rt"]].get("k") == "void"
            fn = dict(key="bind:", q="bind:", n=key[1], file=a.file, line=a.line, end=a.line, types=types, cls=None, params=ps, rt=m["rt"],
                      body={"k": "block", "l": a.line, "b": [{"k": "expr" if void else "return", "l": a.line, "e": call}]})
        else:
            return None
        fn["annot"] = "P=B01;F=" + a.fn["key"]
        try:
            q = compare.run_all(p, [], [compare.Spec(fn)], timeout=60, procs=1)[0]
        except Exception:
            return None
        if q["status"] in ("equal", "agree"):
            return True, "", ""
        if q["status"] == "differs":
            d = (q.get("diffs") or [{}])[0]
            return False, str(d.get("code")), "as %s (%s)" % (wt, d.get("required"))
        return None

    def exists(self, p, kind, target):
        if kind == "field":
            c, n = target.rsplit("::", 1)
            return c in p.records and any(f["n"] == n for f in p.records[c]["fields"])
        if kind == "func":
            q = target.split("(")[0]
            return any(k.split("(")[0] == q for k in self.names)
        return True

    def run(self, p, ext):
        import os
        import bind
        want = bind.table(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "bindings.tsv"))
        self.names = set(p.functions)
        for parts in ext.values():
            for u in parts:
                for r in u["records"].values():
                    self.names.update(m["f"] for m in r.get("methods", []))
        viol, decided = [], 0

        def bad(key, acc, what, code, req):
            viol.append(dict(where="Python attribute %s.%s (%s)" % (key[0] or "placo", key[1], key[2]), what=what, file=acc.file or "bindings",
                             line=acc.line, id="%s.%s.%s" % key, code=code, required=req))
        lits, files = {}, {}
        for name, parts in ext.items():
            if not name.startswith("bind_"):
                continue
            for u in parts:
                for f in u["functions"].values():
                    if "bindings" in (f.get("file") or ""):
                        for x in bind.walk(f.get("body")):
                            if x.get("k") == "str":
                                lits[x["v"]] = lits.get(x["v"], 0) + 1
        classes = {}
        for c, a, _ in want:
            classes.setdefault(a, set()).add(c)
        entities = set()
        for ws in want.values():
            for w in ws:
                entities.add(w.split(" @")[0].split(":", 1)[1].split("(")[0])
        present = {k[0] for k in p.bindings}
        dunder = {k[0] for k in p.bindings if k[1].startswith("__") and k[1] not in ("__cxx_class__", "__init__", "__getitem__", "__len__")}
        for key, ws in sorted(want.items()):
            cur = p.bindings.get(key)
            if not cur:
                if key[0] not in present:
                    continue
                if key[2] == "op":
                    gone = key[0] not in dunder
                elif key[2] == "static":
                    gone = (key[0], key[1], "call") in p.bindings
                elif key[2] == "set":
                    # a property that can no longer be written
                    gone = (key[0], key[1], "get") in p.bindings
                else:
                    gone = lits.get(key[1], 0) < len(classes[key[1]])
                if gone:
                    decided += 1
                    a = next(v[0] for k, v in sorted(p.bindings.items()) if k[0] == key[0])
                    bad(key, a, "registration", "none", ws[0])
                continue
            texts = sorted(bind.entry(a) for a in cur)
            if sorted(ws) == texts:
                decided += 1
                continue
            if len(set(ws)) > 1 or len(set(texts)) > 1:
                # overloads: every recorded one is still there
                cs = [self.simple(p, a) for a in cur]
                if None in cs:
                    continue
                have = {c[1] for c in cs}
                decided += 1
                for w in ws:
                    k, t = w.split(" @")[0].split(":", 1)
                    if t not in have and len(set(texts)) >= len(set(ws)) and k == "func" and not any(
                            h.split("(")[0] == t.split("(")[0] for h in have):
                        bad(key, cur[0], "overload", ", ".join(sorted(have)), t)
                continue
            w, a = ws[0], cur[0]
            wk, _, wflag = w.partition(" @")
            wkind, wt = wk.split(":", 1)
            if wflag == "ref" and a.byref is False:
                decided += 1
                bad(key, a, "object returned", "a copy", "the object itself")
                continue
            if wkind == "lambda":
                decided += 1  # its behaviour is compared with a reference (B02)
                continue
            c = self.simple(p, a)
            if c is None or c[0] != wkind:
                j = self.judge(p, key, a, wkind, wt)
                if j is not None:
                    decided += 1
                    if not j[0]:
                        bad(key, a, "behaviour of the accessor", j[1], j[2])
                    continue
            if c is None:
                continue
            k, t = c
            if (k, t) == (wkind, wt) or k == wkind == "func" and t.split("(")[0] == wt.split("(")[0]:
                decided += 1
                continue
            if k != wkind:
                # a function instead of a member (or the reverse) that the table knows as something else
                if t and t.split("(")[0] in entities and t.split("(")[0] != wt.split("(")[0]:
                    decided += 1
                    bad(key, a, "entity accessed", t, wt)
                continue
            if k == "field" and t.rsplit("::", 1)[1] == wt.rsplit("::", 1)[1]:
                # the member moved to a base class, or the attribute is taken from another class that has a member of that name
                decided += 1
                continue
            if not self.exists(p, wkind, wt):
                continue  # renamed
            decided += 1
            bad(key, a, {"get": "value read", "set": "member written", "call": "function called", "enum": "value"}[key[2]], t, wt)
        return dict(name="Python interface wiring", obligations=len(want), decided=decided, violations=viol,
                    rule="each registered attribute resolves to the member, function or enumerator recorded for it; forwarding lambdas count as "
                         "what they forward to; objects handed out by reference stay references")


ALL.append(Bindings())


class Initialised(Lint):
    """every number, flag, pointer and fixed-size vector member has a value when construction ends"""
    props = ("M01",)
    units = ("problem_expr", "problem", "tools", "kin_solver", "kin_tasks", "dyn_solver", "dyn_tasks", "humanoid_a", "humanoid_b")

    def raw(self, types, t):
        k = t.get("k")
        if k in ("int", "float", "bool", "ptr", "enum"):
            return True
        if k == "array":
            return self.raw(types, types[t["t"]])
        if k == "rec" and t["n"].startswith("Eigen::"):
            n = t["n"]
            if "Quaternion" in n or "Transform" in n or n in ("Eigen::AngleAxis",):
                return True
            return n == "Eigen::Matrix" and t.get("rows", -1) > 0 and t.get("cols", -1) > 0
        return False

    def assigned(self, p, cls, s, seen, out):
        """members assigned on every path through statement s; False when the statement does not fall through"""
        k = s.get("k")
        if k in ("return", "throw", "break", "continue"):
            if s.get("e"):
                self.expr(p, cls, s["e"], seen, out)
            return False
        if k == "block":
            for x in s.get("b", []):
                if not self.assigned(p, cls, x, seen, out):
                    return False
            return True
        if k == "if":
            for x in ("init", "cv"):
                if isinstance(s.get(x), dict):
                    self.assigned(p, cls, s[x], seen, out)
            if isinstance(s.get("c"), dict):
                self.expr(p, cls, s["c"], seen, out)
            branches, live = [], []
            for b in (s.get("a"), s.get("b")):
                o = set(out)
                l = self.assigned(p, cls, b, seen, o) if isinstance(b, dict) else True
                live.append(l)
                branches.append(o)
            o = [b for b, l in zip(branches, live) if l]
            if not o:
                return False
            out |= set.intersection(*o)
            return True
        if k in ("for", "while", "rangefor", "do", "switch", "try"):
            # a loop over at least one element cannot be told from an empty one: counted as assigned (no alarm)
            for n in self.walk(s):
                self.expr1(p, cls, n, seen, out)
            return True
        for n in self.walk(s):
            self.expr1(p, cls, n, seen, out)
        return True

    def walk(self, n):
        import bind
        return bind.walk(n)

    def expr(self, p, cls, e, seen, out):
        for n in self.walk(e):
            self.expr1(p, cls, n, seen, out)

    def own(self, e):
        while e.get("k") in ("call", "idx", "un") or e.get("k") == "mem" and e["b"].get("k") != "this":
            e = e.get("obj") or e.get("a") or e.get("e") or e.get("b")
            if not isinstance(e, dict):
                return None
        return e["n"] if e.get("k") == "mem" and e["b"].get("k") == "this" else None

    def expr1(self, p, cls, n, seen, out):
        k = n.get("k")
        if k == "asg":
            m = self.own(n["a"])
            if m:
                out.add(m)
        elif k == "call":
            if n.get("op") in ("=", "<<", "+=", "-=", "*=") and n.get("obj"):
                m = self.own(n["obj"])
                if m:
                    out.add(m)
            elif n.get("op") in ("=", "<<") and n.get("args"):
                m = self.own(n["args"][0])
                if m:
                    out.add(m)
            elif n.get("n") in ("setZero", "setIdentity", "setOnes", "setConstant", "fill", "setRandom", "setLinSpaced") and n.get("obj"):
                m = self.own(n["obj"])
                if m:
                    out.add(m)
            elif n.get("m") and n.get("obj") and n["obj"].get("k") == "this":
                f = p.functions.get(n.get("f"))
                if f is not None and f.get("body") and f["key"] not in seen:
                    self.assigned(p, cls, f["body"], seen | {f["key"]}, out)
            # a member handed to a function that may write it
            for a, t in zip(n.get("args", []), n.get("pt", [])):
                x = a.get("e") if a.get("k") == "un" and a.get("op") == "&" else a
                m = self.own(x) if isinstance(x, dict) and x.get("k") == "mem" else None
                if m:
                    out.add(m)

    def run(self, p, ext):
        import os
        path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "uninitialised.txt")
        allowed = set(l.split()[0] for l in open(path) if l.strip() and not l.startswith("#")) if os.path.exists(path) else set()
        base = set(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "fields.txt")).read().split())
        ctors = {}
        for k, f in p.functions.items():
            if f.get("ctor") and f.get("cls"):
                ctors.setdefault(f["cls"], []).append(f)
        n, viol, self.found = 0, [], []
        for cls, r in sorted(p.records.items()):
            if not cls.startswith("placo::"):
                continue
            todo = [f for f in r["fields"] if self.raw(r["types"], r["types"][f["t"]]) and not f.get("init")]
            init = [f for f in r["fields"] if self.raw(r["types"], r["types"][f["t"]]) and f.get("init")]
            n += len(init)
            if not todo:
                continue
            user = [m for m in r.get("methods", []) if m["n"] == cls.rsplit("::", 1)[1] and not self.is_copy(cls, m["f"])]
            cs = [f for f in ctors.get(cls, []) if not self.is_copy(cls, f["key"])]
            for f in todo:
                n += 1
                missing = []
                if not user:
                    missing.append((None, "the implicit constructor"))
                for c in cs:
                    got = set(i["n"] for i in c.get("inits", []) if i.get("n") and (i.get("w") or i.get("e", {}).get("k") not in ("ctor",)
                              or i["e"].get("args")))
                    if any(i.get("n") is None and i.get("deleg") for i in c.get("inits", [])):
                        continue
                    if c.get("body"):
                        self.assigned(p, cls, c["body"], {c["key"]}, got)
                    if f["n"] not in got:
                        missing.append((c, c["key"]))
                for c, who in missing:
                    # one entry per member and constructor arity
                    ident = "%s::%s/%s" % (cls, f["n"], len(c["params"]) if c else 0)
                    self.found.append(ident)
                    if ident in allowed or f["n"] not in base:
                        continue
                    viol.append(dict(where=cls + "::" + f["n"], what="value of the member after construction", id=ident,
                                     file=(c or {}).get("file") or r.get("file"), line=(c or f).get("line"),
                                     code="left uninitialised by " + who, required="initialised by its declaration or by every constructor"))
        return dict(name="definite initialisation of members", obligations=n, decided=n, violations=viol,
                    rule="each number, flag, pointer, enumerator and fixed-size vector, matrix or frame member has an initialiser, is in the "
                         "constructor's list, or is assigned on every path of the constructor (members listed in spec/uninitialised.txt are set "
                         "later by the documented protocol)")

    def is_copy(self, cls, key):
        a = key[key.find("("):]
        return a in ("(const %s&)" % cls, "(%s&&)" % cls, "(%s&)" % cls)


ALL.append(Initialised())
