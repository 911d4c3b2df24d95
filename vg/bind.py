"""The Python interface: which C++ entity every exposed attribute reads, writes or calls.

Every registration call of the bindings is resolved to (exposed C++ class, attribute, role) -> accessor, where an accessor is a member,
a function or a lambda.  Accessors also become functions of the analysed program (key `bind:<class>.<attribute>[.set]`), so that they can be
compared with references like any other function.
"""
import os
import re

ROLE = {"def": "call", "add_property": None, "def_readwrite": None, "def_readonly": None, "value": "enum", "add_static_property": None}


def walk(n):
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            yield x
            stack.extend(x.values())
        elif isinstance(x, list):
            stack.extend(x)


def first_targ(f):
    """class_<X, ...>::def -> X"""
    m = re.match(r"boost::python::(?:class_|enum_)<", f)
    if not m:
        return None
    d, out = 0, []
    for ch in f[m.end():]:
        if ch == "<":
            d += 1
        elif ch == ">":
            if d == 0:
                break
            d -= 1
        elif ch == "," and d == 0:
            break
        out.append(ch)
    return "".join(out).strip()


def policy(s):
    if "copy_" in s or "return_by_value" in s:
        return "copy"
    if "manage_new_object" in s:
        return "own"
    if "return_internal_reference" in s or "reference_existing_object" in s:
        return "ref"
    return None


def peel(a):
    while True:
        k = a.get("k")
        if k == "un" and a["op"] in ("+",):
            a = a["e"]
        elif k == "call" and a.get("conv"):
            a = a["obj"]
        elif k == "ctor" and a.get("copy") and len(a["args"]) == 1:
            a = a["args"][0]
        elif k in ("tmp", "bind", "cast") and isinstance(a.get("e"), dict):
            a = a["e"]
        else:
            return a


class Acc:
    def __init__(self, kind, target, node, line, pol=None):
        self.kind, self.target, self.node, self.line, self.pol = kind, target, node, line, pol
        self.byref = None
        self.types = None
        self.fn = None
        self.file = None

    def text(self):
        return "%s:%s" % (self.kind, self.target or "")


def accessor(a, types, setter=False):
    a = peel(a)
    k = a.get("k")
    if k == "un" and a["op"] == "&":
        e = a["e"]
        if e.get("d") == "field":
            return Acc("field", e["q"], e, a["l"])
        if e.get("d") == "func":
            return Acc("func", e["f"], e, a["l"])
        return None
    if k == "ref" and a.get("d") == "func":
        return Acc("func", a["f"], a, a["l"])
    if k == "lambda":
        return Acc("lambda", None, a, a["l"])
    if k == "call" and a.get("n") in ("make_function", "make_getter", "make_setter"):
        r = accessor(a["args"][0], types)
        if r is not None:
            for x in a["args"][1:]:
                p = policy(str(x.get("f") or x.get("c") or ""))
                if p:
                    r.pol = p
        return r
    return None


def byref(acc, types, functions):
    """does reading give the object itself?"""
    def rec(t):
        while t["k"] in ("ref", "rref", "ptr"):
            t = types[t["t"]]
        return t["k"] == "rec" and t["n"].startswith("placo::")
    if acc.pol in ("copy", "own"):
        return False
    if acc.kind == "lambda":
        t = types[acc.node["lrt"]]
    elif acc.kind == "func":
        if acc.node.get("rt", -1) < 0:
            return None
        t = types[acc.node["rt"]]
    else:
        t = types[acc.node["t"]] if acc.node.get("t", -1) >= 0 else {"k": "other"}
        return True if rec(t) else None
    if not rec(t):
        return None
    return t["k"] in ("ref", "rref", "ptr")


def collect(unit):
    """one parsed bindings unit -> [(class, attr, role, Acc)]"""
    out, types = [], unit["types"]
    for key, fn in unit["functions"].items():
        if not fn.get("body") or "/bindings/" not in (fn.get("file") or "bindings/") and not (fn.get("file") or "").startswith("bindings"):
            continue
        for n in walk(fn["body"]):
            if n.get("k") != "call" or n.get("n") not in ROLE and n.get("n") != "staticmethod" or not n.get("args"):
                continue
            q = n.get("f") or ""
            m = re.search(r"operator_<boost::python::detail::(op_\w+)(.*?)>>\(const boost::python::def_visitor", q)
            if n["n"] == "def" and m and n.get("m") and first_targ(q):
                o = m.group(2).replace("boost::python::", "").replace("self_ns::self_t", "self").strip(", ")
                a = Acc("op", m.group(1), n, n["l"])
                a.types, a.file = types, fn.get("file")
                out.append((first_targ(q), "%s(%s)" % (m.group(1), o), "op", a))
                continue
            if n.get("m"):
                cls = first_targ(q)
                if cls is None:
                    continue
            elif q.startswith("boost::python::def"):
                cls = ""
            else:
                continue
            name = peel(n["args"][0])
            if name.get("k") != "str":
                continue
            name = name["v"]
            if n["n"] == "staticmethod":
                a = Acc("static", name, n, n["l"])
                a.types, a.file = types, fn.get("file")
                out.append((cls, name, "static", a))
                continue
            if n["n"] == "def" and len(n["args"]) < 2:
                continue
            pol = None
            for x in n["args"][2:]:
                pol = policy(str(x.get("f") or x.get("c") or "")) or pol
            accs = []
            if n["n"] == "value":
                e = peel(n["args"][1])
                if e.get("d") == "enum":
                    out.append((cls, name, "enum", Acc("enum", e["q"], e, n["l"])))
                continue
            if n["n"] == "def":
                accs = [("call", n["args"][1])]
            elif n["n"] == "def_readonly":
                accs = [("get", n["args"][1])]
            elif n["n"] == "def_readwrite":
                accs = [("get", n["args"][1]), ("set", n["args"][1])]
            else:
                accs = [("get", n["args"][1])]
                if len(n["args"]) > 2 and peel(n["args"][2]).get("k") not in ("null", "str"):
                    accs.append(("set", n["args"][2]))
            for role, a in accs:
                r = accessor(a, types)
                if r is None:
                    r = Acc("other", None, a, n["l"])
                else:
                    r.pol = r.pol or pol
                r.types = types
                r.file = fn.get("file")
                out.append((cls, name, role, r))
    return out


def synth(cls, attr, role, acc, unit):
    """function of the program for a member or lambda accessor"""
    types = unit["types"]
    key = "bind:%s.%s" % (cls, attr) + (".set" if role == "set" else "")
    base = dict(key=key, q=key, n=attr, file=acc.file, line=acc.line, end=acc.line, types=types, cls=None, selfparam=True, bind=True)
    if acc.kind == "lambda":
        n = acc.node
        return dict(base, params=n["params"], body=n["body"], rt=n["lrt"], selfparam=bool(n["params"]))
    if acc.kind == "field":
        types.append({"k": "rec", "n": cls})
        types.append({"k": "ref", "t": len(types) - 1})
        tr, tc = len(types) - 1, len(types) - 2
        sid = 10 ** 7 + len(types)
        obj = {"k": "ref", "d": "var", "id": sid, "n": "self", "t": tc, "l": acc.line}
        mem = {"k": "mem", "b": obj, "n": acc.target.rsplit("::", 1)[1], "q": acc.target.rsplit("::", 1)[0], "t": acc.node["t"], "l": acc.line}
        prm = [{"id": sid, "n": "self", "t": tr}]
        if role == "get":
            return dict(base, params=prm, rt=acc.node["t"], body={"k": "block", "l": acc.line, "b": [{"k": "return", "l": acc.line, "e": mem}]})
        val = {"k": "ref", "d": "var", "id": sid + 1, "n": "value", "t": acc.node["t"], "l": acc.line}
        types.append({"k": "void"})
        return dict(base, params=prm + [{"id": sid + 1, "n": "value", "t": acc.node["t"]}], rt=len(types) - 1,
                    body={"k": "block", "l": acc.line, "b": [{"k": "expr", "l": acc.line, "e": {
                        "k": "asg", "op": "=", "a": mem, "b": val, "l": acc.line, "t": acc.node["t"]}}]})
    return None


DICT = "boost::python::dict"


def rewrite_dicts(unit):
    """a Python dictionary filled by the code behaves as a map"""
    types = unit["types"]
    ms = "std::map<std::basic_string<char>, double>"
    dbl = next((i for i, t in enumerate(types) if t["k"] == "float" and not t.get("const")), None)
    for t in types:
        if t.get("k") == "rec" and t.get("n") == DICT:
            t["n"] = "std::map"
            t["a"] = []
    for fn in unit["functions"].values():
        for n in walk(fn.get("body")):
            if n.get("k") == "ctor" and n.get("c") == DICT:
                n["c"] = "std::map"
                n["f"] = n["f"].replace(DICT + "::dict", ms + "::map").replace(DICT, ms)
            if n.get("k") == "call" and n.get("c") == "boost::python::api::proxy" and n.get("op") == "=" and n["obj"].get("op") == "[]":
                i = n["obj"]
                if dbl is None:
                    types.append({"k": "float"})
                    dbl = len(types) - 1
                types.append({"k": "ref", "t": dbl})
                i = dict(i, c="std::map", f=ms + "::operator[](const string&)", q=ms + "::operator[]", rt=len(types) - 1, t=dbl)
                i.pop("ta", None)
                v = n["args"][0]
                l = n["l"]
                n.clear()
                n.update(k="asg", op="=", a=i, b=v, l=l, t=dbl)


def add(p, name, unit):
    """register the accessors of a parsed bindings unit in the program"""
    rewrite_dicts(unit)
    items = collect(unit)
    for cls, attr, role, acc in items:
        acc.byref = byref(acc, unit["types"], p.functions) if role in ("get", "call") else None
        p.bindings.setdefault((cls, attr, role), []).append(acc)
        f = synth(cls, attr, role, acc, unit)
        if f is not None:
            acc.fn = f
            if f["key"] not in p.functions:
                p.functions[f["key"]] = f


def table(path):
    out = {}
    if os.path.exists(path):
        for l in open(path):
            l = l.rstrip("\n")
            if not l or l.startswith("#"):
                continue
            cls, attr, role, rest = l.split("\t")
            out[(cls, attr, role)] = rest.split(" | ")
    return out


def entry(acc):
    return acc.text() + (" @ref" if acc.byref else " @copy" if acc.byref is False else "")


def alias(p):
    """an attribute bound to a member function is that function"""
    for (cls, attr, role), accs in p.bindings.items():
        for a in accs:
            key = "bind:%s.%s" % (cls, attr) + (".set" if role == "set" else "")
            if a.kind == "func" and key not in p.functions and a.target in p.functions:
                p.functions[key] = p.functions[a.target]
