"""Random interpretation of value graphs (Gulwani & Necula style).

Normal forms are sound but not complete: two graphs may denote the same value and still have different normal forms.
Before a difference is reported, both graphs are interpreted in a number of random models of the term algebra (free symbols
become random values, unknown functions become random functions, matrices get small random shapes consistent with the
operations applied to them).  A difference is reported only if some model distinguishes the two graphs; otherwise the
obligation is left open.  No code of the repository is compiled or run for this: the models interpret terms.
"""
import hashlib
import math
import os
import random
import time

import numpy as np

import terms as T
from terms import Term, show


class Infeasible(Exception):
    """the model does not satisfy the preconditions of an operator"""


class TooLong(Exception):
    pass


class Tok:
    __slots__ = ("key", "_h")

    def __init__(self, key):
        self.key = key
        self._h = None

    def __repr__(self):
        return "Tok%r" % (self.key,)


class Zero(Tok):
    """zero matrix whose size follows from its context (d: size if there is no context)"""
    __slots__ = ("d",)

    def __init__(self, d=None):
        Tok.__init__(self, ("zero",))
        self.d = d


ZANY = Zero()


class Rec:
    __slots__ = ("base", "f")

    def __init__(self, base, f):
        self.base = base
        self.f = f


class Map:
    __slots__ = ("base", "w", "order")

    def __init__(self, base, w):
        self.base = base
        self.w = w  # hashkey -> (key, value)


class Seq:
    __slots__ = ("base", "items")

    def __init__(self, base, items):
        self.base = base
        self.items = items


class Bag:
    __slots__ = ("base", "items")

    def __init__(self, base, items):
        self.base = base
        self.items = items


class Aff:
    __slots__ = ("R", "t")

    def __init__(self, R, t):
        self.R = R
        self.t = t


def rnd(x):
    if x != x:
        return "nan"
    if x in (float("inf"), float("-inf")):
        return repr(x)
    if abs(x) < 1e-9:
        return 0.0
    return float("%.6g" % x)


def subterms(roots):
    seen = set()
    st = list(roots)
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        yield t
        for a in T._iter(t.args):
            st.append(a)


class Scan:
    """static facts used by all models: integer atoms, shape classes, constants"""

    def __init__(self, spec_roots, code_roots, care=None):
        self.ints = set()
        self.par = {}
        self.consts = set()
        self.strs = set()
        self.enums = {}
        self.pool_of = {}  # enumerator -> enumeration
        self.defs = {}  # sizes the precondition expresses by other quantities
        self.literal = {}  # terms compared with enumerators
        self.closed = set()  # enumerations with all their enumerators known
        self.eqpairs = []
        self.kind = {}
        # shapes follow from the operations of the reference; the code may only fix those the reference does not mention
        known = set(t.id for t in subterms(spec_roots))
        self.allc = {}
        # sizes the precondition requires to be equal
        ats, st, vis = [], [care] if care is not None else [], set()
        while st and len(vis) < 400:
            t = st.pop()
            if t.op != "ite" or t.id in vis:
                continue
            vis.add(t.id)
            st += t.args[1:]
            if t.args[0].op == "eq" and t.args[0] not in ats:
                ats.append(t.args[0])
        for t in ats[:40]:
            c = T.mk("ite", t, T.TRUE, T.FALSE)
            if T.b_and(care, T.b_not(c)) is T.FALSE:
                if t.args[0].op == "poly":
                    d = T.sub2(t.args[0], t.args[1]) if len(t.args) > 1 else t.args[0]
                    if d.op == "poly":
                        self.unify(d, T.ZERO)
                        self.define(d)
                elif len(t.args) > 1:
                    self.unify(*t.args[:2])
        self.scan(spec_roots, ())
        self.sc, self.allc = self.allc, {}
        self.scan(code_roots, known)
        cases = {t.args[0] for t in subterms(list(spec_roots) + list(code_roots)) if t.op == "app"} & {"tolower", "toupper"}
        if cases:
            self.consts |= {c ^ 32 for c in map(int, [c for c in self.consts if c == int(c)]) if chr(c & 127).isalpha() and 64 < c < 123}
        for _ in range(2):
            for x, y in self.eqpairs:
                for u, v in ((x, y), (y, x)):
                    if u.id in self.literal:
                        self.literal.setdefault(v.id, self.literal[u.id])
        self.intname = {t.args[1] for t in subterms(list(spec_roots) + list(code_roots)) if t.op == "fld" and t.id in self.ints}
        # constants only one side mentions: likely thresholds
        d = [c for c in set(self.sc) ^ set(self.allc) if 1e-3 <= abs(c) <= 1e5]
        self.diffc = sorted(set(d) | set(-c for c in d))[:24]
        # members compared with such a constant
        self.hotname = {}
        dc = set(self.diffc)
        for t in subterms(list(spec_roots) + list(code_roots)):
            cs, ats = [], []
            if t.op == "poly":
                cs = [float(-c / c2) for (sc, ms), c in t.args[0] if not sc and not ms for (s2, m2), c2 in t.args[0] if s2 or m2]
                ats = [x for (sc, ms), c in t.args[0] for x in [y[0] for y in sc] + list(ms)]
            elif t.op in ("max", "eq", "cmp", "=="):
                cs = [float(x.args[0]) for x in T._iter(t.args) if x.op == "num"]
                ats = [y for x in T._iter(t.args) for y in ([z[0] for (sc, ms), c in x.args[0] for z in sc] if x.op == "poly" else [x])]
            cs = [x for c in cs for x in (c, -c) if x in dc]
            if cs:
                for x in ats:
                    if x.op == "fld":
                        self.hotname.setdefault(x.args[1], set()).update(cs)
        self.hotname = {k: sorted(v) for k, v in self.hotname.items()}
        # members and functions tested against constants
        self.eqname = {}
        for t in subterms(list(spec_roots) + list(code_roots)):
            if t.op == "eq" and len(t.args) > 1 and t.args[1].op == "num":
                x = t.args[0]
                n = ("fld", x.args[1]) if x.op == "fld" else ("app", x.args[0]) if x.op == "app" else None
                if n is not None:
                    self.eqname.setdefault(n, set()).add(float(t.args[1].args[0]))
        self.eqname = {k: sorted(v) for k, v in self.eqname.items()}
        self.classed = set(self.par) | set(self.par.values())
        self.sizeterms = [t for t in map(T._all.__getitem__, sorted(self.classed))
                          if t.op == "app" and t.args[0] == "size" and not t.bv and not has_lv(t)]
        self.mindim = {}  # constant block and element accesses ask for at least that many rows and columns
        for t in subterms(list(spec_roots) + list(code_roots)):
            if t.op == "blk":
                self.need(t.args[0], 0, t.args[1], t.args[3])
                self.need(t.args[0], 1, t.args[2], t.args[4])
            elif t.op == "el":
                self.need(t.args[0], 0, t.args[1], T.ONE)
                self.need(t.args[0], 1, t.args[2], T.ONE)
            elif t.op == "wr":
                for e in t.args[1]:
                    if len(e[2]) == 4:
                        self.need(t.args[0], 0, e[2][0], e[2][2])
                        self.need(t.args[0], 1, e[2][1], e[2][3])
        self.sized_roots = {}
        if T.ROBOT_DIMS[0]:
            for t in subterms(list(spec_roots) + list(code_roots)):
                if t.op == "fld" and t.args[1] in ("nv", "nq", "n_variables") and t.id in self.classed:
                    self.sized_roots[self.find(t.id)] = t.args[1]
                if t.op == "fld" and t.args[1] == "A" and t.args[0].op == "poly":
                    # an expression over the first variable
                    self.sized_roots[self.find(T.mk("app", "cols", t).id)] = "nv"

    def enum_of(self, t):
        """the enumeration of an enumerator (two unscoped enumerations may share their scope)"""
        a = t.args
        full = T.ENUMS.get(a[1]) if len(a) > 1 else None
        return a[1] if full and a[0] in full else a[0].rsplit("::", 1)[0]

    def scan(self, roots, known):
        eqs = []
        for t in subterms(roots):
            op, a = t.op, t.args
            if T.is_int_term(t):
                self.ints.add(t.id)
            if op == "num":
                self.allc[float(a[0])] = 1
                if abs(a[0]) < 1000:
                    self.consts.add(float(a[0]))
            elif op == "str":
                self.strs.add(a[0])
            elif op == "enum":
                full = T.ENUMS.get(a[1]) if len(a) > 1 else None
                p = self.enum_of(t)
                if full and a[0] in full:
                    self.enums[p] = set(full)
                    self.closed.add(p)
                    for x in full:
                        self.pool_of[x] = p
                else:
                    self.enums.setdefault(p, set()).add(a[0])
            elif op == "eq" and isinstance(a[1], T.Term) and (a[0].op == "enum" or a[1].op == "enum"):
                x, y = (a[1], a[0]) if a[0].op == "enum" else a
                if x.op not in ("enum", "ite", "idx"):
                    self.literal[x.id] = self.enum_of(y)
            elif op == "eq" and isinstance(a[1], T.Term) and a[0].op not in ("ite", "idx") and a[1].op not in ("ite", "idx"):
                self.eqpairs.append(a)
            elif op == "poly":
                sh = None
                for (sc, ms), c in a[0]:
                    if not sc and not ms:
                        for (sc2, ms2), c2 in a[0]:
                            if sc2 or ms2:
                                self.allc[float(-c / c2)] = 1
                for (sc, ms), c in a[0]:
                    for x, e in sc:
                        self.kind[x.id] = "s"
                    if ms:
                        for x, y in zip(ms, ms[1:]):
                            eqs.append((T.shape(x)[1], T.shape(y)[0]))
                        s = (T.shape(ms[0])[0], T.shape(ms[-1])[1])
                        if sh is not None:
                            eqs.append((s[0], sh[0]))
                            eqs.append((s[1], sh[1]))
                        sh = s
            elif op == "wr":
                for e in a[1]:
                    k = e[2]
                    if len(k) == 4:
                        for x in k:
                            self.int_atoms(x)
                        if k[2] is T.ONE and k[3] is T.ONE:
                            if e[3].op in ("sym", "deref", "fld", "idx", "nth") and T.known_shape(e[3]) is None:
                                self.kind.setdefault(e[3].id, "s")
                        else:
                            s = T.shape(e[3])
                            B = T.shape(a[0])
                            if k[2] is not T.UNDEF:
                                eqs.append((s[0], k[2]))
                            elif k[0] is T.ZERO:
                                eqs.append((s[0], B[0]))
                            if k[3] is not T.UNDEF:
                                eqs.append((s[1], k[3]))
                            elif k[1] is T.ZERO:
                                eqs.append((s[1], B[1]))
                    for L, n in e[1]:
                        self.int_atoms(n)
            elif op in ("blk", "el", "get"):
                for x in T._iter(a[1:]):
                    self.int_atoms(x)
            elif op in ("zeros", "uninit", "eye"):
                for x in a:
                    self.int_atoms(x)
            elif op == "const":
                self.int_atoms(a[0])
                self.int_atoms(a[1])
            elif op == "vstack":
                for x in a[0][1:]:
                    eqs.append((T.shape(x)[1], T.shape(a[0][0])[1]))
            elif op == "psum" or op == "any" or op == "first":
                self.int_atoms(a[2])
            elif op == "prevv":
                self.int_atoms(a[3])
            elif op == "it":
                self.int_atoms(a[4])
            elif op in ("seq", "bag"):
                for e in a[1]:
                    for L, n in e[1]:
                        self.int_atoms(n)
            elif op == "pos":
                self.kind.setdefault(a[0].id, "s")
            elif op == "fld" and a[1] == "b":
                # class invariant of expressions: one row of A per row of b
                eqs.append((T.mk("app", "rows", t), T.mk("app", "rows", T.mk("fld", a[0], "A"))))
        for x, y in eqs:
            self.unify(x, y, known)

    def int_atoms(self, x):
        st, seen = [x], set()
        while st:
            t = st.pop()
            if t.id in seen:
                continue
            seen.add(t.id)
            if t.op == "ite":
                st += list(t.args[1:])
            elif t.op == "poly":
                st += [at for (sc, ms), c in t.args[0] for at, e in sc]
            elif t.op == "max":
                st += list(T._iter(t.args))
            elif t.op != "num":
                self.ints.add(t.id)

    def define(self, d):
        if len(d.args[0]) < 3:
            return
        for (sc, ms), c in d.args[0]:
            if len(sc) == 1 and not ms and c in (1, -1) and sc[0][1] == 1:
                x = sc[0][0]
                if x.op == "app" and x.args[0] in ("rows", "cols", "size") and self.find(x.id) == x.id:
                    self.par.setdefault(x.id, x.id)
                    self.defs[x.id] = T.sub2(x, T.scale(d, c))
                    return

    def need(self, x, ax, k, n):
        if k.op == "num" and x.op not in ("mat", "aff", "lin", "trs"):
            m = k.args[0] + (n.args[0] if n is not T.UNDEF and n.op == "num" else 0)
            st = [x]
            while st:
                x = st.pop()
                if x.op == "ite":
                    st += x.args[1:]
                    continue
                try:
                    d = T.shape(x)[ax]
                except Exception:
                    continue
                if 1 < m <= 12 and d.op in ("app", "fld"):
                    r = self.find(d.id)
                    self.mindim[r] = max(self.mindim.get(r, 0), int(m))

    def find(self, i):
        while self.par.get(i, i) != i:
            i = self.par[i]
        return i

    def unify(self, x, y, known=()):
        def ok(t):
            return t.op == "app" and t.args[0] in ("rows", "cols", "size") or t.op in ("num", "fld", "deref") or \
                t.id in self.ints
        # cancel common parts of linear expressions
        d = T.sub2(x, y)
        if d.op == "poly":
            items = d.args[0]
            ats = [(m, c) for m, c in items]
            if len(ats) == 1 and len(ats[0][0][0]) == 1 and not ats[0][0][1]:
                pass
            if len(ats) == 2 and all(len(m[0]) <= 1 and not m[1] for m, c in ats):
                (m1, c1), (m2, c2) = ats
                if c1 == -c2 and m1[0] and m2[0]:
                    x, y = m1[0][0][0], m2[0][0][0]
                elif not m1[0] and m2[0] and c2 != 0:
                    x, y = m2[0][0][0], T.num(-c1 / c2)
                elif not m2[0] and m1[0]:
                    x, y = m1[0][0][0], T.num(-c2 / c1)
        elif d.op == "num":
            return
        if not (ok(x) and ok(y)):
            return
        a, b = self.find(x.id), self.find(y.id)
        if a == b:
            return
        if known:
            def old(t):
                return t.op == "num" or (t.args[1].id if t.op == "app" else t.id) in known
            if old(x) and old(y):
                return
        if T._all[a].op == "num" and T._all[b].op == "num":
            return
        if T._all[a].op == "num":
            a, b = b, a
        self.par[a] = b
        if a in self.defs and T._all[b].op != "num":
            self.defs.setdefault(b, self.defs.pop(a))


SPECIAL_LOOP = 60


class Model:
    def __init__(self, scan, seed):
        self.s = scan
        self.seed = seed
        self.memo = {}
        self.dims = {}
        self.steps = 0
        r = random.Random(repr(seed))
        self.style = r.choice(["mixed", "mixed", "generic", "small"])
        self.uni = r.choice([None, None, 1.0, 2.0, 2.0, 3.0])  # most dimensions equal
        self.big = False
        self.tol = r.random() < 0.5  # tolerances of comparisons are arbitrary positive numbers
        self.sizes = None
        self.shp = {}
        self.selkeys = set()  # sequences of row or column numbers
        self.svd = {}
        self.defining = set()
        self.hot = scan.diffc if r.random() < 0.6 else ()
        self.pool = sorted(scan.consts | {0.0, 1.0, -1.0})
        self.strs = sorted(scan.strs)
        self.big = r.random() < 0.15  # longer sequences

    # ---------------------------------------------------------------- randomness
    def H(self, *key):
        h = hashlib.blake2b(repr((self.seed,) + key).encode(), digest_size=8).digest()
        return int.from_bytes(h, "little")

    def unit(self, *key):
        return (self.H(*key) >> 11) / float(1 << 53)

    def tested(self, key):
        """a constant this value is compared with, sometimes"""
        if isinstance(key, tuple) and len(key) > 1 and key[0] in ("fld", "app"):
            cs = self.s.eqname.get((key[0], key[2] if key[0] == "fld" else key[1]))
            if cs and self.unit("eqc", key) < 0.35:
                return cs[self.H("eqp", key) % len(cs)]
        return None

    def number(self, key):
        c = self.tested(key)
        if c is not None:
            return c
        u = self.unit("n", key)
        if self.hot and isinstance(key, tuple) and len(key) == 3 and key[0] == "fld" and key[2] in self.s.hotname and u > 0.4:
            cs = self.s.hotname[key[2]]
            c = cs[self.H("hp", key) % len(cs)]
            v = self.unit("hq", key)
            return c if v < 0.2 else c + (v - 0.6) * max(0.6, abs(c))
        if self.hot and u > 0.8:
            c = self.hot[self.H("hp", key) % len(self.hot)]
            v = self.unit("hq", key)
            return c if v < 0.3 else c + (v - 0.65) * max(0.6, abs(c))
        if self.style != "generic" and u < 0.25:
            c = self.pool[self.H("p", key) % len(self.pool)]
            v = self.unit("q", key)
            return c if v < 0.6 else c + (v - 0.8)
        if self.style == "small" and u < 0.6:
            return float(self.H("i", key) % 4)
        return 4 * self.unit("v", key) - 1.6

    def integer(self, key):
        if self.selkeys and isinstance(key, tuple) and len(key) == 3 and key[0] == "idx" and key[1] in self.selkeys:
            return float(self.H("sel", key) % 3)
        c = self.tested(key)
        if c is not None and c == int(c):
            return c
        u = self.unit("n", key)
        if self.uni and u > 0.5:
            return self.uni
        if self.hot and u > 0.9:
            c = self.hot[self.H("hp", key) % len(self.hot)]
            if c == int(c) and abs(c) < 1000:
                return c + self.H("hq", key) % 3 - 1
        if u < 0.25:
            ip = [c for c in self.pool if c == int(c)]
            return ip[self.H("p", key) % len(ip)]
        return float(self.H("i", key) % 4)

    def dimval(self, cls):
        if self.hot and self.unit("dh", cls) < 0.2:
            c = self.hot[self.H("hp", cls) % len(self.hot)]
            if c == int(c) and 3 < c <= 30:
                return c + self.H("hq", cls) % 2
        if self.uni and self.unit("du", cls) < 0.85:
            return self.uni
        v = float((0, 1, 1, 1, 2, 2, 2, 3, 3, 3)[self.H("dim", cls) % 10])
        return v + 2 if self.big and self.unit("dl", cls) < 0.6 else v

    def rotation(self, key):
        q = np.array([self.unit("rot", key, i) - 0.5 for i in range(4)])
        q = q / np.linalg.norm(q)
        w, x, y, z = q
        return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                         [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                         [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])

    # ---------------------------------------------------------------- keys
    def key(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, float)):
            return rnd(float(v))
        if isinstance(v, str):
            return ("s", v)
        if isinstance(v, Tok):
            return v.key
        if isinstance(v, np.ndarray):
            if v.shape == (1, 1):
                return ("m", 1, 1, (rnd(float(v[0, 0])),))
            return ("m",) + v.shape + (tuple(rnd(float(x)) for x in v.flat),)
        if isinstance(v, Aff):
            return ("aff", self.key(v.R), self.key(v.t))
        if isinstance(v, Rec):
            b = self.key(v.base)
            fs = tuple(sorted((k, self.key(x)) for k, x in v.f.items()))
            fs = tuple((k, x) for k, x in fs if x != ("fld", b, k))
            return ("rec", b, fs) if fs else b
        if isinstance(v, Map):
            b = self.key(v.base)
            ws = tuple(sorted(((k, self.key(x[1])) for k, x in v.w.items()), key=repr))
            ws = tuple((k, x) for k, x in ws if x != ("idx", b, k))
            return ("map", b, ws) if ws else b
        if isinstance(v, Seq):
            b = self.key(v.base)
            if not v.items:
                return b
            ks = tuple(self.key(x) for x in v.items)
            if b == ("empty",) and isinstance(ks[0], tuple) and len(ks[0]) == 3 and ks[0][0] == "idx":
                # every element of another collection, in order, is that collection
                c = ks[0][1]
                if self.size(Tok(c)) == len(ks) and all(k == ("idx", c, rnd(float(i))) for i, k in enumerate(ks)):
                    return c
            return ("seq", b, ks)
        if isinstance(v, Bag):
            if not v.items:
                return self.key(v.base)
            return ("bag", self.key(v.base), tuple(sorted((self.key(x) for x in v.items), key=repr)))
        if v is None:
            return None
        return repr(v)

    # ---------------------------------------------------------------- coercions
    def as_num(self, v, integer=False):
        if isinstance(v, bool):
            return 1.0 if v else 0.0
        if isinstance(v, (int, float)):
            return float(v)
        if isinstance(v, np.ndarray):
            if v.size == 1:
                return float(v.flat[0])
            raise Infeasible("matrix as scalar")
        if isinstance(v, Tok) and v.key and v.key[0] in ("undef", "null"):
            raise Infeasible("undef as number")
        k = self.key(v)
        if integer and T.ROBOT_DIMS[0] and isinstance(v, Tok) and v.key[:1] == ("fld",) and v.key[2:] == ("n_variables",):
            return self.robot_dim("n_variables")
        return self.integer(k) if integer else self.number(k)

    def as_int(self, v):
        x = self.as_num(v, True)
        if abs(x - round(x)) > 1e-9:
            raise Infeasible("non integer")
        return int(round(x))

    def as_bool(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, float)):
            return v != 0
        if isinstance(v, Tok) and v.key and v.key[0] == "null":
            return False
        return self.unit("b", self.key(v)) < 0.6

    def as_mat(self, v, t=None):
        if isinstance(v, np.ndarray):
            return v
        if isinstance(v, (bool, int, float)):
            return np.array([[float(v)]])
        if isinstance(v, Zero):
            if v.d is None:
                raise Infeasible("unknown shape")
            return np.zeros(v.d)
        if isinstance(v, Tok) or isinstance(v, (Rec, Map, Seq)):
            k = self.key(v)
            r, c = self.dim_of(k, t)
            return np.array([[self.number(("el", k, i, j)) for j in range(c)] for i in range(r)]).reshape(r, c)
        raise Infeasible("not a matrix")

    def dim_of(self, k, t):
        d = self.dims.get(k)
        if d is None:
            if t is not None:
                if t.op == "app" and t.args[0] in T.PINSHAPE or t.op == "fld" and t.args[1] == "A" and t.args[0].op == "poly" or \
                        T.ROBOT_DIMS[0] and t.op == "fld" and T.path_of(t) in T.ROBOTSHAPE and T.initial(t):
                    sh = tuple(-1 if x.bv or x.op == "app" and x.args[1] is t else self.num(x, {}) for x in T.shape(t))
                else:
                    sh = T.known_shape(t)
                r = sh[0] if sh and sh[0] >= 0 else self.dim_atom("rows", t)
                c = sh[1] if sh and sh[1] >= 0 else self.dim_atom("cols", t)
                d = (int(r), int(c))
            else:
                d = (1 + self.H("dr", k) % 3, 1 + self.H("dc", k) % 3)
            self.dims[k] = d
        return d

    def dim_atom(self, which, t):
        a = T.mk("app", which, t)
        root = self.s.find(a.id)
        rt = T._all[root]
        if rt.op == "num":
            return float(rt.args[0])
        return self.class_value(root)

    def robot_dim(self, name):
        if name == "n_variables":
            return 22.0 + self.H("nvar") % 7  # enough variables for a robot and a few contacts
        return 7.0 + self.H("nv") % 3 + (name == "nq")

    def class_value(self, root):
        if root in self.s.sized_roots:
            return self.robot_dim(self.s.sized_roots[root])
        d = self.s.defs.get(root)
        if d is not None and root not in self.defining:
            self.defining.add(root)
            try:
                v = self.num(d, {})
            finally:
                self.defining.discard(root)
            if v < 0 or v != int(v):
                raise Infeasible("size")
            return v
        m = self.s.mindim.get(root)
        v = self.dimval(("cls", root))
        if m is not None and v < m and self.unit("mindim", root) < 0.9:
            v = float(m + (self.H("mind", root) % 2 if m > 3 else 0))
        return v

    def as_aff(self, v):
        if isinstance(v, Aff):
            return v
        k = self.key(v)
        return Aff(self.rotation(("lin", k)), np.array([[self.number(("trs", k, i))] for i in range(3)]))

    # ---------------------------------------------------------------- evaluation
    def ev(self, t, env=None):
        env = env or {}
        if not t.bv and not env:
            r = self.memo.get(t.id)
            if r is None:
                r = self.ev_(t, env)
                self.memo[t.id] = r
            return r
        if env:
            mk_ = (t.id, env.get("#"))
            r = self.memo.get(mk_)
            if r is None:
                if t.bv == 0 and not has_lv(t):
                    r = self.ev(t, None)
                else:
                    r = self.ev_(t, env)
                self.memo[mk_] = r
            return r
        return self.ev_(t, env)

    def bind(self, env, **kw):
        e = dict(env)
        e.update(kw)
        e["#"] = tuple(sorted((k, v if isinstance(v, (int, float, bool)) else ("k", self.key(v))) for k, v in e.items() if k != "#"))
        return e

    def num(self, t, env):
        while t.op == "ite":
            t = t.args[1] if self.cond(t.args[0], env) else t.args[2]
        v = self.ev(t, env)
        if isinstance(v, Tok) and t.id in self.s.classed:
            root = self.s.find(t.id)
            rt = T._all[root]
            return float(rt.args[0]) if rt.op == "num" else self.class_value(root)
        return self.as_num(v, t.id in self.s.ints)

    def int(self, t, env):
        x = self.num(t, env)
        if abs(x - round(x)) > 1e-9:
            raise Infeasible("non integer " + show(t, 5)[:150])
        return int(round(x))

    def lazy(self, t, left=None):
        """the value of t, where a choice that cannot be made does not matter when both outcomes have the same value"""
        left = [64] if left is None else left
        while t.op == "ite":
            try:
                t = t.args[1] if self.cond(t.args[0], {}) else t.args[2]
            except Infeasible:
                left[0] -= 1
                if left[0] < 0:
                    raise
                try:
                    x, y = self.lazy(t.args[1], left), self.lazy(t.args[2], left)
                    ok = self.same(x, y, t.args[1], t.args[2])
                except Infeasible:
                    ok = False
                if not ok:
                    raise
                return x
        return self.ev(t)

    def cond(self, a, env):
        op = a.op
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "ite":
            return self.cond(a.args[1] if self.cond(a.args[0], env) else a.args[2], env)
        if op == "pos":
            p = a.args[0]
            if self.tol and p.op == "poly":
                c = [(k, c) for k, c in p.args[0] if not k[0] and not k[1]]
                if c and 0 < abs(c[0][1]) <= 1e-3:
                    c = float(c[0][1])
                    e = 3 * self.unit("tol", abs(c)) ** 2
                    return self.num(p, env) - c + (e if c > 0 else -e) > 1e-12
            return self.num(p, env) > 1e-12
        if op == "eq":
            if a.args[0].op == "poly":
                at = [(k[0][0][0], c) for k, c in a.args[0].args[0] if len(k[0]) == 1 and not k[1] and k[0][0][1] == 1]
                inf = [c for x, c in at if x.op == "app" and x.args[0] == "limits_infinity"]
                if inf and len(at) == 2 and len(a.args[0].args[0]) == 2:
                    x, c = [(x, c) for x, c in at if not (x.op == "app" and x.args[0] == "limits_infinity")][0]
                    v = self.ev(x, env)
                    if isinstance(v, Tok):
                        u = self.unit("isinf", self.key(v))
                        return u < 0.15 if c * inf[0] < 0 else u > 0.9
            return self.equal_atom(a.args[0], a.args[1], env)
        if op == "B":
            return self.as_bool(self.ev(a.args[0], env))
        return self.as_bool(self.ev(a, env))

    def equal_atom(self, x, y, env):
        if y.op == "num" or x.op in ("poly", "num", "max"):
            return abs(self.num(x, env) - self.num(y, env)) < 1e-9
        if x.op in ("enum", "str") and y.op not in ("enum", "str"):
            x, y = y, x
        if y.op == "str":
            return self.equal(self.ev(x, env), y.args[0])
        if x.id in self.s.ints or y.id in self.s.ints or self.s.kind.get(x.id) == "s" or self.s.kind.get(y.id) == "s":
            return abs(self.num(x, env) - self.num(y, env)) < 1e-9
        a, b = self.ev(x, env), self.ev(y, env)
        return self.equal(a, b)

    def equal(self, a, b):
        if isinstance(a, Tok) and isinstance(b, Tok):
            if a.key == b.key:
                return True
            for p, q in ((a, b), (b, a)):
                if q.key and q.key[0] == "enum" and (not p.key or p.key[0] != "enum"):
                    pre = self.s.pool_of.get(q.key[1], q.key[1].rsplit("::", 1)[0])
                    pool = sorted(self.s.enums.get(pre, {q.key[1]})) + ([] if pre in self.s.closed else ["?"])
                    return pool[self.H("enum", p.key) % len(pool)] == q.key[1]
                if q.key and q.key[0] == "null" and (not p.key or p.key[0] not in ("new", "addr")):
                    return self.unit("null", p.key) < 0.3
            return False
        for p, q in ((a, b), (b, a)):
            if isinstance(q, str):
                if isinstance(p, str):
                    return p == q
                return self.as_str(p) == q
            if isinstance(q, (bool, int, float)) and not isinstance(p, np.ndarray):
                return abs(self.as_num(p) - self.as_num(q)) < 1e-9
            if isinstance(q, np.ndarray):
                p2 = self.as_mat(p)
                return p2.shape == q.shape and np.allclose(p2, q, 1e-9, 1e-9)
        return self.key(a) == self.key(b)

    def as_str(self, v):
        k = self.key(v)
        pool = self.strs + ["?" + str(self.H("str", k) % 3)]
        return pool[self.H("strp", k) % len(pool)]

    def loop_n(self, t, env):
        if t.op == "app" and t.args[0] == "infinity":
            return SPECIAL_LOOP
        n = self.int(t, env)
        if n > (200 if t.op == "num" else 40):
            raise TooLong()
        return n

    def ev_(self, t, env):
        v = self.ev0(t, env)
        if isinstance(v, Tok) and t.id in self.s.literal:
            p = self.s.literal[t.id]
            if not v.key or v.key[0] != "enum":
                pool = sorted(self.s.enums.get(p, ())) + ([] if p in self.s.closed else ["?"])
                x = pool[self.H("enum", v.key) % len(pool)]
                if x != "?":
                    return Tok(("enum", x))
        return v

    def ev0(self, t, env):
        self.steps += 1
        if self.steps > 400000:
            raise TooLong()
        op, a = t.op, t.args
        if op == "num":
            return float(a[0])
        if op == "str":
            return a[0]
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "enum":
            return Tok(("enum", a[0]))
        if op in ("null", "undef"):
            return Tok((op,))
        if op == "bv":
            return env["b%d" % a[0]]
        if op == "lv":
            return env["v%d_%d" % a]
        if op == "ite":
            return self.ev(a[1] if self.cond(a[0], env) else a[2], env)
        if op == "box":
            return self.ev(a[0], env)
        if op in ("pos", "eq", "B"):
            return self.cond(t, env)
        if op == "poly":
            return self.poly(t, env)
        if op == "max":
            return max(self.num(x, env) for x in a)
        if op == "sc":
            return self.as_num(self.as_mat(self.ev(a[0], env), a[0]))
        if op == "rec":
            return Rec(self.ev(a[0], env), {k: self.val(v, env) for k, v in a[1]})
        if op == "fld":
            if a[1] in ("nv", "nq") and T.ROBOT_DIMS[0]:
                return self.robot_dim(a[1])
            return self.fld(self.ev(a[0], env), a[1])
        if op == "mat":
            return np.array([self.num(x, env) for x in a[2]]).reshape(a[0], a[1])
        if op == "zeros":
            if a[0] is T.UNDEF or a[1] is T.UNDEF:
                return ZANY
            return np.zeros((self.dim(a[0], env), self.dim(a[1], env)))
        if op == "eye":
            return np.eye(self.dim(a[0], env))
        if op == "const":
            return np.full((self.dim(a[0], env), self.dim(a[1], env)), self.num(a[2], env))
        if op == "uninit":
            r, c = self.dim(a[0], env), self.dim(a[1], env)
            return np.array([[self.number(("uninit", i, j)) for j in range(c)] for i in range(r)]).reshape(r, c)
        if op == "tr":
            return self.m(a[0], env).T
        if op == "minv":
            m = self.m(a[0], env)
            if m.shape[0] != m.shape[1]:
                raise Infeasible("inverse")
            try:
                if m.shape[0] and np.linalg.cond(m) > 1e6:
                    raise Infeasible("singular")
                return np.linalg.inv(m)
            except np.linalg.LinAlgError:
                raise Infeasible("singular")
        if op == "skew":
            m = self.m(a[0], env)
            if m.size != 3:
                raise Infeasible("skew")
            x, y, z = m.flat
            return np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]])
        if op == "vstack":
            ms = [self.m(x, env) for x in a[0]]
            if len(set(m.shape[1] for m in ms)) != 1:
                raise Infeasible("vstack")
            return np.vstack(ms)
        if op == "el":
            m = self.m(a[0], env)
            i, j = self.int(a[1], env), self.int(a[2], env)
            return self.elem(m, i, j)
        if op == "blk":
            return self.block(self.m(a[0], env), a[1:], env)
        if op == "sel":
            m = self.m(a[0], env)
            if a[1] is not T.UNDEF or a[2] is not T.UNDEF:
                ls = [None if x is T.UNDEF else self.ev(x, env) for x in a[1:]]
                for i, x in enumerate(ls):
                    if isinstance(x, (Tok, Seq, Map)):
                        if isinstance(x, Tok):
                            self.selkeys.add(x.key)
                        ls[i] = Seq(Tok(("empty",)), [self.as_num(v, True) for v in self.listed(x)])
                if all(x is None or isinstance(x, Seq) and x.base.key == ("empty",)
                       and all(isinstance(v, (int, float)) for v in x.items) for x in ls):
                    ls = [None if x is None else [int(v) for v in x.items] for x in ls]
                    for x, n in zip(ls, m.shape):
                        if x is not None and any(v < 0 or v >= n for v in x):
                            raise Infeasible("selection out of range")
                    m = m if ls[0] is None else m[ls[0], :]
                    return m if ls[1] is None else m[:, ls[1]]
                return Tok(("sel", self.key(m)) + tuple(self.key(self.ev(x, env)) for x in a[1:]))
            return m
        if op == "wr":
            return self.wr(t, env)
        if op == "get":
            return self.get(t, env)
        if op == "idx":
            return self.idx(self.ev(a[0], env), self.ev(a[1], env), a[1])
        if op == "nth":
            return self.idx(self.ev(a[0], env), self.ev(a[1], env), a[1], "nth")
        if op == "seq" or op == "bag":
            base = self.ev(a[0], env)
            items = []
            self.entries(a[1], env, lambda e, en: items.append(self.val(e[2], en)))
            return Seq(base, items) if op == "seq" else Bag(base, items)
        if op == "empty":
            return Seq(Tok(("empty",)), [])
        if op == "listlit":
            return Seq(Tok(("empty",)), [self.ev(x, env) for x in a[0]])
        if op == "vecn":
            n = self.loop_n(a[0], env)
            return Seq(Tok(("empty",)), [self.ev(a[1], env)] * n)
        if op == "aff":
            t = self.ev(a[1], env) if a[1].op != "ite" else None
            return Aff(self.m(a[0], env), np.zeros((3, 1)) if isinstance(t, Zero) else self.m(a[1], env))
        if op == "lin":
            return self.as_aff(self.ev(a[0], env)).R
        if op == "trs":
            return self.as_aff(self.ev(a[0], env)).t
        if op == "psum":
            n = self.loop_n(a[2], env)
            acc = None
            for i in range(n):
                e = self.bind(env, **{"b%d" % a[0]: float(i)})
                v = self.ev(a[1], e)
                if isinstance(v, Zero):
                    continue
                v = self.as_mat(v, a[1]) if a[3] else self.as_num(v)
                if acc is not None and a[3] and acc.shape != v.shape:
                    raise Infeasible("psum")
                acc = v if acc is None else acc + v
            if acc is None:
                if a[3]:
                    s = T.shape(a[1])
                    if s[0] is T.UNDEF or s[1] is T.UNDEF:
                        return ZANY
                    e = self.bind(env, **{"b%d" % a[0]: 0.0})
                    try:
                        return Zero((self.dim(s[0], e), self.dim(s[1], e)))
                    except Infeasible:
                        return ZANY
                return 0.0
            return acc
        if op == "any":
            n = self.loop_n(a[2], env)
            for i in range(n):
                if self.cond(a[1], self.bind(env, **{"b%d" % a[0]: float(i)})):
                    return True
            return False
        if op == "first":
            n = self.loop_n(a[2], env)
            for i in range(n):
                if self.cond(a[1], self.bind(env, **{"b%d" % a[0]: float(i)})):
                    return float(i)
            if n == SPECIAL_LOOP:
                raise Infeasible("loop does not end")
            return float(n)
        if op == "prevv":
            n = self.loop_n(a[3], env)
            if n <= 0:
                return self.ev(a[2], env)
            return self.ev(a[1], self.bind(env, **{"b%d" % a[0]: float(n - 1)}))
        if op == "it":
            L, nexts, inits, j, n = a
            n = self.loop_n(n, env)
            if n == SPECIAL_LOOP:
                raise Infeasible("loop does not end")
            vs = [self.val(x, env) for x in inits]
            for x, v in zip(inits, vs):
                if isinstance(v, Tok) and x.op != "ite" and not isinstance(v, Zero):
                    try:
                        self.dim_of(v.key, x)  # the sizes of a matrix follow from where it comes from
                    except (Infeasible, KeyError):
                        pass
            for i in range(n):
                e = self.bind(env, **{"b%d" % L: float(i), **{"v%d_%d" % (L, q): v for q, v in enumerate(vs)}})
                vs = [self.val(x, e) for x in nexts]
            return vs[j]
        if op == "app":
            return self.app(t, env)
        if op in ("sym", "obj", "new", "loc", "lambda", "uninit_aff", "pvar", "addr", "deref", "iter", "find", "cell", "enditer", "pairlit",
                  "ci", "built", "unit"):
            return Tok((op,) + self.keys(a, env))
        if op == "unk":
            raise Infeasible("unk")
        return Tok((op,) + self.keys(a, env))

    def val(self, x, env):
        """value of a term; a number where the term is known to be one"""
        while x.op == "ite":
            x = x.args[1] if self.cond(x.args[0], env) else x.args[2]
        v = self.ev(x, env)
        if isinstance(v, Tok) and not isinstance(v, Zero) and (x.id in self.s.ints or self.s.kind.get(x.id) == "s"):
            try:
                return self.num(x, env)
            except Infeasible:
                pass
        return v

    def keys(self, a, env):
        out = []
        for x in a:
            if isinstance(x, Term):
                v = self.ev(x, env)
                if x.id in self.s.ints or self.s.kind.get(x.id) == "s":
                    try:
                        v = self.num(x, env)
                    except Infeasible:
                        pass
                out.append(self.key(v))
            elif isinstance(x, tuple):
                out.append(self.keys(x, env))
            else:
                out.append(x)
        return tuple(out)

    def dim(self, t, env):
        if t is T.UNDEF:
            raise Infeasible("unknown dim")
        n = self.int(t, env)
        if n < 0 or n > 40:
            raise Infeasible("dim")
        return n

    def m(self, t, env):
        while t.op == "ite":
            t = t.args[1] if self.cond(t.args[0], env) else t.args[2]
        return self.as_mat(self.ev(t, env), t)

    def elem(self, m, i, j):
        if not (0 <= i < m.shape[0] and 0 <= j < m.shape[1]):
            raise Infeasible("element out of range")
        return float(m[i, j])

    def block(self, m, k, env):
        r0, c0 = self.int(k[0], env), self.int(k[1], env)
        nr = m.shape[0] - r0 if k[2] is T.UNDEF else self.int(k[2], env)
        nc = m.shape[1] - c0 if k[3] is T.UNDEF else self.int(k[3], env)
        if r0 < 0 or c0 < 0 or nr < 0 or nc < 0 or r0 + nr > m.shape[0] or c0 + nc > m.shape[1]:
            raise Infeasible("block out of range %s" % ((m.shape, r0, c0, nr, nc) if os.environ.get("VG_DEBUG") else "",))
        return m[r0:r0 + nr, c0:c0 + nc]

    def poly(self, t, env):
        acc = zero = None
        mats = any(ms for (sc, ms), c in t.args[0])
        for (sc, ms), c in t.args[0]:
            x = float(c)
            for at, e in sc:
                v = self.num(at, env)
                if e < 0 and abs(v) < 1e-12:
                    raise Infeasible("division by zero")
                x *= v ** e
            if ms:
                vs = [self.ev(m, env) for m in ms]
                if any(isinstance(v, Zero) for v in vs):
                    zero = zero or next(v for v in vs if isinstance(v, Zero)) if len(vs) == 1 else zero
                    continue
                vs = [self.as_mat(v, m) for v, m in zip(vs, ms)]
                p = vs[0]
                for q in vs[1:]:
                    if p.shape[1] != q.shape[0]:
                        if p.shape == (1, 1) or q.shape == (1, 1):
                            p = p * q
                            continue
                        raise Infeasible("product %s %s" % (p.shape, q.shape))
                    p = p @ q
                x = x * p
            if acc is None:
                acc = x
            else:
                if mats and isinstance(acc, np.ndarray) and isinstance(x, np.ndarray) and acc.shape != x.shape:
                    raise Infeasible("sum %s %s %s" % (acc.shape, x.shape, show(t, 5)[:200] if os.environ.get("VG_DEBUG") else ""))
                acc = acc + x
        return (zero or ZANY) if acc is None else acc

    def entries(self, ents, env, f):
        self.group([(e, list(e[1]), env) for e in ents], f)

    def group(self, ents, f):
        """the entries of one loop happen iteration by iteration"""
        i = 0
        while i < len(ents):
            e, bs, env = ents[i]
            i += 1
            if not bs:
                if self.cond(e[0], env):
                    f(e, env)
                continue
            same = [(e, bs, env)]
            while i < len(ents) and ents[i][1] and ents[i][1][-1][1] is bs[-1][1]:
                same.append(ents[i])
                i += 1
            n = self.loop_n(bs[-1][1], env)
            if n == SPECIAL_LOOP:
                raise Infeasible("loop does not end")
            for k in range(n):
                self.group([(x, b[:-1], self.bind(en, **{"b%d" % b[-1][0]: float(k)})) for x, b, en in same], f)

    def wr(self, t, env):
        base, ents = t.args
        if ents and len(ents[0][2]) == 4:
            m = np.array(self.m(base, env), dtype=float)

            def w(e, en):
                k = e[2]
                r0, c0 = self.int(k[0], en), self.int(k[1], en)
                if k[2] is T.ONE and k[3] is T.ONE and isinstance(self.ev(e[3], en), Tok):
                    v = np.array([[self.num(e[3], en)]])
                else:
                    v = self.m(e[3], en)
                nr = m.shape[0] - r0 if k[2] is T.UNDEF else self.int(k[2], en)
                nc = m.shape[1] - c0 if k[3] is T.UNDEF else self.int(k[3], en)
                if v.shape != (nr, nc):
                    raise Infeasible("write %s into %s" % (v.shape, (nr, nc)))
                if r0 < 0 or c0 < 0 or r0 + nr > m.shape[0] or c0 + nc > m.shape[1]:
                    raise Infeasible("write out of range")
                m[r0:r0 + nr, c0:c0 + nc] = v

            self.entries(ents, env, w)
            return m
        b = self.ev(base, env)
        cur = b
        if isinstance(b, Map):
            d = dict(b.w)
            cur = b.base
        else:
            d = {}
        items = list(b.items) if isinstance(b, Seq) and b.items else None

        def w(e, en):
            kv = self.ev(e[2][0], en)
            if e[2][0].id in self.s.ints or self.s.kind.get(e[2][0].id) == "s":
                kv = self.as_num(kv, True)
            v = self.ev(e[3], en)
            if items is not None and isinstance(kv, float) and self.key(b.base) == ("empty",):
                i = int(kv)
                if 0 <= i < len(items):
                    items[i] = v
                    return
            d[self.key(kv)] = (kv, v)

        self.entries(ents, env, w)
        if items is not None and not d:
            return Seq(b.base, items)
        return Map(cur if items is None else Seq(b.base, items), d)

    def get(self, t, env):
        m = self.ev(t.args[0], env)
        k = t.args[1]
        if len(k) == 1:
            return self.idx(m, self.ev(k[0], env), k[0])
        m = self.as_mat(m, t.args[0])
        b = self.block(m, k, env)
        if k[2] is T.ONE and k[3] is T.ONE:
            return float(b[0, 0])
        return b

    def idx(self, c, i, it, kind="idx"):
        if isinstance(c, Map) and self.str_key(c, i) is not i:
            i = self.str_key(c, i)
        elif it.id in self.s.ints or self.s.kind.get(it.id) == "s" or it.op in ("bv", "num", "poly"):
            i = self.as_num(i, True)
        if isinstance(c, Seq):
            n = self.size(c.base)
            if isinstance(i, float):
                if i < n:
                    return self.idx(c.base, i, it, kind)
                if int(i - n) < len(c.items):
                    return c.items[int(i - n)]
                return Tok(("oob",))
        if kind == "nth" and self.assoc(c):
            if not isinstance(i, float) or not 0 <= i < len(c.w):
                return Tok(("oob",))
            kv, v = c.w[sorted(c.w, key=repr)[int(i)]]
            return Rec(Tok(("entry",)), {"first": kv, "second": v})
        if isinstance(c, Map):
            k = self.key(self.str_key(c, i))
            if k in c.w:
                return c.w[k][1]
            return self.idx(c.base, i, it, kind)
        return Tok((kind, self.key(c), self.key(i)))

    def str_key(self, c, k):
        """keys of a map filled with literal strings are strings"""
        if isinstance(k, Tok) and any(isinstance(x[0], str) for x in c.w.values()):
            return self.as_str(k)
        return k

    def assoc(self, c):
        """a map filled from nothing"""
        b = c.base if isinstance(c, Map) else None
        if isinstance(b, Seq) and not b.items:
            b = b.base
        return isinstance(b, Tok) and bool(b.key) and b.key[0] == "empty"

    def size(self, c):
        if isinstance(c, Seq):
            return self.size(c.base) + len(c.items)
        if self.assoc(c):
            return len(c.w)
        if isinstance(c, Map):
            return self.size(c.base)
        if isinstance(c, Tok) and c.key and c.key[0] == "empty":
            return 0
        if isinstance(c, Bag):
            return self.size(c.base) + len(c.items)
        if isinstance(c, np.ndarray):
            return c.size
        k = self.key(c)
        if self.sizes is None:
            self.sizes = {}
            for t in self.s.sizeterms:
                try:
                    v = self.ev(t.args[1])
                    root = self.s.find(t.id)
                    rt = T._all[root]
                    if isinstance(v, Tok):
                        self.sizes[self.key(v)] = int(rt.args[0] if rt.op == "num" else self.class_value(root))
                except (Infeasible, TooLong, RecursionError, KeyError):
                    pass
        if k in self.sizes:
            return self.sizes[k]
        if self.hot and self.unit("sh", k) < 0.2:
            h = self.hot[self.H("hp", k) % len(self.hot)]
            if h == int(h) and 3 < h <= 30:
                return int(h) + self.H("hq", k) % 2
        return self.H("size", k) % 4 + (2 if self.big and self.unit("sl", k) < 0.6 else 0)

    def listed(self, c):
        """the elements of a sequence"""
        if isinstance(c, Seq):
            return self.listed(c.base) + list(c.items)
        if isinstance(c, Map) and not self.assoc(c):
            out = self.listed(c.base)
            for kv, v in c.w.values():
                if isinstance(kv, float) and 0 <= kv < len(out):
                    out[int(kv)] = v
            return out
        return [self.idx(c, float(i), T.ZERO) for i in range(self.size(c))]

    def fld(self, v, name):
        while isinstance(v, Rec):
            if name in v.f:
                return v.f[name]
            v = v.base
        if isinstance(v, Aff):
            return Tok(("fld", self.key(v), name))
        t = Tok(("fld", self.key(v), name))
        return self.as_str(t) if name == "name" else t

    def app(self, t, env):
        a = t.args
        n = a[0]
        if n in ("pop_back", "vec_erase", "vec_insert", "vec_resize"):
            c = self.ev(a[1], env)
            if isinstance(c, (Tok, Seq, Map)):
                xs = self.listed(c)
                if n == "pop_back":
                    if not xs:
                        raise Infeasible("element out of range")
                    return Seq(Tok(("empty",)), xs[:-1])
                if n == "vec_resize":
                    k = self.int(a[2], env)
                    if k < 0:
                        raise Infeasible("size")
                    fill = self.ev(a[3], env) if len(a) > 3 else Tok(("fresh",))
                    return Seq(Tok(("empty",)), (xs + [fill] * k)[:k])
                i = self.int(a[2], env) if T.is_int_term(a[2]) else None
                if i is None:
                    return Tok((n,) + self.keys(a[1:], env))
                if not 0 <= i < len(xs) + (n == "vec_insert"):
                    raise Infeasible("element out of range")
                if n == "vec_erase" and len(a) <= 4:
                    j = self.int(a[3], env) if len(a) == 4 else i + 1
                    return Seq(Tok(("empty",)), xs[:i] + xs[j:])
                if n == "vec_insert" and len(a) == 4:
                    return Seq(Tok(("empty",)), xs[:i] + [self.ev(a[3], env)] + xs[i:])
        if n in ("rows", "cols"):
            x = a[1]
            v = self.ev(x, env)
            if isinstance(v, np.ndarray):
                return float(v.shape[0 if n == "rows" else 1])
            return float(self.dim_of(self.key(v), x)[0 if n == "rows" else 1])
        if n in ("tolower", "toupper") and len(a) == 2:
            v = self.num(a[1], env)
            lo, hi, d = (65, 90, 32) if n == "tolower" else (97, 122, -32)
            return v + d if lo <= v <= hi else v
        if n == "size":
            v = self.ev(a[1], env)
            if isinstance(v, Tok) and t.id in self.s.classed:
                root = self.s.find(t.id)
                rt = T._all[root]
                return float(rt.args[0]) if rt.op == "num" else self.class_value(root)
            return float(self.size(v))
        if n in ("sqrt", "exp", "log", "acos", "asin", "atan", "floor", "ceil", "round", "sin", "cos", "tan", "trunc", "tanh", "sinh", "cosh",
                 "log2", "log10", "log1p", "expm1") and len(a) == 2:
            v = self.ev(a[1], env)
            if isinstance(v, np.ndarray) and v.shape != (1, 1):
                if n == "exp":
                    return expm(v)
                return Tok(("app", n, self.key(v)))
            x = self.as_num(v)
            try:
                if n == "round":
                    return float(math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1))
                return float(getattr(math, n)(x))
            except (ValueError, OverflowError):
                return Tok(("app", n, rnd(x)))
        if n == "jsonasString":
            return self.as_str(Tok((n,) + self.keys(a[1:], env)))
        if n == "pin_M":
            m = self.m(T.mk("app", "pin_Mu", *a[1:]), env)
            return np.triu(m) + np.triu(m, 1).T
        if n in ("trimerge", "jacobian_over"):
            m, v = self.m(a[1], env), self.m(a[2], env)
            if m.shape != v.shape:
                raise Infeasible("triangle")
            if n == "jacobian_over":
                return self.fill(("jo", self.key(m), self.key(v)), *m.shape)
            md = self.int(a[3], env)
            msk = {1: np.tril(np.ones(m.shape)), 2: np.triu(np.ones(m.shape)), 9: np.tril(np.ones(m.shape), -1),
                   10: np.triu(np.ones(m.shape), 1)}.get(md)
            if msk is None:
                raise Infeasible("triangle mode")
            return np.where(msk > 0, v, m)
        if n == "conservativeResize":
            m = self.m(a[1], env)
            r, c = self.dim(a[2], env), self.dim(a[3], env)
            out = np.array([[self.number(("uninit", i, j)) for j in range(c)] for i in range(r)]).reshape(r, c)
            q, w = min(r, m.shape[0]), min(c, m.shape[1])
            out[:q, :w] = m[:q, :w]
            return out
        if n in ("pow", "fmod", "hypot", "remainder") and len(a) == 3:
            x, y = self.num(a[1], env), self.num(a[2], env)
            try:
                return float(getattr(math, n)(x, y))
            except (ValueError, OverflowError, ZeroDivisionError):
                return Tok(("app", n, rnd(x), rnd(y)))
        if n == "atan2":
            return math.atan2(self.num(a[1], env), self.num(a[2], env))
        if n in CWISE and len(a) == CWISE[n] and not (a[1].op == "app" and a[1].args[0] in ("rowwise", "colwise")):
            xs = [self.ev(x, env) for x in a[1:]]
            if n != "reverse" or any(isinstance(x, np.ndarray) for x in xs):
                xs = [self.as_mat(x, y) for x, y in zip(xs, a[1:])]
                if len(xs) == 2 and 1 in xs[0].shape and xs[0].size == xs[1].size:
                    xs[1] = xs[1].reshape(xs[0].shape)
                if len(xs) == 2 and xs[0].shape != xs[1].shape:
                    raise Infeasible("sum %s %s" % (xs[0].shape, xs[1].shape))
                if n in ("maxCoeff", "minCoeff", "mean") and xs[0].size == 0:
                    raise Infeasible("element out of range")
                with np.errstate(all="ignore"):
                    r = CWF[n](*xs)
                return float(r) if np.ndim(r) == 0 else r
        if n == "norm":
            return float(np.linalg.norm(self.m(a[1], env)))
        if n == "msum":
            return float(np.sum(self.m(a[1], env)))
        if n == "AngleAxis":
            ang = self.num(a[1], env)
            v = self.m(a[2], env)
            if v.size != 3:
                raise Infeasible("axis")
            nn = np.linalg.norm(v)
            if nn < 1e-9:
                raise Infeasible("axis")
            x, y, z = v.flat
            x, y, z = x / nn, y / nn, z / nn
            K = np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]])
            return np.eye(3) + math.sin(ang) * K + (1 - math.cos(ang)) * K @ K
        if n in ("imod", "idiv"):
            x, y = self.int(a[1], env), self.int(a[2], env)
            if y == 0:
                raise Infeasible("modulo zero")
            return float(math.fmod(x, y)) if n == "imod" else float(int(x / y))
        if n == "set_diagonal":
            m = np.array(self.m(a[1], env), dtype=float)
            d = self.m(a[2], env)
            k = min(m.shape)
            if d.size != k:
                raise Infeasible("diagonal")
            m[range(k), range(k)] = d.reshape(-1)
            return m
        if n == "diagonal":
            m = self.m(a[1], env)
            return np.diag(m).reshape(-1, 1)
        if n == "has":
            c, k = self.ev(a[1], env), self.ev(a[2], env)
            return self.has(c, k)
        if n == "hasNaN":
            return self.unit("nan", self.keys(a[1:], env)) < 0.15
        if n == "colPivHouseholderQr":
            m = self.m(a[1], env)
            v = Tok(("app", n, self.key(m)))
            self.shp[v.key] = m.shape
            return v
        if n in ("matrixQ", "matrixR", "colsPermutation", "rank"):
            v = self.ev(a[1], env)
            d = self.shp.get(v.key) if isinstance(v, Tok) else None
            if d is not None:
                k = (n, v.key)
                if n == "rank":
                    return float(min(d)) if self.unit("rank", v.key) < 0.85 else float(self.H("rank", v.key) % 3)
                r, c = (d[0], d[0]) if n == "matrixQ" else d if n == "matrixR" else (d[1], d[1])
                return self.fill(k, r, c)
            return Tok(("app", n, self.key(v)))
        if n == "triangularView":
            m = self.m(a[1], env)
            v = Tok(("app", n, self.key(m)) + tuple(repr(x) for x in a[2:]))
            self.shp[v.key] = m.shape
            return v
        if n == "solve" and len(a) == 3:
            if a[1].op == "app" and len(a[1].args) == 2 and a[1].args[0].startswith(DECOMP):
                A, m = self.m(a[1].args[1], env), self.m(a[2], env)
                if A.shape[0] != m.shape[0]:
                    raise Infeasible("product %s %s" % (A.shape, m.shape))
                if A.shape[0] == A.shape[1]:
                    if A.size and np.linalg.cond(A) > 1e9:
                        raise Infeasible("singular")
                    return np.linalg.solve(A, m)
            v, m = self.ev(a[1], env), self.m(a[2], env)
            d = self.shp.get(v.key) if isinstance(v, Tok) else None
            if d is not None:
                return self.fill(("solve", v.key, self.key(m)), d[1], m.shape[1])
        if n.endswith("solve_quadprog#6"):
            m = self.m(a[7], env)
            return self.fill((n,) + self.keys(a[1:], env), *m.shape)
        if n.endswith("solve_quadprog#7"):
            k = (n,) + self.keys(a[1:], env)
            return np.array([[float(self.H(k, i) % 6) - 1] for i in range(4)])
        if n.endswith("solve_quadprog#8"):
            return float(self.H((n,) + self.keys(a[1:], env)) % 5)
        if n.startswith("placo::problem::Sparsity::detect_columns_sparsity"):
            m = self.m(a[1], env)
            k = self.key(m)
            out = []
            c = self.H("sp", k) % 2
            while c < m.shape[1]:
                e = min(c + self.H("sp", k, c) % 2, m.shape[1] - 1)
                out.append(Rec(Tok(("ival",)), {"start": float(c), "end": float(e)}))
                c = e + 2
            return Rec(Tok(("app", n, k)), {"intervals": Seq(Tok(("empty",)), out)})
        if n == "infinity":
            raise Infeasible("infinity")
        if n == "limits_infinity" or n == "inf":
            return float("inf")
        if n == "expr*expr":
            ks = sorted((self.key(self.ev(x, env)) for x in a[1:]), key=repr)
            return Tok(("app", n) + tuple(ks))
        r = self.geometry(n, a, env)
        if r is not None:
            return r
        FALLBACK.add(n)
        return Tok(("app", n) + self.keys(a[1:], env))

    def geometry(self, n, a, env):
        """rotations, transformations and decompositions"""
        if n not in GEOM or len(a) != GEOM[n] + 1:
            return None
        if n == "array":
            return self.ev(a[1], env)
        if n in ("row_add", "col_add"):
            m, v = self.m(a[1], env), self.m(a[2], env)
            d = 1 if n == "row_add" else 0
            if 1 not in v.shape or v.size != m.shape[d]:
                raise Infeasible("sum %s %s" % (m.shape, v.shape))
            return m + (v.reshape(1, -1) if d else v.reshape(-1, 1))
        if n == "part_sum" or n in CWF and a[1].op == "app" and a[1].args[0] in ("rowwise", "colwise"):
            x = a[1]
            if x.op != "app" or x.args[0] not in ("rowwise", "colwise"):
                return None
            f = np.sum if n == "part_sum" else CWF[n]
            m = self.m(x.args[1], env)
            if m.size == 0:
                raise Infeasible("element out of range")
            with np.errstate(all="ignore"):
                r = np.array([[float(f(v))] for v in (m.T if x.args[0] == "colwise" else m)])
                return r.T if x.args[0] == "colwise" else r
        if n == "affmatrix":
            x = self.as_aff(self.ev(a[1], env))
            return np.vstack([np.hstack([x.R, x.t.reshape(3, 1)]), [[0, 0, 0, 1.0]]])
        if n == "toActionMatrix":
            x = self.as_aff(self.ev(a[1], env))
            p = x.t.reshape(-1)
            S = np.array([[0, -p[2], p[1]], [p[2], 0, -p[0]], [-p[1], p[0], 0]])
            return np.vstack([np.hstack([x.R, S @ x.R]), np.hstack([np.zeros((3, 3)), x.R])])
        if n == "exp3":
            v = self.m(a[1], env)
            if v.size != 3:
                raise Infeasible("exponential")
            x, y, z = v.reshape(-1)
            return expm(np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]]))
        if n == "rpyToMatrix":
            v = [float(x) for x in self.m(a[1], env).reshape(-1)] if len(a) == 2 else None
            return rpy(*v) if v is not None and len(v) == 3 else None
        if n in ("log3", "aa_angle", "aa_axis", "matrixToRpy", "quat_x", "quat_y", "quat_z", "quat_w"):
            R = self.m(a[1], env)
            if not is_rot(R):
                return None
            if n.startswith("quat_"):
                return float(quat(R)["wxyz".index(n[5])])
            if n == "matrixToRpy":
                b = math.atan2(-R[2, 0], math.hypot(R[2, 1], R[2, 2]))
                return np.array([[math.atan2(R[2, 1], R[2, 2])], [b], [math.atan2(R[1, 0], R[0, 0])]])
            ang, ax = angle_axis(R)
            return ang if n == "aa_angle" else ax if n == "aa_axis" else ang * ax
        if n == "slerp":
            A, t, B = self.m(a[1], env), self.num(a[2], env), self.m(a[3], env)
            if not (is_rot(A) and is_rot(B)):
                return None
            ang, ax = angle_axis(A.T @ B)
            x, y, z = (ang * t * ax).reshape(-1)
            return A @ expm(np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]]))
        if n == "Eigen::MatrixBase::unitOrthogonal":
            v = self.m(a[1], env).reshape(-1)
            if len(v) != 3 or not np.linalg.norm(v) > 1e-9:
                return None
            if abs(v[0]) > 1e-12 * abs(v[2]) or abs(v[1]) > 1e-12 * abs(v[2]):
                w = np.array([[-v[1]], [v[0]], [0.0]])
            else:
                w = np.array([[0.0], [-v[2]], [v[1]]])
            return w / np.linalg.norm(w)
        if n == "isApprox":
            x, y = self.ev(a[1], env), self.ev(a[2], env)
            if isinstance(x, Aff) or isinstance(y, Aff):
                x, y = self.as_aff(x), self.as_aff(y)
                x, y = np.hstack([x.R, x.t.reshape(3, 1)]), np.hstack([y.R, y.t.reshape(3, 1)])
            else:
                x, y = self.as_mat(x, a[1]), self.as_mat(y, a[2])
            if x.shape != y.shape:
                raise Infeasible("sum %s %s" % (x.shape, y.shape))
            return bool(np.linalg.norm(x - y) <= 1e-9 * min(np.linalg.norm(x), np.linalg.norm(y)))
        if n == "isZero":
            return bool(np.all(np.abs(self.m(a[1], env)) <= 1e-9))
        if n == "decomp:Eigen::JacobiSVD":
            m = self.m(a[1], env)
            v = Tok(("app", n, self.key(m)))
            self.svd[v.key] = np.linalg.svd(m)
            return v
        if n in ("matrixU", "matrixV", "singularValues"):
            v = self.ev(a[1], env)
            d = self.svd.get(v.key) if isinstance(v, Tok) else None
            if d is None:
                return None
            return d[0] if n == "matrixU" else d[2].T if n == "matrixV" else d[1].reshape(-1, 1)
        return None

    def fill(self, k, r, c):
        return np.array([[self.number(("el", k, i, j)) for j in range(c)] for i in range(r)]).reshape(r, c)

    def has(self, c, k):
        if isinstance(c, Map):
            if self.key(self.str_key(c, k)) in c.w:
                return True
            return self.has(c.base, k)
        if isinstance(c, (Seq, Bag)):
            kk = self.key(k)
            if any(self.key(x) == kk for x in c.items):
                return True
            return self.has(c.base, k)
        if isinstance(c, Tok) and c.key and c.key[0] == "empty":
            return False
        return self.unit("has", self.key(c), self.key(k)) < 0.6

    def force(self, v):
        pass

    # ---------------------------------------------------------------- comparison of results
    def same(self, a, b, ta=None, tb=None):
        if isinstance(a, Zero) or isinstance(b, Zero):
            o = b if isinstance(a, Zero) else a
            return isinstance(o, Zero) or isinstance(o, np.ndarray) and np.allclose(o, 0) or isinstance(o, float) and abs(o) < 1e-9
        if isinstance(a, (bool, int, float)) or isinstance(b, (bool, int, float)):
            if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
                a, b = self.as_mat(a, ta), self.as_mat(b, tb)
                return a.shape == b.shape and np.allclose(a, b, 1e-6, 1e-8)
            x, y = (self.as_num(v, isinstance(v, Tok) and v.key[:1] == ("fld",) and v.key[-1] in self.s.intname) for v in (a, b))
            return x == y or abs(x - y) <= 1e-8 + 1e-6 * max(abs(x), abs(y))
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            a, b = self.as_mat(a, ta), self.as_mat(b, tb)
            return a.shape == b.shape and (a.size == 0 or np.allclose(a, b, 1e-6, 1e-8))
        if isinstance(a, Aff) or isinstance(b, Aff):
            a, b = self.as_aff(a), self.as_aff(b)
            return self.same(a.R, b.R) and self.same(a.t, b.t)
        ka, kb = self.key(a), self.key(b)
        if ka == ("empty",) and isinstance(b, Tok) and kb != ka and self.sized(tb):
            return self.size(b) == 0
        if kb == ("empty",) and isinstance(a, Tok) and kb != ka and self.sized(ta):
            return self.size(a) == 0
        if ka == kb:
            return True
        # one of the two may have kept a quantity symbolic that the other one computed
        if isinstance(a, Rec) and isinstance(b, Rec) and self.key(a.base) == self.key(b.base):
            base = self.key(a.base)
            for k in set(a.f) | set(b.f):
                x, y = (v.f[k] if k in v.f else Tok(("fld", base, k)) for v in (a, b))
                if not self.same(x, y):
                    return False
            return True
        for v, w in ((a, b), (b, a)):
            if isinstance(v, Tok) and v.key[:1] in (("idx",), ("nth",), ("deref",), ("fld",)) and isinstance(w, Rec) and \
                    isinstance(w.base, Tok) and w.base.key[:1] == ("obj",):
                return all(self.same(self.fld(v, k), x) for k, x in w.f.items())
        if isinstance(a, Seq) and isinstance(b, Seq) and self.key(a.base) == self.key(b.base) and len(a.items) == len(b.items):
            return all(self.same(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, Bag) and isinstance(b, Bag) and self.key(a.base) == self.key(b.base) and len(a.items) == len(b.items):
            left = list(b.items)
            for x in a.items:
                for i, y in enumerate(left):
                    if self.same(x, y):
                        del left[i]
                        break
                else:
                    return False
            return True
        if isinstance(a, Map) and isinstance(b, Map) and self.key(a.base) == self.key(b.base) and set(a.w) == set(b.w):
            return all(self.same(a.w[k][1], b.w[k][1]) for k in a.w)
        return False

    def sized(self, t):
        return True


FALLBACK = set()  # operations that were given no meaning of their own
GEOM = dict(row_add=2, col_add=2, part_sum=1, affmatrix=1, toActionMatrix=1, exp3=1, rpyToMatrix=1, log3=1, aa_angle=1, aa_axis=1,
            matrixToRpy=1, quat_x=1, quat_y=1, quat_z=1, quat_w=1, slerp=3, isApprox=2, isZero=1, matrixU=1, matrixV=1, singularValues=1,
            mean=1, maxCoeff=1, minCoeff=1, array=1)
GEOM["decomp:Eigen::JacobiSVD"] = 1
GEOM["Eigen::MatrixBase::unitOrthogonal"] = 1


def is_rot(R):
    return R.shape == (3, 3) and np.abs(R @ R.T - np.eye(3)).max() < 1e-7 and np.linalg.det(R) > 0


def rpy(r, p, y):
    def rot(i, a):
        c, s = math.cos(a), math.sin(a)
        return {0: np.array([[1, 0, 0], [0, c, -s], [0, s, c]]), 1: np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]]),
                2: np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])}[i]
    return rot(2, y) @ rot(1, p) @ rot(0, r)


def angle_axis(R):
    w, x, y, z = quat(R)
    v = np.array([[x], [y], [z]])
    n = np.linalg.norm(v)
    if w < 0:
        w, v = -w, -v
    return (2 * math.atan2(n, w), v / n) if n > 1e-12 else (0.0, np.array([[1.0], [0], [0]]))


def quat(R):
    """w, x, y, z the way Eigen extracts them"""
    t = np.trace(R)
    if t > 0:
        s = math.sqrt(t + 1)
        w = 0.5 * s
        s = 0.5 / s
        return w, (R[2, 1] - R[1, 2]) * s, (R[0, 2] - R[2, 0]) * s, (R[1, 0] - R[0, 1]) * s
    i = int(np.argmax(np.diag(R)))
    j, k = (i + 1) % 3, (i + 2) % 3
    s = math.sqrt(max(0.0, R[i, i] - R[j, j] - R[k, k] + 1))
    q = [0.0] * 4
    q[1 + i] = 0.5 * s
    s = 0.5 / s
    q[0] = (R[k, j] - R[j, k]) * s
    q[1 + j] = (R[j, i] + R[i, j]) * s
    q[1 + k] = (R[k, i] + R[i, k]) * s
    return tuple(q)


DECOMP = ("colPivHouseholderQr", "householderQr", "fullPivHouseholderQr", "partialPivLu", "fullPivLu", "lu", "llt", "ldlt",
          "completeOrthogonalDecomposition", "decomp:")
CWF = dict(cwiseSquare=np.square, cwiseAbs2=np.square, cwiseCube=lambda m: m ** 3, cwiseSqrt=np.sqrt, cwiseExp=np.exp, cwiseLog=np.log, cwiseAbs=np.abs, cwiseProduct=np.multiply, cwiseMax=np.maximum, cwiseMin=np.minimum, maxCoeff=np.max, minCoeff=np.min,
           mean=np.mean, trace=np.trace, reverse=lambda m: m[::-1, ::-1], cwiseQuotient=np.divide, cwiseInverse=np.reciprocal,
           asDiagonal=lambda m: np.diag(m.reshape(-1)), adjoint=np.transpose,
           determinant=lambda m: np.linalg.det(m) if m.shape[0] == m.shape[1] else np.float64(0))
CWISE = {k: 3 if k in ("cwiseProduct", "cwiseMax", "cwiseMin", "cwiseQuotient") else 2 for k in CWF}


def expm(m):
    if m.shape[0] != m.shape[1]:
        raise Infeasible("exponential")
    k = max(0, int(np.ceil(np.log2(max(1e-9, np.abs(m).sum())))) + 1) if m.size else 0
    if k > 30:
        raise Infeasible("exponential")
    x = m / 2.0 ** k
    r = t = np.eye(m.shape[0])
    for i in range(1, 16):
        t = t @ x / i
        r = r + t
    for _ in range(k):
        r = r @ r
    return r


_lv = {}


def has_lv(t):
    r = _lv.get(t.id)
    if r is None:
        r = t.op == "lv" or any(has_lv(x) for x in T._iter(t.args))
        _lv[t.id] = r
    return r


def told(hits, feas, infeas, final=False):
    """whether some pair is told apart.

    An access out of range only tells the code apart from the reference where the models' sizes suit the reference."""
    some = False
    for i in list(hits):
        rng = [h for h in hits[i] if h[2] is None]
        bad = sum(v for (j, why), v in infeas.items() if j == i and not why.startswith("code") and
                  any(w in why for w in ("out of range", "product", "sum ", "write", "vstack", "unknown dim")))
        if rng and len(rng) < 0.3 * feas[i] and bad > 0.2 * (bad + feas[i]):
            if len(rng) < len(hits[i]):
                some = True
            if final:
                hits[i] = [h for h in hits[i] if h[2] is not None]
                feas[i] -= len(rng)
                if not hits[i]:
                    del hits[i]
        else:
            some = True
    return some


def distinguish(pairs, care, samples=80, seed=1, work=1500000, seconds=90):
    """pairs: [(code term, required term)] evaluated where care holds.

    -> ({index: models that tell the pair apart}, [feasible models per pair], {reason: infeasible models})"""
    scan = Scan([b for a, b in pairs] + [care], [a for a, b in pairs], care)
    feas = [0] * len(pairs)
    hits = {}
    singular = {}
    infeas = {}

    def no(i, what):
        k = (i, what)
        infeas[k] = infeas.get(k, 0) + 1

    t0 = time.time()
    steps = 0
    M = None
    rejected = 0  # models in which the precondition fails, cheap to draw again
    for s in range(samples * 100):
        steps += M.steps if M is not None else 0
        if s - rejected >= samples * 12 or rejected >= samples * 12 and time.time() - t0 > 0.2 * seconds:
            break
        if s >= samples and (steps > work or time.time() - t0 > seconds or told(hits, feas, infeas)):
            break
        M = Model(scan, (seed, s))
        try:
            if not M.cond(care, {}):
                no(-1, "precondition")
                rejected += 1
                continue
        except (Infeasible, TooLong, RecursionError) as ex:
            no(-1, str(ex))
            continue
        need = {}
        for i, (a, b) in enumerate(pairs):
            try:
                need[i] = M.ev(b)
                M.force(need[i])
            except (Infeasible, TooLong, RecursionError) as ex:
                no(i, str(ex) or type(ex).__name__)
                need.pop(i, None)
        whole = len(need) == len(pairs)
        for i, (a, b) in enumerate(pairs):
            if i not in need:
                continue
            vb = need[i]
            try:
                va = M.lazy(a)
            except (TooLong, RecursionError) as ex:
                no(i, "code " + type(ex).__name__)
                continue
            except Infeasible as ex:
                no(i, "code: " + str(ex))
                if str(ex) in ("division by zero", "singular", "unknown shape"):
                    if str(ex) == "singular":
                        singular.setdefault(i, []).append((s, "code: " + str(ex), None))
                    continue
                if not whole:  # the situation is impossible for the reference as well, in another of its results
                    continue
                hits.setdefault(i, []).append((s, "code: " + str(ex), None))
                feas[i] += 1
                continue
            try:
                same = M.same(va, vb, a, b)
            except Infeasible as ex:
                no(i, "compare: " + str(ex))
                continue
            feas[i] += 1
            if not same:
                hits.setdefault(i, []).append((s, va, vb))
    for i, h in singular.items():
        # a system the reference can solve and the code never can
        if len(h) >= 20 and feas[i] < 0.05 * len(h):
            hits[i] = h
            feas[i] += len(h)
    told(hits, feas, infeas, True)
    if os.environ.get("VG_DEBUG"):
        print("models", s, "steps", steps, "seconds", time.time() - t0, feas, sorted(infeas.items(), key=lambda x: -x[1])[:30])
    return hits, feas, infeas
