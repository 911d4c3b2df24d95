"""Hash-consed value-graph terms with algebraic normal forms.

Every construct of the analysed code denotes a term.  Two program fragments compute the same value
when their terms normalise to the same (hash-consed) node.  Normalisations used:
  * commutative scalar polynomials with (non commutative) matrix product chains, transposition pushed to atoms
  * conditions as ordered decision diagrams (mutually exclusive equalities and interval atoms pruned);
    if-then-else is hoisted out of every scalar/matrix operator
  * functional records, guarded write lists and guarded append lists for memory
  * loops as comprehensions / sums / prefix sums / recurrences over an iteration domain
Nothing is executed: there are no inputs, only symbols.
"""
from fractions import Fraction
import sys

sys.setrecursionlimit(100000)


class Budget(Exception):
    pass


class Term:
    __slots__ = ("op", "args", "id", "lc", "bv", "unk", "okey", "cell")

    def __repr__(self):
        return show(self)


_tab = {}
_all = []
_budget = [None]


def set_budget(n):
    _budget[0] = None if n is None else len(_all) + n


def mk(op, *args):
    key = (op, args)
    t = _tab.get(key)
    if t is not None:
        return t
    t = Term()
    t.op = op
    t.args = args
    t.id = len(_all)
    lc = 0
    bv = 0
    unk = op == "unk"
    cell = op == "cell"
    for a in _iter(args):
        cell = cell or a.cell
        lc |= a.lc
        if a.bv > bv:
            bv = a.bv
        unk = unk or a.unk
    if op == "lc":
        lc |= 1 << args[0]
    if op in ("bv", "psum", "any", "first", "prevv", "it"):
        bv = max(bv, args[0])
    t.lc = lc
    t.bv = bv
    t.unk = unk
    t.cell = cell
    t.okey = None
    _tab[key] = t
    _all.append(t)
    if _budget[0] is not None and len(_all) > _budget[0]:
        raise Budget()
    return t


def _iter(args):
    for a in args:
        if isinstance(a, Term):
            yield a
        elif isinstance(a, tuple):
            yield from _iter(a)


TRUE = mk("true")
FALSE = mk("false")
NULL = mk("null")
UNDEF = mk("undef")
UNINIT = mk("undef", "member")  # a member no constructor has set


def num(x):
    return mk("num", Fraction(x))


ZERO = num(0)
ONE = num(1)


def string(s):
    return mk("str", s)


def sym(*a):
    return mk("sym", *a)


# ------------------------------------------------------------------ printing
def show(t, depth=9):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth) for x in t) + ")"
        if isinstance(t, Fraction):
            return str(t)
        return str(t)
    if depth <= 0:
        return "…"
    op = t.op
    a = t.args
    d = depth - 1
    if op in ("true", "false", "null", "undef"):
        return op
    if op == "num":
        v = a[0]
        return str(v) if v.denominator < 1000 else repr(float(v))
    if op == "str":
        return repr(a[0])
    if op == "sym":
        return ".".join(str(x) if not isinstance(x, Term) else show(x, d) for x in a)
    if op == "enum":
        return a[0].split("::")[-1]
    if op == "poly":
        out = []
        for (sc, ms), c in a[0]:
            fs = []
            if c != 1 or (not sc and not ms):
                fs.append(str(c) if c.denominator < 1000 else repr(float(c)))
            for at, e in sc:
                fs.append(show(at, d) + ("" if e == 1 else "^%d" % e))
            for m in ms:
                fs.append(show(m, d))
            out.append("*".join(fs))
        return "(" + " + ".join(out) + ")"
    if op == "fld":
        return show(a[0], d) + "." + a[1]
    if op == "deref":
        return "*" + show(a[0], d)
    if op == "ite":
        return "if(" + show(a[0], d) + " ? " + show(a[1], d) + " : " + show(a[2], d) + ")"
    if op == "pos":
        return show(a[0], d) + ">0"
    if op == "eq":
        return show(a[0], d) + "==" + show(a[1], d)
    if op == "B":
        return show(a[0], d)
    if op == "app":
        return a[0] + "(" + ", ".join(show(x, d) for x in a[1:]) + ")"
    if op == "bv":
        return "i%d" % a[0]
    if op == "lv":
        return "v%d_%d" % (a[0], a[1])
    if op == "lc":
        return "lc%d" % a[0]
    if op == "rec":
        return show(a[0], d) + "{" + ", ".join("%s=%s" % (k, show(v, d)) for k, v in a[1]) + "}"
    return op + "(" + ", ".join(show(x, d) for x in a) + ")"


# ------------------------------------------------------------------ decision diagrams
def atom_key(t):
    k = t.okey
    if k is None:
        if t.op == "eq":
            g = t.args[0].id if is_const(t.args[1]) else t.id
        elif t.op == "pos":
            g = pos_group(t)[0].id
        else:
            g = t.id
        k = t.okey = (g, t.id)
    return k


def is_const(t):
    return t.op in ("num", "str", "enum", "null", "true", "false")


_pg = {}


def pos_group(t):
    """pos(p) -> (q, sign, k): p = sign*q + k, q without constant and with positive leading coefficient"""
    r = _pg.get(t.id)
    if r is None:
        p = t.args[0]
        d = poly_of(p)
        k = d.pop(EMPTY, Fraction(0))
        if not d:
            r = (t, 1, Fraction(0))
        else:
            items = sorted(d.items(), key=mono_key)
            lead = items[0][1]
            q = from_poly({m: c / lead for m, c in items})
            s = 1 if lead > 0 else -1
            r = (q, s, k / abs(lead))
        _pg[t.id] = r
    return r


def top_atoms(args):
    best = None
    for a in args:
        if isinstance(a, Term) and a.op == "ite":
            if best is None or atom_key(a.args[0]) < atom_key(best):
                best = a.args[0]
    return best


def cof(a, atom, v):
    if isinstance(a, Term) and a.op == "ite" and a.args[0] is atom:
        return a.args[1] if v else a.args[2]
    return a


_liftmemo = {}


def lift(name, fn, args):
    """apply fn leaf-wise through the decision diagrams of args"""
    atom = top_atoms(args)
    if atom is None:
        return fn(*args)
    key = (name, args)
    r = _liftmemo.get(key)
    if r is not None:
        return r
    t = lift(name, fn, tuple(cof(a, atom, True) for a in args))
    e = lift(name, fn, tuple(cof(a, atom, False) for a in args))
    r = ite_node(atom, t, e)
    _liftmemo[key] = r
    return r


def _prune_eq(t, gid):
    # equality atom of this group is true: all other eq atoms on the same term are false
    while t.op == "ite" and t.args[0].op == "eq" and atom_key(t.args[0])[0] == gid:
        t = t.args[2]
    return t


_ivmemo = {}


def _prune_iv(t, gid, lo, hi):
    """lo/hi: (value, strict) or None, known bounds of the group's q"""
    if t.op != "ite" or t.args[0].op != "pos" or atom_key(t.args[0])[0] != gid:
        return t
    key = (t.id, gid, lo, hi)
    r = _ivmemo.get(key)
    if r is not None:
        return r
    q, s, k = pos_group(t.args[0])
    if s > 0:
        # q > -k
        b = -k
        if lo is not None and (lo[0] > b or (lo[0] == b and lo[1])):
            r = _prune_iv(t.args[1], gid, lo, hi)
        elif hi is not None and hi[0] <= b:
            r = _prune_iv(t.args[2], gid, lo, hi)
        else:
            r = ite_raw(t.args[0], _prune_iv(t.args[1], gid, _maxlo(lo, (b, True)), hi),
                        _prune_iv(t.args[2], gid, lo, _minhi(hi, (b, False))))
    else:
        # q < k
        b = k
        if hi is not None and (hi[0] < b or (hi[0] == b and hi[1])):
            r = _prune_iv(t.args[1], gid, lo, hi)
        elif lo is not None and lo[0] >= b:
            r = _prune_iv(t.args[2], gid, lo, hi)
        else:
            r = ite_raw(t.args[0], _prune_iv(t.args[1], gid, lo, _minhi(hi, (b, True))),
                        _prune_iv(t.args[2], gid, _maxlo(lo, (b, False)), hi))
    _ivmemo[key] = r
    return r


def _maxlo(a, b):
    if a is None or b[0] > a[0] or (b[0] == a[0] and b[1]):
        return b
    return a


def _minhi(a, b):
    if a is None or b[0] < a[0] or (b[0] == a[0] and b[1]):
        return b
    return a


def ite_raw(c, a, b):
    if a is b:
        return a
    return mk("ite", c, a, b)


def ite_node(atom, a, b):
    """atom smaller than all atoms of a and b"""
    if a is b:
        return a
    if atom.op == "eq" and is_const(atom.args[1]):
        a = _prune_eq(a, atom_key(atom)[0])
    elif atom.op == "pos":
        gid = atom_key(atom)[0]
        q, s, k = pos_group(atom)
        if s > 0:
            a = _prune_iv(a, gid, (-k, True), None)
            b = _prune_iv(b, gid, None, (-k, False))
        else:
            a = _prune_iv(a, gid, None, (k, True))
            b = _prune_iv(b, gid, (k, False), None)
    if a is b:
        return a
    # max / min idiom
    if atom.op == "pos" and a.op != "ite" and b.op != "ite" and numeric(a) and numeric(b):
        r = minmax_idiom(atom, a, b)
        if r is not None:
            return r
    # records and lists are merged below their constructor
    m = merge_struct(atom, a, b)
    if m is not None:
        return m
    return mk("ite", atom, a, b)


def ite(c, a, b):
    """c: boolean diagram"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.op in STRUCT or b.op in STRUCT:
        m = merge_struct(c, a, b)
        if m is not None:
            return m
    return _ite3(c, a, b)


_ite3memo = {}


def _ite3(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    key = (c, a, b)
    r = _ite3memo.get(key)
    if r is not None:
        return r
    atom = top_atoms((c, a, b))
    t = _ite3(cof(c, atom, True), cof(a, atom, True), cof(b, atom, True))
    e = _ite3(cof(c, atom, False), cof(a, atom, False), cof(b, atom, False))
    r = ite_node(atom, t, e)
    _ite3memo[key] = r
    return r


STRUCT = ("rec", "wr", "seq", "bag")


def as_bool(x):
    """x: term used as condition -> diagram"""
    if x.op in ("true", "false"):
        return x
    if x.op == "ite":
        return lift("as_bool", as_bool, (x,))
    if x.op in ("pos", "eq", "B"):
        return mk("ite", x, TRUE, FALSE)
    if x.op == "num":
        return FALSE if x.args[0] == 0 else TRUE
    if x.op == "null":
        return FALSE
    if x.op in ("new", "addr", "loc"):
        return TRUE
    return mk("ite", mk("B", x), TRUE, FALSE)


def b_not(a):
    return _ite3(a, FALSE, TRUE)


def b_and(a, b):
    return _ite3(a, b, FALSE)


def b_or(a, b):
    return _ite3(a, TRUE, b)


def b_imp(a, b):
    return _ite3(a, b, TRUE)


_restrmemo = {}


def restrict(t, c):
    """simplify diagram t knowing that c holds (generalised cofactor; c is a diagram)"""
    if c is TRUE or c is FALSE or t.op != "ite":
        return t
    key = (t, c)
    r = _restrmemo.get(key)
    if r is not None:
        return r
    atom = top_atoms((t, c))
    ct, ce = cof(c, atom, True), cof(c, atom, False)
    if ct is FALSE:
        r = restrict(cof(t, atom, False), ce)
    elif ce is FALSE:
        r = restrict(cof(t, atom, True), ct)
    elif not (t.op == "ite" and t.args[0] is atom):
        r = restrict(t, b_or(ct, ce))
    else:
        r = ite_node(atom, restrict(cof(t, atom, True), ct), restrict(cof(t, atom, False), ce))
    _restrmemo[key] = r
    return r


# ------------------------------------------------------------------ polynomials
EMPTY = ((), ())


def mono_key(item):
    (sc, ms), c = item
    return (len(ms), len(sc), tuple((a.id, e) for a, e in sc), tuple(m.id for m in ms))


BOX = [0]


def diagram_larger(t, n):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.op == "ite" and x.id not in seen:
            seen.add(x.id)
            if len(seen) > n:
                return True
            st += x.args[1:]
    return False


def box(t):
    """a large case distinction used as one value (only models look inside)"""
    if t.op == "ite" and diagram_larger(t, BOX[0]):
        return mk("box", t)
    return t


def numeric(t):
    return t.op in ("num", "poly", "box") or t.op in ("fld", "el", "app", "sym", "sum", "max", "min", "psum", "bv", "lc", "lv")


def poly_of(t, as_mat=False):
    if t.op == "num":
        return {EMPTY: t.args[0]} if t.args[0] != 0 else {}
    if t.op == "poly":
        return dict(t.args[0])
    if t.op == "zeros":
        return {}
    if as_mat:
        if t.op == "eye":
            return {((), (t,)): Fraction(1)}
        return {((), (t,)): Fraction(1)}
    return {(((t, 1),), ()): Fraction(1)}


def from_poly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        ((sc, ms), c), = d.items()
        if not sc and not ms:
            return mk("num", c)
        if c == 1:
            if len(sc) == 1 and not ms and sc[0][1] == 1:
                return sc[0][0]
            if not sc and len(ms) == 1:
                return ms[0]
    items = tuple(sorted(d.items(), key=mono_key))
    return mk("poly", items)


def _ismat(t):
    """terms that are always matrices"""
    return t.op in ("mat", "eye", "zeros", "tr", "vstack", "comma", "lin", "trs", "skew", "blk", "sel")


def add2(a, b, am=False, bm=False):
    def f(x, y):
        if x.op == "zeros" and y.op != "num":
            return y
        if y.op == "zeros" and x.op != "num":
            return x
        if x.op == "mat" and y.op == "mat" and x.args[:2] == y.args[:2]:
            return mat(x.args[0], x.args[1], tuple(add2(u, v) for u, v in zip(x.args[2], y.args[2])))
        d = poly_of(x, am)
        for m, c in poly_of(y, bm).items():
            d[m] = d.get(m, 0) + c
        r = from_poly(d)
        if r is ZERO and (am or bm):
            return mk("zeros", UNDEF, UNDEF)
        return r

    return lift(("add", am, bm), f, (a, b))


def scale(a, k, am=False):
    k = Fraction(k)

    def f(x):
        if x.op == "zeros":
            return x
        if x.op == "mat":
            return mat(x.args[0], x.args[1], tuple(scale(u, k) for u in x.args[2]))
        return from_poly({m: c * k for m, c in poly_of(x, am).items()})

    return lift(("scale", k, am), f, (a,))


def neg(a, am=False):
    return scale(a, -1, am)


def sub2(a, b, am=False, bm=False):
    return add2(a, neg(b, bm), am, bm)


def _mulmono(m1, m2):
    sc = dict(m1[0])
    for a, e in m2[0]:
        sc[a] = sc.get(a, 0) + e
        if sc[a] == 0:
            del sc[a]
    ms = m1[1] + m2[1]
    ms = simp_chain(ms)
    return (tuple(sorted(sc.items(), key=lambda x: x[0].id)), ms)


def simp_chain(ms):
    out = []
    for m in ms:
        if m.op == "eye" and (out or len(ms) > 1):
            # keep a lone identity
            continue
        if out and is_rot(out[-1]) and tr_atom(out[-1]) is m:
            out.pop()
            if not out:
                pass
            continue
        out.append(m)
    if not out and ms:
        for m in ms:
            if m.op == "eye":
                return (m,)
        return (mk("eye", num(3)),)
    # R^T R in the middle produced an empty chain neighbour: also drop redundant identities
    if len(out) > 1:
        out = [m for m in out if m.op != "eye"] or [out[0]]
    return tuple(out)


def is_rot(m):
    if m.op == "tr":
        m = m.args[0]
    return m.op == "lin" or (m.op == "app" and m.args[0] in ROTATION_APPS)


ROTATION_APPS = {"exp3", "AngleAxis", "quatR", "rotation"}


def mul2(a, b, am=False, bm=False):
    def f(x, y):
        if x.op == "zeros" or y.op == "zeros":
            if x.op == "zeros" and not bm:
                return x
            if y.op == "zeros" and not am:
                return y
            return mk("zeros", x.args[0] if x.op == "zeros" else UNDEF, y.args[1] if y.op == "zeros" else UNDEF)
        if x.op == "mat" and y.op == "mat" and x.args[1] == y.args[0]:
            r, k, c = x.args[0], x.args[1], y.args[1]
            els = []
            for i in range(r):
                for j in range(c):
                    s = ZERO
                    for l in range(k):
                        s = add2(s, mul2(x.args[2][i * k + l], y.args[2][l * c + j]))
                    els.append(s)
            return mat(r, c, tuple(els))
        if x.op == "mat" and not bm:
            return mat(x.args[0], x.args[1], tuple(mul2(u, y) for u in x.args[2]))
        if y.op == "mat" and not am:
            return mat(y.args[0], y.args[1], tuple(mul2(x, u) for u in y.args[2]))
        d = {}
        py = poly_of(y, bm)
        for m1, c1 in poly_of(x, am).items():
            for m2, c2 in py.items():
                m = _mulmono(m1, m2)
                d[m] = d.get(m, 0) + c1 * c2
        r = from_poly(d)
        if r is ZERO and (am or bm):
            return mk("zeros", UNDEF, UNDEF)
        return r

    return lift(("mul", am, bm), f, (a, b))


def inv_scalar(a):
    def f(x):
        if x.op == "num":
            if x.args[0] == 0:
                return mk("app", "inf")
            return num(1 / x.args[0])
        d = poly_of(x)
        if len(d) == 1:
            ((sc, ms), c), = d.items()
            if not ms:
                return from_poly({(tuple((t, -e) for t, e in sc), ()): 1 / c})
        items = sorted(d.items(), key=mono_key)
        lead = items[0][1]
        p = from_poly({m: c / lead for m, c in items})
        return from_poly({(((p, -1),), ()): 1 / lead})

    return lift("inv", f, (a,))


def div2(a, b, am=False):
    return mul2(a, inv_scalar(b), am, False)


def powi(a, n, am=False):
    r = ONE
    for _ in range(n):
        r = mul2(r, a)
    return r


def sum_terms(ts, m=False):
    r = ZERO
    for t in ts:
        r = add2(r, t, m, m)
    return r


# ------------------------------------------------------------------ comparisons
def pos(p, integer=False):
    """p > 0"""

    def f(x):
        if x.op == "num":
            return TRUE if x.args[0] > 0 else FALSE
        d = poly_of(x)
        items = sorted(((m, c) for m, c in d.items() if m != EMPTY), key=mono_key)
        if not items:
            return TRUE if d.get(EMPTY, 0) > 0 else FALSE
        lead = items[0][1]
        if integer and all(c.denominator == 1 for c in d.values()):
            if lead < 0:
                return b_not(pos(sub2(ONE, x), True))
            nn = nonneg_atom(items, d)
            if nn is not None:
                k = d.get(EMPTY, 0)
                if k > 0:
                    return TRUE
            return mk("ite", mk("pos", x, True), TRUE, FALSE)
        s = abs(lead)
        if s != 1:
            x = from_poly({m: c / s for m, c in d.items()})
        return mk("ite", mk("pos", x, False), TRUE, FALSE)

    return lift(("pos", integer), f, (p,))


def nonneg_atom(items, d):
    """sum of nonnegative integer atoms (container sizes)"""
    for (sc, ms), c in items:
        if ms or c < 0:
            return None
        for a, e in sc:
            if not (a.op == "app" and a.args[0] in ("size", "rows", "cols")):
                return None
    return True


def lt(a, b, integer=False):
    return pos(sub2(b, a), integer)


def le(a, b, integer=False):
    return b_not(pos(sub2(a, b), integer))


def eq_num(a, b, integer=False):
    def f(x):
        if x.op == "num":
            return TRUE if x.args[0] == 0 else FALSE
        d = poly_of(x)
        items = sorted(((m, c) for m, c in d.items() if m != EMPTY), key=mono_key)
        lead = items[0][1]
        k = -d.get(EMPTY, Fraction(0)) / lead
        if nonneg_atom([(m, c / lead) for m, c in items], d) is not None:
            if k < 0:
                return FALSE
            if k == 0 and len(items) == 1:
                return b_not(pos(from_poly({items[0][0]: Fraction(1)}), True))
        q = from_poly({m: c / lead for m, c in items})
        return mk("ite", mk("eq", q, mk("num", k)), TRUE, FALSE)

    return lift(("eqn", integer), f, (sub2(a, b),))


ENUMS = {}  # enum type name -> list of constant names


def eq(a, b):
    def f(x, y):
        if x is y:
            return TRUE
        if is_const(x) and not is_const(y):
            x, y = y, x
        if is_const(x) and is_const(y):
            return FALSE
        if x.op in ("new", "addr", "loc") and y.op in ("null",):
            return FALSE
        if x.op in ("true", "false") or y.op in ("true", "false"):
            c, o = (x, y) if x.op in ("true", "false") else (y, x)
            o = as_bool(o)
            return o if c is TRUE else b_not(o)
        if y.op == "enum":
            vals = ENUMS.get(y.args[1])
            if vals and len(vals) > 1 and y.args[0] == vals[-1]:
                r = TRUE
                for v in vals[:-1]:
                    r = b_and(r, b_not(mk("ite", mk("eq", x, mk("enum", v, y.args[1])), TRUE, FALSE)))
                return r
        if y.op == "null":
            return b_not(as_bool(x))
        if not is_const(y) and x.id > y.id:
            x, y = y, x
        return mk("ite", mk("eq", x, y), TRUE, FALSE)

    return lift("eq", f, (a, b))


# ------------------------------------------------------------------ max / min
def minmax_idiom(atom, a, b):
    p = atom.args[0]
    d = sub2(a, b)
    if d.op == "num":
        return None
    k = ratio(d, p)
    if k is None or k == 0:
        return None
    return maxmin("max" if k > 0 else "min", [a, b])


def ratio(x, y):
    dx, dy = poly_of(x), poly_of(y)
    if set(dx) != set(dy) or not dx:
        return None
    k = None
    for m in dx:
        r = dx[m] / dy[m]
        if k is None:
            k = r
        elif k != r:
            return None
    return k


def maxmin(op, args):
    def f(*xs):
        out = []
        const = None
        for x in xs:
            if x.op == op:
                out.extend(x.args)
            else:
                out.append(x)
        res = set()
        for x in out:
            if x.op == "num":
                v = x.args[0]
                const = v if const is None else (max if op == "max" else min)(const, v)
            else:
                res.add(x)
        if const is not None:
            res.add(num(const))
        # factor a common additive shift / sign:  max(a,b) = -min(-a,-b)
        res = sorted(res, key=lambda t: t.id)
        if len(res) == 1:
            return res[0]
        # canonical sign: use max; min(a,b) = -max(-a,-b)
        if op == "min":
            return neg(maxmin("max", [neg(x) for x in res]))
        # positive common content factor
        c = None
        for x in res:
            for m, k in poly_of(x).items():
                c = abs(k) if c is None else min(c, abs(k))
        # subtract common monomials
        common = None
        for x in res:
            s = set(poly_of(x).items())
            common = s if common is None else common & s
        if common:
            sh = from_poly(dict(common))
            return add2(sh, maxmin("max", [sub2(x, sh) for x in res]))
        if c is not None and c != 1:
            return scale(maxmin("max", [scale(x, 1 / c) for x in res]), c)
        return mk("max", *res)

    return lift((op, len(args)), f, tuple(args))


# ------------------------------------------------------------------ matrices
def mat(r, c, els):
    def f(*e):
        if e and all(x is ZERO for x in e):
            return mk("zeros", num(r) if isinstance(r, int) else r, num(c) if isinstance(c, int) else c)
        return mk("mat", r, c, tuple(e))

    if all(e.op != "ite" for e in els):
        return f(*els)
    return lift(("mat", r, c), f, tuple(els))


def tr_atom(m):
    if m.op == "tr":
        return m.args[0]
    if m.op == "eye":
        return m
    if m.op == "zeros":
        return mk("zeros", m.args[1], m.args[0])
    if m.op == "skew":
        return None
    return mk("tr", m)


def tr(a):
    def f(x):
        if x.op == "num":
            return x
        if x.op == "mat":
            r, c, els = x.args
            return mat(c, r, tuple(els[i * c + j] for j in range(c) for i in range(r)))
        if x.op == "zeros":
            return mk("zeros", x.args[1], x.args[0])
        d = {}
        for (sc, ms), c in poly_of(x, True).items():
            nm = []
            for m in reversed(ms):
                if m.op == "skew":
                    c = -c
                    nm.append(m)
                else:
                    nm.append(tr_atom(m))
            k = (sc, simp_chain(tuple(nm)) if nm else ())
            d[k] = d.get(k, 0) + c
        return from_poly(d)

    return lift("tr", f, (a,))


def inv_mat(a):
    def f(x):
        d = poly_of(x, True)
        if len(d) == 1:
            ((sc, ms), c), = d.items()
            out = []
            for m in reversed(ms):
                if is_rot(m):
                    out.append(tr_atom(m))
                elif m.op == "eye":
                    out.append(m)
                elif m.op == "minv":
                    out.append(m.args[0])
                else:
                    out.append(mk("minv", m))
            return from_poly({(tuple((t, -e) for t, e in sc), tuple(out)): 1 / c})
        return mk("minv", x)

    return lift("minv", f, (a,))


def skew(v):
    """linear in v"""

    def f(x):
        if x.op == "zeros" or x is ZERO:
            return mk("zeros", num(3), num(3))
        if x.op == "mat":
            return mk("skew", x)
        d = {}
        for (sc, ms), c in poly_of(x, True).items():
            inner = from_poly({((), ms): Fraction(1)})
            k = (sc, (mk("skew", inner),))
            d[k] = d.get(k, 0) + c
        return from_poly(d)

    return lift("skew", f, (v,))


def _const(t):
    return int(t.args[0]) if t.op == "num" and t.args[0].denominator == 1 else None


def el(m, i, j):
    """scalar element"""

    def f(m, i, j):
        if m.op == "num":
            return m
        ci, cj = _const(i), _const(j)
        if m.op == "mat":
            r, c, els = m.args
            if ci is not None and cj is not None and 0 <= ci < r and 0 <= cj < c:
                return els[ci * c + cj]
            return mk("el", m, i, j)
        if m.op == "zeros":
            return ZERO
        if m.op == "eye" and ci is not None and cj is not None:
            return ONE if ci == cj else ZERO
        if m.op == "tr":
            return el(m.args[0], j, i)
        if m.op == "blk":
            b, r0, c0, nr, nc = m.args
            return el(b, add2(i, r0), add2(j, c0))
        if m.op == "wr":
            return get_region(m, (i, j, ONE, ONE))
        if m.op == "poly":
            out = ZERO
            for (sc, ms), c in m.args[0]:
                s = from_poly({(sc, ()): c})
                if not ms:
                    out = add2(out, s)
                elif len(ms) == 1:
                    out = add2(out, mul2(s, el(ms[0], i, j)))
                else:
                    out = add2(out, mul2(s, el_chain(ms, i, j)))
            return out
        if m.op == "trs":
            return mk("el", m, i, ZERO)
        if m.op == "app" and m.args[0] == "affmatrix":
            a, b = _const(i), _const(j)
            if a is not None and b is not None and 0 <= a < 4 and 0 <= b < 4:
                if a == 3:
                    return ONE if b == 3 else ZERO
                return el(trs(m.args[1]), i, ZERO) if b == 3 else el(lin(m.args[1]), i, j)
        if m.op == "unit":
            return ite(eq_num(m.args[0], i, True), ONE, ZERO)
        return mk("el", m, i, j)

    return lift("el", f, (m, i, j))


def el_chain(ms, i, j):
    return mk("el", from_poly({((), ms): Fraction(1)}), i, j)


def blk(m, r0, c0, nr, nc):
    """sub-matrix; nr/nc may be UNDEF = all"""

    def f(m, r0, c0, nr, nc):
        if m.op == "num":
            return m
        if r0 is ZERO and nr is UNDEF and c0 is ZERO and nc is UNDEF:
            return m
        if m.op == "app" and m.args[0] == "affmatrix":
            a, b = _const(r0), _const(c0)
            h, w = 4 if nr is UNDEF else _const(nr), 4 if nc is UNDEF else _const(nc)
            if None not in (a, b, h, w) and a >= 0 and b >= 0 and a + h <= 4 and b + w <= 4:
                if (a, b, h, w) == (0, 0, 3, 3):
                    return lin(m.args[1])
                if (a, b, h, w) == (0, 3, 3, 1):
                    return trs(m.args[1])
                return mat(h, w, tuple(el(m, num(a + i), num(b + j)) for i in range(h) for j in range(w)))
        sh = shape(m)
        if r0 is ZERO and nr is not UNDEF and sh[0] is nr:
            return blk(m, r0, c0, UNDEF, nc)
        if c0 is ZERO and nc is not UNDEF and sh[1] is nc:
            return blk(m, r0, c0, nr, UNDEF)
        if m.op == "mat":
            R, Cc, els = m.args
            a, b = _const(r0), _const(c0)
            h = R if nr is UNDEF else _const(nr)
            w = Cc if nc is UNDEF else _const(nc)
            if None not in (a, b, h, w) and a >= 0 and b >= 0 and a + h <= R and b + w <= Cc:
                return mat(h, w, tuple(els[(a + i) * Cc + b + j] for i in range(h) for j in range(w)))
        if m.op == "zeros":
            return mk("zeros", m.args[0] if nr is UNDEF else nr, m.args[1] if nc is UNDEF else nc)
        if m.op == "tr":
            return tr(blk(m.args[0], c0, r0, nc, nr))
        if m.op == "blk":
            b, r1, c1, n1, m1 = m.args
            return blk(b, add2(r0, r1), add2(c0, c1), n1 if nr is UNDEF else nr, m1 if nc is UNDEF else nc)
        if m.op == "vstack":
            r = vstack_rows(m, r0, nr)
            if r is not None:
                return blk(r, ZERO, c0, UNDEF, nc)
        if m.op == "wr":
            return get_region(m, (r0, c0, nr, nc))
        if m.op == "poly":
            out = None
            for (sc, ms), c in m.args[0]:
                s = from_poly({(sc, ()): c})
                if not ms:
                    x = s
                elif len(ms) == 1:
                    x = mul2(s, blk(ms[0], r0, c0, nr, nc), False, True)
                else:
                    first = blk(ms[0], r0, ZERO, nr, UNDEF) if (r0 is not ZERO or nr is not UNDEF) else ms[0]
                    last = blk(ms[-1], ZERO, c0, UNDEF, nc) if (c0 is not ZERO or nc is not UNDEF) else ms[-1]
                    x = mul2(s, first, False, True)
                    for k in ms[1:-1]:
                        x = mul2(x, k, True, True)
                    x = mul2(x, last, True, True)
                out = x if out is None else add2(out, x, True, True)
            return out
        return mk("blk", m, r0, c0, nr, nc)

    return lift("blk", f, (m, r0, c0, nr, nc))


def sel(m, i, j):
    """rows / columns picked by index lists (UNDEF = all); linear"""

    def f(m, i, j):
        if m.op == "num" or (i is UNDEF and j is UNDEF):
            return m
        if m.op == "zeros":
            return mk("zeros", m.args[0] if i is UNDEF else size(i), m.args[1] if j is UNDEF else size(j))
        if i.op == "listlit" and all(_const(x) is not None for x in i.args[0]) and i.args[0]:
            x = m if j is UNDEF else sel(m, UNDEF, j)
            rows = []
            for k in i.args[0]:
                k = _const(k)
                if rows and rows[-1][0] + rows[-1][1] == k:
                    rows[-1][1] += 1
                else:
                    rows.append([k, 1])
            return vstack([blk(x, num(a), ZERO, num(n), UNDEF) for a, n in rows])
        if j.op == "listlit" and all(_const(x) is not None for x in j.args[0]) and j.args[0]:
            return tr(sel(tr(m), j, i))
        if m.op == "tr":
            return tr(sel(m.args[0], j, i))
        if m.op == "poly":
            out = None
            for (sc, ms), c in m.args[0]:
                s = from_poly({(sc, ()): c})
                if not ms:
                    x = s
                elif len(ms) == 1:
                    x = mul2(s, sel(ms[0], i, j), False, True)
                else:
                    x = mul2(s, sel(ms[0], i, UNDEF), False, True)
                    for k in ms[1:-1]:
                        x = mul2(x, k, True, True)
                    x = mul2(x, sel(ms[-1], UNDEF, j), True, True)
                out = x if out is None else add2(out, x, True, True)
            return out
        return mk("sel", m, i, j)

    return lift("sel", f, (m, i, j))


def vstack_rows(m, r0, nr):
    a = _const(r0)
    h = None if nr is UNDEF else _const(nr)
    if a is None or (nr is not UNDEF and h is None):
        return None
    off = 0
    for p in m.args[0]:
        n = _const(shape(p)[0])
        if n is None:
            return None
        if off == a and h == n:
            return p
        if off <= a and h is not None and a + h <= off + n:
            return blk(p, num(a - off), ZERO, num(h), UNDEF)
        off += n
    return None


# shapes ---------------------------------------------------------------------
_shape = {}
INTS = set()  # terms of integer type


PATHSHAPE = {}
INTPATH = {}


def path_of(t):
    return (t.args[1], t.args[0].args[1] if t.args[0].op == "fld" else None)


def note_int(t):
    INTS.add(t.id)
    if t.op == "fld":
        INTPATH[path_of(t)] = True


def is_int_term(t):
    return t.id in INTS or t.op == "fld" and path_of(t) in INTPATH


ELEMSHAPE = {}  # container -> static shape of its elements


def static_shape(t):
    s = _shape.get(t.id)
    if s is None and t.op == "idx":
        s = ELEMSHAPE.get(t.args[0].id)
    if s is None and t.op in ("prevv", "ite"):
        for x in t.args[1:3]:
            if isinstance(x, Term):
                s = static_shape(x)
                if s is not None:
                    break
    return s


def known_shape(t):
    s = static_shape(t)
    if t.op == "fld" and (s is None or min(s) < 0):
        p = PATHSHAPE.get(path_of(t))
        if p is not None:
            s = p if s is None else tuple(y if x < 0 else x for x, y in zip(s, p))
    return s


def set_shape(t, r, c):
    """r, c ints (-1 = dynamic)"""
    if t.op in ("ite",):
        return
    if t.op == "fld":
        k = path_of(t)
        o = PATHSHAPE.get(k)
        if o is None:
            PATHSHAPE[k] = (r, c)
        else:
            PATHSHAPE[k] = tuple(y if x < 0 else x if y < 0 or x == y else -1 for x, y in zip(o, (r, c)))
    if t.op == "idx" and r >= 0 and c >= 0:
        ELEMSHAPE[t.args[0].id] = (r, c)
    o = _shape.get(t.id)
    if o is None:
        _shape[t.id] = (r, c)
    elif (o[0] < 0 and r >= 0) or (o[1] < 0 and c >= 0):
        _shape[t.id] = (o[0] if o[0] >= 0 else r, o[1] if o[1] >= 0 else c)


PINSHAPE = {"getFrameJacobian": (6, "nv"), "getFrameJacobianTimeVariation": (6, "nv"), "getJointJacobian": (6, "nv"),
            "getJointJacobianTimeVariation": (6, "nv"), "pin_Jcom": (3, "nv"), "pin_Ag": (6, "nv"), "pin_dAg": (6, "nv"),
            "pin_g": ("nv", 1), "pin_nle": ("nv", 1), "pin_M": ("nv", "nv"), "pin_Mu": ("nv", "nv"), "neutral": ("nq", 1), "integrate": ("nq", 1),
            "pin_J": (6, "nv"), "pin_dJ": (6, "nv"), "difference": ("nv", 1)}


ROBOTSHAPE = {("q", "state"): "nq", ("qd", "state"): "nv", ("qdd", "state"): "nv", ("lowerPositionLimit", "model"): "nq",
              ("upperPositionLimit", "model"): "nq", ("velocityLimit", "model"): "nv", ("effortLimit", "model"): "nv",
              ("rotorInertia", "model"): "nv", ("rotorGearRatio", "model"): "nv"}


def shape(t):
    """-> (rows term, cols term)"""
    op = t.op
    if op == "mat":
        return (num(t.args[0]), num(t.args[1]))
    if op == "zeros":
        if t.args[0] is not UNDEF or t.args[1] is not UNDEF:
            return (t.args[0], t.args[1])
    if op == "eye":
        return (t.args[0], t.args[0])
    if op == "lin" or op == "skew":
        return (num(3), num(3))
    if op == "trs":
        return (num(3), ONE)
    if op == "tr":
        s = shape(t.args[0])
        return (s[1], s[0])
    if op == "blk":
        b, r0, c0, nr, nc = t.args
        s = shape(b) if (nr is UNDEF or nc is UNDEF) else None
        return (nr if nr is not UNDEF else sub2(s[0], r0), nc if nc is not UNDEF else sub2(s[1], c0))
    if op == "sel":
        b, i, j = t.args
        s = shape(b) if (i is UNDEF or j is UNDEF) else None
        return (size(i) if i is not UNDEF else s[0], size(j) if j is not UNDEF else s[1])
    if op == "uninit":
        return (t.args[0], t.args[1])
    if op == "const":
        return (t.args[0], t.args[1])
    if op in ("wr", "box"):
        return shape(t.args[0])
    if op == "vstack":
        r = ZERO
        for p in t.args[0]:
            r = add2(r, shape(p)[0])
        return (r, shape(t.args[0][0])[1])
    if op == "poly":
        for (sc, ms), c in t.args[0]:
            if ms:
                r = shape(ms[0])[0]
                c = shape(ms[-1])[1]
                return (r, c)
    if op == "ite":
        a, b = shape(t.args[1]), shape(t.args[2])
        return (ite(t.args[0], a[0], b[0]) if a[0] is not b[0] else a[0],
                ite(t.args[0], a[1], b[1]) if a[1] is not b[1] else a[1]) if t.args[0].op in ("true", "false") else (
                    a[0] if a[0] is b[0] else mk("app", "rows", t), a[1] if a[1] is b[1] else mk("app", "cols", t))
    if op == "app" and t.args[0] in ("trimerge", "jacobian_over", "set_diagonal", "row_add", "col_add", "array", "set_sel"):
        return shape(t.args[1])
    if op == "app" and t.args[0] == "affmatrix":
        return (num(4), num(4))
    if op == "app" and len(t.args) == 2 and t.args[1].op == "app" and t.args[1].args[0] in ("rowwise", "colwise"):
        s = shape(t.args[1].args[1])
        return (ONE, s[1]) if t.args[1].args[0] == "colwise" else (s[0], ONE)
    if op == "app" and t.args[0] == "diagonal":
        s = shape(t.args[1])
        return (s[0] if s[0] is s[1] else mk("app", "rows", t), ONE)
    if op == "app" and t.args[0] == "conservativeResize":
        return (t.args[2], t.args[3])
    if op == "fld" and t.args[1] == "A" and t.args[0].op == "poly":
        return (shape(t.args[0])[0], mk("app", "cols", t))
    if op == "app" and t.args[0] in PINSHAPE:
        return tuple(fld(t.args[1], x) if isinstance(x, str) else num(x) for x in PINSHAPE[t.args[0]])
    if op == "fld" and ROBOT_DIMS[0] and path_of(t) in ROBOTSHAPE and initial(t):
        o = t.args[0]
        return (fld(o if o.args[1] == "model" else fld(o.args[0], "model"), ROBOTSHAPE[path_of(t)]), ONE)
    s = static_shape(t)
    r = num(s[0]) if s and s[0] >= 0 else mk("app", "rows", t)
    c = num(s[1]) if s and s[1] >= 0 else mk("app", "cols", t)
    return (r, c)


# write lists -----------------------------------------------------------------
def disjoint(k1, k2):
    """regions (r0,c0,nr,nc) / index keys provably disjoint"""
    if len(k1) != len(k2):
        return False
    if len(k1) == 1:
        d = sub2(k1[0], k2[0]) if (k1[0].op in ("num", "poly") or k2[0].op in ("num", "poly")) and not (
            k1[0].op in ("str", "enum") or k2[0].op in ("str", "enum")) else None
        if d is not None and d.op == "num" and d.args[0] != 0:
            return True
        return is_const(k1[0]) and is_const(k2[0]) and k1[0] is not k2[0]
    for ax in (0, 1):
        a, n = k1[ax], k1[ax + 2]
        b, m = k2[ax], k2[ax + 2]
        for (x, nx, y) in ((a, n, b), (b, m, a)):
            if nx is UNDEF:
                continue
            # x + nx <= y ?
            d = sub2(y, add2(x, nx))
            if d.op == "num" and d.args[0] >= 0:
                return True
    return False


def ent_key(e):
    return (tuple(x.id for x in e[2]), e[0].id, bkey(e[1]), e[3].id)


def wr(base, entries):
    """entries: (guard, binders, key, value) oldest first"""
    # drop dead entries and overwritten ones
    ents = [e for e in entries if e[0] is not FALSE]
    out = []
    for i, e in enumerate(ents):
        dead = False
        for f in ents[i + 1:]:
            if f[0] is TRUE and not f[1] and f[2] == e[2] and not e[1]:
                dead = True
        if not dead:
            out.append(e)
    # canonical order among disjoint neighbours (bubble)
    n = len(out)
    if n < 60:
        changed = True
        while changed:
            changed = False
            for i in range(n - 1):
                a, b = out[i], out[i + 1]
                if ent_key(a) > ent_key(b) and (exclusive(a, b) or disjoint_ent(a, b)):
                    out[i], out[i + 1] = b, a
                    changed = True
    if not out:
        return base
    if base.op == "wr":
        return wr(base.args[0], base.args[1] + tuple(out))
    r = try_fill(base, out)
    if r is not None:
        return r
    return mk("wr", base, tuple(out))


def exclusive(a, b):
    return a[0] is not TRUE and b[0] is not TRUE and not a[1] and not b[1] and b_and(a[0], b[0]) is FALSE


def disjoint_ent(a, b):
    if a[1] or b[1]:
        return False
    return disjoint(a[2], b[2])


def try_fill(base, ents):
    """fully written small matrices become literals; stacked rows become vstack"""
    if base.op not in ("uninit", "zeros", "const", "mat"):
        return None
    if any(e[1] or len(e[2]) != 4 for e in ents):
        return None
    if base.op == "mat":
        R, Cc = base.args[0], base.args[1]
    else:
        R, Cc = _const(base.args[0]), _const(base.args[1])
    if R is not None and Cc is not None and R * Cc <= 36:
        els = {}
        if base.op == "mat":
            for i in range(R):
                for j in range(Cc):
                    els[i, j] = base.args[2][i * Cc + j]
        elif base.op == "zeros":
            for i in range(R):
                for j in range(Cc):
                    els[i, j] = ZERO
        elif base.op == "const":
            for i in range(R):
                for j in range(Cc):
                    els[i, j] = base.args[2]
        ok = True
        allscalar = True
        for g, _, k, v in ents:
            r0, c0 = _const(k[0]), _const(k[1])
            h = R - (r0 or 0) if k[2] is UNDEF else _const(k[2])
            w = Cc - (c0 or 0) if k[3] is UNDEF else _const(k[3])
            if None in (r0, c0, h, w) or r0 + h > R or c0 + w > Cc or r0 < 0 or c0 < 0:
                ok = False
                break
            if not (h == 1 and w == 1):
                allscalar = False
            for i in range(h):
                for j in range(w):
                    x = v if (h == 1 and w == 1 and not _matlike(v)) else el(v, num(i), num(j))
                    if g is not TRUE:
                        if (r0 + i, c0 + j) not in els:
                            ok = False
                            break
                        x = ite(g, x, els[r0 + i, c0 + j])
                    els[r0 + i, c0 + j] = x
                if not ok:
                    break
            if not ok:
                break
        if ok and len(els) == R * Cc:
            return mat(R, Cc, tuple(els[i, j] for i in range(R) for j in range(Cc)))
        if ok and base.op == "uninit" and all(e[0] is TRUE for e in ents):
            return None
    # row stacking
    if any(e[0] is not TRUE for e in ents) or base.op == "mat":
        return None
    rows, cols = base.args[0], base.args[1]
    parts = []
    off = ZERO
    rest = list(ents)
    while rest:
        for e in rest:
            k = e[2]
            if k[0] is off and k[1] is ZERO and (k[3] is UNDEF or k[3] is cols) and k[2] is not UNDEF:
                parts.append(e[3])
                off = add2(off, k[2])
                rest.remove(e)
                break
        else:
            return None
    if off is not rows:
        return None
    if len(parts) == 1:
        return parts[0]
    return vstack(parts)


def vstack(parts):
    """merge consecutive row blocks of one matrix"""
    flat = []
    for p in parts:
        if p.op == "vstack":
            flat.extend(p.args[0])
        else:
            flat.append(p)
    if len(flat) == 1:
        return flat[0]
    return lift(("vstack", len(flat)), lambda *p: mk("vstack", tuple(p)), tuple(flat))


def _matlike(v):
    return v.op in ("mat", "blk", "sel", "tr", "eye", "zeros", "vstack", "wr", "lin", "trs", "skew", "uninit", "const")


def get_region(m, key):
    """read of a region / element of a write list"""
    base, ents = m.args
    ents = list(ents)
    i = len(ents) - 1
    skipped = []
    while i >= 0:
        g, bs, k, v = ents[i]
        if not bs and k == key:
            rest = wr(base, ents[:i]) if i else base
            r = v if g is TRUE else ite(g, v, get_region_any(rest, key))
            return r
        if not bs and len(k) == len(key) and len(k) == 4 and g is TRUE:
            sub = inside(key, k)
            if sub is not None:
                if key[2] is ONE and key[3] is ONE:
                    return el(v, sub[0], sub[1])
                return blk(v, sub[0], sub[1], key[2], key[3])
        if bs or not disjoint(k, key):
            break
        i -= 1
    if i < 0:
        return get_region_any(base, key)
    return mk("get", wr(base, ents[:i + 1]), key)


def inside(k, outer):
    """offset of region k inside region outer when provable"""
    res = []
    for ax in (0, 1):
        d = sub2(k[ax], outer[ax])
        n, N = k[ax + 2], outer[ax + 2]
        if k[ax] is outer[ax] and n is N:
            res.append(ZERO)
            continue
        if d.op == "num" and d.args[0] >= 0:
            if N is UNDEF:
                res.append(d)
                continue
            if n is UNDEF:
                return None
            e = sub2(N, add2(d, n))
            if e.op == "num" and e.args[0] >= 0:
                res.append(d)
                continue
        return None
    return res


HEAPF = mk("sym", "heapfam")
HEAPF0 = mk("deref", HEAPF)
SOLUTION = mk("sym", "solution")


def get_region_any(m, key):
    if m.op == "wr":
        return get_region(m, key)
    if m is HEAPF0:
        return mk("deref", key[0])
    if len(key) == 1:
        return idx(m, key[0])
    if key[2] is ONE and key[3] is ONE:
        return el(m, key[0], key[1])
    return blk(m, *key)


def set_region(m, key, v, guard=TRUE):
    return wr(m, [(guard, (), key, v)])


# ------------------------------------------------------------------ containers
def idx(c, i):
    """element of vector / map"""

    def f(c, i):
        if c.op == "wr":
            return get_region(c, (i,))
        if c.op == "seq":
            r = seq_get(c, i)
            if r is not None:
                return r
        if c.op == "listlit":
            k = _const(i)
            if k is not None and 0 <= k < len(c.args[0]):
                return c.args[0][k]
        return mk("idx", c, i)

    if c.op in STRUCT:
        return lift(("idx1", c), lambda j: f(c, j), (i,)) if i.op == "ite" else f(c, i)
    return lift("idx", f, (c, i))


def seq_get(c, i):
    base, ents = c.args
    n0 = size(base)
    k = n0
    for g, bs, v in ents:
        if g is not TRUE or bs:
            return None
        if k is i:
            return v
        k = add2(k, ONE)
    d = sub2(i, n0)
    return None


def size(c):
    def f(c):
        if c.op == "seq":
            base, ents = c.args
            n = size(base)
            for g, bs, v in ents:
                if bs:
                    n = add2(n, count_entry(g, bs))
                else:
                    n = add2(n, ite(g, ONE, ZERO))
            return n
        if c.op == "wr":
            return size(c.args[0])
        if c.op == "listlit":
            return num(len(c.args[0]))
        if c.op == "empty":
            return ZERO
        if c.op == "vecn":
            return c.args[0]
        if c.op == "app" and c.args[0] == "std_removed":
            return size(c.args[2])
        if c.op == "app" and c.args[0] == "vec_resize":
            return c.args[2]
        return mk("app", "size", c)

    if c.op in STRUCT:
        return f(c)
    return lift("size", f, (c,))


def count_entry(g, bs):
    """how many times an entry with guard g happens"""
    x = ite(g, ONE, ZERO)
    for L, n in bs:
        b, y = open_(L, x)
        x = psum(b, y, n, False)
    return x


def bkey(bs):
    return tuple((L, n.id) for L, n in bs)


def seq(base, ents):
    ents = [e for e in ents if e[0] is not FALSE]
    if not ents:
        return base
    if base.op == "seq":
        return seq(base.args[0], list(base.args[1]) + ents)
    # if-guarded alternatives that append the same value
    out = []
    for e in ents:
        if out and not e[1] and not out[-1][1] and out[-1][2] is e[2] and b_and(out[-1][0], e[0]) is FALSE:
            out[-1] = (b_or(out[-1][0], e[0]), (), e[2])
        else:
            out.append(e)
    # reorder mutually exclusive neighbours canonically
    ch = True
    while ch:
        ch = False
        for i in range(len(out) - 1):
            a, b = out[i], out[i + 1]
            if a[0] is not TRUE and b[0] is not TRUE and (a[2].id, a[0].id) > (b[2].id, b[0].id) and b_and(a[0], b[0]) is FALSE:
                out[i], out[i + 1] = b, a
                ch = True
    return mk("seq", base, tuple(out))


def seq_filter(c, keep):
    """the elements of c with keep(element), in order"""
    if c.op == "empty":
        return c
    ents = []
    base = c
    if c.op == "seq":
        base = c.args[0]
        for g, bs, v in c.args[1]:
            e = (g, v)
            syms, ns = [], [n for _, n in bs]
            for i, (L, n) in enumerate(bs):
                b = fresh_lc()
                m = {mk("bv", L).id: b}
                e = map_terms(e, lambda x: subst(x, m))
                for j in range(i):
                    ns[j] = subst(ns[j], m)
                syms.append(b)
            r = (b_and(e[0], keep(e[1])), (), e[1])
            for b, n in zip(syms, ns):
                r = bind_entry(r, b, n)
            ents.append(r)
    if base.op != "empty":
        b = fresh_lc()
        v = idx(base, b)
        ents.insert(0, bind_entry((keep(v), (), v), b, size(base)))
    return seq(mk("empty"), ents)


def bag(base, ents):
    """commutative collection: entries (guard, binders, value)"""
    ents = [e for e in ents if e[0] is not FALSE]
    if base.op == "bag":
        ents = list(base.args[1]) + ents
        base = base.args[0]
    if not ents:
        return base
    # merge exclusive guards on the same value
    byv = {}
    out = []
    for e in ents:
        k = (e[1], e[2])
        if k in byv and b_and(out[byv[k]][0], e[0]) is FALSE:
            i = byv[k]
            out[i] = (b_or(out[i][0], e[0]), e[1], e[2])
        else:
            byv[k] = len(out)
            out.append(e)
    out.sort(key=lambda e: (e[2].id, e[0].id, bkey(e[1])))
    return mk("bag", base, tuple(out))


# ------------------------------------------------------------------ records
def rec(base, fields):
    """fields: dict"""
    if base.op == "rec":
        d = dict(base.args[1])
        d.update(fields)
        return rec(base.args[0], d)
    out = []
    for k in sorted(fields):
        v = fields[k]
        if v is None:
            continue
        if v.op == "fld" and v.args[0] is base and v.args[1] == k:
            continue
        if base.op == "ite" and v is fld(base, k):
            continue
        out.append((k, v))
    if not out:
        return base
    return mk("rec", base, tuple(out))


FLD_HOOK = [None]


# robot data is up to date with the robot state when the solvers and planners run (the caller's update_kinematics)
ASSUME_KIN = [False]
# configuration and velocity vectors have the sizes of the robot's model
ROBOT_DIMS = [False]
KIN = {"oMi": ("oMi", "q"), "oMf": ("oMf", "oMi"), "J": ("J", "q"), "dJ": ("dJ", "q", "v"), "v": ("v", "q", "v")}


def initial(t):
    while t.op in ("fld", "deref"):
        t = t.args[0]
    return t.op == "sym"


def kin_value(R, name):
    fn, *need = KIN[name]
    st = fld(R, "state")
    a = [fld(st, "q") if x == "q" else fld(st, "qd") if x == "v" else kin_value(R, x) for x in need]
    return mk("app", "pin_" + fn, fld(R, "model"), *a)


def fld(t, name):
    if ASSUME_KIN[0] and name in KIN and t.op in ("fld", "deref"):
        d = t.args[0] if t.op == "deref" else t
        if d.op == "fld" and d.args[1] == "data" and initial(d.args[0]):
            return kin_value(d.args[0], name)
    if t.op == "rec":
        for k, v in t.args[1]:
            if k == name:
                return v
        return fld(t.args[0], name)
    if t.op == "ite":
        return lift(("fld", name), lambda x: fld(x, name), (t,))
    if t.op == "deref" and t.args[0].op == "pvar":
        if name == "k_start":
            return t.args[0].args[0]
        if name == "k_end":
            return add2(t.args[0].args[0], t.args[0].args[1])
    if t.op == "pairlit":
        return t.args[0] if name == "first" else t.args[1] if name == "second" else mk("fld", t, name)
    return mk("fld", t, name)


def merge_struct(c, a, b):
    """if(c) a else b where a or b is structured: push below the constructor. c: atom or diagram"""
    if c.op in ("pos", "eq", "B"):
        c = mk("ite", c, TRUE, FALSE)
    if a.op == "rec" or b.op == "rec":
        ba, fa = (a.args[0], dict(a.args[1])) if a.op == "rec" else (a, {})
        bb, fb = (b.args[0], dict(b.args[1])) if b.op == "rec" else (b, {})
        if ba.op in ("null", "undef") or bb.op in ("null", "undef"):
            if ba.op == "undef" and a.op != "rec":
                return b
            if bb.op == "undef" and b.op != "rec":
                return a
        base = ba if ba is bb else _ite3(c, ba, bb)
        f = {}
        for k in set(fa) | set(fb):
            x = fa[k] if k in fa else fld(ba, k)
            y = fb[k] if k in fb else fld(bb, k)
            f[k] = ite(c, x, y)
        return rec(base, f)
    if a.op == "wr" or b.op == "wr":
        ba, ea = (a.args[0], list(a.args[1])) if a.op == "wr" else (a, [])
        bb, eb = (b.args[0], list(b.args[1])) if b.op == "wr" else (b, [])
        if ba is bb:
            i = 0
            while i < len(ea) and i < len(eb) and ea[i] == eb[i]:
                i += 1
            nc = b_not(c)
            ra, rb = ea[i:], eb[i:]
            out = ea[:i]
            # entries with the same key and no binders on both sides are merged
            ents = []
            used = set()
            if len(ra) <= 12 and len(rb) <= 12:
                if [x[2] for x in ra] == [x[2] for x in rb] and all(not x[1] for x in ra + rb):
                    for x, y in zip(ra, rb):
                        if x[0] is y[0]:
                            ents.append((x[0], (), x[2], ite(c, x[3], y[3])))
                        else:
                            ents.append((b_and(c, x[0]), (), x[2], x[3]))
                            ents.append((b_and(nc, y[0]), (), y[2], y[3]))
                    return wr(ba, out + ents)
            for g, bs, k, v in ra:
                ents.append((b_and(c, g), bs, k, v))
            for g, bs, k, v in rb:
                ents.append((b_and(nc, g), bs, k, v))
            return wr(ba, out + ents)
        return None
    if a.op == "seq" or b.op == "seq":
        ba, ea = (a.args[0], list(a.args[1])) if a.op == "seq" else (a, [])
        bb, eb = (b.args[0], list(b.args[1])) if b.op == "seq" else (b, [])
        if ba is bb:
            i = 0
            while i < len(ea) and i < len(eb) and ea[i] == eb[i]:
                i += 1
            nc = b_not(c)
            ents = ea[:i]
            ents += [(b_and(c, g), bs, v) for g, bs, v in ea[i:]]
            ents += [(b_and(nc, g), bs, v) for g, bs, v in eb[i:]]
            return seq(ba, ents)
        return None
    if a.op == "bag" or b.op == "bag":
        ba, ea = (a.args[0], list(a.args[1])) if a.op == "bag" else (a, [])
        bb, eb = (b.args[0], list(b.args[1])) if b.op == "bag" else (b, [])
        if ba is bb:
            com = [e for e in ea if e in eb]
            nc = b_not(c)
            ents = list(com)
            ents += [(b_and(c, g), bs, v) for g, bs, v in ea if (g, bs, v) not in com]
            ents += [(b_and(nc, g), bs, v) for g, bs, v in eb if (g, bs, v) not in com]
            return bag(ba, ents)
        return None
    return None


# ------------------------------------------------------------------ affine transforms
def aff(R, t):
    return mk("aff", R, t)


def lin(T):
    def f(T):
        if T.op == "aff":
            return T.args[0]
        return mk("lin", T)

    return lift("lin", f, (T,))


def trs(T):
    def f(T):
        if T.op == "aff":
            return T.args[1]
        return mk("trs", T)

    return lift("trs", f, (T,))


def aff_norm(R, t):
    if R.op == "lin" and t.op == "trs" and R.args[0] is t.args[0]:
        return R.args[0]
    if R.op != "ite" and t.op != "ite":
        return aff(R, t)

    def f(R, t):
        if R.op == "lin" and t.op == "trs" and R.args[0] is t.args[0]:
            return R.args[0]
        return aff(R, t)

    return lift("affn", f, (R, t))


def aff_matrix(t):
    return lift("affmatrix", lambda x: mk("app", "affmatrix", x), (t,))


def aff_of(m):
    """the transformation a 4x4 matrix holds"""
    def f(m):
        if m.op == "app" and m.args[0] == "affmatrix":
            return m.args[1]
        three = num(3)
        return aff_norm(blk(m, ZERO, ZERO, three, three), blk(m, ZERO, three, three, ONE))

    return lift("affof", f, (m,))


def aff_mul(a, b):
    return aff_norm(mul2(lin(a), lin(b), True, True), add2(mul2(lin(a), trs(b), True, True), trs(a), True, True))


def aff_apply(a, p):
    return add2(mul2(lin(a), p, True, True), trs(a), True, True)


def aff_inv(a):
    R = inv_mat(lin(a))
    return aff_norm(R, neg(mul2(R, trs(a), True, True), True))


EYE3 = mk("eye", num(3))
ZERO3 = mk("zeros", num(3), ONE)
AFF_ID = aff(EYE3, ZERO3)


# ------------------------------------------------------------------ substitution (rebuilds through the smart constructors)
def rebuild(t, f, memo):
    """f: Term -> Term or None (None: descend)"""
    r = memo.get(t.id)
    if r is not None:
        return r
    r = f(t)
    if r is None:
        op = t.op
        a = t.args

        def g(x):
            if isinstance(x, Term):
                return rebuild(x, f, memo)
            if isinstance(x, tuple):
                return tuple(g(y) for y in x)
            return x

        if op == "poly":
            out = None
            for (sc, ms), c in a[0]:
                x = mk("num", c)
                for at, e in sc:
                    y = g(at)
                    if e < 0:
                        y = inv_scalar(y)
                        e = -e
                    for _ in range(e):
                        x = mul2(x, y)
                first = True
                for m in ms:
                    x = mul2(x, g(m), not first, True)
                    first = False
                anym = bool(ms)
                out = x if out is None else add2(out, x, anym, anym)
            r = out
        elif op in ("num", "str", "enum", "sym", "true", "false", "null", "undef", "bv", "lc", "lv"):
            r = t
        elif op == "ite":
            r = ite(as_bool(g(a[0])), g(a[1]), g(a[2]))
        elif op == "box":
            x = g(a[0])
            r = mk("box", x) if x.op == "ite" else x
        elif op == "pos":
            r = pos(g(a[0]), a[1])
        elif op == "eq":
            x, y = g(a[0]), g(a[1])
            if y.op == "num" or numeric(x) and numeric(y):
                r = eq_num(x, y, False)
            else:
                r = eq(x, y)
        elif op == "B":
            r = as_bool(g(a[0]))
        elif op == "fld":
            r = fld(g(a[0]), a[1])
        elif op == "rec":
            r = rec(g(a[0]), {k: g(v) for k, v in a[1]})
        elif op == "wr":
            r = wr(g(a[0]), [rebuild_entry(e, f, memo) for e in a[1]])
        elif op == "get":
            b = g(a[0])
            r = get_region_any(b, g(a[1]))
        elif op == "seq":
            r = seq(g(a[0]), [rebuild_entry(e, f, memo) for e in a[1]])
        elif op == "bag":
            r = bag(g(a[0]), [rebuild_entry(e, f, memo) for e in a[1]])
        elif op == "idx":
            r = idx(g(a[0]), g(a[1]))
        elif op == "el":
            r = el(g(a[0]), g(a[1]), g(a[2]))
        elif op == "blk":
            r = blk(*[g(x) for x in a])
        elif op == "sel":
            r = sel(*[g(x) for x in a])
        elif op == "mat":
            r = mat(a[0], a[1], g(a[2]))
        elif op == "tr":
            r = tr(g(a[0]))
        elif op == "minv":
            r = inv_mat(g(a[0]))
        elif op == "skew":
            r = skew(g(a[0]))
        elif op == "lin":
            r = lin(g(a[0]))
        elif op == "trs":
            r = trs(g(a[0]))
        elif op == "aff":
            r = aff_norm(g(a[0]), g(a[1]))
        elif op == "max":
            r = maxmin("max", [g(x) for x in a])
        elif op == "vstack":
            r = vstack(g(a[0]))
        elif op == "app" and a[0] == "size":
            r = size(g(a[1]))
        elif op == "app":
            r = lift(("app", a[0]), lambda *x: mk("app", a[0], *x), tuple(g(x) for x in a[1:]))
        elif op in BINDERS:
            r = rebuild_binder(t, f, memo)
        else:
            r = mk(op, *[g(x) for x in a])
        s = _shape.get(t.id)
        if s is not None and r.op not in ("ite", "poly", "num"):
            set_shape(r, *s)
    memo[t.id] = r
    return r


REBUILD_HOOK = {}


# ------------------------------------------------------------------ binders (loops)
# A loop over b = 0..n-1.  Bound variables are named by level = 1 + highest level inside their body.
_fresh = [64]  # 1..64 name the bound variables of binders being rebuilt, by nesting depth
_depth = [0]
_opened = {}


def fresh_lc():
    _fresh[0] += 1
    return mk("lc", _fresh[0])


def map_terms(x, fn):
    if isinstance(x, Term):
        return fn(x)
    if isinstance(x, tuple):
        return tuple(map_terms(y, fn) for y in x)
    return x


def max_bv(x):
    m = 0
    for t in _iter((x,)):
        m = max(m, t.bv)
    return m


def close(x, b):
    """-> (level, x[b := bv(level)])"""
    L = max_bv(x) + 1
    v = mk("bv", L)
    return L, map_terms(x, lambda t: subst(t, {b.id: v}))


def open_(L, x):
    b = fresh_lc()
    v = mk("bv", L)
    return b, map_terms(x, lambda t: subst(t, {v.id: b}))


def enter(n=1):
    d = _depth[0]
    if d + n > 64:
        raise Budget()
    _depth[0] = d + n
    return d


def open_at(t, d):
    k = (t.id, d)
    r = _opened.get(k)
    if r is None:
        b = mk("lc", d + 1)
        v = mk("bv", t.args[0])
        r = _opened[k] = (b, map_terms(t.args[1], lambda x: subst(x, {v.id: b})))
    return r


BINDERS = ("psum", "any", "first", "prevv", "it")


def rebuild_binder(t, f, memo):
    d = enter()
    try:
        return rebuild_binder_(t, f, memo, d)
    finally:
        _depth[0] = d


def rebuild_binder_(t, f, memo, d):
    op = t.op
    L = t.args[0]
    b, body = open_at(t, d)
    body = map_terms(body, lambda x: rebuild(x, f, {}))
    rest = map_terms(t.args[2:], lambda x: rebuild(x, f, memo))
    if op == "psum":
        return psum(b, body, rest[0], rest[1])
    if op == "any":
        return any_(b, body, rest[0])
    if op == "first":
        return first_(b, body, rest[0])
    if op == "prevv":
        return prevv(b, body, rest[0], rest[1])
    if op == "it":
        # body = nexts using lv(L, j)
        return mk_it(b, L, body, rest[0], rest[1], rest[2])
    raise Exception(op)


def rebuild_entry(e, f, memo):
    """(guard, binders, [key,] value); binders: tuple of (L, n)"""
    bs = e[1]
    if not bs:
        return map_terms(e, lambda x: rebuild(x, f, memo))
    d = enter(len(bs))
    try:
        return rebuild_entry_(e, bs, f, memo, d)
    finally:
        _depth[0] = d


def rebuild_entry_(e, bs, f, memo, d):
    syms = []
    g = (e[0],) + tuple(e[2:])
    ns = [n for _, n in bs]
    for i, (L, n) in enumerate(bs):
        b = mk("lc", d + 1 + i)
        v = mk("bv", L)
        m = {v.id: b}
        g = map_terms(g, lambda x: subst(x, m))
        for j in range(0, i):
            ns[j] = subst(ns[j], m)
        syms.append(b)
    g = map_terms(g, lambda x: rebuild(x, f, {}))
    ns = [rebuild(n, f, {}) for n in ns]
    r = (g[0], ()) + tuple(g[1:])
    for b, n in zip(syms, ns):
        r = bind_entry(r, b, n)
    return r


def bind_entry(e, b, n):
    """add an (outermost) binder b < n to an entry; inner binders come first"""
    if (b.lc & (e[0].lc if True else 0)) == 0 and not any(t.lc & b.lc for t in _iter(e)):
        # entry does not depend on b: happens iff n > 0
        return (b_and(e[0], pos(n, True)),) + tuple(e[1:])
    L, x = close((e[0], tuple((l, m) for l, m in e[1])) + tuple(e[2:]), b)
    return (x[0], x[1] + ((L, n),)) + tuple(x[2:])


def psum(b, g, n, mat):
    """sum of g(b), b < n.  linear: split by monomial, pull invariants out"""
    if n is ZERO:
        return ZERO
    if not (g.lc & b.lc):
        return mul2(n, g, False, mat)
    if g.op == "ite" and not (g.args[0].lc & b.lc):
        return ite(as_bool(g.args[0]), psum(b, g.args[1], n, mat), psum(b, g.args[2], n, mat))
    if g.op == "poly":
        out = None
        for (sc, ms), c in g.args[0]:
            osc = tuple(x for x in sc if not (x[0].lc & b.lc))
            isc = tuple(x for x in sc if x[0].lc & b.lc)
            i = 0
            while i < len(ms) and not (ms[i].lc & b.lc):
                i += 1
            j = len(ms)
            while j > i and not (ms[j - 1].lc & b.lc):
                j -= 1
            inner = from_poly({(isc, ms[i:j]): Fraction(1)})
            if not isc and not ms[i:j]:
                s = n
                x = from_poly({(osc, ms): c})
                x = mul2(n, x, False, bool(ms))
            else:
                L, body = close(inner, b)
                s = mk("psum", L, body, n, bool(ms[i:j]))
                x = from_poly({(osc, ()): c})
                for m in ms[:i]:
                    x = mul2(x, m, x.op != "num" and True or False, True) if False else _mulm(x, m)
                x = _mulm(x, s) if ms[i:j] else mul2(x, s)
                for m in ms[j:]:
                    x = _mulm(x, m)
            out = x if out is None else add2(out, x, bool(ms), bool(ms))
        return out
    L, body = close(g, b)
    return mk("psum", L, body, n, mat)


def _mulm(x, m):
    d = {}
    for (sc, ms), c in poly_of(x, True if x.op not in ("num", "poly") else False).items():
        d[(sc, simp_chain(ms + (m,)))] = c
    return from_poly(d)


def any_(b, c, n):
    """exists b < n: c(b)"""
    if c is FALSE or n is ZERO:
        return FALSE
    if not (c.lc & b.lc):
        return b_and(c, pos(n, True))
    # exists distributes over invariants: hoist atoms that do not depend on b
    at = invariant_atom(c, b)
    if at is not None:
        ca = mk("ite", at, TRUE, FALSE)
        return ite(ca, any_(b, restrict(c, ca), n), any_(b, restrict(c, b_not(ca)), n))
    L, body = close(c, b)
    return mk("ite", mk("B", mk("any", L, body, n)), TRUE, FALSE)


def invariant_atom(c, b):
    seen = set()
    st = [c]
    best = None
    while st:
        t = st.pop()
        if t.op != "ite" or t.id in seen:
            continue
        seen.add(t.id)
        a = t.args[0]
        if not (a.lc & b.lc):
            if best is None or atom_key(a) < atom_key(best):
                best = a
        st.append(t.args[1])
        st.append(t.args[2])
    return best


def first_(b, c, n):
    if not (c.lc & b.lc):
        return ZERO
    L, body = close(c, b)
    return mk("first", L, body, n)


def prevv(b, v, init, n):
    """value written by iteration n-1 (init if n == 0)"""
    if not (v.lc & b.lc):
        return ite(pos(n, True), v, init)
    if n is ZERO:
        return init
    L, body = close(v, b)
    return mk("prevv", L, body, init, n)


def mk_it(b, oldL, nexts, inits, j, n):
    """general recurrence: nexts are over lv(oldL, j) and b"""
    if n is ZERO:
        return inits[j]
    L = max_bv(nexts) + 1
    m = {b.id: mk("bv", L)}
    if L != oldL:
        # two steps to avoid clashes
        tmp = {mk("lv", oldL, i).id: mk("lv", -1 - oldL, i) for i in range(len(inits))}
        nexts = map_terms(nexts, lambda t: subst(t, tmp))
        back = {mk("lv", -1 - oldL, i).id: mk("lv", L, i) for i in range(len(inits))}
        nexts = map_terms(nexts, lambda t: subst(t, back))
    nexts = map_terms(nexts, lambda t: subst(t, m))
    return mk("it", L, nexts, inits, j, n)


def subst(t, mapping):
    """mapping: {term id: term}"""
    if not mapping:
        return t
    ck = None
    if len(mapping) == 1:
        (i, v), = mapping.items()
        ck = (t.id, i, v.id)
        r = _subst.get(ck)
        if r is not None:
            return r
    mask, low = 0, 1 << 30
    for i in mapping:
        k = _all[i]
        if k.op == "lc":
            mask |= k.lc
        elif k.op == "bv":
            low = min(low, k.args[0])
        else:
            return rebuild(t, lambda x: mapping.get(x.id), {})
    r = rebuild(t, lambda x: mapping.get(x.id) if x.lc & mask or x.bv >= low else x, {})
    if ck is not None:
        _subst[ck] = r
    return r


_subst = {}


def contains(t, pred, memo=None):
    memo = {} if memo is None else memo
    r = memo.get(t.id)
    if r is not None:
        return r
    if pred(t):
        memo[t.id] = True
        return True
    memo[t.id] = False
    for a in _iter(t.args):
        if contains(a, pred, memo):
            memo[t.id] = True
            return True
    return False
