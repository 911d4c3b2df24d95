"""Meaning of the library operators the code base uses (Eigen, std, pinocchio, libm) on value-graph terms."""
import re
from fractions import Fraction

from terms import *
import terms as T

ALL = UNDEF


def L(name, *args):
    if any(a.op in T.STRUCT for a in args):
        return mk("app", name, *args)
    return lift(("app", name), lambda *x: mk("app", name, *x), args)


MATH = {"fabs", "abs", "sqrt", "sin", "cos", "tan", "exp", "log", "acos", "asin", "atan", "atan2", "floor", "ceil", "round", "fmod",
        "isnan", "isinf", "isfinite", "hypot", "tanh", "sinh", "cosh", "log2", "log10", "log1p", "expm1", "trunc", "remainder"}

# pinocchio algorithms that only read model/data (they write their output argument)
PIN_READ = {"getFrameJacobian", "getFrameJacobianTimeVariation", "getJointJacobian", "getJointJacobianTimeVariation",
            "getJointKinematicHessian"}


# algorithms updating data: field -> (function, arguments after the model).  "q"/"v" = configuration / velocity argument,
# other names = fields of data that the algorithm reads.  Each result is a function of what it is computed from, so neither the
# order of independent algorithms nor recomputing the same quantity matters.
_FK = {"oMi": ("oMi", "q")}
_V = {"oMi": ("oMi", "q"), "v": ("v", "q", "v")}
PIN_WRITE = {
    "forwardKinematics": (dict(_FK), None),
    "framesForwardKinematics": (dict(_FK, oMf=("oMf", "oMi")), None),
    "updateFramePlacements": (dict(oMf=("oMf", "oMi")), None),
    "computeJointJacobians": (dict(_FK, J=("J", "q")), "J"),
    "computeJointJacobiansTimeVariation": (dict(_V, J=("J", "q"), dJ=("dJ", "q", "v")), "dJ"),
    "computeJointKinematicHessians": (dict(kinematic_hessians=("kinematic_hessians", "J")), None),
    "centerOfMass": (dict(com=("com", "oMi")), None),
    "jacobianCenterOfMass": (dict(_FK, com=("com", "oMi"), Jcom=("Jcom", "q")), "Jcom"),
    "computeCentroidalMap": (dict(_FK, J=("J", "q"), com=("com", "oMi"), Ag=("Ag", "q")), "Ag"),
    "computeCentroidalMapTimeVariation": (dict(_V, J=("J", "q"), dJ=("dJ", "q", "v"), com=("com", "oMi"), Ag=("Ag", "q"),
                                               dAg=("dAg", "q", "v")), "dAg"),
    "computeGeneralizedGravity": (dict(g=("g", "q")), "g"),
    "nonLinearEffects": (dict(nle=("nle", "q", "v")), "nle"),
    "crba": (dict(_FK, J=("J", "q"), M=("Mu", "q")), "M"),  # only the upper triangle is filled
    "computeAllTerms": (dict(_V, J=("J", "q"), dJ=("dJ", "q", "v"), com=("com", "oMi"), Jcom=("Jcom", "q"), g=("g", "q"),
                             nle=("nle", "q", "v"), M=("M", "q"), Ag=("Ag", "q")), None),
}
PIN_GET = {"getFrameJacobian": ("oMi", "J"), "getFrameJacobianTimeVariation": ("oMi", "J", "dJ", "v"),
           "getJointJacobian": ("oMi", "J"), "getJointJacobianTimeVariation": ("oMi", "J", "dJ", "v"),
           "getJointKinematicHessian": ("oMi", "J", "kinematic_hessians")}


def trimerge(old, v, mode):
    if old.op == "app" and old.args[0] == "pin_Mu" and v is T.tr(old) and mode in (1, 9):
        return mk("app", "pin_M", *old.args[1:])
    return lift(("trim", mode), lambda a, b: mk("app", "trimerge", a, b, num(mode)), (old, v))


def is_app(t, n):
    return t.op == "app" and t.args[0] == n


def unarray(v):
    return lift("unarray", lambda x: x.args[1] if is_app(x, "array") else x, (v,)) if v.op in ("ite", "app") else v


def one_iter(v):
    """a choice between positions of one container is a position of it"""
    if v.op != "ite":
        return v
    leaves = []
    seen = set()
    st = [v]
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == "ite":
            st += [t.args[1], t.args[2]]
        else:
            leaves.append(t)
    if all(x.op == "iter" for x in leaves) and len({(x.args[0].id, x.args[2]) for x in leaves}) == 1:
        x = leaves[0]
        return mk("iter", x.args[0], lift("iterpos", lambda y: y.args[1], (v,)), x.args[2])
    return v


class Handlers:
    def __init__(self, eng):
        self.e = eng

    # ------------------------------------------------------------------ helpers
    def vals(self, e, fr, st):
        return [self.e.ev(a, fr, st) for a in e["args"]]

    def kind(self, fr, node):
        t = self.e.ty(fr, node)
        if t["k"] in ("int", "float", "bool", "enum"):
            return "s"
        if t["k"] == "rec":
            n = t["n"]
            if n.startswith("Eigen::Transform"):
                return "a"
            if n.startswith("Eigen::Translation"):
                return "t"
            if n.startswith(("Eigen::AngleAxis", "Eigen::Quaternion")):
                return "r"
            if "rows" in t:
                return "m"
            if n.startswith("Eigen::"):
                return "m"
        return "o"

    def call(self, e, fr, st):
        q = e.get("q") or ""
        c = e.get("c") or ""
        n = e.get("n") or ""
        if c.startswith("Eigen::") or q.startswith("Eigen::"):
            return self.eigen(e, fr, st, n, c)
        if c.startswith("pinocchio::") or q.startswith("pinocchio::"):
            return self.pin(e, fr, st, n, c, q)
        if c == "Json::Value" and e.get("op") != "=" and (e.get("op") or e.get("mconst")):
            # parsed documents are only read
            r = L("json" + (n if n != "operator[]" else "[]"), self.e.load(st, self.e.obj_ptr(e, fr, st)), *self.vals(e, fr, st))
            if n in ("size", "asInt"):
                T.INTS.add(r.id)
            return ("v", r)
        if e.get("op") == "=" and e.get("m"):
            # defaulted assignment operators
            v = self.e.ev(e["args"][0], fr, st)
            p = self.e.obj_ptr(e, fr, st)
            if v.op == "built":
                v = v.args[1]
            self.e.store(st, p, self.e.canon_rec(c, v))
            return ("lv", p)
        if c.startswith(("std::", "__gnu_cxx::")) or q.startswith(("std::", "__gnu_cxx::")) or "::" not in q:
            return self.std(e, fr, st, n, c, q)
        return None

    # ------------------------------------------------------------------ Eigen
    def eigen(self, e, fr, st, n, c):
        E = self.e
        op = e.get("op")
        if op is None and n.startswith("operator") and not n[8:9].isalnum() and n[8:9] not in ("", " ", "_"):
            op = n[8:]
        args = e["args"]
        if e.get("mstatic") or (not e.get("m")):
            if op is None:
                return self.eigen_static(e, fr, st, n, c)
            # free operators: scalar * matrix, etc.
            a, b = self.vals(e, fr, st)
            ka, kb = self.kind(fr, args[0]), self.kind(fr, args[1])
            return ("v", self.binary(op, a, b, ka, kb, e, fr))
        from engine import extend
        o = e["obj"]
        ko = self.kind(fr, o)
        if op:
            if op in ("+", "-", "*", "/", "==", "!="):
                a = E.ev(o, fr, st)
                if not args:
                    return ("v", neg(a, ko != "s"))
                b = E.ev(args[0], fr, st)
                return ("v", self.binary(op, a, b, ko, self.kind(fr, args[0]), e, fr))
            if op in ("()", "[]"):
                t = E.ty(fr, o)
                if any(E.ty(fr, a)["k"] not in ("int", "enum", "bool") for a in args):
                    ii = []
                    for a in args:
                        ta = E.ty(fr, a)
                        if ta["k"] == "rec" and ("all_t" in ta["n"] or "AllRange" in ta["n"]):
                            ii.append(UNDEF)
                        else:
                            ii.append(E.ev(a, fr, st))
                    if len(ii) == 1:
                        ii = [UNDEF, ii[0]] if t.get("rows") == 1 and t.get("cols") != 1 else [ii[0], UNDEF]
                    return ("lv", extend(E.lv(o, fr, st), ("sel", ii[0], ii[1])))
                ii = self.vals(e, fr, st)
                if len(ii) == 1:
                    ii = [ZERO, ii[0]] if t.get("rows") == 1 and t.get("cols") != 1 else [ii[0], ZERO]
                p = E.lv(o, fr, st)
                return ("lv", self.region(p, ii[0], ii[1], ONE, ONE))
            if op == "=" and o.get("n") in ("triangularView", "template triangularView") and o.get("obj"):
                v = E.ev(args[0], fr, st)
                md = self.ints_ta(o)[0]
                if v.op == "app" and v.args[0] == "triangularView" and v.args[2] is num(md):
                    v = v.args[1]
                p = E.lv(o["obj"], fr, st)
                E.store(st, p, trimerge(E.load(st, p), v, md))
                return ("lv", p)
            if op in ("+=", "-=") and o.get("n") in ("rowwise", "colwise") and o.get("obj"):
                b = E.ev(args[0], fr, st)
                p = E.lv(o["obj"], fr, st)
                E.store(st, p, L(o["n"][:3] + "_add", E.load(st, p), neg(b, True) if op == "-=" else b))
                return ("lv", p)
            if op == "=":
                v = E.ev(args[0], fr, st)
                p = self.target(o, fr, st)
                E.store(st, p, self.assign_value(v, self.kind(fr, args[0]), ko, p))
                return ("lv", p)
            if op in ("+=", "-=", "*=", "/="):
                b = E.ev(args[0], fr, st)
                p = self.target(o, fr, st)
                a = E.load(st, p)
                E.store(st, p, self.binary(op[0], a, b, ko, self.kind(fr, args[0]), e, fr))
                return ("lv", p)
            if op == "<<":
                if c == "Eigen::CommaInitializer":
                    return None
                p = self.target(o, fr, st)
                v = E.ev(args[0], fr, st)
                ci = new_comma(E, st, p, E.load(st, p), v, self.kind(fr, args[0]) == "s")
                return ("v", ci)
            if op == ",":
                ci = E.ev(o, fr, st)
                v = E.ev(args[0], fr, st)
                return ("v", comma_next(E, st, ci, v, self.kind(fr, args[0]) == "s"))
        return self.eigen_method(e, fr, st, n, c, o, ko)

    def target(self, o, fr, st):
        """where an assignment writes; writing through what a call returned by value is not understood"""
        from engine import Unsupported
        p = self.e.lv(o, fr, st)
        root = p.args[0] if p.op == "addr" else p
        if root in self.e.values:
            raise Unsupported("write through " + str(o.get("n")))
        return p

    def assign_value(self, v, kv, ko, p):
        v = unarray(v)
        if kv == "s" and ko == "m":
            return v
        return v

    def binary(self, op, a, b, ka, kb, e, fr):
        E = self.e
        if is_app(a, "array") or is_app(b, "array"):
            # coefficient-wise arithmetic
            x, y = unarray(a), unarray(b)
            if op in "+-*/" and ka != "s" and kb != "s":
                r = {"+": lambda: add2(x, y, True, True), "-": lambda: sub2(x, y, True, True), "*": lambda: L("cwiseProduct", x, y),
                     "/": lambda: L("cwiseQuotient", x, y)}[op]()
                return L("array", r)
            if op == "*" or op == "/" and kb == "s":
                r = mul2(x, y, ka != "s", kb != "s") if op == "*" else div2(x, y, True)
                return L("array", r)
            return L("array", L("array" + op, x, y))
        for k in ("rowwise", "colwise"):
            if is_app(a, k) and op in "+-":
                return L(k[:3] + "_add", a.args[1], neg(b, True) if op == "-" else b)
            if is_app(b, k) and op == "+":
                return L(k[:3] + "_add", b.args[1], a)
        if op == "*":
            # translations are written as transformations, whatever they multiply
            if ka == "t" or kb == "t":
                x = aff(EYE3, a) if ka == "t" else aff(a, ZERO3) if ka == "r" else a
                y = aff(EYE3, b) if kb == "t" else aff(b, ZERO3) if kb == "r" else b
                if ka in "tar" and kb in "tar":
                    if ka == "t" and kb == "t":
                        return add2(a, b, True, True)
                    return aff_mul(x, y)
                if ka == "t" and kb == "m":
                    t = E.ty(fr, e["args"][-1])
                    return aff(b, a) if t.get("cols") == 3 else add2(a, b, True, True)
            if ka == "r" and kb == "a":
                return aff_mul(aff(a, ZERO3), b)
        am, bm = ka in ("m", "r"), kb in ("m", "r")
        if op == "*":
            if ka == "a" and kb == "a":
                return aff_mul(a, b)
            if ka == "a" and kb == "m":
                return aff_apply(a, b)
            if ka == "a" and kb == "r":
                return aff_mul(a, aff(b, ZERO3))
            return mul2(a, b, am, bm)
        if op == "+":
            return add2(a, b, am, bm)
        if op == "-":
            return sub2(a, b, am, bm)
        if op == "/":
            return div2(a, b, am)
        if op in ("==", "!="):
            r = eq(a, b)
            return r if op == "==" else b_not(r)
        return L("eigen" + op, a, b)

    def region(self, p, r0, c0, nr, nc):
        from engine import extend
        if any(x.op == "ite" for x in (r0, c0, nr, nc)):
            return lift("region", lambda pp, a, b, c, d: self.region(pp, a, b, c, d), (p, r0, c0, nr, nc))
        if p.op == "ite":
            return lift("region", lambda pp, a, b, c, d: self.region(pp, a, b, c, d), (p, r0, c0, nr, nc))
        # nested views: flatten region of region
        if p.op == "addr" and p.args[1] and p.args[1][-1][0] == "r":
            R = p.args[1][-1][1]
            acc = ("r", (add2(R[0], r0), add2(R[1], c0), R[2] if nr is ALL else nr, R[3] if nc is ALL else nc))
            return mk("addr", p.args[0], p.args[1][:-1] + (acc,))
        if p.op == "addr" and p.args[1] and p.args[1][-1][0] == "tr":
            # region of a transposed view
            inner = mk("addr", p.args[0], p.args[1][:-1]) if len(p.args[1]) > 1 else p.args[0]
            q = self.region(inner, c0, r0, nc, nr)
            if nr is ONE and nc is ONE:
                return q
            return extend(q, ("tr",))
        return extend(p, ("r", (r0, c0, nr, nc)))

    def ints_ta(self, e):
        return [x["v"] for x in e.get("ta", []) if isinstance(x, dict) and "v" in x]

    def full(self, p, st, r0, c0, nr, nc, ot=None):
        """normalise a region that covers a whole known dimension"""
        m = self.e.load(st, p)
        if ot is not None:
            self.e.shape_from_type(m, ot)
            if ot.get("rows", -1) >= 0 and r0 is ZERO and nr.op == "num" and nr.args[0] == ot["rows"]:
                nr = ALL
            if ot.get("cols", -1) >= 0 and c0 is ZERO and nc.op == "num" and nc.args[0] == ot["cols"]:
                nc = ALL
        sh = shape(m) if m.op not in ("num", "undef") else (None, None)
        if r0 is ZERO and nr is sh[0]:
            nr = ALL
        if c0 is ZERO and nc is sh[1]:
            nc = ALL
        if nr is ALL and r0 is ZERO and sh[0] is not None and sh[0].op == "num":
            pass
        return r0, c0, nr, nc

    def eigen_method(self, e, fr, st, n, c, o, ko):
        from engine import extend
        E = self.e
        args = e["args"]
        ot = E.ty(fr, o)

        def reg(r0, c0, nr, nc):
            p = E.lv(o, fr, st)
            r0, c0, nr, nc = self.full(p, st, r0, c0, nr, nc, ot)
            if r0 is ZERO and c0 is ZERO and nr is ALL and nc is ALL:
                return ("lv", p)
            return ("lv", self.region(p, r0, c0, nr, nc))

        vec_row = ot.get("rows") == 1 and ot.get("cols") != 1
        if n in ("x", "y", "z", "w") and ko == "m":
            i = num("xyzw".index(n))
            p = E.lv(o, fr, st)
            return ("lv", self.region(p, *((ZERO, i) if vec_row else (i, ZERO)), ONE, ONE))
        if n in ("block", "topRows", "bottomRows", "leftCols", "rightCols", "head", "tail", "segment", "row", "col", "topLeftCorner",
                 "topRightCorner", "bottomLeftCorner", "bottomRightCorner", "middleRows", "middleCols"):
            a = self.vals(e, fr, st)
            ta = self.ints_ta(e)
            if n == "row":
                return reg(a[0], ZERO, ONE, ALL)
            if n == "col":
                return reg(ZERO, a[0], ALL, ONE)
            if n == "block":
                if len(a) == 4:
                    return reg(*a)
                return reg(a[0], a[1], num(ta[0]), num(ta[1]))
            cnt = a[-1] if a and (n not in ("segment", "middleRows", "middleCols") or len(a) == 2) else (num(ta[0]) if ta else None)
            if n == "topRows":
                return reg(ZERO, ZERO, cnt, ALL)
            if n == "leftCols":
                return reg(ZERO, ZERO, ALL, cnt)
            if n == "middleRows":
                return reg(a[0], ZERO, cnt, ALL)
            if n == "middleCols":
                return reg(ZERO, a[0], ALL, cnt)
            if n == "head":
                return reg(ZERO, ZERO, *((ALL, cnt) if vec_row else (cnt, ALL)))
            if n == "segment":
                return reg(*((ZERO, a[0], ALL, cnt) if vec_row else (a[0], ZERO, cnt, ALL)))
            sh = shape(E.ev(o, fr, st))
            if n == "bottomRows":
                return reg(sub2(sh[0], cnt), ZERO, cnt, ALL)
            if n == "rightCols":
                return reg(ZERO, sub2(sh[1], cnt), ALL, cnt)
            if n == "tail":
                return reg(*((ZERO, sub2(sh[1], cnt), ALL, cnt) if vec_row else (sub2(sh[0], cnt), ZERO, cnt, ALL)))
            if len(a) == 2:
                nr, nc = a
            else:
                nr, nc = num(ta[0]), num(ta[1])
            r0 = ZERO if n.startswith("top") else sub2(sh[0], nr)
            c0 = ZERO if n.endswith("LeftCorner") else sub2(sh[1], nc)
            return reg(r0, c0, nr, nc)
        if n == "linear" or n == "rotation":
            if ko == "a":
                p = E.lv(o, fr, st)
                return ("lv", extend(p, ("lin",)))
        if n == "translation" and ko == "a":
            p = E.lv(o, fr, st)
            return ("lv", extend(p, ("trs",)))
        if n in ("matrix", "eval", "array", "noalias", "derived", "real", "nestedExpression", "const_cast_derived", "asPermutation"):
            if ko == "a":
                return ("lv", extend(E.lv(o, fr, st), ("affm",)))
            p = E.lv(o, fr, st)
            if n == "array" or n == "matrix" and is_app(E.load(st, p), "array"):
                if n == "matrix":
                    return ("v", unarray(E.load(st, p)))
                if p.op == "addr" and p.args[1] and p.args[1][-1] == ("array",):
                    return ("lv", p)
                return ("lv", extend(p, ("array",)))
            return ("lv", p)
        if n == "toRotationMatrix":
            return ("v", E.ev(o, fr, st))
        if n == "cast":
            return ("v", E.ev(o, fr, st))
        if n == "transpose":
            if e.get("mconst") or o["k"] not in ("ref", "mem"):
                return ("v", tr(E.ev(o, fr, st)))
            return ("lv", extend(E.lv(o, fr, st), ("tr",)))
        if n in ("rows", "cols", "size"):
            m = E.ev(o, fr, st)
            return ("v", self.dim(m, n, ot))
        if n == "inverse":
            v = E.ev(o, fr, st)
            if ko == "a":
                return ("v", aff_inv(v))
            return ("v", inv_mat(v))
        if n == "norm":
            return ("v", self.norm(E.ev(o, fr, st)))
        if n == "squaredNorm":
            v = E.ev(o, fr, st)
            return ("v", self.dot(v, v))
        if n in ("normalized", "normalize"):
            if n == "normalize":
                p = E.lv(o, fr, st)
                v = E.load(st, p)
                E.store(st, p, div2(v, self.norm(v), True))
                return ("v", UNDEF)
            v = E.ev(o, fr, st)
            return ("v", div2(v, self.norm(v), True))
        if n == "dot":
            x, y = E.ev(o, fr, st), E.ev(args[0], fr, st)
            at = E.ty(fr, args[0])
            if vec_row and shape(x)[1] is not ONE:
                x = tr(x)
            if at.get("rows") == 1 and at.get("cols") != 1 and shape(y)[1] is not ONE:
                y = tr(y)
            return ("v", self.dot(x, y))
        if n == "cross":
            a, b = E.ev(o, fr, st), E.ev(args[0], fr, st)
            return ("v", mul2(skew(a), b, True, True))
        if n in ("setZero", "setIdentity", "setConstant", "setOnes", "fill"):
            n = "setConstant" if n == "fill" else n
            p = E.lv(o, fr, st)
            a = self.vals(e, fr, st)
            if ko == "a":
                E.store(st, p, AFF_ID)
                return ("lv", p)
            cv = None
            if n == "setConstant":
                cv = a[-1]
                a = a[:-1]
            if len(a) == 2:
                r, cc = a
            elif len(a) == 1:
                r, cc = (ONE, a[0]) if vec_row else (a[0], ONE)
            else:
                old = E.load(st, p)
                r, cc = shape(old) if old.op not in ("undef",) else (num(max(ot.get("rows", 0), 0)), num(max(ot.get("cols", 0), 0)))
                if ot.get("rows", -1) >= 0:
                    r = num(ot["rows"])
                if ot.get("cols", -1) >= 0:
                    cc = num(ot["cols"])
            if n == "setZero":
                v = mk("zeros", r, cc)
            elif n == "setIdentity":
                v = mk("eye", r)
            elif n == "setOnes":
                v = mk("const", r, cc, ONE)
            else:
                v = self.const(r, cc, cv)
            E.store(st, p, v)
            return ("lv", p)
        if n in ("resize", "conservativeResize"):
            p = E.lv(o, fr, st)
            a = self.vals(e, fr, st)
            if len(a) == 1:
                a = [ONE, a[0]] if vec_row else [a[0], ONE]
            old = E.load(st, p)
            if n == "resize":
                sh = shape(old) if old.op not in ("undef",) else (None, None)
                if sh[0] is a[0] and sh[1] is a[1]:
                    return ("v", UNDEF)
                v = mk("uninit", a[0], a[1])
            else:
                v = L("conservativeResize", old, *a)
            E.store(st, p, v)
            return ("v", UNDEF)
        if n in ("rotate", "translate", "prerotate", "pretranslate") and ko == "a":
            p = E.lv(o, fr, st)
            v = E.ev(args[0], fr, st)
            old = E.load(st, p)
            X = aff(v, ZERO3) if "rotate" in n else aff(EYE3, v)
            E.store(st, p, aff_mul(X, old) if n.startswith("pre") else aff_mul(old, X))
            return ("lv", p)
        if n == "sum":
            v = unarray(E.ev(o, fr, st))
            if is_app(v, "rowwise") or is_app(v, "colwise"):
                return ("v", L("part_sum", v))
            return ("v", self.msum(v, ot))
        if n == "angle" or n == "axis":
            v = E.ev(o, fr, st)
            return ("v", L("aa_" + n, v))
        if n == "transposeInPlace":
            p = E.lv(o, fr, st)
            E.store(st, p, tr(E.load(st, p)))
            return ("v", UNDEF)
        if n in ("applyThisOnTheRight", "applyThisOnTheLeft"):
            q = E.ev(o, fr, st)
            p = E.lv(args[0], fr, st)
            old = E.load(st, p)
            E.store(st, p, mul2(old, q, True, True) if n.endswith("Right") else mul2(q, old, True, True))
            return ("v", UNDEF)
        if n in ("minCoeff", "maxCoeff", "mean", "hasNaN", "allFinite", "isZero", "isApprox", "determinant", "rank", "colPivHouseholderQr",
                 "matrixQ", "matrixR", "matrixQR", "colsPermutation", "householderQr", "colwise", "rowwise", "cwiseProduct", "cwiseAbs",
                 "asDiagonal", "slerp", "sqrt", "exp", "data", "solve", "triangularView", "selfadjointView", "template triangularView",
                 "matrixU", "matrixV", "trace", "array", "abs", "all", "any", "isIdentity", "log", "llt", "ldlt", "compute", "operator*",
                 "adjoint", "diagonal", "reverse", "replicate", "cwiseMax", "cwiseMin", "cwiseQuotient", "cwiseInverse", "lpNorm",
                 "isMuchSmallerThan", "outerStride", "innerStride", "operator-", "operator+", "vectorwise", "isInvertible", "singularValues", "square", "cube", "cwiseAbs2", "cwiseSqrt",
                 "partialPivLu", "fullPivLu", "lu", "fullPivHouseholderQr", "completeOrthogonalDecomposition"):
            if n == "diagonal" and not e.get("mconst"):
                return ("lv", extend(E.lv(o, fr, st), ("diag",)))
            v = E.ev(o, fr, st)
            a = self.vals(e, fr, st)
            if is_app(v, "array"):
                if n in ("abs", "sqrt", "exp", "log", "square", "cube"):
                    return ("v", L("array", L("cwise" + n.capitalize(), unarray(v))))
                v = unarray(v)
                a = [unarray(x) for x in a]
            if n in ("triangularView", "selfadjointView"):
                a = [num(x) for x in self.ints_ta(e)] + a
                if n == "selfadjointView" and v.op == "app" and v.args[0] == "pin_Mu" and a[0] is num(2):
                    return ("v", mk("app", "pin_M", *v.args[1:]))
            if n == "isApprox" or n == "isZero":
                a = a[:-1] if n == "isApprox" and len(a) == 2 else (a if n == "isApprox" else [])
            return ("v", L(n, v, *a))
        if c.startswith("Eigen::Translation") and n in ("vector", "translation"):
            return ("lv", E.lv(o, fr, st))
        if c.startswith("Eigen::Quaternion") and n in ("coeffs", "vec"):
            q = E.ev(o, fr, st)
            ks = "xyzw" if n == "coeffs" else "xyz"
            return ("v", mat(len(ks), 1, tuple(L("quat_" + k, q) for k in ks)))
        if c.startswith("Eigen::Quaternion") and n in "xyzw":
            return ("v", L("quat_" + n, E.ev(o, fr, st)))
        return None

    def dim(self, m, n, t=None):
        if n == "size":
            sh = shape(m)
            if t is not None and t.get("cols") == 1:
                return sh[0]
            if t is not None and t.get("rows") == 1:
                return sh[1]
            return mul2(sh[0], sh[1])

        def f(x):
            return shape(x)[0 if n == "rows" else 1]

        return lift("dim" + n, f, (m,)) if m.op == "ite" else f(m)

    def const(self, r, c, v):
        if v is ZERO:
            return mk("zeros", r, c)
        return lift(("mconst", r, c), lambda x: mk("const", r, c, x), (v,))

    def dot(self, a, b):
        def f(x, y):
            if x.op == "zeros" or y.op == "zeros":
                return ZERO
            p = mul2(tr(x), y, True, True)
            return self.scalarize(p)

        return lift("dot", f, (a, b))

    def scalarize(self, p):
        """1x1 matrix polynomial -> scalar polynomial (chains become scalar atoms, orientation-normalised)"""

        def f(p):
            if p.op in ("num",):
                return p
            if p.op == "zeros":
                return ZERO
            if p.op == "mat":
                return p.args[2][0]
            out = {}
            for (sc, ms), c in poly_of(p, True).items():
                if not ms:
                    k = (sc, ())
                    out[k] = out.get(k, 0) + c
                    continue
                chain = from_poly({((), ms): Fraction(1)})
                rev = tr(chain)
                sg = 1
                if rev.op == "poly" and len(rev.args[0]) == 1:
                    (m2, cc), = rev.args[0]
                    if cc == -1:
                        sg = -1
                        rev = from_poly({m2: Fraction(1)})
                at = chain if chain.id <= rev.id else rev
                if at is rev and at is not chain:
                    c = c * sg
                if at.op == "mat":
                    x = at.args[2][0]
                    for m3, c3 in poly_of(mul2(from_poly({(sc, ()): c}), x)).items():
                        out[m3] = out.get(m3, 0) + c3
                    continue
                a = mk("sc", at)
                d = dict(sc)
                d[a] = d.get(a, 0) + 1
                k = (tuple(sorted(d.items(), key=lambda z: z[0].id)), ())
                out[k] = out.get(k, 0) + c
            return from_poly(out)

        return lift("scalarize", f, (p,))

    def norm(self, v):
        """norm(k v) = |k| norm(v); sign-normalised"""

        def f(x):
            if x.op == "zeros":
                return ZERO
            if x.op == "poly":
                items = x.args[0]
                lead = items[0][1]
                y = from_poly({m: c / lead for m, c in items})
                return scale(mk("app", "norm", y), abs(lead))
            if x.op == "mat":
                # canonical sign: none
                pass
            return mk("app", "norm", x)

        return lift("norm", f, (v,))

    def msum(self, v, t):
        def f(x):
            if x.op == "mat":
                return sum_terms(x.args[2])
            return mk("app", "msum", x)

        return lift("msum", f, (v,))

    def eigen_static(self, e, fr, st, n, c):
        E = self.e
        rt = E.rty(fr, fr.types[e["rt"]])
        # dims from the class the static belongs to
        a = self.vals(e, fr, st)
        if c == "Eigen::Transform" and n == "Identity":
            return ("v", AFF_ID)
        r, cc = rt.get("rows", -1), rt.get("cols", -1)
        if n in ("Zero", "Ones", "Constant", "Identity"):
            if n == "Identity" and rt["n"].startswith(("Eigen::Quaternion", "Eigen::AngleAxis")):
                return ("v", EYE3)
            k = None
            if n == "Constant":
                k = a[-1]
                a = a[:-1]
            if len(a) == 2:
                R, C = a
            elif len(a) == 1:
                R, C = (ONE, a[0]) if r == 1 else (a[0], ONE)
            else:
                R, C = num(r), num(cc)
            if n == "Zero":
                return ("v", mk("zeros", R, C))
            if n == "Identity":
                return ("v", mk("eye", R))
            return ("v", self.fillc(R, C, ONE if n == "Ones" else k))
        if n in ("UnitX", "UnitY", "UnitZ", "UnitW"):
            i = "XYZW".index(n[-1])
            R = r if r > 0 else 3
            return ("v", mat(R, 1, tuple(ONE if j == i else ZERO for j in range(R))))
        if n == "Random":
            return ("v", mk("app", "random"))
        if n == "dummy_precision" or n == "epsilon":
            return ("v", mk("app", n))
        return None

    def fillc(self, R, C, v):
        r, c = T._const(R), T._const(C)
        if r is not None and c is not None and r * c <= 36:
            return mat(r, c, (v,) * (r * c))
        return self.const(R, C, v)

    # ------------------------------------------------------------------ pinocchio
    def pin(self, e, fr, st, n, c, q):
        E = self.e
        args = e["args"]
        from engine import extend, app, strip_targs
        name = strip_targs(q)
        if n == "skew":
            return ("v", skew(E.ev(args[0], fr, st)))
        if n in ("exp3", "log3", "Jlog3", "integrate", "difference", "neutral", "matrixToRpy", "rpyToMatrix"):
            vals = []
            outs = []
            for i, a in enumerate(args):
                pt = fr.types[e["pt"][i]] if i < len(e["pt"]) else None
                out = (n == "Jlog3" and i == 1) or (n in ("integrate", "difference") and i == 3)
                if out:
                    outs.append(E.lv(a, fr, st))
                else:
                    vals.append(E.ev(a, fr, st))
            r = L(n, *vals)
            for o in outs:
                E.store(st, o, r)
            return ("v", r)
        if n in PIN_GET:
            M = E.ev(args[0], fr, st)
            D = E.lv(args[1], fr, st)
            reads = [E.load(st, extend(D, ("f", f))) for f in PIN_GET[n]]
            rt = fr.types[e["rt"]]
            void = rt["k"] == "void"
            vals = [E.ev(a, fr, st) for a in (args[2:-1] if void else args[2:])]
            r = L(n, M, *(vals + reads))
            if void:
                # the result is only written where the jacobian is not structurally zero
                out = E.lv(args[-1], fr, st)
                old = E.load(st, out)
                if not (old.op == "zeros" and shape(old) == (num(6), fld(M, "nv"))):
                    r = mk("app", "jacobian_over", old, r)
                E.store(st, out, r)
                return ("v", UNDEF)
            return ("v", r)
        if n in PIN_WRITE and len(args) >= 2:
            M = E.ev(args[0], fr, st)
            D = E.lv(args[1], fr, st)
            rest = [E.ev(a, fr, st) for a in args[2:]]
            env = dict(zip(("q", "v"), rest))
            w, ret = PIN_WRITE[n]
            for f, (fn, *need) in w.items():
                a = [env[x] if x in env else E.load(st, extend(D, ("f", x))) for x in need]
                E.store(st, extend(D, ("f", f)), L("pin_" + fn, M, *a))
            if ret is None:
                # centerOfMass(model, data) returns the centre of mass
                return ("v", E.load(st, extend(D, ("f", "com"))) if n == "centerOfMass" else UNDEF)
            return ("lv", extend(D, ("f", ret)))
        if n in ("computeCollisions", "computeDistances") and len(args) >= 5:
            M, G, Q = E.ev(args[0], fr, st), E.ev(args[2], fr, st), E.ev(args[4], fr, st)
            D, GD = E.lv(args[1], fr, st), E.lv(args[3], fr, st)
            E.store(st, extend(D, ("f", "oMi")), L("pin_oMi", M, Q))
            old = E.load(st, GD)
            f = "collisionResults" if n == "computeCollisions" else "distanceResults"
            E.store(st, extend(GD, ("f", f)), L("pin_" + f, M, G, Q, old))
            return ("v", L("pin_any_" + f, M, G, Q, old))
        if c.startswith("pinocchio::SE3"):
            o = E.ev(e["obj"], fr, st) if e.get("obj") else None
            if n == "inverse":
                return ("v", aff_inv(o))
            if n == "rotation" or n == "translation":
                p = E.lv(e["obj"], fr, st)
                return ("lv", extend(p, ("lin",) if n == "rotation" else ("trs",)))
            if n == "toHomogeneousMatrix":
                return ("v", aff_matrix(o))
            if n == "toActionMatrix":
                return ("v", lift("am", lambda x: mk("app", "toActionMatrix", x), (o,)))
        if n in ("linear", "angular") and not e.get("args") and e.get("obj") and c.startswith(("pinocchio::Motion", "pinocchio::Force")):
            return ("lv", extend(E.lv(e["obj"], fr, st), ("f", n + "_")))
        if e.get("m") and not e.get("mstatic"):
            # accessors of model elements
            if e.get("mconst") or n in ("linear", "angular", "mass", "lever"):
                p = E.obj_ptr(e, fr, st)
                return ("v", L(name, E.load(st, p), *self.vals(e, fr, st)))
            return None
        # algorithms updating data: everything passed by non-const reference is rewritten
        return None

    # ------------------------------------------------------------------ std
    def std(self, e, fr, st, n, c, q):
        E = self.e
        from engine import extend, app, strip_targs, Exit
        op = e.get("op")
        args = e["args"]
        base = c.split("<")[0]
        if n in MATH and not c:
            a = self.vals(e, fr, st)
            t = E.ty(fr, args[0])
            if n in ("fabs", "abs"):
                return ("v", maxmin("max", [a[0], neg(a[0])]))
            if n == "sqrt":
                return ("v", self.sqrt(a[0]))
            if n == "cos":
                return ("v", lift("cos", lambda x: mk("app", "cos", canon_sign(x)[0]), (a[0],)))
            if n in ("sin", "tan", "atan", "asin"):
                def odd(x):
                    y, s = canon_sign(x)
                    return scale(mk("app", n, y), s)
                return ("v", lift(n, odd, (a[0],)))
            return ("v", L(n, *a))
        if n == "pow" and not c:
            a = self.vals(e, fr, st)
            k = T._const(a[1])
            if k is not None and 0 <= k <= 8:
                return ("v", powi(a[0], k))
            return ("v", L("pow", *a))
        if n in ("max", "min", "fmax", "fmin") and not c and len(args) == 2:
            a = self.vals(e, fr, st)
            return ("v", maxmin(n[-3:], a))
        if n == "clamp" and len(args) == 3:
            a = self.vals(e, fr, st)
            return ("v", maxmin("min", [maxmin("max", [a[0], a[1]]), a[2]]))
        if base == "std::numeric_limits":
            return ("v", mk("app", "limits_" + n))
        if op == "<<" or op == ">>" or "ostream" in base or "stringstream" in base:
            # streams: output is not modelled
            if op in ("<<", ">>"):
                first = e["obj"] if e.get("obj") else args[0]
                for a in (args if e.get("obj") else args[1:]):
                    if a["k"] not in ("ref", "str"):
                        E.ev(a, fr, st)
                return ("v", mk("app", "stream"))
            return ("v", mk("app", "stream_" + n))
        if n in ("printf", "fprintf", "puts", "fflush"):
            return ("v", UNDEF)
        if n in ("move", "forward", "ref", "cref", "as_const"):
            return ("lv", E.lv(args[0], fr, st))
        if n == "swap" and len(args) == 2 and not c:
            p, q2 = E.lv(args[0], fr, st), E.lv(args[1], fr, st)
            a, b = E.load(st, p), E.load(st, q2)
            E.store(st, p, b)
            E.store(st, q2, a)
            return ("v", UNDEF)
        if n in ("make_pair",):
            a = self.vals(e, fr, st)
            return ("v", rec(mk("obj", "std::pair"), dict(first=a[0], second=a[1])))
        if n == "get" and len(args) == 1:
            i = self.ints_ta(e)
            if i:
                p = E.lv(args[0], fr, st)
                t = E.ty(fr, args[0])
                if t.get("n", "").startswith("std::pair"):
                    return ("lv", extend(p, ("f", "first" if i[0] == 0 else "second")))
                return ("lv", extend(p, ("f", "_%d" % i[0])))
        if base in ("std::basic_string", "std::__cxx11::basic_string"):
            return self.string(e, fr, st, n, op)
        if op == "+" and not c:
            a = self.vals(e, fr, st)
            ta = E.ty(fr, e)
            if ta.get("n", "").startswith("std::basic_string"):
                return ("v", L("concat", *a))
        if op in ("==", "!=") and not (base.startswith("std::vector")):
            ops = ([e["obj"]] if e.get("obj") else []) + args
            a = [E.ev(x, fr, st) for x in ops]
            if len(a) == 2:
                r = self.cmp_eq(a[0], a[1])
                return ("v", r if op == "==" else b_not(r))
        if op in ("<", ">", "<=", ">=") and not c:
            a = self.vals(e, fr, st)
            if a[0].op == "iter":
                a = [x.args[1] if x.op == "iter" else x for x in a]
                return ("v", E.binop(op, a[0], a[1], True, {"k": "bool"}))
            return ("v", as_bool(L("cmp" + op, *a)))
        if base in ("std::shared_ptr", "std::unique_ptr"):
            if op in ("->", "*") or n == "get":
                v = E.ev(e["obj"], fr, st)
                if op == "*":
                    return ("lv", v)
                return ("v", v)
            if op == "bool" or n == "operator bool":
                return ("v", as_bool(E.ev(e["obj"], fr, st)))
            if op == "=" or n == "reset":
                p = E.obj_ptr(e, fr, st)
                E.store(st, p, E.ev(args[0], fr, st) if args else NULL)
                return ("lv", p)
        if n in ("make_shared", "make_unique"):
            # as new
            rt = fr.types[e["rt"]]
            inner = fr.types[rt["a"][0]]
            vals = self.vals(e, fr, st)
            k = E.newcount.get(inner.get("n"), 0)
            E.newcount[inner.get("n")] = k + 1
            pnew = mk("new", inner.get("n", "?"), k)
            st.store[pnew] = L("make:" + inner.get("n", "?"), *vals) if vals else E.default_value_rec(inner, fr, st)
            return ("v", pnew)
        if base in ("std::vector", "std::deque", "std::array", "std::initializer_list", "std::list"):
            return self.vector(e, fr, st, n, op)
        if base in ("std::map", "std::set", "std::unordered_map", "std::unordered_set"):
            return self.assoc(e, fr, st, n, op, base)
        if "iterator" in base:
            return self.iterator(e, fr, st, n, op)
        if base == "std::pair" and op == "=":
            p = E.obj_ptr(e, fr, st)
            E.store(st, p, E.ev(args[0], fr, st))
            return ("lv", p)
        if base == "std::function" and op in ("()",):
            return None
        r = self.algorithm(e, fr, st, n, c)
        if r is not None:
            return r
        if n in ("sprintf", "snprintf"):
            vals = [E.ev(a, fr, st) for a in args[1:]]
            p = E.lv(args[0], fr, st)
            E.store(st, p, app(n, *vals))
            return ("v", UNDEF)
        if n in ("to_string", "tolower", "toupper", "isdigit", "stat", "stoi", "stod", "advance_", "distance_"):
            return ("v", L(n, *self.vals(e, fr, st)))
        return None

    def sqrt(self, x):
        def f(x):
            if x.op == "num":
                import math
                v = x.args[0]
                if v >= 0:
                    a, b = math.isqrt(v.numerator), math.isqrt(v.denominator)
                    if a * a == v.numerator and b * b == v.denominator:
                        return num(Fraction(a, b))
            return mk("app", "sqrt", x)

        return lift("sqrt", f, (x,))

    def cmp_eq(self, a, b):
        if a.op == "iter" and b.op == "iter" and a.args[0] is b.args[0]:
            return eq_num(a.args[1], b.args[1], True)
        if a.op == "ite" or b.op == "ite":
            return lift("cmp_eq", self.cmp_eq, (a, b))
        if a.op == "find" or b.op == "find":
            f, o = (a, b) if a.op == "find" else (b, a)
            if o.op == "iter" or o.op == "enditer":
                return b_not(as_bool(f.args[2]))
        return eq(a, b)

    def string(self, e, fr, st, n, op):
        E = self.e
        from engine import extend
        if op == "=":
            v = E.ev(e["args"][0], fr, st)
            p = E.obj_ptr(e, fr, st)
            E.store(st, p, v)
            return ("lv", p)
        if op == "+=":
            p = E.obj_ptr(e, fr, st)
            E.store(st, p, L("concat", E.load(st, p), E.ev(e["args"][0], fr, st)))
            return ("lv", p)
        if n in ("c_str", "data", "str"):
            return ("v", E.ev(e["obj"], fr, st))
        if n in ("size", "length"):
            return ("v", size(E.ev(e["obj"], fr, st)))
        if op == "[]" or n == "at":
            return ("lv", extend(E.lv(e["obj"], fr, st), ("i", E.ev(e["args"][0], fr, st))))
        if n == "empty":
            v = E.ev(e["obj"], fr, st)
            return ("v", self.cmp_eq(v, string("")) if v.op != "empty" else TRUE)
        if n == "compare":
            a, b = E.ev(e["obj"], fr, st), E.ev(e["args"][0], fr, st)
            return ("v", ite(eq(a, b), ZERO, L("strcmp", a, b)))
        v = E.ev(e["obj"], fr, st)
        return ("v", L("string_" + n, v, *self.vals(e, fr, st)))

    def vector(self, e, fr, st, n, op):
        E = self.e
        from engine import extend, app
        p = E.obj_ptr(e, fr, st)
        args = e["args"]

        def cur():
            return E.load(st, p)

        if op == "[]" or n == "at":
            i = E.ev(args[0], fr, st)
            if i.op == "ite" or p.op == "ite":
                return ("lv", lift("vecidx", lambda pp, ii: extend(pp, ("i", ii)), (p, i)))
            return ("lv", extend(p, ("i", i)))
        if n in ("size",):
            return ("v", size(cur()))
        if n == "empty":
            return ("v", b_not(pos(size(cur()), True)))
        if n == "front":
            return ("lv", extend(p, ("i", ZERO)))
        if n == "back":
            return ("lv", extend(p, ("i", sub2(size(cur()), ONE))))
        if n in ("push_back", "emplace_back"):
            if n == "push_back" or len(args) == 1 and E.ty(fr, args[0]).get("n") and self.elem_type(fr, e) == E.ty(fr, args[0]).get("n"):
                v = E.ev(args[0], fr, st)
            else:
                v = self.emplace(e, fr, st)
            if v.op == "built":
                v = v.args[1]
            v = E.canon_rec(self.elem_type(fr, e), v)
            E.store(st, p, seq_push(E.load(st, p), v))
            if n == "emplace_back":
                return ("lv", extend(p, ("i", sub2(size(E.load(st, p)), ONE))))
            return ("v", UNDEF)
        if n == "clear":
            E.store(st, p, mk("empty"))
            return ("v", UNDEF)
        if n == "pop_back":
            v = cur()
            if v.op == "seq" and v.args[1][-1][0] is TRUE and not v.args[1][-1][1]:
                E.store(st, p, seq(v.args[0], list(v.args[1][:-1])) if len(v.args[1]) > 1 else v.args[0])
            else:
                E.store(st, p, app("pop_back", v))
            return ("v", UNDEF)
        if n in ("begin", "cbegin"):
            return ("v", mk("iter", p, ZERO, "i"))
        if n in ("end", "cend"):
            return ("v", mk("iter", p, size(cur()), "i"))
        if n in ("rbegin", "rend"):
            return ("v", mk("iter", p, size(cur()) if n == "rbegin" else ZERO, "rev"))
        if op == "=" or n == "assign" and len(args) == 1:
            v = E.ev(args[0], fr, st)
            E.store(st, p, v)
            return ("lv", p)
        if n == "reserve" or n == "shrink_to_fit":
            self.vals(e, fr, st)
            return ("v", UNDEF)
        if n == "resize":
            a = self.vals(e, fr, st)
            E.store(st, p, app("vec_resize", cur(), *a))
            return ("v", UNDEF)
        if n == "erase":
            a = [self.pos_of(x) for x in self.vals(e, fr, st)]
            v = cur()
            if len(a) == 1 and v.op == "seq" and v.args[0].op == "empty" and a[0] is ZERO and v.args[1][0][0] is TRUE and not v.args[1][0][1]:
                E.store(st, p, seq(v.args[0], list(v.args[1][1:])))
            elif len(a) == 2 and v.op == "app" and v.args[0] == "std_removed" and a[0].op == "app" and a[0].args[0] == "std_removed_end" \
                    and a[0].args[1] is v.args[1] and a[1] in (size(v), size(v.args[2])):
                E.store(st, p, v.args[1])
            else:
                E.store(st, p, app("vec_erase", v, *a))
            return ("v", mk("iter", p, a[0], "i"))
        if n == "insert":
            a = [self.pos_of(x) for x in self.vals(e, fr, st)]
            E.store(st, p, app("vec_insert", cur(), *a))
            return ("v", mk("iter", p, a[0], "i"))
        if n == "data":
            return ("v", app("vec_data", cur()))
        return None

    def pos_of(self, x):
        if x.op == "iter":
            return x.args[1]
        return x

    def elem_type(self, fr, e):
        t = self.e.ty(fr, e["obj"])
        if t["k"] == "ptr":
            t = fr.types[t["t"]]
        a = t.get("a")
        if a and isinstance(a[0], int):
            return fr.types[a[0]].get("n")
        return None

    def emplace(self, e, fr, st):
        """emplace_back(args...): construct the element type from the arguments"""
        E = self.e
        et = self.elem_type(fr, e)
        cand = [f for f in E.p.functions.values() if f.get("ctor") and f.get("cls") == et and len(f["params"]) >= len(e["args"])]
        if et in E.p.records and cand:
            exact = [f for f in cand if len(f["params"]) == len(e["args"])] or cand
            best = None
            if len(exact) > 1:
                sc = []
                for f in exact:
                    s = 0
                    for prm, a in zip(f["params"], e["args"]):
                        pt = E.rty_types(f["types"], f["types"][prm["t"]])
                        at = E.ty(fr, a)
                        if pt["k"] == at["k"] and pt.get("n") == at.get("n"):
                            s += 1
                    sc.append((s, f["key"], f))
                sc.sort(key=lambda x: (-x[0], x[1]))
                best = sc[0][2]
            else:
                best = exact[0]
            if E.inlinable(best):
                return E.construct_repo(best, e, fr, st)
        vals = self.vals(e, fr, st)
        if not vals and et:
            t = E.ty(fr, e["obj"])
            t = fr.types[t["t"]] if t["k"] == "ptr" else t
            return E.default_value(fr.types[t["a"][0]], fr, st)
        if et and et.startswith("std::pair") and len(vals) == 2:
            return rec(mk("obj", "std::pair"), dict(first=vals[0], second=vals[1]))
        if len(vals) == 1:
            return vals[0]
        return L("make:" + str(et), *vals)

    def assoc(self, e, fr, st, n, op, base):
        E = self.e
        from engine import extend, app
        p = E.obj_ptr(e, fr, st)
        args = e["args"]

        def cur():
            return E.load(st, p)

        if op == "[]" or n == "at":
            k = E.ev(args[0], fr, st)
            if k.op == "ite" or p.op == "ite":
                return ("lv", lift("mapidx", lambda pp, ii: extend(pp, ("i", ii)), (p, k)))
            return ("lv", extend(p, ("i", k)))
        if n in ("count", "contains"):
            h = self.has(cur(), E.ev(args[0], fr, st))
            return ("v", ite(h, ONE, ZERO) if n == "count" else h)
        if n == "find":
            k = E.ev(args[0], fr, st)
            h = self.has(cur(), k)
            return ("v", mk("find", p, k, h))
        if n in ("begin", "cbegin"):
            return ("v", mk("iter", p, ZERO, "n"))
        if n in ("end", "cend"):
            return ("v", mk("iter", p, mk("app", "size", cur()) if cur().op != "empty" else ZERO, "n"))
        if n == "size":
            c = cur()
            return ("v", ZERO if c.op == "empty" else mk("app", "size", c))
        if n == "empty":
            return ("v", b_not(pos(size(cur()), True)))
        if n == "clear":
            E.store(st, p, mk("empty"))
            return ("v", UNDEF)
        if n in ("insert", "emplace"):
            a = self.vals(e, fr, st)
            if base.endswith("set"):
                E.store(st, p, set_insert(cur(), a[0]))
            elif base.endswith("map") and not base.endswith("multimap") and (len(a) == 1 or n == "emplace" and len(a) == 2):
                k, v = a if len(a) == 2 else (fld(a[0], "first"), fld(a[0], "second"))
                c = cur()
                E.store(st, p, wr(c, [(b_not(self.has(c, k)), (), (k,), v)]))
            else:
                E.store(st, p, app("map_insert", cur(), *a))
            return ("v", app("insert_result", *a))
        if n in ("insert_or_assign", "try_emplace") and len(args) == 2:
            k, v = self.vals(e, fr, st)
            c = cur()
            E.store(st, p, wr(c, [(TRUE if n[0] == "i" else b_not(self.has(c, k)), (), (k,), v)]))
            return ("v", app("insert_result", k, v))
        if n == "erase":
            a = self.vals(e, fr, st)
            k = a[0].args[1] if a[0].op == "find" else a[0]
            E.store(st, p, app("assoc_erase", cur(), k))
            return ("v", app("erase_result", k))
        if op == "=":
            v = E.ev(args[0], fr, st)
            E.store(st, p, v)
            return ("lv", p)
        return None

    def has(self, c, k):
        def f(c, k):
            if c.op == "empty":
                return FALSE
            if c.op == "wr" and not any(e[1] for e in c.args[1]):
                r = self.has(c.args[0], k)
                for g, _, key, v in c.args[1]:
                    if len(key) == 1:
                        r = b_or(r, b_and(g, eq(key[0], k)))
                return r
            return as_bool(mk("app", "has", c, k))

        if c.op in T.STRUCT:
            return f(c, k)
        return lift("has", f, (c, k))

    def iterator(self, e, fr, st, n, op):
        E = self.e
        from engine import extend
        o = e.get("obj")
        v = one_iter(E.ev(o, fr, st))
        if v.op == "find":
            if op in ("->", "*"):
                p = extend(v.args[0], ("i", v.args[1]))
                # element of a map is a pair(key, value): expose as record
                root = E.temp(st, rec(mk("obj", "std::pair"), dict(first=v.args[1], second=E.load(st, p))))
                return ("v", root) if op == "->" else ("lv", root)
        if v.op != "iter":
            return None
        kind = v.args[2]
        if op == "*":
            return ("lv", E.iter_lv(v))
        if op == "->":
            return ("v", E.iter_lv(v))
        if op in ("++", "--"):
            p = E.lv(o, fr, st)
            d = ONE if op == "++" else num(-1)
            nv = mk("iter", v.args[0], add2(v.args[1], d), kind)
            E.store(st, p, nv)
            return ("v", v if e["args"] else nv)
        if op in ("+", "-") and e["args"]:
            a = one_iter(E.ev(e["args"][0], fr, st))
            if a.op == "iter":
                return ("v", sub2(v.args[1], a.args[1]))
            return ("v", mk("iter", v.args[0], (add2 if op == "+" else sub2)(v.args[1], a), kind))
        if op in ("==", "!="):
            a = E.ev(e["args"][0], fr, st)
            r = self.cmp_eq(v, a)
            return ("v", r if op == "==" else b_not(r))
        return None

    # ------------------------------------------------------------------ algorithms over whole containers
    def algorithm(self, e, fr, st, n, c):
        E = self.e
        from engine import extend, State, Exit, app
        if c:
            return None
        args = e["args"]
        if n in ("any_of", "all_of", "none_of", "accumulate", "for_each", "find_if", "count_if", "find", "count", "transform", "copy_if",
                 "sort", "reverse", "remove", "remove_if", "next", "prev", "max_element", "min_element", "distance", "iter_swap",
                 "max", "min", "equal", "copy", "fill", "unique", "begin", "end", "size", "back_inserter"):
            pass
        else:
            return None
        if n in ("begin", "end", "size") and len(args) == 1:
            p = E.lv(args[0], fr, st)
            s = size(E.load(st, p))
            return ("v", s if n == "size" else mk("iter", p, ZERO if n == "begin" else s, "i"))
        if n == "back_inserter":
            return ("v", mk("app", "back_inserter", E.lv(args[0], fr, st)))
        a = self.vals(e, fr, st)
        if n in ("next", "prev") and a[0].op == "iter":
            d = a[1] if len(a) > 1 else ONE
            return ("v", mk("iter", a[0].args[0], (add2 if n == "next" else sub2)(a[0].args[1], d), a[0].args[2]))
        if n == "distance" and a[0].op == "iter" and a[1].op == "iter":
            return ("v", sub2(a[1].args[1], a[0].args[1]))
        if n in ("remove", "remove_if", "unique", "sort", "reverse", "fill") and a[0].op == "iter":
            p = a[0].args[0]
            cur = E.load(st, p)
            rest = [self.pos_of(x) for x in a]
            if n in ("remove", "remove_if") and a[0].args[2] == "i" and rest[0] is ZERO and rest[1] is size(cur) and cur.op != "ite":
                if n == "remove":
                    keep = lambda x: b_not(as_bool(self.cmp_eq(x, a[2])))
                elif a[2].op == "lambda":
                    def keep(x):
                        from engine import new_loc
                        root = new_loc()
                        s2 = State(dict(st.store), st.pc)
                        s2.store[root] = x
                        return b_not(as_bool(E.apply_lambda(a[2], [root], fr, s2)))
                else:
                    return None
                kept = seq_filter(cur, keep)
                E.store(st, p, mk("app", "std_removed", kept, cur))
                return ("v", mk("iter", p, mk("app", "std_removed_end", kept), "i"))
            if any(x.op == "lambda" for x in rest):
                return None
            E.store(st, p, app("std_" + n, cur, *rest))
            return ("v", mk("iter", p, app("std_" + n + "_end", cur, *rest), "i"))
        if len(a) >= 3 and a[0].op == "iter" and a[1].op == "iter" and n in ("any_of", "all_of", "none_of", "for_each", "accumulate",
                                                                          "find_if", "count_if", "find", "count",
                                                                          "transform", "copy_if", "copy"):
            p = a[0].args[0]
            lo, hi = a[0].args[1], a[1].args[1]
            kind = a[0].args[2]
            cnt = sub2(hi, lo)
            b = fresh_lc()
            ep = extend(p, (kind, add2(lo, b)))
            lam = a[2] if n not in ("accumulate", "transform", "copy_if", "copy") else (a[3] if len(a) > 3 else None)
            if n in ("transform", "copy_if") and (lam is None or lam.op != "lambda"):
                return None
            if n == "copy":
                pass
            elif n in ("find", "count"):
                pred = lambda s: self.cmp_eq(E.load(s, ep), a[2])
            elif n != "accumulate":
                if lam.op != "lambda":
                    return None
                pred = lambda s: E.apply_lambda(lam, [ep], fr, s)
            if n in ("any_of", "all_of", "none_of", "find_if", "count_if", "find", "count"):
                v = as_bool(pred(st))
                if n == "all_of":
                    return ("v", b_not(any_(b, b_not(v), cnt)))
                if n == "any_of":
                    return ("v", any_(b, v, cnt))
                if n == "none_of":
                    return ("v", b_not(any_(b, v, cnt)))
                if n in ("count_if", "count"):
                    return ("v", psum(b, ite(v, ONE, ZERO), cnt, False))
                return ("v", ite(any_(b, v, cnt), mk("iter", p, add2(lo, first_(b, v, cnt)), kind), mk("iter", p, hi, kind)))
            if n == "for_each":
                def body(x):
                    E.apply_lambda(lam, [ep], fr, x)
                    return x if x.pc is not FALSE else None
                r = E.loop(fr, st, None, body, None, e["l"], dom=(b, cnt, p))
                return ("v", UNDEF)
            if n in ("transform", "copy_if", "copy"):
                dst = a[2]
                if dst.op == "iter" and n == "copy_if" or dst.op not in ("iter", "app") or n == "transform" and len(a) != 4:
                    return None

                def body(x):
                    v = E.load(x, ep)
                    g = True
                    if n == "transform":
                        v = E.apply_lambda(lam, [ep], fr, x)
                        if v.op == "built":
                            v = v.args[1]
                    elif n == "copy_if":
                        g = as_bool(E.apply_lambda(lam, [ep], fr, x))
                    if dst.op == "iter":
                        E.store(x, extend(dst.args[0], (dst.args[2], add2(dst.args[1], b))), v)
                    else:
                        old = E.load(x, dst.args[1])
                        new = seq_push(old, v)
                        E.store(x, dst.args[1], new if g is True else ite(g, new, old))
                    return x
                E.loop(fr, st, None, body, None, e["l"], dom=(b, cnt, p))
                return ("v", UNDEF)
            if n == "accumulate":
                acc = E.temp(st, a[2])

                def body(x):
                    if lam is None:
                        nv = add2(E.load(x, acc), E.load(x, ep))
                    else:
                        t2 = E.temp(x, E.load(x, acc))
                        nv = E.apply_lambda(lam, [t2, ep], fr, x)
                    E.store(x, acc, nv)
                    return x
                E.loop(fr, st, None, body, None, e["l"], dom=(b, cnt, p))
                return ("v", E.load(st, acc))
        return None

    # ------------------------------------------------------------------ constructors
    def orient(self, v, r, c):
        """a row assigned to a column vector (or the other way round) is transposed"""
        if (r, c) in ((2, 1), (3, 1), (4, 1), (6, 1), (-1, 1), (1, 2), (1, 3), (1, 4), (1, -1)):
            s = shape(v)
            part = v.op == "app" and len(v.args) == 2 and v.args[1].op == "app" and v.args[1].args[0] in ("rowwise", "colwise")
            if c == 1 and s[0] is ONE and s[1] is not ONE and (s[1].op == "num" or part):
                return tr(v)
            if r == 1 and s[1] is ONE and s[0] is not ONE and (s[0].op == "num" or part):
                return tr(v)
        return v

    def construct(self, e, fr, st):
        E = self.e
        c = e["c"]
        args = e["args"]
        base = c.split("<")[0]
        if base == "Eigen::Matrix" or base == "Eigen::Array":
            t = E.ty(fr, e)
            r, cc = t.get("rows", -1), t.get("cols", -1)
            if not args:
                return mk("uninit", num(r) if r >= 0 else ZERO, num(cc) if cc >= 0 else ZERO)
            if len(args) == 1:
                k = self.kind(fr, args[0])
                v = E.ev(args[0], fr, st)
                if k == "s":
                    # dimension (vector) for dynamic sizes
                    if r == -1 and cc == 1:
                        return mk("uninit", v, ONE)
                    if r == 1 and cc == -1:
                        return mk("uninit", ONE, v)
                    return mat(1, 1, (v,)) if (r, cc) == (1, 1) else mk("uninit", v, v)
                if v.op == "listlit":
                    return self.from_list(v, r, cc)
                return self.orient(v, r, cc)
            vals = [E.ev(a, fr, st) for a in args]
            if (r, cc) in ((2, 1), (3, 1), (4, 1), (1, 2), (1, 3), (1, 4)) and len(vals) == r * cc:
                return mat(r, cc, tuple(vals))
            if len(vals) == 2 and (r == -1 or cc == -1):
                return mk("uninit", vals[0], vals[1])
            if r > 0 and cc > 0 and len(vals) == r * cc:
                return mat(r, cc, tuple(vals))
            return None
        if base == "Eigen::Transform":
            if not args:
                return mk("uninit_aff")
            v = E.ev(args[0], fr, st)
            k = self.kind(fr, args[0])
            if k == "r" or (k == "m" and E.ty(fr, args[0]).get("rows") == 3):
                return aff(v, ZERO3)
            if k == "a":
                return v
            if k == "t":
                return aff(EYE3, v)
            return aff_of(v)
        if base == "Eigen::AngleAxis":
            if len(args) == 2:
                a, x = E.ev(args[0], fr, st), E.ev(args[1], fr, st)
                return lift("AngleAxis", angle_axis, (a, x))
            if len(args) == 1:
                return E.ev(args[0], fr, st)
        if base == "Eigen::Quaternion":
            if len(args) == 1:
                return E.ev(args[0], fr, st)
            if len(args) == 4:
                return L("quatR", *[E.ev(a, fr, st) for a in args])
            return EYE3
        if base == "Eigen::Translation":
            vals = [E.ev(a, fr, st) for a in args]
            return ZERO3 if not vals else mat(3, 1, tuple(vals)) if len(vals) == 3 else vals[0]
        if base in ("pinocchio::SE3Tpl",):
            vals = [E.ev(a, fr, st) for a in args]
            if len(vals) == 2:
                return aff_norm(vals[0], vals[1])
            if len(vals) == 1:
                v = vals[0]
                if self.kind(fr, args[0]) == "m":
                    return aff_of(v)
                return v
        if base in ("std::vector", "std::deque"):
            if not args:
                return mk("empty")
            if len(args) >= 1 and args[0]["k"] in ("initlist",):
                v = E.ev(args[0], fr, st)
                if v.op == "listlit":
                    return seq(mk("empty"), [(TRUE, (), x) for x in v.args[0]])
                return v
            vals = [E.ev(a, fr, st) for a in args if not self.is_alloc(fr, a)]
            if not vals:
                return mk("empty")
            t0 = E.ty(fr, args[0])
            if t0["k"] == "int":
                return mk("vecn", vals[0], vals[1] if len(vals) > 1 else ZERO)
            if len(vals) == 1:
                return vals[0]
            if len(vals) == 2 and vals[0].op == "iter" and vals[1].op == "iter" and vals[0].args[1] is ZERO:
                cont = E.load(st, vals[0].args[0])
                if vals[1].args[1] is size(cont) and vals[0].args[2] == "i":
                    return cont
            return L("vec_range", *vals)
        if base in ("std::map", "std::set", "std::basic_string", "std::__cxx11::basic_string", "std::unordered_map"):
            vals = [E.ev(a, fr, st) for a in args if not self.is_alloc(fr, a)]
            if not vals:
                return string("") if "string" in base else mk("empty")
            if "string" in base:
                return vals[0]
            if vals[0].op == "listlit":
                if base == "std::set":
                    r = mk("empty")
                    for x in vals[0].args[0]:
                        r = set_insert(r, x)
                    return r
                r = mk("empty")
                from engine import set_idx
                for x in vals[0].args[0]:
                    r = set_idx(r, fld(x, "first"), fld(x, "second"))
                return r
            return vals[0]
        if base == "std::pair":
            vals = [E.ev(a, fr, st) for a in args]
            if len(vals) == 2:
                return rec(mk("obj", "std::pair"), dict(first=vals[0], second=vals[1]))
            if len(vals) == 1:
                return vals[0]
            return mk("obj", "std::pair")
        if base in ("std::tuple",):
            vals = [E.ev(a, fr, st) for a in args]
            return rec(mk("obj", "std::tuple"), {"_%d" % i: v for i, v in enumerate(vals)})
        if base in ("std::shared_ptr", "std::unique_ptr", "std::function", "std::optional", "std::reference_wrapper"):
            if not args:
                return NULL
            return E.ev(args[0], fr, st)
        if "iterator" in base and args:
            return E.ev(args[0], fr, st)
        if base in ("std::runtime_error", "std::logic_error", "std::invalid_argument", "std::out_of_range", "std::basic_ostringstream",
                    "std::basic_istringstream", "std::allocator", "std::basic_stringstream", "std::__cxx11::basic_ostringstream"):
            return mk("obj", base)
        if base == "Eigen::Map":
            return L("map", *[E.ev(a, fr, st) for a in args if E.ty(fr, a)["k"] != "rec"])
        if base == "Eigen::JacobiSVD" or base.startswith("Eigen::ColPiv") or base.startswith(("Eigen::LLT", "Eigen::LDLT")):
            vals = [E.ev(a, fr, st) for a in args[:1]]
            return L("decomp:" + base, *vals)
        if base.startswith("Eigen::") and len(args) == 1:
            # views / expression wrappers
            return E.ev(args[0], fr, st)
        return None

    def is_alloc(self, fr, a):
        t = self.e.ty(fr, a)
        return t["k"] == "rec" and t["n"].startswith(("std::allocator", "std::less"))

    def from_list(self, v, r, c):
        rows = v.args[0]
        if rows and rows[0].op == "listlit":
            R, C = len(rows), len(rows[0].args[0])
            return mat(R, C, tuple(x for row in rows for x in row.args[0]))
        if c == 1 or r == -1:
            return mat(len(rows), 1, tuple(rows))
        return mat(1, len(rows), tuple(rows))


def canon_sign(x):
    d = poly_of(x)
    if not d:
        return x, 1
    items = sorted(d.items(), key=T.mono_key)
    # leading non-constant
    lead = next((c for m, c in items if m != T.EMPTY), items[0][1])
    if lead < 0:
        return neg(x), -1
    return x, 1


def angle_axis(a, x):
    if a is ZERO:
        return EYE3
    # AngleAxis(-a, -v) = AngleAxis(a, v)
    y, s = canon_sign(a)
    if s < 0:
        return tr_rot(mk("app", "AngleAxis", y, x))
    return mk("app", "AngleAxis", a, x)


def tr_rot(m):
    return mk("tr", m)


def seq_push(c, v):
    if c.op == "ite":
        return lift(("push", v), lambda x: seq_push(x, v), (c,))
    if c.op == "listlit":
        c = seq(mk("empty"), [(TRUE, (), x) for x in c.args[0]])
    return seq(c, [(TRUE, (), v)])


def set_insert(c, v):
    """sets: insertion order does not matter"""
    return bag(c, [(TRUE, (), v)]) if c.op in ("bag", "empty") or True else c


# ---------------------------------------------------------------------- comma initialisers
def new_comma(E, st, p, cur, v, scalar):
    # state: (pointer, row, col, row-height, shape r, shape c)
    if cur.op in ("undef", "num"):
        sh = (mk("app", "rows", cur), mk("app", "cols", cur))
    else:
        sh = shape(cur)
    ci = mk("ci", p, ZERO, ZERO, ZERO, sh[0], sh[1])
    return comma_next(E, st, ci, v, scalar)


def comma_next(E, st, ci, v, scalar):
    from engine import extend
    p, r, c, h, R, C = ci.args
    if scalar:
        vr, vc = ONE, ONE
    else:
        vr, vc = shape(v)
    if c is C or (T._const(c) is not None and T._const(C) is not None and T._const(c) >= T._const(C)):
        r = add2(r, h)
        c = ZERO
    q = extend(p, ("r", (r, c, vr if not (r is ZERO and vr is R) else UNDEF, vc if not (c is ZERO and vc is C) else UNDEF)))
    if vr is ONE and vc is ONE and not scalar:
        v = el(v, ZERO, ZERO)
        q = extend(p, ("r", (r, c, ONE, ONE)))
    if scalar:
        q = extend(p, ("r", (r, c, ONE, ONE)))
    E.store(st, q, v)
    return mk("ci", p, r, add2(c, vc), vr, R, C)
