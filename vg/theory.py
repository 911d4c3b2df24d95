"""Problem-level operators seen from their clients.

Inside placo::problem every operator is analysed from its body (raw mode).  In every other module the same operators are
interpreted through the algebra those bodies are checked to implement: expressions form a linear space (matrix times
expression, sums, scalings, slices), variables are identified by their offset, constraints are an unordered collection.
"""
from terms import *
import terms as T

EX = "placo::problem::Expression"
PB = "placo::problem::Problem"
ONEX = mk("sym", "one-expression")


def cst(f):
    return mul2(f, ONEX, False, True)


def const_expr(f):
    return cst(f)


def obj(E, e, fr, st):
    return E.load(st, E.obj_ptr(e, fr, st))


def kind(E, fr, a):
    t = E.ty(fr, a)
    if t["k"] in ("int", "float"):
        return "s"
    if t["k"] == "rec" and t["n"] == EX:
        return "e"
    return "m"


def operands(E, e, fr, st):
    out = []
    if e.get("m") and not e.get("mstatic"):
        out.append((obj(E, e, fr, st), "e"))
    for a in e["args"]:
        out.append((E.ev(a, fr, st), kind(E, fr, a)))
    return out


def as_expr(v, k):
    return cst(v) if k == "s" else v


def plus(E, e, fr, st):
    (a, ka), (b, kb) = operands(E, e, fr, st)
    return ("v", add2(as_expr(a, ka), as_expr(b, kb), True, True))


def minus(E, e, fr, st):
    o = operands(E, e, fr, st)
    if len(o) == 1:
        return ("v", neg(o[0][0], True))
    (a, ka), (b, kb) = o
    return ("v", sub2(as_expr(a, ka), as_expr(b, kb), True, True))


def times(E, e, fr, st):
    (a, ka), (b, kb) = operands(E, e, fr, st)
    if ka == "s" or kb == "s":
        return ("v", mul2(a, b, ka != "s", kb != "s"))
    if ka == "m":
        return ("v", mul2(a, b, True, True))
    x, y = (a, b) if a.id <= b.id else (b, a)
    from engine import app
    return ("v", app("expr*expr", x, y))


def stack(E, e, fr, st):
    from engine import app
    (a, ka), (b, kb) = operands(E, e, fr, st)
    return ("v", app("expr/expr", a, b))


def left_multiply(E, e, fr, st):
    (a, ka), (m, km) = operands(E, e, fr, st)
    return ("v", mul2(m, a, True, True))


def from_vector(E, e, fr, st):
    return ("v", E.ev(e["args"][0], fr, st))


def from_double(E, e, fr, st):
    return ("v", cst(E.ev(e["args"][0], fr, st)))


def piecewise_add(E, e, fr, st):
    (a, _), (f, _) = operands(E, e, fr, st)
    return ("v", add2(a, cst(f), True, True))


def slice_(E, e, fr, st):
    o = operands(E, e, fr, st)
    return ("v", _slice(o[0][0], o[1][0], o[2][0] if len(o) > 2 else num(-1)))


def _slice(x, start, rows):
    def f(x, s, r):
        if r.op == "num" and r.args[0] < 0:
            r = UNDEF
        if s.op == "num" and s.args[0] < 0:
            s = ZERO
        return blk(x, s, ZERO, r, UNDEF)

    return lift("eslice", f, (x, start, rows))


def variable_expr(E, e, fr, st):
    from engine import app
    p = E.obj_ptr(e, fr, st)
    a = [E.ev(x, fr, st) for x in e["args"]] + [num(-1), num(-1)]
    # a variable never changes after its creation: identified by its address
    v = lift("vexpr", lambda q: mk("app", "variable", q), (p,))
    return ("v", _slice(v, a[0], a[1]))


def add_variable(E, e, fr, st):
    p = E.obj_ptr(e, fr, st)
    size_ = E.ev(e["args"][0], fr, st)
    from engine import extend
    np = extend(p, ("f", "n_variables"))
    n = E.load(st, np)
    E.store(st, np, add2(n, size_))
    v = lift("pvar", lambda a, b: mk("pvar", a, b), (n, size_))
    vp = extend(p, ("f", "variables"))
    E.store(st, vp, seq(E.load(st, vp), [(TRUE, (), v)]) if E.load(st, vp).op != "ite" else mk("app", "push", E.load(st, vp), v))
    return ("lv", v)


def _new_constraint(E, p, v, st):
    from engine import extend, new_loc
    root = new_loc()
    E.cells.add(root)
    st.store[root] = E.canon_rec("placo::problem::ProblemConstraint", v)
    cp = extend(p, ("f", "constraints"))
    E.store(st, cp, bag(E.load(st, cp), [(TRUE, (), mk("cell", root))]))
    return ("lv", root)


def add_constraint(E, e, fr, st):
    v = E.ev(e["args"][0], fr, st)
    p = E.obj_ptr(e, fr, st)
    return _new_constraint(E, p, v, st)


def add_limit(E, e, fr, st):
    from engine import app
    x = E.ev(e["args"][0], fr, st)
    t = E.ev(e["args"][1], fr, st)
    p = E.obj_ptr(e, fr, st)
    c = E.implicit_default("placo::problem::ProblemConstraint", st)
    en = "placo::problem::ProblemConstraint::"
    c = rec(c, {"expression": app("within", x, t), "type": mk("enum", en + "Inequality", en + "Type")})
    return _new_constraint(E, p, c, st)


def solve(E, e, fr, st):
    """the values of the variables become the solution of the problem as it stands"""
    from engine import Exit, app
    p = E.obj_ptr(e, fr, st)
    store = dict(st.store)
    store[("problem",)] = E.load(st, p)
    E.resolve_cells(store)
    content = store[("problem",)]
    if getattr(E, "in_try", 0):
        fails = as_bool(mk("app", "unsolvable", content))
        fr.exits.append(Exit("throw", b_and(st.pc, fails), dict(st.store), "placo::problem::QPError", e["l"]))
        st.pc = b_and(st.pc, b_not(fails))
    E.store(st, p, mk("app", "solved", content))
    st.store[SOLUTION] = mk("app", "solution", content)
    return ("v", UNDEF)


def clear_constraints(E, e, fr, st):
    from engine import extend
    p = E.obj_ptr(e, fr, st)
    E.store(st, extend(p, ("f", "constraints")), mk("empty"))
    return ("v", UNDEF)


def clear_variables(E, e, fr, st):
    from engine import extend
    p = E.obj_ptr(e, fr, st)
    E.store(st, extend(p, ("f", "variables")), mk("empty"))
    E.store(st, extend(p, ("f", "n_variables")), ZERO)
    return ("v", UNDEF)


THEORY = {
    EX + "::operator+": plus, "placo::problem::operator+": plus,
    EX + "::operator-": minus, "placo::problem::operator-": minus,
    EX + "::operator*": times, "placo::problem::operator*": times,
    EX + "::operator/": stack,
    EX + "::left_multiply": left_multiply,
    EX + "::from_vector": from_vector,
    EX + "::from_double": from_double,
    EX + "::piecewise_add": piecewise_add,
    EX + "::slice": slice_,
    EX + "::rows": "pure", EX + "::cols": "pure", EX + "::sum": "pure", EX + "::mean": "pure", EX + "::value": "pure",
    EX + "::is_scalar": "pure", EX + "::is_constant": "pure",
    "placo::problem::Variable::expr": variable_expr,
    "placo::problem::Integrator::expr": "pure",
    "placo::problem::Integrator::expr_t": "pure",
    "placo::problem::Integrator::value": "pure",
    "placo::problem::Integrator::get_trajectory": "pure",
    "placo::problem::Integrator::Trajectory::value": "pure",
    PB + "::add_variable": add_variable,
    PB + "::add_constraint": add_constraint,
    PB + "::add_limit": add_limit,
    PB + "::solve": solve,
    PB + "::clear_constraints": clear_constraints,
    PB + "::clear_variables": clear_variables,
    PB + "::dump_status": "ignore",
    "placo::problem::PolygonConstraint::in_polygon": "pure",
    "placo::problem::PolygonConstraint::in_polygon_xy": "pure",
}
