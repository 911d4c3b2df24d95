"""Value-graph comparison of repository functions with reference functions."""
import os
import resource
import signal
import sys
import time
import traceback

import bind
import terms as T
from terms import *
from engine import Engine, Program, State, Unsupported
from modular import MODULAR


NEW_FIELDS = set()


class Timeout(Exception):
    pass


def parse_annot(a):
    d = {}
    for part in a.split(";"):
        if "=" in part:
            k, v = part.split("=", 1)
            d[k.strip()] = v.strip()
    return d


class Spec:
    def __init__(self, fn):
        self.fn = fn
        self.opt = parse_annot(fn["annot"])
        self.target = self.opt["F"]
        self.props = [x.strip() for x in self.opt.get("P", "").split(",") if x.strip()]
        self.ignore = set(x.strip() for x in self.opt.get("ignore", "").split(",") if x.strip())
        self.only = set(x.strip() for x in self.opt.get("only", "").split(",") if x.strip())
        self.raw = "raw" in self.opt.get("mode", "")
        self.has_self = bool(fn["params"]) and fn["params"][0]["n"] == "self"


def load_program(units):
    p = Program()
    specs = []
    for name, parts in units.items():
        for u in parts:
            if name.startswith("bind_"):
                bind.add(p, name, u)
            elif name == "spec_bindings":
                bind.rewrite_dicts(u)
            p.add_unit(u, spec=name.startswith("spec_"))
    bind.alias(p)
    p.finish()
    base = os.path.join(os.path.dirname(os.path.abspath(__file__)), "fields.txt")
    known = set(open(base).read().split()) if os.path.exists(base) else None
    NEW_FIELDS.clear()
    if known is not None:
        # members a later change adds to a class are its own business: no property speaks of them
        for k, r in p.records.items():
            if k.startswith("placo::"):
                NEW_FIELDS.update(f["n"] for f in r["fields"] if f["n"] not in known)
    for k, f in p.functions.items():
        if f.get("annot") and f["q"].startswith("spec::"):
            specs.append(Spec(f))
    return p, specs


def base_key(k):
    return k.split("(")[0]


def find_target(p, spec):
    f = p.functions.get(spec.target)
    if f is not None and f.get("body") is not None:
        return f
    q = base_key(spec.target)
    np = len(spec.fn["params"]) - (1 if spec.has_self else 0)
    c = [g for g in p.by_q.get(q, []) if g.get("body") is not None and len(g["params"]) == np]
    if len(c) == 1:
        return c[0]
    # same short parameter types up to const/reference
    def norm(k):
        s = k[len(base_key(k)):]
        for x in ("const ", "&", " const", " "):
            s = s.replace(x, "")
        for x, y in (("pinocchio::FrameIndex", "unsignedlong"), ("pinocchio::JointIndex", "unsignedlong"), ("Affine3d", "Transform")):
            s = s.replace(x, y)
        return s
    c = [g for g in c if norm(g["key"]) == norm(spec.target)]
    return c[0] if len(c) == 1 else None


def summarize_pair(p, spec, fn, mode, spec_map, limit):
    theory, modular = mode
    this = mk("sym", "this")
    res = []
    for side in ("code", "spec"):
        op = {}
        if modular:
            op = {k: v for k, v in MODULAR.items() if k != fn["q"]}
        eng = Engine(p, op, limit, theory=theory, spec_map=spec_map if side == "spec" else None)
        f = fn if side == "code" else spec.fn
        params = f["params"]
        if side == "spec" and spec.has_self:
            args = [this] + [mk("sym", "arg", i) for i in range(len(params) - 1)]
            t = None
        else:
            args = [mk("sym", "arg", i) for i in range(len(params))]
            t = this if side == "code" else None
            if f.get("selfparam"):
                args = [this] + args[:-1]
                t = None
        fresh = fn["cls"] if side == "spec" and fn.get("ctor") and spec.has_self else None
        eng.no_invariant = fn["cls"] if fn.get("ctor") else None
        s = eng.summarize(f, t, args, fresh=fresh)
        res.append((eng, s))
    return res


def diff_terms(a, b, depth=0):
    """smallest differing sub-terms"""
    while True:
        if not (isinstance(a, Term) and isinstance(b, Term)) or a.op != b.op or len(a.args) != len(b.args):
            return a, b
        ds = [(x, y) for x, y in zip(flat(a.args), flat(b.args)) if x is not y and not (not isinstance(x, Term) and x == y)]
        if len(list(flat(a.args))) != len(list(flat(b.args))) or not ds:
            return a, b
        if len(ds) > 1:
            ts = [(x, y) for x, y in ds if isinstance(x, Term) and isinstance(y, Term)]
            if a.op in ("ite",) and ts:
                a, b = ts[0]
                continue
            return a, b
        if not isinstance(ds[0][0], Term) or not isinstance(ds[0][1], Term):
            return a, b
        a, b = ds[0]


def flat(x):
    for y in x:
        if isinstance(y, tuple):
            yield from flat(y)
        else:
            yield y


def leaf_diffs(a, b, path, out, ignore, only):
    """compare terms field-wise; out gets (path, a, b)"""
    if a is b:
        return
    if a.op == "rec" or b.op == "rec":
        fa = dict(a.args[1]) if a.op == "rec" else {}
        fb = dict(b.args[1]) if b.op == "rec" else {}
        ba = a.args[0] if a.op == "rec" else a
        bb = b.args[0] if b.op == "rec" else b
        keys = set(fa) | set(fb)
        for k in sorted(keys):
            if k in ignore or k in NEW_FIELDS or (only and not path and k not in only):
                continue
            x, y = fld(a, k), fld(b, k)
            leaf_diffs(x, y, path + (k,), out, ignore, ())
        if ba is not bb and not (ba.op == "obj" or bb.op == "obj"):
            out.append((path, ba, bb))
        return
    out.append((path, a, b))


def compare(p, spec, fn, mode, spec_map, limit):
    (e1, s1), (e2, s2) = summarize_pair(p, spec, fn, mode, spec_map, limit)
    diffs = []
    dc = e2.dontcare
    care = b_not(dc)

    def R(t):
        if t is None:
            return None
        return restrict_deep(t, care) if dc is not FALSE else t

    t1, t2 = R(s1["throw"]), R(s2["throw"])
    if t1 is not t2 and "throws" not in spec.ignore:
        diffs.append((("<throws>",), t1, t2, care))
    if (s1["store"] is None) != (s2["store"] is None):
        diffs.append((("<returns>",), TRUE if s1["store"] is not None else FALSE, TRUE if s2["store"] is not None else FALSE, care))
        return diffs, (e1, e2)
    if s1["store"] is None:
        return diffs, (e1, e2)
    nthr = b_not(b_or(s1["throw"], dc)) if True else TRUE
    byval = set()
    for i, q in enumerate(fn["params"]):
        if fn["types"][q["t"]]["k"] not in ("ref", "ptr"):
            byval.add(mk("sym", "arg", i))
    r1, r2 = s1["ret"], s2["ret"]
    if (r1 is not None or r2 is not None) and "return" not in spec.ignore and (not spec.only or "return" in spec.only):
        r1 = r1 if r1 is not None else UNDEF
        r2 = r2 if r2 is not None else UNDEF
        if r1 is not r2:
            out = []
            leaf_diffs(restrict_deep(r1, nthr), restrict_deep(r2, nthr), ("<return>",), out, spec.ignore, ())
            diffs += [d + (nthr,) for d in out]
    roots = [r for r in set(s1["store"]) | set(s2["store"]) if r.op != "loc"]
    for r in sorted(roots, key=lambda t: t.id):
        if r in byval:
            continue
        if r.op == "sym" and r.args[0] == "static":
            continue
        x = s1["store"].get(r)
        y = s2["store"].get(r)
        if r.op in ("idx", "nth", "get", "ite") and all(v is None or v.op in ("idx", "get", "nth", "deref") for v in (x, y)):
            continue  # a cell of the heap family that was only read
        x = e1.content(State(s1["store"]), r) if x is None else x
        y = e2.content(State(s2["store"]), r) if y is None else y
        if x is y:
            continue
        name = show(r)
        if spec.only and not (r.op == "sym" and r.args[0] == "this") and name not in spec.only and "heap" not in spec.only:
            continue
        if name in spec.ignore or ("heap" in spec.ignore and not r.op == "sym"):
            continue
        out = []
        is_this = r.op == "sym" and r.args[0] == "this"
        leaf_diffs(restrict_deep(x, nthr), restrict_deep(y, nthr), (), out, spec.ignore, spec.only if is_this else ())
        diffs += [((name,) + q, a, b, nthr) for q, a, b in out]
    return diffs, (e1, e2)


def restrict_deep(t, c):
    """restrict decision diagrams at the top and below records / collections"""
    if c is TRUE or t is None:
        return t
    if t.op == "ite":
        return restrict(t, c)
    if t.op == "rec":
        return rec(restrict_deep(t.args[0], c), {k: restrict_deep(v, c) for k, v in t.args[1]})
    if t.op in ("seq", "bag"):
        f = seq if t.op == "seq" else bag
        ents = []
        for e in t.args[1]:
            if e[1]:
                ents.append(e)
            else:
                g = restrict(e[0], c)
                ents.append((g, e[1], restrict_deep(e[2], b_and(c, g) if False else c)))
        return f(t.args[0], ents)
    if t.op == "wr":
        ents = []
        for e in t.args[1]:
            if e[1]:
                ents.append(e)
            else:
                ents.append((restrict(e[0], c), e[1], e[2], restrict_deep(e[3], c)))
        return wr(t.args[0], ents)
    return t


def modes(spec, fn):
    if fn["q"].startswith("placo::problem") or spec.raw:
        return [(False, True), (False, False)]
    return [(True, True), (True, False), (False, True), (False, False)]


def run_spec(p, spec, spec_map, timeout=60, limit=400000):
    """-> dict(status, ...)"""
    fn = find_target(p, spec)
    res = dict(target=spec.target, spec=spec.fn["q"], file=None, line=None)
    if fn is None:
        res.update(status="missing", detail="no definition of %s in the sources" % spec.target)
        return res
    res["file"] = fn["file"]
    res["line"] = fn.get("line")
    T.ASSUME_KIN[0] = not fn["q"].startswith(("placo::model", "placo::problem", "placo::tools"))
    T.ROBOT_DIMS[0] = not fn["q"].startswith(("placo::problem", "placo::tools")) and "nodims" not in spec.opt
    first = None
    agree = None
    notes = []
    t0 = time.time()
    done = set()
    todo = [m + (0,) for m in modes(spec, fn)]
    while todo:
        *mode, boxed = todo.pop(0)
        mode = tuple(mode)
        if mode in done:
            continue  # nothing was abstracted: the inlining modes would repeat the same graphs
        T.BOX[0] = boxed or int(os.environ.get("VG_BOX", "0"))
        left = timeout - (time.time() - t0)
        if not boxed:
            left = min(left, max(20, timeout / 3))
        if left <= 1:
            notes.append("time limit")
            break
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(int(left) + 1)
        try:
            diffs, engs = compare(p, spec, fn, mode, {k: v for k, v in spec_map.items() if v is not spec.fn}, limit)
            signal.alarm(0)
            ut = any(e.used_theory for e in engs)
            um = any(e.used_modular for e in engs)
            done |= {(x, y) for x in {mode[0], mode[0] if ut else not mode[0]} for y in {mode[1], mode[1] if um else not mode[1]}}
        except (Timeout, Budget, Unsupported, RecursionError, MemoryError) as ex:
            signal.alarm(0)
            notes.append("%s %s" % (type(ex).__name__, ex))
            if not boxed and isinstance(ex, (Timeout, Budget, RecursionError)):
                todo.insert(0, mode + (6,))
            continue
        except Exception as ex:
            signal.alarm(0)
            notes.append("engine: %s %s @%s" % (type(ex).__name__, ex, traceback.extract_tb(ex.__traceback__)[-1].lineno))
            if os.environ.get("VG_DEBUG"):
                traceback.print_exc()
            continue
        if not diffs:
            res.update(status="equal", mode=list(mode), calls=len(engs[0].trace_calls), seconds=round(time.time() - t0, 2),
                       inlined=sorted(engs[0].trace_calls)[:40])
            return res
        hard = [d for d in diffs if not (d[1].unk or d[2].unk)]
        if hard:
            hard, note = told_apart(hard)
            if not hard:
                notes.append("normal forms differ (%s), %s" % (".".join(map(str, diffs[0][0])), note))
                if note.startswith("agree"):
                    agree = agree or (mode, note, engs)
                    break
                continue
        if hard and first is None:
            first = (mode, hard)
        if not hard:
            notes.append("unmodelled construct in " + ".".join(diffs[0][0]))
    if agree is not None:
        res.update(status="agree", mode=list(agree[0]), detail=agree[1], calls=len(agree[2][0].trace_calls),
                   seconds=round(time.time() - t0, 2), inlined=sorted(agree[2][0].trace_calls)[:40])
        return res
    if first is not None:
        mode, hard = first
        out = []
        for path, a, b, care, model in hard[:4]:
            x, y = diff_terms(a, b)
            out.append(dict(output=".".join(map(str, path)), code=show(x, 7)[:700], required=show(y, 7)[:700], model=model))
        res.update(status="differs", mode=list(mode), diffs=out, notes=notes, seconds=round(time.time() - t0, 2))
        return res
    res.update(status="undecided", detail="; ".join(notes), seconds=round(time.time() - t0, 2))
    return res


def told_apart(diffs):
    """keep the differences that some random interpretation confirms"""
    import model
    out = []
    lows = []
    tot = 0
    bycare = {}
    for d in diffs:
        bycare.setdefault(d[3].id, []).append(d)
    for ds in bycare.values():
        hits, feas, infeas = model.distinguish([(d[1], d[2]) for d in ds], ds[0][3], _G.get("samples", 80), seed=_G.get("seed", 1))
        tot += sum(feas)
        for i, h in hits.items():
            f = foreign(ds[i][1], ds[i][2])
            if f:
                lows.append("%s (operation without a model: %s)" % (".".join(map(str, ds[i][0]))[:60], ", ".join(f[:3])))
                continue
            out.append(ds[i] + ("%d models; e.g. code gives %s, required %s" % (len(h), brief(h[0][1]), brief(h[0][2])),))
        for i, n in enumerate(feas):
            if ds[i][1] is T.UNINIT and ds[i][2].op != "undef":
                out.append(ds[i] + ("no statement sets this member",))
            elif n < 5:
                why = sorted(((v, k[1]) for k, v in infeas.items() if k[0] in (-1, i)), reverse=True)[:4]
                lows.append("%s (%d; %s)" % (".".join(map(str, ds[i][0]))[:60], n, ", ".join("%d %s" % x for x in why)))
    out.sort(key=lambda d: tuple(map(str, d[0])))
    if lows:
        return out, "too few interpretations of " + "; ".join(lows)
    return out, "agree (%d interpretations)" % tot


PROJECT = ("placo::", "pinocchio::", "pin_", "eiquadprog::", "coal::", "hpp::", "virtual:placo::", "get", "compute", "update")


def foreign(code, ref):
    """library operations of the code that the reference does not use and no interpretation is known for: whether the two agree
    depends on what they compute, so nothing is reported"""
    import model
    h = {t.args[0] for t in model.subterms([code]) if t.op == "app"} & model.FALLBACK
    h = {x for x in h if not x.startswith(PROJECT)}
    return sorted(h - {t.args[0] for t in model.subterms([ref]) if t.op == "app"}) if h else []


def brief(v):
    return " ".join(str(v).split())[:160]


def _alarm(*a):
    raise Timeout()


_G = {}


def _worker(i):
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    try:
        return run_spec(_G["p"], _G["specs"][i], _G["map"], _G["timeout"], _G["limit"])
    except MemoryError:
        return dict(target=_G["specs"][i].target, spec="", file=None, line=None, status="undecided", detail="memory limit")


def run_all(p, specs, chosen, timeout=60, limit=400000, procs=8, samples=80, seed=1, total=3600):
    import multiprocessing as mp
    _G.update(p=p, specs=chosen, timeout=timeout, limit=limit, samples=samples, seed=seed)
    m = {}
    for s in specs:
        f = find_target(p, s)
        if f is not None:
            m[f["key"]] = s.fn
    _G["map"] = m
    ctx = mp.get_context("fork")
    res = []
    t0 = time.time()
    with ctx.Pool(procs, maxtasksperchild=1) as pool:
        it = pool.imap_unordered(_worker, range(len(chosen)), 1)
        for _ in chosen:
            try:
                res.append(it.next(max(1, total - (time.time() - t0))))
            except mp.TimeoutError:
                pool.terminate()
                break
    done = {r["target"] for r in res}
    res += [dict(target=s.target, spec="", file=None, line=None, status="undecided", detail="time limit of the whole check")
            for s in chosen if s.target not in done]
    return res
