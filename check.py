#!/usr/local/bin/python3-vt
"""check.py <property id> [--thorough]    decide one property on /repo's current sources

Every obligation of the property compares the value graph of one repository function with the value graph of its
reference in spec/ (or runs one of the structural analyses in vg/lints.py).  See DESIGN.md.
"""
import json
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "vg"))
sys.path.insert(0, HERE)


def spec_files(pid):
    """spec files with obligations for pid -> (files, units)"""
    files, units = [], set()
    d = os.path.join(HERE, "spec")
    for f in sorted(os.listdir(d)):
        if not f.endswith(".cpp"):
            continue
        s = open(os.path.join(d, f)).read()
        if re.search(r'SPECS\("P=[^;"]*\b%s\b' % pid, s):
            files.append(os.path.join(d, f))
            m = re.search(r"^// UNITS: (.*)$", s, re.M)
            units |= set(m.group(1).split())
    return files, units


def load_known():
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\w+) id=(\S+) (.*)", l)
            if m:
                out.append(m.groups())
    return out


def main():
    pid = sys.argv[1]
    thorough = "--thorough" in sys.argv[2:]
    t0 = time.time()
    import extract
    import compare
    import lints
    import lints_mem

    files, units = spec_files(pid)
    lint_fns = lints.for_property(pid)
    for l in lint_fns:
        units |= set(l.units)
    want_bind = any(l.bindings for l in lint_fns) or any(f.endswith("/bindings.cpp") for f in files)
    try:
        ext = extract.extract(spec=files, bindings=want_bind, only=units or {"none"})
    except extract.ExtractError as ex:
        print("cannot analyse the sources: %s" % ex)
        return 2  # the tree does not compile
    parse_s = time.time() - t0
    p, specs = compare.load_program(ext)
    mine = [s for s in specs if pid in s.props and "known" not in s.opt]
    alts = [s for s in specs if "known" in s.opt]
    res = compare.run_all(p, [s for s in specs if "known" not in s.opt], mine, timeout=600 if thorough else 300,
                          samples=400 if thorough else 80, limit=1500000 if thorough else 400000,
                          seed=int(os.environ.get("VERIF_SEED", "1") or 1), total=3000 if thorough else 700 - parse_s)
    have = {s.target for s in mine}
    for f in files:
        for m in re.finditer(r'SPECS\("P=([^;"]*);F=([^;"]*)([^"]*)"\)', open(f).read()):
            if pid in re.split(r"\W+", m.group(1)) and "known=" not in m.group(3) and m.group(2) not in have:
                res.append(dict(target=m.group(2), status="missing", detail="the reference no longer compiles against the sources"))
    known = {k[1]: k for k in load_known() if k[0] == pid}
    violations, findings = [], []
    for r in res:
        if r["status"] != "differs":
            continue
        alt = [s for s in alts if s.target == r["target"] and s.opt["known"] in known]
        hit = None
        for s in alt:
            q = compare.run_all(p, [x for x in specs if "known" not in x.opt], [s], timeout=60)[0]
            if q["status"] in ("equal", "agree"):
                hit = s.opt["known"]
        if hit:
            r["status"] = "known"
            findings.append((hit, known[hit][2]))
        else:
            violations.append(r)
    lint_res = []
    for l in lint_fns:
        o = l.run(p, ext)
        lint_res.append(o)
        for v in o["violations"]:
            if v.get("id") in known:
                findings.append((v["id"], known[v["id"]][2]))
            else:
                violations.append(dict(target=v["where"], file=v.get("file"), line=v.get("line"), status="differs",
                                       diffs=[dict(output=v["what"], code=v.get("code", ""), required=v.get("required", ""))]))
    count = {}
    for r in res:
        count[r["status"]] = count.get(r["status"], 0) + 1
    decided = sum(count.get(k, 0) for k in ("equal", "agree", "differs", "known")) + sum(o["decided"] for o in lint_res)
    total = len(res) + sum(o["obligations"] for o in lint_res)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    cov = dict(
        explanation="Value-graph comparison: each repository function below was abstractly interpreted from /repo's current source into a "
                    "normalised value graph and compared, output by output, with the graph of its reference function in /verif/spec. "
                    "'equal' = identical normal forms (holds for every input); 'agree' = normal forms differ syntactically and no random "
                    "interpretation of the term algebra tells them apart; 'undecided' = outside the analysed fragment, nothing claimed.",
        obligations=total, discharged=count.get("equal", 0) + count.get("agree", 0) + sum(o["decided"] - len(o["violations"]) for o in lint_res),
        by_normal_form=count.get("equal", 0), by_random_interpretation=count.get("agree", 0),
        undecided=[dict(function=r["target"], why=(r.get("detail") or "")[:300]) for r in res if r["status"] in ("undecided", "missing")],
        functions_inlined=sum(r.get("calls", 0) for r in res),
        functions=[dict(function=r["target"], where="%s:%s" % (r.get("file"), r.get("line")), status=r["status"],
                        seconds=r.get("seconds")) for r in sorted(res, key=lambda r: r["target"])],
        analyses=[{k: v for k, v in o.items() if k != "violations"} for o in lint_res],
        units=sorted(units), parse_seconds=round(parse_s, 1))
    ev = dict(property=pid, tier="thorough" if thorough else "quick", seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="other",
              coverage=cov, wall_s=round(time.time() - t0, 2))
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for h, what in findings:
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    print("%s: %d obligations, %d discharged (%d by normal form, %d by random interpretation), %d undecided, %.1f s" % (
        pid, total, cov["discharged"], cov["by_normal_form"], cov["by_random_interpretation"], total - decided, time.time() - t0))
    for r in res:
        if r["status"] in ("undecided", "missing"):
            print("  undecided: %s: %s" % (r["target"], (r.get("detail") or "")[:200]))
    if violations:
        replay = os.path.join(HERE, "evidence", pid + ".violations.json")
        with open(replay, "w") as f:
            json.dump(violations, f, indent=1, default=str)
        for r in violations:
            print("  %s:%s: %s" % (r.get("file"), r.get("line"), r["target"]))
            for d in r.get("diffs", []):
                print("     output %s\n       code:     %s\n       required: %s%s" % (
                    d["output"], d["code"], d["required"], ("\n       " + d["model"]) if d.get("model") else ""))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    if total == 0 or decided == 0:
        print("nothing could be decided: no violation is claimed")
    return 0


if __name__ == "__main__":
    sys.exit(main())
