"""Runs the clang-based extractor over /repo's current sources and loads the resolved program."""
import hashlib
import json
import os
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("PLACO_REPO", "/repo")
CACHE = os.environ.get("VG_CACHE", os.path.join(VERIF, ".cache"))
KEEP = "VG_CACHE" in os.environ
TOOL = os.path.join(VERIF, ".cache", "placo-extract")
PFX = "/opt/placo-venv/lib/python3.12/site-packages/cmeel.prefix"

DEFINES = ("-DBOOST_MPL_LIMIT_LIST_SIZE=30 -DBOOST_MPL_LIMIT_VECTOR_SIZE=30 -DCOAL_BACKWARD_COMPATIBILITY_WITH_HPP_FCL "
           "-DCOAL_HAS_OCTOMAP -DCOAL_HAVE_OCTOMAP -DOCTOMAP_MAJOR_VERSION=1 -DOCTOMAP_MINOR_VERSION=10 "
           "-DOCTOMAP_PATCH_VERSION=0 -DPINOCCHIO_ENABLE_TEMPLATE_INSTANTIATION -DPINOCCHIO_WITH_HPP_FCL "
           "-DPINOCCHIO_WITH_URDFDOM").split()


class ExtractError(Exception):
    pass


def build_tool():
    os.makedirs(CACHE, exist_ok=True)
    src = os.path.join(VERIF, "tool", "extract.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    stamp = TOOL + ".stamp"
    if os.path.exists(TOOL) and os.path.exists(stamp) and open(stamp).read() == h:
        return TOOL
    tmp = TOOL + ".%d" % os.getpid()
    cpp = subprocess.check_output(["/usr/bin/llvm-config-18", "--cppflags"], text=True).split()
    r = subprocess.run(["/usr/bin/g++", "-O1", "-std=c++17", "-fno-rtti", "-w"] + cpp + [src, "-o", tmp, "-L/usr/lib/llvm-18/lib",
                        "-l:libclang-cpp.so.18.1", "-lLLVM-18"], capture_output=True, text=True)
    if r.returncode:
        raise ExtractError("cannot build the extractor: " + r.stderr[-2000:])
    os.replace(tmp, TOOL)
    with open(stamp, "w") as f:
        f.write(h)
    return TOOL


def flags(bindings=False):
    f = []
    # compile definitions and include paths of the real build when it is configured
    try:
        out = subprocess.check_output(["ninja", "-C", os.path.join(REPO, "_build"), "-t", "compdb"], text=True,
                                      stderr=subprocess.DEVNULL)
        for e in json.loads(out):
            if e["file"].endswith("bindings/expose-tools.cpp" if bindings else "problem/problem.cpp"):
                toks = e["command"].split()
                i = 0
                while i < len(toks):
                    t = toks[i]
                    if t.startswith("-D") and t != "-DNDEBUG":
                        f.append(t.replace("\\", ""))
                    elif t.startswith("-I"):
                        f.append(t)
                    elif t == "-isystem":
                        f += [t, toks[i + 1]]
                        i += 1
                    i += 1
    except Exception:
        f = []
    if not any(x.startswith("-I") for x in f):
        f = list(DEFINES)
        for d in ("include/eigen3", "include", "include/urdfdom", "include/urdfdom_headers"):
            f += ["-isystem", os.path.join(PFX, d)]
        if bindings:
            f += ["-DBOOST_MPL_LIMIT_LIST_SIZE=30", "-DBOOST_MPL_LIMIT_VECTOR_SIZE=30", "-isystem", "/usr/include/python3.12", "-isystem",
                  os.path.join(PFX, "..", "numpy", "_core", "include")]
    f = [x for x in f if x not in ("-I/repo/src",)]
    return ["-I" + REPO + "/src"] + f + ["-DNDEBUG", "-std=c++17", "-w", "-fno-access-control",
                                         "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"]


def sources(sub="src"):
    out = []
    for d, _, fs in sorted(os.walk(os.path.join(REPO, sub))):
        for f in sorted(fs):
            if f.endswith(".cpp"):
                out.append(os.path.join(d, f))
    return out


def all_hash(files_extra=()):
    h = hashlib.sha256()
    for sub in ("src", "bindings"):
        for d, _, fs in sorted(os.walk(os.path.join(REPO, sub))):
            for f in sorted(fs):
                if f.endswith((".h", ".hpp")):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, REPO).encode())
                    h.update(open(p, "rb").read())
    h.update(open(os.path.join(VERIF, "tool", "extract.cpp"), "rb").read())
    return h


def units():
    """groups of sources parsed together: one pass over the heavy headers per group"""
    g = {}
    for s in sources():
        rel = os.path.relpath(s, REPO + "/src/placo")
        d = rel.split(os.sep)[0]
        b = os.path.basename(rel)
        if d == "problem":
            k = "problem_expr" if b == "expression.cpp" else "problem"
        elif d == "tools" or d == "model":
            k = "tools"
        elif d == "kinematics":
            k = "kin_solver" if b in ("kinematics_solver.cpp", "task.cpp", "constraint.cpp") or "constraint" in b else "kin_tasks"
        elif d == "dynamics":
            k = "dyn_solver" if b in ("dynamics_solver.cpp", "contacts.cpp") else "dyn_tasks"
        elif d == "humanoid":
            k = "humanoid_a" if b in ("footsteps_planner.cpp", "humanoid_robot.cpp", "humanoid_parameters.cpp", "lipm.cpp",
                                      "walk_tasks.cpp", "kick.cpp") else "humanoid_b"
        else:
            k = "other"
        g.setdefault(k, []).append(s)
    return g


def _run(out, file, roots, fl):
    r = subprocess.run([TOOL, out, file, roots, "--"] + fl, capture_output=True, text=True)
    return r


def _spec_without_errors(out, file, roots, fl, r):
    """a reference that no longer compiles against the sources (a member was renamed, say) is left out: its obligation
    becomes undecided, the others stand"""
    lines = open(file).read().split("\n")
    starts = [i for i, l in enumerate(lines) if l.startswith("SPECS(")]
    end = max(i for i, l in enumerate(lines) if l.startswith("}"))
    tmp = os.path.join(CACHE, "%s_%d.cpp" % (os.path.basename(file)[:-4], os.getpid()))
    for _ in range(6):
        bad = set()
        for m in re.finditer(r"^%s:(\d+):\d+: (?:fatal )?error" % re.escape(file), r.stderr.replace(tmp, file), re.M):
            n = int(m.group(1)) - 1
            k = [i for i in starts if i <= n]
            if k and n < end:
                bad.add(k[-1])
        if not bad:
            break
        for b in bad:
            nxt = min([i for i in starts if i > b] + [end])
            # keep what follows the function's closing brace (helpers between references)
            stop = next((i for i in range(b, nxt) if lines[i] == "}"), nxt - 1) + 1
            for i in range(b, stop):
                lines[i] = ""
        open(tmp, "w").write("\n".join(lines))
        if os.path.exists(out):
            os.unlink(out)
        r = _run(out, tmp, os.path.dirname(file) + "," + CACHE, fl)
        if r.returncode == 0:
            break
    if os.path.exists(tmp):
        os.unlink(tmp)
    return r


def extract_unit(name, files, fl, roots, base_hash):
    h = base_hash.copy()
    h.update(repr(fl).replace(REPO + "/", "<repo>/").encode())
    for f in files:
        h.update(os.path.relpath(f, REPO).encode() if f.startswith(REPO + "/") else os.path.basename(f).encode())
        h.update(open(f, "rb").read())
    key = h.hexdigest()[:24]
    out = os.path.join(CACHE, "x_%s_%s.json" % (name, key))
    if os.path.exists(out):
        return [json.load(open(out))]
    for old in os.listdir(CACHE) if not KEEP else ():
        if old.startswith("x_%s_" % name) and not old.startswith("x_%s_%s" % (name, key)):
            try:
                if old[2:].rsplit("_", 1)[0] == name:
                    os.unlink(os.path.join(CACHE, old))
            except OSError:
                pass
    pid = os.getpid()
    if len(files) == 1:
        tmp = out + ".%d" % pid
        r = _run(tmp, files[0], roots, fl)
        if r.returncode and name.startswith("spec_"):
            r = _spec_without_errors(tmp, files[0], roots, fl, r)
        if r.returncode or not os.path.exists(tmp):
            raise ExtractError("clang cannot parse %s:\n%s" % (files[0], r.stderr[-3000:]))
        os.replace(tmp, out)
        return [json.load(open(out))]
    u = os.path.join(CACHE, "u_%s_%d.cpp" % (name, pid))
    with open(u, "w") as f:
        for s in files:
            f.write('#include "%s"\n' % s)
    tmp = out + ".%d" % pid
    r = _run(tmp, u, roots, fl)
    os.unlink(u)
    if r.returncode == 0 and os.path.exists(tmp):
        os.replace(tmp, out)
        return [json.load(open(out))]
    # files that cannot share a translation unit: parse one by one
    res = []
    with ThreadPoolExecutor(8) as ex:
        for part in ex.map(lambda a: extract_unit(name + "_" + os.path.basename(a)[:-4], [a], fl, roots, base_hash), files):
            res += part
    return res


def extract(spec=None, bindings=False, only=None):
    build_tool()
    bh = all_hash()
    jobs = []
    fl = flags()
    roots = REPO + "/src"
    for k, v in units().items():
        if only is None or k in only:
            jobs.append((k, v, fl, roots, bh))
    for s in spec or []:
        jobs.append(("spec_" + os.path.basename(s)[:-4], [s], (flags(True) if s.endswith("/bindings.cpp") else fl) + ["-I" + os.path.dirname(s)], os.path.dirname(s), bh))
    if bindings:
        fb = flags(True)
        for s in sources("bindings"):
            jobs.append(("bind_" + os.path.basename(s)[:-4], [s], fb, REPO + "/bindings," + REPO + "/src", bh))
    res = {}
    with ThreadPoolExecutor(8) as ex:
        for j, parts in zip(jobs, ex.map(lambda a: extract_unit(*a), jobs)):
            res[j[0]] = parts
    return res


if __name__ == "__main__":
    import time
    t = time.time()
    r = extract()
    print({k: len(v) for k, v in r.items()}, time.time() - t)
