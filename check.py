#!/usr/bin/env python3
"""Driver of the model-checking harnesses.

  check.py <property> [--tier quick|thorough]   run the check of one property
  check.py replay <file>                        replay a counterexample
  check.py all [--tier ...]                     run every check (development aid)

Every run compiles the harnesses of the property from the sources in /repo's working
tree, runs them, and rewrites evidence/<property>.json.
Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Other: error.
"""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
H = os.path.join(VERIF, "harness")
JOBS = os.cpu_count() or 4

LIB = ["Timer", "ColumnPrinter", "DivMask", "Action", "BoolParameter", "CliParameter",
       "CliParser", "error", "HelpAction", "IntegerParameter", "StringParameter",
       "display", "BitTriangle"]

COMMON = ["-std=gnu++14", "-g1", "-w", "-pthread", "-I" + REPO + "/src", "-I" + H]
VARIANTS = {
    # fast: deep exploration.  asan: memory errors are part of the oracle.
    "fast": ["-O2"],
    "debug": ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-DVERIF_ASAN", "-DMATHIC_SLOW_DEBUG", "-DDEBUG"],
    "asan": ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-DVERIF_ASAN"],
}
exec(open(os.path.join(VERIF, "checks_table.py")).read())  # CHECKS, EXTRA_SRC


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors="replace", **kw)


class BuildError(Exception):
    pass


def compile_units(units, build):
    """units: list of (source, object, flags). Compiles in parallel."""
    def one(u):
        src, obj, flags = u
        r = sh(["g++"] + COMMON + flags + ["-c", src, "-o", obj])
        return (u, r.returncode, r.stdout)
    with ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(one, units))


def build_all(needed, build):
    """needed: list of (harness, variant).  Returns {(harness, variant): exe}."""
    # two objects of the same source and variant are compiled once
    units = {}
    link = {}
    for harness, variant in needed:
        spec = HARNESSES[harness]
        objs = []
        vf = VARIANTS[variant]
        srcs = [(os.path.join(H, s), spec.get("flags", []), "h") for s in spec["src"]]
        srcs += [(os.path.join(H, "mc_main.cpp"), [], "m")]
        if spec.get("lib"):
            srcs += [(REPO + "/src/mathic/" + l + ".cpp", [], "l") for l in spec.get("libs", LIB)]
        srcs += [(REPO + "/" + s, spec.get("flags", []), "r") for s in spec.get("repo_src", [])]
        for src, fl, kind in srcs:
            base = kind + "_" + os.path.basename(src).replace(".cpp", "")
            if kind == "h" or kind == "r":
                base = harness + "_" + base
            obj = os.path.join(build, base + "." + variant + ".o")
            units[obj] = (src, obj, vf + fl)
            objs.append(obj)
        link[(harness, variant)] = objs
    order = sorted(units.values(), key=lambda u: (0 if os.path.basename(u[0]).startswith("h_") else 1, u[1]))
    res = compile_units(order, build)
    errs = [(u, out) for (u, rc, out) in res if rc != 0]
    if errs:
        return None, errs
    exes = {}
    archives = {}
    for (harness, variant), objs in link.items():
        exe = os.path.join(build, harness + "." + variant)
        def do_link(extra):
            return sh(["g++"] + VARIANTS[variant] + ["-pthread"] + objs + extra + ["-lmemtailor", "-o", exe])
        r = do_link([])
        if r.returncode != 0:
            # The code may have been rearranged between the library's files: link all of them.
            if variant not in archives:
                archives[variant] = build_archive(build, variant)
            r = do_link([archives[variant]])
        if r.returncode != 0:
            errs.append((("link", exe, []), r.stdout))
        exes[(harness, variant)] = exe
    if errs:
        return None, errs
    return exes, []


def build_archive(build, variant):
    """Every source file of the library, so that a harness gets whatever it needs."""
    d = os.path.join(build, "all-" + variant)
    os.makedirs(d, exist_ok=True)
    units = []
    for root, _, files in os.walk(REPO + "/src/mathic"):
        for f in sorted(files):
            if f.endswith(".cpp"):
                units.append((os.path.join(root, f), os.path.join(d, "%d_%s.o" % (len(units), f[:-4])), VARIANTS[variant]))
    res = compile_units(units, d)
    ar = os.path.join(d, "liball.a")
    sh(["ar", "rcs", ar] + [u[1] for (u, rc, out) in res if rc == 0])
    return ar


def compiler_works(build):
    p = os.path.join(build, "probe.cpp")
    with open(p, "w") as f:
        f.write("#include <vector>\n#include <string>\n#include <map>\nint main(){std::vector<int> v(3);return (int)v.size()-3;}\n")
    r = sh(["g++"] + COMMON + ["-O1", p, "-o", os.path.join(build, "probe")])
    return r.returncode == 0


def write_replay(prop, data):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, prop + ".json")
    with open(p, "w") as f:
        json.dump(data, f, indent=1)
    return p


def env_for_run():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=43:abort_on_error=0:allocator_may_return_null=0:detect_odr_violation=0:max_allocation_size_mb=4000"
    e["LC_ALL"] = "C"
    e.pop("MALLOC_PERTURB_", None)
    return e


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=" + prop + " "):
                out.append(line[len("finding: property=" + prop + " "):])
    return out


def check(prop, tier, verbose=True):
    t0 = time.time()
    spec = CHECKS[prop]
    runs = [r for r in spec["runs"] if tier in r.get("tiers", ("quick", "thorough"))]
    needed = []
    for r in runs:
        if (r["h"], r["v"]) not in needed:
            needed.append((r["h"], r["v"]))
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    build = tempfile.mkdtemp(prefix=prop + "-", dir=os.path.join(VERIF, "build"))
    violations = []
    try:
        exes, errs = build_all(needed, build)
        tb = time.time() - t0
        suites = []
        if exes is None:
            text = "\n".join("%s\n%s" % (u[0], "\n".join([l for l in o.splitlines() if "error" in l or "undefined" in l][:6])) for u, o in errs)
            if not compiler_works(build) or any(u[0].endswith("mc_main.cpp") for u, o in errs):
                print("ERROR: the compiler does not work here\n" + text)
                return 2
            # The harness is an ordinary client of the public interface.  It compiles
            # against the tree it was written for; if the interface it uses is gone or
            # no longer instantiates, the operations the property is about are unusable.
            print("client of the public interface does not build:\n" + text)
            rp = write_replay(prop, {"property": prop, "kind": "build", "needed": needed, "errors": text})
            violations.append(("does not build", rp))
        else:
            for r in runs:
                out = os.path.join(build, "out.json")
                if os.path.exists(out):
                    os.unlink(out)
                cmd = [exes[(r["h"], r["v"])], "--out", out, "--tmp", build, "--tier", tier,
                       "--jobs", str(JOBS)]
                if r.get("f"):
                    cmd += ["--filter", r["f"]]
                p = subprocess.run(cmd, env=env_for_run(), stdout=subprocess.DEVNULL if not verbose else None)
                if not os.path.exists(out):
                    print("ERROR: harness %s gave no result (exit %d)" % (r["h"], p.returncode))
                    return 2
                data = json.load(open(out))
                if not data["suites"]:
                    print("ERROR: no suite matched %s" % r)
                    return 2
                for s in data["suites"]:
                    s["harness"], s["variant"] = r["h"], r["v"]
                    suites.append(s)
                    if s["failed"] == 2:
                        print("ERROR: %s: %s" % (s["name"], s["msg"]))
                        return 2
                    if s["failed"] == 1:
                        err = os.path.join(build, "worker.err")
                        tail = open(err, errors="replace").read()[:3000] if os.path.exists(err) else ""
                        rp = write_replay(prop, {
                            "property": prop, "kind": "trace", "harness": r["h"], "variant": r["v"],
                            "tier": tier, "suite": s["name"], "choices": s["choices"],
                            "message": s["msg"], "reproduced_alone": s["reproduced"],
                            "trace": s["log"].splitlines(), "stderr": tail.splitlines()[:40],
                            "how_to_replay": "python3 check.py replay <this file>"})
                        print("suite %s: %s" % (s["name"], s["msg"]))
                        print(s["log"][-3000:])
                        violations.append((s["msg"], rp))
                if violations:
                    break
        wall = time.time() - t0
        samples = []
        for s in suites:
            if s["log"] and len(samples) < 12:
                samples.append({"suite": s["name"], "variant": s["variant"], "last_trace": s["log"].splitlines()[:60]})
        cov = {
            "states": sum(s["states"] for s in suites),
            "transitions": sum(s["transitions"] for s in suites),
            "traces_validated_against_impl": sum(s["traces"] for s in suites),
            "samples": samples or ["no trace completed"],
            "exhaustive": not violations,
            "distinct_outcomes": sum(s["outcomes"] for s in suites),
            "rule": spec.get("rule", "every sequence of choices within the bounds is executed on the real code"),
            "bounds": spec.get("bounds", ""),
            "suites": [{k: s[k] for k in ("name", "harness", "variant", "states", "transitions", "traces",
                                          "outcomes", "wall", "state_table_full")} for s in suites],
            "conformance": "the explorer drives the real code compiled from /repo; there is no separate model to bind, "
                           "every trace counted was executed on the implementation and compared with the reference model at each step",
            "build_s": round(tb, 1),
        }
        ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
              "level": "model_checking", "coverage": cov,
              "assumptions": spec.get("assumptions", []),
              "wall_s": round(wall, 2), "violations": len(violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for f in known_findings(prop):
            print("KNOWN-FINDING: property=%s %s" % (prop, f))
        if violations:
            for msg, rp in violations:
                print("VIOLATION property=%s replay=%s" % (prop, rp))
            return 1
        print("%s held: %d suites, %d states, %d transitions, %d traces, %.1f s (build %.1f s)" % (
            prop, len(suites), cov["states"], cov["transitions"],
            cov["traces_validated_against_impl"], wall, tb))
        return 0
    finally:
        shutil.rmtree(build, ignore_errors=True)


def replay(path):
    d = json.load(open(path))
    build = tempfile.mkdtemp(prefix="replay-", dir=VERIF + "/build" if os.path.isdir(VERIF + "/build") else None)
    try:
        needed = [tuple(x) for x in d["needed"]] if d["kind"] == "build" else [(d["harness"], d["variant"])]
        exes, errs = build_all(needed, build)
        if exes is None:
            for u, o in errs:
                print(u[0], "\n", o[:3000])
            return 1
        if d["kind"] == "build":
            print("builds now")
            return 0
        return subprocess.run([exes[needed[0]], "--tmp", build, "--tier", d["tier"], "--replay", d["suite"],
                               "--choices", ",".join(map(str, d["choices"]))], env=env_for_run()).returncode
    finally:
        shutil.rmtree(build, ignore_errors=True)


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    if a[0] == "replay":
        return replay(a[1])
    if a[0] == "all":
        bad = 0
        for p in sorted(CHECKS):
            rc = check(p, tier, False)
            bad = bad or rc
        return bad
    return check(a[0], tier)


sys.exit(main())
