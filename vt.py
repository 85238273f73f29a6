#!/usr/bin/env python3
"""Driver: compiles the harness and the repository sources it needs to LLVM IR, explores every
entry with the symbolic executor, replays counterexamples natively, writes evidence/<id>.json."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
RT = os.path.join(VERIF, "rt")
NCPU = int(os.environ.get("VERIF_JOBS", "8"))
CXXFLAGS = ["-std=c++20", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-DLINUX", "-D_GLIBCXX_EXTERN_TEMPLATE=0",
            "-ffp-contract=off", "-fno-strict-aliasing", "-Wno-everything", "-DERICWTOOLS_VERSION=\"sx\"", "-DHAVE_EMBREE_"]
INC = ["-I" + os.path.join(RT, "stubs"), "-I" + RT, "-I" + REPO + "/include", "-I" + REPO]
IRFLAGS = ["-O2", "-emit-llvm", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-pic", "-gline-tables-only", "-DSX_SYMBOLIC", "-fno-access-control"]


DEV = os.environ.get("VT_DEV")  # development only: reuse objects newer than their source file


def run(cmd, **kw):
    if DEV and "-c" in cmd:
        q, o = cmd[cmd.index("-c") + 1], cmd[-1]
        if os.path.exists(o) and os.path.exists(o + ".d"):
            deps = open(o + ".d").read().replace("\\\n", " ").split(":", 1)[1].split()
            t = os.path.getmtime(o)
            if all(os.path.exists(d) and os.path.getmtime(d) < t for d in deps):
                return subprocess.CompletedProcess(cmd, 0, "")
        cmd = cmd[:1] + ["-MMD", "-MF", o + ".d"] + cmd[1:]
    for _ in range(3):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
        # a compiler that crashes (rather than reporting an error in the code) is tried again
        if r.returncode == 0 or not re.search(r"PLEASE submit|internal compiler error|Stack dump|unable to execute command|Killed", r.stdout):
            break
    return r


class Inconclusive(Exception):
    pass


def load_spec(pid):
    p = os.path.join(VERIF, "props", pid, "spec.json")
    return json.load(open(p))


def src_path(pid, s):
    for base in (os.path.join(VERIF, "props", pid), os.path.join(VERIF, "props", "common"), RT, REPO):
        q = os.path.join(base, s)
        if os.path.exists(q):
            return q
    raise Inconclusive("source %s not found" % s)


def compile_ir(pid, spec, bdir, pool):
    jobs = []
    srcs = list(spec["harness"]) + list(spec.get("sources", []))
    if spec.get("log_stub", True):
        srcs.append("log_stub.cpp")
    srcs.append("memfs.cpp")
    outs = []
    for i, s in enumerate(srcs):
        q = src_path(pid, s)
        o = os.path.join(bdir, "%s.bc" % s.replace("/", "_"))
        fl = IRFLAGS + spec.get("ir_flags", []) + spec.get("flags", []) + spec.get("src_flags", {}).get(s, [])
        cmd = ["clang++"] + CXXFLAGS + INC + ["-I" + os.path.join(VERIF, "props", "common")] + fl + ["-c", q, "-o", o]
        outs.append(o)
        jobs.append((s, pool.submit(run, cmd)))
    for n in ("rt", "rt_ios", "rt_path"):
        o = os.path.join(bdir, n + ".bc")
        jobs.append((n + ".cpp", pool.submit(run, ["clang++"] + CXXFLAGS + INC + ["-O1", "-U__OPTIMIZE__", "-DSX_SYMBOLIC", "-fno-builtin", "-emit-llvm", "-fno-access-control",
                                             "-gline-tables-only", "-c", os.path.join(RT, n + ".cpp"), "-o", o])))
        outs.append(o)
    for s, j in jobs:
        r = j.result()
        if r.returncode:
            raise Inconclusive("compiling %s failed:\n%s" % (s, r.stdout[-3000:]))
    linked = os.path.join(bdir, "all.bc")
    r = run(["llvm-link-18"] + outs + ["-o", linked])
    if r.returncode:
        raise Inconclusive("llvm-link: " + r.stdout[-3000:])
    final = os.path.join(bdir, "final.bc")
    keep = ",".join(sorted(set(e["name"] for e in spec["entries"])) + ["sx_throw_bad_alloc", "sx_override.*"])
    r = run(["opt-18", "--internalize-public-api-list=" + keep, "-passes=internalize,globaldce,function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>)" + spec.get("opt_passes", ""), linked, "-o", final])
    if r.returncode:
        raise Inconclusive("opt: " + r.stdout[-3000:])
    return final


def build_native(pid, spec, bdir, pool):
    """Native replay binary: same harness, same repository sources, ASan."""
    srcs = list(spec["harness"]) + list(spec.get("sources", [])) + list(spec.get("native_sources", []))
    if spec.get("log_stub", True):
        srcs.append("log_stub.cpp")
    srcs += ["memfs.cpp", "native.cpp"]
    jobs, outs = [], []
    for i, s in enumerate(srcs):
        q = src_path(pid, s)
        o = os.path.join(bdir, "n_%s.o" % s.replace("/", "_"))
        cmd = ["clang++"] + CXXFLAGS + INC + ["-I" + os.path.join(VERIF, "props", "common")] + ["-O1", "-gline-tables-only", "-fsanitize=address", "-fno-omit-frame-pointer", "-fno-access-control",
               "-DSX_NATIVE"] + spec.get("flags", []) + spec.get("src_flags", {}).get(s, []) + ["-c", q, "-o", o]
        outs.append(o)
        jobs.append((s, pool.submit(run, cmd)))
    for s, j in jobs:
        r = j.result()
        if r.returncode:
            raise Inconclusive("native compile of %s failed:\n%s" % (s, r.stdout[-3000:]))
    exe = os.path.join(bdir, "replay")
    r = run(["clang++", "-fsanitize=address", "-rdynamic", "-Wl,--unresolved-symbols=ignore-all", "-Wl,-z,lazy"] + outs +
            ["-o", exe, "-lfmt", "-ltbb", "-ltbbmalloc", "-ldl", "-lpthread"] + spec.get("native_libs", []))
    if r.returncode:
        raise Inconclusive("native link: " + r.stdout[-3000:])
    return exe


def write_inputs(path, inputs):
    with open(path, "w") as f:
        for n, h in inputs:
            f.write("%s %s\n" % (n, h or "-"))


def native_run(exe, entry, path, params, timeout):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=75:allocator_may_return_null=1:max_allocation_size_mb=4096:detect_stack_use_after_return=1", LC_ALL="C")
    try:
        r = subprocess.run([exe, entry, path] + [str(x) for x in params], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, env=env, cwd=os.path.dirname(exe), errors="replace", text=True)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return "timeout", ""


def run_entry(bc, bdir, e, idx, tier, seed, spec, deadline):
    out = os.path.join(bdir, "out%d.json" % idx)
    opts = [str(x) for x in spec.get("opts", [])] + [str(x) for x in e.get("opts", [])]
    cmd = [os.path.join(BUILD, "engine", "symx"), bc, "--entry", e["name"], "--out", out, "--samples", str(e.get("samples", 2)), "--seed", str(seed)]
    left = deadline - time.time()
    if left < 5:
        return {"skipped": "%s%s not started: time budget used up" % (e["name"], e.get("params", [])), "entry": e["name"], "params": e.get("params", [])}
    cmd += ["--time", str(int(min(left, e.get("time", 1e9))))]
    for p in e.get("params", []):
        cmd += ["--param", str(p)]
    cmd += opts
    t0 = time.time()
    if os.path.exists(out):
        os.unlink(out)
    try:
        r = run(cmd, timeout=min(left, e.get("time", 1e9)) + 60)
    except subprocess.TimeoutExpired:
        return {"error": "symx did not stop in time (%s)" % e["name"], "entry": e["name"], "params": e.get("params", [])}
    if not os.path.exists(out):
        return {"error": "symx failed (%s): %s" % (r.returncode, r.stdout[-2000:]), "entry": e["name"], "params": e.get("params", [])}
    d = json.load(open(out))
    d["stderr"] = r.stdout[-1500:]
    return d


def entries_for(spec, tier):
    res = []
    for e in spec["entries"]:
        if tier not in e.get("tiers", ["quick", "thorough"]):
            continue
        plist = e.get("param_sets")
        if plist is None:
            plist = [e.get("params", [])]
        if tier == "thorough" and "thorough_param_sets" in e:
            plist = e["thorough_param_sets"]
        for p in plist:
            x = dict(e)
            x["params"] = p
            res.append(x)
    return res


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": []}


def match_finding(pid, entry, v, kf):
    for f in kf["findings"]:
        if f["property"] == pid and f["entry"] == entry and f["kind"] == v["kind"] and f["msg"] in v["msg"] and f["loc"] in v["loc"]:
            return f
    return None


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    for i, a in enumerate(sys.argv[2:], 2):
        if a in ("quick", "thorough"):
            tier = a
        if a.startswith("--only="):
            only = a[7:]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    spec = load_spec(pid)
    r = run(["bash", os.path.join(VERIF, "engine", "build.sh"), os.path.join(BUILD, "engine")])
    if r.returncode:
        print("engine build failed\n" + r.stdout[-3000:])
        return 2
    bdir = os.path.join(BUILD, pid)
    if not DEV:
        shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir, exist_ok=True)
    rdir = os.path.join(VERIF, "replays", pid)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir)
    problems, partial, confirmed, known = [], [], [], []
    results = []
    exe = None
    samples_ok = 0
    samples_out = []
    with cf.ThreadPoolExecutor(NCPU) as pool:
        try:
            bc = compile_ir(pid, spec, bdir, pool)
            t_compile = time.time() - t0
            ents = entries_for(spec, tier)
            if only:
                ents = [e for e in ents if re.search(only, e["name"])]
            deadline = t0 + float(os.environ.get("VT_BUDGET", 740 if tier == "quick" else 10000))
            futs = [(e, pool.submit(run_entry, bc, bdir, e, i, tier, seed, spec, deadline)) for i, e in enumerate(ents)]
            results = [(e, f.result()) for e, f in futs]
            t_sym = time.time() - t0 - t_compile
            exe = build_native(pid, spec, bdir, pool)
            need, reported, unrep = {}, set(), {}
            for e, d in results:
                tag = e["name"] + (str(e["params"]) if e["params"] else "")
                if "error" in d:
                    problems.append(d["error"])
                    continue
                if "skipped" in d:
                    partial.append(d["skipped"])
                    continue
                if not d["complete"] and not d["violations"]:
                    partial.append("%s: exploration incomplete: %s" % (tag, json.dumps(d["incomplete"])))
                for l in e.get("reach", []):
                    need.setdefault(l, False)
                for l in d["reached"]:
                    need[l] = True
                for n, v in enumerate(d["violations"]):
                    # one report per place and kind; the same memory error shows with many sizes
                    key = (e["name"], v["kind"], v["loc"], "" if v["kind"] == "memory" else v["msg"])
                    if key in reported:
                        continue
                    path = os.path.join(rdir, "%s_%s_%d.in" % (e["name"], "_".join(map(str, e["params"])), n))
                    write_inputs(path, v["inputs"])
                    rc, out = native_run(exe, e["name"], path, e["params"], 60 if v["kind"] == "limit" else 120)
                    ok = rc not in (0, 78, 79)
                    with open(path + ".txt", "w") as f:
                        f.write("property %s entry %s params %s\n%s: %s\nat %s\n%s\n--- native replay: exit %s\n%s\n" % (pid, e["name"], e["params"], v["kind"], v["msg"], v["loc"], v["trace"], rc, out[-6000:]))
                    if not ok:
                        unrep[key] = unrep.get(key, 0) + 1
                        if unrep[key] < 3:
                            problems.append("%s: counterexample not reproduced natively (%s: %s at %s; native exit %s; %s)" % (tag, v["kind"], v["msg"], v["loc"], rc, path))
                        continue
                    reported.add(key)
                    f = match_finding(pid, e["name"], v, known_findings())
                    if f:
                        known.append((f, v, path))
                    else:
                        confirmed.append((tag, v, path, e))
                for n, sm in enumerate(d.get("samples", [])):
                    path = os.path.join(bdir, "sample_%s_%s_%d.in" % (e["name"], "_".join(map(str, e["params"])), n))
                    write_inputs(path, sm["inputs"])
                    rc, out = native_run(exe, e["name"], path, e["params"], 120)
                    got = re.findall(r"^SX_REACH (.*)$", out, re.M)[:64]
                    if (rc != 0 or (not sm["merged"] and got != sm["reach"])) and not d["violations"]:
                        problems.append("%s: native run of a sampled path disagrees (exit %s, reach %s vs %s): %s\n%s" % (tag, rc, got[:12], sm["reach"][:12], path, out[-800:]))
                    else:
                        samples_ok += 1
                    if len(samples_out) < 12:
                        samples_out.append({"entry": tag, "reach": sm["reach"][:10], "inputs": [[a, b[:64]] for a, b in sm["inputs"][:16]]})
            if not only:
                for l, hit in need.items():
                    if not hit and not confirmed and not partial:
                        problems.append("vacuous: label '%s' never reached" % l)
        except Inconclusive as ex:
            problems.append(str(ex))
            t_sym = t_compile = 0
    good = [d for _, d in results if "error" not in d and "skipped" not in d]
    tot = lambda k: sum(d[k] for d in good)
    funcs = {}
    for d in good:
        for f, n in d["functions"].items():
            funcs[f] = funcs.get(f, 0) + n
    repo_funcs = sorted(f for f in funcs if not re.match(r"^(std::|void std::|__gnu|fmt::|.* std::|bool std::|operator|_GLOBAL|sx_|__cxx)", f))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "model_checking"),
        "coverage": {
            "states": tot("paths"), "transitions": tot("instructions"), "traces_validated_against_impl": samples_ok,
            "samples": samples_out or [{"note": "no completed path"}],
            "path_merges": tot("merges"),
            "entries": [{"entry": d["entry"], "params": d["params"], "complete": d["complete"], "paths": d["paths"], "instructions": d["instructions"], "queries": d["queries"],
                         "solver_calls": d["solver_calls"], "solver_time_s": d["solver_time"], "wall_s": d["wall"], "reached": d["reached"]} for d in good],
            "queries_discharged": tot("queries"), "solver_calls": tot("solver_calls"), "queries_unsat": tot("unsat"), "queries_sat": tot("sat"), "queries_unknown": tot("unknown"),
            "assertions_decided": tot("asserts_evaluated"), "assertion_queries": tot("assert_queries"), "symbolic_bounds_checks": tot("symbolic_bounds_checks"),
            "solver_time_s": round(sum(d["solver_time"] for d in good), 2),
            "functions_encoded": repo_funcs[:400], "functions_encoded_total": len(funcs),
            "bounds": spec.get("bounds", ""), "outside_bounds": spec.get("outside", ""),
            "exhaustive": not problems and not partial,
            "explanation": "Every path of each entry was executed symbolically over the IR compiled from the current source; every branch, bounds check and assertion was decided by Z3 for all values of the symbolic inputs within the bounds.",
            "known_findings": [f[0]["what"] for f in known], "inconclusive": problems[:20], "incomplete": partial[:20],
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(confirmed),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("%s [%s] %d entries, %d paths, %d instructions, %d queries (%d solver calls, %.1fs), %d native samples, %.1fs" % (
        pid, tier, len(results), tot("paths"), tot("instructions"), tot("queries"), tot("solver_calls"), sum(d["solver_time"] for d in good), samples_ok, time.time() - t0))
    if os.environ.get("VT_VERBOSE"):
        for d in good:
            print("  %s%s paths=%d inst=%d q=%d calls=%d solver=%.1f wall=%.1f reached=%s %s" % (d["entry"], d["params"], d["paths"], d["instructions"], d["queries"], d["solver_calls"], d["solver_time"], d["wall"], dict(d["reached"]), d["stderr"]))
    seen = set()
    for f, v, path in known:
        if f["what"] not in seen:
            print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
            seen.add(f["what"])
    for p in partial[:6]:
        print("INCOMPLETE property=%s %s" % (pid, p[:1500]))
    said = set()
    for tag, v, path, e in confirmed:
        k = (e["name"], v["kind"], v["loc"], "" if v["kind"] == "memory" else v["msg"])
        if k in said:
            continue
        said.add(k)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  %s: %s: %s at %s" % (tag, v["kind"], v["msg"], v["loc"]))
    for p in problems[:12]:
        print("INCONCLUSIVE property=%s %s" % (pid, p[:1500]))
    if not os.environ.get("VT_KEEP") and not DEV:
        shutil.rmtree(bdir, ignore_errors=True)
    if confirmed:
        return 1
    # a partial exploration that met no violation is reported as such (INCOMPLETE, exhaustive: false)
    return 2 if problems or not tot("paths") else 0


if __name__ == "__main__":
    sys.exit(main())
