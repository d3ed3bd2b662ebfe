#!/usr/bin/env python3
"""Decide one property: encode /repo's current code (LLVM IR) with the symbolic engine, run the property's jobs, replay
counterexamples and sampled models against the natively compiled library, write the evidence file."""
import argparse, concurrent.futures as cf, glob, json, os, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "harness"))
T0 = time.time()
CLANG, LINK, OPT, NM = "clang++-18", "llvm-link-18", "opt-18", "llvm-nm-18"
CXX = ["-std=c++20", "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(HERE, "harness"), "-D_GLIBCXX_ASSERTIONS", "-w"]
PASSES = "internalize,globaldce,function(sroa,early-cse,simplifycfg,adce),globaldce"
UBSAN = ["-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,unreachable,return,bool,enum,array-bounds,vla-bound,pointer-overflow",
         "-fsanitize-trap=all"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def must(cmd, what):
    r = sh(cmd)
    if r.returncode:
        raise RuntimeError(what + " failed: " + " ".join(cmd) + "\n" + r.stderr[-3000:])
    return r.stdout


class Build:
    """IR and native builds of the library and the harnesses, made afresh for this run."""

    def __init__(self, d, libs, pool):
        self.d, self.pool = d, pool
        self.libs = [os.path.join(REPO, "lib/uri", x + ".cpp") for x in libs] if libs != "all" else sorted(glob.glob(os.path.join(REPO, "lib/uri/*.cpp")))
        self.futs = {}

    def once(self, key, fn):
        if key not in self.futs:
            self.futs[key] = self.pool.submit(fn)
        return self.futs[key]

    def bc(self, src, ub):
        out = os.path.join(self.d, os.path.basename(src)[:-4] + (".ub" if ub else "") + ".bc")

        def go():
            must([CLANG, "-O1", "-Xclang", "-disable-llvm-passes", "-include", os.path.join(HERE, "harness/prelude.hpp")] + CXX + (UBSAN if ub else []) +
                 ["-emit-llvm", "-c", src, "-o", out], "compiling " + src)
            return out
        return self.once(("bc", src, ub), go)

    def nat(self, src, san):
        out = os.path.join(self.d, os.path.basename(src)[:-4] + "." + san + ".o")
        fl = ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr,function", "-fno-sanitize-recover=all"] if san == "asan" else ["-O0", "-g1"]

        def go():
            must([CLANG] + fl + CXX + ["-c", src, "-o", out], "compiling " + src)
            return out
        return self.once(("nat", src, san), go)

    def start(self, harnesses, ubset):
        for h in harnesses:
            for ub in ubset.get(h, {False}):
                self.bc(os.path.join(HERE, "harness", h), ub)
            self.nat(os.path.join(HERE, "harness", h), "asan")
        self.bc(os.path.join(HERE, "harness/rt.cpp"), False)
        for ub in set().union(*ubset.values()):
            for l in self.libs:
                self.bc(l, ub)
        for l in self.libs:
            self.nat(l, "asan")
        self.nat(os.path.join(HERE, "native/vp_native.cpp"), "asan")

    def module(self, h, ub):
        src = os.path.join(HERE, "harness", h)
        base = os.path.join(self.d, h[:-4] + (".ub" if ub else ""))
        hb = self.bc(src, ub).result()
        lb = [self.bc(l, ub).result() for l in self.libs] + [self.bc(os.path.join(HERE, "harness/rt.cpp"), False).result()]
        must([LINK, hb] + lb + ["-o", base + ".l.bc"], "linking")
        ents = [l.split()[2] for l in must([NM, hb], "nm").splitlines() if " T h_" in l]
        must([OPT, "-passes=" + PASSES, "--internalize-public-api-list=" + ",".join(ents), base + ".l.bc", "-o", base + ".o.bc"], "opt")
        return base + ".o.bc"

    def native(self, h, san):
        key = ("exe", h, san)
        out = os.path.join(self.d, h[:-4] + "." + san)
        if os.path.exists(out):
            return out
        objs = [self.nat(os.path.join(HERE, "harness", h), san), self.nat(os.path.join(HERE, "native/vp_native.cpp"), san)] + [self.nat(l, san) for l in self.libs]
        objs = [o.result() for o in objs]
        must([CLANG] + (["-fsanitize=address,undefined"] if san == "asan" else []) + ["-rdynamic"] + objs + ["-o", out + ".tmp"], "linking natively")
        os.rename(out + ".tmp", out)
        return out


def case_text(entry, params, inputs):
    s = "case %s\n" % entry
    for k, v in params.items():
        s += "p %s %d\n" % (k, v)
    for k, v in inputs.items():
        s += "i %s %s\n" % (k, v or "-")
    return s + "end\n"


def run_native(exe, text, d, valgrind=False):
    fd, path = tempfile.mkstemp(dir=d)
    os.write(fd, text.encode()); os.close(fd)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77", UBSAN_OPTIONS="halt_on_error=1")
    cmd = [exe, path]
    if valgrind:
        cmd = ["valgrind", "-q", "--error-exitcode=77", "--trace-children=no"] + cmd
    try:
        r = sh(cmd, env=env, timeout=200)
    except subprocess.TimeoutExpired:
        return None, ""
    res = []
    for l in r.stdout.splitlines():
        q = l.split(" ", 3)
        if len(q) >= 3 and q[0].isdigit():
            res.append((q[1], "" if q[2] == "-" else q[2], q[3] if len(q) > 3 else ""))
    return res, r.stderr[-3000:]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", help="run only jobs whose name contains this")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    import jobs
    P = jobs.PROPS[a.property]
    tier = a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    budget = 840 if tier == "quick" else 6 * 3600
    js = [j for j in P["jobs"] if (tier == "thorough" or j["tier"] == "q") and (not a.only or a.only in j["name"])]
    if tier == "thorough":
        sup = {j["supersedes"] for j in js if j.get("supersedes")}
        js = [j for j in js if j["name"] not in sup]
    js.sort(key=lambda j: -j["cost"])
    if a.list:
        for j in js:
            print(j["name"], j["entry"], j["inputs"], j["params"])
        return 0
    os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    d = tempfile.mkdtemp(prefix=a.property + "-", dir=os.path.join(HERE, "build"))
    try:
        return decide(a, P, js, tier, seed, budget, d)
    finally:
        if not a.keep:
            shutil.rmtree(d, ignore_errors=True)
        else:
            print("kept", d)


def decide(a, P, js, tier, seed, budget, d):
    prop = a.property
    engine = os.path.join(HERE, "engine/engine")
    if not os.path.exists(engine):
        must(["make", "-s", "-C", os.path.join(HERE, "engine")], "building the engine")
    cpool = cf.ThreadPoolExecutor(a.j)
    lpool = cf.ThreadPoolExecutor(4)
    B = Build(d, P.get("libs", "all"), cpool)
    hs = sorted({j["harness"] for j in js})
    ubset = {h: {j["ub"] for j in js if j["harness"] == h} for h in hs}
    B.start(hs, ubset)
    mods = {(h, ub): lpool.submit(B.module, h, ub) for h in hs for ub in ubset[h]}
    mods = {k: f.result() for k, f in mods.items()}
    t_build = time.time() - T0
    stop = threading.Event()
    procs, lock = set(), threading.Lock()
    inj = B.native  # native builds are linked lazily

    def one(ix):
        j = js[ix]
        if stop.is_set():
            return ix, None
        left = budget - (time.time() - T0) - 15
        if left < 3:
            return ix, {"status": "timeout", "error": "no time left", "violations": [], "known": [], "covers": {}, "samples": [], "functions": [], "stats": {}, "coverage": "not-run"}
        out = os.path.join(d, "job%d.json" % ix)
        cmd = [engine, mods[(j["harness"], j["ub"])], "--entry", j["entry"], "--out", out, "--time", str(int(left)), "--samples", str(j["samples"]),
               "--solver-timeout", str(j["solver_ms"])] + j["flags"]
        for k, v in j["inputs"].items():
            cmd += ["--in", "%d=%s" % (k, v)]
        for k, v in j["params"].items():
            cmd += ["--param", "%d=%d" % (k, v)]
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
        with lock:
            procs.add(p)
        try:
            _, err = p.communicate(timeout=left + 20)
        except subprocess.TimeoutExpired:
            p.kill(); _, err = p.communicate()
        with lock:
            procs.discard(p)
        try:
            rep = json.load(open(out))
        except Exception as e:
            rep = {"status": "error", "error": "engine ended with %s: %s %s" % (p.returncode, err[-800:], e), "violations": [], "known": [], "covers": {}, "samples": [], "functions": [], "stats": {}, "coverage": "not-run"}
        return ix, rep

    reports, confirmed, unconfirmed, problems, validated, mismatches = {}, [], [], [], 0, []
    epool = cf.ThreadPoolExecutor(a.j)
    futs = [epool.submit(one, i) for i in range(len(js))]
    for f in cf.as_completed(futs):
        ix, rep = f.result()
        if rep is None:
            continue
        reports[ix] = rep
        j = js[ix]
        if os.environ.get("VP_TRACE"):
            st = rep["stats"]
            print("  %-34s %-10s %6.1fs paths %s viol %d cov %s rss %s %s" % (j["name"], rep["status"], st.get("wall_s", 0), st.get("paths"), len(rep["violations"]), rep["coverage"], st.get("maxrss_mb"), rep["error"][:300]), flush=True)
        # counterexamples: replay against the real code
        for v in rep["violations"]:
            txt = case_text(j["entry"], j["params"], v["inputs"])
            res, err = run_native(B.native(j["harness"], "asan"), txt, d)
            ok = bool(res) and res[0][0] in ("fail", "crash")
            if not ok and "uninitialised" in v["msg"]:
                vr, err = run_native(B.native(j["harness"], "plain"), txt, d, valgrind=True)
                ok = "uninitialised" in err
                res = vr if ok else res
            v["native"] = res[0] if res else None
            v["job"] = j["name"]; v["case"] = txt
            (confirmed if ok else unconfirmed).append((j, v, err))
            if ok:
                break
        if confirmed:
            stop.set()
            with lock:
                for p in list(procs):
                    p.kill()
            break
        if rep["status"] not in ("pass", "violation"):
            problems.append("%s: %s: %s" % (j["name"], rep["status"], rep["error"][:1500]))
        # sampled models: the encoding must predict what the real code does
        if rep["samples"]:
            txt = "".join(case_text(j["entry"], j["params"], s["inputs"]) for s in rep["samples"])
            res, err = run_native(B.native(j["harness"], "asan"), txt, d)
            for s, r in zip(rep["samples"], res or []):
                if r[0] == "ok" and r[1] == s["obs"]:
                    validated += 1
                elif not (r[0] in ("known", "assume")):
                    mismatches.append(("%s engine %s native %s inputs %s" % (j["name"], s["obs"], r, s["inputs"]))[:3000])
            if res is None or len(res) != len(rep["samples"]):
                mismatches.append("%s: native run incomplete: %s" % (j["name"], (err or "")[-300:]))
    for f in futs:
        f.cancel()
    epool.shutdown(wait=True)
    cpool.shutdown(wait=False, cancel_futures=True)
    covers = {}
    for ix, r in reports.items():
        for c, i in r["covers"].items():
            covers.setdefault(c, i)
    missing = [c for c in P.get("covers", []) if c not in covers] if not a.only else []
    known_file = os.path.join(HERE, "known_findings.json")
    listed = {(k["property"], k["id"]): k for k in json.load(open(known_file))["known"]} if os.path.exists(known_file) else {}
    knowns = {}
    for ix, r in reports.items():
        for k in r["known"]:
            knowns.setdefault(k["id"], (js[ix], k))
    for kid, (j, k) in sorted(knowns.items()):
        if (prop, kid) not in listed:
            confirmed.append((j, {"msg": "known-finding id not listed: " + kid, "where": "", "inputs": k["inputs"], "job": j["name"], "case": case_text(j["entry"], j["params"], k["inputs"]), "native": None}, ""))
    write_evidence(prop, P, tier, seed, js, reports, validated, covers, confirmed, knowns, listed, t_build)
    for kid in sorted(knowns):
        if (prop, kid) in listed:
            print("KNOWN-FINDING: property=%s %s" % (prop, listed[(prop, kid)]["what"]))
    if confirmed:
        j, v, err = confirmed[0]
        rp = os.path.join(HERE, "evidence", prop + ".replay.txt")
        with open(rp, "w") as f:
            f.write("# property %s, job %s, harness %s\n# %s\n# at %s\n# native: %s\n# rerun: python3 %s/replay.py %s\n%s" % (prop, j["name"], j["harness"], v["msg"], v["where"], v["native"], HERE, rp, v["case"]))
            for l in err.splitlines()[:40]:
                f.write("# " + l + "\n")
        print("violated: %s (job %s)" % (v["msg"], j["name"]))
        for k, h in v["inputs"].items():
            print("  input %s = %r" % (k, bytes.fromhex(h)))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    bad = []
    for j, v, err in unconfirmed:
        bad.append(("counterexample not reproduced natively (job %s): %s at %s native %s inputs %s" % (j["name"], v["msg"], v["where"], v["native"], v["inputs"]))[:3000])
    bad += problems
    bad += ["model not matched by the real code: " + m for m in mismatches[:5]]
    bad += ["cover not reached: " + m for m in missing]
    if bad:
        for b in bad:
            print("INCONCLUSIVE: " + b)
        return 2
    st = [r["stats"] for r in reports.values()]
    print("property %s held: %d jobs, %d paths, %d queries, %d models replayed, %.0f s" % (prop, len(reports), sum(s.get("paths", 0) for s in st), sum(s.get("queries", 0) for s in st), validated, time.time() - T0))
    return 0


def demangle(names):
    r = sh(["c++filt"], input="\n".join(names))
    return r.stdout.splitlines() if r.returncode == 0 else names


def write_evidence(prop, P, tier, seed, js, reports, validated, covers, confirmed, knowns, listed, t_build):
    S = lambda k: sum(r["stats"].get(k, 0) for r in reports.values())
    fns = sorted({f for r in reports.values() for f in r["functions"]})
    names = demangle(fns)
    own = sorted({n for n in names if ("uri::" in n or "icubaby" in n) and not n.startswith("std::")} - {""})
    jl = []
    for ix, r in sorted(reports.items()):
        j = js[ix]
        s = r["stats"]
        jl.append({"job": j["name"], "entry": j["entry"], "bound": j["bound"], "status": r["status"], "paths": s.get("paths", 0), "path_cubes": s.get("path_cubes", 0),
                   "exhaustive": r["coverage"], "queries": s.get("queries", 0), "solver_s": round(s.get("solver_s", 0), 2), "wall_s": round(s.get("wall_s", 0), 1)})
    samples = []
    for ix, r in sorted(reports.items()):
        for s in r["samples"][:2]:
            samples.append({"job": js[ix]["name"], "inputs": {k: repr(bytes.fromhex(h))[2:-1] for k, h in s["inputs"].items()}})
        if len(samples) > 30:
            break
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - T0, 1),
          "coverage": {
              "states": S("paths"), "transitions": S("instructions"), "traces_validated_against_impl": validated, "samples": samples,
              "exhaustive": all(r["coverage"] in ("solver-proved", "counted", "partition-by-construction") for r in reports.values()) and bool(reports),
              "state_meaning": "states = path classes that ended (each a disjunction of input cubes); transitions = IR instructions executed symbolically",
              "bounds": P["bounds"], "jobs": jl, "path_cubes": S("path_cubes"), "forks": S("forks"), "merges": S("merges"),
              "assertions_checked": S("asserts"), "assertions_by_solver": S("asserts_by_solver"), "assertions_by_propagation": S("asserts_by_propagation"),
              "solver": "z3 (QF_BV)", "queries": S("queries"), "sat": S("sat"), "unsat": S("unsat"), "unknown": S("unknown"), "solver_s": round(S("solver_s"), 2),
              "functions_encoded": len(fns), "repo_functions_encoded": own[:400], "reachability_witnesses": {c: {k: repr(bytes.fromhex(h))[2:-1] for k, h in i.items()} for c, i in covers.items()},
              "build_s": round(t_build, 1)},
          "assumptions": P.get("assumptions", []) + jobs_common(),
          "violations": len(confirmed)}
    ev["coverage"]["violation_details"] = [{"msg": v["msg"], "job": v["job"], "inputs": v["inputs"]} for j, v, e in confirmed]
    ev["coverage"]["known_findings_met"] = [listed[(prop, k)]["what"] for k in knowns if (prop, k) in listed]
    tmp = os.path.join(HERE, "evidence", prop + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))


def jobs_common():
    import jobs
    return jobs.COMMON_ASSUMPTIONS


if __name__ == "__main__":
    try:
        rc = main()
    except RuntimeError as e:
        print("ERROR: " + str(e))
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
