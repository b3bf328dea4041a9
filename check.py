#!/usr/bin/env python3
"""Decide one property: regenerate the encoding from /repo's working tree, execute it symbolically,
replay counterexamples natively, write the evidence.

  check.py ID [--tier quick|thorough]

exit 0: the property held on every path within the bounds
exit 1: VIOLATION, confirmed by a native replay
exit 2: no answer (build failure, bound or solver limit hit, engine and native build disagree)
"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(VERIF, ".build")
EVID = os.path.join(VERIF, "evidence")
sys.path.insert(0, VERIF)
from props import PROPS, ASSUMPTIONS  # noqa: E402

ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR"):
    ENV.pop(k, None)
RUSTC = ["-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "-C", "relocation-model=static"]


def log(*a):
    print("[%s]" % time.strftime("%H:%M:%S"), *a, flush=True)


def die(msg):
    print("NO-ANSWER: " + msg, flush=True)
    sys.exit(2)


def run(cmd, cwd, target, timeout=800):
    env = dict(ENV, CARGO_TARGET_DIR=target)
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=timeout)
    if p.returncode != 0:
        print(p.stdout[-6000:])
        die("build failed: " + " ".join(cmd))


def build_irx():
    run(["cargo", "build", "--release", "--offline", "-q"], VERIF + "/irx", BUILD + "/irx")
    return BUILD + "/irx/release/irx"


def build_ir(feats):
    tgt = BUILD + "/h-" + "-".join(feats)
    # the module is always produced anew from the sources
    out = tgt + "/ir/deps/svh.ll"
    if os.path.exists(out):
        os.remove(out)
    for d in ("ir", ):
        fp = os.path.join(tgt, d, ".fingerprint")
        if os.path.isdir(fp):
            for n in os.listdir(fp):
                if n.startswith("svh-"):
                    shutil.rmtree(os.path.join(fp, n))
    run(["cargo", "rustc", "--offline", "-q", "--lib", "--crate-type", "cdylib", "--profile", "ir", "--features",
         ",".join(feats), "--", "--emit=llvm-ir", "-C", "linker=/bin/true"] + RUSTC, VERIF + "/harness", tgt)
    if not os.path.exists(out):
        die("no IR was produced")
    return out


def build_replay(feats, profile):
    tgt = BUILD + "/h-" + "-".join(feats)
    run(["cargo", "build", "--offline", "-q", "--bin", "replay", "--features", ",".join(["native"] + feats)] +
        (["--release"] if profile == "release" else []), VERIF + "/harness", tgt)
    return tgt + ("/release/replay" if profile == "release" else "/debug/replay")


def replay(binary, entry, hexin, timeout=60):
    try:
        p = subprocess.run([binary, entry, hexin], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out = p.stdout.decode("utf-8", "replace")
        if p.returncode == 0:
            return "holds", out
        if p.returncode == 77:
            return "outside", out
        return "fails", "exit %d: %s" % (p.returncode, out[-1500:])
    except subprocess.TimeoutExpired:
        return "fails", "does not terminate within %d s" % timeout


def memcheck(binary, entry, hexin):
    if not shutil.which("valgrind"):
        return "holds", ""
    try:
        p = subprocess.run(["valgrind", "-q", "--error-exitcode=99", binary, entry, hexin],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
        if p.returncode == 99:
            return "fails", "valgrind: " + p.stdout.decode("utf-8", "replace")[:1500]
    except subprocess.TimeoutExpired:
        pass
    return "holds", ""


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--entry", action="append")
    a = ap.parse_args()
    t0 = time.time()
    if a.setup:
        os.makedirs(BUILD, exist_ok=True)
        build_irx()
        return
    prop = PROPS[a.id]
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    feats = prop["features"]
    entries = list(prop["quick"])
    if a.tier == "thorough":
        entries += prop.get("thorough", [])
    if a.entry:
        entries = a.entry
    log("building the engine and the IR of /repo (features: %s)" % ",".join(feats))
    irx = build_irx()
    ll = build_ir(feats)
    build_s = time.time() - t0
    budget = 700 if a.tier == "quick" else 6 * 3600
    results, bad, problems = [], [], []
    dump = BUILD + "/smt-" + a.id
    shutil.rmtree(dump, ignore_errors=True)
    for e in entries:
        left = budget - (time.time() - t0)
        if left < 5:
            problems.append("%s: not started, the time of the tier is used up" % e)
            continue
        cmd = [irx, "--ll", ll, "--entry", e, "--threads", str(os.cpu_count() or 8), "--timeout", "%d" % left,
               "--query-timeout-ms", "60000" if a.tier == "quick" else "600000", "--max-bad", "3",
               "--sample-every", str(prop.get("sample_every", {}).get(e, 97))]
        if a.tier == "thorough":
            os.makedirs(dump, exist_ok=True)
            cmd += ["--dump", dump]
        if e in prop.get("leaks", ()):
            cmd += ["--leaks"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode != 0:
            print(p.stderr[-3000:])
            problems.append("%s: the engine failed (exit %d)" % (e, p.returncode))
            continue
        r = json.loads(p.stdout)[0]
        results.append(r)
        log("%s: %d paths, %d queries (%d sat, %d unsat), solver %.1f s, wall %.1f s%s" %
            (e, r["paths"], r["queries"], r["sat"], r["unsat"], r["solver_s"], r["wall_s"],
             ", %d violating" % len(r["bad"]) if r["bad"] else ""))
        for b in r["bad"]:
            bad.append((e, b))
        if r["bad"]:
            if len(bad) >= 3:
                break
            continue
        if r["timed_out"] or r["left"]:
            problems.append("%s: time limit, %d paths left" % (e, r["left"]))
        if r["solver_unknown"]:
            problems.append("%s: the solver gave up on %d queries" % (e, r["solver_unknown"]))
        if r["unknown"]:
            problems.append("%s: not encoded: %s" % (e, json.dumps(r["unknown"])[:600]))
        miss = set(prop.get("reach", {}).get(e, [1])) - set(r["reached"])
        if miss:
            problems.append("%s: vacuous, never reached %s" % (e, sorted(miss)))

    # counterexamples: only what the real code reproduces counts
    violations = []
    if bad:
        bins = [("release", build_replay(feats, "release")), ("dev", build_replay(feats, "dev"))]
        rdir = os.path.join(EVID, "replay")
        os.makedirs(rdir, exist_ok=True)
        for i, (e, b) in enumerate(bad):
            if b["input"] is None:
                problems.append("%s: %s: no model" % (e, b["msg"]))
                continue
            for name, binary in bins:
                st, out = replay(binary, e, b["input"])
                if st == "holds":
                    st, out = memcheck(binary, e, b["input"])
                if st == "fails":
                    path = os.path.join(rdir, "%s-%d.json" % (a.id, i))
                    with open(path, "w") as f:
                        json.dump({"property": a.id, "entry": e, "message": b["msg"], "input": b["input"],
                                   "engine_stack": b["stack"], "profile": name, "native": out,
                                   "replay_cmd": "%s %s %s" % (binary, e, b["input"])}, f, indent=1)
                    violations.append((e, b, path, out))
                    break
            else:
                problems.append("%s: the counterexample %s (%s) does not reproduce natively" %
                                (e, b["input"], b["msg"]))

    # sampled paths: the engine and the native build must observe the same outputs
    validated = mismatched = 0
    samples = [(r["entry"], s[0], s[1]) for r in results for s in r["samples"]]
    cap = 2000 if a.tier == "quick" else 50000
    if samples and not violations:
        samples = samples[:: max(1, len(samples) // cap)]
        binary = build_replay(feats, "dev")
        path = BUILD + "/samples-%s.txt" % a.id
        with open(path, "w") as f:
            for s in samples:
                f.write("%s %s %s\n" % s)
        p = subprocess.run([binary, "--samples", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        m = re.search(r"validated (\d+) of (\d+)", p.stdout)
        if m:
            validated, mismatched = int(m.group(1)), int(m.group(2)) - int(m.group(1))
        if p.returncode != 0:
            print(p.stdout[-3000:])
            problems.append("engine and native build disagree on %d sampled paths" % mismatched)

    # a second solver on a sample of the queries
    cross = cross_check(dump) if a.tier == "thorough" else None
    if cross and cross["disagree"]:
        problems.append("solvers disagree on %d queries" % cross["disagree"])

    for f in known(a.id):
        if f.get("status") == "known":
            print("KNOWN-FINDING: property=%s %s" % (a.id, f["what"]))

    evidence(a, prop, results, violations, validated, samples, cross, problems, time.time() - t0, build_s)
    for e, b, path, out in violations:
        print("VIOLATION property=%s replay=%s" % (a.id, path))
        print("  %s: %s; native: %s" % (e, b["msg"], out.strip().replace("\n", " | ")[:300]))
    if violations:
        sys.exit(1)
    if problems:
        for p in problems:
            print("  " + p)
        die("%d problem(s)" % len(problems))
    log("%s holds on %d paths (%.0f s)" % (a.id, sum(r["paths"] for r in results), time.time() - t0))


def known(pid):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)) if f["property"] == pid]


def cross_check(dump):
    """Re-decide dumped queries with other solvers."""
    files = sorted(os.listdir(dump)) if os.path.isdir(dump) else []
    res = {"queries": 0, "agree": 0, "disagree": 0, "undecided": 0, "solvers": []}
    solvers = [s for s in (["cvc5", "--tlimit=20000"], ["z3-new", "-T:20"]) if shutil.which(s[0])]
    res["solvers"] = [s[0] for s in solvers]
    t0 = time.time()
    for f in files[:400]:
        if time.time() - t0 > 900:
            break
        path = os.path.join(dump, f)
        m = re.search(r"expect: (sat|unsat)", open(path).read())
        if not m:
            continue
        for s in solvers:
            res["queries"] += 1
            try:
                out = subprocess.run(s + [path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                     timeout=40).stdout
            except subprocess.TimeoutExpired:
                out = ""
            v = out.strip().splitlines()
            if "(error" in out or not v or v[0] not in ("sat", "unsat"):
                res["undecided"] += 1
            elif v[0] == m.group(1):
                res["agree"] += 1
            else:
                res["disagree"] += 1
    return res


def evidence(a, prop, results, violations, validated, samples, cross, problems, wall, build_s):
    funcs = {}
    for r in results:
        for f, ns in r["functions"].items():
            if "/repo/" in f or f.startswith(("src/", "json/", "buffer/", "fmt/", "flatten/", "nested/", "serde/",
                                              "dynamic/", "ref/", "derive/", "derive_macros/")):
                funcs.setdefault(f.replace("/repo/", ""), set()).update(ns)
    nfuncs = sum(len(v) for v in funcs.values())
    tot = lambda k: sum(r[k] for r in results)  # noqa: E731
    cov = {
        "states": tot("paths"),
        "transitions": tot("forks"),
        "traces_validated_against_impl": validated,
        "samples": [{"entry": e, "input": i, "observed": o[:200]} for e, i, o in samples[:3]] or ["none"],
        "explanation": "bounded symbolic execution of the LLVM IR compiled from /repo on this run: states = "
                       "feasible symbolic paths run to completion, transitions = symbolic branches taken both "
                       "ways, traces_validated_against_impl = sampled paths whose solver model was run through a "
                       "native build and gave the same outputs",
        "bounds": prop["bounds"],
        "functions_encoded": nfuncs,
        "functions_by_file": {f: len(v) for f, v in sorted(funcs.items())},
        "queries": tot("queries"),
        "queries_sat": tot("sat"),
        "queries_unsat": tot("unsat"),
        "queries_cached": tot("cached"),
        "queries_unknown": tot("solver_unknown"),
        "solver_s": round(tot("solver_s"), 2),
        "max_query_s": max([r["max_query_s"] for r in results] or [0]),
        "instructions": tot("steps"),
        "paths_cut_by_assumptions": tot("assumed"),
        "build_s": round(build_s, 1),
        "entries": {r["entry"]: {k: r[k] for k in ("paths", "queries", "sat", "unsat", "solver_s", "wall_s",
                                                     "input_bytes", "max_steps", "reached", "timed_out", "left",
                                                     "unknown")} for r in results},
        "exhaustive": not problems,
    }
    if cross:
        cov["second_solver"] = cross
    if problems:
        cov["problems"] = problems
    ev = {
        "property": a.id,
        "tier": a.tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": cov,
        "assumptions": ASSUMPTIONS + prop.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    tmp = os.path.join(EVID, a.id + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, a.id + ".json"))


if __name__ == "__main__":
    main()
