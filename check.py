#!/usr/bin/env python3
"""Decides one property: check.py ID [--tier quick|thorough]

Builds the harness from /repo's working tree to LLVM IR, has the symbolic
executor (engine/) decide every job of the property, replays what it reports
against the natively compiled crate, and writes evidence/ID.json.
exit: 0 held on everything explored, 1 violated, 2 no verdict."""
import fcntl, hashlib, json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import spec
from tmpl import T

B = os.path.join(V, "build")
EV = os.path.join(V, "evidence")


def die(msg):
    print("NO VERDICT:", msg)
    sys.exit(2)


def build(*what):
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run([os.path.join(V, "build.sh"), *what], capture_output=True, text=True)
    if r.returncode:
        die("build failed (%s)\n%s" % (" ".join(what), r.stderr[-4000:]))


REPLAY = {
    "dev": os.path.join(B, "nat/debug/replay"),
    "fast": os.path.join(B, "nat/fast/replay"),
    "asan": os.path.join(B, "asan/x86_64-unknown-linux-gnu/debug/replay"),
}


def replay(kind, job, inp, limit=10):
    """(reproduced, text)"""
    cmd = [REPLAY[kind], job["entry"], str(job["param"]), job["arg"], inp]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=limit,
                           env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
    except subprocess.TimeoutExpired:
        return True, "does not terminate (stopped after %d s)" % limit
    t = r.stdout.strip()
    if r.returncode in (0, 4):
        return False, t
    if r.returncode == 5:
        return False, r.stderr
    if r.returncode != 3:
        t += " exit %d %s" % (r.returncode, " ".join(x for x in r.stderr.splitlines() if "ERROR" in x or "SUMMARY" in x))
    return True, t


def known():
    """known-findings.txt: 'known: property=ID text=HEX note'; 'fixed:' lines suppress nothing"""
    o = []
    try:
        for l in open(os.path.join(V, "known-findings.txt")):
            m = re.match(r"known: property=(\S+) text=([0-9a-f]*) (.*)", l)
            if m:
                o.append(m.groups())
    except FileNotFoundError:
        pass
    return o


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    P = spec.PROPS[prop]
    jobs = spec.jobs(prop, tier)
    build("engine", "ir", "dev")
    run = os.path.join(B, "run", prop)
    os.makedirs(run, exist_ok=True)
    os.makedirs(EV, exist_ok=True)
    jf, of = os.path.join(run, "jobs.txt"), os.path.join(run, "out.json")
    with open(jf, "w") as f:
        for j in jobs:
            f.write("%s\t%s\t%d\t%s\n" % (j.name, j.entry, j.param, T(*j.t).hex()))
    if os.path.exists(of):
        os.unlink(of)
    cap = int(os.environ.get("YCHECK_TIME", 420 if tier == "quick" else 2700))
    opts = {"time": cap, "max_viol": 12, "per_sig": 3, "grace": 15, "steps": 40_000_000, "mem_gb": 12,
            "samples": 24 if tier == "quick" else 60}
    if tier == "thorough":
        opts["dump_every"] = 4001
    r = subprocess.run([os.path.join(V, "engine/target/release/symx"),
                        os.path.join(B, "ir/release/deps/yharness.ll"), jf, of] +
                       ["%s=%s" % kv for kv in opts.items()], capture_output=True, text=True)
    if r.returncode or not os.path.exists(of):
        die("engine: exit %d %s" % (r.returncode, r.stderr[-2000:]))
    o = json.load(open(of))

    # ---- counterexamples: only what the real crate reproduces counts
    kn = [k for k in known() if k[0] == prop]
    confirmed, unconfirmed, hits = [], [], {}
    seen = set()
    for v in o["violations"]:
        job = o["jobs"][v["job"]]
        sig = (v["job"], v["msg"][:160])
        if sig in seen:
            continue
        got = None
        for kind in ("dev", "fast", "asan"):
            if kind == "fast" and not os.environ.get("FAST_BUILT"):
                build("fast")
                os.environ["FAST_BUILT"] = "1"
            if kind == "asan":
                if v["kind"] not in ("memory", "unreachable"):
                    continue
                build("asan")
            ok, txt = replay(kind, job, v["input"])
            if ok:
                got = (kind, txt)
                break
        if not got:
            unconfirmed.append((job, v))
            continue
        text = show(job, v["input"])
        k = next((k for k in kn if k[1] == text.hex()), None)
        if k:
            hits[k] = True
            continue
        seen.add(sig)
        confirmed.append((job, v, got, text))

    # ---- the engine's verdict on ordinary paths, against the compiled crate
    sf = os.path.join(run, "samples.txt")
    with open(sf, "w") as f:
        for s in o["samples"]:
            j = o["jobs"][s["job"]]
            f.write("%s\t%d\t%s\t%s\n" % (j["entry"], j["param"], j["arg"], s["input"]))
    validated, bad = 0, []
    if not confirmed:
        try:
            r = subprocess.run([REPLAY["dev"], "-b", sf], capture_output=True, text=True, timeout=300)
            lines = r.stdout.splitlines()
        except subprocess.TimeoutExpired:
            lines = []
        for i, s in enumerate(o["samples"]):
            want = "held %d" % s["reach"]
            if i < len(lines) and lines[i] == want:
                validated += 1
            else:
                bad.append((s, want, lines[i] if i < len(lines) else "nothing"))

    # ---- a second solver's opinion on a sample of the queries (thorough)
    second = None
    if tier == "thorough" and not confirmed:
        second = crosscheck(o["dumps"], run)

    # ---- vacuity
    lacking = []
    for j, d in zip(jobs, o["jobs"]):
        miss = sorted(set(j.need) - set(d["reach"]))
        if miss or d["paths"] == 0:
            lacking.append((j.name, miss, d["paths"]))

    nq = o["queries"]
    paths = sum(d["paths"] for d in o["jobs"])
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": paths, "transitions": o["forks"],
            "traces_validated_against_impl": validated,
            "samples": [{"entry": o["jobs"][s["job"]]["entry"], "job": o["jobs"][s["job"]]["name"],
                         "input": show(o["jobs"][s["job"]], s["input"]).decode("utf-8", "replace")[:300],
                         "outcome_mask": s["reach"]} for s in pick(o["samples"], 12)],
            "explanation": "states = symbolic paths decided (each stands for every input satisfying its path "
                           "condition); transitions = feasible two-way branches on symbolic data; "
                           "traces = finished paths re-run against the natively compiled crate with the same outcome",
            "all_paths_within_bounds_decided": o["complete"],
            "paths_left": o["pending"], "paths_with_engine_errors": o["error_paths"],
            "engine_errors": o["errors"][:3],
            "discarded_by_assumptions": o["discarded"],
            "solver": o["solver"], "queries": nq, "sat": o["sat"], "unsat": o["unsat"], "unknown": o["unknown"],
            "queries_answered_from_cache": o["cache_hits"], "solver_s": o["solver_s"],
            "second_solver": second,
            "instructions_executed": o["instructions"], "longest_path_instructions": o["max_path_instructions"],
            "max_symbolic_bytes": o["max_symbolic_bytes"],
            "functions_in_module": o["functions_defined"],
            "functions_encoded": [f for f in o["functions"] if "yary" in f or "yharness" in f],
            "functions_encoded_other": len([f for f in o["functions"] if "yary" not in f and "yharness" not in f]),
            "ir_sha256": sha(os.path.join(B, "ir/release/deps/yharness.ll")),
            "bounds": [{"job": j.name, "entry": j.entry, "param": j.param, "inputs": j.bound(),
                        "paths": d["paths"], "reach": d["reach"]} for j, d in zip(jobs, o["jobs"])],
            "outside": P.get("outside", ""),
            "known_findings_hit": len(hits),
        },
        "assumptions": spec.ASSUMPTIONS + P.get("assume", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(confirmed),
    }
    with open(os.path.join(EV, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    print("%s %s: %d paths, %d instructions, %d queries (%.1f s solver), %d native traces, complete=%s, %.1f s" % (
        prop, tier, paths, o["instructions"], nq, o["solver_s"], validated, o["complete"], time.time() - t0))
    for k in kn:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    for job, v in unconfirmed:
        print("not reproduced natively: job %s %s: %s input %s" % (job["name"], v["kind"], v["msg"], v["input"]))
    if confirmed:
        for n, (job, v, (kind, txt), text) in enumerate(confirmed[:6]):
            rp = os.path.join(EV, "%s.replay-%d.sh" % (prop, n))
            with open(rp, "w") as f:
                f.write("#!/bin/sh\n# property %s: %s\n# job %s, text built: %r\n%s/build.sh %s && exec %s %s %d %s '%s'\n" % (
                    prop, v["msg"].replace("\n", " "), job["name"], text[:200], V, kind, REPLAY[kind], job["entry"], job["param"], job["arg"] or "''", v["input"]))
            os.chmod(rp, 0o755)
            print("  %s [%s] text %r: %s" % (job["name"], kind, text[:200], txt[-300:]))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        sys.exit(1)
    if unconfirmed:
        die("the engine reports violations the compiled crate does not show")
    if bad:
        for b in bad[:5]:
            print("  sample", b)
        die("engine and compiled crate disagree on %d finished paths" % len(bad))
    if second and second["disagree"]:
        die("the second solver disagrees")
    if o["complete"] and lacking:
        die("unreached witnesses: %s" % lacking)
    if not o["complete"]:
        print("INCOMPLETE: %d paths pending, %d engine errors %s" % (o["pending"], o["error_paths"], o["errors"][:1]))
        if paths == 0 or o["error_paths"] > paths:
            die("too little explored")
    sys.exit(0)


def pick(xs, n):
    return xs[:: max(1, len(xs) // n)][:n]


def sha(p):
    return hashlib.sha256(open(p, "rb").read()).hexdigest()


def show(job, inp):
    """the text the template builds from the recorded assignment"""
    r = subprocess.run([REPLAY["dev"], "-t", job["entry"], str(job["param"]), job["arg"], inp], capture_output=True)
    return r.stdout


def crosscheck(dumps, run):
    agree = dis = unk = 0
    t0 = time.time()
    for d in dumps[:400]:
        p = os.path.join(run, "q.smt2")
        open(p, "w").write(d["smt2"] if "check-sat" in d["smt2"] else d["smt2"] + "\n(check-sat)\n")
        r = subprocess.run(["cvc5", "--tlimit=20000", p], capture_output=True, text=True)
        a = r.stdout.strip().split("\n")[-1]
        if a not in ("sat", "unsat"):
            unk += 1
        elif (a == "sat") == d["sat"]:
            agree += 1
        else:
            dis += 1
    return {"solver": "cvc5", "queries": agree + dis + unk, "agree": agree, "disagree": dis, "unknown": unk,
            "s": round(time.time() - t0, 1)}


if __name__ == "__main__":
    main()
