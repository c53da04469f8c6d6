#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property: compiles /repo's current source (with the harnesses) to LLVM IR, executes the
harnesses of the property symbolically, lets the solver decide every assertion, replays every
counterexample against the natively compiled code, and writes evidence/<PROPERTY>.json.

exit 0: held on everything explored; 1: violated (VIOLATION line); 2: no answer.
"""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
B = os.path.join(V, "build")
sys.path.insert(0, V)
from plan import PLAN, BOUNDS, ASSUME  # noqa: E402

ENV = dict(os.environ)
ENV["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + ENV.get("PATH", "")
ENV.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
ENV.pop("RUSTFLAGS", None)
ENV.pop("CARGO_TARGET_DIR", None)


def die(msg):
    print("ERROR:", msg)
    sys.exit(2)


def sh(cmd, cwd, what, env=None, timeout=800):
    e = dict(ENV)
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode != 0:
        sys.stdout.write(r.stdout.decode(errors="replace")[-4000:])
        die(what + " failed")
    return r.stdout.decode(errors="replace")


def tree_hash(dirs, exts=(".rs", ".toml", ".lock", ".py", ".sh")):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in sorted(os.walk(d)):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "build"))
            for f in sorted(fs):
                if f.endswith(exts):
                    p = os.path.join(root, f)
                    h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


def stale(stamp, key):
    try:
        return open(stamp).read() != key
    except OSError:
        return True


def forget(target):
    """cargo goes by mtime; make it rebuild what is derived from /repo and from the harnesses"""
    for d in glob.glob(os.path.join(target, "*", ".fingerprint", "*")):
        n = os.path.basename(d)
        if n.startswith(("gc-", "gc_", "hcore", "hcli", "hnative", "hbins", "bin-", "bin_")):
            shutil.rmtree(d, ignore_errors=True)


def build_engine():
    t = os.path.join(B, "engine")
    exe = os.path.join(t, "release", "symx")
    key = tree_hash([os.path.join(V, "engine")])
    st = os.path.join(t, "stamp")
    if stale(st, key) or not os.path.exists(exe):
        sh(["cargo", "build", "--release", "--offline", "-q"], os.path.join(V, "engine"), "building the engine", {"CARGO_TARGET_DIR": t})
        open(st, "w").write(key)
    return exe


SRC = [os.path.join(REPO, "core"), os.path.join(REPO, "command")]


def build_ir(crate):
    t = os.path.join(B, "sym-" + crate)
    os.makedirs(t, exist_ok=True)
    d = os.path.join(V, "harness", crate)
    key = tree_hash(SRC + [os.path.join(V, "harness"), os.path.join(V, "model")])
    st = os.path.join(t, "stamp")
    ll = os.path.join(t, "release", "deps", "h%s.ll" % crate)
    if crate == "cli":
        import gencli
        gencli.generate(V, REPO)
    if stale(st, key) or not os.path.exists(ll):
        forget(t)
        for f in glob.glob(os.path.join(t, "release", "deps", "h%s*.ll" % crate)):
            os.unlink(f)
        sh(["cargo", "rustc", "--release", "--offline", "-q", "--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "-C", "linker=/bin/true"], d, "compiling the harnesses to LLVM IR", {"CARGO_TARGET_DIR": t, "RUSTFLAGS": "--cap-lints allow"})
        if not os.path.exists(ll):
            die("no IR produced")
        open(st, "w").write(key)
    return ll


def build_native(crate):
    name = {"core": "native", "cli": "native-cli"}[crate]
    t = os.path.join(B, name)
    os.makedirs(t, exist_ok=True)
    key = tree_hash(SRC + [os.path.join(V, "harness"), os.path.join(V, "model")])
    st = os.path.join(t, "stamp")
    exe = os.path.join(t, "release", "replay")
    if crate == "cli":
        import gencli
        gencli.generate(V, REPO)
    if stale(st, key) or not os.path.exists(exe):
        forget(t)
        if crate == "cli":
            forget(os.path.join(t, "bins"))
            sh(["cargo", "build", "--offline", "-q", "--bins"], os.path.join(B, "gen", "bins"), "building the command-line tools", {"CARGO_TARGET_DIR": os.path.join(t, "bins"), "RUSTFLAGS": "--cap-lints allow"})
            sh(["gcc", "-O1", "-shared", "-fPIC", "-w", "-o", os.path.join(t, "shim.so"), os.path.join(V, "harness", name, "shim.c"), "-ldl"], V, "building the replay shim")
        sh(["cargo", "build", "--release", "--offline", "-q"], os.path.join(V, "harness", name), "building the native replayer", {"CARGO_TARGET_DIR": t, "RUSTFLAGS": "--cap-lints allow"})
        open(st, "w").write(key)
    return exe


def run_sym(exe, ll, h, deadline, dump=None):
    out = os.path.join(B, "out", h + ".json")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    if os.path.exists(out):
        os.unlink(out)
    cmd = [exe, ll, "--entry", h, "--out", out, "--deadline", str(deadline), "--max-insts", "400000000" if h.endswith(("_wide", "_huge")) else "30000000", "--max-viol", "24", "--jobs", str(os.cpu_count() or 8)]
    if dump:
        cmd += ["--dump", dump]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=deadline + 60)
    except subprocess.TimeoutExpired:
        return None
    if not os.path.exists(out):
        sys.stdout.write(r.stdout.decode(errors="replace")[-2000:])
        die("engine failed on " + h)
    d = json.load(open(out))
    d["engine_msgs"] = r.stdout.decode(errors="replace")[-500:]
    return d


def case_text(c):
    """inputs, outcomes of file system calls (iN:KIND), order of the calls of two processes (s0110)"""
    if isinstance(c, list):
        c = {"inputs": c}
    t = [str(x) for x in c["inputs"]]
    t += ["i%d:%d" % tuple(x) for x in c.get("io") or []]
    if c.get("sched"):
        t.append("s" + "".join(map(str, c["sched"])))
    return " ".join(t)


def replay(exe, h, cases, repeat, ms, timeout):
    """run recorded inputs natively; returns one result per case (None: not reached)"""
    res = []
    scratch = tempfile.mkdtemp(prefix="gcreplay")
    env = dict(os.environ)
    env["TMPDIR"] = scratch
    env["RUST_BACKTRACE"] = "0"
    env["GC_BINS"] = os.path.join(os.path.dirname(exe), "..", "bins", "debug")
    env["GC_SHIM"] = os.path.join(os.path.dirname(exe), "..", "shim.so")
    i = 0
    try:
        while i < len(cases):
            text = "".join("%d %d %s\n" % (repeat, ms, case_text(c)) for c in cases[i:])
            try:
                r = subprocess.run([exe, h], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=scratch, env=env)
                out, rc = r.stdout, r.returncode
            except subprocess.TimeoutExpired as e:
                out, rc = e.stdout or b"", "timeout"
            got = [json.loads(x) for x in out.decode(errors="replace").splitlines() if x.startswith("{")]
            res += got
            i += len(got)
            if i < len(cases):
                if rc == "timeout":
                    res.append({"result": "hang", "msg": "no result within %d s" % timeout, "notes": []})
                elif rc == 3:
                    die("replayer does not know " + h)
                else:
                    res.append({"result": "abort", "msg": "process ended with %s: %s" % (rc, r.stderr.decode(errors="replace")[-300:]), "notes": []})
                i += 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return res


TIMEOUT_BITS = 1 | 2 | 8  # out of time: overall, in a solver query, worker ended by the supervisor


def known_cases(pid):
    """the findings that known_findings.txt lists for the property: concrete cases, replayed natively"""
    out = []
    for l in open(os.path.join(V, "known_findings.txt")):
        if l.startswith("known: property=%s " % pid):
            head, what = l.strip().split(" :: ", 1)
            d = dict(x.split("=", 1) for x in head.split()[1:])
            out.append(dict(crate=d["crate"], harness=d["harness"], inputs=[int(x) for x in d["inputs"].split(",") if x], what=what, timeout=int(d.get("timeout", 15))))
    return out


BAD = ("assert", "panic", "hang", "abort")


def main():
    pid = sys.argv[1]
    if pid == "--setup":
        os.makedirs(B, exist_ok=True)
        build_engine()
        for c in sorted({e["crate"] for l in PLAN.values() for e in l}):
            build_ir(c)
            build_native(c)
        return
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    budget = 780 if tier == "quick" else 3 * 3600
    os.makedirs(B, exist_ok=True)
    lock = open(os.path.join(B, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    plan = [e for e in PLAN[pid] if tier == "thorough" or e["tier"] == "q"]
    exe = build_engine()
    crates = sorted({e["crate"] for e in plan})
    lls = {c: build_ir(c) for c in crates}
    nat = {c: build_native(c) for c in crates}
    t_build = time.time() - t0

    tot = dict(states=0, transitions=0, queries=0, eq=0, solver=0.0, asserts=0, asserts_symbolic=0, insts=0)
    runs, samples, funcs = [], [], set()
    validated = 0
    violations, unconfirmed, problems, skipped = [], [], [], []
    unexplored = []
    for e in plan:
        h = e["h"]
        left = budget - (time.time() - t0)
        if left < 20:
            print("NOTE: no time left for %s (reported as not exhaustive)" % h)
            skipped.append(h)
            continue
        d = run_sym(exe, lls[e["crate"]], h, min(e["dl"], left))
        if d is None:
            print("NOTE: %s was stopped: the engine gave no result in time (reported as not exhaustive)" % h)
            skipped.append(h)
            continue
        tot["states"] += d["paths"]
        tot["transitions"] += d["forks"]
        tot["queries"] += d["z3_queries"]
        tot["eq"] += d["eq_queries"]
        tot["solver"] += d["solver_s"]
        tot["asserts"] += d["asserts"]
        tot["asserts_symbolic"] += d["asserts_symbolic"]
        tot["insts"] += d["insts"]
        funcs |= {f["name"] for f in d["functions"]}
        runs.append({"harness": h, "bounds": BOUNDS.get(h, e["b"]), "complete": d["complete"], "paths": d["paths"], "paths_cut_by_assumptions": d["assumed"], "forks": d["forks"], "solver_queries": d["z3_queries"], "queries_over_integers": d.get("int_queries", 0), "equality_queries": d["eq_queries"], "unsat": d["z3_unsat"], "sat": d["z3_sat"], "unknown": d["unknown"], "solver_s": d["solver_s"], "assertions": d["asserts"], "assertions_decided_by_solver": d["asserts_symbolic"], "instructions": d["insts"], "wall_s": d["wall_s"]})
        print("%s: %s paths=%d queries=%d+%d asserts=%d viol=%d %.1fs" % (h, "complete" if d["complete"] else "INCOMPLETE(%d)" % d["incomplete_bits"], d["paths"], d["z3_queries"], d["eq_queries"], d["asserts"], d["violation_count"], d["wall_s"]))
        sys.stdout.flush()
        if d["violation_count"]:
            # replay: a few per distinct message
            seen, cand = {}, []
            for v in d["violations"]:
                k = (v["kind"], v["msg"].split("\n")[0])
                if v["kind"] == "engine":
                    # something the executor has no semantics for: the path was not explored
                    if h not in unexplored:
                        unexplored.append(h)
                        print("NOTE: %s has paths that could not be executed (reported as not exhaustive): %s" % (h, v["msg"][:300]))
                    continue
                seen[k] = seen.get(k, 0) + 1
                if seen[k] <= 8:
                    cand.append(v)
            cand.sort(key=lambda v: v["kind"] == "hang")
            conf = None
            t1 = time.time()
            for v in cand:
                if time.time() - t1 > 150:
                    break
                r = replay(nat[e["crate"]], h, [v], 4000, 4000, 15)[0]
                if r["result"] in BAD:
                    conf = (v, r)
                    break
            if conf:
                v, r = conf
                rp = os.path.join(V, "evidence", "replay_%s_%s.json" % (pid, h))
                os.makedirs(os.path.dirname(rp), exist_ok=True)
                json.dump({"property": pid, "harness": h, "inputs": v["inputs"], "io": v.get("io"), "sched": v.get("sched"), "symbolic": {"kind": v["kind"], "message": v["msg"], "location": v["loc"]}, "native": r, "how": "echo '4000 4000 %s' | %s %s" % (case_text(v), nat[e["crate"]], h)}, open(rp, "w"), indent=1)
                violations.append((h, v, r, rp))
                break
            elif cand and all(v["kind"] == "hang" for v in cand):
                print("NOTE: %s has paths longer than the instruction budget that end when run natively (reported as not exhaustive)" % h)
                unexplored.append(h)
            elif cand:
                unconfirmed.append((h, cand[0]))
                problems.append("%s: counterexample not reproduced natively: %s %s inputs=%s" % (h, cand[0]["kind"], cand[0]["msg"][:300], cand[0]["inputs"]))
            continue
        if not d["complete"]:
            # out of time: what was explored held; anything else is a failure of the engine
            if d["incomplete_bits"] & ~TIMEOUT_BITS or d["incomplete_bits"] == 0 or d["paths"] == 0:
                problems.append("%s: incomplete (bits %d, unknown %d) %s" % (h, d["incomplete_bits"], d["unknown"], d["engine_msgs"]))
            else:
                print("NOTE: %s did not finish within its time; explored part held (reported as not exhaustive)" % h)
        elif e["cover"] & ~d["cover"]:
            problems.append("%s: coverage points missed (want %d, got %d)" % (h, e["cover"], d["cover"]))
        # path samples against the implementation
        smp = d["samples"]
        if len(smp) > 64:
            step = len(smp) / 64.0
            smp = [smp[(int(i * step) + seed) % len(smp)] for i in range(64)]
        res = replay(nat[e["crate"]], h, smp, 2 if e["crate"] == "core" else 1, 2000, 120)
        for s, r in zip(smp, res):
            if r["result"] in BAD:
                # the real code fails on an input the symbolic run accepted
                rp = os.path.join(V, "evidence", "replay_%s_%s.json" % (pid, h))
                os.makedirs(os.path.dirname(rp), exist_ok=True)
                json.dump({"property": pid, "harness": h, "inputs": s["inputs"], "native": r}, open(rp, "w"), indent=1)
                violations.append((h, {"kind": "sample", "msg": "an input of an explored path fails when run natively", "loc": ""}, r, rp))
            elif r["result"] != "ok" or r.get("underrun") or r.get("unread") or (s["notes"] and [list(x) for x in r["notes"]] != [list(x) for x in s["notes"]]):
                problems.append("%s: path sample diverges natively: %s" % (h, json.dumps([s, r])[:600]))
            else:
                validated += 1
        if smp:
            samples.append({"harness": h, "inputs": smp[len(smp) // 2]["inputs"], "observed": smp[len(smp) // 2]["notes"][:20]})

    # known findings: concrete cases listed in known_findings.json
    known = []
    for k in known_cases(pid):
        c = k["crate"]
        if c not in nat:
            nat[c] = build_native(c)
        r = replay(nat[c], k["harness"], [k["inputs"]], k.get("repeat", 200), 3000, k.get("timeout", 15))[0]
        if r["result"] in BAD:
            known.append(k["what"])
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if tot["states"] == 0 and not violations:
        problems.append("nothing was explored")
    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["states"], "transitions": tot["transitions"], "traces_validated_against_impl": validated,
            "samples": samples[:12],
            "exhaustive": all(r["complete"] for r in runs) and bool(runs) and not skipped and not unexplored,
            "explanation": "states: symbolic paths run to their end (each covers every input satisfying its path condition); transitions: solver-decided forks. Every assertion on every path was decided for all values of the symbolic inputs within the bounds.",
            "harnesses": runs,
            "functions_encoded": sorted(funcs),
            "solver": {"name": "Z3 4.8.12 (libz3) over bit-vectors or linear integers, plus a complete union-find procedure for pure equality queries", "queries": tot["queries"], "equality_queries": tot["eq"], "solver_s": round(tot["solver"], 3)},
            "assertions_checked": tot["asserts"], "assertions_decided_by_solver": tot["asserts_symbolic"], "llvm_instructions_executed": tot["insts"],
            "build_s": round(t_build, 1), "problems": problems, "not_run": skipped, "not_fully_executed": unexplored, "known_findings": known,
        },
        "assumptions": ASSUME, "wall_s": round(wall, 2), "violations": len(violations),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    if violations:
        for h, v, r, rp in violations:
            print("counterexample (%s): %s: %s | native: %s %s" % (h, v["kind"], v["msg"].split("\n")[0][:300], r["result"], r["msg"][:300]))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    if problems:
        for p in problems:
            print("ERROR:", p)
        sys.exit(2)
    print("OK property=%s tier=%s paths=%d queries=%d validated=%d wall=%.1fs" % (pid, tier, tot["states"], tot["queries"] + tot["eq"], validated, wall))
    sys.exit(0)


if __name__ == "__main__":
    main()
