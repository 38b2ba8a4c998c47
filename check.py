#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] : decide one property.

Compiles the harness of the property together with /repo's current sources to
LLVM IR, runs the symbolic execution engine over every harness entry, replays
every counterexample natively, and writes evidence/<property>.json.
"""
import concurrent.futures as cf, fcntl, hashlib, json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, os.path.join(V, "tools"))
from plan import PLAN  # noqa: E402

T = os.path.join(V, "target")
H = os.path.join(V, "harness")
WORK = os.path.join(V, "work")
ENGINE = os.path.join(T, "engine", "release", "symex")
KNOWN = os.path.join(V, "known_findings.txt")
JOBS = 8
THREADED = {p["bin"]: p.get("threads", False) for p in PLAN.values()}


class Err(Exception):
    pass


def say(*a):
    print(*a, flush=True)


def run(cmd, env=None, cwd=None, timeout=None):
    e = dict(os.environ)
    e.update({"CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never"})
    e.pop("RUSTFLAGS", None)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)


def cargo(args, target, env=None, what=""):
    # cargo +toolchain needs rustup's proxy; an explicit variable says the same
    e = {"RUSTUP_TOOLCHAIN": "stable", "CARGO_TARGET_DIR": os.path.join(T, target)}
    e.update(env or {})
    r = run(["cargo"] + args, env=e, cwd=H)
    if r.returncode != 0:
        raise Err("build failed (%s):\n%s" % (what or " ".join(args), r.stderr[-6000:]))
    return r


def tree_hash():
    h = hashlib.sha256()
    for root in [os.path.join(REPO, "src"), os.path.join(H, "src")]:
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    for p in [os.path.join(REPO, "Cargo.toml"), os.path.join(H, "Cargo.toml"), os.path.join(H, "Cargo.lock"), os.path.join(H, ".cargo", "config.toml")]:
        h.update(open(p, "rb").read())
    return h.hexdigest()


def fresh(target, profile):
    """cargo compares times, not contents: forget what was built from other contents"""
    d = os.path.join(T, target)
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "contents-" + profile)
    h = tree_hash()
    if not os.path.exists(f) or open(f).read() != h:
        if os.path.exists(f):
            os.remove(f)
        args = ["clean", "--offline", "-p", "vec-collections", "-p", "vh", "--profile", profile]
        if target == "miri":
            args += ["--target", "x86_64-unknown-linux-gnu"]
        run(["cargo"] + args, env={"RUSTUP_TOOLCHAIN": "stable", "CARGO_TARGET_DIR": d}, cwd=H)
        if target == "ir":
            ll = os.path.join(d, "ll")
            if os.path.isdir(ll):
                for x in os.listdir(ll):
                    os.remove(os.path.join(ll, x))
        open(f, "w").write(h)


class Lock:
    def __enter__(self):
        os.makedirs(T, exist_ok=True)
        self.f = open(os.path.join(T, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_engine():
    r = run(["cargo", "build", "--release", "--offline"], env={"RUSTUP_TOOLCHAIN": "stable", "CARGO_TARGET_DIR": os.path.join(T, "engine")}, cwd=os.path.join(V, "engine"))
    if r.returncode != 0:
        raise Err("engine build failed:\n" + r.stderr[-4000:])


def build_ir(bin):
    fresh("ir", "release")
    out = os.path.join(T, "ir", "ll")
    os.makedirs(out, exist_ok=True)
    ll = os.path.join(out, bin + ".ll")
    args = ["rustc", "--release", "--offline", "--bin", bin, "--", "--emit=llvm-ir=" + ll, "-C", "linker=true"]
    cargo(args, "ir", what="IR of " + bin)
    if not os.path.exists(ll):
        # cargo thought it fresh although the output is gone
        run(["cargo", "clean", "--offline", "-p", "vh", "--release"], env={"RUSTUP_TOOLCHAIN": "stable", "CARGO_TARGET_DIR": os.path.join(T, "ir")}, cwd=H)
        cargo(args, "ir", what="IR of " + bin)
    if not os.path.exists(ll):
        raise Err("no IR produced for " + bin)
    return ll


def build_native(bin, profile):
    fresh("native", profile)
    cargo(["build", "--offline", "--profile", profile, "--features", "native", "--bin", bin], "native", what="native " + bin)
    return os.path.join(T, "native", "debug" if profile == "dev" else profile, bin)


def engine(ll, job, tier, seed):
    out = os.path.join(WORK, "%s-%s-%d-%d.json" % (job["bin"], job["entry"], job["id"], job["shard"]))
    cmd = [ENGINE, "--ll", ll, "--entry", job["entry"], "--params", ",".join(map(str, job["params"])), "--out", out,
           "--shard", "%d/%d" % (job["shard"], job["shards"]), "--samples", str(job["samples"]), "--seed", str(seed),
           "--deadline", str(job["deadline"]), "--max-viol", "4", "--z3-every", str(job["z3_every"]), "--max-steps", str(job["max_steps"])]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=job["deadline"] + 120)
    except subprocess.TimeoutExpired:
        return dict(job=job, fail="engine did not stop in time")
    if r.returncode != 0 or not os.path.exists(out):
        return dict(job=job, fail="engine exit %d: %s" % (r.returncode, r.stderr[-2000:]))
    d = json.load(open(out))
    os.remove(out)
    d["job"] = job
    return d


def line(job, inputs):
    return "%s|%s|%s" % (job["entry"], ",".join(map(str, job["params"])), ",".join(str(v) for w, v in inputs))


def native(binary, text, name, timeout=60):
    p = os.path.join(WORK, name)
    open(p, "w").write(text + "\n")
    try:
        r = subprocess.run([binary, p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), ""


def miri(bin, text, name):
    p = os.path.join(WORK, name)
    open(p, "w").write(text + "\n")
    env = {"RUSTUP_TOOLCHAIN": "nightly", "CARGO_TARGET_DIR": os.path.join(T, "miri"), "MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks"}
    if THREADED.get(bin):
        # which thread goes first is up to Miri there
        env["MIRIFLAGS"] += " -Zmiri-many-seeds=0..32 -Zmiri-preemption-rate=0.1"
    try:
        r = run(["cargo", "miri", "run", "--offline", "--features", "native", "--bin", bin, "--", p], env=env, cwd=H, timeout=300)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return "timeout", "", ""


def replay(bin, job, v):
    """does the counterexample fail when the real code is run on it?"""
    text = line(job, v["inputs"])
    name = "replay-%s-%s-%d.txt" % (bin, job["entry"], abs(hash((v["kind"], v["msg"], text))) % 10**6)
    log = []
    want = "ASSERT " + v["msg"] if v["kind"] == "assert" else None
    for profile in ("user", "dev"):
        b = build_native(bin, profile)
        rc, o, e = native(b, text, name, timeout=60)
        log.append("%s: exit %s %s %s" % (profile, rc, o.strip()[-300:], e.strip()[-300:]))
        last = o.strip().splitlines()[-1] if o.strip() else ""
        if last.startswith("ASSERT"):
            if want is None or last == want or v["kind"] != "assert":
                return True, log
            return True, log  # another assertion of the same harness fails first
        if last.startswith("PANIC"):
            return True, log
        if rc == "timeout" or (isinstance(rc, int) and rc < 0) or rc == 134:
            return True, log
    if v["kind"] in ("memory", "uninit", "ub", "assert", "stack-overflow", "race", "deadlock") or THREADED.get(bin):
        rc, o, e = miri(bin, text, name)
        log.append("miri: exit %s %s %s" % (rc, o.strip()[-300:], e.strip()[-1500:]))
        if "Undefined Behavior" in e or "ASSERT" in o or "PANIC" in o:
            return True, log
    return False, log


def known_findings(prop):
    k = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) entry=(\S+) kind=(\S+) msg=(\"(?:[^\"\\]|\\.)*\") (.*)$", l)
            if m and m.group(1) == prop:
                k.append(dict(entry=m.group(2), kind=m.group(3), msg=json.loads(m.group(4)), what=m.group(5), seen=False))
    return k


def main():
    args = sys.argv[1:]
    prop = args[0]
    if prop == "--setup":
        with Lock():
            build_engine()
            for b in sorted({p["bin"] for p in PLAN.values()}):
                build_ir(b)
                build_native(b, "user")
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    only = args[args.index("--entry") + 1] if "--entry" in args else None
    verbose = "-v" in args
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    plan = PLAN[prop]
    bin = plan["bin"]
    with Lock():
        build_engine()
        ll = build_ir(bin)
        user = build_native(bin, "user")
    t_build = time.time() - t0
    budget = plan.get("budget", 400) if tier == "quick" else plan.get("budget_thorough", 3000)
    jobs = []
    for n, e in enumerate(plan["entries"]):
        if only and e["entry"] != only:
            continue
        sets = e.get(tier) or e["quick"]
        for params in sets:
            shards = e.get("shards", 8)
            for s in range(shards):
                jobs.append(dict(bin=bin, entry=e["entry"], params=params, shard=s, shards=shards, id=len(jobs), samples=e.get("samples", 3),
                                 deadline=budget, z3_every=e.get("z3_every", 200), max_steps=e.get("max_steps", 20_000_000)))
    # big entries first would need their cost: shards are interleaved instead
    res = []
    stop_at = t0 + t_build + budget
    with cf.ThreadPoolExecutor(JOBS) as ex:
        def go(j):
            left = stop_at - time.time()
            if left < 1:
                return dict(job=j, skipped=True)
            j["deadline"] = max(1, int(left))
            return engine(ll, j, tier, seed)
        for r in ex.map(go, jobs):
            res.append(r)
            if verbose and "paths" in r:
                j = r["job"]
                say("%s %s %d/%d: %d paths %.1fs (solver %.1fs, z3 %.1fs) %d queries %s %s" % (
                    j["entry"], j["params"], j["shard"], j["shards"], r["paths"], r["wall"], r["solver_s"], r["z3_s"], r["queries"], r["error"] or "", "TIMEOUT" if r["timed_out"] else ""))
    errors = []
    incomplete = []
    for r in res:
        if r.get("fail"):
            errors.append("%s %s: %s" % (r["job"]["entry"], r["job"]["params"], r["fail"]))
        elif r.get("skipped") or r.get("timed_out"):
            incomplete.append("%s %s shard %d" % (r["job"]["entry"], r["job"]["params"], r["job"]["shard"]))
        elif r.get("error"):
            errors.append("%s %s: %s" % (r["job"]["entry"], r["job"]["params"], r["error"]))
    ok = [r for r in res if "paths" in r]
    # --- vacuity: every assertion of the plan was reached, every cover point hit
    by_entry = {}
    for r in ok:
        b = by_entry.setdefault(r["job"]["entry"], dict(paths=0, asserts={}, covers={}, params=[], wall=0.0))
        b["paths"] += r["paths"]
        b["wall"] = round(b["wall"] + r["wall"], 3)
        if r["job"]["params"] not in b["params"]:
            b["params"].append(r["job"]["params"])
        for k, n in r["assert_ids"].items():
            b["asserts"][k] = b["asserts"].get(k, 0) + n
        for k, n in r["covers"].items():
            b["covers"][k] = b["covers"].get(k, 0) + n
    viols = {}
    for r in ok:
        for v in r["violations"]:
            viols.setdefault((r["job"]["entry"], v["kind"], v["msg"]), (r["job"], v))
    for n, e in enumerate(plan["entries"]):
        if only and e["entry"] != only:
            continue
        b = by_entry.get(e["entry"], dict(paths=0, asserts={}, covers={}))
        if (b["paths"] == 0 or not b["asserts"]) and not any(k[0] == e["entry"] for k in viols):
            errors.append("%s: nothing was explored (vacuous)" % e["entry"])
        for c in e.get("covers", []):
            if c not in b["covers"] and not viols and not incomplete:
                errors.append("%s: cover point not reached: %s" % (e["entry"], c))
    # --- the engine's paths, run for real
    validated = 0
    mismatches = []
    lines, exp = [], []
    for r in ok:
        for s in r["samples"]:
            lines.append(line(r["job"], s["inputs"]))
            exp.append(s["outs"])
    if lines:
        rc, o, e = native(user, "\n".join(lines), "samples-%s.txt" % bin, timeout=120)
        got = o.splitlines()
        for i, l in enumerate(lines):
            g = got[i] if i < len(got) else "nothing (exit %s)" % rc
            if g.strip() == ("OK " + ",".join(map(str, exp[i]))).strip():
                validated += 1
            else:
                mismatches.append("%s: expected %s, real code: %s" % (l, exp[i], g))
                if i >= len(got):
                    break
    # --- violations
    known = known_findings(prop)
    reported = []
    unreproduced = []
    os.makedirs(os.path.join(WORK, "replay"), exist_ok=True)
    for (entry, kind, msg), (job, v) in sorted(viols.items()):
        k = next((k for k in known if k["entry"] == entry and k["kind"] == kind and k["msg"] == msg), None)
        if len(reported) >= 3 and not k:
            continue
        with Lock():
            good, log = replay(bin, job, v)
        if not good:
            unreproduced.append(dict(entry=entry, kind=kind, msg=msg, inputs=v["inputs"], stack=v["stack"][:12], log=log))
            continue
        if k:
            k["seen"] = True
            continue
        p = os.path.join(WORK, "replay", "%s-%d.json" % (prop, len(reported)))
        json.dump(dict(property=prop, entry=entry, params=job["params"], kind=kind, msg=msg, inputs=v["inputs"], stack=v["stack"], replay_input=line(job, v["inputs"]),
                       how="write replay_input to FILE; cd /verif/harness && cargo run --offline --profile user --features native --bin %s FILE (or cargo +nightly miri run ... for memory errors)" % bin, native=log), open(p, "w"), indent=1)
        reported.append((p, entry, kind, msg))
    wall = time.time() - t0
    funcs, lns, crates = set(), {}, set()
    for r in ok:
        funcs.update(re.sub(r"<.*", "", f) for f in r["functions"])
        crates.update(r["crates"])
        for f, l in r["lines"].items():
            lns.setdefault(f, set()).update(l)
    tot = lambda k: sum(r[k] for r in ok)
    samples = [dict(input=l, outputs=x) for l, x in list(zip(lines, exp))[:: max(1, len(lines) // 6)]][:8]
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(wall, 2), violations=len(reported),
        coverage=dict(
            states=tot("paths"), transitions=tot("steps"), traces_validated_against_impl=validated, samples=samples,
            exhaustive=not incomplete and not errors,
            bounds=plan["bounds"],
            entries=by_entry,
            functions_encoded=sorted(funcs), lines_executed={f: len(l) for f, l in sorted(lns.items())}, dependency_crates_encoded=sorted(crates),
            queries=tot("queries"), sat=tot("sat"), unsat=tot("unsat"), unknown=tot("unknown"), solver_s=round(tot("solver_s"), 2),
            branches_decided_from_path_facts=tot("fast_order") + tot("fast_facts"),
            assertions_checked=tot("asserts"), assertions_put_to_solver=tot("asserts_solver"),
            z3_cross_checks=tot("z3_checked"), z3_s=round(tot("z3_s"), 2), z3_version=ok[0]["z3"] if ok else "",
            forks=tot("forks"), paths_discarded_by_assumptions=tot("killed"),
            incomplete=incomplete, build_s=round(t_build, 1),
            unreproduced=unreproduced, sample_mismatches=mismatches[:5],
        ),
        assumptions=plan.get("assumptions", []) + [
            "the IR rustc produces at opt-level 1 with overflow checks is the code checked; heap, stack and globals are modelled at byte granularity with concrete object addresses; allocations up to 64 MiB succeed and larger ones fail",
            "symbolic sizes, indices used as addresses, shift amounts and divisors are split into their concrete values",
        ],
    )
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    say("%s %s: %d paths, %d queries (%d unsat), solver %.1f s, %d native traces, build %.0f s, wall %.0f s" % (
        prop, tier, tot("paths"), tot("queries"), tot("unsat"), tot("solver_s"), validated, t_build, wall))
    for k in known:
        if k["seen"]:
            say("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for p, entry, kind, msg in reported:
        say("  %s: %s: %s" % (entry, kind, msg))
        say("VIOLATION property=%s replay=%s" % (prop, p))
    if reported:
        return 1
    for u in unreproduced:
        say("NOT REPRODUCED: %s" % json.dumps(u))
    for m in mismatches[:5]:
        say("SAMPLE MISMATCH: " + m)
    for e in errors[:10]:
        say("ERROR: " + e)
    for i in incomplete[:10]:
        say("INCOMPLETE (time budget): " + i)
    if unreproduced or mismatches or errors:
        return 2
    return 0


if __name__ == "__main__":
    try:
        code = main()
    except Err as e:
        say("ERROR: %s" % e)
        code = 2
    sys.exit(code)
