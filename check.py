#!/usr/bin/env python3
"""Driver: decide one property by symbolic execution of the code compiled from /repo.

  check.py PXX [quick|thorough]     run the property's check
  check.py --setup                  build the engine and the harness dependencies
  check.py --replay FILE            re-run a counterexample natively

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: a counterexample which was
replayed natively against the real code.  Anything else: an error of the check.
"""
import hashlib, json, os, subprocess, sys, time, glob, shutil, tempfile, re, threading
from concurrent.futures import ThreadPoolExecutor, as_completed

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TC = "stable-x86_64-unknown-linux-gnu"
ENG_TARGET = os.path.join(V, "target", "symex")
TARGET = os.path.join(V, "target", "harness")
SYMEX = os.path.join(ENG_TARGET, "release", "symex")
RT = os.path.join(TARGET, "sym_rt.o")
BUDGET = 780.0  # seconds for one quick check, everything included
START = time.time()


def log(*a):
    print(*a, flush=True)


def die(msg):
    log("CHECK-ERROR:", msg)
    sys.exit(2)


def env(target):
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN=TC, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             RUSTC_WRAPPER="", CARGO_INCREMENTAL="0", RUSTFLAGS="--cfg lumberjack_verif -A warnings" if target == TARGET else "")
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    for k in list(e):
        if k.startswith("CARGO_PROFILE_") or k == "CARGO_ENCODED_RUSTFLAGS":
            del e[k]
    return e


def run(cmd, cwd, target, what):
    p = subprocess.run(cmd, cwd=cwd, env=env(target), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        log(p.stdout[-3000:])
        die(what + " failed")
    return p.stdout


def tree_hash(paths, exts):
    h = hashlib.sha256()
    for base in paths:
        fs = []
        for d, dn, fn in os.walk(base):
            dn[:] = sorted(x for x in dn if x not in ("target", ".git"))
            fs += [os.path.join(d, f) for f in fn if f.endswith(exts)]
        for f in sorted(fs):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()


def build_engine():
    os.makedirs(ENG_TARGET, exist_ok=True)
    run(["cargo", "build", "--offline", "--release"], os.path.join(V, "symex"), ENG_TARGET, "building the engine")
    os.makedirs(TARGET, exist_ok=True)
    run(["gcc", "-O1", "-Wall", "-c", os.path.join(V, "harness/rt/sym_rt.c"), "-o", RT], V, TARGET, "building the runtime")


def fresh():
    """cargo trusts mtimes; drop cached artifacts whenever the content changed under it"""
    h = tree_hash([REPO], (".rs", ".toml", ".lock", ".pest")) + tree_hash([os.path.join(V, "harness"), os.path.join(V, "harness_cli")], (".rs", ".toml", ".lock"))
    stamp = os.path.join(TARGET, "content.stamp")
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != h:
        for d in ("release/.fingerprint", "debug/.fingerprint"):
            for f in glob.glob(os.path.join(TARGET, d, "lumberjack-*")) + glob.glob(os.path.join(TARGET, d, "symh-*")) + \
                    glob.glob(os.path.join(TARGET, d, "symcli-*")):
                shutil.rmtree(f)
        with open(stamp, "w") as fh:
            fh.write(h)
    return h


# the conversion program has its own harness crate
CRATE = {"p23": "harness_cli"}


def build_bin(b):
    fresh()
    t = time.time()
    run(["cargo", "rustc", "--offline", "--release", "--bin", b, "--", "--emit=llvm-ir", "-C", "no-vectorize-loops",
         "-C", "no-vectorize-slp", "-C", "link-arg=" + RT], os.path.join(V, CRATE.get(b, "harness")), TARGET,
        "compiling harness %s against /repo" % b)
    lls = sorted(glob.glob(os.path.join(TARGET, "release/deps/%s-*.ll" % b)), key=os.path.getmtime)
    exe = os.path.join(TARGET, "release", b)
    if not lls or not os.path.exists(exe):
        die("no LLVM IR for " + b)
    return lls[-1], exe, time.time() - t


def native(exe, entry, params, values, timeout=20):
    with tempfile.NamedTemporaryFile("w", suffix=".vals", delete=False) as f:
        f.write(" ".join(str(v) for v in values) + "\n")
    try:
        p = subprocess.run([exe, entry, f.name] + [str(x) for x in params], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, env={"PATH": "/usr/bin:/bin", "RUST_BACKTRACE": "0"})
        rc, out, err = p.returncode, p.stdout.decode("latin1"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        rc, out, err = "timeout", (e.stdout or b"").decode("latin1"), ""
    finally:
        os.unlink(f.name)
    notes = [tuple(l.split(" ")[1:3]) for l in out.splitlines() if l.startswith("NOTE ")]
    done = re.search(r"DONE checks=(\d+) unread=(\d+)", out)
    fail = re.search(r"CHECK-FAIL (.*)", out)
    return dict(rc=rc, notes=notes, done=done and (int(done.group(1)), int(done.group(2))), fail=fail and fail.group(1),
                out=out, err=err)


def reproduced(r):
    if r["rc"] == "timeout":
        return "does not terminate within the replay limit"
    if r["rc"] == 10:
        return "assertion: " + (r["fail"] or "?")
    if r["rc"] in (-6, 101, -4, -11, -9, 134):
        m = re.search(r"panicked at ([^\n]*)\n([^\n]*)", r["err"])
        return "panic: " + (" ".join(m.groups()) if m else "signal %s %s" % (r["rc"], r["err"][:200]))
    return None


# set once a counterexample has been reproduced natively: the other jobs need not finish
stop = threading.Event()
running = set()


def stop_all():
    stop.set()
    for p in list(running):
        p.kill()


def run_job(ll, job, deadline, tier, outdir, i, ks=()):
    out = os.path.join(outdir, "job%d.json" % i)
    left = max(5.0, deadline - time.time())
    t = min(job.get("time", 3600.0), left)
    cmd = [SYMEX, ll, job["entry"], "--time", "%.0f" % t, "--max-icount", str(job.get("icount", 20_000_000)),
           "--max-viol", str(job.get("max_viol", 8 if ks else 2)), "--samples", str(job.get("samples", 6)), "--out", out,
           "--param", ",".join(str(x) for x in job.get("params", []))]
    if tier == "thorough":
        cmd += ["--dump-every", "50"]
    t0 = time.time()
    if stop.is_set():
        return dict(job=job, status="stopped", wall=0.0)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    running.add(p)
    if stop.is_set():
        p.kill()
    po, pe = p.communicate()
    running.discard(p)
    if not os.path.exists(out):
        if stop.is_set():
            return dict(job=job, status="stopped", wall=time.time() - t0)
        return dict(job=job, status="error", errors=["engine: rc=%s %s" % (p.returncode, (pe or po)[-800:])], wall=time.time() - t0)
    try:
        r = json.load(open(out))
    except ValueError:
        # ended while writing its report
        r = dict(status="stopped") if stop.is_set() else dict(status="error", errors=["engine: rc=%s, no report: %s" % (p.returncode, (pe or po)[-800:])])
    os.unlink(out)
    r["job"] = job
    r["wall"] = time.time() - t0
    return r


def smt_cross(results):
    """decide the dumped queries again with other solvers"""
    qs = []
    for r in results:
        qs += r.get("dumped", [])
    qs = qs[::max(1, len(qs) // 600)][:600]
    res = {}
    for name, cmd in (("z3-new", ["z3-new", "-in", "-T:300"]), ("cvc5", ["cvc5", "--incremental", "--lang", "smt2", "--tlimit=300000"])):
        if not shutil.which(cmd[0]) or not qs:
            continue
        text = "".join("(reset)\n" + (q if "set-logic" in q else "(set-logic QF_BV)\n" + q).replace("(get-model)", "") + ("" if "check-sat" in q else "\n(check-sat)") + "\n" for q, _ in qs)
        p = subprocess.run(cmd, input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        ans = [l.strip() for l in p.stdout.splitlines() if l.strip()]
        if any(a.startswith("(error") for a in ans):
            die("%s rejects a query: %s" % (name, [a for a in ans if a.startswith("(error")][0]))
        bad = [k for k, (a, (_, s)) in enumerate(zip(ans, qs)) if a != ("sat" if s else "unsat")]
        if len(ans) != len(qs) or bad:
            die("%s disagrees on %d of %d queries (answers %d)" % (name, len(bad), len(qs), len(ans)))
        res[name] = len(ans)
    return res


def known(prop):
    f = os.path.join(V, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f))["findings"] if k["property"] == prop and k["status"] == "open"]


def case_of(v):
    return "; ".join(bytes.fromhex(b).decode("latin1") for k, b in v["notes"] if k == 900)


def is_known(v, ks):
    for k in ks:
        if k["entry"] == v["entry"] and k["kind"] == v["kind"] and re.fullmatch(k["msg"], v["msg"]) and \
                (not k.get("case") or k["case"] in v["case"]):
            return k
    return None


def main():
    if len(sys.argv) >= 2 and sys.argv[1] == "--setup":
        build_engine()
        build_bin("p02")
        build_bin("p23")
        log("setup done in %.1f s" % (time.time() - START))
        return
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))
        build_engine()
        _, exe, _ = build_bin(d["bin"])
        r = native(exe, d["entry"], d["params"], d["inputs"])
        log(r["out"] + r["err"])
        log("reproduced:", reproduced(r))
        sys.exit(1 if reproduced(r) else 0)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.path.insert(0, V)
    import jobs as J
    P = J.PROPS[prop]
    js = list(P["quick"])
    if tier == "thorough":
        js += list(P["thorough"] or [])
    budget = BUDGET if tier == "quick" else float(os.environ.get("VERIF_BUDGET", "7200"))
    ks = known(prop)
    build_engine()
    ll, exe, build_s = build_bin(P["bin"])
    deadline = START + budget
    outdir = tempfile.mkdtemp(prefix="symex-")
    try:
        with ThreadPoolExecutor(max_workers=8) as ex:
            futs = [ex.submit(run_job, ll, j, deadline, tier, outdir, i, ks) for i, j in enumerate(js)]
            for f in as_completed(futs):
                r = f.result()
                for v in r.get("violations", [])[:3]:
                    v["entry"] = r["job"]["entry"]
                    v["case"] = case_of(v)
                    if not stop.is_set() and is_known(v, ks) is None and reproduced(native(exe, v["entry"], r["job"].get("params", []), v["inputs"])):
                        stop_all()
            results = [f.result() for f in futs]
    finally:
        shutil.rmtree(outdir, ignore_errors=True)

    # counterexamples: replay natively, report only what reproduces
    seen_known, reported, unreproduced, toolong = {}, [], [], []
    replays = os.path.join(V, "replays")
    for r in results:
        for v in r.get("violations", []):
            v["entry"] = r["job"]["entry"]
            v["case"] = case_of(v)
            k = is_known(v, ks)
            if k is None and len(reported) >= 3:
                continue
            if k is not None and len(seen_known.get(k["id"], [])) >= 2:
                seen_known[k["id"]].append(None)
                continue
            n = native(exe, v["entry"], r["job"].get("params", []), v["inputs"])
            what = reproduced(n)
            if what is None and "suspected non-termination" in v["msg"]:
                # long, but it ends: that path was not explored to its end
                toolong.append("%s%s" % (v["entry"], r["job"].get("params", [])))
                continue
            if what is None:
                unreproduced.append("%s %s (rc=%s, inputs=%s)" % (v["entry"], v["msg"], n["rc"], v["inputs"]))
                continue
            if k is not None:
                seen_known.setdefault(k["id"], []).append(what)
                continue
            os.makedirs(replays, exist_ok=True)
            path = os.path.join(replays, "%s-%d.json" % (prop, len(reported)))
            json.dump(dict(property=prop, bin=P["bin"], entry=v["entry"], params=r["job"].get("params", []), inputs=v["inputs"],
                           kind=v["kind"], message=v["msg"], trace=v["trace"], native=what,
                           notes=[[a, bytes.fromhex(b).decode("latin1")] for a, b in v["notes"]],
                           rerun="python3 /verif/check.py --replay " + path), open(path, "w"), indent=1)
            reported.append((path, v, what))

    # sampled paths: the model of the compiled code and the native code must agree
    validated, mismatches = 0, []
    for r in results:
        for s in r.get("samples", []):
            n = native(exe, r["job"]["entry"], r["job"].get("params", []), s["inputs"])
            exp = [(str(k), b) for k, b in s["notes"]]
            if n["rc"] == 0 and n["done"] == (s["checks"], 0) and [(a, b) for a, b in n["notes"]] == exp:
                validated += 1
            else:
                mismatches.append(dict(entry=r["job"]["entry"], params=r["job"].get("params", []), inputs=s["inputs"], rc=n["rc"],
                                       done=n["done"], want=s["checks"], notes_equal=[(a, b) for a, b in n["notes"]] == exp, err=n["err"][:300]))

    errors = ["%s%s: %s" % (r["job"]["entry"], r["job"].get("params", []), e) for r in results for e in r.get("errors", [])]
    incomplete = ["%s%s" % (r["job"]["entry"], r["job"].get("params", [])) for r in results if r["status"] in ("timeout", "stopped")] + toolong
    reach = {}
    for r in results:
        for k, c in r.get("reach", {}).items():
            key = "%s:%s" % (r["job"]["entry"], k)
            reach[key] = reach.get(key, 0) + c
    missing = []
    for j in js:
        for k in j.get("reach", []):
            key = "%s:%d" % (j["entry"], k)
            if not reach.get(key):
                missing.append(key)
    cross = smt_cross(results) if tier == "thorough" else {}

    def tot(k):
        return sum(r.get(k, 0) for r in results)
    funcs = sorted(set(f for r in results for f in r.get("functions", [])))
    checks = {}
    for r in results:
        for k, c in r.get("check_ids", {}).items():
            a = checks.setdefault(k, [0, 0, 0])
            for i in range(3):
                a[i] += c[i]
    samples = []
    for r in results:
        for s in r.get("samples", [])[:2]:
            if len(samples) < 12:
                samples.append(dict(entry=r["job"]["entry"], params=r["job"].get("params", []), inputs=s["inputs"], checks=s["checks"],
                                    outputs=[bytes.fromhex(b).decode("latin1") for _, b in s["notes"]][:6]))
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=tot("paths") + tot("assumed_out"), transitions=tot("forks"), traces_validated_against_impl=validated,
            samples=samples or [dict(note="no completed path")],
            exhaustive=not incomplete and not errors,
            symbolic_paths_completed=tot("paths"), paths_pruned_by_assumption=tot("assumed_out"),
            instructions=tot("instructions"), longest_path_instructions=max([r.get("max_path_instructions", 0) for r in results] or [0]),
            assertions=tot("checks"), assertions_decided_by_solver=tot("checks_by_solver"), assertions_decided_by_path=tot("checks_by_path"),
            assertions_by_kind={k: dict(total=c[0], constant_on_path=c[1], solver=c[2]) for k, c in sorted(checks.items())},
            solver=dict(name=next((r["solver"] for r in results if "solver" in r), ""), sat=tot("queries_sat"), unsat=tot("queries_unsat"),
                        unknown=tot("queries_unknown"), seconds=round(tot("solver_s"), 3),
                        finite_domain_sat=tot("dom_sat"), finite_domain_unsat=tot("dom_unsat"), finite_domain_verdicts_rechecked_by_solver=tot("crosschecked"),
                        query_cache_hits=tot("cache_hits"), longest_query_s=max([r.get("max_query_s", 0) for r in results] or [0]),
                        rechecked_with=cross),
            functions_encoded=funcs, functions_encoded_total=max([r.get("functions_total", 0) for r in results] or [0]),
            bounds=P["bounds"], reach=reach, incomplete_jobs=incomplete,
            jobs=[dict(entry=r["job"]["entry"], params=r["job"].get("params", []), status=r["status"], paths=r.get("paths", 0), wall_s=round(r["wall"], 2)) for r in results],
            known_findings={k: len(x) for k, x in seen_known.items()},
            build_s=round(build_s, 2)),
        assumptions=P.get("assumptions", []) + J.COMMON_ASSUMPTIONS,
        wall_s=round(time.time() - START, 2), violations=len(reported))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)

    log("%s %s: %d paths, %d assertions (%d by solver), %d native replays agree, solver %.2f s, wall %.1f s" %
        (prop, tier, tot("paths"), tot("checks"), tot("checks_by_solver"), validated, tot("solver_s"), time.time() - START))
    if os.environ.get("VERBOSE"):
        for r in results:
            log("  ", r["job"]["entry"], r["job"].get("params"), r["status"], r.get("paths"), "assumed", r.get("assumed_out"), "%.1fs" % r["wall"], r.get("reach"))
    for k in ks:
        if k["id"] in seen_known:
            log("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if reported:
        for path, v, what in reported:
            log("counterexample in %s: %s %s" % (v["entry"], v["kind"], v["msg"]))
            log("   native replay: " + what)
            log("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    if unreproduced:
        die("counterexample does not reproduce natively: " + "; ".join(unreproduced[:3]))
    if mismatches:
        log(json.dumps(mismatches[:3]))
        die("%d sampled paths disagree with the native code" % len(mismatches))
    if errors:
        die("engine could not encode: " + "; ".join(errors[:4]))
    if missing and not incomplete:
        die("vacuous: never reached " + ", ".join(sorted(set(missing))))
    if incomplete:
        log("INCOMPLETE (time limit): " + ", ".join(incomplete))
    sys.exit(0)


if __name__ == "__main__":
    main()
