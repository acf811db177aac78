#!/usr/bin/env python3
"""Decide one property: python3 check.py <property> [quick|thorough]

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken, and the
counterexample was replayed against the natively compiled code.  Exit 2: no answer.
"""
import concurrent.futures, fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import specs

BUILD = os.path.join(VERIF, "build")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
T0 = time.time()


class NoAnswer(Exception):
    pass


def env(target, **kw):
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_TARGET_DIR"] = target
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e.update(kw)
    return e


def sh(cmd, cwd, e, what, timeout=600):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise NoAnswer(f"{what}: timeout")
    out = r.stdout.decode("utf-8", "replace")
    if r.returncode != 0:
        raise NoAnswer(f"{what} failed:\n{out[-6000:]}")
    return out


def llvm_bin():
    out = subprocess.run(["rustc", "--print", "sysroot"], env=env("/nonexistent"), stdout=subprocess.PIPE).stdout
    return os.path.join(out.decode().strip(), "lib/rustlib/x86_64-unknown-linux-gnu/bin")


def build_engine():
    t = os.path.join(BUILD, "engine")
    sh(["cargo", "build", "--release", "--offline", "--quiet"], os.path.join(VERIF, "engine"), env(t), "engine build")
    return os.path.join(t, "release", "rsym")


def build_harness(name):
    """Compiles the harness together with /repo's current tree; returns (native binary, IR)."""
    t = os.path.join(BUILD, "harness")
    d = os.path.join(t, "release", "deps")
    if os.path.isdir(d):
        for f in os.listdir(d):
            # never pick up the IR of an earlier build
            if f.startswith(name + "-") and (f.endswith(".bc") or f.endswith(".o")):
                os.unlink(os.path.join(d, f))
    exe = os.path.join(t, "release", name)
    # the IR is a by-product of the link step: force it
    for f in [exe] + ([os.path.join(d, f) for f in os.listdir(d) if re.fullmatch(name + "-[0-9a-f]{16}", f)] if os.path.isdir(d) else []):
        if os.path.exists(f):
            os.unlink(f)
    src = os.path.join(VERIF, "harness", "src", "bin", name + ".rs")
    os.utime(src)
    out = sh(["cargo", "build", "--release", "--offline", "--quiet", "--bin", name], os.path.join(VERIF, "harness"),
             env(t, RUSTFLAGS="-C save-temps -Awarnings"), "harness build")
    bcs = [f for f in os.listdir(d) if f.startswith(name + "-") and f.endswith(".rcgu.bc")]
    if len(bcs) != 1:
        raise NoAnswer(f"expected one IR file of {name}, found {bcs}")
    ll = os.path.join(BUILD, name + ".ll")
    sh([os.path.join(llvm_bin(), "opt"), "--strip-debug", "-S", os.path.join(d, bcs[0]), "-o", ll], VERIF, env(t), "IR disassembly")
    return exe, ll


def repo_digest():
    """what was encoded: all sources of /repo"""
    h = hashlib.sha256()
    for root, dirs, files in os.walk("/repo/src"):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(p.encode())
            h.update(open(p, "rb").read())
    return h.hexdigest()[:16]


def native(exe, entry, params, model, timeout=30, verbose=False):
    """Replays one assignment; returns (kind, detail): ok/fail/panic/assume/hang/exit"""
    e = {"PATH": "/usr/bin:/bin", "RSYM_REPLAY": model, "RSYM_VERBOSE": "1" if verbose else "0"}
    for k, v in params.items():
        e["RSYM_PARAM_" + k] = str(v)
    d = tempfile.mkdtemp(prefix="rsym.")
    w = os.path.join(d, "work")
    os.mkdir(w)
    try:
        r = subprocess.run([exe, entry], cwd=w, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "hang", f"no end within {timeout} s"
    finally:
        subprocess.run(["chmod", "-R", "u+rwx", d], stderr=subprocess.DEVNULL)
        shutil.rmtree(d, ignore_errors=True)
    err = r.stderr.decode("utf-8", "replace")
    m = re.search(r"^RSYM-FAIL (.*)$", err, re.M)
    if m:
        return "fail", m.group(1)
    if r.returncode == 77:
        return "assume", ""
    if r.returncode < 0:
        m = re.search(r"panicked at ([^\n]*)\n([^\n]*)", err)
        return "panic", (f"{m.group(1)} {m.group(2)}" if m else f"signal {-r.returncode}")
    m = re.search(r"^RSYM-OBS ([0-9a-f]{16}) (\d+)$", err, re.M)
    if m and r.returncode == 0:
        return "ok", (m.group(1), int(m.group(2)))
    return "exit", f"rc={r.returncode} {err[-300:]}"


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def engine_run(rsym, ll, run, tier, seed, limit, known):
    out = os.path.join(BUILD, f"out.{os.getpid()}.jsonl")
    if os.path.exists(out):
        os.unlink(out)
    cmd = [rsym, ll, "--entry", run["entry"], "--out", out, "--jobs", str(os.cpu_count() or 4), "--limit", str(int(limit)),
           "--samples", str(run.get("samples", 6)), "--seed", str(seed)]
    for k, v in run["params"].items():
        cmd += ["--param", f"{k}={v}"]
    for k in known:
        cmd += ["--known", k]
    try:
        r = subprocess.run(cmd, cwd=BUILD, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit + 60)
        rc, err = r.returncode, r.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        rc, err = 4, "engine timeout"
    tot = {"reached": {}, "checked": {}, "violations": [], "samples": [], "functions": set()}
    if os.path.exists(out):
        for line in open(out):
            try:
                j = json.loads(line)
            except ValueError:
                rc = rc or 3
                continue
            for k, v in j.items():
                if k in ("reached", "checked"):
                    for a, b in v.items():
                        tot[k][a] = tot[k].get(a, 0) + b
                elif k in ("violations", "samples"):
                    tot[k] += v
                elif k == "functions":
                    tot[k] |= set(v)
                elif k.startswith("max") or k == "wall":
                    tot[k] = max(tot.get(k, 0), v)
                else:
                    tot[k] = tot.get(k, 0) + v
        os.unlink(out)
    return rc, err, tot


def demangle(names):
    """the crate that a v0-mangled function belongs to (last crate root in the path)"""
    n = {}
    for f in names:
        c = re.findall(r"Cs[0-9A-Za-z]*_(\d+)([a-z_0-9]+)", f)
        for l, s in c[:1]:
            n[s[:int(l)]] = n.get(s[:int(l)], 0) + 1
    return n


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = specs.SPECS[prop]
    budget = spec.get("budget", {}).get(tier, 780 if tier == "quick" else 6 * 3600)
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    ev_path = os.path.join(VERIF, "evidence", prop + ".json")
    rsym = build_engine()
    bins, runs_ev, viol, problems, known_hit = {}, [], [], [], []
    tot = {k: 0 for k in ("paths", "pruned", "forks", "steps", "checks", "symchecks", "leaf_queries", "queries", "unsat", "cache_hits", "solver_s")}
    validated, samples, reach_all, funcs = 0, [], {}, set()
    findings = [f for f in known_findings() if f.get("property") == prop and f.get("status") == "open"]
    runs = [r for r in spec["runs"] if tier in r.get("tiers", ("quick", "thorough"))]
    for run in runs:
        if run["bin"] not in bins:
            bins[run["bin"]] = build_harness(run["bin"])
        exe, ll = bins[run["bin"]]
        left = budget - (time.time() - T0)
        if left < 5:
            problems.append("time budget used up")
            break
        rc, err, t = engine_run(rsym, ll, run, tier, seed, left, [f["label"] for f in findings])
        for k in tot:
            tot[k] += t.get(k, 0)
        for k, v in t["reached"].items():
            reach_all[k] = reach_all.get(k, 0) + v
        funcs |= t["functions"]
        desc = run["entry"] + " " + " ".join(f"{k}={v}" for k, v in run["params"].items())
        # ---- counterexamples are replayed natively
        seen = set()
        for v in t["violations"]:
            if v["label"] in seen:
                continue
            kind, detail = native(exe, run["entry"], run["params"], v["model"])
            real = (kind == "fail" and detail == v["label"]) or (kind == "panic" and not v["label"].startswith("exit:")) or \
                   (kind == "hang" and v["label"].startswith("hang:")) or (kind == "exit" and v["label"].startswith("exit:"))
            if not real:
                problems.append(f"{desc}: counterexample for '{v['label']}' (model {v['model']}) does not reproduce: {kind} {detail}")
                continue
            seen.add(v["label"])
            f = [f for f in findings if f["label"] == v["label"]]
            if f:
                known_hit.append(f[0])
            else:
                viol.append((run, v, kind, detail))
        # ---- sampled paths: the encoding and the compiled code agree
        take = t["samples"]
        step = max(1, len(take) // 12)
        take = take[::step][:12]
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as pool:
            outcomes = list(pool.map(lambda s: native(exe, run["entry"], run["params"], s["m"]), take))
        for s, (kind, detail) in zip(take, outcomes):
            if kind != "ok" or detail[0] != s["obs"]:
                problems.append(f"{desc}: path with model {s['m']} behaves differently natively: {kind} {detail}, expected {s['obs']} ({s['n']} bytes)")
                break
            validated += 1
            if len(samples) < 6:
                samples.append({"run": desc, "inputs_hex": s["m"], "observation_hash": s["obs"]})
        if rc != 0 and not viol:
            problems.append(f"{desc}: engine ended with {rc}: {err[-600:]}")
        if not viol and not t.get("stopped"):
            if not t["checked"]:
                problems.append(f"{desc}: no assertion evaluated")
        runs_ev.append({"run": desc, "bound": run.get("bound", ""), "paths": t.get("paths", 0), "pruned": t.get("pruned", 0), "queries": t.get("queries", 0),
                        "unsat": t.get("unsat", 0), "solver_s": round(t.get("solver_s", 0), 2), "symbolic_bytes": t.get("max_vars", 0),
                        "reached": t["reached"], "assertions": t["checked"], "wall_s": round(t.get("wall", 0), 2)})
        if viol or problems:
            break
    if not viol and not problems:
        for need in sorted({n for r in runs for n in r.get("need", [])}):
            if not reach_all.get(need):
                problems.append(f"vacuous: no path reaches '{need}'")
    n_known = {f["label"] for f in known_hit}
    crates = demangle(funcs)
    own = sorted(f for f in funcs if "8reqtrace" in f)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"], "transitions": tot["forks"], "traces_validated_against_impl": validated,
            "samples": samples or [{"note": "no completed path"}],
            "exhaustive": not problems and not viol,
            "instructions_executed_symbolically": tot["steps"], "paths_cut_by_assumptions": tot["pruned"],
            "assertions_checked": tot["checks"], "assertions_with_symbolic_condition": tot["symchecks"],
            "solver_queries": tot["queries"], "solver_unsat": tot["unsat"], "solver_cache_hits": tot["cache_hits"],
            "path_condition_confirmations": tot["leaf_queries"], "solver_s": round(tot["solver_s"], 2),
            "functions_encoded": len(funcs), "functions_by_crate": crates, "reqtrace_functions": own,
            "bounds": spec["bounds"], "outside": spec["outside"], "runs": runs_ev, "repo_sources": repo_digest(),
        },
        "assumptions": specs.ASSUMPTIONS + spec.get("assumptions", []),
        "wall_s": round(time.time() - T0, 2), "violations": len(viol),
    }
    json.dump(ev, open(ev_path, "w"), indent=1)
    for f in findings:
        if f["label"] in n_known:
            print(f"KNOWN-FINDING: property={prop} {f['what']}")
    if viol:
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        for i, (run, v, kind, detail) in enumerate(viol):
            p = os.path.join(rd, f"{prop}-{i}.sh")
            with open(p, "w") as o:
                o.write("#!/bin/sh\n# %s: %s\n# native outcome: %s %s\n" % (prop, v["label"].replace("\n", " "), kind, str(detail).replace("\n", " ")))
                o.write("d=$(mktemp -d) && cd $d\n")
                o.write("RSYM_VERBOSE=1 RSYM_REPLAY=%s %s exec %s %s\n" % (v["model"], " ".join(f"RSYM_PARAM_{k}={x}" for k, x in run["params"].items()), bins[run["bin"]][0], run["entry"]))
            os.chmod(p, 0o755)
            print(f"violated: {v['label']} [{run['entry']} {run['params']}] native: {kind} {detail}")
            print(f"VIOLATION property={prop} replay={p}")
        return 1
    if problems:
        for p in problems:
            print("no answer: " + p, file=sys.stderr)
        return 2
    print(f"{prop}: held on {tot['paths']} paths ({tot['queries']} solver queries, {tot['solver_s']:.1f} s solver time, {validated} paths replayed natively) in {time.time()-T0:.0f} s")
    return 0


if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        os.makedirs(BUILD, exist_ok=True)
        build_engine()
        for b in sorted({r["bin"] for s in specs.SPECS.values() for r in s["runs"]}):
            build_harness(b)
        sys.exit(0)
    try:
        sys.exit(main())
    except NoAnswer as e:
        print("no answer: " + str(e), file=sys.stderr)
        sys.exit(2)
