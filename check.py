#!/usr/bin/env python3
"""Decides one property of /repo's working tree by symbolic execution.

  check.py PROPERTY            the check (VERIF_TIER = quick or thorough, default quick)
  check.py --build             build the engine and the harnesses only
  check.py --replay FILE       run a recorded counterexample natively against the real code

Exit status: 0 the property holds within the bounds, 1 a violation was found and confirmed by
running the real code on it, anything else: no verdict.
"""
import fcntl, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PFP_REPO", "/repo")
sys.path.insert(0, V)
import props  # noqa: E402

ENGINE = os.path.join(V, "engine/target/release/symir")


def files_under(*roots):
    out = []
    for r in roots:
        if os.path.isfile(r):
            out.append(r)
        for d, ds, fs in os.walk(r):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "build"))
            out.extend(os.path.join(d, f) for f in sorted(fs))
    return out


def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        try:
            with open(p, "rb") as f:
                h.update(f.read())
        except OSError:
            pass
        h.update(b"\0")
    return h.hexdigest()[:20]


def say(*a):
    print(*a, flush=True)


def die(msg, code=3):
    say("NO VERDICT:", msg)
    sys.exit(code)


def build_engine():
    src = files_under(V + "/engine/src", V + "/engine/Cargo.toml")
    mark = V + "/engine/target/built"
    want = digest(src)
    if os.path.exists(ENGINE) and os.path.exists(mark) and open(mark).read() == want:
        return
    env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable")
    env.pop("RUSTFLAGS", None)
    r = subprocess.run(["cargo", "build", "--release", "-q"], cwd=V + "/engine", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        die("engine does not build:\n" + r.stdout.decode()[-3000:])
    with open(mark, "w") as f:
        f.write(want)


def build_crate(crate):
    """Returns the directory with the native binary and the IR for the current tree."""
    srcs = files_under(REPO + "/pfp", REPO + "/cli", REPO + "/Cargo.toml", REPO + "/Cargo.lock",
                       V + "/psym", V + "/models", V + "/harness", V + "/cli-harness", V + "/build.sh")
    out = os.path.join(V, "build", crate + "-" + digest(srcs))
    if os.path.exists(out + "/ok"):
        os.utime(out)
        return out
    # drop builds of other trees
    base = os.path.join(V, "build")
    old = sorted((os.path.getmtime(os.path.join(base, d)), d) for d in os.listdir(base) if d.startswith(crate + "-"))
    for t, d in old[:-2]:
        if time.time() - t > 1800:
            shutil.rmtree(os.path.join(base, d), ignore_errors=True)
    shutil.rmtree(out, ignore_errors=True)
    r = subprocess.run(["bash", V + "/build.sh", crate, out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, PFP_REPO=REPO))
    if r.returncode:
        die("the harness does not build against the current tree:\n" + r.stdout.decode()[-3000:])
    shutil.rmtree(out + "/target", ignore_errors=True)
    open(out + "/ok", "w").close()
    return out


def build(crates):
    os.makedirs(V + "/build", exist_ok=True)
    with open(V + "/build/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build_engine()
        return {c: build_crate(c) for c in crates}


def run_engine(job, dirs, work, idx, extra=()):
    out = os.path.join(work, "r%d.json" % idx)
    cmd = [ENGINE, "--ir", dirs[job["crate"]] + "/harness.ll", "--entry", job["entry"], "--out", out,
           "--time", str(job["time"]), "--query-timeout", str(job.get("qt", 200)), "--traces",
           "--src", REPO + "/pfp/src", "--src", REPO + "/cli/src", "--src", "/cli-copy/src", "--max-violations", "6"]
    for k, v in job["params"].items():
        cmd += ["--param", "%s=%d" % (k, v)]
    cmd += list(extra)
    t = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=job["time"] + 120)
        code, err = r.returncode, r.stderr.decode(errors="replace")[-2000:]
    except subprocess.TimeoutExpired:
        code, err = -1, "timed out"
    rep = None
    if os.path.exists(out):
        try:
            rep = json.load(open(out))
        except ValueError as e:
            err += " bad report: %s" % e
    return {"job": job, "code": code, "err": err, "rep": rep, "wall": time.time() - t}


def replay_text(job, inputs):
    lines = ["param %s %d" % (k, v) for k, v in sorted(job["params"].items())]
    for name, kind, data in inputs:
        if kind == "c":
            b = bytes.fromhex(data)
            lines.append("c %s %d" % (name, int.from_bytes(b[:8], "little")))
        elif kind == "b":
            lines.append("b %s %s" % (name, data))
    return "\n".join(lines) + "\n"


def native(binary, entry, text, keep=None):
    """Runs the real code on recorded inputs; returns (exit status, log lines)."""
    d = tempfile.mkdtemp(prefix="psym.")
    try:
        os.makedirs(d + "/root/scratch")
        os.makedirs(d + "/root/home/u")
        with open(d + "/in", "w") as f:
            f.write(text)
        env = {"PSYM_REPLAY": d + "/in", "PSYM_ROOT": d + "/root", "PSYM_LOG": d + "/log", "PATH": "/usr/bin:/bin", "RUST_BACKTRACE": "0"}
        try:
            r = subprocess.run([binary, entry] + ["-"] * 30, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=120, cwd=d + "/root")
            code = r.returncode
        except subprocess.TimeoutExpired:
            code = -999
        log = open(d + "/log", errors="replace").read().splitlines() if os.path.exists(d + "/log") else []
        return code, log
    finally:
        shutil.rmtree(d, ignore_errors=True)


def load_known():
    p = V + "/known_findings.json"
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def is_known(known, prop, job, viol):
    for k in known:
        if k.get("property") != prop or "fixed" in k:
            continue
        if k["entry"] != job["entry"] or not re.search(k["message"], viol["msg"]):
            continue
        if "stack" in k and not any(re.search(k["stack"], l) for l in viol["stack"]):
            continue
        if all(job["params"].get(a) == b for a, b in k.get("params", {}).items()):
            if all(any(n == name and (data == v) for n, kind, data in viol["inputs"]) for name, v in k.get("inputs", {}).items()):
                return k
    return None


def main():
    if sys.argv[1:2] == ["--build"]:
        d = build(["lib", "cli"] if os.path.isdir(V + "/cli-harness") else ["lib"])
        say("built", d)
        return 0
    if sys.argv[1:2] == ["--replay"]:
        text = open(sys.argv[2]).read()
        head = dict(l[2:].split(": ", 1) for l in text.splitlines() if l.startswith("# ") and ": " in l)
        d = build([head["crate"]])
        code, log = native(d[head["crate"]] + "/harness", head["entry"], "\n".join(l for l in text.splitlines() if not l.startswith("#")) + "\n")
        say("\n".join(log))
        say("native exit status", code)
        return 1 if code == 1 else 0
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    jobs = props.jobs(prop, tier)
    dirs = build(sorted({j["crate"] for j in jobs}))
    t_build = time.time() - t0
    work = tempfile.mkdtemp(prefix="symcheck.")
    evid = V + "/evidence"
    os.makedirs(evid, exist_ok=True)
    for f in os.listdir(evid):
        if f.startswith("replay-%s-" % prop):
            os.remove(os.path.join(evid, f))
    try:
        return decide(prop, tier, seed, jobs, dirs, work, t0, t_build)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(prop, tier, seed, jobs, dirs, work, t0, t_build):
    rnd = random.Random(seed)
    # the longest first
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i].get("cost", 1))
    results = [None] * len(jobs)
    with ThreadPoolExecutor(max_workers=int(os.environ.get("SYM_JOBS", "8"))) as ex:
        fs = {i: ex.submit(run_engine, jobs[i], dirs, work, i) for i in order}
        for i, f in fs.items():
            results[i] = f.result()
    problems, found, known_hits = [], [], []
    known = load_known()
    tot = {k: 0 for k in ("paths", "forks", "merges", "insts", "queries", "z3", "unsat", "sat", "domain", "asserts", "asserts_folded", "asserts_z3")}
    ztime, fns, lines, msgs, ends, samples, shards, externals = 0.0, set(), {}, {}, {}, [], [], set()
    validated = mismatched = 0
    versions = set()
    nid = 0
    for r in results:
        job, rep = r["job"], r["rep"]
        label = job["entry"] + "(" + ", ".join("%s=%s" % kv for kv in sorted(job["params"].items())) + ")"
        if rep is None or "inconclusive" in rep or r["code"] != 0:
            why = rep["inconclusive"] if rep and "inconclusive" in rep else r["err"]
            problems.append("%s: %s" % (label, why.strip()[-600:]))
            continue
        s = rep["solver"]
        for k in ("paths", "forks", "merges", "insts"):
            tot[k] += rep[k]
        for k in ("queries", "z3", "unsat", "sat", "domain", "asserts", "asserts_folded", "asserts_z3"):
            tot[k] += s[k]
        ztime += s["time"]
        versions.add(s["name"])
        fns.update(f for f in rep["functions"])
        externals.update(rep["externals"])
        for f, n in rep["lines"].items():
            b = os.path.relpath(f, REPO) if f.startswith(REPO) else f.split("/cli-copy/")[-1]
            lines[b] = max(lines.get(b, 0), n)
        for m, (a, b, c) in rep["asserts"].items():
            x = msgs.setdefault(m, [0, 0, 0])
            x[0] += a
            x[1] += b
            x[2] += c
        for k, n in rep["ended"].items():
            ends[k] = ends.get(k, 0) + n
        if len(samples) < 6 and rep["samples"]:
            samples.append(label + ": " + rep["samples"][0][:400])
        shards.append("%s: %d paths, %d instructions, %d solver calls, %.1f s" % (label, rep["paths"], rep["insts"], s["z3"], r["wall"]))
        binary = dirs[job["crate"]] + "/harness"
        confirmed_here = 0
        for v in rep["violations"]:
            text = replay_text(job, v["inputs"])
            code, log = native(binary, job["entry"], text)
            what = "%s: %s" % (v["kind"], v["msg"])
            if code not in (1, 134, -6, -11, 101):
                problems.append("%s: counterexample does not reproduce natively (status %d, %s): %s" % (label, code, "; ".join(log[-3:]), what))
                continue
            k = is_known(known, prop, job, v)
            if k:
                known_hits.append(k["what"])
                continue
            confirmed_here += 1
            if confirmed_here > 3 or nid >= 8:
                continue
            nid += 1
            path = "%s/evidence/replay-%s-%d.txt" % (V, prop, nid)
            with open(path, "w") as f:
                f.write("# property: %s\n# crate: %s\n# entry: %s\n# failure: %s\n" % (prop, job["crate"], job["entry"], what.replace("\n", " ")))
                f.write("# run with: %s/check.py --replay %s\n" % (V, path))
                for l in v["stack"][:12]:
                    f.write("#   %s\n" % l)
                for l in log[-6:]:
                    f.write("# native> %s\n" % l)
                f.write(text)
            found.append((path, what, v["stack"][:6]))
        # paths the engine believes in, run natively: the real code has to agree
        tr = [t for t in rep.get("traces", []) if t["inputs"] and t["inputs"][-1][1] == "e"]
        tr = [t for t in tr if bytes.fromhex(t["inputs"][-1][2]) == b"returned"]
        rnd.shuffle(tr)
        if not rep["violations"]:
            for t in tr[: job.get("validate", 4)]:
                code, log = native(binary, job["entry"], replay_text(job, t["inputs"][:-1]))
                got = [l.split(" ", 1)[1] for l in log if l.startswith("TRACE ")]
                if code != 0 or (t["trace"] and got != t["trace"]):
                    mismatched += 1
                    problems.append("%s: native run disagrees with the engine (status %d; %s)" % (label, code, "; ".join(log[-3:])))
                else:
                    validated += 1
            missing = [x for x in job.get("reach", []) if x not in rep["reached"]]
            if missing:
                problems.append("%s: never came to %s" % (label, ", ".join(missing)))
    wall = time.time() - t0
    info = props.PROPS[prop]
    level = "model_checking"
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level, "wall_s": round(wall, 2),
        "verdict": "violated" if found else ("no verdict" if problems else "holds within the bounds"),
        "coverage": {
            "states": tot["paths"] + tot["forks"],
            "transitions": tot["insts"],
            "traces_validated_against_impl": validated,
            "rule": "states: symbolic states forked off or run to their end; transitions: IR instructions executed on symbolic states; traces: paths whose model was run natively on the real code with the same outcome",
            "samples": samples,
            "bounds": info["bounds"][tier] if isinstance(info["bounds"], dict) else info["bounds"],
            "outside_bounds": info.get("outside", ""),
            "jobs": len(jobs), "jobs_decided": len(shards), "shards": shards[:60],
            "paths": tot["paths"], "paths_by_end": ends, "merges": tot["merges"],
            "functions_encoded": len(fns), "functions": sorted(fns)[:250], "source_lines_encoded": lines,
            "assertions": {m: {"evaluated": a, "true_by_simplification": b, "decided_by_z3": c} for m, (a, b, c) in sorted(msgs.items())},
            "solver": {"name": "z3 " + ",".join(sorted(versions)), "feasibility_and_assertion_queries": tot["queries"], "z3_calls": tot["z3"], "unsat": tot["unsat"], "sat": tot["sat"],
                       "decided_on_single_byte_domains": tot["domain"], "z3_seconds": round(ztime, 2)},
            "external_functions_modelled": sorted(externals)[:60],
            "build_s": round(t_build, 1), "native_mismatches": mismatched,
            "known_findings": known_hits, "problems": problems[:10],
        },
    }
    txt = json.dumps(ev, indent=1)
    while len(txt) > 60000 and len(ev["coverage"]["functions"]) > 10:
        ev["coverage"]["functions"] = ev["coverage"]["functions"][: len(ev["coverage"]["functions"]) // 2]
        ev["coverage"]["shards"] = ev["coverage"]["shards"][: len(ev["coverage"]["shards"]) // 2]
        txt = json.dumps(ev, indent=1)
    with open(V + "/evidence/%s.json" % prop, "w") as f:
        f.write(txt + "\n")
    for w in sorted(set(known_hits)):
        say("KNOWN-FINDING: property=%s %s" % (prop, w))
    for path, what, stack in found:
        say("VIOLATION property=%s replay=%s" % (prop, path))
        say("  " + what)
        for l in stack:
            say("    " + l)
    for p in problems:
        say("problem:", p)
    say("%s %s: %s; %d jobs, %d paths, %d instructions, %d z3 calls (%.1f s), %d native replays, %.1f s (build %.1f s)" % (
        prop, tier, ev["verdict"], len(jobs), tot["paths"], tot["insts"], tot["z3"], ztime, validated, wall, t_build))
    if found:
        return 1
    return 3 if problems else 0


if __name__ == "__main__":
    sys.exit(main())
