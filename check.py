#!/usr/bin/env python3
"""Builds the explorer of one property from /repo's working tree, runs all of
its shards, and reports.  usage: check.py ID [--tier quick|thorough]
       check.py --build [ID...]      check.py --replay FILE"""
import array, fcntl, glob, hashlib, json, os, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
MC = os.path.join(VERIF, "mc")
TARGET = os.path.join(VERIF, "target")
STABLE = "stable-x86_64-unknown-linux-gnu"
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
TRIPLE = "x86_64-unknown-linux-gnu"

# build modes: toolchain, profile, extra rustflags, subdirectory of TARGET
MODES = {
    "checked": dict(tc=STABLE, profile="checked", flags="", dir="std", target=None, mem=12),
    "plain": dict(tc=STABLE, profile="plain", flags="", dir="std", target=None, mem=12),
    "asan": dict(tc=NIGHTLY, profile="checked", flags="-Zsanitizer=address", dir="asan", target=TRIPLE, mem=None),
    "tsan": dict(tc=NIGHTLY, profile="checked", flags="-Zsanitizer=thread", dir="tsan", target=TRIPLE, mem=None, cargo=["-Zbuild-std"]),
    "asan_plain": dict(tc=NIGHTLY, profile="plain", flags="-Zsanitizer=address", dir="asan", target=TRIPLE, mem=None),
}

sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402


def env_for(mode):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC"):
            del e[k]
    e["HOME"] = e.get("HOME") or "/root"
    e["PATH"] = os.path.join(e["HOME"], ".cargo/bin") + ":" + e.get("PATH", "/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = mode["tc"]
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    if mode["flags"]:
        e["RUSTFLAGS"] = mode["flags"]
    return e


def repo_hash():
    h = hashlib.sha256()
    files = []
    for root, dirs, names in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for n in sorted(names):
            if n != "Cargo.lock":
                files.append(os.path.join(root, n))
    for root, dirs, names in os.walk(MC):
        dirs[:] = sorted(d for d in dirs if d != "target")
        files += [os.path.join(root, n) for n in sorted(names)]
    for f in files:
        h.update(f.encode() + b"\0")
        try:
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
        except OSError:
            h.update(b"-")
    return h.hexdigest()


class BuildError(Exception):
    pass


def build(mode_name, bins):
    """Builds the binaries from the current trees; returns {bin: path}."""
    mode = MODES[mode_name]
    tdir = os.path.join(TARGET, mode["dir"])
    os.makedirs(tdir, exist_ok=True)
    env = env_for(mode)
    with open(os.path.join(tdir, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        # modification times are not trusted: when the sources differ from the
        # ones of the last build, the crates that use them are built anew
        stamp = os.path.join(tdir, ".sources-" + mode["profile"])
        now = repo_hash()
        try:
            last = open(stamp).read()
        except OSError:
            last = ""
        common = ["--offline", "--profile", mode["profile"], "--target-dir", tdir, "--manifest-path", os.path.join(MC, "Cargo.toml")]
        if mode["target"]:
            common += ["--target", mode["target"]]
        if last != now:
            if last:
                subprocess.run(["cargo", "clean", "-p", "essay-tensor", "-p", "essay-opt", "-p", "mc"] + common, env=env,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            try:
                os.unlink(stamp)
            except OSError:
                pass
        args = ["cargo", "build", "-q"] + common + mode.get("cargo", [])
        for b in bins:
            args += ["--bin", b]
        r = subprocess.run(args, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError(r.stdout[-4000:])
        with open(stamp, "w") as f:
            f.write(now)
        out = {}
        base = os.path.join(tdir, mode["target"] or "", mode["profile"])
        rundir = tempfile.mkdtemp(prefix="bin-", dir=tdir)
        for b in bins:
            # a private copy, so that a concurrent rebuild cannot replace it
            dst = os.path.join(rundir, b)
            shutil.copy2(os.path.join(base, b), dst)
            out[b] = dst
        out["_dir"] = rundir
        return out


def limits(mem_gb):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    return f


RUN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:symbolize=0:malloc_fill_byte=165:max_malloc_fill_size=65536:handle_segv=1:quarantine_size_mb=16:max_allocation_size_mb=64",
           "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:symbolize=0:report_signal_unsafe=0:second_deadlock_stack=0",
           "RUST_BACKTRACE": "0"}


def run_env():
    e = dict(os.environ)
    e.update(RUN_ENV)
    return e


def read_progress(path):
    with open(path, "rb") as f:
        return int.from_bytes(f.read(8), "little")


def crash_text(err):
    try:
        t = open(err, errors="replace").read()
    except OSError:
        return ""
    for line in t.splitlines():
        if "Sanitizer: data race" in line or "ERROR: ThreadSanitizer" in line:
            return t[t.index(line):][:700]
        if "ERROR: AddressSanitizer" in line or "runtime error" in line:
            return line.strip()[:400]
    return t.strip()[-400:]


def run_shards(jobs, tmp, stall, total):
    """jobs: list of dicts(cmd, mem, name). Returns list of outcome dicts."""
    t0 = time.time()
    for i, j in enumerate(jobs):
        j["out"] = os.path.join(tmp, f"{i}.json")
        j["prog"] = os.path.join(tmp, f"{i}.prog")
        j["err"] = os.path.join(tmp, f"{i}.err")
        with open(j["prog"], "wb") as f:
            f.write(b"\0" * 8)
        j["state"] = None
    waiting = list(jobs)
    running = []
    ncpu = os.cpu_count() or 4
    stop = False
    while waiting or running:
        while waiting and len(running) < ncpu and not stop:
            j = waiting.pop(0)
            with open(j["err"], "w") as ef:
                j["p"] = subprocess.Popen(j["cmd"] + ["--out", j["out"], "--progress", j["prog"]], stdout=subprocess.DEVNULL, stderr=ef,
                                          preexec_fn=limits(j["mem"]), env=run_env(), cwd=tmp)
            j["last"] = (0, time.time())
            running.append(j)
        if stop:
            waiting = []
        time.sleep(0.02)
        for j in list(running):
            rc = j["p"].poll()
            if rc is not None:
                running.remove(j)
                j["rc"] = rc
                if rc == 0 and os.path.exists(j["out"]):
                    j["state"] = "done"
                else:
                    j["state"] = "crash"
                    j["case"] = read_progress(j["prog"]) - 1
                continue
            pr = read_progress(j["prog"])
            if pr != j["last"][0]:
                j["last"] = (pr, time.time())
            elif time.time() - j["last"][1] > stall:
                os.killpg(j["p"].pid, signal.SIGKILL)
                j["p"].wait()
                running.remove(j)
                j["state"] = "hang"
                j["case"] = pr - 1
        if time.time() - t0 > total and (running or waiting):
            for j in running:
                os.killpg(j["p"].pid, signal.SIGKILL)
                j["p"].wait()
                j["state"] = "timeout"
            return jobs
    return jobs


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path)) if k.get("property") == prop and k.get("status") == "known"]


def replay_file(prop, n, body):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{prop}-{n}.json")
    with open(p, "w") as f:
        json.dump(body, f, indent=1)
    return p


def check(prop, tier):
    spec = CHECKS[prop]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    findings = known_findings(prop)
    violations = []
    merged = dict(evals=0, transitions=0, groups={}, samples=[], modes={})
    states, outcomes = set(), set()
    known_hit = {}
    errors = []
    dirs = []
    tmp = None
    os.makedirs(TARGET, exist_ok=True)
    try:
        tmp = tempfile.mkdtemp(prefix="run-", dir=TARGET)
        kf = os.path.join(tmp, "known.txt")
        with open(kf, "w") as f:
            f.write("".join(k["key"] + "\n" for k in findings))
        jobs = []
        runs = list(spec["runs"])
        if tier == "thorough":
            runs += spec.get("thorough_runs", [])
        for r in runs:
            try:
                b = build(r["mode"], [r["bin"]])
            except BuildError as e:
                if spec.get("build_failure_is_violation") and repo_builds():
                    violations.append(dict(mode=r["mode"], case=-1, key="the harness using the macro no longer compiles", detail=str(e)[-1500:]))
                    continue
                errors.append(f"build failed for {prop} ({r['mode']}, {r['bin']}):\n{e}")
                continue
            dirs.append(b["_dir"])
            n = r.get("shards", 4)
            for i in range(n):
                jobs.append(dict(mode=r["mode"], bin=r["bin"], mem=MODES[r["mode"]]["mem"], shard=i,
                                 cmd=[b[r["bin"]], "--tier", tier, "--shard", str(i), "--nshards", str(n), "--known", kf] + r.get("args", [])))
        stall = 90 if tier == "quick" else 900
        total = 780 if tier == "quick" else 6 * 3600
        run_shards(jobs, tmp, stall, total)
        for j in jobs:
            m = merged["modes"].setdefault(j["mode"], dict(shards=0, cases=0))
            if j["state"] == "done":
                d = json.load(open(j["out"]))
                m["shards"] += 1
                m["cases"] += d["evals"]
                merged["evals"] += d["evals"]
                merged["transitions"] += d["transitions"]
                for k, v in d["groups"].items():
                    merged["groups"][k] = merged["groups"].get(k, 0) + v
                for s in d["samples"]:
                    if len(merged["samples"]) < 16 and s not in merged["samples"]:
                        merged["samples"].append(s)
                for ext, tgt in (("states", states), ("outcomes", outcomes)):
                    a = array.array("Q")
                    with open(j["out"] + "." + ext, "rb") as f:
                        a.frombytes(f.read())
                    tgt.update(a)
                for v in d["violations"]:
                    violations.append(dict(mode=j["mode"], bin=j["bin"], case=v["case"], key=v["key"], detail=v["detail"]))
                for v in d["known_hit"]:
                    known_hit[v["key"]] = v["detail"]
            elif j["state"] == "crash":
                rc = j["rc"]
                what = f"process ended with {'signal ' + str(-rc) if rc < 0 else 'status ' + str(rc)}"
                text = crash_text(j["err"])
                if rc == -signal.SIGKILL or j["case"] < 0 or (rc > 0 and not text) or rc == 2:
                    errors.append(f"{j['mode']} shard {j['shard']}: {what} (case {j['case']}) {text}")
                else:
                    violations.append(dict(mode=j["mode"], bin=j["bin"], case=j["case"], key=label_of(j, tier), detail=f"{what}: {text}"))
            elif j["state"] == "hang":
                # confirm in isolation before calling it a hang of the code
                p = subprocess.Popen(j["cmd"] + ["--only", str(j["case"])], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=limits(j["mem"]), env=run_env(), cwd=tmp)
                try:
                    p.wait(timeout=stall)
                    errors.append(f"{j['mode']} shard {j['shard']}: stalled at case {j['case']}, not reproduced")
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    violations.append(dict(mode=j["mode"], bin=j["bin"], case=j["case"], key=f"case {j['case']}", detail="the call does not terminate"))
            else:
                errors.append(f"{j['mode']} shard {j['shard']}: {j['state']}")
    finally:
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)
        for d in dirs:
            shutil.rmtree(d, ignore_errors=True)
    wall = time.time() - t0
    cov = dict(
        states=len(states), transitions=merged["transitions"], traces_validated_against_impl=merged["evals"],
        samples=merged["samples"], exhaustive=not errors and not violations, distinct_outcomes=len(outcomes),
        cases_by_group=merged["groups"], builds=merged["modes"], bounds=spec["bounds"][tier] if isinstance(spec["bounds"], dict) else spec["bounds"],
        state_means=spec.get("state_means", "distinct input configuration / model state visited"),
    )
    if spec["level"] == "fault_enumeration":
        cov.update(evaluations=merged["evals"], distinct_nontrivial=len(states), rule=spec["rule"])
        del cov["states"], cov["traces_validated_against_impl"]
    ev = dict(property=prop, tier=tier, seed=seed, level=spec["level"], coverage=cov, assumptions=spec.get("assumptions", []),
              wall_s=round(wall, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in findings:
        if k["key"] in known_hit:
            print(f"KNOWN-FINDING: property={prop} {k['what']} [{k['key']}]")
    print(f"{prop} {tier}: {merged['evals']} cases, {merged['transitions']} operations, {len(states)} states, {len(outcomes)} outcomes, {wall:.1f} s")
    if violations:
        for n, v in enumerate(violations[:5]):
            path = replay_file(prop, n, dict(property=prop, tier=tier, **v))
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  [{v['mode']}] {v['key']}: {v['detail'][:600]}")
        return 1
    if errors:
        for e in errors:
            print("ERROR: " + e, file=sys.stderr)
        return 2
    if merged["evals"] == 0:
        print("ERROR: nothing was explored", file=sys.stderr)
        return 2
    return 0


def label_of(j, tier):
    return f"{j['bin']} case {j['case']}"


def repo_builds():
    e = env_for(MODES["plain"])
    tdir = os.path.join(TARGET, "repo")
    r = subprocess.run(["cargo", "build", "-q", "--offline", "--target-dir", tdir], cwd=REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.returncode == 0


def replay(path):
    v = json.load(open(path))
    b = build(v["mode"], [v["bin"]])
    try:
        r = subprocess.run([b[v["bin"]], "--tier", v["tier"], "--only", str(v["case"])], env=run_env(), preexec_fn=limits(MODES[v["mode"]]["mem"]))
        return 0 if r.returncode == 0 else 1
    finally:
        shutil.rmtree(b["_dir"], ignore_errors=True)


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "--build":
        per = {}
        for prop, spec in CHECKS.items():
            if a[1:] and prop not in a[1:]:
                continue
            for r in spec["runs"]:
                per.setdefault(r["mode"], set()).add(r["bin"])
        for mode, bins in per.items():
            try:
                b = build(mode, sorted(bins))
                shutil.rmtree(b["_dir"], ignore_errors=True)
            except BuildError as e:
                print(f"ERROR: build {mode}: {e}", file=sys.stderr)
                return 2
        return 0
    if a[0] == "--replay":
        return replay(a[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    return check(a[0], tier)


if __name__ == "__main__":
    sys.exit(main())
