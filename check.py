#!/usr/bin/env python3
"""check.py setup | check.py Cnn  (VERIF_TIER=quick|thorough, VERIF_SEED)

Builds the explorer against /repo's current tree, explores the property's scenarios on every
instruction-set path of the library, merges the results into evidence/<id>.json.
Exit 0: held on everything explored; 1: VIOLATION; 2: the check itself failed."""
import hashlib, json, os, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
STABLE = "stable-x86_64-unknown-linux-gnu"
sys.path.insert(0, V)
import props  # per-property texts and options


def die(msg):
    print("engine error: " + msg, file=sys.stderr)
    sys.exit(2)


def sources():
    h = hashlib.sha256()
    for root in (REPO + "/src", REPO + "/Cargo.toml"):
        files = [root]
        if os.path.isdir(root):
            files = sorted(os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs)
        for f in files:
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


def cargo(crate, toolchain, features, target, extra_env=None, profile="release"):
    """Build a crate of /verif; cargo only compares mtimes, so a changed source hash drops the
    library's fingerprint to force the rebuild."""
    env = dict(os.environ)
    for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTUP_TOOLCHAIN"):
        env.pop(k, None)
    env.update(HOME="/root", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    env.update(extra_env or {})
    tdir = os.path.join(V, crate, "target", target)
    os.makedirs(tdir, exist_ok=True)
    stamp = os.path.join(tdir, "sources.sha256")
    want = sources()
    have = open(stamp).read() if os.path.exists(stamp) else ""
    if have != want:
        fp = os.path.join(tdir, profile, ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith("ezk-image-"):
                    subprocess.run(["rm", "-rf", os.path.join(fp, d)])
    cmd = ["cargo", "+" + toolchain, "build", "--profile", profile, "--offline", "--target-dir", tdir]
    if features:
        cmd += ["--features", features]
    r = subprocess.run(cmd, cwd=os.path.join(V, crate), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-6000:], file=sys.stderr)
        die(f"building {crate} ({toolchain}) failed")
    with open(stamp, "w") as f:
        f.write(want)
    return os.path.join(tdir, profile, crate)


def build_mc():
    return cargo("mc", NIGHTLY, "unstable", "u")


def build_stable():
    return cargo("mc", STABLE, "", "s")


def build_checked():
    """with overflow checks and debug assertions, as in a user's debug build"""
    return cargo("mc", NIGHTLY, "unstable", "c", profile="checked")


def build_sched():
    return cargo("sched", NIGHTLY, "", "n", {"RUSTC_WRAPPER": os.path.join(V, "sched", "rustc-wrapper.sh")})


# ---- the 64-bit ARM (NEON) path, interpreted by Miri -----------------------------------------
ARM = os.path.join(V, "mc", "target", "arm")
ARM_TARGET = "aarch64-unknown-linux-gnu"


def arm_env():
    env = dict(os.environ)
    for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTUP_TOOLCHAIN", "RUSTC", "MIRI_SYSROOT"):
        env.pop(k, None)
    env.update(HOME="/root", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
               MIRI_LIB_SRC=os.path.join(ARM, "library"), XDG_CACHE_HOME=os.path.join(ARM, "cache"),
               MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-disable-validation -Zmiri-disable-stacked-borrows "
                         "-Zmiri-deterministic-floats -Zmiri-deterministic-concurrency")
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    return env


def arm_prepare():
    """Standard library for the interpreter: a copy of rust-src in which the few NEON intrinsics the
    interpreter lacks are written out lane by lane.  Returns what is missing, or None."""
    ready = os.path.join(ARM, "ready")
    if os.path.exists(ready):
        return None
    try:
        root = subprocess.run(["rustc", "+" + NIGHTLY, "--print", "sysroot"], env=arm_env(), capture_output=True, text=True, timeout=60).stdout.strip()
        src = os.path.join(root, "lib/rustlib/src/rust/library")
        if not os.path.isdir(src):
            return "no rust-src"
        os.makedirs(ARM, exist_ok=True)
        subprocess.run(["rm", "-rf", os.path.join(ARM, "library"), os.path.join(ARM, "cache")], check=True)
        subprocess.run(["cp", "-a", src, os.path.join(ARM, "library")], check=True)
        p = subprocess.run([sys.executable, os.path.join(V, "mc", "neon_for_miri.py"), os.path.join(ARM, "library")], capture_output=True, text=True)
        if p.returncode:
            return "the standard library could not be adapted: " + p.stderr[-300:]
        p = subprocess.run(["cargo", "+" + NIGHTLY, "miri", "setup", "--target", ARM_TARGET], env=arm_env(), capture_output=True, text=True, timeout=600)
        if p.returncode:
            return "cargo miri setup failed: " + p.stderr[-300:]
    except (OSError, subprocess.SubprocessError) as e:
        return str(e)
    open(ready, "w").write("ok\n")
    return None


def arm_cmd(args):
    return ["cargo", "+" + NIGHTLY, "miri", "run", "--offline", "--target", ARM_TARGET, "--target-dir", os.path.join(ARM, "build"), "--"] + args


def arm_build():
    """Type-checks the explorer and the library for ARM.  Returns what is missing, or None."""
    e = arm_prepare()
    if e:
        return e
    stamp = os.path.join(ARM, "sources.sha256")
    want = sources()
    have = open(stamp).read() if os.path.exists(stamp) else ""
    if have != want:
        for prof in ("debug", "release"):
            fp = os.path.join(ARM, "build", ARM_TARGET, prof, ".fingerprint")
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith("ezk-image-"):
                        subprocess.run(["rm", "-rf", os.path.join(fp, d)])
    try:
        p = subprocess.run(arm_cmd(["nothing"]), cwd=os.path.join(V, "mc"), env=arm_env(), capture_output=True, text=True, timeout=300)
    except (OSError, subprocess.SubprocessError) as e:
        return str(e)
    if "usage: mc run" not in p.stderr:
        return "the interpreter does not run the explorer: " + p.stderr[-600:]
    open(stamp, "w").write(want)
    return None


def arm_run(pid, tier, limit, scratch):
    """Explore the small scenarios in eight interpreters.  Returns (part, violation text or None)."""
    e = arm_build()
    if e:
        return {"not_run": e}, None
    n = 8
    procs, outs = [], []
    for i in range(n):
        out = os.path.join(scratch, f"{pid}-arm-{i}.json")
        if os.path.exists(out):
            os.remove(out)
        outs.append(out)
        args = ["run", pid, "--small", "--tier", tier, "--build", f"arm{i}", "--part", f"{i}/{n}", "--workers", "1", "--out", out,
                "--known", os.path.join(V, "known_findings.txt"), "--replays", os.path.join(V, "replays"), "--limit", str(limit)]
        fo, fe = open(out + ".out", "w+"), open(out + ".err", "w+")
        procs.append((subprocess.Popen(arm_cmd(args), cwd=os.path.join(V, "mc"), env=arm_env(), stdout=fo, stderr=fe, text=True), fo, fe))
    end = time.time() + limit + 90
    parts, bad, trouble = [], None, []
    for (p, fo, fe), out in zip(procs, outs):
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            trouble.append("time limit")
        fo.seek(0), fe.seek(0)
        so, se = fo.read(), fe.read()
        fo.close(), fe.close()
        if os.path.exists(out):
            parts.append(json.load(open(out)))
        if p.returncode == 1 and "VIOLATION property=" in so:
            bad = bad or so
        elif p.returncode and "error: Undefined Behavior" in se:
            at = [l for l in se.splitlines() if l.startswith("@ ")]
            what = se[se.index("error: Undefined Behavior"):][:1500]
            os.makedirs(os.path.join(V, "replays"), exist_ok=True)
            path = os.path.join(V, "replays", f"{pid}-arm.json")
            json.dump({"property": pid, "build": "arm", "execution": at[-1:], "message": what}, open(path, "w"), indent=1)
            bad = bad or f"{what}\nwhile exploring {at[-1:]}\nVIOLATION property={pid} replay={path}\n"
        elif p.returncode:
            trouble.append(se[-400:])
    if not parts:
        return {"not_run": "; ".join(trouble) or "violation"}, bad
    m = {"isa": parts[0].get("isa"), "complete": all(x["complete"] for x in parts) and len(parts) == n, "per_scenario": {}, "samples": [], "max_dev": max(x["max_dev"] for x in parts)}
    for k in ("executions", "calls", "compared", "samples_checked", "states", "violations"):
        m[k] = sum(x[k] for x in parts)
    for x in parts:
        for k, v in x["per_scenario"].items():
            m["per_scenario"][k] = m["per_scenario"].get(k, 0) + v
        m["samples"] += x["samples"][:1]
    if trouble:
        m["trouble"] = trouble
    return m, bad


def run(cmd, limit):
    try:
        p = subprocess.run(cmd, cwd=V, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=limit)
    except subprocess.TimeoutExpired:
        die("time limit: " + " ".join(cmd))
    return p


def main():
    if len(sys.argv) != 2:
        die(__doc__)
    if sys.argv[1] == "setup":
        build_mc()
        if props.HAVE_SCHED:
            build_sched()
        e = arm_build()
        if e:
            print("the ARM path will not be explored: " + e, file=sys.stderr)
        return 0
    pid = sys.argv[1]
    P = props.P[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "0"))
    except ValueError:
        seed = 0
    t0 = time.time()
    limit = 780 if tier == "quick" else 7200
    scratch = os.path.join(V, "evidence", ".parts")
    os.makedirs(scratch, exist_ok=True)
    jobs = []
    if P.get("mc", True):
        mc = build_mc()
        for isa in P.get("isa", ["best", "avx2", "scalar"]):
            jobs.append((f"nightly+unstable/{isa}", mc, ["--isa", isa]))
        if tier == "thorough":
            jobs.append(("stable/best", build_stable(), ["--isa", "best"]))
            jobs.append(("overflow checks and debug assertions/best", build_checked(), ["--isa", "best"]))
    if P.get("sched"):
        sched = build_sched()
        for isa in P["sched"]:
            jobs.append((f"controlled-scheduler/{isa}", sched, ["--isa", isa]))
    parts, rc, known = {}, 0, []
    for name, binary, args in jobs:
        left = int(limit - (time.time() - t0))
        out = os.path.join(scratch, f"{pid}-{name.replace('/', '-').replace(' ', '-')}.json")
        if os.path.exists(out):
            os.remove(out)
        cmd = [binary, "run", pid, "--tier", tier, "--build", name.replace("/", "-").replace(" ", "-"), "--out", out,
               "--known", os.path.join(V, "known_findings.txt"), "--replays", os.path.join(V, "replays")]
        if tier == "quick":
            cmd += ["--limit", str(max(left - 20, 10))]
        else:
            cmd += ["--limit", str(max(left // max(1, len(jobs) - len(parts)), 30))]
        p = run(cmd + args, max(left + 60, 90))
        for l in p.stdout.splitlines():
            if l.startswith("KNOWN-FINDING:"):
                if l.split(" (e.g.")[0] not in known:
                    known.append(l.split(" (e.g.")[0])
                    print(l)
            elif p.returncode:
                print(l)
        if p.returncode == 1 and "VIOLATION property=" in p.stdout:
            rc = 1
        elif p.returncode != 0:
            sys.stderr.write(p.stderr[-3000:])
            die(f"{name} ended with status {p.returncode}")
        parts[name] = json.load(open(out)) if os.path.exists(out) else {"violations": 1}
        if rc:
            break
    arm = P.get("arm")
    if rc == 0 and arm and (tier == "thorough" or arm == "quick"):
        left = int(limit - (time.time() - t0))
        part, bad = arm_run(pid, tier, max(20, min(left - 120, 150 if tier == "quick" else 3600)), scratch)
        if bad:
            rc = 1
            print(bad, end="")
        parts["aarch64 under Miri/neon"] = part
    tot = lambda k: sum(int(x.get(k, 0)) for x in parts.values())
    complete = all(x.get("complete", False) for x in parts.values() if "not_run" not in x)
    if rc == 0 and not complete:
        print(f"{pid}: the time limit ended the exploration before it was complete", file=sys.stderr)
    samples = []
    for n, x in parts.items():
        samples += [f"[{n}] {s}" for s in x.get("samples", [])[:4]]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("states"),
            "transitions": tot("calls"),
            "traces_validated_against_impl": tot("compared"),
            "evaluations": tot("executions"),
            "samples": samples or ["no execution completed"],
            "exhaustive": bool(complete and rc == 0),
            "explanation": props.EXPLAIN + " " + P["explain"],
            "values_compared": tot("samples_checked"),
            "instruction_sets_in_effect": {n: x.get("isa") for n, x in parts.items()},
            "parts": parts,
        },
        "assumptions": props.ASSUME + P.get("assume", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if rc else 0,
    }
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if rc == 0:
        print(f"{pid}: held on {tot('executions')} executions ({tot('calls')} library calls, {tot('samples_checked')} values compared) in {ev['wall_s']} s")
    return rc


sys.exit(main())
