#!/usr/bin/env python3
"""Driver of the property checks.

  check.py check ID [quick|thorough]   run one property's campaign (exit 0 / 1 / 2)
  check.py replay FILE                 re-run a replay file against the current tree
  check.py build [root_h|eval_h]       only build the harnesses

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.
Anything else (build failure, time-out, out of memory, harness error): exit 2,
no verdict.
"""
import fcntl, json, os, re, resource, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
EVID = os.path.join(HERE, "evidence")
REPL = os.path.join(HERE, "replays")
KNOWN = os.path.join(HERE, "known_findings.txt")
TARGET = os.path.join(HERE, "target")
THREADS = str(min(8, os.cpu_count() or 8))
LIMIT = {"quick": 700, "thorough": 14000}
# one generated case takes milliseconds and a few megabytes; these are far beyond that
CASE_CPU_S = 60
CASE_MEM = 6 << 30
WORKER_MEM = 22 << 30

# which harness decides which property
EVAL = {"P21", "P22", "P23", "P27"}


def harness_of(pid):
    return "eval_h" if pid in EVAL else "root_h"


def die(msg):
    print("ERROR " + msg)
    sys.stdout.flush()
    sys.exit(2)


def env_for(h):
    e = dict(os.environ)
    for k in ("RUSTC", "RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_INCREMENTAL", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    home = e.get("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_BACKTRACE"] = "0"
    e["CARGO_TARGET_DIR"] = os.path.join(TARGET, h)
    if h == "root_h":
        e["RUSTUP_TOOLCHAIN"] = "stable"
    else:
        # the eval crate needs an old nightly rustc (box_syntax) and a cargo that can still drive it
        e["RUSTUP_TOOLCHAIN"] = "1.75.0"
        e["RUSTC"] = "/root/.rustup/toolchains/nightly-2023-02-10-x86_64-unknown-linux-gnu/bin/rustc"
    return e


def build(h):
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, h + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=os.path.join(HERE, h), env=env_for(h),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        die("harness %s does not build against the current tree" % h)
    return os.path.join(TARGET, h, "debug", h)


def known_for(pid):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) signature=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3).strip()))
    return out


def limits(mem, cpu):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    return f


def run_case(binary, pid, seed, i, notes=False):
    """One case in a process of its own: (exit code, stdout, stderr, why it cannot end or None)."""
    cmd = [binary, "case", pid, str(seed), str(i)] + (["notes"] if notes else [])
    rc, out, err = run_limited(cmd, 600, limits(CASE_MEM, CASE_CPU_S), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    out = (out or b"").decode("utf8", "replace")
    err = (err or b"").decode("utf8", "replace")
    why = None
    if rc in (-signal.SIGXCPU, -signal.SIGKILL):
        why = "it does not finish within %d s of processor time" % CASE_CPU_S
    elif rc == -signal.SIGABRT and "memory allocation of" in err:
        why = "it needs more than %d GB of memory" % (CASE_MEM >> 30)
    elif rc == -signal.SIGABRT and ("overflowed its stack" in err or "panic" in err):
        why = "the process aborts on it: " + err.strip()[-400:]
    return rc, out, err, why


def run_limited(cmd, limit, pre=None, **kw):
    p = subprocess.Popen(cmd, start_new_session=True, preexec_fn=pre, **kw)
    try:
        out, err = p.communicate(timeout=limit)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, None, None


def write_replay(pid, seed, tag, body):
    os.makedirs(REPL, exist_ok=True)
    f = os.path.join(REPL, "%s-seed%d-%s.json" % (pid, seed, tag))
    with open(f, "w") as h:
        json.dump(body, h, indent=1)
    return f


def evidence(pid, tier, seed, coverage, wall, assumptions, violations):
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
                   "assumptions": assumptions, "wall_s": round(wall, 2), "violations": violations}, f, indent=1)


def crashed(binary, pid, seed, tier, out, t0, rc, err):
    """The harness process died or stopped: find the case that does it, on its own."""
    if os.path.exists(out + ".unshrunk"):
        # a failure was found, and one of its smaller variants brought the process down
        d = json.load(open(out + ".unshrunk"))
        f = write_replay(pid, seed, "case%d" % d["case"], {"property": pid, "kind": "choices", "seed": seed, "case": d["case"],
                         "choices": d["choices"], "message": d["message"], "trace": ["(not shrunk)"],
                         "replay": "python3 check.py replay <this file>"})
        evidence(pid, tier, seed, {"evaluations": d["evaluations"], "distinct_nontrivial": 0, "rule": "stopped at a failing case",
                                   "samples": ["failing case (not shrunk): " + d["message"][:1000]]}, time.time() - t0, [], 1)
        print("case %d: %s" % (d["case"], d["message"][:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, f))
        return 1
    inflight = set()
    m = re.search(r"HANG case (\d+)", err)
    if m:
        inflight.add(int(m.group(1)))
    else:
        for t in range(64):
            p = "%s.inflight.%d" % (out, t)
            if os.path.exists(p):
                b = open(p, "rb").read(8)
                if len(b) == 8:
                    v = int.from_bytes(b, "little")
                    if v != (1 << 64) - 1:
                        inflight.add(v)
    for i in sorted(inflight):
        rc1, _, err1, why = run_case(binary, pid, seed, i)
        if why:
            # deterministic: endless or unbounded work, or a panic during unwinding, on one small generated input
            _, notes, _, why2 = run_case(binary, pid, seed, i, notes=True)
            if not why2:
                continue
            notes = [n[:600] for n in notes.splitlines()[-60:]]
            f = write_replay(pid, seed, "case%d" % i, {"property": pid, "kind": "crash", "seed": seed, "case": i,
                             "message": why, "trace": notes})
            evidence(pid, tier, seed, {"evaluations": i + 1, "distinct_nontrivial": 0, "rule": "stopped at a case that does not end normally",
                                       "samples": notes or ["case %d" % i]}, time.time() - t0, [], 1)
            print("case %d does not end normally: %s" % (i, why))
            for n in notes[-25:]:
                print("    " + n)
            print("VIOLATION property=%s replay=%s" % (pid, f))
            return 1
        if rc1 == 1:
            print(err1)
    die("harness ended with %s and no single case reproduces it (no verdict)" % rc)


def check(pid, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    h = harness_of(pid)
    binary = build(h)
    tb = time.time() - t0
    tmp = os.path.join(TARGET, "run")
    os.makedirs(tmp, exist_ok=True)
    out = os.path.join(tmp, "%s.%d" % (pid, os.getpid()))
    try:
        os.environ["PBT_KNOWN"] = ",".join(k[0] for k in known_for(pid))
        rc, _, err = run_limited([binary, "worker", pid, tier, str(seed), out, THREADS], LIMIT[tier], limits(WORKER_MEM, 0),
                                 stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        if rc is None:
            die("time limit of %d s reached (no verdict)" % LIMIT[tier])
        if rc != 0:
            sys.stdout.write((err or b"").decode("utf8", "replace")[-2000:])
            if rc in (-signal.SIGABRT, -signal.SIGSEGV, 4, 5):
                return crashed(binary, pid, seed, tier, out, t0, rc, (err or b"").decode("utf8", "replace"))
            die("harness ended with %s (no verdict)" % rc)
        d = json.load(open(out))
    finally:
        for f in os.listdir(tmp):
            if f.startswith(os.path.basename(out)):
                os.unlink(os.path.join(tmp, f))
    fail = d["fail"]
    samples = d["samples"]
    if fail:
        samples = ["failing case: " + "; ".join(fail["trace"])]
    cov = {"evaluations": d["evaluations"], "distinct_nontrivial": d["distinct_nontrivial"], "rule": d["rule"],
           "samples": samples, "nontrivial_evaluations": d["nontrivial"], "choices_drawn": d["draws"],
           "labels": d["labels"], "known_finding_hits": d["known"], "build_s": round(tb, 2), "threads": int(THREADS)}
    evidence(pid, tier, seed, cov, time.time() - t0, d["assumptions"], 1 if fail else 0)
    for sig, what in known_for(pid):
        print("KNOWN-FINDING: property=%s %s (%s, met %d times)" % (pid, what, sig, d["known"].get(sig, 0)))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s (+%.1f s build)" % (
        pid, tier, seed, d["evaluations"], d["distinct_nontrivial"], d["wall_s"], tb))
    print("  " + ", ".join("%s=%d" % kv for kv in sorted(d["labels"].items())))
    if fail:
        if not fail["confirmed"]:
            # every case is a function of its choices, so this means hidden state: report with the seed instead
            r = run_case(binary, pid, seed, fail["case"])
            if r[0] != 1:
                die("a failure of case %d could not be reproduced (no verdict): %s" % (fail["case"], fail["original_message"]))
        f = write_replay(pid, seed, "case%d" % fail["case"], {
            "property": pid, "kind": "choices", "seed": seed, "case": fail["case"], "choices": fail["choices"],
            "message": fail["message"], "original_message": fail["original_message"],
            "original_choices": fail["original_len"], "trace": fail["trace"],
            "replay": "python3 check.py replay <this file>"})
        print("shrunk from %d to %d choices:" % (fail["original_len"], len(fail["choices"])))
        for l in fail["trace"]:
            print("    " + l[:600])
        print("    => " + fail["message"][:1500])
        print("VIOLATION property=%s replay=%s" % (pid, f))
        return 1
    return 0


def replay(path):
    d = json.load(open(path))
    pid = d["property"]
    os.environ["PBT_KNOWN"] = ",".join(k[0] for k in known_for(pid))
    binary = build(harness_of(pid))
    if d["kind"] == "crash":
        rc, out, err, why = run_case(binary, pid, d["seed"], d["case"], notes=True)
        print(out[-6000:])
        print(why or err[-2000:])
        return 1 if rc != 0 else 0
    tmp = path + ".choices"
    with open(tmp, "w") as f:
        f.write(" ".join(map(str, d["choices"])))
    try:
        r = subprocess.run([binary, "choices", pid, tmp])
    finally:
        os.unlink(tmp)
    return 1 if r.returncode != 0 else 0


def main():
    a = sys.argv[1:]
    if a[:1] == ["check"] and len(a) >= 2:
        tier = a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick")
        sys.exit(check(a[1], tier))
    if a[:1] == ["replay"]:
        sys.exit(replay(a[1]))
    if a[:1] == ["build"]:
        for h in (a[1:] or [x for x in ("root_h", "eval_h") if os.path.isdir(os.path.join(HERE, x))]):
            print(build(h))
        sys.exit(0)
    print(__doc__)
    sys.exit(2)


main()
