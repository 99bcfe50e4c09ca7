#!/usr/bin/env python3
"""Decides one property by simulation, builds the simulator, or replays a recorded violation.

  check.py setup                 build the simulator for every feature set
  check.py C01                   the check of property C01 (VERIF_TIER, VERIF_SEED)
  check.py replay FILE           run a recorded violation again
"""
import hashlib, json, os, shutil, signal, subprocess, sys, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
SIM = os.path.join(VERIF, "sim")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
CONFIGS = ["default", "rustls", "openssl", "bare"]

# property -> [(feature set, families with weights, share of the time)]
PARTS = {
    "C01": [("default", "segment:3,routing:1,concurrent:1", 3), ("rustls", "segment:3,tls:2,routing:1", 2), ("bare", "segment:3,routing:1", 1)],
    "C02": [("default", "backpressure:3,segment:2,files:1,malformed:1", 3), ("rustls", "backpressure:2,tls:1", 1), ("bare", "backpressure:2,segment:1", 1)],
    "C03": [("default", "concurrent:3,backpressure:1,chaos:1", 3), ("rustls", "concurrent:3,tls:1", 1), ("openssl", "concurrent:1", 1)],
    "C04": [("default", "stall", 3), ("rustls", "stall:2,tlstrouble:1", 1), ("openssl", "stall", 1)],
    "C05": [("default", "chaos:4,malformed:1,truncate:1", 3), ("rustls", "chaos", 1), ("openssl", "chaos", 1), ("bare", "chaos", 1)],
    "C06": [("default", "truncate:3,segment:1,chaos:1", 3), ("rustls", "truncate", 1), ("openssl", "truncate", 1)],
    "C07": [("default", "malformed:4,truncate:1,routing:1", 3), ("rustls", "malformed", 1), ("bare", "malformed", 1)],
    "C08": [("default", "routing", 3), ("bare", "routing", 1), ("rustls", "routing", 1)],
    "C09": [("default", "routing", 3), ("rustls", "routing", 1), ("bare", "routing", 1)],
    "C10": [("default", "files", 3), ("rustls", "files", 1), ("openssl", "files", 1), ("bare", "files", 1)],
    "C11": [("default", "accept", 2), ("rustls", "accept", 1), ("openssl", "accept", 1)],
    "C12": [("default", "restart", 2), ("rustls", "restart", 1), ("openssl", "restart", 1)],
    "C13": [("default", "leak:3,chaos:2,files:2,truncate:1", 3), ("rustls", "leak:2,chaos:1,files:1", 1), ("openssl", "leak:2,chaos:1,files:1", 1)],
    "C14": [("default", "clock", 3), ("rustls", "clock", 1), ("bare", "clock", 1)],
    "C15": [("default", "memory", 3), ("rustls", "memory", 1), ("bare", "memory", 1)],
    "C16": [("rustls", "tls:3,concurrent:1,files:1,backpressure:1", 1), ("openssl", "tls:3,concurrent:1,files:1,backpressure:1", 1)],
    "C17": [("rustls", "tlstrouble:4,startup:1", 1), ("openssl", "tlstrouble:4,startup:1", 1)],
    "C19": [("default", "startup", 2), ("rustls", "startup", 1), ("openssl", "startup", 1)],
}
BUDGET = {"quick": 45, "thorough": 600}

RULE = (
    "One case is one simulated execution: the seed yields a plan (routes, clients, requests, segmentation, reading speed, faults, clock, "
    "worker threads) and a schedule; the whole server runs under the simulator to quiescence and its history is judged against the reference "
    "model. Non-trivial: at least one injected fault or one preemption, and at least one handler call or completed exchange. Distinct: by the "
    "hash over every scheduling decision, delivery, system call result and fault of the execution."
)
REAL = [
    "octane, octane_http (all code under test)", "tokio 0.3 runtime, reactor and scheduler", "mio", "socket2", "rust std (sync, io, net, fs, thread)",
    "rustls / OpenSSL server side in the TLS feature sets", "glibc outside of the intercepted calls",
]
STUB = [
    "kernel TCP sockets, listen queues, epoll, eventfd, futex wake-ups, thread scheduling, clocks, getrandom: simulated at the libc boundary",
    "regular files: real files in a scratch directory behind a fault-injecting open/read",
    "network peers: simulated clients (TLS by rustls without I/O)",
]
ASSUME = [
    "the simulated kernel keeps the contract of Linux TCP, epoll (edge triggered), futex and files as documented; closing a socket with unread "
    "data is modelled without the reset Linux would send",
    "threads are switched at system calls, allocations and basic blocks of the code under test, not inside dependencies between these points, "
    "and memory is sequentially consistent",
    "sampling by seed: what no explored schedule, input or fault sequence reaches is not decided",
]


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def tree_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock", ".html", ".txt")):
                p = os.path.join(root, f)
                h.update(p.encode() + b"\0")
                try:
                    with open(p, "rb") as fh:
                        h.update(fh.read())
                except OSError:
                    pass
    return h.hexdigest()


def cargo_env(cfg):
    e = dict(os.environ)
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, cfg)
    e["RUSTC_WRAPPER"] = os.path.join(SIM, "rustc-wrap.sh")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


def start_build(cfg):
    os.makedirs(os.path.join(BUILD, cfg), exist_ok=True)
    mark = os.path.join(BUILD, cfg, ".tree")
    now = tree_hash()
    try:
        old = open(mark).read()
    except OSError:
        old = None
    if old is not None and old != now:
        subprocess.run(["cargo", "clean", "--offline", "-p", "octane", "-p", "octane_http", "-p", "octane_macros", "-p", "octshell"],
                       cwd=SIM, env=cargo_env(cfg), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    with open(mark, "w") as f:
        f.write(now)
    out = open(os.path.join(BUILD, cfg + ".log"), "w")
    return subprocess.Popen(["cargo", "build", "--offline", "--features", "c_" + cfg], cwd=SIM, env=cargo_env(cfg), stdout=out,
                            stderr=subprocess.STDOUT)


def build(cfgs):
    """builds these feature sets, returns those that could be built"""
    lock = os.path.join(SIM, "Cargo.lock")
    keep = open(lock, "rb").read()
    ps = [(c, start_build(c)) for c in cfgs]
    ok = []
    for c, p in ps:
        if p.wait() == 0:
            ok.append(c)
        else:
            log("feature set %s does not build, see build/%s.log" % (c, c))
            log(open(os.path.join(BUILD, c + ".log")).read()[-2500:])
    if open(lock, "rb").read() != keep:
        with open(lock, "wb") as f:
            f.write(keep)
    return ok


def binary(cfg):
    return os.path.join(BUILD, cfg, "debug", "octsim")


def scratch():
    d = os.path.join(BUILD, "scratch.%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    return d


def explore(cfg, fams, secs, seed, prop, work):
    out = os.path.join(work, "result.%s.json" % cfg)
    cmd = [binary(cfg), "run", "--families", fams, "--time", str(secs), "--seed", str(seed), "--prop", prop, "--work", work, "--out", out,
           "--jobs", str(os.cpu_count() or 4), "--shrink", "40"]
    if os.path.exists(out):
        os.unlink(out)
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True)
    try:
        _, err = p.communicate(timeout=secs + 360)
    except subprocess.TimeoutExpired:
        # a violation is on file before it is minimised
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        if os.path.exists(out):
            return json.load(open(out))
        raise RuntimeError("octsim did not end")
    if p.returncode not in (0, 1):
        log(err.decode(errors="replace")[-2000:])
        raise RuntimeError("octsim ended with %s" % p.returncode)
    return json.load(open(out))


def merge(a, b):
    for k, v in b.items():
        a[k] = a.get(k, 0) + v


def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in BUDGET:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    parts = PARTS[prop]
    ok = build([c for c, _, _ in parts])
    if not ok:
        log("nothing could be built")
        return 2
    parts = [p for p in parts if p[0] in ok]
    total = sum(p[2] for p in parts)
    budget = int(os.environ.get("OCTSIM_BUDGET", BUDGET[tier]))
    t1 = time.time()
    work = scratch()
    res, viol = [], None
    try:
        for cfg, fams, share in parts:
            r = explore(cfg, fams, max(3, budget * share // total), seed, prop, work)
            res.append(r)
            if r["violations"]:
                viol = r["violations"][0]
                break
    finally:
        shutil.rmtree(work, ignore_errors=True)
    t2 = time.time()

    agg = {"faults": {}, "probes": {}, "classes": {}, "families": {}}
    for r in res:
        for k in agg:
            merge(agg[k], r[k])
    s = lambda k: sum(r[k] for r in res)
    harness = [h for r in res for h in r["harness"]]
    runs = s("runs")
    wall = max(0.001, s("wall_s"))
    replay = None
    if viol:
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        replay = os.path.join(EVID, "replay", "%s-%s-%s-%d.json" % (prop, viol["config"], viol["family"], viol["seed"]))
        with open(replay, "w") as f:
            json.dump(viol, f, indent=1)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(time.time() - t0, 1),
        "violations": 1 if viol else 0,
        "coverage": {
            "evaluations": runs, "distinct_nontrivial": s("nontrivial"), "rule": RULE,
            "samples": [x for r in res for x in r["samples"][:3]],
            "seeds_per_hour": int(runs / wall * 3600), "runs_by_family": agg["families"],
            "feature_sets": [{"name": r["config"], "runs": r["runs"], "distinct_schedules": r["distinct_schedules"], "edges_reached": r["edges"],
                              "edges_instrumented": r["edges_total"]} for r in res],
            "simulated_seconds": round(s("sim_ns") / 1e9, 1), "intercepted_calls": s("steps"), "thread_switches": s("switches"),
            "preemptions": s("preemptions"), "distinct_schedules": s("distinct_schedules"), "handler_calls": s("handler_calls"),
            "exchanges_completed": s("exchanges_completed"), "clients": s("clients"), "requests_by_class": agg["classes"],
            "faults_injected": agg["faults"], "probes": agg["probes"], "bytes_to_server": s("bytes_in"), "bytes_from_server": s("bytes_out"),
            "executions_repeated": s("replayed"), "repeated_differently": s("replayed_differently"),
            "reports_that_did_not_reproduce": s("unreproduced"), "harness_failures": len(harness), "harness_failure_examples": harness[:3],
            "other_observations": {k: v for r in res for k, v in r["tags"].items()},
            "build_seconds": round(t1 - t0, 1), "explore_seconds": round(t2 - t1, 1), "real_code": REAL, "simulated": STUB,
        },
        "assumptions": ASSUME,
    }
    if viol:
        ev["coverage"]["violation"] = {"what": viol["violation"], "replay": replay, "minimised": viol["minimised"], "original": viol["original"]}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d executions (%d distinct non-trivial) in %.0f s, %.0f simulated s, %d faults, %d handler calls" % (
        prop, runs, s("nontrivial"), t2 - t1, s("sim_ns") / 1e9, sum(agg["faults"].values()), s("handler_calls")))
    if viol:
        v = viol["violation"]
        print("%s (%s, %s, seed %d): %s" % (v["tag"], viol["config"], viol["family"], viol["seed"], v["detail"]))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if runs == 0 or len(harness) * 2 > runs:
        log("no answer: %d of %d executions failed in the harness: %s" % (len(harness), runs, harness[:2]))
        return 2
    return 0


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    a = sys.argv[1]
    if a == "setup":
        ok = build(CONFIGS)
        return 0 if len(ok) == len(CONFIGS) else 1
    if a == "replay":
        v = json.load(open(sys.argv[2]))
        cfg = v["plan"]["config"]
        if not build([cfg]):
            return 2
        work = scratch()
        try:
            return subprocess.run([binary(cfg), "replay", os.path.abspath(sys.argv[2]), "--work", work] + sys.argv[3:]).returncode
        finally:
            shutil.rmtree(work, ignore_errors=True)
    if a in PARTS:
        return check(a)
    print(__doc__)
    return 2


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
