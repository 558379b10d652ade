#!/usr/bin/env python3
"""Runs one property's simulations.

  check.py P01 [--tier quick|thorough]     search; exit 0, or exit 1 and a VIOLATION line
  check.py --replay FILE                   re-run a replay file; exit 1 if it still fails
  check.py --build GROUP...                only build

The seed is VERIF_SEED (default 1). Every run is a function of (seed, property, run index) and the
code under test; a replay file holds the run's configuration and its non-default decisions."""

import json
import os
import re
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.realpath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, GROUPS, VARIANTS  # noqa: E402

BUILD = os.path.join(HERE, ".build")
WS = os.path.join(BUILD, "ws")
TARGET = os.path.join(BUILD, "target")
REPLAYS = os.path.join(BUILD, "replays")
CPUS = os.cpu_count() or 4


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def cpu_has(flags):
    try:
        with open("/proc/cpuinfo") as f:
            have = set(re.search(r"^flags\s*:(.*)$", f.read(), re.M).group(1).split())
    except (OSError, AttributeError):
        have = set()
    return set(flags) <= have


def groups_of(prop):
    """The binaries that take part: run i uses number i modulo their count."""
    spec = PROPS[prop]
    able = [v for v in spec.get("variants", []) if cpu_has(VARIANTS[v]["cpu"])]
    return able or [spec["group"]]


def target(group):
    return os.path.join(BUILD, "target-" + group) if group in VARIANTS else TARGET


def env(group=None):
    e = dict(os.environ)
    out = subprocess.run(
        ["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True, text=True
    ).stdout
    for kv in out.split("\0"):
        if "=" in kv:
            k, v = kv.split("=", 1)
            e[k] = v
    e["CARGO_TARGET_DIR"] = target(group)
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    if group in VARIANTS:
        e["RUSTFLAGS"] = VARIANTS[group]["rustflags"]
        e.update(VARIANTS[group].get("env", {}))
    return e


def build(groups):
    os.makedirs(BUILD, exist_ok=True)
    import fcntl

    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        r = subprocess.run(
            [sys.executable, os.path.join(HERE, "sim", "mkws.py"), WS], capture_output=True, text=True
        )
        if r.returncode:
            die("generating the simulated workspace failed:\n" + r.stdout + r.stderr)
        for g in groups:
            t0 = time.time()
            v = VARIANTS.get(g, {})
            base = v.get("of", g)
            r = subprocess.run(
                ["cargo", "build", "--release", "--offline", "-q", "-p", "h-" + base] + v.get("args", []),
                cwd=os.path.join(WS, base),
                env=env(g),
                capture_output=True,
                text=True,
            )
            if r.returncode:
                die("build of %s failed:\n%s" % (g, r.stderr[-6000:]))
            print("built %s in %.0f s" % (g, time.time() - t0), flush=True)


def binary(group):
    return os.path.join(target(group), "release", "h-" + VARIANTS.get(group, {}).get("of", group))


def short(s, n=400):
    return s if len(s) <= n else s[:n] + "..."


# ------------------------------------------------------------------ replaying
class Exec:
    def __init__(self, prop, group):
        self.p = subprocess.Popen(
            [binary(group), "exec", prop],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL,
            text=True,
            bufsize=1,
        )
        self.n = 0

    def run(self, cfg, choices):
        self.n += 1
        self.p.stdin.write(json.dumps({"cfg": cfg, "choices": choices}) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            die("the replay process died")
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=20)
        except Exception:
            self.p.kill()


def minimise(prop, viol, deadline):
    """ddmin over the non-default decisions, then smaller values and a simpler configuration."""
    sig = viol["sig"]
    ex = Exec(prop, viol["group"])
    cfg, choices = dict(viol["cfg"]), viol.get("choices")

    def fails(cfg, choices):
        r = ex.run(cfg, choices)
        return r if not r["ok"] and r["sig"] == sig else None

    first = fails(cfg, choices)
    if first is None:
        again = ex.run(cfg, choices)
        ex.close()
        return None, again
    best = first
    before = len(choices) if choices is not None else None
    if choices is not None:
        # 1. whole streams, 2. ddmin, 3. values
        for stream in ("1", "2"):
            cand = [c for c in choices if c[0].split(":")[0] != stream]
            if len(cand) < len(choices):
                r = fails(cfg, cand)
                if r:
                    choices, best = cand, r
        n = 2
        while len(choices) >= 1 and time.time() < deadline:
            size = max(1, len(choices) // n)
            progress = False
            i = 0
            while i < len(choices) and time.time() < deadline:
                cand = choices[:i] + choices[i + size :]
                r = fails(cfg, cand)
                if r:
                    choices, best, progress = cand, r, True
                else:
                    i += size
            if size == 1 and not progress:
                break
            n = max(2, n if progress else n * 2)
            if n > 2 * max(1, len(choices)):
                n = max(1, len(choices))
        k = 0
        while k < len(choices) and time.time() < deadline:
            key, v = choices[k]
            lo = 0
            while v - lo > 1 and time.time() < deadline:
                mid = (lo + v) // 2
                cand = choices[:k] + [[key, mid]] + choices[k + 1 :]
                r = fails(cfg, cand)
                if r:
                    v, choices, best = mid, cand, r
                else:
                    lo = mid
            k += 1
    for key, vals in (("rayon_threads", (1, 2, 3)), ("cpus", (2, 3, 4)), ("entropy", (0,))):
        for v in vals:
            if cfg.get(key) is not None and v < cfg[key] and time.time() < deadline:
                cand = dict(cfg)
                cand[key] = v
                r = fails(cand, choices)
                if r:
                    cfg, best = cand, r
                    break
    ex.close()
    return {
        "property": prop,
        "group": viol["group"],
        "sig": sig,
        "detail": best.get("detail", ""),
        "seed": viol.get("seed"),
        "index": viol.get("i"),
        "cfg": cfg,
        "choices": choices,
        "minimised_from": before,
        "replays_tried": ex.n,
        "trace": best.get("trace"),
        "fired": best.get("fired"),
        "log": best.get("log"),
    }, best


def replay(path):
    with open(path) as f:
        rp = json.load(f)
    prop = rp["property"]
    group = rp.get("group", PROPS[prop]["group"])
    if not cpu_has(VARIANTS.get(group, {}).get("cpu", [])):
        die("this machine cannot run the %s build" % group)
    build([group])
    ex = Exec(prop, group)
    r = ex.run(rp["cfg"], rp["choices"])
    ex.close()
    for line in r.get("log") or []:
        print("  " + line)
    if r["ok"]:
        print("replay of %s: the property held" % path)
        return 0
    same = r["sig"] == rp["sig"] and r.get("trace") == rp.get("trace")
    print("%s: %s" % (r["sig"], r.get("detail", "")))
    print("same failure and same trace as recorded" if same else "differs from the recorded failure")
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    path = os.path.join(HERE, "known-findings.json")
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop and k["status"] == "known"]


def match_known(v, known):
    for k in known:
        if k["sig"] == v["sig"] and re.search(k["detail_regex"], v.get("detail", ""), re.S):
            return k
    return None


# ------------------------------------------------------------------ searching
def search(prop, tier, seed):
    spec = PROPS[prop]
    known = known_findings(prop)
    t = spec[tier]
    groups = groups_of(prop)
    workers = len(groups) * max(1, CPUS // len(groups))
    cap = t["secs"]
    kinds = subprocess.run(
        [binary(groups[0]), "kinds"], capture_output=True, text=True
    ).stdout.split()
    runs, bad, harness, hits = [], [], [], {}
    lock = threading.Lock()
    stop = threading.Event()
    procs = []
    t0 = time.time()
    determinism = {}
    det_n = t.get("determinism", 24)

    def reader(p, sink):
        for line in p.stdout:
            try:
                d = json.loads(line)
            except ValueError:
                continue
            sink(d)
        p.wait()

    def sink(d):
        with lock:
            d["group"] = groups[d["i"] % len(groups)]
            if d["ok"]:
                pass
            elif d["sig"].startswith("harness:"):
                harness.append(d)
                return
            else:
                k = match_known(d, known)
                if k:
                    hits.setdefault(k["id"], []).append(d["i"])
                else:
                    d["seed"] = seed
                    bad.append(d)
                    if len(bad) >= 6:
                        stop.set()
            if d["i"] < det_n:
                determinism[d["i"]] = (d.get("trace"), d.get("sched"), d.get("state"))
            d.pop("log", None) if d["ok"] else None
            runs.append(d)

    def launch(frm, to, step, secs, s):
        p = subprocess.Popen(
            [binary(groups[frm % len(groups)]), "batch", prop, "--seed", str(seed), "--from", str(frm), "--to", str(to),
             "--step", str(step), "--secs", str(secs), "--max-violations", "1000000"],
            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
        )
        th = threading.Thread(target=reader, args=(p, s))
        th.start()
        return p, th

    for w in range(workers):
        procs.append(launch(w, t["runs"], workers, cap, sink))
    grace = None
    while any(th.is_alive() for _, th in procs):
        time.sleep(0.05)
        late = time.time() - t0 > cap + spec.get("cpu_limit", 60) + 60
        if bad and grace is None:
            grace = time.time() + 6  # a few seconds more, for a simpler failure or another kind
        if stop.is_set() or late or (grace and time.time() > grace):
            for p, _ in procs:
                p.kill()
            break
    for _, th in procs:
        th.join()
    search_s = time.time() - t0

    # determinism: the first runs again, in other processes
    mismatches = []
    checked = 0
    if not bad:
        second = {}

        def sink2(d):
            with lock:
                second[d["i"]] = (d.get("trace"), d.get("sched"), d.get("state"))

        step = 3 * len(groups)
        ps = [launch(w, min(det_n, t["runs"]), step, 30, sink2) for w in range(step)]
        for _, th in ps:
            th.join()
        for i, v in second.items():
            if i in determinism:
                checked += 1
                if determinism[i] != v:
                    mismatches.append(i)
    return dict(
        runs=runs, bad=bad, harness=harness, hits=hits, search_s=search_s, kinds=kinds,
        det_checked=checked, det_mismatch=sorted(mismatches), workers=workers,
    )


def samples(prop, seed, n=3):
    out = []
    for i in range(n):
        r = subprocess.run(
            [binary(groups_of(prop)[i % len(groups_of(prop))]), "one", prop, "--seed", str(seed), "--index", str(i)],
            capture_output=True, text=True,
        )
        try:
            d = json.loads(r.stdout)
        except ValueError:
            continue
        out.append({
            "index": i, "cfg": d.get("cfg"), "ok": d["ok"], "trace": d.get("trace"), "steps": d.get("steps"),
            "decisions": len(d.get("choices") or []), "log": [short(x, 300) for x in (d.get("log") or [])[:25]],
        })
    return out


def main():
    a = sys.argv[1:]
    if a and a[0] == "--build":
        build([g for g in a[1:] or GROUPS + list(VARIANTS) if cpu_has(VARIANTS.get(g, {}).get("cpu", []))])
        return 0
    if a and a[0] == "--replay":
        return replay(os.path.abspath(a[1]))
    prop = a[0]
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = PROPS[prop]
    start = time.time()
    print("property %s, tier %s, seed %d" % (prop, tier, seed), flush=True)
    build(groups_of(prop))
    built = time.time()
    s = search(prop, tier, seed)
    runs, bad = s["runs"], s["bad"]
    if not runs:
        die("no run finished: %s" % (s["harness"][:1],))
    if s["harness"]:
        print("note: %d runs were lost to the environment: %s" % (len(s["harness"]), s["harness"][0]["detail"]))
        if len(s["harness"]) > max(3, len(runs) // 20):
            die("too many lost runs")

    violations = []
    seen = set()
    deadline = time.time() + (40 if tier == "quick" else 300)
    for v in sorted(bad, key=lambda d: (len(d.get("choices") or []) or 10**9, d["i"])):
        if v["sig"] in seen or len(seen) >= 3:
            continue
        rp, last = minimise(prop, v, deadline)
        if rp is None:
            print("note: run %d reported '%s', which did not repeat (got %s)" % (v["i"], v["sig"], last.get("sig") or "ok"))
            continue
        seen.add(v["sig"])
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s-%s-%d-%d.json" % (prop, re.sub(r"[^a-z0-9]+", "-", v["sig"].lower())[:50], seed, v["i"]))
        with open(path, "w") as f:
            json.dump(rp, f, indent=1)
        violations.append((v["sig"], path, rp))
    if bad and not violations:
        die("a failure did not replay: the run is not a function of its seed")

    fired, offered, fs, counters = {}, {}, {}, {}
    for d in runs:
        for k, x in zip(s["kinds"], d.get("fired", [])):
            fired[k] = fired.get(k, 0) + x
        for k, x in zip(s["kinds"], d.get("offered", [])):
            offered[k] = offered.get(k, 0) + x
        for k, x in d.get("fs", {}).items():
            fs[k] = fs.get(k, 0) + x
        for k, x in d.get("counters", {}).items():
            counters[k] = counters.get(k, 0) + x
    nontrivial = {
        (d.get("trace"), d.get("state")) for d in runs
        if d.get("switches", 0) > 0 or sum(d.get("fired", [])) > 0
    }
    hours = s["search_s"] / 3600
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": len(runs),
            "distinct_nontrivial": len(nontrivial),
            "rule": spec["rule"] + " A run is non-trivial if a thread switch, a fault or a non-default workload "
            "decision happened in it; distinct: by the hash of all its decisions and of the states it reached.",
            "samples": samples(prop, seed),
            "distinct_schedules": len({d.get("sched") for d in runs}),
            "distinct_states": len({d.get("state") for d in runs}),
            "runs_per_hour": int(len(runs) / hours) if hours else 0,
            "seeds_per_hour": int(len(runs) / hours) if hours else 0,
            "search_s": round(s["search_s"], 1),
            "simulated_time_s": round(sum(d.get("sim_ns", 0) for d in runs) / 1e9, 3),
            "scheduling_steps": sum(d.get("steps", 0) for d in runs),
            "thread_switches": sum(d.get("switches", 0) for d in runs),
            "simulated_threads": sum(d.get("fibers", 0) for d in runs),
            "decisions_offered": offered,
            "decisions_fired": fired,
            "filesystem": fs,
            "workload": counters,
            "real_components": spec["real"],
            "stubbed_components": spec["stub"],
            "determinism": {"runs_repeated_in_other_processes": s["det_checked"], "mismatching": s["det_mismatch"]},
            "processes": s["workers"],
            "builds": {g: sum(1 for d in runs if d["group"] == g) for g in groups_of(prop)},
            "runs_lost_to_environment": len(s["harness"]),
            "known_findings_hit": {k: len(v) for k, v in s["hits"].items()},
        },
        "assumptions": spec["assumptions"],
        "wall_s": round(time.time() - start, 1),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    print("%d runs in %.0f s (build %.0f s), %d distinct non-trivial, %d schedules, %d states"
          % (len(runs), s["search_s"], built - start, len(nontrivial), ev["coverage"]["distinct_schedules"],
             ev["coverage"]["distinct_states"]))
    if s["det_mismatch"]:
        print("WARNING: runs %s differ between processes" % s["det_mismatch"])
    for k in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for sig, path, rp in violations:
        print("\n%s\n  %s" % (sig, rp["detail"]))
        if rp["group"] in VARIANTS:
            print("  in the %s build" % rp["group"])
        print("  seed %s run %s; %s decisions (from %s), cpus %s, pool threads %s"
              % (seed, rp["index"], len(rp["choices"] or []), rp["minimised_from"], rp["cfg"]["cpus"], rp["cfg"]["rayon_threads"]))
        for line in (rp["log"] or [])[-12:]:
            print("    " + short(line, 200))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(main())
