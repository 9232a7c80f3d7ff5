#!/usr/bin/env python3
"""Check driver: run.py <property> [quick|thorough] | run.py replay <file>

Builds the simulator from /repo's working tree, searches schedules and faults
by seed, gates and minimises what it finds, writes the replay and the evidence.
"""
import json
import os
import re
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B  # noqa: E402
from props import PROPS, COMPONENTS, PYTHON, ASSUMPTIONS  # noqa: E402

VERIF = B.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")


def known():
    """Open findings: lines 'open: property=<id> match=/<regex of the violation>/ <what fails>'; 'fixed:' lines suppress nothing."""
    r = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"open: property=(\S+) match=/(.*)/ (.*)", l.strip())
            if m:
                r.append({"property": m.group(1), "match": m.group(2), "what": m.group(3)})
    return r


def sim(exe, *args, timeout=600):
    p = subprocess.run(launch(exe) + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    try:
        return json.loads(p.stdout.decode(errors="replace"))
    except ValueError:
        die("%s %s: %s" % (exe, " ".join(str(a) for a in args[:3]), p.stderr.decode(errors="replace")[-2000:]))


def launch(exe):
    return [sys.executable, exe] if exe.endswith(".py") else [exe]


def trace_of(exe, *args):
    try:
        p = subprocess.run(launch(exe) + [str(a) for a in args] + ["--trace"], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=60)
        return p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return ""


def die(msg):
    print("ERROR: " + msg)
    sys.exit(3)


def report(pid, exe, variant, key, seed, v, tshrink):
    """Gate, minimise and report one violation. Returns the replay path, or None if it does not reproduce."""
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    base = os.path.join(VERIF, "replays", "%s-%d-%d" % (pid, seed, v["idx"]))
    full = base + ".full"
    a = sim(exe, "one", "--prop", key, "--seed", seed, "--idx", v["idx"], "--out", full)
    b = sim(exe, "one", "--prop", key, "--seed", seed, "--idx", v["idx"])
    c = sim(exe, "replay", "--file", full)
    same = lambda x, y: (x["viol"], x["tag"], x["msg"], x["hash"]) == (y["viol"], y["tag"], y["msg"], y["hash"])
    if not a["viol"] or not same(a, b) or not same(a, c):
        return None
    rp = base + ".replay"
    s = sim(exe, "shrink", "--file", full, "--out", rp, "--time", tshrink)
    if not s.get("ok"):
        os.replace(full, rp)
    d = sim(exe, "replay", "--file", rp)
    e = sim(exe, "replay", "--file", rp)
    if not d["viol"] or not same(d, e) or d["tag"] != a["tag"]:
        os.replace(full, rp)
        d = a
    body = open(rp).read()
    with open(rp, "w") as f:
        f.write("# check=%s variant=%s seed=%d run=%d\n# violation: [%s] %s\n# replay with: python3 tools/run.py replay %s\n" % (pid, variant, seed, v["idx"], d["tag"], d["msg"], rp))
        f.write(body)
    tr = trace_of(exe, "replay", "--file", rp)
    with open(base + ".trace", "w") as f:
        f.write("# minimised schedule and fault trace of %s\n%s" % (rp, tr[-200000:]))
    if os.path.exists(full):
        os.remove(full)
    return rp, d


def replay(path):
    m = re.search(r"check=(\S+) variant=(\S+)", open(path).read(4096))
    if not m:
        die("not a replay file: " + path)
    try:
        exe = B.build((m.group(2),))[m.group(2)]
    except B.BuildError as e:
        die("build failed: %s" % e)
    r = sim(exe, "replay", "--file", path)
    sys.stdout.write(trace_of(exe, "replay", "--file", path)[-6000:])
    if r["viol"]:
        print("[%s] %s" % (r["tag"], r["msg"]))
        print("VIOLATION property=%s replay=%s" % (m.group(1), path))
        return 1
    print("no violation: the property holds on this execution")
    return 0


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "replay":
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    conf = PROPS[pid]
    t0 = time.time()
    try:
        exes = B.build(tuple(sorted(set(p[0] for p in conf["parts"]))))
    except B.BuildError as e:
        die("build failed: %s" % e)
    total = float(os.environ.get("SIM_TIME", 0) or (conf.get("quick", 45) if tier == "quick" else conf.get("thorough", 480)))
    wsum = float(sum(p[2] for p in conf["parts"]))
    workers = int(os.environ.get("SIM_WORKERS", "0")) or os.cpu_count() or 4
    kf = [k for k in known() if k.get("property") == pid]
    viol, unrep, parts, samples = [], [], [], []
    for variant, key, w, tags in conf["parts"]:
        exe = exes[variant]
        r = sim(exe, "batch", "--prop", key, "--seed", seed, "--time", total * w / wsum, "--workers", workers, "--tags", ",".join(tags), "--maxviol", 4 if not kf else 200, timeout=total + 200)
        parts.append((variant, key, r))
        for v in r["violations"]:
            if any(re.search(k["match"], "[%s] %s" % (v["tag"], v["msg"])) for k in kf):
                continue
            if len(viol) >= 1:
                break
            x = report(pid, exe, variant, key, seed, v, 20 if tier == "quick" else 60)
            if x is None:
                unrep.append((key, v))
            else:
                viol.append(x)
        for i in range(3):
            o = sim(exe, "one", "--prop", key, "--seed", seed, "--idx", i)
            tr = trace_of(exe, "one", "--prop", key, "--seed", seed, "--idx", i).splitlines()
            n = len(tr)
            samples.append({"run": i, "harness": key, "build": variant, "seed": seed, "hash": o["hash"], "steps": o["steps"], "choices": o["nchoices"], "simulated_s": o["simtime"], "trace_lines": n, "trace_excerpt": [l[:160] for l in tr[n // 3:n // 3 + 12]]})
        if viol:
            break
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    tot = lambda f: sum(p[2][f] for p in parts)
    merge = lambda f: {k: sum(p[2][f].get(k, 0) for p in parts) for k in sorted(set(k for p in parts for k in p[2][f]))}
    wall = tot("wall")
    python = all(p[0] == "P" for p in conf["parts"])
    comp = PYTHON if python else COMPONENTS
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot("runs"),
            "distinct_nontrivial": tot("distinct"),
            "rule": "Each run is one simulated execution decided wholly by (VERIF_SEED, property, run number): " + conf["rule"] + " A run counts as non-trivial if at least one fault fired or more than two application-level operations were made; distinct counts different hashes of the sequence of scheduling decisions, system calls with their arguments, and callbacks (%s)." % ("compared exactly" if python else "a 2^26-bit sketch, which can only undercount"),
            "samples": samples,
            "simulated_runs": tot("runs"), "runs_per_hour": int(tot("runs") / max(wall, 0.01) * 3600), "seeds_per_hour": int(tot("runs") / max(wall, 0.01) * 3600),
            "simulated_seconds": round(tot("sim_seconds"), 1), "steps": tot("steps"), "context_switches": tot("switches"), "application_operations": tot("ops"), "random_choices": tot("choices"),
            "faults_injected": merge("faults"), "rare_conditions_hit": merge("probes"),
            "violations_of_other_properties_seen": merge("foreign"),
            "real_code": comp["real"], "stubbed": comp["stub"],
            "parts": [{"build": p[0], "harness": p[1], "runs": p[2]["runs"], "wall_s": p[2]["wall"]} for p in parts],
            "known_findings": [k["what"] for k in kf],
        },
        "assumptions": comp.get("assumptions", ASSUMPTIONS) + conf.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d simulated runs (%d distinct), %.0f simulated seconds, %.1f s wall, faults %s" % (pid, tier, tot("runs"), tot("distinct"), tot("sim_seconds"), wall, json.dumps(merge("faults"))))
    for rp, d in viol:
        print("[%s] %s" % (d["tag"], d["msg"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    if viol:
        return 1
    if unrep:
        die("a violation did not reproduce (harness %s run %d: [%s] %s): the simulator is not deterministic" % (unrep[0][0], unrep[0][1]["idx"], unrep[0][1]["tag"], unrep[0][1]["msg"]))
    if tot("runs") == 0:
        die("no run completed")
    return 0


if __name__ == "__main__":
    sys.exit(main())
