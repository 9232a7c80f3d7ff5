#!/usr/bin/env python3
"""Development aid: run batches and list distinct violations. tri.py <variant> <time> <prop>... [seed=N]"""
import sys, os, json, re, subprocess, collections
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
seed = 1
args = []
for a in sys.argv[1:]:
    if a.startswith("seed="): seed = int(a[5:])
    else: args.append(a)
exe = B.build((args[0],))[args[0]]
print(exe)
for p in args[2:]:
    r = json.loads(subprocess.run([exe, "batch", "--prop", p, "--seed", str(seed), "--time", args[1], "--workers", "8", "--maxviol", "60"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode(errors="replace"))
    d = collections.OrderedDict()
    for v in r["violations"]:
        k = v["tag"] + " " + re.sub(r"[0-9a-f]{8,}.*|[0-9]+", "#", re.sub(r"n[0-9]/[a-z]+[0-9]*", "N", v["msg"]))
        d.setdefault(k, []).append(v)
    print("==", p, "runs", r["runs"], "wall", r["wall"], "foreign", r.get("foreign"), "useful", r["probes"].get("useful_run"))
    for k, l in sorted(d.items(), key=lambda x: -len(x[1])):
        print("  %3d x [%s] idx %s: %s" % (len(l), l[0]["tag"], ",".join(str(v["idx"]) for v in l[:4]), l[0]["msg"][:220]))
