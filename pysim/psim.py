#!/usr/bin/env python3
"""Driver: the same commands as the simulator of the C library (batch, one, replay, shrink)."""
import builtins
import gc
import importlib
import importlib.abc
import importlib.util
import json
import logging
import multiprocessing
import os
import resource
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import core  # noqa: E402
import mods  # noqa: E402
import scen  # noqa: E402
import cli  # noqa: E402

SCEN = dict(scen.SCEN, PYT=cli.Tool)
REPO = os.environ.get("SIM_REPO", "/repo")


_code = {}      # name: (code, is a package, file)


def load():
    """Compiles the implementation of the working tree."""
    logging.disable(logging.CRITICAL)
    top = os.path.join(REPO, "python", "pomp")
    core.Sim.files = os.path.dirname(top) + os.sep
    for d, ds, fs in os.walk(top):
        for f in sorted(fs):
            if f.endswith(".py"):
                p = os.path.join(d, f)
                n = os.path.relpath(p, os.path.dirname(top))[:-3].replace(os.sep, ".")
                pkg = n.endswith(".__init__")
                with open(p, "rb") as h:
                    _code[n[:-9] if pkg else n] = (h.read(), pkg, p)
    p = os.path.join(REPO, "python", "pompcli.py")
    if os.path.exists(p):
        with open(p, "rb") as h:
            _code["pompcli"] = (h.read(), False, p)


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if not level and name in mods.modules():
        return mods.modules()[name]
    return builtins.__import__(name, globals, locals, fromlist, level)


def _builtins():
    d = dict(vars(builtins))
    d["__import__"] = _import
    return d


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path, target=None):
        if name in _code:
            return importlib.util.spec_from_loader(name, self, is_package=_code[name][1])
        return None

    def exec_module(self, m):
        c = _code[m.__name__]
        m.__file__ = c[2]
        m.__dict__["__builtins__"] = _builtins()
        if isinstance(c[0], bytes):
            c = _code[m.__name__] = (compile(c[0], c[2], "exec"),) + c[1:]
        exec(c[0], m.__dict__)


def fresh(prop):
    """Imports the implementation anew, with the simulated modules in place of the real ones: no state is kept from run to run."""
    for n in [n for n in sys.modules if n in _code]:
        del sys.modules[n]
    fake = mods.modules()
    saved = {n: sys.modules.get(n) for n in fake}
    sys.modules.update(fake)
    fd = Finder()
    sys.meta_path.insert(0, fd)
    try:
        imp = importlib.import_module
        pomp, looper, protocol = imp("pomp"), imp("pomp.looper"), imp("pomp.protocol")
        tool = imp("pompcli") if prop == "PYT" else None
    finally:
        sys.meta_path.remove(fd)
        for n, m in saved.items():
            if m is not None:
                sys.modules[n] = m
            else:
                del sys.modules[n]
    scen.POMP.update(pomp=pomp, tool=tool, Context=pomp.Context, EventHandler=pomp.EventHandler, Message=pomp.Message, looper=looper, Protocol=protocol.Protocol, parseAddr=pomp.parseAddr)


def run(prop, seed=None, choices=None, trace=None):
    s = core.Sim(seed, choices, trace)
    s.files = core.Sim.files
    core.Sim.cur = s
    try:
        fresh(prop)
    except Exception as ex:
        s.viol = ("IMPORT", "the implementation can not be imported: %s: %s" % (type(ex).__name__, ex))
        return s
    s.scenario = SCEN[prop](s)
    s.run(s.scenario.main)
    s.hash = (s.hash * 31 + s.steps) & 0xffffffffffffffff
    return s


def seed_of(prop, seed, idx):
    return "%s/%d/%d" % (prop, seed, idx)


def result(s):
    v = s.viol
    return {"viol": 1 if v else 0, "tag": v[0] if v else "", "msg": v[1] if v else "", "hash": "%x" % s.hash, "steps": s.steps, "nchoices": len(s.rec), "simtime": round(s.now / 1e9, 3)}


def pack(rec):
    out = []
    i = 0
    while i < len(rec):
        j = i
        while j < len(rec) and rec[j] == rec[i]:
            j += 1
        out.append(str(rec[i]) if j - i == 1 else "%d*%d" % (rec[i], j - i))
        i = j
    return " ".join(out)


def unpack(text):
    r = []
    for w in text.split():
        a, _, b = w.partition("*")
        r.extend([int(a)] * (int(b) if b else 1))
    return r


def write(path, prop, rec):
    with open(path, "w") as f:
        f.write("property=%s\nchoices:\n%s\n" % (prop, pack(rec)))


def read(path):
    prop = None
    t = open(path).read()
    head, _, body = t.partition("choices:\n")
    for l in head.splitlines():
        if l.startswith("property="):
            prop = l[9:].strip()
    return prop, unpack(body)


def worker(prop, seed, first, step, end, q, maxviol):
    try:
        work(prop, seed, first, step, end, q, maxviol)
    except BaseException:
        q.put({"error": traceback.format_exc()})


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))


def work(prop, seed, first, step, end, q, maxviol):
    core._pool[:] = []
    limit()
    load()
    gc.disable()
    r = {"runs": 0, "sim_seconds": 0.0, "steps": 0, "switches": 0, "ops": 0, "choices": 0, "faults": {}, "probes": {}, "violations": [], "hashes": []}
    idx = first
    while time.time() < end and len(r["violations"]) < maxviol:
        s = run(prop, seed_of(prop, seed, idx))
        r["runs"] += 1
        r["sim_seconds"] += s.now / 1e9
        r["steps"] += s.steps
        r["switches"] += s.switches
        r["ops"] += s.ops
        r["choices"] += len(s.rec)
        for d, x in ((r["faults"], s.faults), (r["probes"], s.probes)):
            for k, v in x.items():
                d[k] = d.get(k, 0) + v
        if s.ops > 2 or s.faults:
            r["hashes"].append(s.hash)
        if s.viol:
            r["violations"].append({"idx": idx, "tag": s.viol[0], "msg": s.viol[1], "hash": "%x" % s.hash})
        idx += step
        if r["runs"] % 50 == 0:
            gc.collect()
    q.put(r)


def batch(a):
    prop, seed, t, n = a["prop"], int(a["seed"]), float(a["time"]), int(a.get("workers", 8))
    t0 = time.time()
    q = multiprocessing.Queue()
    ps = [multiprocessing.Process(target=worker, args=(prop, seed, i, n, t0 + t, q, int(a.get("maxviol", 4)))) for i in range(n)]
    for p in ps:
        p.start()
    rs = [q.get() for _ in ps]
    for p in ps:
        p.join()
    for r in rs:
        if "error" in r:
            sys.stderr.write(r["error"])
            sys.exit(2)
    o = {"viol": 0, "foreign": {}, "wall": round(time.time() - t0, 2), "distinct": len(set(h for r in rs for h in r["hashes"]))}
    for k in ("runs", "sim_seconds", "steps", "switches", "ops", "choices"):
        o[k] = sum(r[k] for r in rs)
    for k in ("faults", "probes"):
        o[k] = {}
        for r in rs:
            for x, v in r[k].items():
                o[k][x] = o[k].get(x, 0) + v
    o["violations"] = sorted((v for r in rs for v in r["violations"]), key=lambda v: v["idx"])[:int(a.get("maxviol", 4))]
    print(json.dumps(o))


def shrink(a):
    prop, rec = read(a["file"])
    end = time.time() + float(a.get("time", 20))
    s = run(prop, choices=rec)
    if not s.viol:
        print(json.dumps({"ok": 0}))
        return
    tag = s.viol[0]
    best = list(s.rec)

    def ok(c):
        x = run(prop, choices=c)
        return x.rec[:] if x.viol and x.viol[0] == tag else None

    def trim(c):
        while c and c[-1] == 0:
            c.pop()
        return c
    best = trim(best)
    size = max(1, len(best) // 2)
    while time.time() < end:
        i = 0
        progress = False
        while i < len(best) and time.time() < end:
            for c in (best[:i] + best[i + size:], best[:i] + [0] * len(best[i:i + size]) + best[i + size:]):
                if c == best:
                    continue
                r = ok(c)
                if r is not None and (len(trim(r)), sum(map(bool, r))) < (len(best), sum(map(bool, best))):
                    best = r
                    progress = True
                    break
            else:
                i += size
        if size == 1 and not progress:
            break
        size = max(1, size // 2)
    write(a["out"], prop, best)
    print(json.dumps({"ok": 1, "choices": len(best)}))


def main():
    cmd = sys.argv[1]
    a = {}
    i = 2
    while i < len(sys.argv):
        if sys.argv[i] == "--trace":
            a["trace"] = True
            i += 1
        else:
            a[sys.argv[i][2:]] = sys.argv[i + 1]
            i += 2
    if cmd == "batch":
        return batch(a)
    limit()
    load()
    if cmd == "shrink":
        return shrink(a)
    tr = [] if "trace" in a else None
    if cmd == "one":
        s = run(a["prop"], seed_of(a["prop"], int(a["seed"]), int(a["idx"])), trace=tr)
        if "out" in a:
            write(a["out"], a["prop"], s.rec)
    else:
        prop, rec = read(a["file"])
        s = run(prop, choices=rec, trace=tr)
    if tr is not None:
        sys.stderr.write("\n".join(tr) + "\n")
    print(json.dumps(result(s)))


if __name__ == "__main__":
    main()
    sys.stdout.flush()
    os._exit(0)
