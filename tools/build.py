"""Builds the simulator binaries from /repo's working tree. Build A: AddressSanitizer; build B: access instrumentation; P: the Python simulator, which needs no build."""
import concurrent.futures, hashlib, os, re, subprocess, sys, tempfile, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
CC, CXX = "clang", "clang++"
SIM = ["core", "kernel", "libc", "race", "net", "small", "timer", "loop", "threads", "wdog", "buf", "dgram", "msg", "addr", "cxx", "cli"]


class BuildError(Exception):
    pass


def sh(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def lib_sources():
    """The list of the library's own C files, as its build description gives it."""
    t = open(os.path.join(REPO, "src/Makefile.am")).read().replace("\\\n", " ")
    m = re.search(r"libpomp_la_SOURCES\s*\+?=(.*)", t)
    names = re.findall(r"[\w./-]+\.c\b", " ".join(re.findall(r"libpomp_la_SOURCES\s*\+?=(.*)", t))) if m else []
    if not names:
        names = sorted(n for n in os.listdir(os.path.join(REPO, "src")) if n.endswith(".c"))
    out = []
    for n in names:
        p = os.path.normpath(os.path.join(REPO, "src", n))
        if os.path.exists(p) and p not in out:
            out.append(p)
    return out


def tool_sources():
    t = open(os.path.join(REPO, "tools/Makefile.am")).read().replace("\\\n", " ")
    names = [n for l in re.findall(r"pomp_cli_SOURCES\s*\+?=(.*)", t) for n in re.findall(r"[\w./-]+\.c\b", l)] or ["pomp_cli.c"]
    return [p for p in (os.path.normpath(os.path.join(REPO, "tools", n)) for n in names) if os.path.exists(p)]


def file_hash(h, path):
    h.update(path.encode())
    with open(path, "rb") as f:
        h.update(f.read())


def key():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "src"), os.path.join(REPO, "include"), os.path.join(REPO, "tools"), os.path.join(VERIF, "sim")):
        for d, _, fs in sorted(os.walk(base)):
            for f in sorted(fs):
                if f.endswith((".c", ".h", ".cpp", ".hpp", ".am")):
                    file_hash(h, os.path.join(d, f))
    file_hash(h, os.path.abspath(__file__))
    return h.hexdigest()[:24]


VARIANTS = {
    "A": dict(lib=["-fsanitize=address", "-mllvm", "-asan-globals=0", "-fno-omit-frame-pointer"], sim=["-DSIM_ASAN"], link=["-fsanitize=address"]),
    "B": dict(lib=["-fsanitize=thread", "-fno-omit-frame-pointer"], sim=["-DSIM_RACE"], link=[]),
}


def build_variant(v, bdir, ex):
    o = VARIANTS[v]
    d = os.path.join(bdir, v)
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, "sim")
    simflags = ["-std=c++17", "-O1", "-g1", "-fno-pie", "-fno-omit-frame-pointer", "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-Wno-everything"] + o["sim"]
    jobs = []
    simo = []
    hdr = hashlib.sha256()
    for f in sorted(os.listdir(os.path.join(VERIF, "sim"))):
        if f.endswith(".h"):
            file_hash(hdr, os.path.join(VERIF, "sim", f))
    file_hash(hdr, os.path.join(REPO, "include/libpomp.h"))
    for s in SIM:
        src = os.path.join(VERIF, "sim", s + ".cpp")
        if not os.path.exists(src):
            continue
        h = hdr.copy()
        file_hash(h, src)
        if s == "cxx":  # the scenarios again, through the C++ interface
            for f in ("net", "timer", "loop", "threads"):
                file_hash(h, os.path.join(VERIF, "sim", f + ".cpp"))
            for f in sorted(os.listdir(os.path.join(REPO, "include"))):
                file_hash(h, os.path.join(REPO, "include", f))
        if s == "cli":
            file_hash(h, os.path.join(VERIF, "sim", "msg.cpp"))
        h.update(" ".join(simflags).encode())
        out = os.path.join(VERIF, "build", "cache", "%s-%s-%s.o" % (v, s, h.hexdigest()[:20]))
        simo.append(out)
        if not os.path.exists(out):
            os.makedirs(os.path.dirname(out), exist_ok=True)
            tmp = out + ".%d.o" % os.getpid()
            def comp(src=src, tmp=tmp, out=out):
                sh([CXX] + simflags + ["-c", src, "-o", tmp])
                os.replace(tmp, out)
            jobs.append(ex.submit(comp))
    libo = []
    # -U_FORTIFY_SOURCE: the seam is the plain libc symbols
    cflags = ["-O1", "-g", "-fno-pic", "-fno-common", "-U_FORTIFY_SOURCE", "-DHAVE_TIMER_CREATE", "-DPOMP_API_EXPORTS", "-I" + os.path.join(REPO, "include"), "-Wno-everything"] + o["lib"]
    for src in lib_sources():
        out = os.path.join(d, "lib_" + os.path.basename(src)[:-2] + ".o")
        libo.append(out)
        jobs.append(ex.submit(sh, [CC] + cflags + ["-c", src, "-o", out]))
    # the command line tool, its main() under another name, its context made through the harness, which sees its events
    for i, src in enumerate(tool_sources()):
        out = os.path.join(d, "tool_%d_" % i + os.path.basename(src)[:-2] + ".o")
        libo.append(out)
        jobs.append(ex.submit(sh, [CC] + cflags + ["-Dmain=pomp_cli_main", "-Dpomp_ctx_new=cliw_ctx_new", "-Dpomp_ctx_new_with_loop=cliw_ctx_new_with_loop", "-I" + os.path.join(REPO, "src"), "-c", src, "-o", out]))
    for j in jobs:
        j.result()
    raw = os.path.join(d, "lib_all.o")
    sh(["ld", "-r", "-o", raw] + libo)
    libc = [x for x in simo if "-libc-" in x][0]
    have = set(l.split()[-1] for l in sh(["nm", "--defined-only", libc]).splitlines() if l.split()[-1].startswith("sim_"))
    und = set(l.split()[-1] for l in sh(["nm", "-u", raw]).splitlines() if l.strip())
    mapf = os.path.join(d, "syms")
    with open(mapf, "w") as f:
        for s in sorted(und):
            if "sim_" + s in have:
                f.write("%s sim_%s\n" % (s, s))
    lib = os.path.join(d, "lib.o")
    cmd = ["objcopy", "--redefine-syms=" + mapf]
    for s in (".data", ".data.rel", ".data.rel.local", ".data.rel.ro.local"):
        if s != ".data.rel.ro.local":
            cmd += ["--rename-section", s + "=pomp_data"]
    cmd += ["--rename-section", ".bss=pomp_bss,alloc,load,data,contents"]
    sh(cmd + [raw, lib])
    tmp = exe + ".%d" % os.getpid()
    sh([CXX, "-no-pie", "-g1"] + o["link"] + simo + [lib, "-lpthread", "-lrt", "-o", tmp])
    os.replace(tmp, exe)
    return exe


def build(variants=("A", "B")):
    k = key()
    root = os.path.join(VERIF, "build")
    bdir = os.path.join(root, k)
    res = {}
    if any(v != "P" for v in variants):
        os.makedirs(bdir, exist_ok=True)
    os.makedirs(root, exist_ok=True)
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        futs = {}
        with concurrent.futures.ThreadPoolExecutor(2) as ex2:
            for v in variants:
                if v == "P":  # the Python implementation is loaded from the working tree by each run
                    res[v] = os.path.join(VERIF, "pysim", "psim.py")
                    continue
                exe = os.path.join(bdir, v, "sim")
                if os.path.exists(exe):
                    res[v] = exe
                else:
                    futs[v] = ex2.submit(build_variant, v, bdir, ex)
            for v, f in futs.items():
                res[v] = f.result()
    # old builds are dropped
    keep = sorted((e for e in os.listdir(root) if e != "cache" and os.path.isdir(os.path.join(root, e))), key=lambda e: os.path.getmtime(os.path.join(root, e)))
    for e in keep[:-6]:
        if e != k:
            shutil.rmtree(os.path.join(root, e), ignore_errors=True)
    return res


if __name__ == "__main__":
    try:
        for v, e in build(sys.argv[1:] or ("A", "B")).items():
            print(v, e)
    except BuildError as e:
        print(e)
        sys.exit(2)
