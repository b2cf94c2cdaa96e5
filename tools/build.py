#!/usr/bin/env python3
"""Build the complete vt runtime of $VT_REPO (default /repo) plus the drivers in
/verif/harness.  Objects are reused only when the content of the command line
and of every file the compiler read is unchanged, so a build never depends on
time stamps and always reflects the current working tree."""
import concurrent.futures as cf
import hashlib, json, os, subprocess, sys, threading, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
OUT = os.environ.get("VT_BUILD", os.path.join(VERIF, "build"))
CXX, CC = "clang++", "clang"
OPT = os.environ.get("VT_OPT", "-O0")

INC = [f"-I{VERIF}/shim", f"-I{VERIF}/shim/mpi", f"-I{VERIF}/shim/cfg", f"-I{REPO}/src",
       f"-I{REPO}/lib/CLI", f"-I{REPO}/lib/json/include", f"-I{REPO}/lib/fmt/include",
       f"-I{REPO}/lib/brotli/c/include", "-isystem", f"{REPO}/lib/EngFormat-Cpp/include",
       "-isystem", f"{REPO}/lib/yaml-cpp/include", f"-I{REPO}/lib/context/src"]
CXXFLAGS = ["-std=c++17", OPT, "-g0", "-w", "-DJSON_USE_IMPLICIT_CONVERSIONS=1"]

_h = {}
_hl = threading.Lock()
def fhash(p):
    with _hl:
        if p in _h: return _h[p]
    try:
        with open(p, "rb") as f: d = hashlib.sha1(f.read()).hexdigest()
    except OSError: d = None
    with _hl: _h[p] = d
    return d

class BuildError(Exception): pass

def compile_one(src, cmd, objdir):
    """Compile src with cmd (list without -o); return object path."""
    key = hashlib.sha1(("\0".join(cmd)).encode()).hexdigest()[:20]
    base = os.path.join(objdir, os.path.basename(src) + "." + key)
    obj, man = base + ".o", base + ".json"
    if os.path.exists(obj) and os.path.exists(man):
        try:
            m = json.load(open(man))
            if all(fhash(p) == h for p, h in m.items()): return obj, False
        except Exception: pass
    dep = base + ".d"
    r = subprocess.run(cmd + ["-MD", "-MF", dep, "-o", obj + ".tmp"], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError(f"compile failed: {src}\n{chr(10).join([x for x in r.stdout.splitlines() if "error" in x or "undefined" in x][:25])}\n{r.stdout[:1500]}")
    txt = open(dep).read().replace("\\\n", " ")
    deps = [d for d in txt.split(":", 1)[1].split() if not d.startswith("/usr/")]
    m = {os.path.abspath(d): fhash(os.path.abspath(d)) for d in deps}
    os.replace(obj + ".tmp", obj)
    with open(man + ".tmp", "w") as f: json.dump(m, f)
    os.replace(man + ".tmp", man)
    os.unlink(dep)
    return obj, True

def find(root, exts, skip=()):
    out = []
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            if f.endswith(exts) and not any(s in p for s in skip): out.append(p)
    return out

def vt_sources():
    return find(f"{REPO}/src/vt", (".cc",))

HEAVY = {"temperedlb.cc": 20, "lb_manager.cc": 15, "lb_data_restart_reader.cc": 9, "hierlb.cc": 9, "greedylb.cc": 9,
         "runtime.cc": 9, "group_info_collective.cc": 8, "workload_replay.cc": 8, "baselb.cc": 7, "trace.cc": 7,
         "diagnostic_value.cc": 7, "phase_manager.cc": 6, "node_lb_data.cc": 6, "rdma.cc": 5, "termination.cc": 5,
         "memory_usage.cc": 4, "offlinelb.cc": 4, "args.cc": 5, "manager.cc": 3, "scheduler.cc": 4, "active.cc": 4}
def vt_units(k=8):
    """The runtime's sources in k units of about equal cost: parsing the shared
    headers dominates, so compiling them together is several times cheaper."""
    ws = sorted(((HEAVY.get(os.path.basename(s), 0.7), s) for s in vt_sources()), reverse=True)
    bins = [[0, []] for _ in range(k)]
    for w, s in ws:
        b = min(bins, key=lambda x: x[0]); b[0] += w; b[1].append(s)
    return [[(s, [CXX] + CXXFLAGS + INC + ["-c", s]) for s in sorted(b[1])] for b in bins if b[1]]

def lib_units():
    units = []
    y = find(f"{REPO}/lib/yaml-cpp/src", (".cpp",))
    cpp = find(f"{REPO}/lib/EngFormat-Cpp/src", (".cpp",)) + [f"{REPO}/lib/fmt/src/format.cc"] + find(f"{REPO}/lib/context/src", (".cc",))
    cmd = lambda s: [CXX] + CXXFLAGS + INC + ["-c", s]
    units += [[(s, cmd(s)) for s in y[i::2]] for i in range(2)] + [[(s, cmd(s))] for s in cpp]
    for s in find(f"{REPO}/lib/brotli/c", (".c",), skip=("/tools/", "/fuzz/")):
        units.append([(s, [CC, "-O1", "-w", f"-I{REPO}/lib/brotli/c/include", "-c", s])])
    for k in ("make", "jump", "ontop"):
        s = f"{REPO}/lib/context/src/context/asm/{k}_x86_64_sysv_elf_gas.S"
        units.append([(s, [CC, "-c", s])])
    return units

def build(drivers=(), extra_src=None, jobs=8):
    """Build libvt and the named drivers (harness/<name>.cc). Returns {name: exe}."""
    objdir = os.path.join(OUT, "obj"); bindir = os.path.join(OUT, "bin")
    os.makedirs(objdir, exist_ok=True); os.makedirs(bindir, exist_ok=True)
    lock = open(os.path.join(OUT, "lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    _h.clear()
    env = [[(s, [CXX] + CXXFLAGS[:1] + ["-O2", "-g0", "-w"] + INC + ["-c", s])] for s in
           (f"{VERIF}/shim/mpi/fakempi.cc", f"{VERIF}/shim/cfg/git_revision.cc")]
    drv = [[(f"{VERIF}/harness/{d}.cc", [CXX] + CXXFLAGS + INC + [f"-I{VERIF}/harness", "-c", f"{VERIF}/harness/{d}.cc"])] for d in drivers]
    alljobs = drv + vt_units() + env + lib_units()
    res = [None] * len(alljobs); fresh = 0
    def unit(u):
        """Compile a unit of several sources as one; when that fails, one by one."""
        if len(u) > 1:
            os.makedirs(os.path.join(OUT, "unit"), exist_ok=True)
            txt = "".join(f'#include "{s}"\n' for s, _ in u)
            f = os.path.join(OUT, "unit", hashlib.sha1(txt.encode()).hexdigest()[:12] + ".cc")
            if not os.path.exists(f): open(f, "w").write(txt)
            try:
                o, n = compile_one(f, u[0][1][:-1] + [f], objdir)
                return [o], n
            except BuildError: pass
        r = [compile_one(s, c, objdir) for s, c in u]
        return [o for o, _ in r], sum(n for _, n in r)
    with cf.ThreadPoolExecutor(jobs) as ex:
        fut = {ex.submit(unit, u): i for i, u in enumerate(alljobs)}
        for f in cf.as_completed(fut):
            i = fut[f]; res[i], n = f.result(); fresh += n
    nd = len(drv)
    lib = [o for r in res[nd:] for o in r]
    res = [r[0] for r in res[:nd]]
    exes = {}
    libkey = hashlib.sha1("\n".join(f"{o}:{fhash(o)}" for o in sorted(lib)).encode()).hexdigest()
    ar = os.path.join(bindir, "libvtall.a"); stamp = ar + ".key"
    if not (os.path.exists(ar) and os.path.exists(stamp) and open(stamp).read() == libkey):
        if os.path.exists(ar): os.unlink(ar)
        # thin archive: no copying
        subprocess.run(["ar", "rcsT", ar] + lib, check=True)
        open(stamp, "w").write(libkey)
    for i, d in enumerate(drivers):
        exe = os.path.join(bindir, d); k = hashlib.sha1((libkey + str(fhash(res[i])) + res[i]).encode()).hexdigest()
        if not (os.path.exists(exe) and os.path.exists(exe + ".key") and open(exe + ".key").read() == k):
            r = subprocess.run([CXX, "-fuse-ld=gold", "-o", exe + ".tmp", res[i], "-Wl,--whole-archive", ar, "-Wl,--no-whole-archive",
                                "-lz", "-ldl", "-lpthread", "-rdynamic"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0: raise BuildError(f"link failed: {d}\n{r.stdout[-6000:]}")
            os.replace(exe + ".tmp", exe); open(exe + ".key", "w").write(k)
        exes[d] = exe
    lock.close()
    return exes, fresh


if __name__ == "__main__":
    import time
    t = time.time()
    try:
        names = sys.argv[1:]
        if names == ["--all"]: names = [os.path.basename(f)[:-3] for f in find(f"{VERIF}/harness", (".cc",)) if os.path.basename(f).startswith("d_")]
        ex, fresh = build(names)
    except BuildError as e:
        print(e); sys.exit(3)
    print(f"built {list(ex)} fresh={fresh} in {time.time()-t:.1f}s")
