#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] : decide one property.

1. model-check the property's design specification(s) with TLC;
2. build the runtime and the property's drivers from the current /repo tree;
3. record executions of the real code (many workloads x schedules);
4. validate every recorded execution against the trace specification with TLC.
Exit 0: held.  Exit 1 + VIOLATION line: a recorded execution is not a behaviour
of the specification (confirmed by a second, independent run of that case).
Anything else is an error of the check itself (exit 3)."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build as B
from registry import PROPS

SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = 8

class Err(Exception): pass

def errtext(out):
    """The part of TLC's output that says what is wrong."""
    i = [m.start() for m in re.finditer(r"(?m)^(Error:|\*\*\* Errors|Unknown operator|Could not parse|.*Exception)", out)]
    return out[i[0]:i[0] + 2500] if i else out[-2500:]

def tlc(mod, cfg, env=None, workers=1, extra=(), timeout=600, xmx="3g", cwd=SPEC, jvm=()):
    md = tempfile.mkdtemp(prefix="tlc-", dir=os.path.join(B.OUT, "tmp"))
    e = dict(os.environ); e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", f"-Xmx{xmx}", "-Xss64m",
           "-XX:TieredStopAtLevel=1" if workers == 1 else "-XX:+TieredCompilation", *jvm,
           "-cp", JARS, "tlc2.TLC", "-config", cfg, "-metadir", md, "-noGenerateSpecTE", "-workers", str(workers),
           *extra, mod]
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as x:
        raise Err(f"TLC timeout: {mod} {cfg}")
    finally:
        shutil.rmtree(md, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return rc, out, gen, dist

def model_check(mc, tier):
    cfg = mc.get("thorough_cfg") if tier == "thorough" and mc.get("thorough_cfg") else mc["cfg"]
    t = time.time()
    rc, out, gen, dist = tlc(mc["mod"] + ".tla", cfg, workers=mc.get("workers", 4), timeout=mc.get("timeout", 800),
                             extra=tuple(mc.get("extra", ())), xmx="6g")
    if rc != 0 or "No error has been found" not in out:
        raise Err(f"model {mc['mod']}/{cfg} did not check:\n{errtext(out)}")
    return dict(model=mc["mod"], cfg=cfg, states=dist, transitions=gen, wall_s=round(time.time() - t, 1))

def run_driver(exe, args, a, b, seed, tier, out, stop=2, keep=False, err=None, timeout=840):
    cmd = [exe, "--from", str(a), "--to", str(b), "--seed", str(seed), "--tier", tier, "--stop", str(stop)] + list(args)
    if keep: cmd.append("--stderr")
    wd = tempfile.mkdtemp(prefix="run-", dir=os.path.join(B.OUT, "tmp"))
    try:
        with open(out, "w") as f:
            e = open(err, "w") if err else subprocess.DEVNULL
            r = subprocess.run(cmd, stdout=f, stderr=e, cwd=wd, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Err(f"driver timeout: {cmd}")
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    return r.returncode

def validate(spec, path, cfg="Trace.cfg", dfs=False):
    """TLC over all traces of a file. Returns (rejected {case: matched}, states, transitions)."""
    jvm = ("-Dtlc2.tool.queue.IStateQueue=StateDeque",) if dfs else ()
    rc, out, gen, dist = tlc(spec + ".tla", cfg, env={"TRACES": path}, workers=1, timeout=800, jvm=jvm)
    rej = {int(a): int(b) for a, b in re.findall(r'<<"REJECTED", (\d+), (\d+)>>', out)}
    if rej: return rej, gen, dist
    if rc != 0 and ("TLC threw an unexpected exception" in out or "evaluating the nested" in out):
        # an event for which the specification has no meaning (e.g. an unknown object)
        st = re.findall(r"^/\\ (t|l) = (\d+)", out, re.M)
        at = dict(st[-2:]) if len(st) >= 2 else {}
        if {"t", "l"} <= at.keys() and "OutOfMemory" not in out and "StackOverflow" not in out:
            with open(path) as f: lines = [x for x in f if x.strip()]
            if 1 <= int(at["t"]) <= len(lines): return {json.loads(lines[int(at["t"]) - 1])["c"]: int(at["l"])}, gen, dist
    if rc != 0 or "No error has been found" not in out:
        raise Err(f"TLC failed on {spec} ({path}):\n{errtext(out)}")
    return {}, gen, dist

def conform(pid, tr, exe, tier, seed, tmp, jobs):
    """Record and validate; returns coverage dict and list of rejections."""
    n = tr.get(tier, tr["quick"])
    args = tr.get("args", [])
    shards = min(jobs, n)
    bounds = [(1 + i * n // shards, (i + 1) * n // shards) for i in range(shards)]
    tag = re.sub(r"\W", "_", tr["driver"] + "_" + "_".join(args) + tr["spec"])
    files = [os.path.join(tmp, f"{pid}.{tag}.{i}.ndjson") for i in range(shards)]
    t0 = time.time()
    def work(i):
        a, b = bounds[i]
        run_driver(exe, args, a, b, seed, tier, files[i])
        with open(files[i]) as f: lines = [x for x in f if x.strip()]
        if not lines: raise Err(f"driver {tr['driver']} produced no trace for cases {a}..{b}")
        stop = len(lines) < b - a + 1
        bad_end = [json.loads(x[:60].split(',"n"')[0] + "}")["c"] for x in lines if not x.rstrip().endswith('{"e":"end"}]}')]
        if stop and not bad_end: raise Err(f"driver {tr['driver']} stopped early in {a}..{b}")
        rej, gen, dist = validate(tr["spec"], files[i], tr.get("cfg", "Trace.cfg"), tr.get("dfs", False))
        nev = sum(x.count('"e":') for x in lines)
        return lines, rej, gen, dist, nev
    with cf.ThreadPoolExecutor(jobs) as ex: res = list(ex.map(work, range(shards)))
    cov = dict(driver=tr["driver"], args=args, spec=tr["spec"],
               traces=sum(len(r[0]) for r in res), events=sum(r[4] for r in res),
               distinct_traces=len({hashlib.sha1(re.sub(r'^\{"c":\d+,|"steps":\d+,', "", x).encode()).digest() for r in res for x in r[0]}),
               states=sum(r[3] for r in res), transitions=sum(r[2] for r in res), wall_s=round(time.time() - t0, 1))
    sample = max((x for x in res[0][0]), key=lambda x: -abs(len(x) - 900))
    rej = [(c, m) for r in res for c, m in r[1].items()]
    return cov, sample.strip()[:1500], rej

def confirm(pid, tr, exe, tier, seed, case, tmp):
    """Run the case again; a rejection only counts when it repeats."""
    rdir = os.path.join(VERIF, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
    base = os.path.join(rdir, f"{pid}.{tr['driver']}.{case}")
    for i in range(3):
        run_driver(exe, tr.get("args", []), case, case, seed, tier, base + ".ndjson", keep=True, err=base + ".stderr")
        rej, _, _ = validate(tr["spec"], base + ".ndjson", tr.get("cfg", "Trace.cfg"), tr.get("dfs", False))
        if rej: break
    else: return None
    with open(base + ".ndjson") as f: trace = json.loads(f.readline())
    m = rej[case]
    ev = trace["ev"]
    with open(base + ".json", "w") as f:
        json.dump(dict(property=pid, driver=tr["driver"], case=case, seed=seed, tier=tier, spec=tr["spec"],
                       command=f"tools/replay.sh {tr['driver']} {case} {seed} {tier} {tr['spec']} " + " ".join(tr.get("args", [])),
                       matched_events=m - 1, rejected_event=ev[m - 1] if m - 1 < len(ev) else None,
                       context=ev[max(0, m - 12):m], params=trace.get("p"), nodes=trace.get("n")), f, indent=1)
    return base + ".json", (ev[m - 1] if m - 1 < len(ev) else None)

def known(pid):
    p = os.path.join(VERIF, "known_findings.jsonl"); out = []
    if os.path.exists(p):
        for x in open(p):
            x = x.strip()
            if x and not x.startswith("fixed:") and not x.startswith("#"):
                k = json.loads(x)
                if k["property"] == pid: out.append(k)
    return out

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time(); pr = PROPS[pid]
    os.makedirs(os.path.join(B.OUT, "tmp"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=f"{pid}-", dir=os.path.join(B.OUT, "tmp"))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    viol = []
    try:
        drivers = sorted({t["driver"] for t in pr["traces"]})
        with cf.ThreadPoolExecutor(4) as ex:
            fb = ex.submit(B.build, drivers)
            mcs = [ex.submit(model_check, m, tier) for m in pr.get("mc", [])]
            exes, fresh = fb.result()
            tb = time.time() - t0
            print(f"[{pid}] built {drivers} ({fresh} objects compiled) {tb:.0f}s", flush=True)
            covs, samples, flaky = [], [], []
            for tr in pr["traces"]:
                cov, sample, rej = conform(pid, tr, exes[tr["driver"]], tier, seed, tmp, NPROC)
                covs.append(cov); samples.append(sample)
                print(f"[{pid}] {tr['driver']} {' '.join(tr.get('args', []))} -> {tr['spec']}: {cov['traces']} executions, "
                      f"{cov['events']} events, {cov['wall_s']}s, rejected {len(rej)}", flush=True)
                for c, m in rej[:4]:
                    got = confirm(pid, tr, exes[tr["driver"]], tier, seed, c, tmp)
                    if got: viol.append((got[0], tr, c, got[1]))
                    else: flaky.append((tr["driver"], c))
                    if len(viol) >= 2: break
            mres = [f.result() for f in mcs]
        for m in mres: print(f"[{pid}] model {m['model']}: {m['states']} states, {m['transitions']} transitions, {m['wall_s']}s", flush=True)
        if flaky and not viol: raise Err(f"rejections that did not repeat: {flaky}")
    except B.BuildError as e:
        print(f"[{pid}] ERROR build: {e}"); sys.exit(3)
    except Err as e:
        print(f"[{pid}] ERROR {e}"); sys.exit(3)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ks = known(pid); new = []
    for path, tr, c, e in viol:
        hit = [k for k in ks if k.get("driver") == tr["driver"] and k.get("match") and all((e or {}).get(a) == b for a, b in k["match"].items())]
        if hit: continue
        new.append((path, tr, c, e))
    for k in ks: print(f"KNOWN-FINDING: property={pid} {k['what']}")
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=sum(m["states"] for m in mres or covs), transitions=sum(m["transitions"] for m in mres or covs),
                            traces_validated_against_impl=sum(c["traces"] for c in covs),
                            events_validated=sum(c["events"] for c in covs),
                            trace_states=sum(c["states"] for c in covs), trace_transitions=sum(c["transitions"] for c in covs),
                            distinct_traces=sum(c["distinct_traces"] for c in covs),
                            models=mres, conformance=covs, samples=samples),
              assumptions=pr.get("assumptions", []) + [
                  "magistrate and MPI are stand-ins (/verif/shim); ranks are processes scheduled one at a time under seeded schedules",
                  "conformance covers the recorded executions; the design models are exhaustive within their constants"],
              wall_s=round(time.time() - t0, 1), violations=len(new))
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f: json.dump(ev, f, indent=1)
    if new:
        for path, tr, c, e in new:
            print(f"[{pid}] case {c} of {tr['driver']} rejected by {tr['spec']} at event {json.dumps(e)}")
            print(f"VIOLATION property={pid} replay={os.path.relpath(path, VERIF)}")
        sys.exit(1)
    print(f"[{pid}] held on everything explored ({time.time() - t0:.0f}s)")
    sys.exit(0)

if __name__ == "__main__":
    main()
