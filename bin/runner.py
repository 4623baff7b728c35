#!/usr/bin/env python3
"""Runs the checks listed in checks.py.

A check is a list of jobs.
  Trace job: compile a driver from /verif/harness against /repo/include, let it
     record histories of the real library (deterministic from VERIF_SEED and the
     shard number), and let TLC decide whether every recorded history is a
     behaviour of the trace specification.  An event with no matching action is a
     deadlock of the trace specification, and is a violation if a re-run of the
     driver and of TLC repeats it.
  Model job: TLC explores a specification exhaustively with small constants.
  Gen job:   TLC -simulate produces behaviours of a specification, the driver
     replays them on the real library and records what it observed; the recording
     is then validated as in a trace job.
Exit: 0 held, 1 VIOLATION line printed, 2 the check itself failed.
"""
import sys, os, re, json, time, shutil, subprocess, tempfile, concurrent.futures, hashlib, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPAR = 8

class CheckError(Exception):
    pass
class Died(CheckError):
    pass

def run(cmd, timeout, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return 124, out.decode("utf-8", "replace")

# ------------------------------------------------------------------ compile
def compile_driver(src, tmp, opt="-O1", defs=()):
    exe = os.path.join(tmp, os.path.basename(src).replace(".cpp", "") + hashlib.md5(repr((opt, defs)).encode()).hexdigest()[:6])
    cmd = ["clang++", "-std=c++17", "-w", opt, "-I", os.path.join(REPO, "include"), "-I", HARN, *defs, os.path.join(HARN, src), "-o", exe]
    rc, out = run(cmd, 600)
    if rc != 0:
        raise CheckError("driver %s does not compile against %s:\n%s" % (src, REPO, out[-3000:]))
    return exe

# ---------------------------------------------------------------------- TLC
def tlc(spec, cfg, tmp, env=None, workers=1, heap="1600m", extra=(), timeout=800):
    meta = tempfile.mkdtemp(prefix="meta", dir=tmp)
    e = dict(os.environ); e.update(env or {})
    cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Djava.io.tmpdir=" + tmp, "-cp", CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *extra, spec]
    rc, out = run(cmd, timeout, cwd=SPEC, env=e)
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return rc, out, gen, dist

def trace_lengths(path):
    """Number of histories and events; per-action counts."""
    n = ev = 0; acts = {}
    pat = re.compile(r'\{"a":"(\w+)"')
    with open(path) as f:
        for line in f:
            n += 1
            for a in pat.findall(line):
                ev += 1; acts[a] = acts.get(a, 0) + 1
    return n, ev, acts

def nth_line(path, k):
    with open(path) as f:
        for i, line in enumerate(f):
            if i + 1 == k: return line
    return None

def validate(job, path, tmp, heap="1600m"):
    """-> ('ok', gen, dist, None) | ('reject', gen, dist, (tid, l, out)) | ('error', ...)"""
    n, ev, _ = trace_lengths(path)
    rc, out, gen, dist = tlc(job["spec"] + ".tla", job.get("cfg", job["spec"]) + ".cfg", tmp, env={"TRACE": path}, heap=heap)
    # no action allows the event, or its recorded values lie outside what the specification can evaluate
    if "Deadlock reached" in out or re.search(r"Attempted to |Overflow when computing|was evaluating", out):
        tid = re.findall(r"\btid = (\d+)", out); l = re.findall(r"/\\ l = (\d+)", out)
        if tid and l: return "reject", gen, dist, (int(tid[-1]), int(l[-1]), out)
    if rc == 0 and "Model checking completed. No error has been found" in out:
        if job.get("nondet") or dist == n + ev: return "ok", gen, dist, None
        return "error", gen, dist, "%d distinct states, expected %d\n%s" % (dist, n + ev, out[-2000:])
    return "error", gen, dist, out[-4000:]

def drive(job, exe, args, path, tmp, log):
    rc, out = run([exe] + [str(a) for a in args] + [path], job.get("drv_timeout", 600), cwd=tmp)
    if rc in (70, 71): return            # the recorded history ends in an event without an action
    if -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
        raise Died("the driver died from signal %d" % -rc)   # memory corrupted beyond recording it
    if rc != 0: raise CheckError("driver %s failed (%d): %s" % (job["src"], rc, out[-2000:]))

def trace_task(prop, job, exe, shard, count, seed, tmp):
    path = os.path.join(tmp, "%s-%s-%d.ndjson" % (job["name"], prop, shard))
    args = [*job.get("args", []), seed * 1000 + shard, count]
    for attempt in (1, 2):
        try: drive(job, exe, args, path, tmp, None)
        except Died as e:
            if attempt == 1: first = ("died", None); continue
            if first[0] != "died": raise
            return dict(kind="reject", job=job["name"], line=json.dumps({"ev": [{"a": "Crash", "during": str(e)}]}) + "\n", tid=0, l=1, out="", gen=0, dist=0, args=args, spec=job["spec"])
        res, gen, dist, info = validate(job, path, tmp)
        if res == "ok":
            if attempt == 2: sys.stderr.write("note: rejection/error of %s shard %d not repeated\n" % (job["name"], shard))
            n, ev, acts = trace_lengths(path)
            sample = nth_line(path, 1 + (shard * 7) % max(1, n)) if n else None
            os.unlink(path)
            return dict(kind="ok", n=n, ev=ev, acts=acts, gen=gen, dist=dist, sample=sample, job=job["name"])
        if attempt == 1:
            first = (res, info); continue
    if res == "reject" and first[0] == "reject":
        tid, l, out = info
        line = nth_line(path, tid)
        return dict(kind="reject", job=job["name"], line=line, tid=tid, l=l, out=out[-3000:], gen=gen, dist=dist, args=args, spec=job["spec"])
    raise CheckError("TLC did not decide %s shard %d: %s" % (job["name"], shard, info if isinstance(info, str) else first))

def gen_task(prop, job, exe, shard, count, seed, tmp):
    scr = os.path.join(tmp, "%s-%s-%d.script" % (job["name"], prop, shard))
    gcfg = job["gen_cfg"] + ".cfg"
    rc, out, gen, dist = tlc(job["gen_spec"] + ".tla", gcfg, tmp, env={"GENOUT": scr},
                             extra=["-simulate", "num=%d" % count, "-depth", str(job.get("depth", 12)), "-seed", str(seed * 1000 + shard)])
    if not os.path.exists(scr): raise CheckError("no behaviours generated by %s: %s" % (job["gen_spec"], out[-2000:]))
    j2 = dict(job); j2["args"] = [*job.get("args", []), scr]
    r = trace_task(prop, j2, exe, shard, count, seed, tmp)
    return r

def known_findings():
    """id -> description, from the committed file; 'fixed:' lines suppress nothing."""
    kf = {}
    try:
        for line in open(os.path.join(VERIF, "KNOWN_FINDINGS")):
            m = re.match(r"known: property=(\w+) id=(\S+) (.*)", line)
            if m: kf[(m.group(1), m.group(2))] = m.group(3).strip()
    except OSError: pass
    return kf

def known_task(prop, job, exe, seed, tmp):
    """Replays one fixed history that the real code is known to get wrong."""
    path = os.path.join(tmp, "kf-%s.ndjson" % job["name"])
    drive(job, exe, [*job["args"], 0, 1], path, tmp, None)
    res, gen, dist, info = validate(job, path, tmp)
    if res == "error": raise CheckError("TLC did not decide %s: %s" % (job["name"], info))
    n, ev, acts = trace_lengths(path)
    if res == "ok": return dict(kind="ok", n=n, ev=ev, acts=acts, gen=gen, dist=dist, sample=None, job=job["name"])
    desc = known_findings().get((prop, job["name"]))
    if desc: return dict(kind="known", job=job["name"], gen=gen, dist=dist, desc=desc)
    tid, l, out = info
    return dict(kind="reject", job=job["name"], line=nth_line(path, tid), tid=tid, l=l, out=out[-3000:], gen=gen, dist=dist, args=job["args"], spec=job["spec"])

def model_task(prop, job, tmp):
    rc, out, gen, dist = tlc(job["spec"] + ".tla", job.get("cfg", job["spec"]) + ".cfg", tmp, workers=job.get("workers", 4), heap="4g")
    if rc != 0 or "No error has been found" not in out:
        raise CheckError("model %s failed: %s" % (job["name"], out[-4000:]))
    return dict(kind="model", job=job["name"], gen=gen, dist=dist)

def main():
    sys.path.insert(0, os.path.join(VERIF, "bin"))
    import checks
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    chk = checks.CHECKS[prop]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    rc = 2
    try:
        rc = check(prop, chk, tier, seed, tmp, t0)
    except CheckError as e:
        print("CHECK-ERROR property=%s %s" % (prop, e)); rc = 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)

def check(prop, chk, tier, seed, tmp, t0):
    jobs = chk["jobs"]
    exes = {}
    keys = sorted({(j["src"], j.get("opt", "-O1"), tuple(j.get("defs", ()))) for j in jobs if "src" in j})
    results = []; rejects = []
    with concurrent.futures.ThreadPoolExecutor(NPAR) as pool:
        futs = {k: pool.submit(compile_driver, k[0], tmp, k[1], k[2]) for k in keys}
        for k, f in futs.items(): exes[k] = f.result()
        tasks = []
        for j in jobs:
            if j["type"] == "model":
                if j.get("tier", tier) == tier: tasks.append(pool.submit(model_task, prop, j, tmp))
                continue
            if j["type"] == "known":
                tasks.append(pool.submit(known_task, prop, j, exes[(j["src"], j.get("opt", "-O1"), tuple(j.get("defs", ())))], seed, tmp))
                continue
            total = int((j["quick"] if tier == "quick" else j.get("thorough", j["quick"] * 10)) * float(os.environ.get("VERIF_SCALE", "1")))
            shards = j.get("shards", NPAR) * (1 if tier == "quick" else j.get("tshards", 4))
            per = max(1, total // shards)
            exe = exes[(j["src"], j.get("opt", "-O1"), tuple(j.get("defs", ())))]
            fn = trace_task if j["type"] == "trace" else gen_task
            for s in range(shards): tasks.append(pool.submit(fn, prop, j, exe, s, per, seed, tmp))
        for f in concurrent.futures.as_completed(tasks):
            r = f.result()
            results.append(r)
            if r["kind"] == "reject":
                rejects.append(r)
                for t in tasks: t.cancel()
                break
        if rejects:
            for t in tasks: t.cancel()
    # ------------------------------------------------------------ evidence
    oks = [r for r in results if r["kind"] == "ok"]
    acts = {}
    for r in oks:
        for a, c in r["acts"].items(): acts[a] = acts.get(a, 0) + c
    samples = []
    seen = set()
    for r in oks:
        if r["sample"] and r["job"] not in seen and len(samples) < 6:
            seen.add(r["job"])
            d = json.loads(r["sample"]); d["ev"] = d["ev"][:4]
            s = json.dumps(d)
            samples.append({"job": r["job"], "history_prefix": d if len(s) < 3000 else s[:3000]})
    missing = [a for a in chk.get("must_see", []) if not acts.get(a)]
    cov = {"states": sum(r["dist"] for r in results), "transitions": sum(r["gen"] for r in results),
           "traces_validated_against_impl": sum(r["n"] for r in oks), "events_validated": sum(r["ev"] for r in oks),
           "events_per_action": acts, "models_checked": [{"model": r["job"], "states": r["dist"]} for r in results if r["kind"] == "model"],
           "known_findings_seen": [r["job"] for r in results if r["kind"] == "known"],
           "samples": samples or ["none"]}
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": chk["level"], "coverage": cov,
          "assumptions": chk.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(rejects)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    if rejects:
        r = rejects[0]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        base = os.path.join(VERIF, "replays", "%s-%s" % (prop, hashlib.md5(r["line"].encode()).hexdigest()[:8]))
        with open(base + ".ndjson", "w") as f: f.write(r["line"])
        e = json.loads(r["line"]); evs = e["ev"]
        bad = evs[r["l"] - 1] if r["l"] - 1 < len(evs) else None
        with open(base + ".txt", "w") as f:
            f.write("property %s job %s spec %s driver args %r history %d event %d\n" % (prop, r["job"], r["spec"], r["args"], r["tid"], r["l"]))
            f.write("rejected event: %s\n" % json.dumps(bad))
            f.write("replay: TRACE=%s.ndjson tlc -config %s.cfg %s.tla   (in /verif/spec)\n" % (base, r["spec"], r["spec"]))
        print("history rejected by %s at event %d: %s" % (r["spec"], r["l"], json.dumps(bad)[:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, base + ".ndjson"))
        return 1
    if missing:
        raise CheckError("actions never exercised: %s" % missing)
    for r in results:
        if r["kind"] == "known": print("KNOWN-FINDING: property=%s %s: %s" % (prop, r["job"], r["desc"]))
    print("%s ok: %d histories, %d events validated; %d model states; %.1fs" % (prop, cov["traces_validated_against_impl"], cov["events_validated"], sum(r["dist"] for r in results if r["kind"] == "model"), time.time() - t0))
    return 0

if __name__ == "__main__":
    main()
