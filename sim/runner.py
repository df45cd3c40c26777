"""Seeded search: runs cases in forked children, gates, minimises and reports
violations, writes evidence.  Verdicts depend only on (code, seed, tier)."""
import os, sys, json, time, random, select, signal, struct, tempfile, shutil, hashlib, traceback, resource
from . import build

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JOBS = int(os.environ.get("KF_JOBS", "8"))

def base_env():
    """Re-exec with address randomisation off and fixed hashing/threads."""
    if os.environ.get("KF_ENV") == "1": return
    e = dict(os.environ, KF_ENV="1", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
             PYTHONDONTWRITEBYTECODE="1", LC_ALL="C")
    try:
        import ctypes
        ctypes.CDLL(None).personality(0x0040000)
    except Exception: pass
    os.execve(sys.executable, [sys.executable, "-W", "ignore"] + sys.argv, e)

def poison(case):
    """Fresh and freed heap memory holds a byte drawn from the seed, so that a value
    read before it is written (or after it is freed) is repeatable and never just zero."""
    try:
        import ctypes
        ctypes.CDLL(None).mallopt(-6, 1 + hashlib.sha1(str(case.get("seed")).encode()).digest()[0] % 254)
    except Exception: pass

class Child:
    def __init__(self, mod, case, lib, timeout):
        self.case, self.timeout, self.waited = case, float(os.environ.get("KF_TIMEOUT", timeout)), 0.0
        self.scratch = tempfile.mkdtemp(prefix="kfsim")
        r, w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(r)
                os.setsid()
                __import__("ctypes").CDLL(None).prctl(1, 9)      # ends with the check, even if that is killed
                os.chdir(self.scratch)
                null = os.open("/dev/null", os.O_RDWR)
                for fd in (0, 1, 2): os.dup2(null, fd)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 28, 1 << 28))
                import faulthandler
                self.err = open("stderr", "w")
                os.dup2(self.err.fileno(), 2)
                faulthandler.register(signal.SIGUSR2, file=self.err, all_threads=True)
                poison(case)
                res = execute(mod, case, lib, self.scratch)
                out = json.dumps(res).encode()
            except BaseException:
                out = json.dumps({"internal": traceback.format_exc()}).encode()
            try:
                while out:
                    n = os.write(w, out); out = out[n:]
            finally: os._exit(0)
        os.close(w)
        self.fd, self.buf = r, []
    def cpu(self):
        try:
            f = open("/proc/%d/stat" % self.pid).read().rsplit(")", 1)[1].split()
            return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
        except (OSError, IndexError, ValueError): return 0.0
    def overdue(self, passed):
        """Judged by processor time, so that a busy or paused machine is not a hang;
        a step of the host's clock counts for two seconds at most."""
        self.waited += min(max(passed, 0.0), 2.0)
        return self.waited > self.timeout and (self.cpu() > 0.8 * self.timeout or self.waited > 4 * self.timeout)
    def finish(self, killed=False):
        os.close(self.fd)
        if killed:
            try: os.kill(self.pid, signal.SIGUSR2); time.sleep(.5)
            except OSError: pass
        try: os.killpg(self.pid, signal.SIGKILL)
        except OSError: pass
        _, st = os.waitpid(self.pid, 0)
        try:
            tail = open(os.path.join(self.scratch, "stderr"), errors="replace").read()[-1500:]
        except OSError: tail = ""
        shutil.rmtree(self.scratch, ignore_errors=True)
        raw = b"".join(self.buf)
        if killed: return {"hang": True, "violations": [{"kind": "hang", "msg": "no result within %d s of processor time\n%s" % (self.timeout, tail)}], "hash": "hang", "stats": {}}
        if raw:
            try: return json.loads(raw)
            except ValueError: pass
        s = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
        return {"violations": [{"kind": "native-crash", "msg": "the worker process died (signal %d): %s" % (s, tail)}], "hash": "crash%d" % s, "stats": {}}

def execute(mod, case, lib, scratch):
    from . import worker, pynode, core
    worker.LIB[0] = lib
    worker.SCRATCH[0] = scratch
    sys.setswitchinterval(1.0)
    import threading
    threading.stack_size(64 << 20)
    t = time.time()
    r = mod.run(case)
    r["wall"] = time.time() - t
    return r

def pool(mod, cases, lib, timeout=60, deadline=None, jobs=None, on_result=None):
    """cases: iterator.  on_result(case, result) -> True to stop."""
    live = {}
    it = iter(cases)
    done = stop = False
    jobs = jobs or JOBS
    last = time.time()
    try:
        while True:
            while not done and not stop and len(live) < jobs:
                if deadline and time.time() > deadline: done = True; break
                try: c = next(it)
                except StopIteration: done = True; break
                ch = Child(mod, c, lib, timeout)
                live[ch.fd] = ch
            if not live: break
            rs, _, _ = select.select(list(live), [], [], 1.0)
            for fd in rs:
                ch = live[fd]
                b = os.read(fd, 1 << 16)
                if b: ch.buf.append(b)
                else:
                    del live[fd]
                    if on_result(ch.case, ch.finish()): stop = True
            now = time.time()
            passed, last = now - last, now
            for fd, ch in list(live.items()):
                if ch.overdue(passed):
                    del live[fd]
                    if on_result(ch.case, ch.finish(True)): stop = True
            if stop: break
    finally:
        for ch in live.values(): ch.finish(True)

def run_one(mod, case, lib, timeout=60):
    out = []
    pool(mod, [case], lib, timeout, on_result=lambda c, r: out.append(r))
    return out[0]

def known():
    """known-findings.txt: `known: property=<id> key=<kind> <text>` suppresses
    violations of exactly that kind; `fixed:` lines suppress nothing."""
    out = []
    try:
        for l in open(os.path.join(ROOT, "known-findings.txt")):
            if l.startswith("known:"):
                f = dict(x.split("=", 1) for x in l.split()[1:3])
                out.append((f["property"], f["key"], l.split(None, 3)[3].strip()))
    except FileNotFoundError: pass
    return out

def kinds(res): return sorted({v["kind"] for v in res.get("violations", [])})

def minimise(mod, case, kind, lib, budget):
    end = time.time() + budget
    cur = case
    def still(c):
        return kind in kinds(run_one(mod, c, lib))
    progress = True
    while progress and time.time() < end:
        progress = False
        cands = []
        plan = cur.get("plan", [])
        if len(plan) > 1:
            h = len(plan) // 2
            cands += [dict(cur, plan=plan[:h]), dict(cur, plan=plan[h:])]
        for i in range(len(plan)): cands.append(dict(cur, plan=plan[:i] + plan[i + 1:]))
        if hasattr(mod, "shrink"): cands += list(mod.shrink(cur))
        for c in cands:
            if time.time() > end: break
            if still(c): cur = c; progress = True; break
    return cur

def merge_counts(a, b):
    for k, v in (b or {}).items(): a[k] = a.get(k, 0) + v

def main(mod, pid, tier, seed, replay=None):
    t0 = time.time()
    lib = build.build()
    if hasattr(mod, "prepare"): mod.prepare(tier)
    if replay:
        rep = json.load(open(replay))
        res = run_one(mod, rep["case"], lib)
        ok = rep["kind"] in kinds(res)
        print(json.dumps(res.get("violations", []), indent=1)[:3000])
        if ok and res.get("hash") == rep["hash"]: print("REPRODUCED kind=%s hash=%s" % (rep["kind"], rep["hash"]))
        elif ok: print("REPRODUCED-KIND kind=%s hash differs" % rep["kind"])
        else: print("NOT-REPRODUCED")
        if os.environ.get("KF_TRACE"): print("\n".join(res.get("trace", [])))
        return 1 if ok else 0
    n = mod.CASES[tier]
    cap = getattr(mod, "CAP", {"quick": 150, "thorough": 2400})[tier]
    cap = float(os.environ.get("KF_CAP", cap))
    timeout = getattr(mod, "TIMEOUT", 60)
    deadline = t0 + cap
    agg = {"runs": 0, "sim_seconds": 0.0, "events": 0, "updates": 0, "fired": {}, "ops": {}, "probes": {}, "switches": 0}
    inter, hashes, samples, bad, internal, knownhits = set(), {}, [], [], [], {}
    nontrivial = set()
    KN = [(k, t) for p, k, t in known() if p == pid]
    def cases():
        for i in range(n):
            c = mod.gen("%s/%d/%d" % (pid, seed, i), tier, i)
            c.setdefault("seed", "%s/%d/%d" % (pid, seed, i)); c["i"] = i
            yield c
    def got(c, r):
        if "internal" in r:
            internal.append((c, r["internal"])); return len(internal) > 20
        agg["runs"] += 1
        s = r.get("stats", {})
        agg["sim_seconds"] += s.get("sim_seconds", 0); agg["events"] += s.get("events", 0); agg["updates"] += s.get("updates", 0); agg["switches"] += s.get("switches", 0)
        for k in ("fired", "ops", "probes"): merge_counts(agg[k], s.get(k))
        hashes[c["i"]] = r.get("hash")
        inter.add(s.get("interleave", r.get("hash")))
        if s.get("nontrivial", True): nontrivial.add(s.get("interleave", r.get("hash")))
        if len(samples) < 3: samples.append({"case": c, "hash": r.get("hash"), "stats": s, "trace_tail": r.get("trace", [])[-15:]})
        vs = []
        for v in r.get("violations", []):
            hit = [t for k, t in KN if k == v["kind"]]
            if hit: knownhits[v["kind"]] = hit[0]
            else: vs.append(v)
        if vs:
            bad.append((c, dict(r, violations=vs)))
            return len(bad) >= 3
    pool(mod, cases(), lib, timeout, deadline, on_result=got)
    t_search = time.time() - t0
    if internal and not bad:
        sys.stderr.write("internal error in case %s\n%s\n" % (json.dumps(internal[0][0])[:1500], internal[0][1])); return 2
    # determinism gate: re-execute a sample and compare complete event logs
    det_checked, det_bad = 0, []
    if not bad:
        ids = sorted(hashes)
        pick = random.Random(seed).sample(ids, min(len(ids), getattr(mod, "REDO", {"quick": 8, "thorough": 64})[tier]))
        def redo(c, r):
            nonlocal det_checked
            det_checked += 1
            if "internal" in r or r.get("hash") != hashes[c["i"]]: det_bad.append(c["i"])
        def again():
            for i in pick:
                c = mod.gen("%s/%d/%d" % (pid, seed, i), tier, i)
                c.setdefault("seed", "%s/%d/%d" % (pid, seed, i)); c["i"] = i
                yield c
        pool(mod, again(), lib, timeout, time.time() + 200, jobs=5, on_result=redo)
    # statistical verdicts over the whole batch
    final = mod.finish(agg, tier) if hasattr(mod, "finish") else []
    status = 0
    reported = None
    if bad:
        bad.sort(key=lambda b: b[0]["i"])
        errs = []
        for c, r in bad:
            k = r["violations"][0]["kind"]
            r2 = run_one(mod, c, lib, timeout)
            if k not in kinds(r2) or r2.get("hash") != r.get("hash"):
                errs.append("case %d: %s did not repeat identically (%s %s)" % (c["i"], k, r.get("hash"), r2.get("hash")))
                if k in kinds(r2): errs.pop()      # same violation, log differs (memory-corrupting bug): still usable
                else: continue
            m = c if k == "hang" else minimise(mod, c, k, lib, getattr(mod, "MINBUDGET", 60))
            rm = r2 if m is c else run_one(mod, m, lib, timeout)
            if k not in kinds(rm): m, rm = c, r2
            os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
            path = os.path.join("replays", "%s-%s.json" % (pid, hashlib.sha1(json.dumps(m, sort_keys=True).encode()).hexdigest()[:10]))
            v = [x for x in rm["violations"] if x["kind"] == k][0]
            json.dump({"property": pid, "kind": k, "violation": v, "hash": rm.get("hash"), "case": m, "original_case": c, "trace": rm.get("trace", [])},
                      open(os.path.join(ROOT, path), "w"), indent=1)
            # fresh process replay
            import subprocess
            e = dict(os.environ); e.pop("KF_ENV", None)
            p = subprocess.run([sys.executable, os.path.join(ROOT, "check.py"), pid, "--replay", os.path.join(ROOT, path)], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
            if b"REPRODUCED" not in p.stdout or b"NOT-REPRODUCED" in p.stdout:
                errs.append("case %d: fresh-process replay failed: %s" % (c["i"], p.stdout.decode(errors="replace")[-500:])); continue
            print("seed=%s kind=%s plan=%s" % (c["seed"], k, json.dumps(m.get("plan", []))))
            print("  %s" % v["msg"][:800])
            print("VIOLATION property=%s replay=%s" % (pid, path))
            status = 1; reported = k
            break
        if status == 0:
            sys.stderr.write("\n".join(errs) + "\n")
            if any(r["violations"][0]["kind"] != "hang" for c, r in bad): status = 2      # a slow machine is not an answer about the code
    elif final:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    if det_bad and status == 0:
        sys.stderr.write("nondeterministic cases: %s\n" % det_bad); status = 2
    if agg["runs"] == 0 and status == 0:
        sys.stderr.write("no case finished\n"); status = 2
    for k, t in sorted(knownhits.items()): print("KNOWN-FINDING: property=%s %s" % (pid, t))
    need = [p for p in getattr(mod, "PROBES", []) if not agg["probes"].get(p)]
    wall = time.time() - t0
    ev = {"property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"), "wall_s": round(wall, 2), "violations": len(bad),
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "coverage": {"evaluations": agg["runs"], "distinct_nontrivial": len(nontrivial), "rule": mod.RULE, "samples": samples,
                       "simulated_runs_per_hour": int(agg["runs"] / max(t_search, 1e-3) * 3600), "distinct_seeds": agg["runs"],
                       "seeds_per_hour": int(agg["runs"] / max(t_search, 1e-3) * 3600),
                       "simulated_seconds": round(agg["sim_seconds"], 1), "scheduler_events": agg["events"], "node_switches": agg["switches"],
                       "monte_carlo_updates": agg["updates"], "faults_injected": agg["fired"], "operations": agg["ops"], "rare_conditions_hit": agg["probes"],
                       "probes_never_hit": need, "distinct_interleavings": len(inter),
                       "interleaving_measure": "sha1 of the sequence of node switches and externally visible operations of a run",
                       "determinism_reruns": det_checked, "determinism_mismatches": len(det_bad),
                       "real_components": getattr(mod, "REAL", []), "stub_components": getattr(mod, "STUB", [])}}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    if status == 0:
        print("OK property=%s runs=%d distinct=%d simulated=%.0fs updates=%d faults=%s probes=%s wall=%.1fs" % (
            pid, agg["runs"], len(nontrivial), agg["sim_seconds"], agg["updates"], json.dumps(agg["fired"]), json.dumps(agg["probes"]), wall))
        if need: print("note: rare conditions never hit: %s" % need)
    return status

def result(w, nodes=(), **extra):
    """Standard result record of a World."""
    fired = dict(w.fired)
    s = {"sim_seconds": w.now, "events": w.events, "fired": fired, "ops": w.opcount, "probes": w.probes, "switches": w.switches,
         "interleave": w.h.hexdigest()}
    s.update(extra)
    return {"violations": w.violations, "hash": w.h.hexdigest(), "stats": s, "trace": w.trace[-300:] if w.violations else w.trace[-15:]}
