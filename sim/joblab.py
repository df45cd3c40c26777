"""The job-manager laboratory: the real job_manager.py and job_class.py on a
simulated process table; successive campaigns in one directory (P15, P16)."""
import random, json, posixpath, types, errno, os, signal as _sig
from . import core, pynode, worlds
from .pynode import PyEnv
from .core import Py2OSError
from .worlds import txt_parse

class Proc:
    """subprocess.Popen of one job"""
    def __init__(self, lab, job, shell=False):
        self.lab, self.job, self.returncode = lab, job, None
        # a shell that was not told to exec its command stays in between: it alone gets what is sent to this process
        self.shell, self.shell_dead = shell, None
        self.pid = 2000 + job["k"]
    def _done(self): return self.shell_dead is not None or not self.job["node"].alive()
    def _reap(self):
        if self._done() and self.returncode is None:
            n = self.job["node"]
            self.returncode = -self.shell_dead if self.shell_dead is not None else n.code if n.code is not None else 0
            self.job["reaped"] = self.shell_dead is None
        return self.returncode
    def poll(self):
        self.lab.w.op(self.lab.w.current, "poll")
        return self._reap()
    def wait(self):
        me = self.lab.w.current
        self.lab.w.op(me, "waitpid")
        while not self._done():
            self.lab.waiters.append(me)
            self.lab.w.wait(me, 1e6, True)
            if me in self.lab.waiters: self.lab.waiters.remove(me)
        return self._reap()
    def communicate(self, *a): self.wait(); return (b"", b"")
    def send_signal(self, s):
        self.lab.w.op(self.lab.w.current, "kill")
        if self.returncode is not None: raise Py2OSError(errno.ESRCH, "No such process")
        if self.shell:
            if int(s) != _sig.SIGINT and self.shell_dead is None and not self._done(): self.shell_dead = int(s)
            return
        self.job["asked"] = True
        if self.job["node"].alive(): self.lab.w.kill(self.job["node"], int(s))
    def terminate(self): self.send_signal(15)
    def kill(self): self.send_signal(9)

class JobLab:
    """cfg: campaigns: [{entries, cpu, sleep, before: [dir changes], jobs...}]"""
    def __init__(self, case):
        self.case, self.cfg = case, case["cfg"]
        self.r = random.Random("joblab/%s" % case["seed"])
        w = self.w = core.World(case["seed"], case.get("plan", ()), {"latency": self.cfg.get("latency", 0.01)})
        pynode.WORLD = w
        w.on_end.append(self.on_end)
        w.on_op.append(self.on_op)
        w.on_signal = self.on_signal
        w.cfg_hooks = {"ctrlc": self.ctrlc}
        self.waiters = []
        self.k = 0
        self.jobs = []            # of the running campaign
        self.all_jobs = []
        self.camp = -1
        self.seeds = []
        self.next_campaign()
    # ------------------------------------------------------------ campaigns
    def next_campaign(self):
        self.camp += 1
        if self.camp >= len(self.cfg["campaigns"]): return
        c = self.c = self.cfg["campaigns"][self.camp]
        d = self.w.disk
        for name in c.get("before", ()):
            if name.startswith("-"): d.files.pop("/work/" + name[1:], None)
            elif name.endswith("/"): d.dirs.add("/work/" + name[:-1])
            else: d.put("/work/" + name, b"left by an earlier campaign")
        self.jobs, self.stop_at, self.listed = [], None, None
        self.ready = None
        self.idle_since = None
        self.w.spawn("manager", "py", self.manager, delay=0.3)
    def manager(self, node):
        node.data["camp"] = self.camp
        c = self.c
        env = PyEnv(node, popen=self.popen, system=self.system, search=("",), stubs={} if c.get("real_inlist") else {"inlist": self.inlist})
        self.w.log(node, "start")
        env.run_main("job_manager.py")
    def templates(self):
        """fresh copies of the inlist's dictionaries"""
        c = self.c
        common = {"Gamma3": False, "Tau": {"MaxTauBin": 8, "Beta": 0.5, "MaxTauBinTiny": 8, "BasisNum": 4}, "Lattice": {"Name": "Square", "NSublat": 1, "L": [2, 2]},
                  "Model": {"Name": "J1J2", "Interaction": [1.0, 0.0, 0.0, 0.0], "ExternalField": [0.0] * 4, "Symmetry": ["SU2", "ParticleHole"]}}
        out = []
        for e in c["entries"]:
            ctl = {"__Execute": "./simulator.exe" if e["type"] == "MC" else ["python", "./dyson/main.py"], "__Duplicate": e["dup"], "__IsCluster": e.get("cluster", False), "__AutoRun": e.get("auto", True)}
            if e["type"] == "MC":
                t = {"Control": ctl, "Job": {"Sample": 100000000}, "Markov": {"Order": 3, "Sweep": 10, "Toss": 1000, "OrderReWeight": [1.0, 0.3, 1.0, 0.1, 0.05], "WormSpaceReweight": 0.05, "PolarReweight": 1.0,
                     "runGamma3": False, "OrderTimeRatio": [1.0] * 5, "Timer": dict(zip(("PrinterTimer", "DiskWriterTimer", "MessageTimer", "ReweightTimer"), e["timers"]))}}
            else:
                ctl["__PBSCommand"] = "#PBS -l mem=5gb"
                t = {"Control": ctl, "Job": {"DysonOnly": not any(x["type"] == "MC" and x["dup"] for x in c["entries"]), "SumRule": False},
                     "Dyson": {"SleepTime": 60, "Gamma3": False, "OrderAccepted": {"Sigma": 1, "Polar": 1}, "ErrorThreshold": 0.05, "Annealing": {"DeltaField": [0.0] * 4, "Interval": [0.0] * 4}}}
            out.append((t, common))
        return out
    def inlist(self, env):
        J = env._import("job_class")
        m = types.ModuleType("inlist")
        m.CPU, m.SLEEP = self.c["cpu"], self.c["sleep"]
        m.TO_DO = []
        shared = None
        for (t, common), e in zip(self.templates(), self.c["entries"]):
            shared = shared or common      # all entries of an inlist share the same Common dictionary
            t.update(shared)
            m.TO_DO.append((J.JobMonteCarlo if e["type"] == "MC" else J.JobDyson)(t))
        return m
    # expected jobs, from the listing the manager itself obtained -----------------
    def expected(self, names):
        have = sorted({int(n.split("_")[0]) for n in names if n.split("_")[0].isdigit() and n.endswith("_MC_statis.hkl")})
        loads = bool(have)
        out, used = [], 0
        nxt = 0
        for e, (t, common) in zip(self.c["entries"], self.templates()):
            if e["type"] == "MC":
                if loads: pids = have[used:used + e["dup"]]; used += len(pids)
                else: pids = list(range(nxt, nxt + e["dup"])); nxt += e["dup"]
                out += [dict(type="MC", pid=p, loads=loads, entry=e, t=t, common=common) for p in pids]
            elif e["dup"] > 0: out.append(dict(type="DYSON", pid=0, loads=None, entry=e, t=t, common=common))
        return out
    # ------------------------------------------------------------ process table
    def running(self, cpu=None): return [j for j in self.jobs if j.get("node") is not None and j["node"].alive() and (cpu is None or j["cpu"] == cpu)]
    def popen(self, node, args, shell):
        self.w.op(node, "popen")
        cmd = args if isinstance(args, str) else " ".join(args)
        return Proc(self, self.start(node, cmd), shell and not cmd.split()[:1] == ["exec"])
    def system(self, node, cmd):
        self.w.op(node, "system", cmd.split()[0])
        d = self.w.disk
        p = cmd.split()
        if p[0] == "mkdir": d.dirs.add(d.norm(node, p[-1])); return 0
        if p[0] == "rm":
            f = d.norm(node, p[-1])
            if f not in d.files: return 256
            del d.files[f]; return 0
        if p[0] == "qsub":
            raw = d.get(d.norm(node, p[-1]))
            if raw is None: return 256
            last = raw.decode().strip().split("\n")[-1]
            self.start(node, last, True)
            return 0
        return 0
    def start(self, node, cmd, cluster=False):
        w, d = self.w, self.w.disk
        self.k += 1
        words = cmd.split()
        path = words[words.index("-f") + 1] if "-f" in words else ""
        job = {"k": self.k, "cmd": cmd, "t": w.now, "cluster": cluster, "path": path, "camp": self.camp}
        raw = d.get(d.norm(node, path + ("" if path.endswith(".txt") else ".txt")))
        inp = txt_parse(raw) if raw is not None else None
        job["inp"] = inp
        w.log(node, "job", "%d %s" % (self.k, posixpath.basename(path)))
        if not isinstance(inp, dict) or "Job" not in inp: w.violate("job-input", "a job was started with %r, which is not a complete input file" % cmd); inp = {"Job": {"Type": "?", "PID": -1}, "Para": {}}
        job["type"], job["pid"] = inp["Job"].get("Type"), inp["Job"].get("PID")
        job["cpu"] = job["type"] == "MC" and not cluster
        if self.stop_at is not None and self.ready != "stopping":
            # at most the submission which was in progress when the request came
            self.late = getattr(self, "late", 0) + 1
            if self.late > 1: w.violate("started-after-stop", "job %s was started %.2f s after the request to stop" % (path, w.now - self.stop_at))
        for j in self.running():
            if (j["type"], j["pid"]) == (job["type"], job["pid"]): w.violate("shared-identity", "two jobs %s.%s run at once" % (job["type"], job["pid"]))
            if j["path"] == job["path"]: w.violate("shared-input", "two running jobs share the input file %s" % path)
        if job["cpu"]:
            n = len(self.running(True)) + 1
            w.probe("limit_reached" if n == self.c["cpu"] else "below_limit")
            if n > self.c["cpu"]: w.violate("too-many", "%d processor-bound jobs run at once, the limit is %d" % (n, self.c["cpu"]))
        self.jobs.append(job); self.all_jobs.append(job)
        r = random.Random("%s/job%d/%s.%s" % (self.case["seed"], self.camp, job["type"], job["pid"]))
        job["node"] = None
        c = self.c
        job["dur"] = {"zero": 0.0, "short": r.choice([0.2, 1.0, 2.0]), "same": 7.0, "mixed": r.choice([0.0, 0.3, 2.0, 9.0, 30.0]), "long": 1e5}[c["dur"]]
        job["grace"] = r.choice([0.0, 0.0, 0.5, 4.0, 20.0])
        job["crash"] = r.random() < c.get("crash", 0.1)
        job["node"] = w.spawn("job%d" % self.k, "c++", lambda n: self.job_body(n, job), delay=r.choice([0.0, 0.01, 0.5]))
        self.check_idle()
        return job
    def job_body(self, n, job):
        w = self.w
        got = []
        if job["grace"] > 0: n.handlers[15] = n.handlers[2] = lambda s, f: got.append(s)
        end = w.now + job["dur"]
        if job["type"] == "MC" and job["pid"] >= 0:
            # a worker that saves now and then, through a temporary file
            base = "/work/%d_MC_statis.hkl" % job["pid"]
            tmp = "/work/_%d_MC_statis.hkl" % job["pid"]
        while not got and w.now < end - 1e-9:
            w.wait(n, min(end - w.now, 3.0), True)
            if job["type"] == "MC" and not got and job["pid"] >= 0 and not self.c.get("nosave"):
                w.disk.put(tmp, b"x"); w.wait(n, 0.05); 
                w.disk.files.pop(tmp, None); w.disk.put(base, b"data of worker %d" % job["pid"])
        if got: w.wait(n, job["grace"])
        return 1 if job["crash"] else 0
    # ---------------------------------------------------------------- observers
    def pending(self):
        """processor-bound jobs still to be started, None before the queue exists"""
        if self.listed is None: return 0
        want = [e for e in self.expected(self.listed) if e["type"] == "MC" and e["entry"].get("auto", True) and not e["entry"].get("cluster")]
        return len(want) - sum(j["cpu"] for j in self.jobs)
    def bound(self): return 2 * self.c["sleep"] + 1.0 + 150 * self.w.lat + 60 * self.w.lat * len(self.jobs)
    def check_idle(self):
        """a free processor and a waiting job do not coexist for long"""
        w = self.w
        m = w.find("manager")
        cond = m is not None and m.alive() and self.stop_at is None and self.pending() > 0 and len(self.running(True)) < self.c["cpu"]
        if self.idle_since is not None and w.now - self.idle_since > self.bound():
            w.violate("slot-idle", "%d jobs waited for %.1f s although only %d of %d processors were used" % (self.pending(), w.now - self.idle_since, len(self.running(True)), self.c["cpu"]))
            self.idle_since = w.now
        starting = self.jobs and self.jobs[-1]["t"] == w.now
        if not cond: self.idle_since = None
        elif self.idle_since is None or starting: self.idle_since = w.now
    def on_op(self, node, kind, path):
        if kind == "listdir" and node.name == "manager":
            d = self.w.disk
            if self.listed is None:
                self.listed = [posixpath.basename(f) for f in d.files if posixpath.dirname(f) == "/work"]
    def ctrlc(self, p):
        for n in self.w.nodes:
            if n.alive() and n.state == "running": self.w.kill(n, 2)
    def on_signal(self, n, s):
        if n.name != "manager" or self.stop_at is not None: return
        handled = callable(n.handlers.get(s))
        self.w.probe("stop_request_handled" if handled else "stop_request_early")
        if not handled:
            n.data["early"] = True
            if self.jobs: self.w.violate("unclean-stop", "the manager does not handle signal %d although %d jobs were started" % (s, len(self.jobs)))
            return
        self.check_idle()
        self.stop_at = self.w.now; self.late = 0; self.idle_since = None
        self.stop_running = list(self.running())
        self.w.probe("stop_with_%s_jobs" % ("some" if self.running() else "no"))
    def on_end(self, n):
        w = self.w
        if n.name.startswith("job"):
            for m in list(self.waiters): w.at(w.now, lambda m=m, t=m.wake: t and w._wake(m, t))
            self.last_end = w.now
            self.check_idle()
            return
        # the manager ended
        self.manager_end(n)
        if self.camp + 1 < len(self.cfg["campaigns"]):
            # what still runs (cluster jobs, jobs of a killed manager) is gone before the next campaign
            for j in self.all_jobs:
                if j["node"].alive(): w.kill(j["node"], 9)
            w.after(2.0, self.next_campaign)
        else: w.stop = True
    def manager_end(self, n):
        w = self.w
        self.check_idle()
        err = n.error or ""
        if self.c.get("real_inlist"): self.listed = self.listed or []
        if n.killed: return
        local = [j for j in self.jobs if not j["cluster"]]
        alive = [j for j in local if j["node"].alive()]
        if n.data.get("early"): return
        if alive:
            w.violate("left-running", "the manager ended (%s %s) while %s still run: %s" % (n.state, n.code, ["%s.%s" % (j["type"], j["pid"]) for j in alive], err[-500:]))
            return
        if self.stop_at is not None:
            for j in self.stop_running:
                if not j.get("asked") and not j["cluster"] and j["node"].ended_at > self.stop_at + 30: w.violate("not-terminated", "%s.%s was not terminated" % (j["type"], j["pid"]))
            lim = self.bound() + sum(max(j["grace"], 3.0) for j in self.stop_running) + 30
            if w.now - self.stop_at > lim: w.violate("stop-late", "the manager ended %.1f s after the request to stop" % (w.now - self.stop_at))
            self.check_jobs(n, False)
            return
        if local and w.now - max(j["node"].ended_at for j in local) > self.bound(): w.violate("exit-late", "the manager ended %.1f s after the last job" % (w.now - max(j["node"].ended_at for j in local)))
        self.check_jobs(n, True)
    def check_jobs(self, n, complete):
        """P15: every job once; P16: what it was given"""
        w = self.w
        if self.c.get("real_inlist"):
            if complete and [(j["type"], j["pid"]) for j in self.jobs] != [("DYSON", 0)]: w.violate("job-set", "the shipped inlist started %s" % [(j["type"], j["pid"]) for j in self.jobs])
            w.probe("shipped_inlist")
            for f in ("FermiBasis.dat.txt", "BoseBasis.dat.txt"):
                b = txt_parse(w.disk.get("/work/" + f))
                if not b or len(b["Basis"]) != b["Number"]: w.violate("job-input", "%s is not complete" % f)
            return
        if self.listed is None: self.listed = [posixpath.basename(f) for f in w.disk.files if posixpath.dirname(f) == "/work"] if not any(e["type"] == "MC" for e in self.c["entries"]) else self.listed
        if self.listed is None: return
        exp = self.expected(self.listed)
        started = [(j["type"], j["pid"]) for j in self.jobs]
        want = [(e["type"], e["pid"]) for e in exp if e["entry"].get("auto", True)]
        if len(set(started)) != len(started): w.violate("started-twice", "jobs started: %s" % started)
        if set(started) - set(want): w.violate("job-set", "started %s, expected only %s (statistics present: %s)" % (started, want, sorted(x for x in self.listed if "statis" in x)))
        if complete and set(want) - set(started): w.violate("never-started", "jobs %s were never started" % sorted(set(want) - set(started)))
        w.probe("campaign_resumed" if any(e["loads"] for e in exp) else "campaign_fresh")
        w.probe("campaign_complete" if complete else "campaign_stopped")
        # input files of all jobs that were generated, also of those the user has to start himself
        paths = [j["path"] for j in self.jobs]
        if len(set(paths)) != len(paths): w.violate("shared-input", "input files %s" % paths)
        seeds = []
        for e in exp:
            j = next((j for j in self.jobs if (j["type"], j["pid"]) == (e["type"], e["pid"])), None)
            if j is None:
                if e["entry"].get("auto", True) or not complete: continue
                inp = next((x for f in sorted(w.disk.files) if posixpath.basename(f) == "_in_%s_%d.txt" % (e["type"], e["pid"]) for x in [txt_parse(w.disk.get(f))] if isinstance(x, dict)), None)
                if inp is None: w.violate("job-input", "no input file for %s.%d" % (e["type"], e["pid"])); continue
                w.probe("manual_job")
            else:
                inp = j["inp"]
                now = txt_parse(w.disk.get(w.disk.norm(n, j["path"] + ("" if j["path"].endswith(".txt") else ".txt"))))
                if now != inp: w.violate("input-overwritten", "the input file of %s.%s changed after the job was started" % (j["type"], j["pid"]))
                if j["cluster"] != bool(e["entry"].get("cluster")): w.violate("job-set", "%s.%s was started in the wrong way: %s" % (j["type"], j["pid"], j["cmd"]))
            self.check_input(e, inp, seeds)
        if len(set(seeds)) < len(seeds): w.violate("seeds", "workers share the random seed %s" % sorted(x for x in seeds if seeds.count(x) > 1))
        again = set(seeds) & set(self.seeds)
        if again: w.violate("seeds", "seeds of an earlier campaign are used again: %s" % again)
        self.seeds += seeds
        w.probe("inputs_compared", len(exp))
    def check_input(self, e, inp, seeds):
        w = self.w
        job = dict(e["t"]["Job"]); job.update(Type=e["type"], PID=e["pid"], WeightFile="Weight", MessageFile="Message", OutputFile="Dyson_Output")
        if e["type"] == "MC": job["DoesLoad"] = e["loads"]
        if inp["Job"] != job: w.violate("job-content", "%s.%d got Job %s, expected %s" % (e["type"], e["pid"], inp["Job"], job))
        para = json.loads(json.dumps({**{k: v for k, v in e["t"].items() if k not in ("Control", "Job")}, **e["common"]}))
        got = json.loads(json.dumps(inp["Para"]))
        if e["type"] == "MC":
            m = got["Markov"]
            s = m.pop("Seed", None)
            if not isinstance(s, int) or not 0 <= s < 2**31: w.violate("seeds", "seed %r" % s)
            else: seeds.append(s)
            for k, x in para["Markov"].pop("Timer").items():
                t = m["Timer"].pop(k)
                lo, hi = max(1, int(0.8 * x - 1e-9)), max(1, int(1.2 * x + 1e-9))
                if not isinstance(t, int) or isinstance(t, bool) or not lo <= t <= hi: w.violate("periods", "%s of worker %d is %r, the inlist says %s" % (k, e["pid"], t, x))
            if m.pop("Timer"): w.violate("job-content", "unknown timers")
        if got != para:
            k = [k for k in set(got) | set(para) if got.get(k) != para.get(k)]
            w.violate("job-content", "%s.%d got other parameters than the inlist: %s: %s versus %s" % (e["type"], e["pid"], k, {x: got.get(x) for x in k}, {x: para.get(x) for x in k}))
    # ------------------------------------------------------------------------ run
    def run(self):
        w = self.w
        w.run(self.cfg["until"])
        m = w.find("manager")
        if m.alive() and m.data.get("camp") is not None and not w.violations:
            # it may only still be waiting for its jobs
            local = [j for j in self.jobs if not j["cluster"]]
            if not self.running() and local and w.now - max(j["node"].ended_at for j in local) > self.bound(): w.violate("exit-late", "the manager still waits although no job runs")
            self.check_idle()
            if self.stop_at is not None and w.now - self.stop_at > self.bound() + 30 + sum(max(j["grace"], 3.0) for j in self.stop_running): w.violate("stop-late", "the manager still runs %.1f s after the request to stop" % (w.now - self.stop_at))
        w.h.update(repr([(j["type"], j["pid"], round(j["t"], 6)) for j in self.all_jobs]).encode())
        return self

REAL = ["job_manager.py, job_class.py (and inlist.py, basis.py in a share of the runs), IO.py"]
STUB = ["jobs: scripted processes with durations, crashes and reactions to signals", "process table, shell commands (mkdir, rm, qsub), disk, clock, sleep, signals, random source, logging: simulated",
        "inlist.py: an equivalent module with varying jobs, processors and periods (the shipped one in a share of the runs)", "Python 2.7: Python 3.12 behind a source shim"]
ASSUME = ["system calls of the manager itself (fork, writing an input file) do not fail", "jobs end after a termination signal, possibly after a delay"]
P15K = {"job-input", "started-after-stop", "too-many", "slot-idle", "unclean-stop", "left-running", "not-terminated", "stop-late", "exit-late", "started-twice", "job-set", "never-started", "input-overwritten"}
P16K = {"job-input", "shared-identity", "shared-input", "job-set", "input-overwritten", "seeds", "job-content", "periods", "started-twice"}
def run_lab(case, kinds):
    from . import runner
    lab = JobLab(case).run()
    w = lab.w
    w.violations = [v for v in w.violations if v["kind"] in kinds]
    return runner.result(w, updates=len(lab.all_jobs), nontrivial=len(lab.all_jobs) > 0)
