"""The whole system in one world: real workers, the real self-consistency
process, and either a scripted supervisor or the real job manager that starts
them; faults until a certain time, then none (P14)."""
import random, json, pprint, posixpath, types, errno
import numpy as np
from . import core, pynode, worker, worlds, dysonlab, joblab
from .pynode import PyEnv, PsProc
from .worlds import hkl_parse, txt_parse, put_basis, mc_input

STATIS = lambda pid: "/work/%d_MC_statis.hkl" % pid
class Cluster:
    """cfg: p, workers, timers, sleep, hop_cost, latency, warm (versions before
    the workers start), stop (faults end), manager"""
    def __init__(self, case):
        self.case, self.cfg = case, case["cfg"]
        c = self.cfg
        self.r = random.Random("cluster/%s" % case["seed"])
        w = self.w = core.World(case["seed"], case.get("plan", ()), {"latency": c["latency"]})
        pynode.WORLD = w
        self.p = c["p"]
        self.para = dysonlab.dyson_para({"p": self.p, "sleep": c["sleep"], "order_acc": {"Sigma": 1, "Polar": 1}, "threshold": c.get("threshold", 0.05)})
        self.announced = {}           # version -> time
        self.maxver = 0
        self.saves, self.adopted = {}, {}   # pid -> [(t, version)]
        self.phase = "warm"
        self.zeros = None
        self.finished = False
        self.jobs, self.waiters, self.k = [], [], 0
        w.disk.watch.append(self.on_change)
        w.on_end.append(self.on_end)
        w.on_fault = lambda n, p: self.own(n)
        w.on_signal = lambda n, s: self.own(n)
        w.cfg_hooks = {}
        w.disk.dirs |= {"/work/dyson", "/work/infile"}
        put_basis(w, self.p)
        self.base = mc_input(self.p, 0, self.r, load=False, timers=c["timers"], toss=c.get("toss", 20), markov={"Sweep": c.get("sweep", 10), "PolarReweight": 1.0, "WormSpaceReweight": 0.2, "OrderReWeight": [1.0, 1.0, 0.5, 0.25][:self.p["Order"] + 1]})
        w.disk.put("/work/infile/_in_DYSON_0.txt", pprint.pformat(self.dyson_input()).encode())
        # first the user runs the self-consistency process alone
        self.warm_need = c["warm"]
        self.start_dyson(0.5)
        w.at(c["stop"], self.stop_faults)
    def own(self, n):
        n.data["own_fault"] = True
    def dyson_input(self):
        return {"Job": {"Type": "DYSON", "PID": 0, "DysonOnly": False, "SumRule": False, "WeightFile": "Weight", "MessageFile": "Message", "OutputFile": "Dyson_Output"}, "Para": self.para}
    # -------------------------------------------------------------- processes
    def start_dyson(self, delay=0.0, infile="infile/_in_DYSON_0"):
        def main(node):
            def popen(n, args, shell):
                n.world.op(n, "popen", str(args[0]))
                return PsProc()
            env = PyEnv(node, popen=popen)
            self.w.log(node, "start")
            env.run_main("dyson/main.py")
        return self.w.spawn("dyson", "py", main, delay=delay, argv=["-f", infile])
    def start_worker(self, pid, delay=0.0, infile=None):
        d = self.w.disk
        if infile is None:
            inp = json.loads(json.dumps(self.base))
            inp["Job"]["PID"] = pid
            inp["Job"]["DoesLoad"] = STATIS(pid) in d.files
            inp["Para"]["Markov"]["Seed"] = self.r.getrandbits(30)
            infile = worlds.put_input(self.w, inp)
        opt = {"hop_cost": self.cfg["hop_cost"], "on_event": self.on_event, "setup": self.setup}
        n = self.w.spawn("mc%d" % pid, "c++", worker.worker_main(infile, opt), delay=delay)
        n.data.update(pid=pid, version=None)
        return n
    def setup(self, wk): wk.lib.kf_set_arrays(0, 1, 1, 1, 1.0, None, None, None)
    def begin(self):
        """the workers and the collecting self-consistency process"""
        self.phase = "run"
        if self.cfg.get("manager"): self.start_manager(0.5); return
        self.start_dyson(self.r.choice([self.r.uniform(0.1, 3), self.r.uniform(10, 20)]))
        for pid in range(self.cfg["workers"]): self.start_worker(pid, self.r.uniform(0.1, 3))
    # ---------------------------------------------------------------- manager
    def start_manager(self, delay):
        def main(node):
            def popen(n, args, shell):
                n.world.op(n, "popen")
                return joblab.Proc(self, self.popen(n, args if isinstance(args, str) else " ".join(args)))
            def system(n, cmd):
                n.world.op(n, "system", cmd.split()[0])
                if cmd.split()[0] == "mkdir": n.world.disk.dirs.add(n.world.disk.norm(n, cmd.split()[-1]))
                return 0
            PyEnv(node, popen=popen, system=system, search=("",), stubs={"inlist": self.inlist}).run_main("job_manager.py")
        n = self.w.spawn("manager", "py", main, delay=delay)
        return n
    def inlist(self, env):
        J = env._import("job_class")
        m = types.ModuleType("inlist")
        m.CPU, m.SLEEP = self.cfg["workers"], 1
        com = {k: self.para[k] for k in ("Gamma3", "Tau", "Lattice", "Model")}
        mk = json.loads(json.dumps(self.base["Para"]["Markov"])); mk.pop("Seed")
        ctl = {"__Execute": "./simulator.exe", "__Duplicate": self.cfg["workers"], "__IsCluster": False, "__AutoRun": True}
        mc = {"Control": dict(ctl), "Job": {"Sample": 100}, "Markov": mk}
        dy = {"Control": dict(ctl, __Execute=["python", "./dyson/main.py"], __Duplicate=1), "Job": {"DysonOnly": False, "SumRule": False}, "Dyson": self.para["Dyson"]}
        mc.update(com); dy.update(json.loads(json.dumps(com)))
        m.TO_DO = [J.JobDyson(dy), J.JobMonteCarlo(mc)]
        return m
    def popen(self, node, cmd):
        words = cmd.split()
        path = words[words.index("-f") + 1] if "-f" in words else ""
        inp = txt_parse(self.w.disk.get(self.w.disk.norm(node, path + ("" if path.endswith(".txt") else ".txt"))))
        self.k += 1
        job = {"k": self.k, "cmd": cmd}
        self.jobs.append(job)
        if not isinstance(inp, dict): self.w.violate("job-input", "no complete input file for %r" % cmd); job["node"] = self.w.spawn("job%d" % self.k, "py", lambda n: 1); return job
        job["node"] = self.start_dyson(0.01, path) if inp["Job"]["Type"] == "DYSON" else self.start_worker(inp["Job"]["PID"], 0.01, path)
        job["node"].data["job"] = job
        return job
    # --------------------------------------------------------------- observers
    def on_event(self, wk, name, when, val):
        n = wk.node; w = self.w
        if when == 2:
            if not n.data.get("own_fault"): w.violate("worker-died", "%s: %s failed although nothing happened to it" % (n.ident, name))
            return
        if when != 1: return
        if name in ("Load", "BuildNew", "Listen"):
            v = int(wk.lib.kf_reweight(5, 0))
            if v != 0 and v not in self.announced: w.violate("unknown-version", "%s holds version %d, which was never announced (%s)" % (n.ident, v, sorted(self.announced)))
            if n.data["version"] is not None and v < n.data["version"]: w.violate("went-back", "%s went from version %d to %d" % (n.ident, n.data["version"], v))
            if v != n.data["version"]:
                n.data["version"] = v
                self.adopted.setdefault(n.data["pid"], []).append((w.now, v))
                w.probe("adopted" if name == "Listen" else name.lower())
        elif name == "Save":
            w.probe("save")
            self.saves.setdefault(n.data["pid"], []).append((w.now, n.data["version"], n.ident))
    def on_change(self, node, op, path):
        if path == "/work/Weight.hkl":
            d = hkl_parse(self.w.disk.get(path))
            if d is not None:
                z = [np.abs(np.asarray(d[k]["SmoothT"])) < 1e-8 for k in ("G", "W")]
                if self.zeros is None: self.zeros = z
                if any((a & ~b).any() for a, b in zip(z, self.zeros)): self.w.probe("sparse_version")    # exact zeros: collected from very few samples
        if path == "/work/Message.txt":
            m = txt_parse(self.w.disk.get(path))
            if m is None: self.w.violate("torn-message", "after %s by %s" % (op, node.ident if node else "-")); return
            v = m["Version"]
            if v in self.announced and self.announced[v][1] == self.w.disk.files[path].ident: return
            if v <= self.maxver: self.w.violate("version-order", "version %d was announced after version %d" % (v, self.maxver))
            self.maxver = max(v, self.maxver)
            self.announced[v] = (self.w.now, self.w.disk.files[path].ident)
            self.w.probe("announced_by_collecting" if self.phase != "warm" else "announced_alone")
            if self.phase == "warm" and v >= self.warm_need:
                n = self.w.find("dyson")
                self.own(n)
                self.phase = "switch"
                self.w.after(0.2, lambda: self.w.kill(n, 2))
    def restart(self, fn):
        self.w.after(self.r.choice([0.5, 2.0, 2.0, 8.0]), lambda: self.finished or self.w.stop or fn())
    def on_end(self, n):
        w = self.w
        if n.name in ("manager",) or n.name.startswith(("mc", "dyson", "job")):
            for m in list(self.waiters): w.at(w.now, lambda t=m.wake: t and w._wake(m, t))
        if self.finished: return
        asked = n.data.get("job", {}).get("asked")
        if n.name.startswith("mc") or n.name == "dyson":
            if not n.data.get("own_fault") and not asked:
                logs = "\n".join(m for _, _, m in n.env.logs[-4:]) if hasattr(n, "env") else ""
                w.violate("worker-died" if n.kind == "c++" else "dyson-died", "%s ended (%s %s) although nothing happened to it: %s %s" % (n.ident, n.state, n.code, (n.error or "")[-600:], logs[-600:]))
            w.probe("ended_" + n.kind)
        if n.name == "dyson" and self.phase in ("warm", "switch"):
            if self.phase == "switch" and self.w.disk.get("/work/Weight.hkl"): self.w.after(0.5, self.begin)
            elif self.phase == "switch" or "/work/Weight.hkl" not in w.disk.files: self.restart(self.start_dyson)
            else:
                # killed early but its weights are there: what comes next collects
                self.w.after(0.5, self.begin)
            return
        if self.cfg.get("manager"):
            if n.name != "manager": return
            left = [j["node"] for j in self.jobs if j["node"].alive()]
            if left and not n.killed and not n.data.get("own_early"):
                if not (n.state == "killed" or n.data.get("own_fault")): w.violate("left-running", "the manager ended while %s run" % [x.ident for x in left])
            for x in left: self.own(x); w.kill(x, 9)
            self.restart(lambda: self.start_manager(0.0))
            return
        if n.name == "dyson": self.restart(self.start_dyson)
        elif n.name.startswith("mc"): self.restart(lambda: self.start_worker(n.data["pid"]))
    # ------------------------------------------------------------------ phases
    def stop_faults(self):
        w = self.w
        w.faults_enabled = False
        for n in w.nodes: n.slow = 1.0
        w.log(None, "faults-end")
        if self.phase in ("warm", "switch"): w.probe("still_warming")
        m = w.find("manager")
        if m is not None and m.alive():
            # jobs that died are not started again by the manager: the user restarts the campaign
            self.own(m); w.kill(m, 15)
    def bound(self):
        c = self.cfg
        io = 120 * self.w.lat * (1 + c["workers"])
        back = sum(-float(p["do"][5:]) for p in self.case.get("plan", ()) if p["do"].startswith("jump:-"))
        settle = 30 + 10 + io + (30 if c.get("manager") else 0)      # a stall still in progress, restart delays, a manager's clean stop
        poll = 100 * c.get("sweep", 10) * c["hop_cost"] * 3 + (c.get("toss", 20) * c.get("sweep", 10)) * c["hop_cost"]
        first = settle + c["sleep"] + 1.2 * c["timers"]["DiskWriterTimer"] / .9 + poll + 2 * io    # statistics to collect are there
        dys = first + 2 * c["sleep"] + 2 * io
        return dys * 1.1 + back, (1.2 * (c["timers"]["MessageTimer"] + c["timers"]["DiskWriterTimer"]) / .9 + 3 * poll + 2 * io) * 1.1 + back
    def run(self):
        w, c = self.w, self.cfg
        bd, bw = self.bound()
        w.run(c["stop"] + 0.001)
        v0 = self.maxver
        w.log(None, "phase2")
        warm = self.phase in ("warm", "switch")
        t0 = w.now
        w.run(t0 + (40 if warm else 0) + bd)
        if not w.violations and not w.stop and not w.internal:
            t1 = w.now
            d = w.find("dyson")
            if self.maxver <= v0: w.violate("dyson-stuck", "no version after %d within %.0f s after the last fault; %s" % (v0, t1 - t0, self.explain(d)))
            else:
                w.probe("progress_dyson")
                v1 = self.maxver
                w.run(t1 + bw)
                pids = sorted({n.data["pid"] for n in w.nodes if n.name.startswith("mc") and n.alive()})
                want = c["workers"] if not c.get("manager") else 1
                if len(pids) < want: w.violate("worker-missing", "only workers %s run at the end" % pids)
                for pid in pids:
                    a = [x for x in self.adopted.get(pid, ()) if x[0] > t0 and x[1] > v0]
                    s = [x for x in self.saves.get(pid, ()) if x[0] > t0 and x[1] > v0]
                    if not a: w.violate("worker-stuck", "worker %d did not adopt any version after %d within %.0f s (announced %s)" % (pid, v0, w.now - t0, [(x, round(self.announced[x][0], 1)) for x in self.announced if x > v0][:5]))
                    elif not s: w.violate("worker-nosave", "worker %d did not save within %.0f s after adopting version %d" % (pid, w.now - a[0][0], a[0][1]))
                    else: w.probe("progress_worker")
        self.finished = True
        w.h.update(repr((sorted(self.announced), sorted(self.adopted.items()), sorted((k, len(v)) for k, v in self.saves.items()))).encode())
        return self
    def explain(self, d):
        if d is None: return "it does not run"
        return "%s %s; saves %s; %s" % (d.ident, d.state, {k: len(v) for k, v in self.saves.items()}, " | ".join(m for _, _, m in d.env.logs[-6:])[-900:] if hasattr(d, "env") else "")

REAL = ["the C++ worker (all of src/ incl. main.cpp)", "dyson/main.py and all modules it uses, IO.py, hickle.py", "job_manager.py and job_class.py in a share of the runs"]
STUB = ["supervisor: scripted (restarts what died) in the runs without the manager", "disk, clock, signals, entropy, process table: simulated", "h5py, plotting, Python 2.7: stand-ins as in the other checks"]
ASSUME = ["process crashes, not power loss", "weak coupling, so that a version never fails for physical reasons", "backward clock jumps of at most 20 s"]
def run_lab(case):
    from . import runner
    lab = Cluster(case).run()
    w = lab.w
    hops = sum(n.worker.lib.kf_hops() for n in w.nodes if getattr(n, "worker", None))
    return runner.result(w, updates=hops, nontrivial=len(lab.announced) > lab.cfg["warm"])
