"""The worker laboratory: one or more real workers, a real publisher (the
project's own Python writing code), crashes and restarts, oracles P01..P09."""
import hashlib, random, pickle, posixpath, math, json
import numpy as np
from . import core, pynode, worker, worlds
from .pynode import PyEnv
from .worlds import hkl_bytes, hkl_parse, txt_parse, random_gw, gw_file, put_basis, put_input, mc_input, phys

def canon(x, drop=("Estimation",)):
    """hashable canonical form, exact to the last bit"""
    if isinstance(x, dict): return ("d",) + tuple(sorted((str(k), canon(v, drop)) for k, v in x.items() if k not in drop))
    if isinstance(x, (list, tuple)): return ("l",) + tuple(canon(v, drop) for v in x)
    if isinstance(x, np.ndarray): return ("a", x.shape, hashlib.sha1(np.ascontiguousarray(x, dtype=complex if x.dtype.kind == "c" else float).tobytes()).hexdigest())
    if isinstance(x, (bool, np.bool_)): return ("n", float(x))
    if isinstance(x, (int, float, np.integer, np.floating)): return ("n", "nan" if x != x else float(x))
    if isinstance(x, (complex, np.complexfloating)): return ("c", complex(x))
    if isinstance(x, bytes): x = x.decode()
    return ("s", str(x).strip())
def digest(x): return hashlib.sha1(repr(canon(x)).encode()).hexdigest()
def diff(a, b, path=""):
    """human-readable first difference of two nested states"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k == "Estimation": continue
            if k not in a: return "%s/%s only in the second" % (path, k)
            if k not in b: return "%s/%s only in the first" % (path, k)
            d = diff(a[k], b[k], path + "/" + str(k))
            if d: return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (path, i))
            if d: return d
        return None
    if canon(a) == canon(b): return None
    def s(v):
        if isinstance(v, np.ndarray): return "array%s sum %s" % (v.shape, v.sum())
        return repr(v)[:120]
    return "%s: %s versus %s" % (path, s(a), s(b))
def near(a, b, path="", rtol=1e-9):
    """first difference beyond rounding"""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b): return "%s: keys %s" % (path, sorted(set(a) ^ set(b)))
        for k in sorted(a, key=str):
            if k == "Estimation": continue
            d = near(a[k], b[k], path + "/" + str(k), rtol)
            if d: return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b): return "%s: lengths %d, %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = near(x, y, "%s[%d]" % (path, i), rtol)
            if d: return d
        return None
    if canon(a) == canon(b): return None
    try:
        x, y = np.asarray(a, dtype=complex), np.asarray(b, dtype=complex)
        if x.shape == y.shape and (np.abs(x - y) <= rtol * (np.abs(x).max() + 1e-300)).all(): return None
    except (TypeError, ValueError): pass
    return diff(a, b, path)
def deep(x):
    if isinstance(x, dict): return {k: deep(v) for k, v in x.items()}
    if isinstance(x, list): return [deep(v) for v in x]
    if isinstance(x, np.ndarray): return x.copy()
    return x

class Lab:
    """cfg keys: p, markov, timers, toss, workers, until, pubs[], hop_cost,
    check_every, shadow, restart, local_g, spread, oracles"""
    def __init__(self, case):
        self.case, self.cfg = case, case["cfg"]
        c = self.cfg
        self.r = random.Random("lab/%s" % c.get("gseed", case["seed"]))
        self.p = c["p"]
        self.w = core.World(case["seed"], case.get("plan", ()), {"latency": c.get("latency", 0.01)})
        pynode.WORLD = self.w
        self.orc = set(c.get("oracles", ()))
        self.arrays = {}          # sha of Weight.hkl bytes -> (G, WS, WD)
        self.announced = {}       # version -> message dict actually written by the publisher
        self.hist = []            # history of interesting events
        self.pids = list(range(c.get("workers", 1)))
        self.ended_jobs = {}
        self.finished = False
        self.w.disk.watch.append(self.on_change)
        self.w.disk_read = None
        self.w.on_end.append(self.on_end)
        self.w.on_op.append(self.on_op)
        self.w.on_read = self.on_read
        self.w.on_signal = self.on_signal
        self.latest = {}
        self.blocks, self.norms = [], None
        self.valid = {}           # file name -> set of digests of complete contents
        self.tot_hops = 0
        G = random_gw(self.p, self.r, scale=c.get("scale", 1.0), spread=c.get("spread", 0.5))
        G = self.shape_gw(G)
        raw = gw_file(*G)
        self.reg(raw, G)
        self.w.disk.put("/work/Weight.hkl", raw)
        put_basis(self.w, self.p)
        inp = mc_input(self.p, 0, self.r, load=False, timers=c["timers"], markov=c.get("markov"), toss=c.get("toss"))
        self.base_inp = inp
        self.infile, self.first_state = {}, {}
        for pid in self.pids: self.launch(pid, first=True)
        if c.get("pubs"): self.w.spawn("pub", "py", self.publisher, delay=0.5)
    def shape_gw(self, G):
        g, ws, wd = G
        if self.cfg.get("local_g"): g = g.copy(); g[..., 1:, :] = 0
        if self.cfg.get("zero_wd"): wd = wd * 0
        if self.cfg.get("skeleton"):
            from . import exact
            ws, wd = exact.symmetric_w(self.p, ws, wd)
            g = g.copy(); g[0, :, 1] = 0; g[1, :, 0] = 0
            for a in range(g.shape[1]):
                for b in range(g.shape[1]):
                    if a != b: g[:, a, :, b] = 0
        return g, ws, wd
    def reg(self, raw, G): self.arrays[hashlib.sha1(raw).hexdigest()] = G
    # ---------------------------------------------------------------- workers
    def launch(self, pid, first=False, delay=0.0):
        d = self.w.disk
        inp = json.loads(json.dumps(self.base_inp))
        inp["Job"]["PID"] = pid
        inp["Job"]["DoesLoad"] = ("/work/%d_MC_statis.hkl" % pid) in d.files
        if first or pid not in self.infile:
            inp["Para"]["Markov"]["Seed"] = (self.base_inp["Para"]["Markov"]["Seed"] + 7919 * pid) % 2**30
        else: inp["Para"]["Markov"]["Seed"] = self.r.getrandbits(30)
        path = put_input(self.w, inp)
        self.infile[pid] = inp
        lose = self.cfg.get("lose")
        if lose and not first and inp["Job"]["DoesLoad"]:
            # the parameter file got lost or damaged while the worker was down; its statistics are still there
            f = "/work/%d_MC_para.txt" % pid
            raw = d.get(f)
            if raw is not None:
                if lose == "missing": d.files.pop(f)
                else: d.put(f, raw[:len(raw) // 2] if lose == "cut" else b"" if lose == "empty" else b"\0" * 64)
                self.w.probe("para_lost_" + lose)
        opt = {"hop_cost": self.cfg.get("hop_cost", 1e-3), "check_every": self.cfg.get("check_every", 0), "shadow": "P03" in self.orc,
               "setup": self.setup, "on_event": self.on_event, "max_hops": self.cfg.get("max_hops"), "on_max": self.on_max}
        n = self.w.spawn("mc%d" % pid, "c++", worker.worker_main(path, opt), delay=delay)
        n.data.update(pid=pid, does_load=inp["Job"]["DoesLoad"], base=None, version=None, saves=0, phase=None, own_fault=False)
        return n
    def setup(self, wk):
        wk.node.worker = wk
        self.use(wk, self.cur_arrays())
        wk.on_poll = self.on_poll
    def cur_arrays(self):
        raw = self.w.disk.get("/work/Weight.hkl")
        return None if raw is None else self.arrays.get(hashlib.sha1(raw).hexdigest())
    def use(self, wk, G):
        if G is None: wk.lib.kf_set_arrays(0, 1, 1, 1, 1.0, None, None, None)
        else: wk.set_arrays(*G, self.p["Beta"], self.p["L"])
        wk.node.data["G"] = G
    def on_end(self, n):
        if n.kind != "c++": return
        wk = getattr(n, "worker", None)
        if wk and getattr(wk, "lib", None): self.tot_hops += wk.lib.kf_hops(); n.data["hops_end"] = wk.lib.kf_hops()
        self.w.probe("worker_ended_" + n.state)
        if n.data.get("signalled"): self.check_signal_end(n)
        if n.state == "exited" and not n.data["own_fault"] and not n.data.get("signalled") and not n.data.get("retired"):
            self.w.violate("worker-exit", "%s ended by itself with code %s: %s" % (n.ident, n.code, (n.error or "")[-600:]))
        if self.finished or not self.cfg.get("restart", True) or n.data.get("retired"): return
        pid = n.data["pid"]
        delay = self.r.choice([0.5, 3.0, 20.0])
        def again():
            if not self.finished and not self.w.stop: self.launch(pid)
        self.w.after(delay, again)
    def on_max(self, wk): wk.node.data["retired"] = True
    def state(self, wk): return deep(wk.state())
    # ---------------------------------------------------------------- events
    def on_event(self, wk, name, when, val):
        n = wk.node
        d = n.data
        w = self.w
        if when == 2:
            # the operation threw: legal only when a fault hit this very node
            if name in ("Load", "BuildNew") and hkl_parse(d["reads"].get("Weight.hkl", w.disk.get("/work/Weight.hkl"))) is None: d["own_fault"] = True; w.probe("start_without_weights")
            if not d["own_fault"]: w.violate("worker-exit", "%s: %s threw: no fault was injected into it" % (n.ident, name))
            return
        if name in ("Load", "BuildNew"):
            if when == 0: d["reads"] = {}; d["starting"] = name
            else: d["starting"] = None
            if when == 1: self.after_start(wk, name)
            return
        if when == 0:
            d["phase"] = name
            d["pre"] = self.state(wk) if (name != "Print" or "P09" in self.orc) and self.orc & {"P02", "P03", "P04", "P05", "P06", "P09"} else None
            if "P02" in self.orc and d["pre"] is not None: self.block(n, d["pre"], False)
            d["reads"] = {}
            d["fault_in_phase"] = False
            d["phase_t"] = w.now
            d["clock_pre"] = n.clock()
            if "P08" in self.orc: self.timer_event(wk, name)
            if name == "Save": self.before_save(wk)
        else:
            d["phase"] = None
            if "P08" in self.orc: d.setdefault("busy", []).append((d["phase_t"], w.now))
            post = self.state(wk) if d["pre"] is not None else None
            if "P02" in self.orc and post is not None:
                self.block(n, post, True)
                if name == "Save": self.blocks += d.pop("blocks", [])
            w.probe(name.lower())
            if name == "Listen" and "sampling_from" not in d: d["sampling_from"] = w.now
            if name == "Save": self.after_save(wk, d["pre"], post)
            elif name == "Listen": self.after_listen(wk, d["pre"], post, bool(val))
            elif name == "Print":
                if post is not None:
                    x = diff(d["pre"], post)
                    if x: w.violate("print-mutates", "%s: printing changed %s" % (n.ident, x))
            elif name == "Reweight": self.after_reweight(wk, d["pre"], post)
            if "P03" in self.orc and name in ("Print", "Reweight") and post is not None:
                for k in ("Statis", "Monitor", "Config"):
                    x = diff(d["pre"][k], post[k])
                    if x: w.violate("statistics-changed", "%s: %s changed %s%s" % (n.ident, name, k, x))
    # start-up ---------------------------------------------------------
    def after_start(self, wk, name):
        n = wk.node; d = n.data; w = self.w
        raw = d["reads"].get("Weight.hkl")
        G = self.arrays.get(hashlib.sha1(raw).hexdigest()) if raw is not None else None
        self.use(wk, G)
        d["G_start"] = G
        s = self.state(wk)
        d["version"] = s["Para"]["Version"]
        d["base"] = s["Statis"]; d["basemon"] = s["Monitor"]
        if "P03" in self.orc: wk.lib.kf_shadow_reset()
        if "P02" in self.orc: self.block(n, s, True)
        if name == "BuildNew": self.first_state[d["pid"]] = s
        if name == "BuildNew" and d.get("newfile") is not None:
            x = diff(s["Config"], d["newfile"].get("Config"))
            if x: w.violate("save-incomplete", "%s: the file of the new worker does not hold its state: %s" % (n.ident, x))
        if name == "Load":
            w.probe("resume")
            pid = d["pid"]
            para, statis = txt_parse(d["reads"].get("%d_MC_para.txt" % pid)), hkl_parse(d["reads"].get("%d_MC_statis.hkl" % pid))
            if para is not None and statis is not None:
                want = {"Para": para["Para"], "Statis": {k: statis[k] for k in ("Sigma", "Polar")}, "Monitor": {k: v for k, v in statis.items() if k.endswith("Estimator")}}
                zero_order = len(para["Config"]["Ver"]) == 0 or para["Config"].get("_order0")
                if "P04" in self.orc:
                    for k in ("Statis", "Monitor"):
                        x = diff(want[k], s[k])
                        if x: w.violate("resume-differs", "%s resumed with another %s: saved versus loaded %s" % (n.ident, k, x))
                    have = deep(s["Para"]); wp = deep(want["Para"])
                    for q in (have, wp): q["Markov"].pop("Seed", None)
                    x = diff(wp, have)
                    if x: w.violate("resume-differs", "%s resumed with other parameters: saved versus loaded %s" % (n.ident, x))
                    x = self.config_diff(para["Config"], s["Config"])
                    if x: w.violate("resume-differs", "%s resumed with another diagram: saved versus loaded %s" % (n.ident, x))
                    live = d.get("live_of_save") 
                if "P05" in self.orc: self.check_resume_point(n, para, statis)
            else:
                w.probe("resume_without_para")
                if "P04" in self.orc and statis is not None and self.cfg.get("lose"): self.check_resume_without_para(n, s, statis)
        bad = wk.lib.kf_check_now(1).decode()
        if bad: w.violate("diagram", "%s right after %s: %s" % (n.ident, name, bad))
    def check_resume_without_para(self, n, s, statis):
        """the saved statistics with the parameters of the input file and a new first-order diagram"""
        w = self.w
        for k, want in (("Statis", {k: statis[k] for k in ("Sigma", "Polar")}), ("Monitor", {k: v for k, v in statis.items() if k.endswith("Estimator")})):
            x = diff(want, s[k])
            if x: w.violate("resume-differs", "%s lost its parameter file and resumed with another %s: saved versus loaded %s" % (n.ident, k, x))
        ref = self.first_state.get(n.data["pid"])
        inp = self.infile[n.data["pid"]]["Para"]
        P = s["Para"]
        def cmp(name, a, b):
            if diff(deep(a), deep(b)): w.violate("resume-differs", "%s lost its parameter file and resumed with another %s than its input file has: %s versus %s" % (n.ident, name, b, a))
        M = inp["Markov"]
        for k in ("Order", "OrderReWeight", "OrderTimeRatio", "WormSpaceReweight", "PolarReweight", "Sweep", "Toss"): cmp(k, M[k], P["Markov"][k])
        cmp("Timer", M["Timer"], P["Markov"]["Timer"])
        cmp("Version", inp.get("Version", 0), P["Version"])
        cmp("Counter", M.get("Counter", 0), P["Markov"]["Counter"])
        cmp("Beta", inp["Tau"]["Beta"], P["Tau"]["Beta"])
        if ref:
            if diff(ref["Config"], s["Config"]) and len(ref["Config"]["Ver"]) != len(s["Config"]["Ver"]):
                w.violate("resume-differs", "%s lost its parameter file and resumed with a diagram unlike that of a new worker" % n.ident)
    # increments of the statistics between two moments of one worker; only what a completed save holds counts
    def block(self, n, s, opening):
        h = [s["Statis"][k]["Histogram"]["SmoothT"] for k in ("Sigma", "Polar")]
        cur = (h[0]["NormAccu"], h[1]["NormAccu"], h[0]["WeightAccu"], h[1]["WeightAccu"])
        if opening: n.data["open"] = cur
        else:
            o = n.data["open"]
            n.data.setdefault("blocks", []).append(tuple(b - a for a, b in zip(o, cur)))
            self.norms = (h[0]["Norm"], h[1]["Norm"])
    def config_diff(self, a, b):
        """A diagram saved with order zero holds a first-order skeleton."""
        return diff(a, b)
    # saving ------------------------------------------------------------
    def files_of(self, pre, pid):
        para = {"Para": pre["Para"], "Config": pre["Config"], "PID": pid}
        st = {"Sigma": pre["Statis"]["Sigma"], "Polar": pre["Statis"]["Polar"]}
        st.update(pre["Monitor"])
        return para, st
    def before_save(self, wk):
        n = wk.node; d = n.data
        pre = d["pre"]
        if pre is None: return
        if "P03" in self.orc: self.check_shadow(wk, pre)
        para, st = self.files_of(pre, d["pid"])
        v = self.valid
        a, b = digest(para), digest(st)
        d["saving"] = (a, b)
        v.setdefault("/work/%d_MC_para.txt" % d["pid"], {})[a] = self.w.now
        v.setdefault("/work/%d_MC_statis.hkl" % d["pid"], {})[b] = self.w.now
        d["interrupted"] = False
    def after_save(self, wk, pre, post):
        n = wk.node; d = n.data; w = self.w
        d["saves"] += 1
        if pre is None: return
        x = diff({k: pre[k] for k in pre}, post)
        if x: w.violate("save-mutates", "%s: saving changed %s" % (n.ident, x))
        pid = d["pid"]
        para, st = txt_parse(w.disk.get("/work/%d_MC_para.txt" % pid)), hkl_parse(w.disk.get("/work/%d_MC_statis.hkl" % pid))
        if para is None or st is None or digest(para) != d["saving"][0] or digest(st) != d["saving"][1]:
            exp = self.files_of(pre, pid)
            x = "unreadable" if para is None or st is None else (diff(exp[0], para) or diff(exp[1], st))
            w.violate("save-incomplete", "%s: after a completed save the files do not hold the state: %s" % (n.ident, x))
        left = [f for f in w.disk.files if posixpath.basename(f).startswith("_%d_MC_" % pid)]
        if left: w.violate("save-leftover", "%s: a completed save left %s behind" % (n.ident, left))
        d["last_save_t"] = w.now
    def on_change(self, node, op, path):
        """P05: at every instant the two result files are complete or absent."""
        if path == "/work/Weight.hkl" and op == "rename" and node is not None and node.name == "pub":
            self.reg(self.w.disk.get(path), self.pending_pub)
        if "P05" not in self.orc and "P07" not in self.orc: return
        if node is not None and node.data.get("starting") == "BuildNew" and path == "/work/%d_MC_para.txt" % node.data["pid"]:
            # the configuration of a new worker; compared with its live state when BuildNew returns
            c = txt_parse(self.w.disk.get(path))
            if c is not None:
                node.data["newfile"] = c
                self.valid.setdefault(path, {})[digest(c)] = self.w.now
        if path not in self.valid: return
        raw = self.w.disk.get(path)
        if raw is None:
            if path in self.latest: self.w.violate("torn-file", "%s vanished after %s by %s" % (path, op, node.ident if node else "-"))
            return
        c = txt_parse(raw) if path.endswith(".txt") else hkl_parse(raw)
        dg = digest(c) if c is not None else None
        if dg not in self.valid[path]: self.w.violate("torn-file", "%s is not a complete saved version after %s by %s (%s)" % (path, op, node.ident if node else "-", "unparsable" if c is None else "content was never saved"))
        else: self.latest[path] = dg
    def check_resume_point(self, n, para, statis):
        pid = n.data["pid"]
        a, b = self.valid.get("/work/%d_MC_para.txt" % pid, {}), self.valid.get("/work/%d_MC_statis.hkl" % pid, {})
        if digest(para) not in a or digest(statis) not in b:
            self.w.violate("resume-never-saved", "%s resumed from a state that was never saved" % n.ident); return
        if a[digest(para)] != b[digest(statis)]: self.w.probe("resume_between_two_files")
        if a[digest(para)] < b[digest(statis)] - 1e-9:
            self.w.violate("counted-twice", "%s resumed the sampling from the save at t=%.2f (update %s) with the statistics of the save at t=%.2f: the updates in between are measured again" % (
                n.ident, a[digest(para)], para["Para"]["Markov"].get("Counter"), b[digest(statis)]))
        la, lb = self.latest.get("/work/%d_MC_para.txt" % pid), self.latest.get("/work/%d_MC_statis.hkl" % pid)
        if digest(para) != la or digest(statis) != lb: self.w.violate("resume-old", "%s resumed from files older than its last save" % n.ident)
    # measurement account (P03) -------------------------------------------
    def check_shadow(self, wk, s):
        n = wk.node; d = n.data
        sh = wk.shadow()
        for k, key, nk in (("Sigma", "S", "nS"), ("Polar", "P", "nP")):
            h, b = s["Statis"][k]["Histogram"]["SmoothT"], d["base"][k]["Histogram"]["SmoothT"]
            want = b["WeightAccu"].reshape(-1) + (sh[key] if len(sh[key]) else 0)
            have = h["WeightAccu"].reshape(-1)
            tol = 1e-9 * (np.abs(want).max() + 1)
            if np.abs(want - have).max() > tol:
                i = int(np.abs(want - have).argmax())
                self.w.violate("statistics", "%s: %s bin %s holds %s but its measurements sum to %s" % (n.ident, k, np.unravel_index(i, h["WeightAccu"].shape), have[i], want[i]))
            wn = b["NormAccu"] + sh[nk]
            if abs(wn - h["NormAccu"]) > 1e-9 * (abs(wn) + 1): self.w.violate("statistics-norm", "%s: %s normalisation %r but its measurements sum to %r" % (n.ident, k, h["NormAccu"], wn))
            if h["Norm"] != b["Norm"] or (self.normconst and abs(h["Norm"] - self.normconst) > 1e-9 * self.normconst):
                self.w.violate("statistics-norm", "%s: %s Norm %r, should be %r" % (n.ident, k, h["Norm"], self.normconst))
        lib = wk.lib
        def est(name, e, b, add):
            if abs(e["Accu"] - b["Accu"] - add) > 1e-6 * (1 + add) or abs(e["Norm"] - b["Norm"] - add) > 1e-6 * (1 + add):
                self.w.violate("counts", "%s: estimator %s went from %s/%s to %s/%s over %s measurements" % (n.ident, name, b["Accu"], b["Norm"], e["Accu"], e["Norm"], add))
        M, B = s["Monitor"], d["basemon"]
        est("Sigma", M["SigmaEstimator"], B["SigmaEstimator"], sh["cS"]); est("Polar", M["PolarEstimator"], B["PolarEstimator"], sh["cP"])
        for i in range(self.p["Order"] + 1):
            est("Worm%d" % i, M["WormEstimator"]["Order%d" % i], B["WormEstimator"]["Order%d" % i], lib.kf_shadow_num(4, i))
            est("Phy%d" % i, M["PhyEstimator"]["Order%d" % i], B["PhyEstimator"]["Order%d" % i], lib.kf_shadow_num(5, i))
        self.w.probe("statistics_audited")
    @property
    def normconst(self):
        p = self.p
        vol = p["L"][0] * p["L"][1]
        return vol * p["NSublat"] * (p["MaxTauBin"] / p["Beta"]) / p["Beta"] / vol
    # announcements (P06) --------------------------------------------------
    def after_listen(self, wk, pre, post, val):
        n = wk.node; d = n.data; w = self.w
        if pre is None:
            G = self.arrays.get(hashlib.sha1(d["reads"].get("Weight.hkl", b"")).hexdigest())
            if val:
                self.use(wk, G)
                w.probe("adopted")
                bad = wk.lib.kf_check_now(1).decode()
                if bad: w.violate("diagram", "%s right after adopting: %s" % (n.ident, bad))
            d["version"] = int(wk.lib.kf_reweight(5, 0))
            return
        own = pre["Para"]["Version"]
        m = d["reads"].get("Message.txt")
        msg = txt_parse(m) if m is not None else None
        if not isinstance(msg, dict): msg = None
        raw = d["reads"].get("Weight.hkl")
        wt = hkl_parse(raw) if raw is not None else None
        adopt = msg is not None and msg["Version"] > own and wt is not None
        if m is None: w.probe("no_announcement")
        elif msg is None: w.probe("garbled_announcement")
        elif msg["Version"] <= own: w.probe("stale_announcement")
        elif wt is None: w.probe("weights_unreadable")
        if val != adopt:
            w.violate("adoption", "%s at version %d: announcement %s, weights %s, but the poll said %s" % (n.ident, own, None if msg is None else msg.get("Version"), "readable" if wt else "not readable", val))
        if not adopt:
            x = diff(pre, post)
            if x: w.violate("adoption-partial", "%s ignored an announcement but changed %s" % (n.ident, x))
            return
        w.probe("adopted")
        G = self.arrays.get(hashlib.sha1(raw).hexdigest())
        d["version"] = post["Para"]["Version"]
        f = msg["SqueezeFactor"]
        if post["Para"]["Version"] != msg["Version"] or post["Para"]["Tau"]["Beta"] != msg["Beta"]:
            w.violate("adoption", "%s adopted version %s beta %s, announced %s %s" % (n.ident, post["Para"]["Version"], post["Para"]["Tau"]["Beta"], msg["Version"], msg["Beta"]))
        gw = wk.lib.kf_weights_gw()
        if G is not None and (np.abs(gw["G"]["SmoothT"] - G[0]).max() != 0 or np.abs(gw["W"]["SmoothT"] - G[1]).max() != 0 or np.abs(gw["W"]["DeltaT"] - G[2]).max() != 0):
            w.violate("adoption-weights", "%s announced version %d but does not use the weights on disk" % (n.ident, msg["Version"]))
        self.use(wk, G)
        a, b = deep(pre["Para"]), deep(post["Para"])
        for q in (a, b): q.pop("Version"); q["Tau"].pop("Beta")
        x = diff(a, b)
        if x: w.violate("adoption-partial", "%s: adopting changed parameter %s" % (n.ident, x))
        def same(u, v, path):
            if isinstance(u, dict):
                for k in u:
                    if k == "Estimation": continue
                    if k == "Norm" and "Histogram" in path:
                        if u[k] != v[k]: return "%s/Norm %r became %r" % (path, u[k], v[k])
                        continue
                    x = same(u[k], v[k], path + "/" + k)
                    if x: return x
                return None
            u, v = np.asarray(u), np.asarray(v)
            if u.shape != v.shape: return path + " shape"
            if u.size and np.abs(u / f - v).max() > 1e-12 * (np.abs(u).max() + 1e-300): return "%s: %s became %s under factor %r" % (path, u.ravel()[:3], v.ravel()[:3], f)
        for k in ("Statis", "Monitor"):
            x = same(pre[k], post[k], k)
            if x: w.violate("adoption-squeeze", "%s: %s" % (n.ident, x))
        bad = wk.lib.kf_check_now(1).decode()
        if bad: w.violate("diagram", "%s right after adopting version %d: %s" % (n.ident, msg["Version"], bad))
        x = self.topology_diff(pre, post)
        if x: w.violate("adoption-diagram", "%s: adopting changed the diagram: %s" % (n.ident, x))
        if "P03" in self.orc:
            self.check_shadow_at_adoption(wk, pre)
            d["base"], d["basemon"] = post["Statis"], post["Monitor"]
            wk.lib.kf_shadow_reset()
    def check_shadow_at_adoption(self, wk, pre): self.check_shadow(wk, pre)
    def topology_diff(self, pre, post): return diff(pre["Config"], post["Config"])
    # re-tuning (P09) --------------------------------------------------------
    def after_reweight(self, wk, pre, post):
        n = wk.node; w = self.w
        if post is None: return
        a, b = deep(pre), deep(post)
        ra, rb = {}, {}
        for s, o in ((a, ra), (b, rb)):
            for k in ("OrderReWeight", "WormSpaceReweight", "PolarReweight"): o[k] = s["Para"]["Markov"].pop(k)
        for k in ("PhaseRe",): pass
        x = diff(a, b)
        if x: w.violate("retune-mutates", "%s: re-tuning changed %s" % (n.ident, x))
        vals = list(rb["OrderReWeight"]) + [rb["WormSpaceReweight"], rb["PolarReweight"]]
        if not all(isinstance(v, float) and v > 0 and math.isfinite(v) for v in map(float, vals)):
            w.violate("retune-value", "%s: reweighting factors became %s" % (n.ident, vals))
        M = pre["Monitor"]
        N = self.p["Order"]
        phy = [M["PhyEstimator"]["Order%d" % i] for i in range(N + 1)]
        wormv = sum(M["WormEstimator"]["Order%d" % i]["Accu"] for i in range(1, N + 1))
        enough = all(e["Norm"] >= 1000 for e in phy) and M["PolarEstimator"]["Norm"] >= 1000
        changed = diff(ra, rb) is not None
        if changed and not enough: w.violate("retune-early", "%s: re-tuned although samples are insufficient: %s" % (n.ident, [e["Norm"] for e in phy]))
        if enough and M["SigmaEstimator"]["Accu"] == 0: w.probe("retune_without_sigma")
        if enough and wormv == 0: w.probe("retune_without_worm")
        if changed:
            w.probe("retuned")
            # more visits than the target share lowers the factor and vice versa, by exactly that ratio
            tot = [phy[i]["Accu"] + M["WormEstimator"]["Order%d" % i]["Accu"] for i in range(N + 1)]
            rt = pre["Para"]["Markov"]["OrderTimeRatio"]
            for i in range(1, N + 1):
                want = ra["OrderReWeight"][i] * rt[i] * tot[0] / tot[i]
                if abs(want - rb["OrderReWeight"][i]) > 1e-9 * abs(want): w.violate("retune-value", "%s: order %d factor %r after re-tuning, expected %r" % (n.ident, i, rb["OrderReWeight"][i], want))
            phyv = sum(e["Accu"] for e in phy[1:])
            for k, want in (("WormSpaceReweight", ra["WormSpaceReweight"] * phyv / wormv if wormv else None), ("PolarReweight", ra["PolarReweight"] * M["SigmaEstimator"]["Accu"] / M["PolarEstimator"]["Accu"])):
                if want is None or abs(want - rb[k]) > 1e-9 * abs(want): w.violate("retune-value", "%s: %s became %r after re-tuning, expected %r" % (n.ident, k, rb[k], want))
            if rb["OrderReWeight"][0] != 1.0: w.violate("retune-value", "%s: order zero has factor %r" % (n.ident, rb["OrderReWeight"][0]))
        else:
            w.probe("retune_declined")
            if enough and wormv > 0 and M["SigmaEstimator"]["Accu"] > 0 and M["PolarEstimator"]["Accu"] > 0 and wk.lib.kf_reweight(11, 0) == 0:
                # nothing to change only if every sector is exactly on target
                w.probe("retune_declined_with_samples")
    # timers (P08) --------------------------------------------------------------
    TIM = {"Print": "PrinterTimer", "Save": "DiskWriterTimer", "Listen": "MessageTimer", "Reweight": "ReweightTimer"}
    def timer_event(self, wk, name):
        d = wk.node.data
        t = d.setdefault("occ", {}).setdefault(name, [])
        t.append((self.w.now, wk.node.clock()))
    # signals (P07) ----------------------------------------------------------------
    def on_signal(self, n, s):
        if n.kind != "c++" or n.data.get("signalled"): return
        d = n.data
        d["signalled"] = {"sig": s, "t": self.w.now, "phase": d.get("phase"), "hops": n.worker.lib.kf_hops() if hasattr(n, "worker") and n.worker.lib.kf_has_env() else 0,
                          "saves": d["saves"], "delaying": d.get("phase") == "Save"}
        self.w.probe("signal_in_" + str(d.get("phase") or "sampling").lower())
    def check_signal_end(self, n):
        g = n.data["signalled"]; d = n.data; w = self.w
        if n.killed: return
        hops = n.data.get("hops_end", 0)
        if hops != g["hops"]: w.violate("signal-lost", "%s went on sampling for %d updates after signal %d" % (n.ident, hops - g["hops"], g["sig"]))
        if g["delaying"] and not d["own_fault"] and "saving" in d:
            pid = d["pid"]
            para, st = txt_parse(w.disk.get("/work/%d_MC_para.txt" % pid)), hkl_parse(w.disk.get("/work/%d_MC_statis.hkl" % pid))
            if para is None or st is None or digest(para) != d["saving"][0] or digest(st) != d["saving"][1]:
                w.violate("save-cut-short", "%s reacted to signal %d before its save was complete" % (n.ident, g["sig"]))
    def on_poll(self, wk):
        """every time the worker reads its clock"""
        if self.cfg.get("record") and wk.lib.kf_has_env() and wk.node.data.get("sampling_from") is not None and not wk.node.data.get("phase"):
            k = wk.lib.kf_hops()
            rec = wk.node.data.setdefault("rec", {})
            if wk.node.data.get("rec_at") != k and len(rec) < self.cfg["record"]:
                wk.node.data["rec_at"] = k
                s = self.state(wk)
                rec[s["Para"]["Markov"]["Counter"]] = s
        g = wk.node.data.get("signalled")
        if g and not wk.node.data.get("lost_reported"):
            wk.node.data["lost_reported"] = True
            self.w.violate("signal-lost", "%s is still running after signal %d sent during %s" % (wk.node.ident, g["sig"], g["phase"] or "sampling"))
    # disk hooks -----------------------------------------------------------------------
    def on_read(self, node, path, data):
        if node.kind != "c++": return
        node.data.setdefault("reads", {})[posixpath.basename(path)] = data
    def on_op(self, node, kind, path): pass
    # publisher --------------------------------------------------------------------------
    def publisher(self, node):
        env = PyEnv(node, popen=lambda *a: pynode.PsProc())
        IO = env._import("IO")
        sleep = env._import("time").sleep
        t0 = self.w.now
        done = node.inc and self.pub_done or 0
        for j, e in enumerate(self.cfg["pubs"]):
            if j < done: continue
            dt = t0 + e["at"] - self.w.now if node.inc == 0 else e["at"] - self.w.now
            if dt > 0: sleep(dt)
            self.pub_done = j + 1
            try:
                if e.get("weights", True):
                    G = self.shape_gw(random_gw(self.p, random.Random("%s/%s" % (self.cfg.get("gseed", self.case["seed"]), e["gw"])), scale=self.cfg.get("scale", 1.0), spread=self.cfg.get("spread", 0.5)))
                    data = {"G": {"SmoothT": G[0]}, "W": {"SmoothT": G[1], "DeltaT": G[2]}, "Tag": e["gw"]}
                    self.pending_pub = G
                    IO.SaveBigDict("Weight", data)
                k = e.get("kind", "normal")
                msg = {"Version": e["version"], "Beta": self.p["Beta"], "SqueezeFactor": e["squeeze"]}
                if k == "normal": IO.SaveDict("Message", "w", msg); self.announced[e["version"]] = msg
                elif k == "missing": self.w.disk.files.pop("/work/Message.txt", None)
                elif k == "garbled":
                    raw = repr(msg).encode()
                    self.w.disk.put("/work/Message.txt", raw[:self.r.randrange(len(raw) - 1)])
                elif k == "lost_weights": self.w.disk.files.pop("/work/Weight.hkl", None); IO.SaveDict("Message", "w", msg); self.announced[e["version"]] = msg
                elif k == "torn_weights":
                    raw = self.w.disk.get("/work/Weight.hkl")
                    if raw: self.w.disk.put("/work/Weight.hkl", raw[:len(raw) // 2])
                    IO.SaveDict("Message", "w", msg); self.announced[e["version"]] = msg
            except (IOError, core.Py2OSError): self.w.probe("publisher_io_error")
        return 0
    # run --------------------------------------------------------------------------------
    def run(self):
        w = self.w
        w.on_fault = self.on_fault
        w.run(self.cfg["until"], self.cfg.get("max_events", 400000))
        self.finished = True
        self.final()
        for n in w.nodes:
            wk = getattr(n, "worker", None)
            if wk and n.alive(): self.tot_hops += wk.lib.kf_hops()
        return self
    def on_fault(self, node, p):
        do = p["do"]
        if node is None or node.kind != "c++": return
        if do == "eio" and p.get("op") in ("open_r", "read") and node.data.get("phase") == "Listen" and p.get("path", "") in ("Message", "Weight.hkl"):
            w = self.w; w.probe("read_error_while_polling"); return      # must be survived
        if do in ("eio", "enospc", "short_crash"): node.data["own_fault"] = True
    def final(self):
        w = self.w
        if "P08" in self.orc: self.check_timers()
        if "P06" in self.orc: self.check_caught_up()
    def check_caught_up(self):
        """faults stopped long before the end: the last announcement is adopted"""
        if not self.announced: return
        last = max(self.announced)
        pubs = self.cfg["pubs"]
        msg = txt_parse(self.w.disk.get("/work/Message.txt"))
        ok = isinstance(msg, dict) and hkl_parse(self.w.disk.get("/work/Weight.hkl")) is not None
        if not ok: return
        quiet = self.w.now - max(self.cfg.get("faults_until", 0), pubs[-1]["at"]) 
        need = 3 * self.cfg["timers"]["MessageTimer"] + 40
        if quiet < need: return
        for pid in self.pids:
            n = self.w.find("mc%d" % pid)
            if n is None or not n.alive(): continue
            back = sum(-x for t, k, x in n.data.get("jumps", []) if x < 0)
            back += 3 * 100 * self.base_inp["Para"]["Markov"]["Sweep"] * self.cfg.get("hop_cost", 1e-3) * n.data.get("slowmax", 1.0) * 1.2
            if self.w.now - n.started_at < need + back or quiet < need + back: continue
            self.w.probe("caught_up_checked")
            if n.data["version"] is None or n.data["version"] < msg["Version"]:
                self.w.violate("adoption-never", "%s still has version %s, announced %s" % (n.ident, n.data["version"], msg["Version"]))
    def check_timers(self):
        w = self.w
        faults = self.cfg.get("jumps", [])
        for n in w.nodes:
            if n.kind != "c++" or not hasattr(n, "worker"): continue
            end = w.now if n.alive() else n.ended_at
            lo = n.data.get("sampling_from")
            occ = n.data.get("occ", {})
            if lo is None: continue
            for name, key in self.TIM.items():
                per = self.cfg["timers"][key]
                ts = [t for t, c in occ.get(name, []) if t >= lo]
                pts = [lo] + ts
                clk = dict(occ.get(name, []))
                for a, b, is_end in [(x, y, False) for x, y in zip(pts, pts[1:])] + [(pts[-1], end, True)]:
                    jf, jb, sk_lo, sk_hi = self.jumps_in(n, n.started_at if a == lo else a, b)      # (the timers start some time before sampling)
                    busy = sum(max(0, min(e, b) - max(s, a)) for s, e in n.data.get("busy", []) + ([(n.data["phase_t"], end)] if n.data.get("phase") else []))
                    gap = b - a
                    sl = n.data.get("slowmax", 1.0)
                    poll = 100 * self.base_inp["Para"]["Markov"]["Sweep"] * self.cfg.get("hop_cost", 1e-3) * sl
                    if a == lo: busy += (self.base_inp["Para"]["Markov"]["Toss"] + 100) * self.base_inp["Para"]["Markov"]["Sweep"] * self.cfg.get("hop_cost", 1e-3) * sl
                    near = self.jumps_in(n, n.started_at if a == lo else a - 1 - 2 * poll - busy, b + 1)
                    plain = not near[0] and not near[1] and sk_lo == sk_hi == 1.0
                    hi = (per + (0 if plain else 1) + jb) / sk_lo + (1.2 if plain else 2) * poll + busy + (0.1 if plain else 0.5)
                    low = (per - 1 - jf) / sk_hi - 0.5 - (0 if a != lo else 0)
                    if gap > hi: w.violate("timer-late", "%s: %s did not happen for %.1f s after t=%.1f, period %d (jump back %.0f, busy %.1f, poll %.2f)" % (n.ident, name, gap, a, per, jb, busy, poll))
                    if not is_end and gap < low and a != lo: w.violate("timer-early", "%s: %s happened twice within %.1f s at t=%.1f, period %d (jump forward %.0f)" % (n.ident, name, gap, b, per, jf))
                    # whole seconds of its own clock
                    if not is_end and plain and a != lo and int(clk[b] + .005) - int(clk[a] - .005) < per: w.violate("timer-early", "%s: %s happened twice within %d whole seconds at t=%.1f, period %d" % (n.ident, name, int(clk[b]) - int(clk[a]), b, per))
                    if plain: w.probe("timer_gaps_undisturbed")
                    w.probe("timer_gaps")
    def jumps_in(self, n, a, b):
        jf = jb = 0.0
        lo = hi = 1.0
        for t, kind, x in n.data.get("jumps", []):
            # a jump before a still shifts the comparison only through int truncation
            if a - 1e-9 <= t <= b + 1e-9:
                if kind == "jump":
                    if x > 0: jf += x
                    else: jb -= x
        for t, x in n.data.get("skews", [(0, 1.0)]):
            lo, hi = min(lo, x), max(hi, x)
        return jf, jb, lo, hi
