"""The self-consistency laboratory: the real dyson/main.py (restarted by a
supervisor), scripted workers' statistics files, faults, and a reference model
run alongside on the very bytes the node read."""
import random, json, pprint, posixpath, hashlib
import numpy as np
from . import core, pynode, worlds, dysonref
from .pynode import PyEnv, PsProc
from .worlds import hkl_bytes, hkl_parse, txt_parse
from .lab import canon

WEIGHT, PARA, MSG, OUT = "/work/Weight.hkl", "/work/0_DYSON_para.txt", "/work/Message.txt", "/work/Dyson_Output.txt"
VISIBLE = {WEIGHT: hkl_parse, PARA: txt_parse, MSG: txt_parse, OUT: txt_parse}
SUBL = {"Chain": 1, "Square": 1, "Checkerboard": 2, "Triangular": 1, "Honeycomb": 2, "Kagome": 3, "Cubic": 1, "3DCheckerboard": 2, "Pyrochlore": 4}

def dyson_para(c):
    p = c["p"]
    return {"Gamma3": False, "Tau": {"MaxTauBin": p["MaxTauBin"], "Beta": p["Beta"], "MaxTauBinTiny": p["MaxTauBin"], "BasisNum": 4},
            "Lattice": {"Name": p["Lattice"], "NSublat": SUBL[p["Lattice"]], "L": list(p["L"])},
            "Model": {"Name": p["Model"], "Interaction": list(p["J"]), "ExternalField": list(p.get("Field", [0.0] * 4)), "Symmetry": ["SU2", "ParticleHole"],
                      "Hopping": p.get("Hopping", [1.0, 0.0, 0.0, 0.0]), "Phase": [0.0] * 4, "HubbardInteraction": p.get("U", 0.0),
                      "ShortRangeInteraction": [p.get("V", 0.0)] + [0.0] * 3, "LongRangeInteraction": [0.0] * 4, "ChemicalPotential": p.get("Mu", [0.0] * 4),
                      **({"Description": p["Description"]} if p.get("Description") else {})},
            "Dyson": {"SleepTime": c.get("sleep", 10), "Gamma3": False, "OrderAccepted": dict(c.get("order_acc", {"Sigma": 1, "Polar": 1})),
                      "ErrorThreshold": c.get("threshold", 0.05),
                      "Annealing": {"DeltaField": list(p.get("Delta", [0.0] * 4)), "Interval": list(p.get("Interval", [0.0] * 4))}}}

class DysonLab:
    """cfg: p, mode(new|mc|dysononly|collect), sleep, until, stat[] (events on
    statistics files), restart, seedw (synthetic initial weights)"""
    def __init__(self, case):
        self.case, self.cfg = case, case["cfg"]
        c = self.cfg
        self.r = random.Random("dysonlab/%s" % c.get("gseed", case["seed"]))
        w = self.w = core.World(case["seed"], case.get("plan", ()), {"latency": c.get("latency", 0.01)})
        pynode.WORLD = w
        self.para = dyson_para(c)
        self.ns = SUBL[c["p"]["Lattice"]]
        self.vol = int(np.prod(c["p"]["L"])); self.nt = c["p"]["MaxTauBin"]
        self.announced, self.maxver = [], 0
        self.tainted = set()          # node idents whose current attempt met a fault
        self.ref = None
        self.ver_hist = []
        self.published = 0
        self.outcomes = {"ok": 0, "collect": 0, "unstable": 0}
        w.disk.watch.append(self.on_change)
        w.on_op.append(self.on_op); w.on_read = self.on_read
        w.on_fault = self.on_fault; w.on_signal = self.on_signal
        w.on_end.append(self.on_end)
        w.disk.dirs.update({"/work/dyson", "/work/infile"})
        inp = {"Job": {"Type": "DYSON", "PID": 0, "DysonOnly": c["mode"] == "dysononly", "SumRule": False, "WeightFile": "Weight", "MessageFile": "Message", "OutputFile": "Dyson_Output"},
               "Para": self.para}
        w.disk.put("/work/infile/_in_DYSON_0.txt", pprint.pformat(inp).encode())
        if c.get("seedw"): self.seed_weights()
        for e in c.get("stat", ()): w.at(e["at"], lambda e=e: self.put_stat(e))
        w.cfg_hooks = {}
        self.open = None              # current attempt of the collecting path
        self.start(0.5)
    # ---------------------------------------------------------------- inputs
    def seed_weights(self):
        """a state left by an earlier calculation"""
        g = np.random.RandomState(self.r.getrandbits(31))
        c = self.cfg
        ref = dysonref.Ref(self.para)
        G, W0 = ref.bare()
        z = lambda s, *t: (g.randn(s, self.ns, s, self.ns, self.vol, *t) + 1j * g.randn(s, self.ns, s, self.ns, self.vol, *t))
        d = {"G": {"SmoothT": G * (1 + .1 * g.rand(*G.shape))}, "W": {"SmoothT": .1 * z(4, self.nt), "DeltaT": W0}, "Sigma": {"SmoothT": .1 * z(2, self.nt)},
             "Polar": {"SmoothT": .02 * z(4, self.nt)}, "SigmaDeltaT": {"DeltaT": .05 * z(2)}, "Chi": {"SmoothT": z(1, self.nt)}}
        self.w.disk.put(WEIGHT, hkl_bytes(d))
        if c.get("seedpara", True):
            p = json.loads(json.dumps(self.para)); p["Version"] = c.get("version0", 7)
            self.w.disk.put(PARA, pprint.pformat({"Para": p}).encode())
            self.maxver = p["Version"]
            if c.get("seedmsg", True): self.w.disk.put(MSG, pprint.pformat({"Version": p["Version"], "Beta": 1.0, "SqueezeFactor": 1.0}).encode())
    def stat_dict(self, e):
        g = np.random.RandomState(e["seed"] % (2**31))
        o, nt = e.get("orders", 3), self.nt
        t = (np.arange(nt) + .5) / nt
        amp, norm = e.get("amp", 1.0), e.get("norm", 2.0)
        out = {}
        for k, s in (("Sigma", 2), ("Polar", 4)):
            na = norm * 50 * (1 + g.rand())
            sh = (o, s, self.ns, s, self.ns, self.vol)
            base = (g.randn(*sh) + 1j * g.randn(*sh)) * (.5 ** np.arange(o)).reshape((o,) + (1,) * 5)
            cur = base[..., None] * np.cos(g.rand(*sh)[..., None] * 3 * t) + e.get("noise", 0.02) * (g.randn(*sh, nt) + 1j * g.randn(*sh, nt))
            for z in e.get("dead", ()):
                if z < o: cur[z] = 0
            a = (0.15 if k == "Sigma" else 0.03) * (amp if k == e.get("hot", k) else 1.0)
            if e.get("zero_norm") in (k, "both"): na = e.get("zn", 0.0)
            out[k] = {"Histogram": {"SmoothT": {"Norm": norm, "NormAccu": na, "WeightAccu": cur * a * (na if na else 1.0) / norm}}}
        if self.cfg.get("gamma"):
            # the vertex statistics of a calculation with three-point functions
            for k, sh in (("GammaGStatis", (2, self.vol, nt, nt)), ("GammaWStatis", (2, self.vol, 2, nt, nt))):
                na = norm * 50 * (1 + g.rand())
                if e.get("gzero") in (k, "both"): na = 0.0
                out[k] = {"Norm": norm * .5, "NormAccu": na, "WeightAccu": na * (g.randn(*sh) + 1j * g.randn(*sh))}
            out["GammaWStatis"]["WeightAccu"] = out["GammaWStatis"]["WeightAccu"].astype(np.complex64)
        return out
    def put_stat(self, e):
        d = self.w.disk
        path = "/work/" + e.get("name", "%d_MC_statis.hkl" % e["pid"])
        k = e.get("kind", "good")
        self.w.log(None, "statis", "%s %s" % (posixpath.basename(path), k))
        if k == "remove":
            d.files.pop(path, None)
            for a in (self.open, self.col):      # it may be back by the time the attempt is judged
                if a: a.setdefault("vanished", set()).add(path)
            return
        if k == "dir":
            if path not in d.files: d.dirs.add(path); self.w.fire_count("statis_dir")
            return
        if path in d.dirs: return
        D = self.stat_dict(e)
        def h(q): return D[q]["Histogram"]["SmoothT"]
        q = "Sigma" if e["seed"] % 2 else "Polar"
        if self.cfg.get("gamma") and e["seed"] % 7 < 5 and k in ("shape", "norm", "nan", "missing", "nokey"):
            k = "gamma_" + k
            q = "GammaGStatis" if e["seed"] % 2 else "GammaWStatis"
            if k == "gamma_shape": D[q]["WeightAccu"] = D[q]["WeightAccu"][..., :-1]
            elif k == "gamma_norm": D[q]["Norm"] = 3.5
            elif k == "gamma_nan": D[q]["NormAccu"] = float("nan")
            elif k == "gamma_missing": del D[q]
            else: D[q].pop(("WeightAccu", "NormAccu", "Norm")[e["seed"] % 3])
        if k == "shape": h(q)["WeightAccu"] = h(q)["WeightAccu"][..., :-1]
        elif k == "orders":
            a = h(q)["WeightAccu"]
            h(q)["WeightAccu"] = a[:1] if a.shape[0] > 1 and e["seed"] % 3 else np.concatenate([a, a[:1]])
        elif k == "norm": h(q)["Norm"] = 3.5
        elif k == "nan": h(q)["NormAccu"] = float("nan")
        elif k == "missing": del D[q]
        elif k == "nokey": h(q).pop(("WeightAccu", "NormAccu", "Norm")[e["seed"] % 3])
        raw = hkl_bytes(D)
        if k == "torn": raw = raw[:int(len(raw) * e.get("frac", .5))]
        elif k == "flip":
            i = int(len(raw) * e.get("frac", .5)); raw = raw[:i] + bytes([raw[i] ^ 64]) + raw[i + 1:]
        elif k == "empty": raw = b""
        if k != "good": self.w.fire_count("statis_" + k)
        d.put(path, raw)
    # ------------------------------------------------------------------ node
    def start(self, delay):
        self.w.spawn("dyson", "py", self.main, delay=delay, argv=["-f", "infile/_in_DYSON_0"] + (["-c"] if self.cfg["mode"] == "collect" else []))
    def main(self, node):
        def popen(n, args, shell):
            n.world.op(n, "popen", str(args[0]) if not isinstance(args, str) else args)
            return PsProc()
        node.data.update(reads={}, loaded=None, failed=0)
        env = PyEnv(node, popen=popen)
        self.w.log(node, "start")
        try:
            if self.cfg.get("gamma"): self.collect_gamma(node, env)
            else: env.run_main("dyson/main.py")
        except SystemExit as e:
            node.data["exit"] = "exit"
            raise
        except KeyboardInterrupt: raise
    def collect_gamma(self, node, env):
        """what the self-consistency process does with the files of a calculation with three-point functions"""
        collect, weight, IO = env._get("collect"), env._get("weight"), env._get("IO")
        P = self.para
        m = weight.IndexMap(NSublat=P["Lattice"]["NSublat"], L=P["Lattice"]["L"], Beta=float(P["Tau"]["Beta"]), MaxTauBin=P["Tau"]["MaxTauBin"],
                            MaxTauBinTiny=P["Tau"]["MaxTauBinTiny"], BasisNum=P["Tau"]["BasisNum"], Symmetry=P["Model"]["Symmetry"])
        try: S, Po, G, W = collect.CollectStatis(m, True)
        except collect.CollectStatisFailure: node.data["refused"] = True; return
        node.data["gamma"] = (np.array(G), np.array(W))
        data = {"Sigma": {"Histogram": S.ToDict()}, "Polar": {"Histogram": Po.ToDict()}}
        IO.SaveBigDict("/work/statis_total", data)
    # --------------------------------------------------------------- observers
    def on_fault(self, node, p):
        if p["do"] in ("eio", "enospc", "short_crash"): node.data["diskfault"] = True
        node.data["fault"] = node.data.get("fault", 0) + 1; node.data["touched"] = True
    def on_signal(self, node, s):
        d = node.data
        d["touched"] = True; d["fault"] = d.get("fault", 0) + 1
        if "signalled" in d: return
        sv = d.get("save")
        d["signalled"] = {"sig": s, "t": self.w.now, "saving": bool(sv and sv["open"]), "save": sv, "seq": d.get("opseq", 0)}
        self.w.probe("dyson_signal_in_save" if d["signalled"]["saving"] else "dyson_signal_outside_save")
    # the three result files of a version belong together (P07)
    GROUP = (WEIGHT, PARA, OUT)
    def group_op(self, node, kind, path):
        """any change of a result file or of its temporary opens the save; it is over when all three are complete"""
        if kind not in ("open", "rename") or not any(posixpath.basename(g).split(".")[0] in posixpath.basename(path) for g in self.GROUP): return
        d = node.data
        sv = d.get("save")
        if sv is None or not sv["open"]:
            g = d.get("signalled")
            if g and d["opseq"] == g["seq"] + 1: g["saving"] = True       # it arrived at the very operation that opens the save
            elif g and not d.get("late"):
                d["late"] = True
                self.w.violate("signal-lost", "%s started saving another version after signal %d at t=%.2f" % (node.ident, d["signalled"]["sig"], d["signalled"]["t"]))
            d["save"] = sv = {"open": True, "done": set(), "t": self.w.now}
            if g and d["opseq"] == g["seq"] + 1: g["save"] = sv
        if kind == "rename" and path in self.GROUP:
            sv["done"].add(path)
            if len(sv["done"]) == len(self.GROUP): sv["open"] = False; d["saves"] = d.get("saves", 0) + 1
    def check_signal(self, node, ended):
        g = node.data.get("signalled")
        if g is None or node.killed: return
        if g["saving"] and g["save"]["open"] and ended and not node.data.get("diskfault"):
            self.w.violate("save-cut-short", "%s obeyed signal %d in the middle of its save: of the three result files only %s are complete" % (node.ident, g["sig"], sorted(posixpath.basename(x) for x in g["save"]["done"])))
        bound = (1.0 + 400 * self.w.lat) * node.data.get("slowmax", 1.0) + node.data.get("stalls", 0)
        end = node.ended_at if ended else self.w.now
        if end - g["t"] > bound: self.w.violate("signal-late", "%s went on for %.1f s after signal %d" % (node.ident, end - g["t"], g["sig"]))
    def on_read(self, node, path, raw):
        if path == WEIGHT and "ref" not in node.data: node.data["wraw"] = raw
        if path == PARA: node.data["praw"] = raw
        if self.open is not None and "_statis" in posixpath.basename(path): self.open["reads"].append((path, raw))
    def on_op(self, node, kind, path):
        if kind == "sigaction": return
        node.data["opseq"] = node.data.get("opseq", 0) + 1
        if self.cfg.get("signals"): self.group_op(node, kind, path)
        if kind == "listdir" and path == "/work":
            if "signalled" in node.data and self.cfg.get("signals"): self.w.violate("signal-lost", "%s started another version after signal %d" % (node.ident, node.data["signalled"]["sig"]))
            self.close_attempt(node)
            fs = [f for f in self.w.disk.files if posixpath.dirname(f) == "/work"]
            self.open = {"files": {f for f in fs if "_statis" in posixpath.basename(f) and f.endswith(".hkl") and not posixpath.basename(f).startswith("_")}, "reads": [], "evaluated": None}
            node.data["touched"] = node.data["para_written"] = False
    def get_ref(self, node):
        if "ref" in node.data: return node.data["ref"]
        if "wraw" in node.data:
            para = txt_parse(node.data["praw"])["Para"] if "praw" in node.data else self.para
            ref = dysonref.Ref(para)
            ref.load(hkl_parse(node.data["wraw"]))
            new = False
        else: ref, new = dysonref.Ref(self.para), True
        node.data["ref"], node.data["new"] = ref, new
        return ref
    def evaluate(self, node):
        """run the reference over the open attempt"""
        a = self.open
        if a["evaluated"]: return a["evaluated"]
        seen = {}
        for p, raw in a["reads"]: seen[p] = raw
        order, counted = [], set()
        for p, raw in a["reads"]:
            if p in counted: continue
            counted.add(p); order.append(p)
        extra = sorted(set(order) - a["files"])
        if extra: self.w.violate("collect-temp", "collected %s, which are not statistics files of this directory" % [posixpath.basename(x) for x in extra])
        files = [(p, hkl_parse(seen[p])) for p in order if p in a["files"]]
        # a file that could not be opened or was not read at all contributes nothing
        lost = sorted(a["files"] - set(order))
        if lost and not node.data.get("touched") and not a.get("gone"):
            gone = [p for p in lost if p not in self.w.disk.files or p in a.get("vanished", ())]
            if len(gone) < len(lost): self.w.violate("collect-skipped", "statistics files never read: %s" % [posixpath.basename(x) for x in lost if x not in gone])
        files += [(p, None) for p in lost]
        ref = self.get_ref(node)
        ref.vanished = sum(p not in self.w.disk.files or p in a.get("vanished", ()) for p in lost)
        try: out = ref.attempt(False, files)
        except dysonref.Ambiguous: out = ("ambiguous", "")
        a["evaluated"] = out
        if out[0] in self.outcomes: self.outcomes[out[0]] += 1
        self.w.probe("attempt_" + out[0])
        if out[0] == "collect": self.w.probe("collect_" + out[1])
        if any(f[1] is None for f in files) and out[0] == "ok": self.w.probe("success_despite_bad_file")
        if out[0] in ("collect", "unstable"): node.data["failed"] += 1
        return out
    def close_attempt(self, node):
        """the previous attempt of this incarnation is over without a publication"""
        if self.open is None: return
        out = self.evaluate(node)
        a, self.open = self.open, None
        if out[0] == "ambiguous": node.data["lost"] = True
        if a.get("published") or node.data.get("lost"): return
        if out[0] != "ok" and node.data.get("para_written"): self.w.violate("published-" + out[0], "the parameters of a version that had to fail (%s %s) were saved" % out)
        if out[0] == "ok":
            # the reference says this version works: it has to be published unless a fault prevented that
            if node.data.get("touched"): node.data["ref"].after_success(); return
            self.w.violate("refused", "a version whose statistics are usable and whose Dyson equations are stable was not published")
    def on_end(self, node):
        if self.cfg.get("signals"): self.check_signal(node, True)
        if self.open is not None and not node.data.get("fault") and node.state == "exited" and self.cfg["mode"] != "collect":
            self.close_attempt(node)
        self.open = None
        if self.cfg["mode"] == "collect": self.check_collect(node); return
        if not node.data.get("fault") and not self.w.stop:
            logs = "\n".join(m for _, _, m in node.env.logs[-4:]) if hasattr(node, "env") else ""
            self.w.violate("died", "the self-consistency process ended (%s %s) although nothing happened to it: %s %s" % (node.state, node.code, logs[-700:], (node.error or "")[-700:]))
        if self.cfg.get("restart", True):
            self.w.after(self.cfg.get("restart_delay", 2.0), lambda: self.start(0.0))
    # ------------------------------------------------------------- publication
    def on_change(self, node, op, path):
        if path == "/work/statis_total.hkl" and node is not None: self.total = self.w.disk.get(path)
        if path not in VISIBLE: return
        raw = self.w.disk.get(path)
        val = VISIBLE[path](raw)
        if val is None:
            self.w.violate("torn-visible", "%s is visible with incomplete content (%d bytes) after %s" % (posixpath.basename(path), len(raw), op)); return
        if node is None: return
        key = canon(val)
        if node.data.get(("seen", path)) == (self.w.disk.files[path].ident, hashlib.sha1(raw).hexdigest()): return
        node.data[("seen", path)] = (self.w.disk.files[path].ident, hashlib.sha1(raw).hexdigest())
        if path == WEIGHT: self.on_weight(node, val)
        elif path == PARA: self.on_para(node, val)
        elif path == MSG: self.on_message(node, val)
        elif path == OUT: self.on_output(node, val)
    def on_weight(self, node, val):
        self.published += 1
        node.data["weight_new"] = True
        ref = self.get_ref(node)
        if node.data.get("lost"): return
        analytic = node.data["new"] or self.cfg["mode"] == "dysononly"
        failed_before = node.data["failed"]
        if analytic:
            for _ in range(400):
                try: out = ref.attempt(True)
                except dysonref.Ambiguous: out = ("ambiguous", "")
                self.w.probe("analytic_" + out[0])
                if out[0] == "unstable": node.data["failed"] += 1; continue
                if not node.data.get("fault"): break
                if out[0] == "ok" and node.data.get("fault") and _ < 390:
                    # a version whose saving failed went on in memory only: the next one is published
                    if dysonref.compare(val, ref.published(), 1e-8 * max(1.0, ref.cond)):
                        snap = self.snapshot(ref) if _ == 0 else snap
                        ref.after_success()
                        if _ < 12: continue
                        self.restore(ref, snap)
                    break
            failed_before = node.data["failed"]
        else:
            if self.open is None: self.w.violate("published-uncollected", "weights published without collecting any statistics"); return
            failed_before = node.data["failed"]
            out = self.evaluate(node)
            if self.open.get("published"): return      # rewritten within the same version
            self.open["published"] = True
        if out[0] == "ambiguous": node.data["lost"] = True; self.w.probe("ambiguous"); return
        if out[0] != "ok":
            self.w.violate("published-" + out[0], "a version was published although it had to fail (%s %s)" % out); node.data["lost"] = True; return
        tol = 1e-8 * max(1.0, ref.cond)
        d = dysonref.compare(val, ref.published(), tol)
        self.w.probe("versions_compared")
        if failed_before: self.w.probe("compared_after_failure")
        if node.inc: self.w.probe("compared_after_restart")
        if d:
            what = sorted({x.split(" ")[0] for x in d})
            msg = "version %d (%d failed before it, incarnation %d): %s" % (ref.version, failed_before, node.inc, "; ".join(d[:4]))
            self.w.violate("mismatch-after-failure" if failed_before else "mismatch", msg)
            if not analytic and "Sigma/SmoothT" in what: self.w.violate("collect-merged-Sigma", msg)
            elif not analytic and "Polar/SmoothT" in what and ref.avg["Polar"][2] and not node.data.get("merged"): self.w.violate("collect-merged-Polar", msg)
            node.data["lost"] = True
        node.data["merged"] = True
        # go on from what was really published
        ref.G, ref.W = val["G"]["SmoothT"], val["W"]["SmoothT"]
        node.data["expect_version"] = ref.version
        node.data["summary"] = (ref.Chi, ref.mindet, ref.G)
        node.data["field"] = (ref.version, list(ref.delta))
        ref.after_success()
        self.w.log(node, "version", "%d %.12e" % (ref.version, abs(np.asarray(val["G"]["SmoothT"])).sum()))
    def on_para(self, node, val):
        node.data["para_written"] = True
        ref = node.data.get("ref")
        if ref is None or not node.data.get("fault") or not (node.data["new"] or self.cfg["mode"] == "dysononly"): return
        # analytic versions close to the fixed point look alike: after a failed save take the number from here
        v = val["Para"].get("Version", 0)
        for _ in range(20):
            if ref.version >= v or node.data.get("lost"): break
            try: o = ref.attempt(True)
            except dysonref.Ambiguous: node.data["lost"] = True; break
            if o[0] == "ok": ref.after_success()
        node.data["expect_version"] = v
    @staticmethod
    def snapshot(ref): return {k: (list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v) for k, v in ref.__dict__.items()}
    @staticmethod
    def restore(ref, s): ref.__dict__.update(s)
    def on_output(self, node, val):
        s = node.data.pop("summary", None)
        if s is None or node.data.get("lost"): return
        chi, det, G = s
        ref = node.data["ref"]
        exp = {"SumRule": chi[0, 0, 0, 0, 0, 0], "1-JP": det, "UnifChi": chi.sum() / self.ns * ref.beta / self.nt,
               "Energy": sum(chi[0, a, 0, b, r, 0] for a, b, r in dysonref.shells(ref.lat, ref.L)[0]) / self.ns}
        exp["BKUnifChi"], exp["BK_Energy"], exp["BK_SumRule"] = exp["UnifChi"], exp["Energy"], exp["SumRule"]
        stag = dysonref.staggered(ref.lat, ref.L, chi[0, :, 0])
        if stag is not None: exp["StagChi"] = exp["BKStagChi"] = stag / self.ns * ref.beta / self.nt
        for k in ("Unif", "Stag"):
            if k + "Chi" in exp:
                q = ("" if k == "Unif" else "Stag") + "Mag^2 density"
                exp[q] = exp["BK " + q] = exp[k + "Chi"] / (ref.vol * self.ns * ref.beta)
        g = G
        m0 = lambda sp, a: 1.5 * g[sp, a, sp, a, 0, -1] - .5 * g[sp, a, sp, a, 0, -2]
        for a in range(self.ns):
            exp["<Sz_%d>" % a] = -.5 * (m0(1, a) - m0(0, a))
            exp["<n_%d>" % a] = m0(1, a) + m0(0, a)
        for k, e in exp.items():
            if k not in val: continue
            x = val[k][-1]
            self.w.probe("observables_compared")
            if not abs(x - e) <= 1e-7 * max(1.0, ref.cond) * max(abs(e), 1e-3 * np.abs(chi).max() / (ref.vol * self.ns * ref.beta if "Mag^2" in k else 1), 1e-6) + (1e-7 if k == "1-JP" else 0):
                self.w.violate("observable", "%s of version %d is %s, the published weights give %s" % (k, node.data.get("expect_version", -1), x, e)); return
    def on_message(self, node, val):
        v = val.get("Version")
        self.announced.append(v)
        self.w.probe("announced")
        para = txt_parse(self.w.disk.get(PARA))
        if not node.data.get("weight_new"): self.w.violate("announce-no-weights", "version %s was announced although its weights were never published" % v)
        if para is None or para["Para"].get("Version") != v: self.w.violate("announce-para", "version %s was announced but the parameter file on disk holds version %s" % (v, None if para is None else para["Para"].get("Version")))
        f = node.data.get("field")
        if f and para is not None and f[0] == v == para["Para"].get("Version") and not node.data.get("lost"):
            self.w.probe("field_compared")
            if any(f[1]): self.w.probe("field_nonzero")
            x = para["Para"]["Dyson"]["Annealing"]["DeltaField"]
            if len(x) != len(f[1]) or max(abs(a - b) for a, b in zip(x, f[1])) > 1e-9:
                self.w.violate("published-field", "the parameters of version %d give the auxiliary field %s, its weights are those of %s" % (v, x, f[1]))
        ev = node.data.get("expect_version")
        if ev is not None and not node.data.get("lost") and v != ev: self.w.violate("announce-version", "version %s was announced, the weights on disk are those of version %s" % (v, ev))
        if v <= self.maxver: self.w.violate("version-order", "version %s was announced after version %s" % (v, self.maxver))
        self.maxver = max(self.maxver, v)
        if abs(val.get("SqueezeFactor", 0) - (1 + 3.0 / (v + 1.0))) > 1e-9 or val.get("Beta") != self.para["Tau"]["Beta"]: self.w.violate("announce-content", "message %s" % val)
        node.data["weight_new"] = False
    # ---------------------------------------------------------------- collect
    def check_collect(self, node):
        raw = self.total      # as the process itself left it
        a = {"reads": [], "files": set()}
        a = self.col or a
        if node.data.get("fault"): return
        ref = dysonref.Ref(self.para)
        first = {}
        for p, b in a["reads"]: first[p] = b
        order = []
        for p, b in a["reads"]:
            if p not in order: order.append(p)
        extra = sorted(set(order) - a["files"])
        if extra: self.w.violate("collect-temp", "collected %s" % extra)
        files = [(p, hkl_parse(first[p])) for p in order if p in a["files"]] + [(p, None) for p in sorted(a["files"] - set(order))]
        ref.vanished = sum(p not in self.w.disk.files or p in a.get("vanished", ()) for p in a["files"] - set(order))
        ref.gamma = bool(self.cfg.get("gamma"))
        try: acc, accu, norm = ref.collect(files)
        except dysonref.Ambiguous: return
        except dysonref.CollectFailure as e:
            self.w.probe("collect_" + str(e))
            if raw is not None: self.w.violate("accepted-bad", "statistics were merged although collection has to be refused (%s)" % e)
            if self.cfg.get("gamma") and not node.data.get("refused"):
                self.w.violate("refused", "collection has to be refused in an orderly way (%s), but it ended with %s" % (e, (node.error or "")[-600:]))
            return
        self.w.probe("collected")
        got = hkl_parse(raw)
        if got is None: self.w.violate("refused", "no merged statistics although %d of %d files are usable: %s" % (sum(f[1] is not None for f in files), len(files), (node.error or "")[-600:])); return
        if any(f[1] is None for f in files): self.w.probe("success_despite_bad_file")
        for k in ("Sigma", "Polar"):
            h = got[k]["Histogram"]["SmoothT"]
            x = np.asarray(h["WeightAccu"], complex)
            if x.shape != acc[k].shape or np.abs(x - acc[k]).max() > 1e-9 * np.abs(acc[k]).max() or abs(h["NormAccu"] - accu[k]) > 1e-9 * abs(accu[k]) + 1e-300 or h["Norm"] != norm[k]:
                self.w.violate("collect-merged-" + k, "merged %s: sum %s norm %s, the usable files add up to %s norm %s" % (k, x.sum(), h["NormAccu"], acc[k].sum(), accu[k])); return
        if self.cfg.get("gamma"):
            self.w.probe("collected_gamma")
            for k, x in zip(("GammaGStatis", "GammaWStatis"), node.data["gamma"]):
                want = acc[k] / accu[k] * norm[k]
                if x.shape != want.shape or np.abs(x - want).max() > 1e-5 * np.abs(want).max():
                    self.w.violate("collect-merged-" + k, "merged %s: sum %s, the usable files add up to %s" % (k, x.sum(), want.sum())); return
    col = None
    total = None
    # --------------------------------------------------------------------- run
    def run(self):
        if self.cfg["mode"] == "collect":
            orig = self.on_op
            def grab(node, kind, path):
                if kind == "listdir" and path == "/work":
                    orig(node, kind, path); self.col = self.open
            self.w.on_op[:] = [grab]
        self.w.run(self.cfg["until"])
        for n in self.w.nodes:
            if self.cfg.get("signals") and n.alive(): self.check_signal(n, False)
        if self.w.events >= 400000: self.w.probe("event_cap")
        return self
