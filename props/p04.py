import random, copy
from sim import cases, runner, lab
from sim.worlds import phys, wide
RULE = "one seeded pair of histories, identical but for a crash right after a completed save: the resumed worker is compared with its save and, update by update, with the worker that was never interrupted; distinct by event log and sampler path"
REAL, STUB, ASSUMPTIONS = cases.REAL, cases.STUB, cases.ASSUME + ["line weights are compared exactly, accumulated sums to 1e-9 relative (the phase of a resumed diagram is recomputed, which changes the last bits)"]
CASES = {"quick": 900, "thorough": 15000}
PROBES = ["resume", "twin_states_compared", "twin_with_worm", "twin_polar_sector", "resume_order0", "adopted", "resume_without_para"]
def gen(s, tier, i):
    r = random.Random(s)
    p = phys(r, **wide(r))
    until = r.choice([20, 40])
    mk = {"WormSpaceReweight": r.choice([0.1, 0.5, 2.0]), "Sweep": r.choice([1, 3, 10])}
    tm = cases.timers(r); tm["DiskWriterTimer"] = r.choice([2, 3, 5]); tm["ReweightTimer"] = r.choice([4, 1000, 1000])
    if random.Random(str(s) + "/long").random() < .15: mk["Counter"] = random.Random(str(s) + "/long").choice([2 ** 31 - 400, 2 ** 32 - 300, 5 * 10 ** 9, 2 ** 31 + 7])   # a worker with a long past
    cfg = {"p": p, "markov": mk, "timers": tm, "workers": 1, "until": until, "hop_cost": r.choice([1e-3, 3e-3]), "toss": 0, "record": 400,
           "pubs": cases.pubs(r, until, ("normal", "stale")) if r.random() < .4 else [], "local_g": r.random() < .3, "zero_wd": r.random() < .2,
           "spread": r.choice([0.0, 0.3, 0.8]), "scale": r.choice([0.5, 1.0, 1.4]), "oracles": ["P03", "P04"]}
    if random.Random(str(s) + "/lose").random() < .15: cfg["lose"] = r.choice(["missing", "cut", "empty", "garbage"])
    n = r.choice([1, 1, 2, 2, 3, 4])
    pl = [{"t": "op", "node": "mc0", "op": "rename", "path": "_MC_statis", "n": k, "do": "crash", "after": True} for k in sorted(r.sample(range(1, 8), n))]
    return {"seed": s, "cfg": cfg, "plan": pl}
def tidy(s):
    l = dict(s["Live"])
    l["Phase"] = complex(l.pop("PhaseRe"), l.pop("PhaseIm")); l["Weight"] = complex(l.pop("WeightRe"), l.pop("WeightIm"))
    return dict(s, Live=l)
def run(case):
    if case["cfg"].get("lose"):              # nothing to compare update by update: the diagram is a new one
        b = lab.Lab(case).run()
        return runner.result(b.w, updates=b.tot_hops)
    a = lab.Lab(dict(case, plan=[])).run()
    b = lab.Lab(case).run()
    w = b.w
    for v in a.w.violations: w.violate(v["kind"], "(uninterrupted run) " + v["msg"])
    for k, v in a.w.probes.items(): w.probes[k] = w.probes.get(k, 0) + v
    ra = [n for n in a.w.nodes if n.name == "mc0"]
    rb = [n for n in w.nodes if n.name == "mc0"]
    if len(ra) == 1 and len(rb) >= 2:
        rec = ra[0].data.get("rec", {})
        second = rb[1]
        pre = rb[0].data.get("pre")          # state handed to the last Save
        got = second.data.get("rec", {})
        if pre is not None and pre["Live"]["Order"] == 0: w.probe("resume_order0")
        elif rb[0].data.get("G") is not second.data.get("G_start"): w.probe("weights_replaced_while_down")
        elif pre is not None and second.data.get("does_load"):
            def factors(s): return (s["Para"]["Version"], tuple(s["Para"]["Markov"]["OrderReWeight"]), s["Para"]["Markov"]["WormSpaceReweight"], s["Para"]["Markov"]["PolarReweight"])
            f, c0 = factors(pre), pre["Para"]["Markov"]["Counter"]
            if pre["Live"]["Worm"]: w.probe("twin_with_worm")
            if not pre["Live"]["MeasureGLine"]: w.probe("twin_polar_sector")
            for c in sorted(got):
                if c <= c0 or c not in rec: continue
                x, y = rec[c], got[c]
                if factors(x) != f or factors(y) != f: break
                w.probe("twin_states_compared")
                d = lab.near(tidy(x), tidy(y))
                if d:
                    w.violate("twin", "%d updates after the save the resumed worker differs from the uninterrupted one at %s" % (c - c0, d)); break
            w.h.update(b"%d" % (second.worker.lib.kf_path_hash() if hasattr(second, "worker") else 0))
    return runner.result(w, updates=a.tot_hops + b.tot_hops)
