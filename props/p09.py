import random
from sim import cases
from sim.worlds import phys
RULE = "one seeded worker history with frequent re-tuning and reporting, from starved to abundant sectors, with adoptions, resumes and extreme initial factors; distinct by event log and sampler path"
REAL, STUB, ASSUMPTIONS = cases.REAL, cases.STUB, cases.ASSUME
CASES = {"quick": 1200, "thorough": 8000}
PROBES = ["retuned", "retune_declined", "retune_without_worm", "print", "retune_without_sigma"]
def gen(s, tier, i):
    r = random.Random(s)
    p = phys(r, L=[2, 2], Order=r.choice([1, 1, 2, 2, 3]))
    until = r.choice([40, 80, 120])
    mk = {"WormSpaceReweight": r.choice([1e-9, 1e-4, 0.05, 0.3, 1.0, 5.0]), "Sweep": r.choice([1, 1, 1, 3]), "PolarReweight": r.choice([0.1, 1.0, 2.0, 10.0])}
    mk["OrderReWeight"] = [1.0] + [r.choice([0.01, 0.3, 1.0, 2.0, 30.0]) for _ in range(p["Order"])]
    mk["OrderTimeRatio"] = [1.0] + [r.choice([0.2, 1.0, 1.0, 3.0]) for _ in range(p["Order"])]
    lone = r.random() < .25          # one sector so heavy that the other is never visited
    if lone: mk["PolarReweight"] = r.choice([1e6, 1e9, 1e-9]); mk["WormSpaceReweight"] = r.choice([.05, .3, 1.0])
    tm = cases.timers(r); tm["ReweightTimer"] = r.choice([3, 5, 10]); tm["PrinterTimer"] = r.choice([2, 5])
    cfg = {"p": p, "markov": mk, "timers": tm, "toss": r.choice([20, 300]) if lone else None, "workers": 1, "until": until, "hop_cost": r.choice([2e-3, 5e-4, 2e-4, 1e-4]),
           "pubs": cases.pubs(r, until, ("normal", "stale")) if r.random() < .4 else [], "local_g": r.random() < .3, "zero_wd": r.random() < .3,
           "spread": r.choice([0.0, 0.3, 0.8]), "scale": r.choice([0.3, 0.7, 1.0, 1.5]), "oracles": ["P09"]}
    return {"seed": s, "cfg": cfg, "plan": cases.plan(r, ["mc0"], until, r.choice([0, 0, 1, 2]), ["crash", "jump", "sig"])}
run = cases.run_lab
