import random
from sim import cases
from sim.worlds import phys, wide
RULE = "one seeded worker history of sampling, re-tuning, adoptions, saves, crashes and resumes, audited at every save and adoption against an independent account of every measurement; distinct by event log and sampler path"
REAL, STUB, ASSUMPTIONS = cases.REAL, cases.STUB, cases.ASSUME + ["an independent account is kept beside each measurement step from the live diagram, the published file layout and the factors in force"]
CASES = {"quick": 1500, "thorough": 12000}
PROBES = ["statistics_audited", "resume", "adopted", "retuned", "saw_order0", "saw_polar_sector", "saw_worm"]
def gen(s, tier, i):
    r = random.Random(s)
    p = phys(r, **wide(r))
    until = r.choice([20, 40, 60])
    mk = {"WormSpaceReweight": r.choice([0.05, 0.3, 1.0]), "Sweep": r.choice([1, 1, 3, 10])}
    tm = cases.timers(r)
    if r.random() < 0.3:      # enough samples for re-tuning
        p["Order"] = r.choice([1, 2]); mk["Sweep"] = 1; until = 60
    cfg = {"p": p, "markov": mk, "timers": tm, "workers": r.choice([1, 1, 2]), "until": until, "hop_cost": r.choice([2e-3, 5e-4, 2e-4]),
           "pubs": cases.pubs(r, until, ("normal", "normal", "missing", "stale", "lost_weights")), "local_g": r.random() < 0.3, "zero_wd": r.random() < 0.25,
           "spread": r.choice([0.0, 0.3, 0.8]), "scale": r.choice([0.5, 1.0, 1.4]), "oracles": ["P03"]}
    names = ["mc%d" % k for k in range(cfg["workers"])]
    return {"seed": s, "cfg": cfg, "plan": cases.plan(r, names, until, r.choice([0, 1, 2, 3]), ["crash", "opcrash", "torn", "sig", "stall"])}
run = cases.run_lab
