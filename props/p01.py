import random
from sim import cases
from sim.worlds import phys, wide
RULE = "one seeded deployment: worker, published arrays, announcements, saves, crashes and restarts; distinct by the hash of its event log and of the order/sector path the sampler took"
REAL, STUB, ASSUMPTIONS = cases.REAL, cases.STUB, cases.ASSUME
CASES = {"quick": 1200, "thorough": 6000}
PROBES = ["saw_worm", "saw_order0", "saw_instantaneous_W", "saw_polar_sector", "resume", "adopted"]
def gen(s, tier, i):
    r = random.Random(s)
    p = phys(r, **wide(r))
    until = r.choice([20, 40, 60])
    mk = {"WormSpaceReweight": r.choice([0.05, 0.3, 1.0, 3.0]), "Sweep": r.choice([1, 3, 10])}
    cfg = {"p": p, "markov": mk, "timers": cases.timers(r), "workers": 1, "until": until, "hop_cost": r.choice([1e-3, 2e-3, 5e-4]), "check_every": 1,
           "pubs": cases.pubs(r, until, ("normal", "normal", "missing", "garbled", "stale")), "local_g": r.random() < 0.5, "zero_wd": r.random() < 0.25,
           "spread": r.choice([0.0, 0.3, 0.8, 1.5]), "scale": r.choice([0.5, 1.0, 2.0]), "oracles": ["P01"]}
    return {"seed": s, "cfg": cfg, "plan": cases.plan(r, ["mc0"], until, r.choice([0, 1, 2, 3]), ["crash", "opcrash", "torn", "sig", "jump"])}
run = cases.run_lab
