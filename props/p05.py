import random
from sim import cases
from sim.worlds import phys
RULE = "one seeded history of crashes, torn and failing writes and restarts of workers; distinct by event log"
REAL, STUB, ASSUMPTIONS = cases.REAL, cases.STUB, cases.ASSUME
CASES = {"quick": 1200, "thorough": 20000}
PROBES = ["resume", "save", "resume_between_two_files", "statistics_audited"]
def gen(s, tier, i):
    r = random.Random(s)
    p = phys(r, L=[2, 2], Order=r.choice([1, 2, 3]))
    until = r.choice([30, 60, 90])
    mk = {"WormSpaceReweight": 0.3, "Sweep": r.choice([3, 10])}
    tm = cases.timers(r); tm["DiskWriterTimer"] = r.choice([2, 3, 5])
    if random.Random(str(s) + "/long").random() < .15: mk["Counter"] = random.Random(str(s) + "/long").choice([2 ** 31 - 400, 2 ** 32 - 300, 5 * 10 ** 9, 2 ** 31 + 7])   # a worker with a long past
    cfg = {"p": p, "markov": mk, "timers": tm, "workers": r.choice([1, 2]), "until": until, "hop_cost": 5e-3, "latency": r.choice([0.01, 0.1]),
           "pubs": cases.pubs(r, until, ("normal", "stale")) if r.random() < .3 else [], "oracles": ["P03", "P05"]}
    names = ["mc%d" % k for k in range(cfg["workers"])]
    return {"seed": s, "cfg": cfg, "plan": cases.plan(r, names, until, r.choice([1, 2, 3, 5]), ["crash", "opcrash", "opcrash", "opcrash", "torn", "torn", "disk", "disk", "stall"])}
run = cases.run_lab
