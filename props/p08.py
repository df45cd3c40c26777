import random
from sim import cases
from sim.worlds import phys
RULE = "one seeded worker history under clock jumps, clock skew, slow-downs and stalled disk operations, every interval between two occurrences of each periodic task judged against its period; distinct by event log"
REAL, STUB, ASSUMPTIONS = cases.REAL, cases.STUB, cases.ASSUME + ["the clock advances between two polls; a polling interval is one hundred sweeps"]
CASES = {"quick": 1500, "thorough": 20000}
PROBES = ["timer_gaps"]
def gen(s, tier, i):
    r = random.Random(s)
    p = phys(r, L=[2, 2], Order=r.choice([1, 2]))
    until = r.choice([80, 200, 400])
    mk = {"WormSpaceReweight": 0.3, "Sweep": r.choice([1, 3, 10])}
    hc = r.choice([1e-3, 5e-3, 2e-2])
    if hc * mk["Sweep"] * 100 > 10: hc = 5e-3
    tm = {k: r.choice([2, 3, 5, 8, 13, 21, 34]) for k in ("PrinterTimer", "DiskWriterTimer", "MessageTimer", "ReweightTimer")}
    cfg = {"p": p, "markov": mk, "timers": tm, "workers": 1, "until": until, "hop_cost": hc, "latency": r.choice([0.001, 0.02, 0.2]),
           "pubs": cases.pubs(r, until, ("normal", "stale", "missing")) if r.random() < .5 else [], "oracles": ["P08"]}
    pl = cases.plan(r, ["mc0"], until * 0.8, r.choice([0, 1, 2, 3, 4]), r.choice([["jump"], ["jump"], ["skew"], ["slow"], ["jump", "stall", "slow"], ["stall", "jump", "skew", "crash"]]))
    return {"seed": s, "cfg": cfg, "plan": pl}
run = cases.run_lab
