import random
from sim import cases
from sim.worlds import phys, wide
RULE = "one seeded history of publications (fresh, stale, missing, damaged, with lost or torn weights) read by workers under latency, read errors, crashes and clock jumps; distinct by event log"
REAL, STUB, ASSUMPTIONS = cases.REAL, cases.STUB, cases.ASSUME
CASES = {"quick": 1500, "thorough": 15000}
PROBES = ["adopted", "no_announcement", "garbled_announcement", "stale_announcement", "weights_unreadable", "caught_up_checked"]
def gen(s, tier, i):
    r = random.Random(s)
    p = phys(r, **dict({"Order": r.choice([1, 2, 3])}, **wide(r)))
    until = r.choice([40, 80])
    mk = {"WormSpaceReweight": r.choice([0.1, 1.0]), "Sweep": r.choice([3, 10])}
    tm = cases.timers(r); tm["MessageTimer"] = r.choice([1, 2, 3])
    quiet = 3 * tm["MessageTimer"] + 60
    cfg = {"p": p, "markov": mk, "timers": tm, "workers": r.choice([1, 2]), "until": until + quiet, "hop_cost": 5e-3, "latency": r.choice([0.01, 0.05, 0.2]), "faults_until": until,
           "pubs": cases.pubs(r, until, ("normal", "normal", "normal", "missing", "garbled", "stale", "lost_weights", "torn_weights")), "oracles": ["P06"]}
    if r.random() < .5:
        v = max(q["version"] for q in cfg["pubs"])
        cfg["pubs"].append({"at": until + 0.5, "version": v + 1, "squeeze": 1.0 + 3.0 / (v + 2.0), "gw": "last", "kind": "normal", "weights": True})
    names = ["mc%d" % k for k in range(cfg["workers"])]
    pl = cases.plan(r, names, until, r.choice([0, 1, 2]), ["crash", "jump", "slow", "sig"])
    pl += [dict(q, op=r.choice(["open_r", "read"]), do="eio") for q in cases.read_faults(r, names, r.choice([0, 0, 1, 3]))]
    return {"seed": s, "cfg": cfg, "plan": pl}
run = cases.run_lab
