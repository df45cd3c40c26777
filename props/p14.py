import random
from sim import cluster as C
RULE = "one seeded run of the whole system: warm-up, workers and self-consistency process (under the real job manager in a share of the runs), faults until a certain time, then a bounded wait for progress; distinct by event log"
REAL, STUB, ASSUMPTIONS = C.REAL, C.STUB, C.ASSUME
CASES = {"quick": 320, "thorough": 12000}
PROBES = ["progress_dyson", "progress_worker", "adopted", "load", "buildnew", "announced_by_collecting"]
def gen(s, tier, i):
    r = random.Random(s)
    ns = r.choice([1, 1, 2])
    p = {"Lattice": "Square" if ns == 1 else "Checkerboard", "L": r.choice([[2, 2], [3, 2]]) if ns == 1 else [2, 2], "NSublat": ns, "Model": r.choice(["J1J2", "Heisenberg"]), "MaxTauBin": r.choice([8, 10]), "Beta": r.choice([0.3, 0.5]),
         "J": [r.choice([0.3, -0.2]), 0.0, 0.0, 0.0], "Order": r.choice([1, 2, 3])}
    t = lambda: r.choice([2, 5, 10])
    n = r.choice([1, 2, 2, 3, 4])
    man = r.random() < .3
    stop = r.choice([40, 70, 110])
    cfg = {"p": p, "workers": n, "timers": {"PrinterTimer": t(), "DiskWriterTimer": t(), "MessageTimer": t(), "ReweightTimer": r.choice([15, 40])}, "sleep": r.choice([3, 10]), "hop_cost": r.choice([5e-4, 1e-3]),
           "latency": r.choice([0.002, 0.01, 0.03]), "warm": r.choice([1, 2, 5]), "stop": stop, "manager": man, "toss": 20, "sweep": 10}
    nodes = ["dyson", "dyson"] + ["mc%d" % k for k in range(n)] + (["manager"] * 2 if man else [])
    pl = []
    for _ in range(r.choice([0, 1, 2, 3, 5, 8])):
        nd = r.choice(nodes)
        k = r.random()
        at = round(r.uniform(0.6, stop - 1), 3)
        if k < .25: pl.append({"t": "time", "at": at, "node": nd, "do": r.choice(["crash", "crash", "sig:2", "sig:15"])})
        elif k < .35: pl.append({"t": "time", "at": at, "node": nd, "do": "slow:%s" % r.choice([3, 10]), "for": 10})
        elif k < .42 and nd != "manager": pl.append({"t": "time", "at": at, "node": nd, "do": "jump:%s" % r.choice([-20, -3, 30, 3600])})
        elif k < .47 and nd.startswith("mc"): pl.append({"t": "time", "at": at, "node": nd, "do": "skew:%s" % r.choice([0.95, 1.05])})
        elif k < .57: pl.append({"t": "window", "node": r.choice([nd if nd != "manager" else "dyson"] + ([] if man else ["*"])), "from": at, "to": at + r.choice([1, 5, 15]), "ops": r.choice([["write"], ["write", "open", "rename", "close"], ["read", "open_r"], ["write", "read"]]), "prob": r.choice([.1, .5, 1.0]), "do": r.choice(["eio", "enospc"])})
        else:
            if nd == "manager": nd = "dyson"
            op = r.choice(["open", "write", "close", "rename", "open_r", "read", "listdir", "*"])
            do = r.choice(["crash", "short_crash" if op == "write" else "crash", "eio", "stall:8", "stall:30", "sig:15", "enospc" if op not in ("open_r", "read", "listdir") else "eio"])
            pl.append({"t": "op", "node": nd, "op": op, "path": r.choice(["", "", "Weight", "Message", "para", "statis"]), "n": r.choice([1, 1, 2, 3, 6, 12, 30]), "do": do, "frac": round(r.random(), 2), "after": r.random() < .5})
    return {"seed": s, "cfg": cfg, "plan": pl}
def run(case): return C.run_lab(case)
