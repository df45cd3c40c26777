import random
from sim import cases, dcases as D
from sim.worlds import phys
RULE = "one seeded history with interrupts and terminations delivered at chosen operations and instants of a saving worker or of the self-consistency process; distinct by event log"
REAL, STUB, ASSUMPTIONS = cases.REAL + D.REAL, cases.STUB, cases.ASSUME
CASES = {"quick": 1400, "thorough": 24000}
PROBES = ["signal_in_save", "signal_in_sampling", "signal_in_listen", "dyson_signal_in_save", "dyson_signal_outside_save"]
def gen(s, tier, i):
    r = random.Random(s)
    if i % 4 == 3: return dyson(r, s)
    p = phys(r, L=[2, 2], Order=r.choice([1, 2]))
    until = r.choice([30, 60])
    mk = {"WormSpaceReweight": 0.3, "Sweep": r.choice([1, 10])}
    tm = cases.timers(r); tm["DiskWriterTimer"] = r.choice([2, 3, 5])
    cfg = {"p": p, "markov": mk, "timers": tm, "workers": 1, "until": until, "hop_cost": 5e-3, "latency": r.choice([0.01, 0.1]),
           "pubs": cases.pubs(r, until, ("normal", "stale")) if r.random() < .5 else [], "oracles": ["P07", "P05"]}
    pl = cases.plan(r, ["mc0"], until, r.choice([1, 2, 3]), ["opsig", "opsig", "opsig", "opsig", "sig", "stall"])
    if r.random() < .3: pl += cases.plan(r, ["mc0"], until, 2, ["opsig"], ("Message", "Weight.hkl"))
    if r.random() < .3: pl += [dict(pl[0], n=pl[0].get("n", 1) + r.choice([0, 1, 2]))]
    return {"seed": s, "cfg": cfg, "plan": pl}
def dyson(r, s):
    p = D.phys(r)
    sleep = r.choice([2, 5, 30])
    mode = r.choice(["mc", "mc", "new", "dysononly"])
    until = sleep * 6 if mode == "mc" else 4
    st = D.stats(r, until, sleep, bad=.1, workers=r.choice([1, 2, 3])) if mode == "mc" else []
    cfg = {"p": p, "mode": mode, "until": until, "sleep": sleep, "seedw": mode != "new", "version0": 3, "threshold": .5, "stat": st, "restart_delay": r.choice([0.5, 2]), "signals": True}
    pl = []
    for _ in range(r.choice([1, 1, 2, 4])):
        k = r.random()
        do = "sig:%d" % r.choice([2, 15])
        if k < .3: pl.append({"t": "time", "at": round(r.uniform(.6, until), 3), "node": "dyson", "do": do})
        elif k < .4: pl.append({"t": "op", "node": "dyson", "op": "sigaction", "n": r.randrange(1, 13), "do": do, "after": r.random() < .5})
        else:
            f = r.choice(["Weight", "0_DYSON_para", "Dyson_Output", "Weight", "0_DYSON_para", "Dyson_Output", "Message", "_statis"])
            op = r.choice(["open_r", "read"]) if f == "_statis" else r.choice(["open", "write", "close", "rename"])
            pl.append({"t": "op", "node": "dyson", "op": op, "path": f, "n": r.choice([1, 2, 2, 3, 4, 6, 9]), "do": do, "after": r.random() < .5})
    return {"seed": s, "dyson": True, "cfg": cfg, "plan": pl}
KINDS = {"save-cut-short", "signal-lost", "signal-late", "torn-visible"}
def run(case): return D.run_lab(case, KINDS) if case.get("dyson") else cases.run_lab(case)
