import random
from sim import joblab as J
RULE = "one seeded series of campaigns of the real job generation in one directory with what completed, stopped and killed campaigns left there; distinct by event log"
REAL, STUB, ASSUMPTIONS = J.REAL, J.STUB, J.ASSUME
CASES = {"quick": 3000, "thorough": 50000}
PROBES = ["campaign_fresh", "campaign_resumed", "campaign_stopped", "manual_job", "shipped_inlist"]
JUNK = ["_%d_MC_statis.hkl", "%d_MC_para.txt", "statis_total.hkl", "statis_%d.txt", "old_statis.hkl", "-%d_MC_statis.hkl", "_in_MC_%d.txt", "%d_MC_statis.hkl.bak", "%d_MC_statis.hkl~", "%d_MC_statis.hkl", "1%d_MC_statis.hkl", "10%d_MC_statis.hkl", "my_%d_MC_statis.hkl", "a%d_MC_statis.hkl", "notes_on_statis.txt", "%d_statistics/", "statis/", "project.log", "Weight.hkl"]
def gen(s, tier, i):
    r = random.Random(s)
    if i % 200 == 199: return {"seed": s, "cfg": {"campaigns": [{"real_inlist": True, "entries": [], "cpu": 16, "sleep": 1, "dur": "short"}], "until": 200}, "plan": []}
    cs = []
    for _ in range(r.choice([1, 2, 3, 4])):
        kind = r.choice(["", "", "", "", "cluster", "manual"])
        tm = lambda: [r.choice([1, 2, 3, 4, 10, 30, 310, 1000]) for _ in range(4)]
        mc = [{"type": "MC", "dup": r.choice([0, 1, 2, 3, 5, 8, 14, 24]), "timers": tm(), "cluster": kind == "cluster", "auto": kind != "manual"}]
        for _ in range(r.choice([0, 0, 0, 0, 1, 1, 2, 3])):
            k2 = r.choice([kind, kind, "", "cluster", "manual"])
            mc.append({"type": "MC", "dup": r.choice([0, 1, 2, 4]), "timers": tm(), "cluster": k2 == "cluster", "auto": k2 != "manual"})
        if r.random() < .7: mc.insert(r.randrange(len(mc) + 1), {"type": "DYSON", "dup": 1, "cluster": kind == "cluster", "auto": kind != "manual"})
        b = []
        for _ in range(r.choice([0, 0, 1, 2, 4])):
            x = r.choice(JUNK)
            x = x % r.choice([r.randrange(10), r.randrange(10), r.randrange(8, 130)]) if "%" in x else x
            b.append(x)
        cs.append({"entries": mc, "cpu": r.choice([1, 3, 16]), "sleep": 1, "dur": r.choice(["zero", "short", "same", "mixed"]), "crash": .1, "before": b})
    pl = []
    for _ in range(r.choice([0, 0, 1, 2])):
        k = r.random()
        do = r.choice(["sig:2", "sig:15", "crash"])
        if k < .4: pl.append({"t": "time", "at": round(r.uniform(.3, 40), 3), "node": "manager", "do": do})
        else: pl.append({"t": "op", "node": "manager", "op": r.choice(["open", "write", "rename", "popen", "poll", "*"]), "n": r.choice([1, 1, 2, 3, 5, 9, 20]), "inc": r.randrange(3), "do": do, "after": r.random() < .5})
    for _ in range(r.choice([0, 1, 2])): pl.append({"t": "time", "at": round(r.uniform(.5, 30), 3), "node": "job%d" % r.randrange(1, 12), "do": "crash"})
    return {"seed": s, "cfg": {"campaigns": cs, "until": 1500}, "plan": pl}
def run(case): return J.run_lab(case, J.P16K)
