import random
from sim import joblab as J
RULE = "one seeded run of the real job manager: numbers of jobs and processors, durations, crashes, simultaneous ends, stop requests at operations and instants; distinct by event log"
REAL, STUB, ASSUMPTIONS = J.REAL, J.STUB, J.ASSUME
CASES = {"quick": 4000, "thorough": 60000}
PROBES = ["limit_reached", "stop_request_handled", "stop_request_early", "stop_with_some_jobs", "stop_with_no_jobs", "campaign_complete", "campaign_stopped", "shipped_inlist"]
def gen(s, tier, i):
    r = random.Random(s)
    if i % 200 == 199: return {"seed": s, "cfg": {"campaigns": [{"real_inlist": True, "entries": [], "cpu": 16, "sleep": 1, "dur": r.choice(["short", "mixed"])}], "until": 200}, "plan": []}
    n = r.choice([0, 1, 2, 3, 5, 8, 14, 20])
    kind = r.choice(["", "", "", "", "cluster", "manual"])
    e = [{"type": "MC", "dup": n, "timers": [30, 30, 30, 1000], "cluster": kind == "cluster", "auto": kind != "manual"}]
    if r.random() < .8: e.insert(r.choice([0, 1]), {"type": "DYSON", "dup": r.choice([1, 1, 0]), "cluster": kind == "cluster", "auto": kind != "manual"})
    for _ in range(r.choice([0, 0, 0, 1, 2])):
        k2 = r.choice(["", "", "cluster", "manual"])
        e.append({"type": "MC", "dup": r.choice([1, 2, 4]), "timers": [30, 30, 30, 1000], "cluster": k2 == "cluster", "auto": k2 != "manual"})
    c = {"entries": e, "cpu": r.choice([1, 2, 3, 4, 8, 16]), "sleep": r.choice([1, 1, 0.2, 5]), "dur": r.choice(["zero", "short", "same", "mixed", "mixed", "long"]), "crash": r.choice([0, .1, .8]), "nosave": True}
    until = 400
    pl = []
    if c["dur"] == "long" or r.random() < .6:
        for _ in range(r.choice([1, 1, 2, 3])):
            k = r.random()
            sg = "sig:%d" % r.choice([2, 15])
            if k < .3: pl.append({"t": "time", "at": round(r.uniform(.3, 40), 3), "node": "manager", "do": r.choice([sg, sg, "call:ctrlc"])})
            else: pl.append({"t": "op", "node": "manager", "op": r.choice(["open", "write", "rename", "popen", "popen", "stat", "poll", "waitpid", "kill", "listdir", "sigaction", "*", "*"]), "n": r.choice([1, 1, 2, 3, 5, 9, 20, 60]), "do": sg, "after": r.random() < .5})
    if r.random() < .3: pl.append({"t": "time", "at": round(r.uniform(1, 30), 3), "node": "job%d" % r.randrange(1, 8), "do": r.choice(["crash", "sig:15"])})
    if r.random() < .1: pl.append({"t": "time", "at": round(r.uniform(1, 30), 3), "node": "manager", "do": "jump:%d" % r.choice([-3600, 3600])})
    return {"seed": s, "cfg": {"campaigns": [c], "until": until, "latency": r.choice([0.001, 0.01])}, "plan": pl}
def run(case): return J.run_lab(case, J.P15K)
