import random
from sim import dcases as D
RULE = "one seeded history of the real self-consistency process under a restarting supervisor with crashes, signals, torn writes, disk errors and stalls around its file operations; every visible state of the published files is inspected, and every announcement at the instant it appears; distinct by event log"
REAL, STUB, ASSUMPTIONS = D.REAL, D.STUB, D.ASSUME
CASES = {"quick": 600, "thorough": 12000}
PROBES = ["announced", "compared_after_restart", "compared_after_failure", "analytic_ok", "attempt_unstable"]
KINDS = {"torn-visible", "announce-no-weights", "announce-para", "announce-version", "version-order", "announce-content"}
def gen(s, tier, i):
    r = random.Random(s)
    p = D.phys(r)
    sleep = r.choice([2, 5])
    mode = r.choice(["mc", "mc", "mc", "new", "new", "dysononly"])
    until = sleep * r.choice([6, 10]) if mode == "mc" else r.choice([3, 6])
    if mode == "new": until = r.choice([4, 20])
    st = D.stats(r, until, sleep, bad=.15, hot=.1, workers=r.choice([1, 2, 3])) if mode != "dysononly" else []
    cfg = {"p": p, "mode": mode, "until": until, "sleep": sleep, "seedw": mode != "new", "version0": r.choice([0, 3, 30, 30, 98, 1500]), "threshold": .5, "stat": st, "restart_delay": r.choice([0.5, 2])}
    pl = D.plan(r, until, r.choice([1, 1, 2, 3, 5]))
    if mode == "new": pl.append({"t": "time", "at": r.uniform(.7, 2), "node": "dyson", "do": "crash"})      # the user stops the first, analytic stage
    return {"seed": s, "cfg": cfg, "plan": pl}
def run(case): return D.run_lab(case, KINDS)
