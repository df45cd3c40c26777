import random
from sim import dcases as D
RULE = "one seeded history of the real self-consistency process over scripted statistics files in which some versions fail (too few usable files, no normalisation, unstable Dyson equations), next to a reference model that undoes failed versions completely; distinct by event log"
REAL, STUB, ASSUMPTIONS = D.REAL, D.STUB, D.ASSUME
CASES = {"quick": 400, "thorough": 8000}
PROBES = ["attempt_ok", "attempt_collect", "attempt_unstable", "compared_after_failure", "analytic_unstable", "collect_unreadable", "collect_none", "collect_norm"]
KINDS = {"mismatch-after-failure", "published-collect", "published-unstable", "announce-after-failure"}
def gen(s, tier, i):
    r = random.Random(s)
    p = D.phys(r)
    sleep = r.choice([5, 10])
    mode = r.choice(["mc", "mc", "mc", "mc", "dysononly", "new"])
    until = sleep * r.choice([6, 10, 16]) if mode == "mc" else r.choice([2, 4])
    cfg = {"p": p, "mode": mode, "until": until, "sleep": sleep, "seedw": mode != "new", "version0": r.choice([0, 3, 30, 30, 98, 1500]), "threshold": r.choice([0.01, 0.05, 0.5]),
           "order_acc": {"Sigma": r.choice([0, 1, 1, 2]), "Polar": r.choice([0, 1, 1, 2])}, "stat": D.stats(r, until, sleep, bad=.35, hot=.35, zero=.12) if mode == "mc" else []}
    if mode != "mc":
        p["Beta"] = r.choice([0.9, 2.0, 4.0]); p["J"] = [x * 2 for x in p["J"]]
    return {"seed": s, "cfg": cfg, "plan": D.plan(r, until, r.choice([0, 0, 0, 1]), ("crash", "sig", "slow", "jump"))}
def run(case): return D.run_lab(case, KINDS)
