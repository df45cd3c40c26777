import random
from sim import dcases as D
RULE = "one seeded history of the real self-consistency process (fresh, analytic or sampled; lattices, models, fields, crashes and restarts) next to a reference model of the Dyson equations and running averages written from explicit sums; every published file is compared; distinct by event log"
REAL, STUB, ASSUMPTIONS = D.REAL, D.STUB, D.ASSUME
CASES = {"quick": 420, "thorough": 8000}
PROBES = ["versions_compared", "analytic_ok", "attempt_ok", "compared_after_restart", "compared_after_failure", "observables_compared", "field_compared"]
KINDS = {"mismatch", "mismatch-after-failure", "observable", "published-field", "published-uncollected"}
def gen(s, tier, i):
    r = random.Random(s)
    p = D.phys(r, D.LATS)
    sleep = r.choice([5, 10])
    mode = r.choice(["mc", "mc", "mc", "new", "new", "dysononly"])
    until = sleep * r.choice([4, 7]) if mode == "mc" else r.choice([1.5, 2.5, 4])
    st = D.stats(r, until, sleep, bad=.1, hot=.1, workers=r.choice([1, 2, 3])) if mode == "mc" else []
    cfg = {"p": p, "mode": mode, "until": until, "sleep": sleep, "seedw": mode != "new", "version0": r.choice([0, 3, 30, 30, 98, 1500]), "threshold": r.choice([.01, .05, .5]), "stat": st,
           "restart_delay": r.choice([0.5, 2]), "order_acc": {"Sigma": r.choice([1, 1, 2]), "Polar": r.choice([1, 1, 2])}}
    return {"seed": s, "cfg": cfg, "plan": D.plan(r, until, r.choice([0, 0, 1, 2]), ("crash", "opcrash", "torn", "sig", "disk"))}
def run(case): return D.run_lab(case, KINDS)
