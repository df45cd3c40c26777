import random
from sim import dcases as D
RULE = "one seeded set (or history) of statistics files, some torn, corrupt, incompatible, vanishing or temporary, collected by the real collecting code (--collect mode, and versions of a running self-consistency process) and by a reference working on the same bytes; distinct by event log"
REAL, STUB, ASSUMPTIONS = D.REAL, D.STUB, D.ASSUME
CASES = {"quick": 900, "thorough": 20000}
PROBES = ["collected", "attempt_ok", "success_despite_bad_file", "collect_unreadable", "collect_none", "collect_norm", "collect_order0", "versions_compared", "collected_gamma"]
KINDS = {"collect-temp", "collect-skipped", "refused", "accepted-bad", "published-collect", "collect-merged-Sigma", "collect-merged-Polar", "collect-merged-GammaGStatis", "collect-merged-GammaWStatis"}
def gen(s, tier, i):
    r = random.Random(s)
    p = D.phys(r)
    mode = r.choice(["collect", "collect", "collect", "mc"])
    sleep = 10
    until = 40 if mode == "collect" else r.choice([30, 60])
    st = D.stats(r, 1 if mode == "collect" else until, sleep, bad=r.choice([0, .1, .25, .5]), workers=r.choice([1, 2, 3, 4, 4, 5, 7, 8, 9, 12]), hot=0.0, zero=.1)
    if mode == "collect":
        for e in st: e["at"] = 0.1
        for e in list(st):       # files also change while they are being read
            if r.random() < .15: st.append(dict(e, at=round(r.uniform(.5, 1.2), 3), seed=r.getrandbits(30), kind=r.choice(["good", "torn", "remove", "shape"])))
    gamma = mode == "collect" and random.Random(str(s) + "/gamma").random() < .4
    if gamma and r.random() < .15:
        z = r.choice(["GammaGStatis", "GammaWStatis", "both"])
        for e in st: e["gzero"] = z
    if r.random() < .04: st = [e for e in st if e.get("name")]
    cfg = {"p": p, "mode": mode, "until": until, "sleep": sleep, "seedw": True, "version0": r.choice([0, 3, 30, 30, 98, 1500]), "threshold": r.choice([0.0, 0.01, 0.05, 0.5]),
           "order_acc": {"Sigma": r.choice([0, 1, 1, 2]), "Polar": r.choice([0, 1, 1, 2])}, "stat": st}
    if gamma: cfg["gamma"] = True
    pl = []
    if r.random() < .2: pl = [{"t": "op", "node": "dyson", "op": r.choice(["open_r", "read"]), "path": "_statis", "n": r.randrange(1, 6), "do": "eio"}]
    return {"seed": s, "cfg": cfg, "plan": pl}
def run(case): return D.run_lab(case, KINDS)
