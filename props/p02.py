import random, math
import numpy as np
from sim import cases, runner, lab, exact
from sim.worlds import phys
RULE = ("one seeded long sampling history of one worker (with saves, crashes, resumes, re-tuning, printing and re-announcement of the same weights); the pooled "
        "statistics are compared, projected on the exact enumeration of all skeleton diagrams, per order, time bin, spin and displacement; distinct by sampler path")
REAL, STUB = cases.REAL, cases.STUB
ASSUMPTIONS = cases.ASSUME + ["propagators local and diagonal in spin, interactions symmetric under exchange of their ends (what the models of this code produce and its moves rely on)",
                              "statistical resolution: a projection is reported only beyond 6 standard errors and 1 percent in two independent histories"]
CASES = {"quick": 32, "thorough": 400}
CAP = {"quick": 330, "thorough": 3000}
TIMEOUT = 500
MINBUDGET = 1
REDO = {"quick": 2, "thorough": 4}
PROBES = ["resume", "reannounced", "order_1_tested", "order_2_tested", "order_3_tested"]
def gen(s, tier, i):
    r = random.Random(s)
    order = (3, 2, 1, 2)[i % 4]
    p = phys(r, L=r.choice([[2, 2], [2, 3], [3, 2]] if order < 3 else [[2, 2], [2, 1]]), NSublat=r.choice([1, 1, 2]) if order < 3 else r.choice([1, 1, 1, 2]),
             MaxTauBin=r.choice([4, 5, 6]) if order < 3 else 2, Order=order)
    hops = {1: 4e7, 2: 1.4e8, 3: 2.5e8}[order] * (1 if tier == "quick" else 3)
    hc = 1e-4; until = hops * hc
    # the physical strength is set by beta*scale, keep the sign problem mild
    sc = r.choice([0.9, 1.1]) / p["Beta"] ** (2.0 / 3)
    mk = {"WormSpaceReweight": r.choice([0.02, 0.05, 0.1]), "Sweep": r.choice([3, 4, 7]), "PolarReweight": r.choice([0.5, 1.0, 2.0]),
          "OrderReWeight": [r.choice([0.5, 1.0, 1.5])] + [r.choice([0.7, 1.0, 2.0]) for _ in range(order)],
          "OrderTimeRatio": [1.0] + [r.choice([1.0, 2.0]) for _ in range(order)]}
    tm = {"PrinterTimer": max(2, int(until / 30)), "DiskWriterTimer": max(1, int(until / 70)), "MessageTimer": max(2, int(until / 17)),
          "ReweightTimer": r.choice([10 ** 6, 10 ** 6, int(until / 7)])}
    pubs = []
    for k in range(r.choice([0, 1, 3])):
        pubs.append({"at": until * r.uniform(0.05, 0.9), "version": 0, "squeeze": r.choice([1.5, 3.0]), "gw": "-", "kind": "normal", "weights": False})
    pubs.sort(key=lambda e: e["at"])
    for k, e in enumerate(pubs): e["version"] = k + 1
    cfg = {"p": p, "markov": mk, "timers": tm, "workers": 1, "until": until, "hop_cost": hc, "toss": 2000, "pubs": pubs, "local_g": True, "skeleton": True,
           "zero_wd": r.random() < .3, "spread": r.choice([0.3, 0.5]), "scale": sc, "oracles": ["P02"], "max_events": 10 ** 7}
    pl = []
    for k in range(r.choice([0, 0, 1, 3])): pl.append({"t": "time", "at": until * r.uniform(0.1, 0.9), "node": "mc0", "do": r.choice(["crash", "crash", "sig:15"])})
    return {"seed": s, "cfg": cfg, "plan": pl}
def project(p, blocks, norms, ex, zero_wd):
    """name -> (deviation of the projection from one, standard error, complex values)"""
    out, bad = {}, None
    for q, (iN, iW) in (("Sigma", (0, 2)), ("Polar", (1, 3))):
        N = np.array([b[iN] for b in blocks]); A = np.array([b[iW] for b in blocks])
        if len(N) < 20 or N.sum() <= 0: continue
        for n in range(1, p["Order"] + 1):
            E = ex[n][0 if q == "Sigma" else 1]
            a = A[:, n - 1]
            E = E.copy()
            if q == "Sigma" and n == 1 and not zero_wd: E[..., 0] = 0; a = a.copy(); a[..., 0] = 0
            imp = (np.abs(E) < 1e-12) & (np.abs(a).sum(0) > 1e-9)
            if imp.any() and bad is None: bad = "%s order %d is sampled in bin %s where no skeleton diagram contributes" % (q, n, np.argwhere(imp)[0].tolist())
            w = np.conj(E)[None]
            prod = a * w * norms[0 if q == "Sigma" else 1]
            den = np.abs(E) ** 2
            groups = [("all", tuple(range(1, prod.ndim)))]
            def test(name, num, d):
                if d <= 0: return
                num = num / d
                est = num.sum() / N.sum()
                J = (num.sum() - num) / (N.sum() - N)
                m = len(N)
                for c, v, j in (("re", est.real - 1, J.real), ("im", est.imag, J.imag)):
                    err = math.sqrt((m - 1) / m * ((j - j.mean()) ** 2).sum())
                    if err > 0: out["%s%d %s %s" % (q, n, name, c)] = (v, err)
            flat = prod.reshape(len(prod), -1)
            test("all", flat.sum(1), den.sum())
            for ax, nm in ((-1, "tau"), (-2, "r"), (1, "spin"), (3, "spin'"), (2, "sub"), (4, "sub'")):
                for k in range(prod.shape[ax]):
                    test("%s=%d" % (nm, k), np.take(prod, k, ax).reshape(len(prod), -1).sum(1), np.take(den, k, ax if ax < 0 else ax - 1).sum())
    return out, bad
def run(case):
    c = case["cfg"]
    L = lab.Lab(case).run()
    w, hops = L.w, L.tot_hops
    G = list(L.arrays.values())[0]
    zw = c.get("zero_wd")
    ex = {n: exact.evaluate(n, c["p"], *G, use_delta=not zw) for n in range(1, c["p"]["Order"] + 1)}
    if c["pubs"] and w.probes.get("listen", 0): w.probe("reannounced")
    def judge(L): return project(c["p"], L.blocks, L.norms, ex, zw)
    if not w.violations and L.norms:
        z, bad = judge(L)
        for k in z:
            if " all re" in k: w.probe("order_%s_tested" % k[5])
        w.h.update(repr(sorted(z.items())).encode())
        sus = {k for k, (v, e) in z.items() if abs(v) > 4.5 * e and abs(v) > 0.008}
        if bad: w.violate("impossible-bin", bad)
        elif sus:
            w.probe("rechecked")
            blocks = []
            for k in range(2):
                c2 = dict(c, gseed=c.get("gseed", case["seed"]))
                L2 = lab.Lab({"seed": case["seed"] + "/again%d" % k, "cfg": dict(c2), "plan": case["plan"], "i": 0}).run()
                hops += L2.tot_hops; blocks += L2.blocks
            L2.blocks = blocks
            z2, bad = judge(L2)
            both = sorted(k for k in sus if k in z2 and abs(z2[k][0]) > 6 * z2[k][1] and abs(z2[k][0]) > 0.01 and z2[k][0] * z[k][0] > 0)
            if both:
                k = max(both, key=lambda k: abs(z2[k][0]) / z2[k][1])
                w.violate("biased", "estimate of %s: projection on the exact skeleton diagrams is off by %+.4f +- %.4f (independent repetition %+.4f +- %.4f); %d projections deviate" % (k, z[k][0], z[k][1], z2[k][0], z2[k][1], len(both)))
    best = {}
    return runner.result(w, updates=hops, interleave="%s" % w.h.hexdigest())
