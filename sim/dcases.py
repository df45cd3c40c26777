"""Seeded generators for the self-consistency laboratory."""
import random
from . import runner, dysonlab
REAL = ["dyson/main.py, collect.py, calculator.py, weight.py, model.py, lattice.py, measure.py, parameter.py, logger.py, solver/lu_slow.py, gamma3_calc.SymmetryMapping, IO.py, hickle.py"]
STUB = ["workers: scripted writers of statistics files", "disk, clock, sleep, signals, ps, logging: simulated", "HDF5 library: in-memory tree with a checksum",
        "plotting: no-op", "Python 2.7 and its numpy: Python 3.12 behind a source shim", "the compiled LU solver is not used (lu_slow is)"]
ASSUME = ["process crashes, not power loss: what a process wrote before it died stays on disk", "rename within a directory is atomic",
          "numerical comparison to 1e-8 relative times the condition number of the solved systems; versions whose stability test hinges on rounding are not judged"]
LATS = [("Square", [2, 2], "Heisenberg"), ("Square", [2, 2], "J1J2"), ("Square", [3, 2], "J1J2"), ("Square", [4, 2], "Heisenberg"), ("Checkerboard", [2, 2], "J1J2"), ("Checkerboard", [3, 2], "J1J2"),
        ("Honeycomb", [2, 2], "J1J2"), ("Honeycomb", [3, 2], "Heisenberg"), ("Triangular", [3, 3], "J1J2"), ("Triangular", [3, 4], "J1J2"), ("Chain", [4], "J1J2"), ("Chain", [5], "J1J2"), ("Kagome", [2, 2], "Heisenberg"), ("Kagome", [2, 2], "J1J2"), ("Kagome", [3, 2], "J1J2"), ("Pyrochlore", [2, 2, 2], "J1J2"), ("Pyrochlore", [1, 2, 2], "Heisenberg"),
        ("Honeycomb", [3, 3], "J1J2"), ("Checkerboard", [2, 4], "J1J2"), ("Square", [5, 3], "J1J2"), ("Chain", [7], "Heisenberg"),
        ("Cubic", [2, 2, 2], "Heisenberg"), ("Cubic", [2, 3, 2], "Heisenberg"), ("3DCheckerboard", [2, 2, 2], "J1J2"), ("Square", [3, 3], "Hubbard"), ("Square", [2, 3], "Hubbard"),
        ("Honeycomb", [2, 2], "Hubbard"), ("Honeycomb", [3, 2], "Hubbard"), ("Honeycomb", [2, 3], "Haldane"), ("Pyrochlore", [3, 3, 3], "J1J2"), ("Kagome", [3, 3], "J1J2"), ("3DCheckerboard", [3, 3, 3], "J1J2"), ("Cubic", [3, 3, 3], "Heisenberg"),
        ("Checkerboard", [3, 3], "J1J2"), ("Square", [4, 4], "J1J2"), ("Triangular", [4, 4], "J1J2"), ("Honeycomb", [2, 2], "Haldane")]
LIGHT = [x for x in LATS if x[0] in ("Square", "Chain", "Checkerboard")]
def phys(r, lats=LIGHT):
    lat, L, m = r.choice(lats)
    J2 = 0.0 if lat == "Cubic" or m == "Heisenberg" else r.choice([0.0, 0.3, -0.4])
    J3 = r.choice([0.0, 0.25, -0.3]) if lat in ("Kagome", "Pyrochlore") else 0.0
    f = lambda k: [round(r.uniform(-k, k), 3) for _ in range(4)]
    p = {"Lattice": lat, "L": L, "Model": m, "MaxTauBin": r.choice([8, 10, 12]), "Beta": r.choice([0.3, 0.5, 0.9]), "J": [r.choice([1.0, 0.7, -0.8]), J2, J3, 0.0],
         "Field": r.choice([[0.0] * 4, f(.3)]), "U": 0.0, "Hopping": [1.0, r.choice([0.0, 0.3]), 0.0, 0.0], "Mu": [r.choice([0.0, 0.4]), 0.0, 0.0, 0.0]}
    if r.random() < .4 and m not in ("Hubbard", "Haldane"):
        n = r.choice([2, 3, 5]); s = r.choice([0.1, 0.5, 0.25])
        p["Delta"] = [-s * n, s * n, s, 0.0]; p["Interval"] = [s, -s, -s / 2, 0.0]
    else: p["Interval"] = r.choice([[0.0] * 4, [0.1, 0.1, 0.1, 0.1]])
    if m == "Haldane": p["V"] = r.choice([0.5, 0.8, -0.6])
    if m not in ("Hubbard", "Haldane") and r.random() < .15: p["Description"] = ["ImW"]
    return p
BAD = ["torn", "torn", "flip", "empty", "shape", "orders", "norm", "nan", "missing", "nokey", "remove"]
def stats(r, until, sleep, bad=.3, workers=None, hot=.0, zero=.05):
    """the statistics files of a campaign: every worker rewrites its own now and then"""
    n = workers or r.choice([1, 2, 3, 4, 5, 8])
    pid0 = r.choice([0, 0, 0, 0, 8, 97, 4321])
    orders = r.choice([1, 2, 3, 3])
    out, i = [], 0
    noise = r.choice([0.01, 0.05, 0.1])
    blank = r.choice([.5 * until, 2 * until]) if r.random() < .06 else -1    # nothing but order zero is sampled until then
    t = 0.0
    while t < until:
        hotnow = r.random() < hot
        zeronow = r.random() < zero
        badnow = r.choice([0.0, bad, bad, 0.8]) if bad else 0.0
        for pid in range(pid0, pid0 + n):
            if t > 0 and r.random() < .3 and not hotnow: continue
            i += 1
            e = {"at": round(t + r.uniform(0, .8 * sleep), 3) if t else 0.1, "pid": pid, "seed": r.getrandbits(30), "orders": orders, "noise": noise}
            if hotnow:
                e["amp"] = r.choice([-60.0, 40.0, -20.0, 80.0, 300.0]); e["at"] = round(t + .01, 3)
                if r.random() < .7: e["hot"] = r.choice(["Sigma", "Polar"])
                if "hot" in e: hh = e["hot"]
            if r.random() < badnow:
                e["kind"] = r.choice(BAD)
                if e["kind"] == "torn": e["frac"] = r.choice([0.01, 0.3, 0.9, 0.999])
                if e["kind"] == "flip": e["frac"] = r.random() * .99
            if zeronow: e["zero_norm"] = r.choice(["Sigma", "Polar", "both"]); e["zn"] = r.choice([0.0, 1e-5])
            if r.random() < .1 and orders > 1: e["dead"] = [r.randrange(1, orders)]
            if t < blank: e["dead"] = list(range(orders))
            out.append(e)
            if r.random() < .1:
                i += 1
                out.append(dict(e, at=e["at"], name=r.choice(["_%d_MC_statis.hkl" % pid, "_9_MC_statis.hkl", "statis_total.hkl", "%d_MC_para.hkl" % pid]), kind=r.choice(["good", "torn"]), seed=r.getrandbits(30)))
            if r.random() < .05: out.append(dict(e, name="%d_MC_statis_old.hkl" % pid, kind="good", seed=r.getrandbits(30)))
            if r.random() < .05: out.append(dict(e, name=r.choice(["%d_MC_statis", "%d_statis_backup", "old_MC_statis%d.hkl"]) % pid, kind="dir"))
            if r.random() < .05: out.append(dict(e, name=r.choice(["%d_MC_statis", "%d_MC_statis.txt", "%d_statis.hkl.bak", "log_statis%d"]) % pid, kind="good"))
        t += sleep * r.choice([.7, 1, 1, 2])
    return out
FILES = ["Weight.hkl", "0_DYSON_para", "Message", "Dyson_Output", "_statis"]
def plan(r, until, n, kinds=("crash", "opcrash", "disk", "torn", "sig", "opsig", "stall", "jump", "slow")):
    out = []
    for _ in range(n):
        k = r.choice(kinds)
        if k == "crash": out.append({"t": "time", "at": round(r.uniform(.6, until), 3), "node": "dyson", "do": "crash"})
        elif k == "sig": out.append({"t": "time", "at": round(r.uniform(.6, until), 3), "node": "dyson", "do": "sig:%d" % r.choice([2, 15])})
        elif k == "jump": out.append({"t": "time", "at": round(r.uniform(.6, until), 3), "node": "dyson", "do": "jump:%s" % r.choice([-3600, 60, 3600])})
        elif k == "slow": out.append({"t": "time", "at": round(r.uniform(.6, until), 3), "node": "dyson", "do": "slow:%s" % r.choice([3, 20]), "for": 10})
        else:
            f = r.choice(FILES)
            op = "write" if k == "torn" else r.choice(["open", "write", "close", "rename"])
            if k == "disk" and r.random() < .25: op = r.choice(["open_r", "read"]); f = r.choice(["_statis", "_statis", "Weight.hkl", "0_DYSON_para"])
            e = {"t": "op", "node": "dyson", "op": op, "path": f, "n": r.choice([1, 1, 2, 2, 3, 4, 6, 9])}
            if op == "rename" and r.random() < .3: e["op"] = "*"
            e["do"] = {"disk": r.choice(["eio", "enospc"]) if op not in ("open_r", "read") else "eio", "torn": "short_crash", "stall": "stall:%s" % r.choice([1, 8, 30]), "opcrash": "crash", "opsig": "sig:%d" % r.choice([2, 15])}[k]
            if k == "torn": e["frac"] = r.choice([0.0, 0.1, 0.5, 0.97])
            if k in ("opcrash", "opsig"): e["after"] = r.random() < .5
            out.append(e)
    return out
def run_lab(case, kinds):
    lab = dysonlab.DysonLab(case).run()
    w = lab.w
    w.violations = [v for v in w.violations if v["kind"] in kinds]
    return runner.result(w, updates=lab.published, nontrivial=lab.published > 0 or case["cfg"]["mode"] == "collect")
