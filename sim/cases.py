"""Seeded generators of worker-laboratory cases."""
import random
from .worlds import phys
from .lab import Lab
from . import runner

REAL = ["src/*.cpp of the worker (main loop, Markov moves, weights, estimators, diagram, parameters, Dictionary, interrupt handler, timers)",
        "dyson/IO.py (SaveDict, LoadDict, SaveBigDict, LoadBigDict), dyson/hickle.py, run in the embedded interpreter and in the publisher"]
STUB = ["disk, clock, signals, process exit, entropy source: simulated", "HDF5 library: in-memory tree with a checksum", "Python 2.7: Python 3.12 behind a source and C-API shim",
        "self-consistency process: scripted publisher using the project's writing code"]
ASSUME = ["process crashes, not power loss: what a process wrote before it died stays on disk",
          "rename within a directory is atomic", "a file read returns a prefix-consistent byte sequence of one inode"]

def timers(r, small=True):
    if small: return {"PrinterTimer": r.choice([3, 7, 10]), "DiskWriterTimer": r.choice([2, 5, 11]), "MessageTimer": r.choice([2, 3, 7]), "ReweightTimer": r.choice([4, 9, 15])}
    return {"PrinterTimer": r.choice([20, 40]), "DiskWriterTimer": r.choice([20, 50]), "MessageTimer": r.choice([20, 30]), "ReweightTimer": r.choice([30, 80])}

def pubs(r, until, kinds=("normal",), version=0):
    """a list of publications with strictly increasing versions"""
    out, t, v = [], r.uniform(1, 6), version
    if not v and r.random() < .15: v = r.choice([7, 98, 998, 70000, 3000000])     # a calculation that has gone on for long
    while t < until:
        k = r.choice(kinds)
        if k == "stale" : out.append({"at": t, "version": max(0, v - r.choice([0, 1, 3])), "squeeze": 2.0, "gw": "g%d" % len(out), "kind": "normal"})
        else:
            v += r.choice([1, 1, 1, 2, 5])
            out.append({"at": t, "version": v, "squeeze": round(1.0 + 3.0 / (v + 1.0), 12), "gw": "g%d" % len(out), "kind": k, "weights": r.random() < 0.9})
        t += r.choice([0.5, 3, 6, 12, 20])
    return out

def plan(r, names, until, n, kinds, files=("_MC_para", "_MC_statis")):
    """random fault plan; kinds: crash sig disk torn stall jump skew slow opcrash opsig"""
    out = []
    for _ in range(n):
        k = r.choice(kinds); nm = r.choice(names); t = r.uniform(0.5, until)
        if k == "crash": out.append({"t": "time", "at": t, "node": nm, "do": "crash"})
        elif k == "sig": out.append({"t": "time", "at": t, "node": nm, "do": "sig:%d" % r.choice([2, 15])})
        elif k == "jump": out.append({"t": "time", "at": t, "node": nm, "do": "jump:%s" % r.choice([-3600, -50, -7, -1, 1, 5, 60, 3600])})
        elif k == "skew": out.append({"t": "time", "at": t, "node": nm, "do": "skew:%s" % r.choice([0.9, 0.98, 1.02, 1.1])})
        elif k == "slow": out.append({"t": "time", "at": t, "node": nm, "do": "slow:%s" % r.choice([3, 10, 40]), "for": r.choice([2, 10])})
        else:
            op = r.choice(["open", "write", "close", "rename"]) if k != "torn" else "write"
            e = {"t": "op", "node": nm, "op": op, "path": r.choice(files), "n": r.choice([1, 1, 2, 2, 3, 4, 5, 6, 9])}
            if op == "rename" and r.random() < 0.5 or k == "disk" and r.random() < .3: e["op"] = "*"
            e["do"] = {"disk": r.choice(["eio", "enospc"]), "torn": "short_crash", "stall": "stall:%s" % r.choice([1, 8, 30]), "opcrash": "crash", "opsig": "sig:%d" % r.choice([2, 15])}[k]
            if k == "torn": e["frac"] = r.choice([0.0, 0.1, 0.5, 0.97])
            if k in ("opcrash", "opsig"): e["after"] = r.random() < 0.5
            out.append(e)
    return out

def read_faults(r, names, n):
    """disk errors while reading announcements and weights"""
    return [{"t": "op", "node": r.choice(names), "op": r.choice(["open_r", "read"]), "path": r.choice(["Message", "Weight.hkl"]), "n": r.choice([2, 3, 4, 5, 8, 12]), "do": "eio"} for _ in range(n)]

def run_lab(case):
    lab = Lab(case).run()
    w = lab.w
    st = {}
    for n in w.nodes:
        wk = getattr(n, "worker", None)
        if wk:
            st["checks"] = st.get("checks", 0) + wk.lib.kf_checks()
            for i, k in enumerate(("saw_worm", "saw_order0", "saw_instantaneous_W", "saw_polar_sector", "saw_gamma_sector")):
                if wk.lib.kf_stat(i): w.probe(k)
            w.probe("max_order_%d" % wk.lib.kf_stat(5))
            w.h.update(b"%d" % wk.lib.kf_path_hash())
    return runner.result(w, updates=lab.tot_hops, **st)
