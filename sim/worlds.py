"""Building blocks of simulated deployments: input files, weights, nodes."""
import pprint, copy, random, math
import numpy as np
from . import core, pynode, worker
from .pynode import PyEnv, encode_h5

def hkl_bytes(d):
    """Bytes of a hickle file holding dict d (the layout hickle.py writes)."""
    def grp(dd):
        t = {}
        for k, v in dd.items():
            if isinstance(v, dict): t[k] = grp(v); continue
            if isinstance(v, bool): a, ty = np.array([v]), "bool"
            elif isinstance(v, int): a, ty = np.array([v]), "int"
            elif isinstance(v, float): a, ty = np.array([v]), "float"
            elif isinstance(v, str): a, ty = np.array([v], dtype=object), "str"
            elif isinstance(v, np.ndarray): a, ty = v, "ndarray"
            elif isinstance(v, list): a, ty = np.array(v), "list"
            else: a, ty = np.array(v), "np_dtype"
            t[k] = a
            t["_" + k] = np.array([ty], dtype=object)
        return t
    return encode_h5({"type": np.array(["dict"], dtype=object), "data": grp(d)})
def hkl_parse(raw):
    """Independent reader of such a file; None if torn."""
    import hashlib, pickle
    if raw is None or len(raw) < 36 or raw[:4] != pynode.MAGIC or hashlib.sha256(raw[36:]).digest() != raw[4:36]: return None
    def ungrp(t):
        d = {}
        for k, v in t.items():
            if isinstance(v, dict): d[k] = ungrp(v)
            elif not k.startswith("_"):
                ty = t["_" + k][0]
                if ty in ("str", "int", "float", "bool", "unicode"): d[k] = v[0].item() if hasattr(v[0], "item") else v[0]
                elif ty == "np_dtype": d[k] = v[()]
                elif ty == "list": d[k] = list(v)
                else: d[k] = v
        return d
    return ungrp(pickle.loads(raw[36:])["data"])
def txt_parse(raw):
    if raw is None: return None
    try:
        env = {"array": np.array, "complex64": np.complex64, "nan": float("nan"), "inf": float("inf")}
        return eval(raw.decode(), env)
    except Exception: return None

def wide(r):
    """Now and then: three or more sublattices, longer and uneven lattices, odd or fine time grids, high orders."""
    if r.random() >= 0.25: return {}
    over = {"L": r.choice([[2, 2], [5, 2], [3, 5], [4, 4], [1, 4], [6, 3]]), "MaxTauBin": r.choice([3, 5, 7, 12, 16]), "Beta": r.choice([0.2, 0.7, 1.5, 3.0])}
    if r.random() < 0.4: over["NSublat"] = r.choice([2, 3, 3, 4]); over["L"] = r.choice([[2, 2], [3, 2], [1, 3]])
    if r.random() < 0.5: over["Order"] = r.choice([5, 6, 7, 9])
    return over
def phys(r, **over):
    """A small physical configuration."""
    p = {"L": r.choice([[2, 2], [2, 2], [3, 2], [2, 3], [4, 2], [3, 3]]), "NSublat": r.choice([1, 1, 1, 2]), "MaxTauBin": r.choice([4, 6, 8]),
         "Beta": r.choice([0.3, 0.5, 0.8, 1.0]), "Order": r.choice([1, 2, 3, 4])}
    p.update(over)
    return p

def basis_text(p, kind):
    n = 4
    nt = p["MaxTauBin"]
    B = [[math.cos(math.pi * (k + 0.5 * (kind == "Fermi")) * (i + 0.5) / nt) for i in range(nt)] for k in range(n)]
    return pprint.pformat({"Beta": p["Beta"], "MaxTauBin": nt, "BoseFermi": kind, "Number": n, "Basis": B}).encode()

def mc_input(p, pid, r, load=True, timers=None, markov=None, toss=None):
    n = p["Order"]
    m = {"Order": n, "Sweep": r.choice([1, 3, 10]), "Toss": r.choice([0, 10, 50]) if toss is None else toss,
         "OrderReWeight": [r.choice([1.0, 1.0, 0.4, 2.5])] + [r.choice([0.3, 1.0, 2.0]) for _ in range(n)],
         "WormSpaceReweight": r.choice([0.05, 0.3, 1.0]), "PolarReweight": r.choice([0.5, 1.0, 2.0]), "runGamma3": False,
         "GammaGReweight": 1.0, "GammaWReweight": 1.0, "OrderTimeRatio": [1.0] * (n + 1),
         "Seed": r.getrandbits(30),
         "Timer": timers or {"PrinterTimer": 30, "DiskWriterTimer": 30, "MessageTimer": 30, "ReweightTimer": 1000}}
    m.update(markov or {})
    para = {"Gamma3": False, "Tau": {"MaxTauBin": p["MaxTauBin"], "Beta": p["Beta"], "MaxTauBinTiny": p["MaxTauBin"], "BasisNum": 4},
            "Lattice": {"Name": "Square" if p["NSublat"] == 1 else "Checkerboard", "NSublat": p["NSublat"], "L": p["L"]},
            "Markov": m}
    job = {"Type": "MC", "DoesLoad": load, "Sample": 1000, "PID": pid, "WeightFile": "Weight", "MessageFile": "Message", "OutputFile": "Dyson_Output"}
    return {"Job": job, "Para": para}

def random_gw(p, r, scale=1.0, spread=0.5):
    """Generic complex G and W: smooth part positive on average so the sampler
    moves freely, no symmetry that could hide an index mistake."""
    g = np.random.RandomState(r.getrandbits(31))
    s, v, nt = p["NSublat"], p["L"][0] * p["L"][1], p["MaxTauBin"]
    def arr(shape, k):
        return k * ((1 + spread * (g.rand(*shape) - 0.5) * 2) * np.exp(1j * spread * 2 * (g.rand(*shape) - 0.5)))
    G = arr((2, s, 2, s, v, nt), 0.8 * scale)
    WS = arr((4, s, 4, s, v, nt), 0.7 * scale)
    WD = arr((4, s, 4, s, v), 0.4 * scale)
    return G, WS, WD
def gw_file(G, WS, WD, extra=None):
    d = {"G": {"SmoothT": G}, "W": {"SmoothT": WS, "DeltaT": WD}}
    if extra: d.update(extra)
    return hkl_bytes(d)
def put_basis(w, p):
    w.disk.put("/work/FermiBasis.dat.txt", basis_text(p, "Fermi"))
    w.disk.put("/work/BoseBasis.dat.txt", basis_text(p, "Bose"))
def put_input(w, inp):
    pid = inp["Job"]["PID"]
    w.disk.dirs.add("/work/infile")
    path = "/work/infile/_in_MC_%d" % pid
    w.disk.put(path + ".txt", pprint.pformat(inp).encode())
    return path
