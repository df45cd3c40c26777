import random
from sim import iolab as I
RULE = "one seeded run of writers and readers in both languages over shared data files: nested contents and types, write and read faults, crashes at every operation, damaged files; distinct by event log"
REAL, STUB, ASSUMPTIONS = I.REAL, I.STUB, I.ASSUME
CASES = {"quick": 3500, "thorough": 60000}
PROBES = ["read_py_py_txt", "read_py_c++_txt", "read_c++_py_txt", "read_c++_c++_txt", "read_py_py_hkl", "read_py_c++_hkl", "read_c++_py_hkl", "read_c++_c++_hkl", "save_failed", "crash_in_save", "read_error", "damaged_refused"]
PATHS = ["Weight", "0_MC_para", "./12_MC_statis", "data/Dyson_Output", "/work/infile/_in_MC_0", "Message", "run0.5", "data/L4.B0.5_para", "a", "my data/Weight 1", "data.old/J-1.0"]
def gen(s, tier, i):
    r = random.Random(s)
    fs = []
    for _ in range(r.choice([1, 1, 2])):
        big = r.random() < .5
        p = r.choice([x for x in PATHS if x not in [f["path"].replace(".hkl", "").replace(".txt", "") for f in fs]])
        if r.random() < .3: p += ".hkl" if big else ".txt"
        fs.append({"lang": r.choice(["py", "c++"]), "big": big, "path": p, "n": r.choice([1, 2, 4, 8])})
    if len(fs) == 2 and r.random() < .4:
        # same stem, other format
        fs[1]["path"], fs[1]["big"] = fs[0]["path"].replace(".hkl", "").replace(".txt", ""), not fs[0]["big"]
    rd = [{"lang": r.choice(["py", "c++"]), "file": r.randrange(len(fs)), "delay": r.choice([0.1, 0.5, 2.0]), "n": r.choice([3, 10])} for _ in range(r.choice([0, 1, 2, 3]))]
    for j, f in enumerate(fs):
        if f["lang"] == "py" and r.random() < .5 and all(x["lang"] == "py" for x in rd if x["file"] == j): f["vary"] = True
    pl = []
    for _ in range(r.choice([0, 0, 1, 2, 3, 5])):
        k = r.random()
        if k < .7:
            wi = r.randrange(len(fs))
            py = fs[wi]["lang"] == "py"
            op = r.choice(["open", "write", "write", "write", "close", "rename", "remove", "stat", "*", "*"])
            do = r.choice(["crash", "crash", "eio", "enospc", "short_crash", "stall:3"] + (["sig:2"] if py else []))
            pl.append({"t": "op", "node": "writer%d" % wi, "op": op, "n": r.choice([1, 1, 2, 3, 5, 8, 13]), "do": do, "frac": round(r.random(), 2), "after": r.random() < .5})
        elif k < .85 and rd: pl.append({"t": "op", "node": "reader%d" % r.randrange(len(rd)), "op": r.choice(["open_r", "read", "*"]), "n": r.randrange(1, 6), "do": r.choice(["eio", "stall:3", "crash"])})
        elif k < .95: pl.append({"t": "time", "at": round(r.uniform(.3, 8), 3), "do": "call:cut", "file": r.randrange(len(fs)), "frac": round(r.random(), 3)})
        else: pl.append({"t": "time", "at": round(r.uniform(.3, 8), 3), "node": "writer0", "do": "crash"})
    return {"seed": s, "cfg": {"files": fs, "readers": rd, "until": 60, "latency": r.choice([0.001, 0.01, 0.1])}, "plan": pl}
def run(case): return I.run_lab(case)
