"""The data-file laboratory: real IO.py and hickle.py, called from Python and
from C++ (Dictionary and the language bridge), writers and readers sharing
files on the simulated disk while writes fail, tear and crash (P17)."""
import random, struct, copy, math, posixpath
import numpy as np
from . import core, pynode, worker
from .pynode import PyEnv
from .core import Py2OSError

KEYS = ["Version", "Beta", "SmoothT", "DeltaT", "G", "W", "Norm", "NormAccu", "WeightAccu", "Sigma", "Polar", "Order", "Seed", "PID", "Job", "Para", "L", "x", "KEY", "a b", "type", "data", "Estimator1"]
def name(r, used, big):
    while True:
        k = r.choice(KEYS) if r.random() < .7 else "".join(r.choice("abcXYZ_0189") for _ in range(r.randrange(1, 9)))
        if big and (k.startswith("_") or "/" in k): continue
        if k not in used: used.add(k); return k
def f64(r):
    k = r.random()
    if k < .12: return r.choice([0.0, -0.0, float("inf"), float("-inf"), float("nan"), 5e-324, 1.7976931348623157e308, 0.1, 1e22, -1e-7])
    if k < .4: return r.uniform(-2, 2)
    if k < .6: return float(r.randrange(-5, 100))
    return math.ldexp(r.uniform(-1, 1), r.randrange(-300, 300))
def string(r):
    k = r.random()
    if k < .4: return r.choice(["Weight", "Message", "J1J2", "Square", "True", "nan", "None", "1", "inf"])
    if k < .7: return "".join(r.choice("abz 'XQ\"\\#{}[]():,.\t-+*%") for _ in range(r.randrange(1, 120)))
    if k < .8: return "line\nbreak%d" % r.randrange(99)
    return "value%d" % r.randrange(10**6)
def array(r, cpl):
    shape = tuple(r.choice([1, 1, 2, 3, 4, 7]) for _ in range(r.choice([1, 1, 2, 3, 4, 6])))
    g = np.random.RandomState(r.getrandbits(31))
    a = g.standard_normal(shape) * 10.0 ** r.randrange(-12, 12)
    if cpl: a = a + 1j * g.standard_normal(shape)
    if r.random() < .2: a.flat[r.randrange(a.size)] = r.choice([np.inf, np.nan, -0.0])
    return a
SCALARS = ["i", "u", "l", "q", "U", "Q", "b", "d", "s"]
LISTS = ["vi", "vl", "vd", "vs", "vec"]
def structure(r, big, cpp, depth=0, n=None):
    """[(key, code, sub)]: fixed over the versions of a file"""
    codes = SCALARS + LISTS
    if big: codes = [c for c in codes if not (cpp and c in ("l", "q", "U", "Q"))] + ["ad", "ac"] * 4 + ["R", "vc"]
    else: codes = codes + ["c", "vc", "R"]
    if not cpp: codes = codes + (["npf", "npc", "npi", "aF", "aS", "ai", "asub"] if big else ["none", "tup", "mix", "uni", "vvd", "intkeys", "empty"])
    out, used = [], set()
    for _ in range((r.choice([1, 2, 4, 7]) if depth or r.random() < .85 else r.choice([13, 20, 40])) if n is None else n):
        k = name(r, used, big)
        c = "D" if r.random() < (.3 if depth < 3 else 0) else r.choice(codes)
        out.append((k, c, structure(r, big, cpp, depth + 1) if c == "D" else None))
    if depth == 0 and big and r.random() < .25 and "GammaWStatis" not in used: out.append(("GammaWStatis", "D", [("WeightAccu", "ac64", None), ("Norm", "d", None)]))
    if depth == 0 and big and r.random() < .2 and "WWGammaW" not in used: out.append(("WWGammaW", "D", [("SmoothT", "ac", None)]))
    return out
def fill(r, st, big):
    """values for one version"""
    out = []
    for k, c, sub in st:
        v = None
        if c == "D": v = fill(r, sub, big)
        elif c == "i": v = r.choice([0, -1, 1, 2**31 - 1, -2**31, r.randrange(-10**6, 10**6)])
        elif c == "u": v = r.choice([0, 2**32 - 1, r.randrange(2**32)])
        elif c in ("l", "q"): v = r.choice([0, 2**63 - 1, -2**63, r.randrange(-2**62, 2**62)])
        elif c in ("U", "Q"): v = r.choice([0, 2**63, 2**64 - 1, r.randrange(2**64)])
        elif c == "b": v = r.random() < .5
        elif c == "d": v = f64(r)
        elif c == "s": v = string(r)
        elif c == "c": v = complex(r.uniform(-1, 1), r.uniform(-1, 1))
        elif c == "vi": v = [r.randrange(-2**31, 2**31) for _ in range(r.randrange(1, 6))]
        elif c == "vl": v = [r.randrange(-2**62, 2**62) for _ in range(r.randrange(1, 6))]
        elif c == "vec": v = [r.randrange(0, 64) for _ in range(2)]
        elif c == "vd": v = [f64(r) for _ in range(r.randrange(1, 6))]
        elif c == "vs": v = [string(r) for _ in range(r.randrange(1, 4))]
        elif c == "vc": v = [complex(r.uniform(-9, 9), r.uniform(-1, 1)) for _ in range(r.randrange(1, 5))]
        elif c == "vvd": v = [[f64(r) for _ in range(3)] for _ in range(r.randrange(1, 40))]
        elif c == "ad": v = array(r, False)
        elif c in ("ac", "ac64"):
            v = array(r, True)
            if c == "ac64": v = np.nan_to_num(v, posinf=1, neginf=1).astype(np.complex64).astype(complex)
        elif c == "R": v = rng_state(r)
        elif c == "npf": v = np.float64(f64(r))
        elif c == "npc": v = np.complex128(complex(r.uniform(-1, 1), r.uniform(-1, 1)))
        elif c == "npi": v = np.int64(r.randrange(-2**62, 2**62))
        elif c == "aF": v = np.asfortranarray(array(r, True))
        elif c == "aS": v = array(r, True).T[..., ::-1]
        elif c == "asub": v = array(r, True).real
        elif c == "ai": v = np.array([r.randrange(-2**40, 2**40) for _ in range(r.randrange(1, 9))])
        elif c == "none": v = None
        elif c == "tup": v = (r.randrange(9), f64(r), string(r), (True,))
        elif c == "mix": v = [r.randrange(9), f64(r), string(r), None, [True, {"a": (1, 2)}], complex(1, r.random())]
        elif c == "uni": v = r.choice(["\u03a3", "\u00e9t\u00e9", "G\u2192W"])
        elif c == "intkeys": v = {i: f64(r) for i in range(-2, r.randrange(1, 30))}
        elif c == "empty": v = r.choice([{}, [], "", ()])
        out.append((k, c, v))
    return out
def to_py(spec): return {k: (to_py(v) if c == "D" else copy.copy(v)) for k, c, v in spec}
def to_c(spec):
    out = []
    for k, c, v in spec:
        if c == "D": v = to_c(v)
        elif c in ("ad", "ac", "ac64"):
            v = (list(v.shape), np.ascontiguousarray(v).tobytes()); c = c[:2]
        out.append((k, c, v))
    return out
CPP = {"D", "i", "u", "l", "q", "U", "Q", "b", "d", "s", "c", "vi", "vl", "vd", "vs", "vc", "vvd", "vec", "ad", "ac", "ac64", "R", "aF", "aS", "asub", "npf", "npc"}
def spec_c(spec):
    """what the C++ reader asks for: only entries whose type it has"""
    out = []
    for k, c, v in spec:
        if c == "D": out.append((k, "D", spec_c(v)))
        elif c in ("aF", "aS", "ac64"): out.append((k, "ac" if v.dtype.kind == "c" else "ad", None))
        elif c == "asub": out.append((k, "ad", None))
        elif c == "npf": out.append((k, "d", None))
        elif c == "npc": out.append((k, "c", None))
        else: out.append((k, c if c in CPP else "P", None))
    return out
def bits(x): return struct.pack(">d", x) if x == x else b"nan"
def same(a, b, strict=True):
    """strict: type identity; inside lists of a binary file numpy scalars stand
    for the Python types"""
    if isinstance(a, dict): return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k], strict) for k in a)
    if isinstance(a, np.ndarray):
        if not isinstance(b, np.ndarray) or a.dtype != b.dtype or a.shape != b.shape: return False
        x, y = np.ascontiguousarray(a), np.ascontiguousarray(b)
        if x.dtype.kind in "fc":
            x, y = x.view(np.float64), y.view(np.float64)
            n = np.isnan(x)
            return bool(np.array_equal(n, np.isnan(y)) and x[~n].tobytes() == y[~n].tobytes())
        return x.tobytes() == y.tobytes()
    if isinstance(a, (list, tuple)): return type(a) is type(b) and len(a) == len(b) and all(same(x, y, False) for x, y in zip(a, b))
    if a is None: return b is None
    if isinstance(a, (bool, np.bool_)): return isinstance(b, (bool, np.bool_)) and bool(a) == bool(b)
    if isinstance(a, (int, np.integer)): return isinstance(b, (int, np.integer)) and not isinstance(b, bool) and int(a) == int(b)
    if isinstance(a, (float, np.floating)): return isinstance(b, (float, np.floating)) and bits(float(a)) == bits(float(b))
    if isinstance(a, (complex, np.complexfloating)): return isinstance(b, (complex, np.complexfloating)) and bits(a.real) == bits(b.real) and bits(a.imag) == bits(b.imag)
    return isinstance(b, str) and str(a) == str(b)
def same_c(spec, got):
    if len(got) != len(spec): return False
    for (k, c, v), (k2, c2, g) in zip(spec, got):
        if k != k2: return False
        if c == "D":
            if not same_c(v, g): return False
        elif c2 == "P": pass
        elif c2 in ("ad", "ac"):
            dt = np.complex128 if c2 == "ac" else np.float64
            if g[0] != list(v.shape): return False
            if not same(np.ascontiguousarray(v), np.frombuffer(g[1], dt).reshape(v.shape)): return False
        elif not same(v, g): return False
    return True
def rng_state(r):
    """text form of a state of the project's random generator (mt19937: 624 words and the position)"""
    q = random.Random(r.getrandbits(30))
    for _ in range(r.choice([0, 1, 7, 1000])): q.getrandbits(32)
    return " ".join(str(x) for x in q.getstate()[1])

class File:
    """history of one file"""
    def __init__(self, lab, i, cfg):
        self.lab, self.i, self.cfg = lab, i, cfg
        r = random.Random("%s/file%d" % (lab.case["seed"], i))
        self.st = structure(r, cfg["big"], cfg["lang"] == "c++")
        # a file only Python uses may lose and gain entries from one version to the next
        pick = lambda: [e for e in self.st if r.random() < .7] if cfg.get("vary") else self.st
        self.versions = [fill(r, pick(), cfg["big"]) for _ in range(cfg["n"])]
        self.next = 0
        self.begun, self.ended, self.ok = {}, {}, {}
        self.seen = -1            # newest version a finished read returned
    def full(self): return posixpath.normpath(posixpath.join("/work", self.cfg["path"] + (self.ext if not self.cfg["path"].endswith(self.ext) else "")))
    @property
    def ext(self): return ".hkl" if self.cfg["big"] else ".txt"
    def done_before(self, t): return max([v for v in self.ok if self.ok[v] and self.ended[v] <= t], default=-1)
    def overlapped(self, t0, t1): return any(b <= t1 and self.ended.get(v, 1e99) >= t0 for v, b in self.begun.items())

class IOLab:
    def __init__(self, case):
        self.case, self.cfg = case, case["cfg"]
        w = self.w = core.World(case["seed"], case.get("plan", ()), {"latency": self.cfg.get("latency", 0.01)})
        pynode.WORLD = w
        w.disk.dirs |= {"/work/infile", "/work/data", "/work/my data", "/work/data.old"}
        self.hit = {}             # node ident -> times of faults of its own
        w.on_fault = lambda node, p: self.mark(node)
        w.on_signal = lambda node, s: self.mark(node)
        w.on_end.append(self.on_end)
        self.reads = 0
        w.cfg_hooks = {"cut": self.cut}
        self.cutset = set()
        self.files = [File(self, i, f) for i, f in enumerate(self.cfg["files"])]
        for f in self.files: self.spawn_writer(f)
        for i, rd in enumerate(self.cfg["readers"]):
            w.spawn("reader%d" % i, "py" if rd["lang"] == "py" else "c++", lambda n, rd=rd: self.reader(n, rd), delay=rd["delay"])
    def mark(self, node): self.hit.setdefault(node.ident, []).append(self.w.now)
    def spawn_writer(self, f, delay=0.2):
        self.w.spawn("writer%d" % f.i, "py" if f.cfg["lang"] == "py" else "c++", lambda n: self.writer(n, f), delay=delay)
    def on_end(self, n):
        if not n.name.startswith("writer"): return
        f = self.files[int(n.name[6:])]
        v = n.data.get("saving")
        if v is not None: f.ended[v] = self.w.now; f.ok[v] = False; self.w.probe("crash_in_save")
        if n.error: self.w.violate("writer-error", n.error[-800:])
        if f.next < len(f.versions) and n.state == "killed": self.spawn_writer(f, 0.5)
    # ------------------------------------------------------------ language ends
    def open_lang(self, node, lang):
        if lang == "py":
            IO = PyEnv(node, search=("",))._get("IO")
            return None, IO
        W = worker.Worker(node, None, {})
        W.hold()
        W.lib.kf_io_load.restype = __import__("ctypes").py_object
        W.lib.kf_io_init()
        return W.lib, None
    def save(self, ends, f, spec, node):
        """True if the program was told that the content is saved"""
        lib, IO = ends
        path = f.cfg["path"]
        if lib is None:
            d = to_py(spec); before = to_py(spec)
            try:
                if f.cfg["big"]: IO.SaveBigDict(path, d)
                else: IO.SaveDict(path, "w", d)
            except (IOError, Py2OSError, KeyboardInterrupt) as e: return False
            finally:
                if not same(before, d): self.w.violate("caller-changed", "saving changed the caller's dictionary: %s" % self.diff(before, d))
            return True
        import ctypes
        rc = lib.kf_io_save(path.encode(), 1 if f.cfg["big"] else 0, ctypes.py_object(to_c(spec)))
        if rc == 2 and not self.own(node, node.data["t0"], self.w.now): self.w.violate("save-refused", "%s of %s failed: %s" % (f.ext, spec_c(spec), lib.kf_error().decode()[-600:]))
        return rc == 0
    def own(self, node, t0, t1): return any(t0 <= t <= t1 for t in self.hit.get(node.ident, ()))
    def writer(self, node, f):
        w = self.w
        ends = self.open_lang(node, f.cfg["lang"])
        r = random.Random("%s/writer%d/%d" % (self.case["seed"], f.i, node.inc))
        while f.next < len(f.versions):
            try: w.wait(node, r.choice([0.02, 0.1, 0.5, 2.0]))
            except KeyboardInterrupt: pass
            v = f.next; f.next += 1
            node.data["saving"] = v; node.data["t0"] = w.now
            f.begun[v] = w.now
            w.log(node, "save", "%d" % v)
            try: ok = self.save(ends, f, f.versions[v], node)
            except Exception as e:
                ok = False
                w.violate("save-refused", "%s raised %r for %s" % (f.ext, e, spec_c(f.versions[v])))
            else:
                if not ok and not self.own(node, node.data["t0"], w.now): w.violate("save-refused", "%s could not be written although nothing was wrong with the disk" % f.ext)
            node.data["saving"] = None
            f.ended[v] = w.now; f.ok[v] = ok
            w.log(node, "saved", "%d %s" % (v, ok))
            if not ok: w.probe("save_failed")
            else: self.cutset.discard(f.i)
    def load(self, ends, f, path, big):
        lib, IO = ends
        if lib is None:
            try: return "ok", (IO.LoadBigDict if big else IO.LoadDict)(path)
            except IOError as e: return "io", repr(e)
            except KeyboardInterrupt: return "int", ""
            except Exception as e: return "bad", repr(e)
        import ctypes
        st = lib.kf_io_load(path.encode(), 1 if big else 0, ctypes.py_object(spec_c(f.versions[0])))
        return ("ok", "io", "bad")[st[0]], st[1]
    def reader(self, node, rd):
        w = self.w
        f = self.files[rd["file"]]
        ends = self.open_lang(node, rd["lang"])
        r = random.Random("%s/%s/%d" % (self.case["seed"], node.name, node.inc))
        for _ in range(rd["n"]):
            try: w.wait(node, r.choice([0.0, 0.02, 0.1, 0.5, 2.0]))
            except KeyboardInterrupt: continue
            self.read_once(node, rd["lang"], f, ends)
    def read_once(self, node, lang, f, ends):
        w = self.w
        t0, seen, lo, cut0 = w.now, f.seen, f.done_before(w.now), f.i in self.cutset
        try: st, val = self.load(ends, f, f.cfg["path"], f.cfg["big"])
        except KeyboardInterrupt: return
        self.reads += 1
        who = "%s reader of %s" % (lang, posixpath.basename(f.full()))
        if st == "int": return
        own = self.own(node, t0, w.now)
        cut = cut0 or f.i in self.cutset
        if st == "io":
            w.probe("read_error")
            if cut: w.probe("damaged_refused"); return
            if own or lo < 0 or f.overlapped(t0, w.now): return
            w.violate("lost", "%s: version %d was saved and no write was in progress, but: %s" % (who, lo, val)); return
        if st == "bad":
            if own: return
            w.violate("wrong-error", "%s: neither content nor an input/output error: %s" % (who, val)); return
        hit = [v for v in range(len(f.versions)) if v in f.begun and (same(to_py(f.versions[v]), val) if lang == "py" else same_c(f.versions[v], val))]
        if not hit:
            if cut: w.violate("damaged-accepted", "%s: a damaged file was accepted" % who); return
            d = self.diff(to_py(f.versions[max(lo, 0)]), val) if lang == "py" else repr(val)[:600]
            w.violate("altered", "%s: content which nobody wrote; against version %d: %s" % (who, lo, d)); return
        # equal contents: the most favourable version
        v = min([x for x in hit if x >= max(lo, seen)], default=max(hit))
        w.probe("read_%s_%s_%s" % (f.cfg["lang"], lang, f.ext[1:]))
        if v < max(lo, seen) and not cut: w.violate("went-back", "%s: version %d although version %d was already saved or read" % (who, v, max(lo, seen)))
        if v > lo and not f.ok.get(v, True): w.probe("failed_save_visible")
        f.seen = max(f.seen, v)
    def diff(self, a, b, path=""):
        if isinstance(a, dict) and isinstance(b, dict):
            for k in list(a) + [k for k in b if k not in a]:
                if k not in a or k not in b: return "%s/%s only on one side" % (path, k)
                if not same(a[k], b[k]): return self.diff(a[k], b[k], path + "/" + str(k))
        return "%s: %s %s versus %s %s" % (path, type(a).__name__, repr(a)[:200], type(b).__name__, repr(b)[:200])
    def cut(self, p):
        """the tail of the file is lost (truncated by a full disk, a bad copy)"""
        f = self.files[p["file"]]
        i = self.w.disk.files.get(f.full())
        if i is None or len(i.data) < 2: return
        i.data = i.data[:int((len(i.data) - 1) * p["frac"])]
        self.cutset.add(f.i)
        self.w.log(None, "cut")
    # -------------------------------------------------------------------- run
    def run(self):
        w = self.w
        w.run(self.cfg["until"])
        if not w.violations:
            # afterwards, without faults, in both languages
            w.faults_enabled = False
            for lang in ("py", "c++"):
                for f in self.files:
                    if f.begun and not (f.cfg.get("vary") and lang == "c++"): w.spawn("final%d%s" % (f.i, lang), "py" if lang == "py" else "c++", lambda n, f=f, lang=lang: self.read_once(n, lang, f, self.open_lang(n, lang)))
            w.stop = False
            w.run(w.now + 100)
            for n in w.nodes:
                if n.error: w.violate("node-error", n.error[-800:])
        for f in self.files: w.h.update(repr((sorted(f.ok.items()), f.seen)).encode())
        return self

REAL = ["IO.py and hickle.py", "C++: Dictionary, pyglue (type_cast, object, pywrapper, pyarraywrapper), complex, vector, rng serialisation"]
STUB = ["h5py: a stand-in with the same create/get interface writing one checksummed blob", "disk, clock, signals: simulated", "Python 2.7: Python 3.12 behind a source shim; the embedding C API behind a header shim"]
ASSUME = ["HDF5 detects a truncated file", "a file has one writer", "process crashes, not power loss: what was written or renamed before a crash stays"]
def run_lab(case):
    from . import runner
    lab = IOLab(case).run()
    w = lab.w
    return runner.result(w, updates=lab.reads, nontrivial=lab.reads > 0)
