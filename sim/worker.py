"""A Monte Carlo worker process: the real C++ program in a private copy of the
shared object, every seam routed to the simulator."""
import ctypes, os, shutil, sys, types, tempfile
import numpy as np
from . import pynode
from .pynode import PyEnv

LIB = [None]
SCRATCH = ["/tmp"]
_n = [0]
CB_TIME = ctypes.PYFUNCTYPE(ctypes.c_long)
CB_ENT = ctypes.PYFUNCTYPE(ctypes.c_uint)
CB_SIG = ctypes.PYFUNCTYPE(None, ctypes.c_int, ctypes.c_void_p)
CB_EXIT = ctypes.PYFUNCTYPE(None, ctypes.c_int)
CB_EV = ctypes.PYFUNCTYPE(None, ctypes.c_char_p, ctypes.c_int, ctypes.c_double)
HANDLER = ctypes.PYFUNCTYPE(None, ctypes.c_int)
class Callbacks(ctypes.Structure):
    _fields_ = [("time", CB_TIME), ("log_time", CB_TIME), ("clock", CB_TIME), ("entropy", CB_ENT),
                ("signal", CB_SIG), ("exit", CB_EXIT), ("event", CB_EV)]

class IODispatch(types.ModuleType):
    """What `import IO` finds inside the embedded interpreter of a worker."""
    def __getattr__(self, k):
        if k.startswith("__"): raise AttributeError(k)
        return getattr(pynode._cur().env._get("IO"), k)

def load_lib():
    _n[0] += 1
    p = os.path.join(SCRATCH[0], "kf%d.so" % _n[0])
    shutil.copyfile(LIB[0], p)
    lib = ctypes.PyDLL(p)
    os.unlink(p)
    lib.kf_hops.restype = lib.kf_measures.restype = lib.kf_checks.restype = ctypes.c_longlong
    for f in ("kf_violation", "kf_error", "kf_check_now"): getattr(lib, f).restype = ctypes.c_char_p
    lib.kf_path_hash.restype = ctypes.c_ulonglong
    lib.kf_state.restype = lib.kf_weights_gw.restype = ctypes.py_object
    lib.kf_shadow_ptr.restype = ctypes.c_void_p
    lib.kf_shadow_size.restype = ctypes.c_long
    lib.kf_shadow_num.restype = lib.kf_order_count.restype = lib.kf_reweight.restype = ctypes.c_double
    lib.kf_set_arrays.argtypes = [ctypes.c_int] * 4 + [ctypes.c_double] + [ctypes.c_void_p] * 3
    return lib

class Worker:
    """options: hop_cost (virtual seconds per update), check_every, shadow,
    on_event(worker, name, when, value), max_hops"""
    def __init__(self, node, infile, opt):
        self.node, self.infile, self.opt = node, infile, opt
        node.worker = self
        self.lib = load_lib()
        self.garbage = node.rng.getrandbits(8)
        self.charged = 0
        self.keep = None
        self.last_time_calls = 0
        w = node.world
        sys.modules.setdefault("IO", IODispatch("IO"))
        PyEnv(node, search=("",))
        self.hop_cost = opt.get("hop_cost", 1e-3)
        def t():
            h = self.lib.kf_hops()
            dt = (h - self.charged) * self.hop_cost
            self.charged = h
            w.wait(node, dt + 1e-6)
            f = getattr(self, "on_poll", None)
            if f: f(self)
            mh = opt.get("max_hops")
            if mh is not None and h >= mh:
                if opt.get("on_max"): opt["on_max"](self)
                node.park("exited", 0)
            return int(node.clock())
        def lt(): return int(node.clock())
        def clk(): return int((w.now - node.started_at) * 1000000)
        def ent(): return node.rng.getrandbits(32)
        self._h = []
        def sig(s, h):
            if not h: node.handlers.pop(s, None)
            elif h == 1: node.handlers[s] = "ignore"
            else:
                fn = HANDLER(h); self._h.append(fn)
                node.handlers[s] = lambda a, b, fn=fn: fn(a)
            w.log(node, "sigaction", "%d %d" % (s, self.sig_class(h)))
        self._seen_h = {}
        def ex(code):
            node.park("exited", code)
        self.in_phase = None
        def ev(name, when, val):
            name = name.decode()
            if name == "violation":
                w.violate("diagram", "%s after update %d of %s: %s" % (node.ident, val, node.name, self.lib.kf_violation().decode()))
                return
            if name == "early-measurement":
                w.violate("early-measurement", "%s measured after %d updates where %d belong before the measurement" % (node.ident, when, val))
                return
            w.log(node, "phase", "%s %d %g" % (name, when, val))
            self.in_phase = name if when == 0 else None
            f = opt.get("on_event")
            if f: f(self, name, when, val)
        def guard(fn):
            def g(*a):
                try: return fn(*a)
                except BaseException:
                    import traceback
                    w.internal = traceback.format_exc(); w.stop = True
                    node.state = "exited"
                    w.back.release()
                    import threading
                    threading.Semaphore(0).acquire()
            return g
        t, lt, clk, ent, sig, ex, ev = (guard(f) for f in (t, lt, clk, ent, sig, ex, ev))
        self.cb = Callbacks(CB_TIME(t), CB_TIME(lt), CB_TIME(clk), CB_ENT(ent), CB_SIG(sig), CB_EXIT(ex), CB_EV(ev))
        self.lib.kf_set_callbacks(ctypes.byref(self.cb))
        self.lib.kf_set_checks(opt.get("check_every", 0), 1 if opt.get("shadow") else 0)
    def sig_class(self, h):
        # stable small number instead of an address
        return self._seen_h.setdefault(h, len(self._seen_h))
    def set_arrays(self, G, WS, WD, beta, L):
        G, WS, WD = (np.ascontiguousarray(a, dtype=np.complex128) for a in (G, WS, WD))
        self.keep = (G, WS, WD)
        self.lib.kf_set_arrays(G.shape[1], L[0], L[1], G.shape[-1], beta, G.ctypes.data, WS.ctypes.data, WD.ctypes.data)
    def run(self):
        r = self.lib.kf_run(self.infile.encode(), self.garbage)
        if r >= 1000:
            self.node.error = self.lib.kf_error().decode()
            return 134            # uncaught exception: terminate()
        return r
    def state(self):
        s = self.lib.kf_state()
        if "Live" in s:
            # what the process holds, also when its own dictionary forgets to list it
            L, P = s["Live"], s["Para"]
            P["Version"] = L.pop("Version")
            P["Tau"]["Beta"] = L.pop("Beta")
            for k in ("Counter", "OrderReWeight", "OrderTimeRatio", "WormSpaceReweight", "PolarReweight"): P["Markov"][k] = L.pop(k)
        return s
    def shadow(self):
        n, m = self.lib.kf_shadow_size(0), self.lib.kf_shadow_size(1)
        def arr(what, size):
            if size == 0: return np.zeros(0, complex)
            b = (ctypes.c_double * (2 * size)).from_address(self.lib.kf_shadow_ptr(what))
            return np.array(b).view(complex).copy()
        return {"S": arr(0, n), "P": arr(1, m), "nS": self.lib.kf_shadow_num(0, 0), "nP": self.lib.kf_shadow_num(1, 0),
                "cS": self.lib.kf_shadow_num(2, 0), "cP": self.lib.kf_shadow_num(3, 0)}
    def hold(self):
        """Keep finished worker's callbacks alive (threads are parked)."""
        _KEEP.append(self)
_KEEP = []
def worker_main(infile, opt):
    def fn(node):
        w = Worker(node, infile, opt)
        w.hold()
        if opt.get("setup"): opt["setup"](w)
        return w.run()
    return fn
