"""Per-node Python environment: the project's own Python 2 modules in a private
module table, with the outside world (files, clock, signals, processes,
randomness, logging) replaced by the simulator."""
import types, posixpath, builtins, pickle, hashlib, errno, io, os as _os, sys as _sys, random as _random
import argparse as _argparse
import numpy as np
from . import py2
from .core import Py2OSError

REPO = _os.environ.get("KF_REPO", "/repo")
WORK = "/work"
PROJECT = {}
def _scan():
    for d, pre in (("", ""), ("dyson", ""), ("dyson/solver", "solver.")):
        full = _os.path.join(REPO, d)
        for f in sorted(_os.listdir(full)):
            if f.endswith(".py"):
                PROJECT.setdefault(d, {})[f[:-3]] = _os.path.join(full, f)
_scan()

# ------------------------------------------------------------------ h5py stub
MAGIC = b"KFH5"
class Dataset:
    def __init__(self, arr): self._a = arr
    @property
    def value(self): return self._a[()] if self._a.dtype != object or self._a.ndim else self._a.item()
    def __getitem__(self, k):
        if self._a.ndim == 0 and isinstance(k, slice): raise ValueError("Illegal slicing argument for scalar dataspace")
        v = self._a[k]
        return v.copy() if isinstance(v, np.ndarray) else v
    @property
    def shape(self): return self._a.shape
    @property
    def dtype(self): return self._a.dtype
    def __array__(self, dtype=None): return np.asarray(self._a, dtype)
class Group:
    def _init(self): self._d = {}
    def create_dataset(self, name, shape=None, dtype=None, data=None, compression=None, track_times=True, **k):
        self._check()
        if name in self._d: raise RuntimeError("Unable to create link (Name already exists)")
        a = np.array(data)
        if a.dtype.kind == "U":
            o = np.empty(a.shape, dtype=object)
            for i, v in np.ndenumerate(a): o[i] = str(v)
            a = o
        elif a.dtype == object:
            raise TypeError("Object dtype dtype('object') has no native HDF5 equivalent")
        if compression is not None and a.ndim == 0: raise TypeError("Scalar datasets don't support chunk/filter options")
        ds = Dataset(a); self._d[name] = ds
        return ds
    def create_group(self, name):
        self._check()
        if name in self._d: raise ValueError("Unable to create group (name already exists)")
        g = Group(); g._init(); g._root = self._root
        self._d[name] = g
        return g
    def _check(self): pass
    _root = None
    def __getitem__(self, k):
        if k not in self._d: raise KeyError("Unable to open object (object '%s' doesn't exist)" % k)
        return self._d[k]
    def __contains__(self, k): return k in self._d
    def keys(self): return sorted(self._d)
    def __iter__(self): return iter(self.keys())
    def _tree(self): return {k: (v._a if isinstance(v, Dataset) else v._tree()) for k, v in self._d.items()}
    def _load(self, t):
        self._init()
        for k, v in t.items():
            if isinstance(v, dict):
                g = Group(); g._load(v); self._d[k] = g
            else: self._d[k] = Dataset(v)
class File(Group):
    def __init__(self, filename, mode="r"):
        self.filename, self.mode = filename, mode
        self._open = True
        node = _cur()
        w = node.world
        if mode == "r":
            raw = w.disk.read(node, filename)
            if len(raw) < 36 or raw[:4] != MAGIC or hashlib.sha256(raw[36:]).digest() != raw[4:36]:
                raise IOError("Unable to open file (truncated file or bad superblock)")
            self._load(pickle.loads(raw[36:]))
        elif mode == "w":
            self._init()
            self._inode = w.disk.open_w(node, filename)
        else: raise ValueError("mode " + mode)
    def close(self):
        if not self._open: return
        self._open = False
        if self.mode == "w":
            node = _cur()
            body = pickle.dumps(self._tree(), protocol=4)
            node.world.disk.write(node, self.filename, self._inode, MAGIC + hashlib.sha256(body).digest() + body)
            node.world.op(node, "close", self.filename)
    def __repr__(self): return '<HDF5 file "%s">' % self.filename
def encode_h5(tree):
    body = pickle.dumps(tree, protocol=4)
    return MAGIC + hashlib.sha256(body).digest() + body
def make_h5py():
    m = types.ModuleType("h5py")
    m.File, m.Group, m.Dataset = File, Group, Dataset
    m._hl = types.SimpleNamespace(files=types.SimpleNamespace(File=File), group=types.SimpleNamespace(Group=Group), dataset=types.SimpleNamespace(Dataset=Dataset))
    m.special_dtype = lambda **k: object
    return m

WORLD = None     # the world of this (forked) run
def _cur(): return WORLD.current

# ---------------------------------------------------------------- file objects
class SimFile:
    def __init__(self, node, name, mode="r"):
        self.node, self.name, self.mode, self.closed = node, name, mode, False
        d = node.world.disk
        self._buf = []
        if "r" in mode and "+" not in mode:
            p = d.norm(node, name)
            def eff(_):
                i = d.files.get(p)
                if i is None: raise IOError(errno.ENOENT, "No such file or directory: %r" % name)
                return i
            self._inode = node.world.op(node, "open_r", p, eff)
            self._data = None; self._pos = 0
        elif mode[0] in "wa":
            self._inode = d.open_w(node, name, append=mode[0] == "a")
        else: raise ValueError("mode " + mode)
    def _load(self):
        if self._data is None:
            b = self.node.world.disk.read(self.node, self.name, self._inode)
            self._data = b if "b" in self.mode else b.decode("utf-8", "replace")
    def read(self, n=-1):
        self._load()
        r = self._data[self._pos:] if n is None or n < 0 else self._data[self._pos:self._pos + n]
        self._pos += len(r)
        return r
    def readline(self):
        self._load()
        i = self._data.find("\n", self._pos)
        e = len(self._data) if i < 0 else i + 1
        r = self._data[self._pos:e]; self._pos = e
        return r
    def readlines(self): return list(self)
    def __iter__(self):
        while True:
            l = self.readline()
            if not l: return
            yield l
    def write(self, s):
        if self.closed: raise ValueError("I/O operation on closed file")
        self._buf.append(s if isinstance(s, bytes) else s.encode("utf-8"))
    def writelines(self, ls):
        for l in ls: self.write(l)
    def flush(self):
        if self._buf:
            data = b"".join(self._buf); self._buf = []
            self.node.world.disk.write(self.node, self.name, self._inode, data)
    def fileno(self): return 3
    def close(self):
        if self.closed: return
        self.closed = True
        if self.mode[0] in "wa":
            self.flush()
            self.node.world.op(self.node, "close", self.name)
    def __enter__(self): return self
    def __exit__(self, *a): self.close()

# ------------------------------------------------------------------- module set
class _Logger:
    def __init__(self, env): self.env, self.level = env, 0
    def setLevel(self, l): pass
    def addHandler(self, h): pass
    def _log(self, lvl, msg, *a):
        l = self.env.logs
        msg = str(msg) % a if a else str(msg)
        l.append((self.env.node.world.now, lvl, msg))
        if len(l) > 400: del l[:100]
        for f in self.env.on_log: f(lvl, msg)
    def info(self, m, *a, **k): self._log("INFO", m, *a)
    def warning(self, m, *a, **k): self._log("WARNING", m, *a)
    warn = warning
    def error(self, m, *a, **k): self._log("ERROR", m, *a)
    def exception(self, m, *a, **k): self._log("ERROR", m, *a)
    def debug(self, m, *a, **k): pass
    critical = error

class _ArgumentParser(_argparse.ArgumentParser):
    def parse_args(self, args=None, namespace=None):
        return super().parse_args(_cur().argv if args is None else args, namespace)

class PyEnv:
    """popen(node, args, shell) -> process object; system(node, cmd) -> code"""
    def __init__(self, node, popen=None, system=None, search=("dyson", ""), stubs=None):
        self.node, self.popen, self.system = node, popen, system
        self.mods, self.logs, self.on_log, self.out = {}, [], [], []
        self.search = list(search)
        self.stubs = dict(stubs or {})
        self.builtins = py2.py2_builtins(__import__=self._import, open=self._open, file=SimFile, OSError=Py2OSError)
        self.builtins["print"] = self._print
        self.builtins["print_to"] = lambda *a: None
        self.rng = _random.Random("pyrandom/%s/%s" % (node.world.seed, node.ident))
        node.env = self
    def _print(self, *a, **k): pass
    def _open(self, name, mode="r", *a): return SimFile(self.node, name, mode)
    # -- import system
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if name == "numpy.core" and fromlist: return np.core
        m = self._get(name)
        if m is None: m = __import__(name, {}, {}, fromlist, 0)
        else:
            if "." in name and not fromlist: return self._get(name.split(".")[0])
            return m
        return m
    def _get(self, name):
        if name in self.mods: return self.mods[name]
        f = getattr(self, "_mod_" + name.replace(".", "_"), None)
        if name in self.stubs:
            m = self.stubs[name](self) if callable(self.stubs[name]) else self.stubs[name]
        elif f is not None: m = f()
        else:
            m = self._project(name)
            if m is None: return None
            return m
        self.mods[name] = m
        return m
    def path_of(self, name):
        parts = name.split(".")
        for d in self.search:
            p = "/".join([x for x in [d] + parts[:-1] if x])
            if parts[-1] in PROJECT.get(p, {}): return PROJECT[p][parts[-1]], posixpath.join(WORK, p, parts[-1] + ".py")
            q = "/".join([x for x in [d] + parts if x])
            if "__init__" in PROJECT.get(q, {}): return PROJECT[q]["__init__"], posixpath.join(WORK, q, "__init__.py")
        return None
    def _project(self, name):
        p = self.path_of(name)
        if p is None: return None
        if "." in name: self._get(name.rsplit(".", 1)[0])
        return self.load(name, *p)
    def load(self, name, real, virt, modname=None):
        m = types.ModuleType(modname or name)
        m.__file__ = virt
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        try: exec(py2.compile_py2(real, virt), m.__dict__)
        except BaseException:
            self.mods.pop(name, None); raise
        if "." in name:
            par, ch = name.rsplit(".", 1)
            setattr(self.mods[par], ch, m)
        return m
    def run_main(self, rel):
        return self.load("__main__", _os.path.join(REPO, rel), posixpath.join(WORK, rel), "__main__")
    # -- substituted modules
    def _mod_h5py(self): return make_h5py()
    def _mod_exceptions(self):
        m = types.ModuleType("exceptions"); m.Exception = Exception; return m
    def _mod_cPickle(self): return pickle
    def _mod_solver_lu_fast(self): raise ImportError("solver.lu_fast is not built")
    def _mod_plot(self):
        class P(types.ModuleType):
            def __getattr__(s, k): return lambda *a, **kw: None
        return P("plot")
    def _mod_matplotlib(self):
        class Any:
            def __call__(s, *a, **k): return s
            def __getattr__(s, k): return s
            def __getitem__(s, k): return s
            def __iter__(s): return iter([])
        a = Any()
        m = types.ModuleType("matplotlib"); m.pyplot = a; m.use = a
        return m
    def _mod_matplotlib_pyplot(self): return self._get("matplotlib").pyplot
    def _mod_argparse(self):
        m = types.ModuleType("argparse"); m.__dict__.update(_argparse.__dict__); m.ArgumentParser = _ArgumentParser
        return m
    def _mod_sys(self):
        m = types.ModuleType("sys")
        m.version = "2.7.18 (simulated)"; m.version_info = (2, 7, 18)
        m.path = [WORK + "/dyson"]; m.argv = ["prog"] + list(self.node.argv); m.maxint = 2**63 - 1; m.maxsize = 2**63 - 1
        m.stdout = m.stderr = io.StringIO(); m.exit = _sys.exit; m.exc_info = _sys.exc_info; m.modules = self.mods; m.float_info = _sys.float_info
        return m
    def _mod_os(self):
        n, d = self.node, self.node.world.disk
        m = types.ModuleType("os"); pm = types.ModuleType("os.path")
        for k in ("join", "split", "dirname", "basename", "normpath", "splitext", "isabs", "relpath", "commonprefix"): setattr(pm, k, getattr(posixpath, k))
        pm.abspath = lambda p: posixpath.normpath(posixpath.join(n.cwd, p)); pm.realpath = pm.abspath
        pm.exists = lambda p: d.exists(n, p); pm.isfile = lambda p: d.isfile(n, p); pm.isdir = lambda p: d.isdir(n, p); pm.lexists = pm.exists
        pm.getsize = lambda p: len(d.files[d.norm(n, p)].data)
        m.path, m.sep, m.linesep, m.devnull, m.pathsep = pm, "/", "\n", "/dev/null", ":"
        m.rename = lambda a, b: d.rename(n, a, b); m.replace = m.rename
        m.remove = lambda a: d.remove(n, a); m.unlink = m.remove
        m.listdir = lambda p=".": d.listdir(n, p)
        m.mkdir = lambda p, mode=0o777: d.mkdir(n, p)
        def makedirs(p, mode=0o777, exist_ok=False):
            p = d.norm(n, p)
            cur = ""
            for x in p.strip("/").split("/"):
                cur += "/" + x
                if cur not in d.dirs: d.mkdir(n, cur)
        m.makedirs = makedirs
        m.getcwd = lambda: n.cwd; m.getpid = lambda: 1000 + n.world.nodes.index(n); m.getppid = lambda: 1
        m.environ = {}; m.getenv = lambda k, dflt=None: dflt
        m.system = lambda c: self.system(n, c) if self.system else 0
        m.fsync = lambda fd: n.world.op(n, "fsync", ""); m.error = Py2OSError; m.strerror = _os.strerror
        m.stat = lambda p: types.SimpleNamespace(st_size=pm.getsize(p), st_mtime=0)
        def kill(pid, s): n.world.kill_pid(n, pid, s)
        m.kill = kill
        return m
    def _mod_os_path(self): return self._get("os").path
    def _mod_time(self):
        import time as t
        n = self.node
        m = types.ModuleType("time")
        def _time():
            n.world.op(n, "time"); return n.clock()
        def sleep(x):
            if x < 0: raise IOError(errno.EINVAL, "Invalid argument")
            n.world.log(n, "sleep", "%g" % x); n.world.wait(n, x, True)
        m.time, m.sleep, m.clock = _time, sleep, lambda: n.world.now - n.started_at
        m.gmtime, m.mktime, m.strptime, m.localtime = t.gmtime, t.mktime, t.strptime, lambda x=None: t.gmtime(n.clock() if x is None else x)
        m.strftime = lambda f, tt=None: t.strftime(f, tt or t.gmtime(n.clock())); m.asctime = lambda tt=None: t.asctime(tt or t.gmtime(n.clock()))
        m.ctime = lambda x=None: t.asctime(t.gmtime(n.clock() if x is None else x))
        return m
    def _mod_random(self):
        m = types.ModuleType("random")
        for k in dir(self.rng):
            if not k.startswith("_"): setattr(m, k, getattr(self.rng, k))
        m.Random = _random.Random
        return m
    def _mod_signal(self):
        import signal as s
        n = self.node
        m = types.ModuleType("signal")
        for k in ("SIGINT", "SIGTERM", "SIGKILL", "SIGHUP", "SIGUSR1", "SIGUSR2", "SIGALRM", "SIGCHLD", "SIGPIPE", "SIGQUIT"): setattr(m, k, int(getattr(s, k)))
        m.SIG_DFL, m.SIG_IGN = "default", "ignore"
        def default_int_handler(sn, fr): raise KeyboardInterrupt
        m.default_int_handler = default_int_handler
        def getsignal(x):
            h = n.handlers.get(int(x), "default")
            return default_int_handler if h == "default" and int(x) == 2 else h
        def signal(x, h):
            if not (callable(h) or h in ("default", "ignore")):
                raise TypeError("signal handler must be signal.SIG_IGN, signal.SIG_DFL, or a callable object")
            old = getsignal(x)
            def eff(_): n.handlers[int(x)] = h
            n.world.op(n, "sigaction", "%d" % int(x), eff)      # a signal may arrive just before or just after
            return old
        m.signal, m.getsignal = signal, getsignal
        return m
    def _mod_subprocess(self):
        m = types.ModuleType("subprocess")
        m.PIPE, m.STDOUT = -1, -2
        def Popen(args, shell=False, **k): return self.popen(self.node, args, shell)
        m.Popen = Popen
        m.call = lambda a, shell=False, **k: Popen(a, shell).wait()
        m.check_call = m.call
        return m
    def _mod_logging(self):
        m = types.ModuleType("logging")
        root = _Logger(self)
        m.getLogger = lambda *a: root
        for k in ("info", "warning", "error", "debug", "exception", "critical", "warn"): setattr(m, k, getattr(root, k))
        m.INFO, m.DEBUG, m.WARNING, m.ERROR = 20, 10, 30, 40
        m.basicConfig = lambda **k: None
        class H:
            def __init__(self, *a, **k): pass
            def setLevel(self, l): pass
            def setFormatter(self, f): pass
        m.StreamHandler = m.FileHandler = m.Formatter = H
        return m
    def _mod_inspect(self):
        import inspect
        return inspect
    def _mod_gc(self):
        m = types.ModuleType("gc"); m.collect = lambda *a: 0
        return m
    def _mod_unittest(self):
        import unittest
        return unittest
    def _mod_multiprocessing(self):
        m = types.ModuleType("multiprocessing"); m.Pool = None
        return m

class PsProc:
    """`ps v -p <pid>` as used for memory reporting"""
    pid = 4242
    def communicate(self, *a): return (b"  PID TTY      STAT   TIME  MAJFL   TRS   DRS   RSS %MEM COMMAND\n 1000 ?  S 0:00 0 0 0 2048 0.0 python\n", b"")
    def poll(self): return 0
    def wait(self): return 0
