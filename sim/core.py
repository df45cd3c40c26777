"""Deterministic simulator core: virtual time, seeded scheduler, nodes (real
threads, exactly one of which ever runs), simulated disk, signals and faults.

A run is a pure function of (code, configuration, seed, fault plan).  Logging
never draws from the PRNGs and never reads a real clock."""
import threading, heapq, random, hashlib, errno, posixpath, os, sys, signal as _sig

class Py2OSError(Exception):
    """Python 2's OSError, which is not an IOError."""
    def __init__(self, *a):
        Exception.__init__(self, *a)
        self.errno = a[0] if a else None

class StopRun(Exception): pass

EPOCH = 1400000000.0

class Inode:
    __slots__ = ("data", "ident", "writer")
    def __init__(self, ident): self.data = b""; self.ident = ident; self.writer = None

class Node:
    def __init__(self, world, name, kind, fn, cwd="/work", inc=0):
        self.world, self.name, self.kind, self.fn, self.cwd, self.inc = world, name, kind, fn, cwd, inc
        self.state = "new"          # new running exited killed
        self.code = None
        self.go = threading.Semaphore(0)
        self.killed = False
        self.pending = []
        self.handlers = {}
        self.skew, self.offset = 1.0, 0.0
        self.slow = 1.0
        self.rng = random.Random("%s/%s/%d" % (world.seed, name, inc))
        self.op_counts = {}
        self.error = None
        self.in_handler = 0
        self.wake = None
        self.ident = "%s#%d" % (name, inc)
        self.data = {}
        self.argv = []
        self.thread = threading.Thread(target=self._main, daemon=True)
        self.started_at = world.now
        self.ended_at = None
    def clock(self):
        return EPOCH + self.world.now * self.skew + self.offset
    def alive(self): return self.state in ("new", "running")
    def _main(self):
        self.go.acquire()
        self.state = "running"
        w = self.world
        try:
            code = self.fn(self)
            self._end("exited", 0 if code is None else code)
        except SystemExit as e:
            self._end("exited", e.code if isinstance(e.code, int) else (0 if e.code is None else 1))
        except KeyboardInterrupt:
            self._end("exited", 130)
        except StopRun:
            self._end("exited", 0)
        except BaseException as e:
            import traceback
            self.error = "".join(traceback.format_exception(type(e), e, e.__traceback__))
            self._end("exited", 1)
        w.back.release()
    def _end(self, state, code):
        if not self.alive(): return
        self.state, self.code, self.ended_at = state, code, self.world.now
        self.world.log(self, "end", "%s %s" % (state, code))
        self.world.node_ended(self)
    def park(self, state, code):
        """End the process from inside one of its own seams; never returns."""
        self._end(state, code)
        self.world.back.release()
        threading.Semaphore(0).acquire()

class World:
    def __init__(self, seed, plan=(), cfg=None):
        self.seed, self.cfg = seed, dict(cfg or {})
        self.now, self.seq, self.heap = 0.0, 0, []
        self.rng = random.Random("sched/%s" % seed)
        self.nodes, self.current = [], None
        self.back = threading.Semaphore(0)
        self.h = hashlib.sha1()
        self.trace, self.trace_cap = [], 4000
        self.events = 0
        self.disk = Disk(self)
        self.violations = []
        self.fired, self.probes = {}, {}
        self.opcount = {}
        self.plan = [dict(p) for p in plan]
        self.op_triggers = [p for p in self.plan if p["t"] == "op"]
        self.windows = [p for p in self.plan if p["t"] == "window"]
        self.faults_enabled = True
        self.on_end = []
        self.on_read = self.on_signal = self.on_fault = None
        self.on_op = []
        self.stop = False
        self.internal = None
        self.interleave = hashlib.sha1()
        self.last_runner = None
        self.switches = 0
        self.lat = float(self.cfg.get("latency", 0.01))
        for p in self.plan:
            if p["t"] == "time": self.at(p["at"], lambda p=p: self.fire(p))
    # -- bookkeeping
    def log(self, node, what, detail=""):
        line = "%.6f %s %s %s" % (self.now, node.ident if node else "-", what, detail)
        self.h.update(line.encode()); self.h.update(b"\n")
        if len(self.trace) >= self.trace_cap: del self.trace[:1000]
        self.trace.append(line)
    def violate(self, kind, msg):
        self.violations.append({"kind": kind, "msg": str(msg)[:2000], "at": self.now})
        self.log(None, "VIOLATION", kind)
        if len(self.violations) >= 5: self.stop = True
    def probe(self, name, n=1): self.probes[name] = self.probes.get(name, 0) + n
    def fire_count(self, name): self.fired[name] = self.fired.get(name, 0) + 1
    def node_ended(self, node):
        for f in self.on_end:
            try: f(node)
            except Exception:
                import traceback
                self.internal = self.internal or traceback.format_exc()
    # -- events
    def at(self, t, fn):
        self.seq += 1
        heapq.heappush(self.heap, (max(t, self.now), self.rng.random(), self.seq, fn))
    def after(self, dt, fn): self.at(self.now + dt, fn)
    def spawn(self, name, kind, fn, cwd="/work", delay=0.0, argv=()):
        inc = sum(1 for n in self.nodes if n.name == name)
        n = Node(self, name, kind, fn, cwd, inc)
        n.argv = list(argv)
        self.nodes.append(n)
        n.thread.start()
        self.log(n, "spawn")
        self.after(delay, lambda: self._switch(n))
        return n
    def find(self, name):
        for n in reversed(self.nodes):
            if n.name == name: return n
        return None
    def _switch(self, n):
        if n.state in ("exited", "killed"): return
        if n.killed:
            # never runs again
            n._end("killed", -9); return
        self.current = n
        if self.last_runner is not n:
            self.switches += 1
            self.interleave.update(n.name.encode())
            self.last_runner = n
        n.go.release()
        self.back.acquire()
        self.current = None
    def run(self, until, max_events=400000):
        self.until = until
        while self.heap and not self.stop:
            t = self.heap[0][0]
            if t > until: self.now = until; break
            self.events += 1
            if self.events > max_events:
                self.log(None, "event-cap"); break
            t, _, _, fn = heapq.heappop(self.heap)
            self.now = t
            fn()
            if self.internal: raise RuntimeError("oracle failure inside a worker callback:\n" + self.internal)
    # -- seams (called from node threads)
    def wait(self, node, dt, intr=False):
        """Block the node for dt of virtual time; other nodes may run.
        intr: a signal ends the wait early, like sleep()."""
        t = self.now + max(dt, 0.0) * (1.0 if intr else node.slow)      # a sleep is as long as it is
        if node.killed: node.park("killed", -9)
        if self.stop: t = max(t, self.now)
        if not self.stop and t <= self.until and (not self.heap or self.heap[0][0] > t):
            self.now = t
            self.events += 1
        else:
            self.seq += 1
            tok = [True]
            node.wake = tok if intr else None
            heapq.heappush(self.heap, (t, self.rng.random(), self.seq, lambda: self._wake(node, tok)))
            self.back.release()
            node.go.acquire()
            node.wake = None
        if node.killed: node.park("killed", -9)
        self.deliver(node)
    def _wake(self, node, tok):
        if tok[0]:
            tok[0] = False
            self._switch(node)
    def deliver(self, node):
        while node.pending:
            s = node.pending.pop(0)
            h = node.handlers.get(s, "default")
            self.log(node, "signal", "%d %s" % (s, "default" if h == "default" else "handler"))
            if self.on_signal: self.on_signal(node, s)
            if h == "ignore": continue
            if h == "default":
                if s == _sig.SIGINT and node.kind == "py":
                    raise KeyboardInterrupt
                node.park("killed", -s)
            node.in_handler += 1
            try: h(s, None)
            finally: node.in_handler -= 1
    def kill(self, node, s):
        """Send signal s (9: crash)."""
        if not node.alive(): return
        if s == 9:
            node.killed = True
            if self.current is node: return
            # not running now: it dies where it stands
            node._end("killed", -9)
        else:
            node.pending.append(s)
            if node.wake and node.wake[0] and node is not self.current:
                tok = node.wake
                self.at(self.now, lambda: self._wake(node, tok))
    def fire(self, p, node=None):
        do = p["do"]
        node = node or self.find(p.get("node", ""))
        if do.startswith("call:"):
            self.cfg_hooks[do[5:]](p); self.fire_count(do[5:]); return
        if node is None or not node.alive(): return
        if not self.faults_enabled: return
        self.log(node, "fault", do)
        if self.on_fault: self.on_fault(node, p)
        if do == "crash":
            self.fire_count("crash"); self.kill(node, 9)
        elif do.startswith("sig:"):
            self.fire_count("signal"); self.kill(node, int(do[4:]))
        elif do.startswith("jump:"):
            self.fire_count("clock_jump"); node.offset += float(do[5:])
            node.data.setdefault("jumps", []).append((self.now, "jump", float(do[5:])))
        elif do.startswith("skew:"):
            self.fire_count("clock_skew")
            f = float(do[5:]); node.offset += self.now * (node.skew - f); node.skew = f
            node.data.setdefault("skews", [(0, 1.0)]).append((self.now, f))
        elif do.startswith("slow:"):
            self.fire_count("slow_node"); node.slow = float(do[5:])
            node.data["slowmax"] = max(node.data.get("slowmax", 1.0), node.slow)
            if p.get("for"): self.after(p["for"], lambda: setattr(node, "slow", 1.0))
        else: raise ValueError("unknown fault " + do)
    def op(self, node, kind, path="", effect=None):
        """One externally visible operation: takes latency, may be hit by a
        fault before or after its effect."""
        base = posixpath.basename(path)
        self.wait(node, self.lat * (0.2 + 1.6 * self.rng.random()))
        self.log(node, kind, base)
        self.opcount[kind] = self.opcount.get(kind, 0) + 1
        after = []
        if self.faults_enabled:
            for p in self.windows:
                if p["node"] in (node.name, "*") and p["from"] <= self.now < p["to"] and kind in p["ops"] and p.get("path", "") in base and self.rng.random() < p.get("prob", 1.0):
                    # the disk is full or failing for a while
                    if self.on_fault: self.on_fault(node, p)
                    self.fire_count("disk_window_" + p["do"]); self.log(node, "fault", p["do"])
                    if effect is not None and p["do"] == "enospc" and kind == "write": effect(0.5)
                    e = errno.EIO if p["do"] == "eio" else errno.ENOSPC
                    raise (IOError if kind in ("open", "open_r", "write", "close", "read") else Py2OSError)(e, os.strerror(e), path)
            for p in self.op_triggers:
                if p["node"] not in (node.name, "*") or p["op"] not in (kind, "*") or p.get("path", "") not in base: continue
                if p.get("inc") is not None and p["inc"] != node.inc: continue
                p["_c"] = p.get("_c", 0) + 1
                if p["_c"] != p["n"]: continue
                do = p["do"]
                if self.on_fault and do in ("eio", "enospc", "short_crash"): self.on_fault(node, p)
                if do in ("eio", "enospc"):
                    self.fire_count("disk_" + do); self.log(node, "fault", do)
                    if effect is not None and do == "enospc" and kind == "write": effect(0.5)
                    e = errno.EIO if do == "eio" else errno.ENOSPC
                    cls = IOError if kind in ("open", "open_r", "write", "close", "read") else Py2OSError
                    raise cls(e, os.strerror(e), path)
                if do == "short_crash":
                    self.fire_count("torn_write"); self.log(node, "fault", do)
                    if effect is not None and kind == "write": effect(p.get("frac", 0.5))
                    self.kill(node, 9); node.park("killed", -9)
                if do.startswith("stall:"):
                    self.fire_count("stalled_io"); self.log(node, "fault", do)
                    self.wait(node, float(do[6:])); continue
                if p.get("after"): after.append(p)
                else:
                    self.fire(p, node)
                    if node.killed: node.park("killed", -9)
                    self.deliver(node)
        r = effect(1.0) if effect is not None else None
        for f in self.on_op: f(node, kind, path)
        for p in after: self.fire(p, node)
        if node.killed: node.park("killed", -9)
        if after: self.deliver(node)
        return r

class Disk:
    """POSIX-like: open handles keep their inode across rename; what a process
    wrote before it died stays (process crashes, not power loss)."""
    def __init__(self, world):
        self.w, self.files, self.dirs, self.n = world, {}, {"/", "/work"}, 0
        self.watch = []
    def norm(self, node, path): return posixpath.normpath(posixpath.join(node.cwd if node else "/work", path))
    def changed(self, node, op, path):
        for f in self.watch: f(node, op, path)
    def create(self, path):
        self.n += 1
        i = Inode(self.n); self.files[path] = i
        return i
    def put(self, path, data):
        i = self.create(path); i.data = data
        return i
    def get(self, path):
        i = self.files.get(path)
        return None if i is None else i.data
    # ops used by the node-facing modules
    def open_w(self, node, path, append=False):
        path = self.norm(node, path)
        def eff(_):
            if posixpath.dirname(path) not in self.dirs or path in self.dirs:
                raise IOError(errno.ENOENT, "No such file or directory", path)
            i = self.files.get(path)
            if i is None: i = self.create(path)
            elif not append: i.data = b""; i.writer = node
            self.changed(node, "open", path)
            return i
        return self.w.op(node, "open", path, eff)
    def write(self, node, path, inode, data):
        path = self.norm(node, path)
        r = self.w.rng
        k = 1 if len(data) < 2 else r.choice((1, 2, 3))
        cuts = sorted({0, len(data)} | {r.randrange(len(data)) for _ in range(k - 1)}) if len(data) else [0]
        for a, b in zip(cuts, cuts[1:]):
            part = data[a:b]
            def eff(frac):
                n = len(part) if frac >= 1 else int(len(part) * frac)
                inode.data += part[:n]
                self.changed(node, "write", path)
            self.w.op(node, "write", path, eff)
    def read(self, node, path, inode=None):
        path = self.norm(node, path)
        if inode is None:
            def eff(_):
                i = self.files.get(path)
                if i is None: raise IOError(errno.ENOENT, "No such file or directory", path)
                return i
            inode = self.w.op(node, "open_r", path, eff)
        got = []
        def eff1(_):
            n = len(inode.data)
            if n > 1 and self.w.rng.random() < 0.5: n = self.w.rng.randrange(1, n)
            got.append(inode.data[:n])
        self.w.op(node, "read", path, eff1)
        if len(inode.data) > len(got[0]):
            def eff2(_): got.append(inode.data[len(got[0]):])
            self.w.op(node, "read", path, eff2)
        r = b"".join(got)
        if self.w.on_read: self.w.on_read(node, path, r)
        return r
    def rename(self, node, a, b):
        a, b = self.norm(node, a), self.norm(node, b)
        def eff(_):
            if a not in self.files or posixpath.dirname(b) not in self.dirs:
                raise Py2OSError(errno.ENOENT, "No such file or directory", a)
            if a.startswith("/tmp/") != b.startswith("/tmp/"):      # another file system, as on a cluster node
                raise Py2OSError(errno.EXDEV, "Invalid cross-device link", a)
            self.files[b] = self.files.pop(a)
            self.changed(node, "rename", b)
        self.w.op(node, "rename", b, eff)
    def remove(self, node, a):
        a = self.norm(node, a)
        def eff(_):
            if a not in self.files: raise Py2OSError(errno.ENOENT, "No such file or directory", a)
            del self.files[a]
            self.changed(node, "remove", a)
        self.w.op(node, "remove", a, eff)
    def listdir(self, node, d):
        d = self.norm(node, d)
        def eff(_):
            p = d.rstrip("/") + "/"
            out = {f[len(p):].split("/")[0] for f in list(self.files) + list(self.dirs) if f.startswith(p) and f != d}
            out = sorted(x for x in out if x)
            self.w.rng.shuffle(out)      # directory order is arbitrary
            return out
        return self.w.op(node, "listdir", d, eff)
    def exists(self, node, p):
        p = self.norm(node, p)
        return self.w.op(node, "stat", p, lambda _: p in self.files or p in self.dirs)
    def isfile(self, node, p):
        p = self.norm(node, p)
        return self.w.op(node, "stat", p, lambda _: p in self.files)
    def isdir(self, node, p):
        p = self.norm(node, p)
        return self.w.op(node, "stat", p, lambda _: p in self.dirs)
    def mkdir(self, node, p):
        p = self.norm(node, p)
        def eff(_):
            if p in self.dirs or p in self.files: raise Py2OSError(errno.EEXIST, "File exists", p)
            self.dirs.add(p)
        self.w.op(node, "mkdir", p, eff)
