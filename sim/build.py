"""Builds the native half from /repo's working tree (cached by content)."""
import hashlib, os, subprocess, sys, fcntl, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KF_REPO", "/repo")
def tree_hash():
    h = hashlib.sha1()
    roots = [os.path.join(REPO, "src"), os.path.join(HERE, "native")]
    for r in roots:
        for d, ds, fs in sorted(os.walk(r)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".cpp", ".h", ".hpp", "Makefile")):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, r).encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]
def build(verbose=False):
    k = tree_hash()
    root = os.path.join(HERE, "build")
    os.makedirs(root, exist_ok=True)
    out = os.path.join(root, k)
    lib = os.path.join(out, "libkfsim.so")
    with open(os.path.join(root, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(lib):
            old = sorted((o for o in os.listdir(root) if o != k and not o.startswith(".")), key=lambda o: os.path.getmtime(os.path.join(root, o)))
            # a build somebody may still be using (each use renews its time) is never taken away
            for o in old[:-24]:
                if time.time() - os.path.getmtime(os.path.join(root, o)) < 3 * 3600: continue
                subprocess.call(["rm", "-rf", os.path.join(root, o)])
            r = subprocess.run(["make", "-s", "-C", os.path.join(HERE, "native"), "-j8", "BUILD=" + out, "REPO=" + REPO],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0 or not os.path.exists(lib):
                sys.stderr.write(r.stdout.decode(errors="replace")[-4000:])
                raise SystemExit("native build failed")
            subprocess.call("find %s -name '*.o*' -delete" % out, shell=True)
        os.utime(out)
    return lib
if __name__ == "__main__":
    print(build(True))
