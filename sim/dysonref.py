"""Executable reference of the self-consistency node, written from the
equations (explicit Fourier sums, explicit matrix products), not from
dyson/*.py.  State arrays are indexed [spin,sub,spin,sub,site,tau]."""
import math, itertools
import numpy as np
PI = math.pi
R3 = math.sqrt(3.0)
GEO = {  # lattice vectors, basis
    "Chain": ([[1.0]], [[0.0]]),
    "Square": ([[1, 0], [0, 1]], [[0, 0]]),
    "Checkerboard": ([[1, 1], [1, -1]], [[0, 0], [1, 0]]),
    "Triangular": ([[1, 0], [.5, R3 / 2]], [[0, 0]]),
    "Honeycomb": ([[0, 1], [R3 / 2, -.5]], [[0, 0], [.5 / R3, .5]]),
    "Kagome": ([[1, 0], [.5, R3 / 2]], [[.5, 0], [.25, R3 / 4], [.75, R3 / 4]]),
    "Cubic": ([[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 0, 0]]),
    "3DCheckerboard": ([[1, 1, 0], [1, -1, 0], [1, 0, 1]], [[0, 0, 0], [1, 0, 0]]),
    "Pyrochlore": ([[0, .5, .5], [.5, 0, .5], [.5, .5, 0]], [[0, 0, 0], [0, .25, .25], [.25, 0, .25], [.25, .25, 0]]),
}
def site(c, L):
    i = 0
    for x, l in zip(c, L): i = i * l + x % l
    return i
def shells(name, L, n=2):
    """the n nearest shells: list of lists of (sub_a, sub_b, site index)"""
    vec, sub = [np.array(x, float) for x in GEO[name]]
    d, ns = len(L), len(sub)
    all_ = []
    for a in range(ns):
        for b in range(ns):
            for c in itertools.product(range(-3, 4), repeat=d):
                v = np.dot(c, vec) + sub[b] - sub[a]
                all_.append((round(float(np.dot(v, v)), 6), a, b, c))
    ds = sorted({x[0] for x in all_ if x[0] > 1e-9})[:n]
    return [[(a, b, site(c, L)) for q, a, b, c in all_ if q == x] for x in ds]

def third(name, L):
    """same-sublattice pairs two bonds apart on a straight line: on Pyrochlore through a site, on Kagome across the empty hexagon"""
    if name not in ("Kagome", "Pyrochlore"): return []
    vec, sub = [np.array(x, float) for x in GEO[name]]
    d, ns = len(L), len(sub)
    sites = {tuple(np.round(np.dot(c, vec) + sub[b], 6) + 0.) for b in range(ns) for c in itertools.product(range(-3, 4), repeat=d)}
    v0 = sub[1] - sub[0]; want = round(4 * float(np.dot(v0, v0)), 6)
    out = []
    for a in range(ns):
        for c in itertools.product(range(-2, 3), repeat=d):
            v = np.dot(c, vec)
            if round(float(np.dot(v, v)), 6) == want and (tuple(np.round(sub[a] + v / 2, 6) + 0.) in sites) == (name == "Pyrochlore"): out.append((a, a, site(c, L)))
    return out

def staggered(name, L, chi):
    """the sum over all pairs with the sign of (pi,pi,..), where that momentum fits the lattice"""
    vec, sub = [np.array(x, float) for x in GEO[name]]
    if name not in ("Chain", "Square", "Cubic", "Checkerboard", "3DCheckerboard"): return None
    if len(sub) == 1 and any(l % 2 for l in L): return None
    out = 0
    for a in range(len(sub)):
        for b in range(len(sub)):
            for c in itertools.product(*[range(l) for l in L]):
                out = out + (-1) ** int(round((np.dot(c, vec) + sub[b] - sub[a]).sum())) * chi[a, b, site(c, L)].sum()
    return out

class Ambiguous(Exception):
    """the outcome of this version hinges on rounding"""
class TouchZero(Exception): pass
class CollectFailure(Exception): pass

class Ref:
    vanished = 0      # files that disappeared between the listing and their turn: counted or not, as the code likes
    def __init__(self, para):
        self.p = para
        t = para["Tau"]
        self.nt, self.beta = t["MaxTauBin"], float(t["Beta"])
        self.L, self.ns = list(para["Lattice"]["L"]), para["Lattice"]["NSublat"]
        self.lat = para["Lattice"]["Name"]
        self.vol = int(np.prod(self.L))
        n = np.arange(self.nt)
        tau = (n + .5) / self.nt
        self.Fs = np.exp(-2j * PI * np.outer(n, tau))              # [w,t]
        self.Fa = np.exp(-1j * PI * np.outer(2 * n + 1, tau))
        co = np.array(list(itertools.product(*[range(l) for l in self.L])), float)
        self.K = np.exp(-2j * PI * (co / np.array(self.L, float)) @ co.T)   # [k,r]
        self.delta = [float(x) for x in para["Dyson"]["Annealing"]["DeltaField"]]
        self.interval = [float(x) for x in para["Dyson"]["Annealing"]["Interval"]]
        self.version = int(para.get("Version", 0))
        self.order_acc = dict(para["Dyson"]["OrderAccepted"])
        self.threshold = para["Dyson"]["ErrorThreshold"]
        self.G = None
        z = lambda s, *r: np.zeros((s, self.ns, s, self.ns, self.vol) + r, complex)
        self.zero = {"Sigma": z(2, self.nt), "Polar": z(4, self.nt), "SigmaDeltaT": z(2)}
        self.avg = {k: [v.copy(), v * 0, 0.0] for k, v in self.zero.items()}
        self.W = z(4, self.nt)
        self.G = self.bare()[0]
    # --------------------------------------------------------------- bare
    def bare(self):
        m = self.p["Model"]
        G = np.zeros((2, self.ns, 2, self.ns, self.vol, self.nt), complex)
        W0 = np.zeros((4, self.ns, 4, self.ns, self.vol), complex)
        t = (np.arange(self.nt) + .5) * self.beta / self.nt
        sh = shells(self.lat, self.L)
        if m["Name"] in ("Heisenberg", "J1J2"):
            mu0 = PI / 4 / self.beta if "ImW" in (m.get("Description") or []) else 1j * PI / 2 / self.beta
            for a in range(self.ns):
                for s, sg in ((0, 1), (1, -1)):
                    mu = mu0 + .5 * sg * (self.delta[a] + m["ExternalField"][a])
                    G[s, a, s, a, 0] = np.exp(mu * t) / (1 + np.exp(mu * self.beta))
            # S.S in the pair basis (in,out): 00,01,10,11
            SS = np.zeros((4, 4), complex)
            SS[0, 0] = SS[3, 3] = .25; SS[0, 3] = SS[3, 0] = -.25; SS[1, 2] = SS[2, 1] = .5
            J = list(m["Interaction"]) + [0] * 5
            for k in range(2):
                for a, b, r in sh[k]: W0[:, a, :, b, r] += J[k] * SS
            for a, b, r in third(self.lat, self.L): W0[:, a, :, b, r] += J[2] * SS
        elif m["Name"] in ("Hubbard", "Haldane"):
            H = np.zeros((2 * self.ns, 2 * self.ns, self.vol), complex)
            for k in range(2):
                for a, b, r in sh[k]:
                    for s in range(2): H[s * self.ns + a, s * self.ns + b, r] -= m["Hopping"][k]
            for a in range(self.ns):
                for s, sg in ((0, 1), (1, -1)): H[s * self.ns + a, s * self.ns + a, 0] += -m["ChemicalPotential"][0] + sg * m["ExternalField"][a]
            Hk = np.einsum("kr,abr->abk", self.K, H)
            Gk = np.zeros(Hk.shape + (self.nt,), complex)
            for k in range(self.vol):
                e, u = np.linalg.eigh(Hk[:, :, k])
                for i, tt in enumerate(t):
                    Gk[:, :, k, i] = (u * (np.exp(-e * tt) / (1 + np.exp(-self.beta * e)))) @ u.conj().T
            G = np.einsum("kr,abkt->abrt", self.K.conj() / self.vol, Gk).reshape(G.shape)
            if m["Name"] == "Haldane":
                II = np.outer([1, 0, 0, 1], [1, 0, 0, 1])
                for a, b, r in sh[0]: W0[:, a, :, b, r] += m["ShortRangeInteraction"][0] * II
        else: raise KeyError(m["Name"])
        return G, W0
    # ---------------------------------------------------------- transforms
    def kw(self, a, anti):
        a = np.tensordot(a, self.K, (4, 1))                  # ... t k  (t moved)
        if a.ndim == 6: a = np.moveaxis(a, 5, 4)
        if a.ndim == 6: a = np.tensordot(a, self.Fa if anti else self.Fs, (5, 1))
        return a
    def rt(self, a, anti):
        F = (self.Fa if anti else self.Fs).conj() / self.nt
        a = np.tensordot(a, F, (5, 0))
        return np.moveaxis(np.tensordot(a, self.K.conj() / self.vol, (4, 0)), 5, 4)
    def solve(self, D, b):
        """per (k,w) matrix equation D x = b, with the stability rule"""
        n = D.shape[0] * D.shape[1]
        M = np.moveaxis(D.reshape(n, n, self.vol, self.nt), (0, 1), (2, 3))
        B = np.moveaxis(b.reshape(n, n, self.vol, self.nt), (0, 1), (2, 3))
        det = np.linalg.det(M)
        if not np.isfinite(det).all(): raise Ambiguous()
        lo = det.real.min()
        scale = max(1.0, np.abs(det).max())
        low = det[det.real <= lo + 1e-8 * scale]
        if abs(lo) < 1e-8 * scale or (np.abs(low.imag - 1e-4) < 1e-7 * scale).any(): raise Ambiguous()
        bad = low.imag < 1e-4
        if lo < 0 and bad.any() and not bad.all(): raise Ambiguous()
        if lo < 0 and bad.all(): raise TouchZero()
        self.mindet = det.ravel()[np.lexsort((det.imag.ravel(), det.real.ravel()))[0]]
        self.cond = max(self.cond, float(np.linalg.cond(M).max()))
        X = np.linalg.solve(M, B)
        return np.moveaxis(X, (2, 3), (0, 1)).reshape(b.shape)
    @staticmethod
    def mul(a, b): return np.einsum("ijkl...,klmn...->ijmn...", a, b)
    def g_dyson(self, G0, SD, S):
        g0, sd, s = self.kw(G0, True), self.kw(SD, True), self.kw(S, True)
        n, ns = 2, self.ns
        c = np.cos(PI * (np.arange(self.nt) + .5) / self.nt)
        h = self.beta / self.nt
        GS = h * (h * self.mul(g0, s) + self.mul(g0, np.repeat(sd[..., None], self.nt, -1)) * c)
        I = np.eye(n * ns).reshape(n, ns, n, ns)[..., None, None]
        return self.rt(self.solve(I - GS, g0), True)
    def w_dyson(self, W0, P):
        w0, p = np.repeat(self.kw(W0, False)[..., None], self.nt, -1), self.kw(P, False)
        JP = self.mul(w0, p)
        c = np.cos(PI * np.arange(self.nt) / self.nt)
        I = np.eye(4 * self.ns).reshape(4, self.ns, 4, self.ns)[..., None, None]
        D = I - self.beta / self.nt * JP * c
        W = self.rt(self.solve(D, self.mul(JP, w0)), False)
        chi = self.rt(self.solve(D, -p), False)
        return W, chi
    def minus0(self, G): return 1.5 * G[..., -1] - .5 * G[..., -2]
    def fock_delta(self, G, W0):
        g, o = self.minus0(G), np.zeros((2, self.ns, 2, self.ns, self.vol), complex)
        for a in range(2):
            for b in range(2):
                o[a, :, a] += g[b, :, b] * W0[2 * a + b, :, 2 * b + a]
                for x in range(self.ns):
                    for y in range(self.ns):
                        o[a, x, a, x, 0] -= g[b, y, b, y, 0] * W0[3 * a, x, 3 * b, y].sum()
        return o
    def fock(self, G, W):
        o = np.zeros((2, self.ns, 2, self.ns, self.vol, self.nt), complex)
        for a in range(2):
            for b in range(2): o[a, :, a] -= G[b, :, b] * W[2 * a + b, :, 2 * b + a]
        return o
    def bubble(self, G):
        o = np.zeros((4, self.ns, 4, self.ns, self.vol, self.nt), complex)
        for a in range(2):
            for b in range(2):
                for x in range(self.ns):
                    for y in range(self.ns): o[2 * a + b, x, 2 * b + a, y] -= G[a, y, a, x][:, ::-1] * G[b, x, b, y]
        return o
    def chi(self, tensor, G):
        g = self.minus0(G)[..., 0]
        t = tensor.copy()
        for i in range(4):
            for j in range(4):
                for a in range(self.ns):
                    for b in range(self.ns):
                        t[i, a, j, b] += g[i // 2, a, i % 2, a] * g[j // 2, b, j % 2, b]
        S = {0: .5, 3: -.5}
        o = np.zeros((1, self.ns, 1, self.ns, self.vol, self.nt), complex)
        for i in S:
            for j in S: o[0, :, 0] += S[i] * S[j] * t[j, :, i]
        return o
    # ------------------------------------------------------------ collecting
    gamma = False
    def collect(self, files):
        """files: list of (name, parsed dict or None) in reading order"""
        if len(files) == self.vanished:
            if files: raise Ambiguous()
            raise CollectFailure("none")
        acc, norm, accu, ok = {}, {}, {}, 0
        for name, d in files:
            try:
                h = {k: d[k]["Histogram"]["SmoothT"] for k in ("Sigma", "Polar")}
                for k in h:
                    if tuple(h[k]["WeightAccu"].shape[1:]) != self.zero[k].shape or not np.isfinite(h[k]["NormAccu"]): raise ValueError()
                    if k in acc and (acc[k].shape != h[k]["WeightAccu"].shape or norm[k] != h[k]["Norm"]): raise ValueError()
                    h[k]["Norm"]
                if self.gamma:
                    for k in ("GammaGStatis", "GammaWStatis"):
                        v = h[k] = d[k]
                        if not np.isfinite(v["NormAccu"]) or (k in acc and (acc[k].shape != v["WeightAccu"].shape or norm[k] != v["Norm"])): raise ValueError()
                        v["WeightAccu"].shape, v["Norm"]
            except Exception: continue
            ok += 1
            for k in h:
                if k in acc: acc[k] = acc[k] + h[k]["WeightAccu"]; accu[k] += h[k]["NormAccu"]
                else: acc[k], accu[k], norm[k] = np.array(h[k]["WeightAccu"], complex), h[k]["NormAccu"], h[k]["Norm"]
        if (ok < .75 * len(files)) != (ok < .75 * (len(files) - self.vanished)): raise Ambiguous()
        if ok < .75 * len(files): raise CollectFailure("unreadable")
        if self.gamma and any(abs(accu[k]) < 1e-3 for k in accu if k.startswith("Gamma")): raise CollectFailure("norm")
        return acc, accu, norm
    def accept(self, acc, accu, norm):
        """per quantity: merged estimate up to the accepted order"""
        from scipy.interpolate import LSQUnivariateSpline
        out, orders = {}, {}
        for k in ("Sigma", "Polar"):
            if abs(accu[k]) < 1e-3: raise CollectFailure("norm")
        for k in ("Sigma", "Polar"):
            w = acc[k] / accu[k] * norm[k]
            n = 0
            for o in range(w.shape[0]):
                best, err = 0.0, float("inf")
                x = np.arange(self.nt)
                cand = []
                for i in np.ndindex(w.shape[1:-1]):
                    y = w[(o,) + i]
                    if np.allclose(y, 0, 1e-5): continue
                    t = [self.nt / 2.0]
                    s = [LSQUnivariateSpline(x, c, t) for c in (y.real, y.imag)]
                    cand.append((np.average(abs(s[0](x) + 1j * s[1](x))), abs(complex(*[(q.get_residual() / self.nt) ** .5 for q in s]))))
                if cand:
                    top = max(c[0] for c in cand)
                    errs = [c[1] for c in cand if c[0] > top * (1 - 1e-9)]
                    if max(errs) - min(errs) > 1e-9 or abs(errs[0] - self.threshold) < 1e-9: raise Ambiguous()
                    err = errs[0]
                if not (err < self.threshold or o + 1 <= self.order_acc[k]): break
                n = o + 1
            orders[k] = n
            out[k] = w[:n].sum(0)
        if 0 in orders.values(): raise CollectFailure("order0")
        return out, orders
    # ----------------------------------------------------------------- steps
    def merge(self, k, ratio, new):
        d, a, n = self.avg[k]
        a = a + ratio * new; n = n + ratio
        self.avg[k] = [a / n if n > 1e-3 else new, a, n]
    def load(self, weights):
        self.G, self.W = weights["G"]["SmoothT"], weights["W"]["SmoothT"]
        for k, t in (("Sigma", "SmoothT"), ("Polar", "SmoothT"), ("SigmaDeltaT", "DeltaT")): self.avg[k] = [weights[k][t], self.zero[k], 0.0]
    def attempt(self, analytic, files=None):
        """one version; returns (outcome, detail).  outcome: ok, collect, unstable"""
        keep = (self.G, self.W, {k: list(v) for k, v in self.avg.items()})
        self.version += 1
        self.cond = 1.0
        ratio = self.version / (self.version + 10.0)
        try:
            G0, W0 = self.bare()
            self.merge("SigmaDeltaT", ratio, self.fock_delta(self.G, W0))
            if analytic:
                G = self.g_dyson(G0, self.avg["SigmaDeltaT"][0], self.avg["Sigma"][0])
                self.merge("Sigma", ratio, self.fock(G, self.W))
                G = self.g_dyson(G0, self.avg["SigmaDeltaT"][0], self.avg["Sigma"][0])
                self.merge("Polar", ratio, self.bubble(G))
            else:
                new, orders = self.accept(*self.collect(files))
                self.order_acc = orders
                self.avg["Sigma"] = [new["Sigma"], self.zero["Sigma"], 0.0]
                G = self.g_dyson(G0, self.avg["SigmaDeltaT"][0], self.avg["Sigma"][0])
                self.merge("Polar", ratio, new["Polar"])
            W, tensor = self.w_dyson(W0, self.avg["Polar"][0])
        except (TouchZero, CollectFailure) as e:
            self.G, self.W, self.avg = keep[0], keep[1], keep[2]
            if isinstance(e, TouchZero):
                self.interval = [x / 2 for x in self.interval]
                self.delta = [d - x for d, x in zip(self.delta, self.interval)]
                return "unstable", str(e)
            return "collect", str(e)
        self.G, self.W, self.W0 = G, W, W0
        self.Chi = self.chi(tensor, G)
        return "ok", ""
    def after_success(self):
        if abs(self.delta[0]) > 1e-5: self.delta = [d + x for d, x in zip(self.delta, self.interval)]
    def published(self):
        return {"G": {"SmoothT": self.G}, "W": {"SmoothT": self.W, "DeltaT": self.W0}, "Sigma": {"SmoothT": self.avg["Sigma"][0]},
                "Polar": {"SmoothT": self.avg["Polar"][0]}, "SigmaDeltaT": {"DeltaT": self.avg["SigmaDeltaT"][0]}, "Chi": {"SmoothT": self.Chi}}
def compare(got, want, tol):
    """list of quantities that differ"""
    out = []
    for k in want:
        for t in want[k]:
            try: a = np.asarray(got[k][t], complex)
            except Exception: out.append("%s/%s missing" % (k, t)); continue
            b = want[k][t]
            if a.shape != b.shape: out.append("%s/%s shape %s" % (k, t, a.shape)); continue
            if not np.isfinite(a).all(): out.append("%s/%s not finite" % (k, t)); continue
            d = np.abs(a - b)
            if d.max() > tol * max(np.abs(b).max(), 1e-6):
                i = np.unravel_index(d.argmax(), d.shape)
                out.append("%s/%s at %s: %s instead of %s" % (k, t, tuple(int(x) for x in i), a[i], b[i]))
    return out
