"""Independent evaluation of the skeleton diagrams a worker samples.

All diagrams of order n are obtained by enumeration: n interaction lines join
the vertices (0,1),(2,3),..., a permutation gives the propagator leaving each
vertex.  A diagram is a skeleton diagram when it is connected, no single
interaction and no pair of propagators or of interactions separates it.  Time
integrals are exact for piecewise constant arrays: integer bins times all
orderings of the fractional parts."""
import itertools, math
import numpy as np

def skeletons(n):
    """representatives (perm, multiplicity) of irreducible vacuum diagrams up to relabelling"""
    N = 2 * n
    def ok(pi):
        ed = [("g", i, pi[i]) for i in range(N)] + [("w", 2 * i, 2 * i + 1) for i in range(n)]
        if n > 1 and any(a == b for _, a, b in ed): return False
        def conn(skip):
            p = list(range(N))
            def f(x):
                while p[x] != x: x = p[x]
                return x
            c = N
            for i, (_, a, b) in enumerate(ed):
                if i in skip: continue
                a, b = f(a), f(b)
                if a != b: p[a] = b; c -= 1
            return c == 1
        if not conn(()): return False
        idx = range(len(ed))
        for i in idx:
            if ed[i][0] == "w" and not conn((i,)): return False
        if n == 1: return True
        for i, j in itertools.combinations(idx, 2):
            if ed[i][0] == ed[j][0] and not conn((i, j)): return False
        return True
    group = []
    for p in itertools.permutations(range(n)):
        for f in itertools.product((0, 1), repeat=n):
            group.append([2 * p[i // 2] + ((i & 1) ^ f[i // 2]) for i in range(N)])
    seen, out = set(), []
    for pi in itertools.permutations(range(N)):
        if n > 1 and any(pi[i] == i or pi[i] == i ^ 1 for i in range(N)): continue     # tadpoles, exchange insertions
        if pi in seen: continue
        orb = set()
        for g in group:
            q = [0] * N
            for i in range(N): q[g[i]] = g[pi[i]]
            orb.add(tuple(q))
        seen |= orb
        if ok(pi): out.append((pi, len(orb)))
    return out

_cache = {}
def topo(n):
    if n not in _cache: _cache[n] = skeletons(n)
    return _cache[n]

def evaluate(n, p, G, WS, WD, use_delta=True):
    """(Sigma[2,s,2,s,vol,nt], Polar[4,s,4,s,vol,nt]) of order n.  G must be local and
    diagonal in spin, W symmetric under exchange of its ends."""
    nt, beta, L, ns = p["MaxTauBin"], p["Beta"], p["L"], p["NSublat"]
    vol, N = L[0] * L[1], 2 * n
    Sig = np.zeros((2, ns, 2, ns, vol, nt), complex)
    Pol = np.zeros((4, ns, 4, ns, vol, nt), complex)
    dt = beta / nt
    fact = 2 ** n * math.factorial(n)
    for pi, mult in topo(n):
        comp = [-1] * N; loops = 0
        for v in range(N):
            if comp[v] < 0:
                u = v
                while comp[u] < 0: comp[u] = loops; u = pi[u]
                loops += 1
        sign = (-1.0) ** n * (-1.0) ** (loops - 1)
        wt = mult / fact
        lines = [("g", v) for v in range(N)] + [("w", i) for i in range(n)]
        for kind, ln in lines:
            if kind == "g": tin, tout = pi[ln], ln            # measured from its OUT end to its IN end
            else: tin, tout = 2 * ln, 2 * ln + 1
            others = [i for i in range(n) if not (kind == "w" and i == ln)]
            for delta in itertools.product((0, 1) if use_delta else (0,), repeat=len(others)):
                dset = {i for i, d in zip(others, delta) if d}
                cls = list(range(N))
                for i in dset: cls[2 * i + 1] = 2 * i
                cin, cout = cls[tin], cls[tout]
                classes = sorted({c for c in cls})
                free = [c for c in classes if c != cin]
                f = len(free)
                # enumerate bins and orderings of free classes, relative to cin at time zero
                m = np.array(list(itertools.product(range(nt), repeat=f)), int).reshape(nt ** f, f)
                o = np.array(list(itertools.permutations(range(1, f + 1))), int).reshape(math.factorial(f), f)
                M = np.repeat(m, len(o), 0); O = np.tile(o, (len(m), 1))
                tb = {cin: np.zeros(len(M), int)}; to = {cin: np.zeros(len(M), int)}
                for k, c in enumerate(free): tb[c] = M[:, k]; to[c] = O[:, k]
                base = np.full(len(M), wt * sign / len(o), complex)
                if cout != cin: base *= dt ** (f - 1)
                else: base *= dt ** f / dt
                def diff(a, b):
                    """(bin, positive) of t_b - t_a"""
                    a, b = cls[a], cls[b]
                    if a == b: return np.zeros(len(M), int), np.zeros(len(M), bool)
                    d = tb[b] - tb[a]
                    lo = to[b] < to[a]
                    d = d - lo
                    return d % nt, d >= 0
                kbin, kpos = diff(tin, tout)
                glines = [(v, pi[v]) for v in range(N) if not (kind == "g" and v == ln)]
                gt = {a: diff(a, b) for a, b in glines}
                wt_t = {i: diff(2 * i, 2 * i + 1)[0] for i in others}
                # loop sites: loop of tin at the origin
                sites = [(s, x, y) for s in range(ns) for x in range(L[0]) for y in range(L[1])]
                l0 = comp[tin]
                rest = [l for l in range(loops) if l != l0]
                for s0 in range(ns):
                    for pos in itertools.product(sites, repeat=len(rest)):
                        st = {l0: (s0, 0, 0)}
                        st.update(zip(rest, pos))
                        def rel(a, b):
                            A, B = st[comp[a]], st[comp[b]]
                            return A[0], B[0], ((B[1] - A[1]) % L[0]) * L[1] + (B[2] - A[2]) % L[1]
                        for sp in itertools.product((0, 1), repeat=N):     # sp[v]: spin of the propagator leaving v
                            inn = [0] * N
                            for v in range(N): inn[pi[v]] = sp[v]
                            if any(inn[2 * i] + inn[2 * i + 1] != sp[2 * i] + sp[2 * i + 1] for i in range(n)): continue
                            val = base
                            for a, b in glines:
                                s = st[comp[a]][0]
                                bn, po = gt[a]
                                val = val * np.where(po, 1, -1) * G[sp[a], s, sp[a], s, 0, :][bn]
                            zero = False
                            for i in others:
                                a, b = 2 * i, 2 * i + 1
                                sa, sb, r = rel(a, b)
                                pa, pb = inn[a] * 2 + sp[a], inn[b] * 2 + sp[b]
                                if i in dset: val = val * WD[pa, sa, pb, sb, r]
                                else: val = val * WS[pa, sa, pb, sb, r, :][wt_t[i]]
                            if kind == "g":
                                # antisymmetric: earlier-than-in counted with a minus sign
                                vv = val * np.where(kpos, 1, -1)
                                np.add.at(Sig[sp[ln], s0, sp[ln], s0, 0], kbin, vv)
                            else:
                                for (a, b) in ((tin, tout),):
                                    sa, sb, r = rel(a, b)
                                    pa, pb = inn[a] * 2 + sp[a], inn[b] * 2 + sp[b]
                                    np.add.at(Pol[pa, sa, pb, sb, r], kbin, val)
    # both orientations of the measured interaction line
    q = np.zeros_like(Pol)
    for x in range(L[0]):
        for y in range(L[1]):
            r, r2 = x * L[1] + y, ((-x) % L[0]) * L[1] + (-y) % L[1]
            for k in range(nt): q[..., r2, nt - 1 - k] += np.transpose(Pol[..., r, k], (2, 3, 0, 1))
    return Sig, -(Pol + q)

def symmetric_w(p, WS, WD):
    L, nt = p["L"], p["MaxTauBin"]
    a, d = WS.copy(), WD.copy()
    for x in range(L[0]):
        for y in range(L[1]):
            r, r2 = x * L[1] + y, ((-x) % L[0]) * L[1] + (-y) % L[1]
            for k in range(nt): a[..., r2, nt - 1 - k] = 0.5 * (WS[..., r2, nt - 1 - k] + np.transpose(WS[..., r, k], (2, 3, 0, 1)))
            d[..., r2] = 0.5 * (WD[..., r2] + np.transpose(WD[..., r], (2, 3, 0, 1)))
    return a, d
