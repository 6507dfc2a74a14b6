"""Reciprocal space (C16) and k-paths (C17)."""
from d_lattice import *

SPC = {"SQUARE_CROSS": ("square", None), "SQUARE_Z": ("square", "XM"), "SQUARE_S": ("square", "XM"),
       "TRIANGLE_STAR": ("triangle", "MK"), "HONEYCOMB_BENZENE": ("honeycomb", "MK"),
       "HONEYCOMB_DIPHENYL": ("honeycomb", None), "HONEYCOMB_GEAR": ("honeycomb", "MK"),
       "CHAIN_CELL": ("chain", "E"), "SQUARE_CELL": ("square", "XM"), "TRIANGLE_CELL": ("triangle", "MK"),
       "HONEYCOMB_CELL": ("honeycomb", "MK"), "KAGOME_CELL": ("kagome", "MK"), "CUBIC_CELL": ("cubic", "XMK")}


def ints(A):
    A = np.asarray(A, dtype=float)
    if A.size and (not np.all(np.isfinite(A)) or np.max(np.abs(A)) > 2000):
        return np.full(A.shape, -7777777, dtype=int).tolist()
    return np.rint(A * 1e6).astype(int).tolist()


def nullvecs(g, V):
    """integer vectors completing V that are G-orthogonal to every row of V"""
    M = np.array(V) @ np.array(g.G)
    d, k = g.d, len(V)
    if k == d:
        return []
    if d - k == 1:
        if d == 2:
            r = [-M[0][1], M[0][0]]
        else:
            r = np.cross(M[0], M[1])
        return [[int(x) for x in r]]
    if k == 1 and d == 3:
        m = M[0]
        c = [np.cross(m, e) for e in np.eye(3, dtype=int)]
        c = [p for p in itertools.combinations(c, 2) if np.any(np.cross(*p))][0]
        return [[int(y) for y in x] for x in c]
    raise ValueError


def c16(ctx, L):
    def dual(s, g, V, orth, f):
        A = np.array([g.vec(v) for v in V])
        O = np.array([g.vec(v) for v in orth]).reshape(-1, g.d)

        def proj(b):
            b = np.asarray(b)
            if b.ndim != 2 or b.shape[1] != g.d:
                return {"sh": [int(x) for x in b.shape], "dots": [], "orth": []}
            return {"sh": [int(x) for x in b.shape], "dots": ints(A @ b.T / (2 * np.pi)),
                    "orth": ints(O @ b.T / (2 * np.pi))}
        s.call("Dual", {}, f, proj)
    for key, mk in clusters(ctx, L, "c16", ctx.n(250, 3000), ctx.n(48, 99), ctx.n(100, 3000)):
        def go(s, key=key, mk=mk):
            rng = ctx.rng("c16", *key)
            t = mk(s, rng)
            orth = nullvecs(t.g, t.V)
            s.rec["orth"] = orth

            def q(spoil=False):
                b = t.lat.bs
                out = b.copy()
                if spoil:
                    b[:] = 7
                return out
            dual(s, t.g, t.V, orth, lambda: q(True))
            if rng.random() < 0.5:
                t.lat.neighbor_distance(1)
            dual(s, t.g, t.V, orth, q)
        ctx.session("TRecip", dict(EMPTY, orth=[]), go)
    for j in range(ctx.n(90, 1200)):        # vectors of very different lengths, long and nearly parallel ones
        def go(s, j=j):
            rng = ctx.rng("c16w", j)
            fr = rng.choice(["sq", "sq", "hx", "sq3"])
            d = 3 if fr == "sq3" else 2
            k = d if rng.random() < 0.8 else rng.randrange(1, d + 1)
            top = 60 if d == 3 else 900
            while True:
                V = [[rng.randrange(-2, 3) for _ in range(d)] for _ in range(k)]
                i = rng.randrange(k)
                f = rng.choice([1, 10, top // 8, top // 2])
                V[i] = [x * f for x in V[i]]
                if rng.random() < 0.4:
                    V[i] = [x + rng.randrange(-1, 2) for x in V[i]]
                if rng.random() < 0.3 and k > 1:
                    V[(i + 1) % k] = [x + y for x, y in zip(V[i], V[(i + 1) % k])]
                A = np.array(V, dtype=float)
                if np.max(np.abs(A)) <= 2 * top and np.linalg.matrix_rank(A) == k and np.linalg.cond(A) < 3000:
                    break
            g = Geo(fr, 1, rng.choice([1.0, 1.0, 2.46, 0.01, 500.0]), rotation(rng, d) if rng.random() < 0.4 else None)
            t = Lat(s, rng, g, [[0] * d], V, L)
            s.rec["orth"] = orth = nullvecs(g, V)
            dual(s, g, V, orth, lambda: t.lat.bs)
        ctx.session("TRecip", dict(EMPTY, orth=[]), go)
    for name, (par, hs) in SPC.items():
        def go(s, name=name, par=par, hs=hs):
            g = Geo(*PARENT[par][:2])
            AS = getattr(L.H, name + "_AS")
            V = [g.ivec(v) for v in AS]
            s.rec["lat"] = {"d": g.d, "G": g.G, "P": [[0] * g.d], "V": V}
            s.rec["orth"] = []
            dual(s, g, V, [], lambda: getattr(L.H, name + "_BS"))

            def coef(ks):
                c = np.asarray(ks, dtype=float).reshape(-1, g.d) @ AS.T / (2 * np.pi) * 6
                n = np.rint(c)
                return {"ks": [[int(x) if abs(x - y) < 1e-6 else 777 for x, y in zip(r, w)] for r, w in zip(n, c)]}

            def hsp(suffix, rank):
                s.call("HS", {"what": name + suffix, "rank": rank}, lambda: getattr(L.H, name + suffix), coef)
            hsp("_GAMMA", 0)
            for i, c in enumerate(hs or ""):
                hsp("_%sS" % c, i + 1)
        ctx.session("TRecip", dict(EMPTY, orth=[]), go)


def c17(ctx, L):
    U = 10000

    def kpath(s, rng, A, loop, m, ri):
        arrs = [np.array(p, dtype=float) for p in A]
        if rng.random() < 0.3:
            arrs = [np.array(p) for p in A]          # integer arrays
        fr = rng.choice([1, 1, 1, 2, 4, 10])
        if fr > 1:             # arrays of different types, fractions among them
            arrs = [np.array([x // fr for x in p]) if all(x % fr == 0 for x in p) and rng.random() < 0.7 else np.array(p) / fr for p in A]
        pts = arrs if rng.random() < 0.7 else (tuple(arrs) if rng.random() < 0.5 else np.array(arrs))
        keep = [np.array(p) for p in arrs]
        kw = {}
        if not (loop and rng.random() < 0.5):
            kw["loop"] = loop
        if not (ri and rng.random() < 0.5):
            kw["return_indices"] = ri
        if m != 100 or rng.random() < 0.5:
            kw["min_num"] = m

        def f():
            r = L.H.KPath(pts, **kw)
            has = isinstance(r, tuple)
            k, ix = r if has else (r, [])
            k = np.asarray(k, dtype=float)
            if k.ndim != 2 or k.shape[1] != len(A[0]) or not np.all(np.isfinite(k)) or np.max(np.abs(k)) > 1000 / fr:
                ks = []
            else:
                ks = np.rint(k * fr * U).astype(int).tolist()
            return {"ks": ks, "ix": [int(i) for i in ix], "hasix": has,
                    "same": all(np.array_equal(a, b) for a, b in zip(keep, pts)) and len(pts) == len(A)}
        s.call("KPath", {"A": [list(p) for p in A], "loop": loop, "m": m, "ri": ri}, f, lambda r: r)
    def longpath(s, rng, A, loop, m):
        pts = [np.array(p, dtype=rng.choice([int, float])) for p in A]

        def f():
            k, ix = L.H.KPath(pts, min_num=m, loop=loop)
            n = len(k)
            if n > 10 ** 6 or k.shape != (n, len(A[0])) or not np.all(np.isfinite(k)) or np.max(np.abs(k)) > 2:
                return {"n": -1, "ix": [], "at": []}
            at = {0, n - 1, n // 2} | {rng.randrange(n) for _ in range(40)}
            for j in ix:
                at |= {x for x in (int(j) - 1, int(j), int(j) + 1) if 0 <= x < n}
            return {"n": n, "ix": [int(x) for x in ix], "at": [[x, np.rint(k[x] * U).astype(int).tolist()] for x in sorted(at)]}
        s.call("Long", {"A": A, "loop": loop, "m": m}, f, lambda r: r)
    jobs = [(g["A"], g["loop"], g["m"]) for g in ctx.gen if g["g"] == "kpath"]
    jobs = ctx.rng("kg").sample(jobs, min(len(jobs), ctx.n(400, 9999)))
    rng = ctx.rng("kpath")
    for j in range(ctx.n(500, 6000)):
        d = rng.choice([2, 2, 3])
        sp = rng.choice([1, 2, 4, 7])
        n = rng.choice([2, 2, 3, 3, 4, 5, 6, 8]) if j % 25 else rng.choice([9, 16, 17, 33, 40])
        A = []
        while len(A) < n:
            p = [rng.randrange(-sp, sp + 1) for _ in range(d)]
            if A and p == A[-1] and rng.random() < 0.97:
                continue
            A.append(p)
        if rng.random() < 0.1:
            A[-1] = list(A[0])
        m = rng.choice([1, 1, 2, 3, 4, 5, 7, 10, 13, 31, 50, 100])
        if n > 8:
            m = min(m, 7)
        elif m > 10:
            A = A[:4]
        jobs.append((A, rng.random() < 0.5, m))
    size = 25
    for i in range(0, len(jobs), size):
        def go(s, i=i):
            r = ctx.rng("kp", i)
            for A, loop, m in jobs[i:i + size]:
                kpath(s, r, A, loop, m, r.random() < 0.7)
        ctx.session("TKPath", {}, go)
    for i in range(ctx.n(6, 60)):
        def go(s):
            r = ctx.rng("kl", i)
            for _ in range(3):
                d = r.choice([2, 2, 3])
                A = [[r.randrange(-1, 2) for _ in range(d)]]
                while len(A) < r.choice([3, 4, 5, 6, 6, 20]):
                    p = list(A[-1])
                    c = r.randrange(d)
                    p[c] = r.choice([x for x in (-1, 0, 1) if x != p[c]])
                    A.append(p)
                loop = A[0] != A[-1] and sum(x != y for x, y in zip(A[0], A[-1])) == 1 and r.random() < 0.7
                m = r.choice([3000, 17000, 30000, 40000, 50000])
                longpath(s, r, A, loop, m)
        ctx.session("TKPath", {}, go)


def build(ctx, prop):
    L = lib()
    {"C16": c16, "C17": c17}[prop](ctx, L)


if __name__ == "__main__":
    main(build)
