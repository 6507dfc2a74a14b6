"""Lattices (C12-C15): clusters reached in MCLattice, seeded random clusters and
the generators, queried through the library; sites are projected onto the
integer frame of the specification."""
from common import *
import itertools
import numpy as np

S3 = 3 ** 0.5
FRAMES = {  # name -> (Gram, frame rows, Q = gs * |v|^2)
    "sq1": ([[1]], [[1.0]], 1),
    "sq": ([[1, 0], [0, 1]], [[1.0, 0.0], [0.0, 1.0]], 1),
    "sq3": ([[1, 0, 0], [0, 1, 0], [0, 0, 1]], np.eye(3).tolist(), 1),
    "hx": ([[2, 1], [1, 2]], [[1.0, 0.0], [0.5, S3 / 2]], 2),
    "hx3": ([[2, 1, 0], [1, 2, 0], [0, 0, 2]], [[1.0, 0.0, 0.0], [0.5, S3 / 2, 0.0], [0.0, 0.0, 1.0]], 2),
}
BADV = 99999


class Geo:
    """integer frame <-> real coordinates"""

    def __init__(self, frame, D=1, a=1.0, rot=None, off=None):
        self.G, F, self.gs = FRAMES[frame]
        self.d = len(F)
        self.D, self.a = D, a
        F = np.array(F) * a / D
        if rot is not None:
            F = F @ rot
        self.F, self.Fi = F, np.linalg.inv(F)
        self.c = np.zeros(self.d) if off is None else np.array(off, dtype=float)
        self.tol = 1e-10 * (a + float(np.max(np.abs(self.c))) + 1)

    def vec(self, n):
        return np.array(n, dtype=float) @ self.F

    def site(self, n):
        return self.vec(n) + self.c

    def ivec(self, v, slack=0.0):
        """slack: what the argument itself was moved by"""
        v = np.asarray(v, dtype=float)
        if v.shape != (self.d,) or not np.all(np.isfinite(v)):
            return [BADV] * self.d
        n = np.rint(v @ self.Fi)
        if np.max(np.abs(n)) > 100000 or np.max(np.abs(n @ self.F - v)) > slack + self.tol * (1 + float(np.max(np.abs(n)))):
            return [BADV] * self.d
        return [int(x) for x in n]

    def isite(self, v, slack=0.0):
        v = np.asarray(v, dtype=float)
        return self.ivec(v - self.c, slack) if v.shape == (self.d,) else [BADV] * self.d

    def d2(self, x):
        x = float(x)
        sc = self.gs * (self.D / self.a) ** 2
        m = round(x * x * sc)
        if m > 10 ** 8 or abs((m / sc) ** 0.5 - x) > 1.01e-4:
            return -1
        return m


def rotation(rng, d):
    if d == 1:
        return np.array([[rng.choice([1.0, -1.0])]])
    m = np.linalg.qr(np.array([[rng.gauss(0, 1) for _ in range(d)] for _ in range(d)]))[0]
    return m


def geo(rng, frame, D=1, plain=0.4, fine=0.0, tie=0.0):
    if rng.random() < plain:
        return Geo(frame, D)
    d = len(FRAMES[frame][0])
    if rng.random() < tie:      # lengths halfway between two values of four digits
        return Geo(frame, D, D * rng.choice([1.23455, 1.42005, 1.00005, 0.99995, 2.46005, (rng.randrange(3000, 40000) + 0.5) / 1e4]),
                   rotation(rng, d) if rng.random() < 0.8 else None)
    if rng.random() < fine:     # sites much closer to each other than one unit
        return Geo(frame, D, rng.choice([0.02, 0.006, 0.003]) * D,
                   rotation(rng, d) if rng.random() < 0.4 else None)
    far = rng.random() < 0.25   # large lattice constants, clusters far away from the origin
    return Geo(frame, D, rng.choice([250.0, 1234.56789, 4096.3, 1.0, 1.5]) if far else rng.choice([1.0, 1.0, 2.0, 0.5, 1.5, 2.46]),
               rotation(rng, d) if rng.random() < 0.6 else None,
               [rng.choice([300, 1000, 5000]) * rng.uniform(-1, 1) for _ in range(d)] if far and rng.random() < 0.7 else
               [rng.uniform(-3, 3) for _ in range(d)] if rng.random() < 0.5 else None)


def trans_of(V, w):
    """integer coefficients of w over V, or None"""
    V, w = np.array(V, dtype=float), np.array(w, dtype=float)
    n = np.rint(np.linalg.lstsq(V.T, w, rcond=None)[0])
    return [int(x) for x in n] if np.max(np.abs(n @ V - w)) < 1e-6 else None


def rand_cluster(rng, frame, npts, k, span, vspan):
    d = len(FRAMES[frame][0])
    while True:
        V = [[rng.randrange(-vspan, vspan + 1) for _ in range(d)] for _ in range(k)]
        if np.linalg.matrix_rank(np.array(V)) < k:
            continue
        # keep boxes small: not too skew
        B = np.linalg.norm(np.linalg.pinv(np.array(V, dtype=float)), axis=0)
        if np.max(B) * min(np.linalg.norm(np.array(V), axis=1)) > (6 if d < 3 else 2.5):
            continue
        P = []
        for _ in range(60):
            p = [rng.randrange(-span, span + 1) for _ in range(d)]
            if all(trans_of(V, np.array(p) - np.array(q)) is None for q in P):
                P.append(p)
            if len(P) == npts:
                break
        return P, V


def elongated(rng):
    """cells much longer one way than the other"""
    fr = rng.choice(["sq", "sq", "hx", "sq3"])
    d = len(FRAMES[fr][0])
    k = rng.choice([2, 2, d]) if d == 3 else 2
    ls = [1] * d
    ls[rng.randrange(k)] = rng.choice([9, 12, 16, 21])
    V = [[ls[i] * (i == j) for j in range(d)] for i in range(k)]
    if rng.random() < 0.4:
        V[0][1] += rng.choice([-1, 1])
        if abs(np.linalg.det(np.array(V + np.eye(d, dtype=int)[k:].tolist(), dtype=float))) < 0.5:
            V[0][1] = 0 if ls[0] != 1 or True else V[0][1]
    P = [[rng.randrange(-1, 2) for _ in range(d)]]
    if rng.random() < 0.5:
        q = [rng.randrange(0, max(ls[j], 2)) for j in range(d)]
        if trans_of(V, np.array(q) - np.array(P[0])) is None:
            P.append(q)
    return fr, P, V


class Lat:
    def __init__(self, s, rng, g, P, V, L, spoil=False):
        self.s, self.rng, self.g, self.P, self.V, self.L = s, rng, g, P, V, L
        s.rec["lat"] = {"d": g.d, "G": g.G, "P": P, "V": V}
        pts = np.array([g.site(p) for p in P])
        vec = np.array([g.vec(v) for v in V])
        w = rng.randrange(3)
        if w == 1:
            pts, vec = np.asfortranarray(pts), np.asfortranarray(vec)
        self.lat = L.Lattice(pts, vec, "x") if rng.random() < 0.7 else L.Lattice(points=pts, vectors=vec)
        if spoil:
            pts += 17.3
            vec *= -3

    def attr(self, spoil=False):
        g = self.g

        def f():
            l = self.lat
            P, V, B = l.points, l.vectors, l.bs
            out = {"P": [g.isite(p) for p in P], "V": [g.ivec(v) for v in V],
                   "n": [int(l.point_num), int(l.space_dim), int(l.trans_dim)]}
            if spoil:
                P += 5
                V *= 2
                B[:] = 0
            return out
        self.s.call("Attr", {}, f, lambda v: v)

    def scribble(self):
        """the arrays handed out belong to the caller"""
        l = self.lat
        for a, f in ((l.points, 1.7), (l.vectors, 2.0), (l.bs, -1.0)):
            if a.flags.writeable:
                a *= f
                a += 0.3

    def arg(self, x, off):
        v = self.g.site(x)
        if off:
            e = np.array([self.rng.uniform(-1, 1) for _ in range(self.g.d)])
            h = self.rng.choice([1e-3, 1e-2, 0.03]) * min(self.g.a, self.rng.choice([1.0, self.g.a])) if self.g.a > 0.2 * self.g.D else 0.2 * self.g.a / self.g.D
            v = v + e / np.linalg.norm(e) * h
        elif self.rng.random() < 0.4:
            v = v + self.rng.choice([1e-6, -1e-7, 1e-9])
        return v

    def decomp(self, x, off=False, spoil=False):
        v = self.arg(x, off)
        keep = v.copy()

        def f():
            p, t = self.lat.decompose(v)
            out = {"p": self.g.isite(p), "dr": self.g.ivec(t, 2e-6), "same": bool(np.array_equal(v, keep))}
            if spoil:
                p += 3
                t += 3
            return out
        self.s.call("Decomp", {"x": list(x), "off": off}, f, lambda r: r)

    def index(self, x, off=False, fold=False):
        v = self.arg(x, off)
        keep = v.copy()

        def f():
            i = self.lat.getIndex(v, fold=True) if fold else (
                self.lat.getIndex(v) if self.rng.random() < 0.5 else self.lat.getIndex(v, fold=False))
            return {"i": int(i), "same": bool(np.array_equal(v, keep))}
        self.s.call("Index", {"x": list(x), "off": off, "fold": fold}, f, lambda r: r)

    def getsite(self, i, spoil=False):
        def f():
            p = self.lat.getSite(i)
            out = {"p": self.g.isite(p)}
            if spoil:
                p += 9
            return out
        self.s.call("GetSite", {"i": i}, f, lambda r: r)

    def inc(self, x, off=False):
        v = self.arg(x, off)
        self.s.call("InC", {"x": list(x), "off": off}, lambda: self.lat.in_cluster(v), lambda b: {"b": bool(b)})

    def nd(self, n):
        self.s.call("ND", {"n": n}, lambda: self.lat.neighbor_distance(n), lambda v: {"d2": self.g.d2(v)})

    def bonds(self, n, only=True, fold=False, spoil=False):
        g = self.g

        def bond(b):
            p, q = b.endpoints
            return [g.isite(np.atleast_1d(p)), g.isite(np.atleast_1d(q))]

        def f():
            kw = {}
            if not only or self.rng.random() < 0.5:
                kw["only"] = only
            if fold or self.rng.random() < 0.5:
                kw["fold"] = fold
            intra, inter = self.lat.bonds(n, **kw)
            out = {"intra": [bond(b) for b in intra], "inter": [bond(b) for b in inter or []]}
            if spoil:
                intra.clear()
                if inter:
                    inter.clear()
            return out
        self.s.call("Bonds", {"n": n, "only": only, "fold": fold}, f, lambda r: r)

    def some_site(self, reach):
        p = self.rng.choice(self.P)
        n = [self.rng.randrange(-reach, reach + 1) for _ in self.V]
        return [int(x) for x in np.array(p) + np.array(n) @ np.array(self.V)]

    def other_site(self, span):
        return [self.rng.randrange(-span, span + 1) for _ in range(self.g.d)]


def lib():
    import HamiltonianPy as H

    class L:
        pass
    L.H = H
    L.Lattice = H.Lattice
    L.gen, L.special = H.lattice_generator, H.special_cluster
    return L


# the parents of the generated clusters: frame, denominator, cell points, translations
PARENT = {
    "chain": ("sq1", 1, [[0]], [[1]]),
    "square": ("sq", 2, [[0, 0]], [[2, 0], [0, 2]]),
    "triangle": ("hx", 6, [[0, 0]], [[6, 0], [0, 6]]),
    "honeycomb": ("hx", 6, [[1, -2], [-1, 2]], [[6, 0], [0, 6]]),
    "kagome": ("hx", 6, [[0, 0], [0, 3], [3, 0]], [[6, 0], [0, 6]]),
    "cubic": ("sq3", 1, [[0, 0, 0]], [[1, 0, 0], [0, 1, 0], [0, 0, 1]]),
}
SPECIAL = {
    "square": ({"square_cross": 12, "square_12": 12, "cross": 12, "square_z": 10, "z": 10, "square_s": 10, "s": 10}),
    "triangle": ({"triangle_star": 13, "triangle_13": 13, "star": 13, "SD": 13}),
    "honeycomb": ({"honeycomb_benzene": 6, "honeycomb_6": 6, "benzene": 6, "honeycomb_diphenyl": 10,
                   "honeycomb_10": 10, "diphenyl": 10, "honeycomb_gear": 24, "honeycomb_24": 24, "gear": 24}),
}


def near_shells(rng):
    """neighbour shells that differ by less than one percent"""
    fr = rng.choice(["sq", "sq", "hx", "sq3"])
    l = rng.choice([110, 121, 137])
    e = rng.choice([1, 1, 2])
    V = {"sq": [[l, 0], [0, l + e]], "hx": [[l, 0], [-e, l + e]], "sq3": [[60, 0, 0], [0, 61, 0]]}[fr]
    P = [[0] * len(V[0])]
    if rng.random() < 0.4:
        P.append([rng.randrange(40, 60), rng.randrange(0, 8)] + [0] * (len(V[0]) - 2))
    return fr, P, V


MANY = [("chain", (70, 1, 1)), ("chain", (131, 1, 1)), ("square", (9, 8, 1)), ("triangle", (10, 7, 1)), ("honeycomb", (6, 6, 1)),
        ("kagome", (5, 5, 1)), ("cubic", (3, 4, 6)), ("square", (2, 40, 1)), ("square", (12, 11, 1))]


def clusters(ctx, L, tag, nrand, ncat, ngen, maxpts=6, nlong=0, fine=0.0, tie=0.0, nnear=0, nmany=0):
    """yield (key, fn(s, rng) -> Lat) over all sources of clusters"""
    gen = [g for g in ctx.gen if g["g"] == "cluster"]
    for j, g in enumerate(ctx.rng(tag, "gen").sample(gen, min(ngen, len(gen)))):
        def mk(s, rng, g=g):
            fr = "sq" if g["G"] == [[1, 0], [0, 1]] else "hx"
            return Lat(s, rng, geo(rng, fr, 1, 0.4, fine, tie), g["P"], g["V"], L, spoil=rng.random() < 0.3)
        yield ("g", j), mk
    for j in range(nrand):
        def mk(s, rng, j=j):
            fr = rng.choice(["sq1", "sq", "sq", "hx", "hx", "sq3", "hx3"])
            d = len(FRAMES[fr][0])
            k = d if rng.random() < 0.75 else rng.randrange(1, d + 1)
            D = rng.choice([1, 1, 2, 3])
            big = d == 3
            P, V = rand_cluster(rng, fr, rng.choice([1, 2, 3] if big else [1, 2, 3, 4, maxpts]), k,
                                2 if big else 4, 2 if big else rng.choice([2, 3, 5]))
            return Lat(s, rng, geo(rng, fr, D, 0.4, fine, tie), P, V, L, spoil=rng.random() < 0.3)
        yield ("r", j), mk
    for j in range(nlong):
        def mk(s, rng, j=j):
            fr, P, V = elongated(rng)
            return Lat(s, rng, geo(rng, fr), P, V, L, spoil=rng.random() < 0.3)
        yield ("l", j), mk
    for j in range(nnear):
        def mk(s, rng, j=j):
            fr, P, V = near_shells(rng)
            return Lat(s, rng, Geo(fr, 1, rng.choice([1.0, 0.1, 0.3]), rotation(rng, len(V[0])) if rng.random() < 0.3 else None),
                       P, V, L)
        yield ("n", j), mk
    cat = [(w, n) for w in PARENT for n in [(1, 1, 1), (2, 1, 1), (1, 3, 1), (2, 2, 1), (3, 2, 2), (4, 1, 1), (2, 2, 2)]]
    cat += [(w, None) for t in SPECIAL.values() for w in t]
    many = ctx.rng(tag, "many").sample(MANY, min(nmany, len(MANY)))
    for j, (w, n) in enumerate(many + ctx.rng(tag, "cat").sample(cat, min(ncat, len(cat)))):
        def mk(s, rng, w=w, n=n):
            par = w if n else [t for t in SPECIAL if w in SPECIAL[t]][0]
            fr, D, _, _ = PARENT[par]
            lat = L.gen(w, *n) if n else L.special(w)
            g = Geo(fr, D)
            o = object.__new__(Lat)
            o.s, o.rng, o.g, o.L, o.lat = s, rng, g, L, lat
            o.P, o.V = [g.isite(p) for p in lat.points], [g.ivec(v) for v in lat.vectors]
            if BADV in sum(o.P + o.V, []):
                raise ValueError("cluster is not on its parent lattice")
            s.rec["lat"] = {"d": g.d, "G": g.G, "P": o.P, "V": o.V}
            return o
        yield ("m" if j < len(many) else "c", j), mk


EMPTY = {"lat": {"d": 1, "G": [[1]], "P": [[0]], "V": [[1]]}}


def c12(ctx, L):
    for key, mk in clusters(ctx, L, "c12", ctx.n(50, 600), ctx.n(20, 99), ctx.n(60, 3000), fine=0.3, nmany=ctx.n(5, 9)):
        def go(s, key=key, mk=mk):
            rng = ctx.rng("c12", *key)
            t = mk(s, rng)
            t.attr(spoil=rng.random() < 0.5)
            for _ in range(rng.choice([6, 10, 14])):
                w = rng.randrange(11)
                reach = rng.choice([0, 1, 1, 2, 3, 5] + ([12, 60, 300, 1500] if len(t.V) == 1 else [9, 20] if len(t.V) == 2 else [9]))
                if reach * max(abs(c) for v in t.V for c in v) > 50000:
                    reach = 60
                x = t.some_site(reach)
                y = t.other_site(6 * t.g.D)
                sp = rng.random() < 0.4
                if w <= 2:
                    t.decomp(x, spoil=sp)
                elif w == 3:
                    t.decomp(y)
                elif w == 4:
                    t.decomp(x, off=True)
                elif w == 5:
                    t.index(x, fold=True)
                    t.index(y, fold=True)
                elif w == 6:
                    t.index(rng.choice(t.P))
                    t.index(x, off=True, fold=rng.random() < 0.5)
                elif w == 7:
                    t.index(x)
                    t.inc(x)
                elif w == 8:
                    t.inc(rng.choice(t.P))
                    t.inc(y)
                    t.inc(x, off=True)
                elif w == 9:
                    t.getsite(rng.randrange(len(t.P)), spoil=sp)
                    t.getsite(rng.choice([-1, len(t.P), len(t.P) - 1]))
                elif w == 10 and t.g.a > 0.2 * t.g.D:
                    t.bonds(1, fold=rng.random() < 0.5, spoil=True)
                    t.nd(rng.randrange(3))
            # every translation in a small box
            for n in itertools.product([-2, 0, 1], repeat=len(t.V)):
                if len(t.V) < 3 or rng.random() < 0.3:
                    p = rng.choice(t.P)
                    t.decomp([int(x) for x in np.array(p) + np.array(n) @ np.array(t.V)])
            # neighbouring sites of one cell, one after the other
            for _ in range(2):
                n = [rng.choice([-2, -1, 0, 1, 3]) for _ in t.V]
                for p in rng.sample(t.P, min(len(t.P), 5)):
                    t.index([int(x) for x in np.array(p) + np.array(n) @ np.array(t.V)], fold=True)
            # whatever was asked before, the cluster is still the one given
            for i, p in enumerate(t.P):
                if len(t.P) < 8 or rng.random() < 0.3:
                    t.getsite(i)
                    t.index(p, fold=rng.random() < 0.3)
                    t.inc(p)
            for _ in range(2):
                t.index(rng.choice(t.P), off=True, fold=rng.random() < 0.3)
                t.inc(rng.choice(t.P), off=True)
            t.attr()
        ctx.session("TLattice", EMPTY, go)


def c13(ctx, L):
    for key, mk in clusters(ctx, L, "c13", ctx.n(60, 600), ctx.n(40, 99), ctx.n(80, 3000), nlong=ctx.n(24, 200), tie=0.15, nnear=ctx.n(12, 120), nmany=ctx.n(5, 9)):
        def go(s, key=key, mk=mk):
            rng = ctx.rng("c13", *key)
            t = mk(s, rng)
            d3 = t.g.d == 3
            ns = list(range(0, 4 if d3 else rng.choice([5, 7, 9])))
            if key[0] == "l":
                ns = sorted({0, 1, 2, rng.choice([7, 9]), rng.choice([10, 12, 14] if not d3 else [5])})
            if key[0] == "n":
                ns = [0, 1, 2, 3, 4]
            if key[0] == "m":
                ns = [0, 1, 2]
            if key[0] in "gr" and not d3 and len(t.P) <= 3 and rng.random() < 0.4:    # far shells
                ns = [0, 1, 2, rng.choice([15, 16, 17]), rng.choice([20, 24, 31])]
            mode = rng.randrange(4)
            if mode == 1:
                ns.reverse()
            elif mode >= 2:
                rng.shuffle(ns)
            if rng.random() < 0.3:
                t.scribble()
            for n in ns:
                t.nd(n)
                if mode == 3 and rng.random() < 0.3:
                    t.bonds(rng.randrange(0, 3))
                    t.decomp(t.some_site(2))
            t.nd(rng.choice(ns))
            t.nd(ns[0])
        ctx.session("TLattice", EMPTY, go)


def c14(ctx, L):
    for key, mk in clusters(ctx, L, "c14", ctx.n(60, 600), ctx.n(30, 99), ctx.n(70, 3000), nlong=ctx.n(10, 100), tie=0.15, nnear=ctx.n(24, 200), nmany=ctx.n(9, 9)):
        def go(s, key=key, mk=mk):
            rng = ctx.rng("c14", *key)
            t = mk(s, rng)
            big = len(t.P) * (3 ** t.g.d) > 80
            if rng.random() < 0.3:
                t.scribble()
            if key[0] == "m":
                for o, f in rng.sample([(True, True), (True, False), (False, False)], 2):
                    t.bonds(1, o, f)
                return
            calls = [(n, o, f) for n in (0, 1, 2, 3) for o in (True, False) for f in (True, False)]
            calls = rng.sample(calls, 3 if big else 6)
            if key[0] == "l" and t.g.d < 3:
                calls.append((rng.choice([9, 10, 11]), True, rng.random() < 0.3))
            if rng.random() < 0.5:
                calls.append((1, True, False))
            if not big:
                calls.append((rng.choice([3, 4]), rng.random() < 0.7, rng.random() < 0.3))
            if not big and len(t.P) * t.g.d <= 2 and rng.random() < 0.5:        # all bonds up to distant neighbours
                calls.append((rng.choice([5, 6]), False, rng.random() < 0.3))
            for n, o, f in calls:
                t.bonds(n, o, f, spoil=rng.random() < 0.3)
                if rng.random() < 0.2:
                    t.nd(rng.randrange(5))
            n, o, f = calls[0]
            t.bonds(n, o, f)
        ctx.session("TLattice", EMPTY, go)


def c15(ctx, L):
    def gcall(s, par, f, badname=False, bad=False, sites=0, nums=(1,), shifted=False, what=""):
        g = Geo(*PARENT[par][:2])

        def look(l):
            out = {"P": [g.isite(p) for p in l.points], "V": [g.ivec(v) for v in l.vectors]}
            if isinstance(l, L.Lattice):
                for a in (l.points, l.vectors, l.bs):       # what is handed out belongs to the caller
                    if a.flags.writeable:
                        a += 0.4
            return out
        s.call("Gen", {"what": what, "bad": bad, "badname": badname, "sites": sites, "nums": list(nums),
                       "shifted": shifted}, f, look)
    for par in PARENT:
        fr, D, P, V = PARENT[par]
        hdr = {"lat": {"d": len(V), "G": FRAMES[fr][0], "P": P, "V": V}}

        def go(s, par=par, P=P, V=V):
            rng = ctx.rng("gen", par)
            k = len(V)
            top = ctx.n({1: 12, 2: 5, 3: 3}[k], {1: 40, 2: 9, 3: 4}[k])
            for nums in itertools.product(range(1, top + 1), repeat=k):
                m = len(P) * int(np.prod(nums))
                if m > ctx.n(60, 120):
                    continue
                extra = [rng.choice([1, 1, 2]) for _ in range(3 - k)]
                full = list(nums) + extra
                w = rng.randrange(3)
                if w == 0:
                    f = lambda: L.gen(par, *full)
                elif w == 1:
                    f = lambda: L.gen(par, *nums)
                else:
                    f = lambda: L.gen(which=par, **{"num%d" % i: x for i, x in enumerate(full)})
                gcall(s, par, f, sites=m, nums=nums, what="%s%s" % (par, nums))
            # clusters of many cells: counts around round numbers
            for _ in range(ctx.n(1, 4)):
                nums = {1: (rng.choice([101, 130, 257]),), 2: rng.choice([(11, 10), (3, 40), (101, 1), (1, 129)]),
                        3: rng.choice([(5, 5, 5), (2, 3, 20), (1, 1, 103)])}[k]
                m = len(P) * int(np.prod(nums))
                gcall(s, par, lambda: L.gen(par, *nums), sites=m, nums=nums, what="%s%s" % (par, nums))
            for bad in (0, -1, 1.0, "2", None):
                args = [1] * 3
                args[rng.randrange(k)] = bad
                gcall(s, par, lambda: L.gen(par, *args), bad=True, what=repr(args))
            for name in ("Square", "", "hex", par + " ", "cell", par.upper(), None, par + "(2,2)", " " + par, par[:-1],
                         par + "_cell", par.title(), par[0], rng.choice(["cross", "SD", "gear", "benzene", "honeycomb_6"])):
                gcall(s, par, lambda: L.gen(name), bad=True, badname=True, what=repr(name))
        ctx.session("TLattice", hdr, go)
        for w, n in SPECIAL.get(par, {}).items():
            def go(s, par=par, w=w, n=n):
                for _ in range(2):
                    gcall(s, par, lambda: L.special(w), sites=n, shifted=True, what=w)
                for name in (w.upper() if w != "SD" else "sd", w + "_", "square", "", w + "(2,2)", " " + w, w[:-1] if len(w) > 2 else "q", w + "_cell", w + " "):
                    gcall(s, par, lambda: L.special(name), bad=True, badname=True, what=name)
            ctx.session("TLattice", hdr, go)
        # the published cell constants
        if par != "chain":
            continue
    consts = [(p, p.upper() + "_CELL", len(PARENT[p][2]), False) for p in PARENT]
    consts += [(p, w.upper(), SPECIAL[p][w], True) for p in SPECIAL for w in SPECIAL[p]
               if w.startswith(p) and not w[-1].isdigit()]
    for par, name, n, sh in consts:
        fr, D, P, V = PARENT[par]
        hdr = {"lat": {"d": len(V), "G": FRAMES[fr][0], "P": P, "V": V}}

        def go(s, par=par, name=name, n=n, sh=sh, V=V):
            class O:
                pass

            def f():
                o = O()
                o.points, o.vectors = getattr(L.H, name + "_POINTS"), getattr(L.H, name + "_AS")
                return o
            gcall(s, par, f, sites=n, nums=[1] * len(V), shifted=sh, what=name)
        ctx.session("TLattice", hdr, go)


def build(ctx, prop):
    L = lib()
    {"C12": c12, "C13": c13, "C14": c14, "C15": c15}[prop](ctx, L)


if __name__ == "__main__":
    main(build)
