"""Krylov projections (C19) and Green functions (C20, C21) on Gaussian-integer
data generated by MCKrylov / MCGreen and seeded random instances."""
from common import *
from fractions import Fraction as Fr
import numpy as np
import scipy.sparse as sp


class L:
    pass


def lib():
    import HamiltonianPy as H
    from HamiltonianPy import lanczos
    from HamiltonianPy import GreenFunction as G
    L.H, L.K, L.G = H, lanczos, G


def cz(v):
    return np.array([complex(*x) for x in v])


def mat(M):
    return np.array([[complex(*x) for x in r] for r in M])


def herm(rng, n, dmax, omax, cplx, dens):
    M = [[[0, 0] for _ in range(n)] for _ in range(n)]
    for i in range(n):
        M[i][i] = [rng.randrange(-dmax, dmax + 1), 0]
        for j in range(i):
            if rng.random() < dens:
                a, b = rng.randrange(-omax, omax + 1), rng.randrange(-1, 2) if cplx else 0
                M[i][j], M[j][i] = [a, b], [a, -b]
    return M


def vec(rng, n, m, cplx):
    while True:
        v = [[rng.randrange(-m, m + 1), rng.randrange(-m, m + 1) if cplx else 0] for _ in range(n)]
        if any(x != [0, 0] for x in v):
            return v


class Q(tuple):
    """Gaussian rational"""
    def __new__(cls, a, b=0):
        return tuple.__new__(cls, (Fr(a), Fr(b)))

    def __add__(s, o): return Q(s[0] + o[0], s[1] + o[1])
    def __sub__(s, o): return Q(s[0] - o[0], s[1] - o[1])
    def __mul__(s, o): return Q(s[0] * o[0] - s[1] * o[1], s[0] * o[1] + s[1] * o[0])
    def conj(s): return Q(s[0], -s[1])
    def zero(s): return s[0] == 0 and s[1] == 0


def betas2(M, v):
    """squared norms of the orthogonalised Krylov steps (exact), rank"""
    M = [[Q(*x) for x in r] for r in M]
    cur = [Q(*x) for x in v]
    basis, out = [], []
    ip = lambda a, b: sum((x.conj() * y for x, y in zip(a, b)), Q(0))
    for _ in range(len(M) + 1):
        w = cur
        for u, n2 in basis:
            c = ip(u, w) * Q(Fr(1) / n2)
            w = [x - c * y for x, y in zip(w, u)]
        n2 = ip(w, w)[0]
        if n2 == 0:
            break
        if basis:
            out.append(n2 / basis[-1][1])
        basis.append((w, n2))
        cur = [sum((r[j] * w[j] for j in range(len(w))), Q(0)) for r in M]
    return out, len(basis)


def wellcond(M, v):
    if all(x == [0, 0] for x in v):
        return True
    b, _ = betas2(M, v)
    return all(x >= Fr(1, 100) for x in b)


SC = [1, 1, 1, 2, 0.5, 100.0, 0.01, 1j, -1, 0.3 + 0.4j, 1e3]


def layout(rng, M):
    A = mat(M)
    if np.all(A.imag == 0) and rng.random() < 0.7:
        A = A.real.copy()
        if rng.random() < 0.3:
            A = A.astype(int)
    w = rng.randrange(5)
    if w == 1:
        return sp.csr_matrix(A)
    if w == 2:
        return sp.csc_matrix(A)
    if w == 3:
        return np.asfortranarray(A)
    return A


def dense(A):
    return np.array(A.toarray() if sp.issparse(A) else A)


def arr(v, c, rng):
    a = cz(v) * c
    if np.all(a.imag == 0) and rng.random() < 0.7:
        a = a.real.copy()
        if np.all(a == np.rint(a)) and rng.random() < 0.3:
            a = a.astype(int)
    return a


BIG = 10 ** 9


def ri(x, unit):
    x = complex(x)
    if not (np.isfinite(x.real) and np.isfinite(x.imag)):
        return [BIG, BIG]
    f = lambda y: int(max(-BIG, min(BIG, round(y * unit))))
    return [f(x.real), f(x.imag)]


class KSession:
    def __init__(self, s, rng, M, vecs):
        self.s, self.rng = s, rng
        s.rec["M"], s.rec["vecs"] = M, vecs
        self.M, self.vecs = M, vecs
        self.A = layout(rng, M)
        self.sc = [rng.choice(SC) for _ in vecs]
        self.arrs = [arr(v, c, rng) for v, c in zip(vecs, self.sc)]
        nrm = float(np.max(np.sum(np.abs(mat(M)), axis=0))) if len(M) else 1.0
        vm = max([1.0] + [float(np.linalg.norm(cz(v))) for v in vecs])
        self.K = 0
        while self.K < 8 and vm * vm * max(nrm, 1.0) ** (self.K + 1) < 2e6:
            self.K += 1

    def names(self, keys):
        kind = self.rng.randrange(3)
        f = [lambda i: i, lambda i: "v%d" % i, lambda i: (i, "x")][kind]
        return [f(i) for i in keys]

    def proj(self, tup, vi, cv, keys, names):
        T, P = tup
        n = int(T.shape[0])
        real = T.dtype.kind == "f" and T.ndim == 2 and T.shape[0] == T.shape[1]
        Ti = [[ri(x, 1e6)[0] for x in r] for r in T]
        out = {"n": n, "real": bool(real), "T": Ti, "pl": [len(P[m]) for m in names] if set(P) == set(names) else [],
               "pv": [], "mom": []}
        if vi in keys:
            # the key's own scale may differ from the start vector's
            i = keys.index(vi)
            ck = self.sc[vi - 1]
            ph = cv / abs(cv)      # <e1|v> = |v| exactly when v is the start itself
            out["pv"] = [ri(x / ck * ph, 1e3) for x in P[names[i]]]
        nv = float(np.linalg.norm(cz(self.vecs[vi - 1])))
        e = np.zeros(n)
        e[0] = nv * abs(cv)
        mom = []
        for q in range(self.K + 1):
            mom.append([ri(np.vdot(P[m], e) / np.conj(self.sc[kk - 1]) / cv, 100)
                        if len(P[m]) == n else [BIG, BIG] for kk, m in zip(keys, names)])
            e = T @ e
        out["mom"] = mom
        return out

    def same(self, keep):
        A, vs = keep
        return bool(np.array_equal(A, dense(self.A)) and all(np.array_equal(x, y) for x, y in zip(vs, self.arrs)))

    def keep(self):
        return dense(self.A), [a.copy() for a in self.arrs]

    def kry(self, vi, lim, keys):
        names = self.names(keys)
        own = self.rng.random() < 0.6
        cv = self.sc[vi - 1] if own else self.rng.choice(SC)
        v0 = self.arrs[vi - 1] if own else arr(self.vecs[vi - 1], cv, self.rng)
        keep, v0k = self.keep(), v0.copy()
        vs = {m: self.arrs[i - 1] for m, i in zip(names, keys)}
        kw = {} if lim == 200 and self.rng.random() < 0.8 else {"krylov_space_dim": lim}

        def f():
            r = L.K.KrylovRepresentation(self.A, vs, v0, **kw)
            out = self.proj(r, vi, cv, keys, names)
            out["same"] = self.same(keep) and bool(np.array_equal(v0, v0k)) and list(vs) == names
            return out
        self.s.call("Kry", {"v": vi, "lim": lim, "keys": keys, "K": self.K}, f, lambda r: r)

    def multi(self, lim, keys):
        if keys and self.rng.random() < 0.1:        # many start vectors, some of them equal
            keys = keys + [self.rng.choice(keys) for _ in range(self.rng.choice([2, 6, 9]))]
        names = self.names(keys)
        if len(set(keys)) < len(keys):
            names = [(m, j) for j, m in enumerate(names)]
        keep = self.keep()
        vs = {m: self.arrs[i - 1] for m, i in zip(names, keys)}
        kw = {} if lim == 200 and self.rng.random() < 0.8 else {"krylov_space_dim": lim}

        def f():
            Ms, Ps = L.K.MultiKrylov(self.A, vs, **kw)
            ok = set(Ms) == set(names) and set(Ps) == set(names)
            res = [self.proj((Ms[m], Ps[m]), i, self.sc[i - 1], keys, names) for m, i in zip(names, keys)] if ok else []
            return {"res": res, "same": self.same(keep) and list(vs) == names}
        self.s.call("Multi", {"lim": lim, "keys": keys, "K": self.K}, f, lambda r: r)


class PSession:
    """paths: chains of basis states in any order and phase, of any size"""

    def __init__(self, s, rng, n):
        self.s, self.rng, self.n = s, rng, n
        cplx = rng.random() < 0.6
        a = [rng.choice([0, 10000, -20000, 35000, 2500]) for _ in range(n)]
        b = [rng.choice([10000, 10000, 15000, 20000, 400, 40, 3]) for _ in range(n - 1)]
        for _ in range(rng.choice([0, 0, 1])):
            if n > 1:
                b[rng.randrange(n - 1)] = 0
        f = [rng.randrange(4) if cplx else 2 * rng.randrange(2) for _ in range(n)]
        pos = list(range(1, n + 1))
        rng.shuffle(pos)
        self.a, self.b, self.f, self.pos = a, b, f, pos
        I = [1, 1j, -1, -1j]
        A = np.zeros((n, n), dtype=complex)
        for i in range(n):
            A[pos[i] - 1, pos[i] - 1] = a[i] / 1e4
            if i + 1 < n:
                x, y = pos[i] - 1, pos[i + 1] - 1
                v = I[(f[i] + 3 * f[i + 1]) % 4] * b[i] / 1e4
                A[x, y], A[y, x] = v, np.conj(v)
        if not cplx and rng.random() < 0.8:
            A = A.real.copy()
        w = rng.randrange(4)
        self.A = sp.csr_matrix(A) if w == 1 else sp.csc_matrix(A) if w == 2 else np.asfortranarray(A) if w == 3 else A
        free = lambda p: p == 1 or p == n or b[p - 2] == 0 or b[p - 1] == 0
        starts = [p for p in range(1, n + 1) if free(p)]
        self.vecs, self.arrs = [], []
        for _ in range(rng.choice([1, 2, 3])):
            p, g, m = rng.choice(starts), rng.randrange(4) if cplx else 2 * rng.randrange(2), rng.choice([1, 1, 2, 5])
            c = I[g] * m
            self.add(p, g, [[pos[p - 1], int(c.real), int(c.imag)]])
        self.ns = len(self.vecs)
        for _ in range(rng.choice([1, 2])):
            u = {}
            for r in rng.sample(range(1, n + 1), min(n, rng.choice([1, 3, n]))):
                c = [rng.randrange(-3, 4), rng.randrange(-3, 4) if cplx else 0]
                if c != [0, 0]:
                    u[r] = c
            self.add(0, 0, [[r] + c for r, c in sorted(u.items())])
        s.rec.update(M=[], vecs=[], path={"a": a, "b": b, "f": f, "pos": pos}, pvecs=self.vecs)

    def add(self, p, g, u):
        self.vecs.append({"p": p, "g": g, "u": u})
        v = np.zeros(self.n, dtype=complex)
        for r, x, y in u:
            v[r - 1] = x + 1j * y
        if np.all(v.imag == 0) and self.rng.random() < 0.7:
            v = v.real.copy()
            if self.rng.random() < 0.3:
                v = v.astype(int)
        self.arrs.append(v)

    def proj(self, tup, names):
        T, P = tup
        T = np.asarray(T)
        n = int(T.shape[0])
        off = T - np.diag(np.diag(T)) - np.diag(np.diag(T, 1), 1) - np.diag(np.diag(T, -1), -1)
        r6 = lambda q: [ri(x, 1e6)[0] for x in q]
        pv = []
        for m in names:
            l = []
            for j, x in enumerate(P[m]):
                v = ri(x, 1e3)
                if v != [0, 0]:
                    l.append([j + 1] + v)
            pv.append(l)
        return {"n": n, "d": r6(np.diag(T)), "up": r6(np.diag(T, 1)), "lo": r6(np.diag(T, -1)),
                "tri": bool(T.shape == (n, n) and T.dtype.kind == "f" and np.max(np.abs(off)) < 1e-9),
                "pl": [len(P[m]) for m in names], "pv": pv if set(P) == set(names) else []}

    def limit(self):
        lim = self.rng.choice([200, 200, 1, 2, 12, 30, 33, self.n - 1, self.n, self.n + 7, 250])
        lim = max(lim, 1)
        return lim, ({} if lim == 200 and self.rng.random() < 0.7 else {"krylov_space_dim": lim})

    def kry(self):
        rng = self.rng
        vi = rng.randrange(1, self.ns + 1)
        keys = rng.sample(range(1, len(self.vecs) + 1), rng.randrange(0, len(self.vecs) + 1))
        names = ["k%d" % i for i in keys]
        lim, kw = self.limit()
        kA, kv = dense(self.A), [x.copy() for x in self.arrs]

        def f():
            r = L.K.KrylovRepresentation(self.A, {m: self.arrs[i - 1] for m, i in zip(names, keys)}, self.arrs[vi - 1], **kw)
            out = self.proj(r, names)
            out["same"] = bool(np.array_equal(kA, dense(self.A)) and all(np.array_equal(x, y) for x, y in zip(kv, self.arrs)))
            return out
        self.s.call("PKry", {"v": vi, "lim": lim, "keys": keys}, f, lambda r: r)

    def multi(self):
        rng = self.rng
        keys = rng.sample(range(1, self.ns + 1), rng.randrange(1, self.ns + 1))
        names = ["k%d" % i for i in keys]
        lim, kw = self.limit()
        kA, kv = dense(self.A), [x.copy() for x in self.arrs]

        def f():
            Ms, Ps = L.K.MultiKrylov(self.A, {m: self.arrs[i - 1] for m, i in zip(names, keys)}, **kw)
            ok = set(Ms) == set(names) == set(Ps)
            return {"res": [self.proj((Ms[m], Ps[m]), names) for m in names] if ok else [],
                    "same": bool(np.array_equal(kA, dense(self.A)) and all(np.array_equal(x, y) for x, y in zip(kv, self.arrs)))}
        self.s.call("PMulti", {"lim": lim, "keys": keys}, f, lambda r: r)


def c19(ctx):
    for j in range(ctx.n(40, 500)):
        def go(s, j=j):
            rng = ctx.rng("path", j)
            t = PSession(s, rng, rng.choice([1, 2, 3, 5, 9, 14, 20, 37, 45, 64, 70, 100] + ([210, 230] if j % 8 == 0 else [])))
            for _ in range(2):
                t.kry()
                t.multi()
        ctx.session("TKrylov", {"M": [], "vecs": []}, go)
    def run(s, rng, M, vecs):
        verbosity(rng)
        t = KSession(s, rng, M, vecs)
        n, m = len(M), len(vecs)
        ths = False
        for _ in range(rng.choice([2, 4, 5])):
            w = rng.random()
            keys = rng.sample(range(1, m + 1), rng.randrange(0, m + 1))
            lim = rng.choice([200, 200] + list(range(1, n + 2)))
            if w < 0.6:
                t.kry(rng.randrange(1, m + 1), lim, keys)
            elif w < 0.9:
                t.multi(lim, keys)
            else:
                x = rng.choice([1e-8, 1e-6, 1e-5, 1e-3])
                s.call("Thr", {"t": str(x)}, lambda: L.K.set_threshold(x), lambda v: {"n": int(v is None)})
                ths = True
        if ths:
            s.call("Thr", {"t": "default"}, lambda: L.K.set_threshold(), lambda v: {"n": int(v is None)})
    hdr = {"M": [], "vecs": []}
    gen = [g for g in ctx.gen if g["g"] == "krylov"]
    byM = {}
    for g in gen:
        byM.setdefault(json.dumps(g["M"]), []).append(g["v"])
    ks = sorted(byM)
    ks = ctx.rng("gk").sample(ks, min(len(ks), ctx.n(120, 9999)))
    for j, k in enumerate(ks):
        def go(s, j=j, k=k):
            rng = ctx.rng("c19g", j)
            vs = byM[k]
            vs = rng.sample(vs, min(4, len(vs)))
            M = json.loads(k)
            vs = [v for v in vs if wellcond(M, v)] or [[[1, 0]] + [[0, 0]] * (len(M) - 1)]
            run(s, rng, M, vs)
        ctx.session("TKrylov", hdr, go)
    for j in range(ctx.n(160, 3000)):
        def go(s, j=j):
            rng = ctx.rng("c19r", j)
            n = rng.choice([1, 2, 3, 4, 4, 5, 6])
            for _ in range(50):
                cplx = rng.random() < 0.5
                M = herm(rng, n, rng.choice([0, 1, 2]), rng.choice([1, 1, 2]), cplx, rng.choice([0.2, 0.5, 0.9]))
                vecs = [vec(rng, n, rng.choice([1, 2]), rng.random() < 0.5) for _ in range(rng.choice([1, 2, 3]))]
                if rng.random() < 0.2:
                    vecs.append([[0, 0]] * n)
                if rng.random() < 0.4:      # a basis vector: early breakdown is likely
                    vecs[0] = [[1 if i == 0 else 0, 0] for i in range(n)]
                if all(wellcond(M, v) for v in vecs):
                    break
            run(s, rng, M, vecs)
        ctx.session("TKrylov", hdr, go)


# ---------------------------------------------------------------- Green functions
class GSession:
    def __init__(self, s, rng, H, nops, vecof, kind, ret):
        """operators o1..on with their adjoints; vecof() makes state vectors"""
        self.s, self.rng, self.H = s, rng, H
        Hm = L.H
        ops, used = [], []
        while len(ops) < 2 * nops:
            site = (rng.randrange(max(3, nops)),)
            if kind == "fermi":
                o = (Hm.Creator if rng.random() < 0.5 else Hm.Annihilator)(site, spin=rng.choice([0, 1]), orbit=rng.choice([0, 1])) \
                    if hasattr(Hm, "Creator") else Hm.AoC(rng.choice([0, 1]), site, rng.choice([0, 1]), rng.choice([0, 1]))
            else:
                o = Hm.SpinOperator(rng.choice(["p", "m", "x", "z"]), site)
            d = o.dagger()
            if o in used or d in used:
                continue
            used += [o, d]
            ops += [o, d]
        self.ops = ops
        n = len(H)
        vecs, dag = [], []
        for i in range(0, len(ops), 2):
            dag += [i + 2, i + 1] if ops[i] != ops[i + 1] else [i + 1, i + 1]
            a = vecof()
            vecs += [a, vecof() if ops[i] != ops[i + 1] else a]
        s.rec.update(H=H, vecs=vecs, dag=dag)
        self.vecs, self.dag = vecs, dag
        A = mat(H)
        self.A = A.real.copy() if np.all(A.imag == 0) and rng.random() < 0.7 else A
        # the functions do not change when H and the ground-state energy move
        # together, and scale with the vectors
        self.off = rng.choice([0, 0, 0, 1024, -4096])
        if self.off:
            self.A = self.A + self.off * np.eye(n)
        self.st, self.ex = {}, {}
        one = rng.choice([0, 0, 0, -10, -9, 12])
        mixed = rng.random() < 0.3 and not ret
        for o, v in zip(ops, vecs):
            if o in self.st:
                continue
            self.ex[o] = rng.choice([0, -10, 3, 12]) if mixed else one
            self.st[o] = arr(v, 1, rng)
            if self.ex[o]:
                self.st[o] = self.st[o] * 2.0 ** self.ex[o]
        self.krylov = None

    def names(self):
        """indices usable as A or B"""
        return [i for i in range(1, len(self.ops) + 1) if self.ops.index(self.ops[i - 1]) == i - 1]

    def getkry(self):
        if self.krylov is None:
            self.krylov = L.K.MultiKrylov(self.A if self.rng.random() < 0.5 else sp.csr_matrix(self.A), self.st)
        return self.krylov

    def missing(self, ret, lan, multi):
        """an operator without its excited state cannot be asked about"""
        rng = self.rng
        ix = self.names()
        Hm = L.H
        A, B = self.ops[rng.choice(ix) - 1], self.ops[rng.choice(ix) - 1]
        new = Hm.SpinOperator("y", (77,)) if isinstance(A, Hm.SpinOperator) else Hm.AoC(rng.choice([0, 1]), (77,), 0, 0)
        oA, oB = ([A], [B, new]) if rng.random() < 0.5 else ([A, new], [B])
        name = ("R" if ret else "") + "GFSolver" + ("Lanczos" if lan else "Exact") + ("Multiple" if multi else "Single")
        kw = {"sign": rng.choice("+-"), "eta": rng.choice([0.5, 1.0])}

        def f():
            args = self.getkry() if lan else (self.A, self.st)
            if multi:
                return getattr(L.G, name)(np.array([0.5, 1.5]), oA, oB, 1.0 + self.off, *args, **kw)
            return getattr(L.G, name)(0.5, oA[-1], oB[-1], 1.0 + self.off, *args, **kw)
        self.s.call("Missing", {"fn": name}, f, lambda r: {})

    EV = "GF"

    def scale(self, H, I, vs, As, Bs, om, e, er, ret, default_eta):
        """units and clamp of the exact comparison, None when the numbers would grow too large"""
        n = len(H)
        # precondition of the exact comparison: numbers stay small
        worst, gmax = 1.0, 1.0
        for p, q, r in om:
            z, E = (p + 1j * q) / r, e / er
            D = []
            for sign in (1, -1):
                M = (z - sign * E) * I + sign * H
                D.append(abs(np.linalg.det(M)) * r ** n)
                if D[-1] < 0.5:
                    return None
                Mi = np.linalg.inv(M)
                gmax = max(gmax, *[abs(np.vdot(vs[self.dag[a - 1] - 1], Mi @ vs[b - 1])) for a in As for b in Bs],
                           *[abs(np.vdot(vs[self.dag[b - 1] - 1], Mi @ vs[a - 1])) for a in As for b in Bs])
            worst = max(worst, D[0] * D[1] if ret else max(D))
        u = 10 ** 5
        while u * worst * gmax * (16 if ret else 8) > 2e9:      # a retarded function is a sum of two
            u //= 10
        if u < 100 or (u < 1000 and not default_eta):
            return None
        lim = int(3.0e8 / worst)
        return u, lim

    def gf(self, As, Bs, om, e, er, ret, sg, lan, multi, struct, default_eta=False):
        rng = self.rng
        H = mat(self.H)
        n = len(H)
        I = np.eye(n)
        vs = [cz(v) for v in self.vecs]
        ul = self.scale(H, I, vs, As, Bs, om, e, er, ret, default_eta)
        if ul is None:
            return False
        u, lim = ul
        eta = om[0][1] / om[0][2]
        omega = [p / r for p, q, r in om]
        oA, oB = [self.ops[a - 1] for a in As], [self.ops[b - 1] for b in Bs]
        GE = e / er
        if e % er == 0 and rng.random() < 0.3:
            GE = e // er
        GE += self.off
        HM = self.A
        far = 0
        if not ret and rng.random() < 0.3:      # nor when H and the frequencies move together
            far = rng.choice([2 ** 18, -2 ** 20, 2 ** 23])
            omega = [w + far for w in omega]
            far = -far if sg == 1 else far
            if not lan:
                HM = HM + far * np.eye(n)
        unit = 1 if default_eta else rng.choice([1, 1, 1, 2.0 ** -24, 2.0 ** 14])   # the unit of energy
        omega, eta, GE = [w * unit for w in omega], eta * unit, GE * unit
        if not lan and unit != 1:
            HM = HM * unit
        back = {(a, b): unit * 2.0 ** -(self.ex[a.dagger()] + self.ex[b]) for a in oA for b in oB}
        kw = {}
        if not default_eta:
            kw["eta"] = eta
        pm = "+" if sg == 1 else "-"
        if pm == "-" or rng.random() < 0.6:
            kw["sign"] = pm
        keepA = HM.copy()
        keepv = {o: v.copy() for o, v in self.st.items()}
        name = ("R" if ret else "") + "GFSolver" + ("Lanczos" if lan else "Exact") + ("Multiple" if multi else "Single")

        def clamp(x):
            a = ri(x, u)
            return [max(-lim, min(lim, y)) for y in a]

        number = rng.choice([float, float, complex])        # real numbers, however they are stored
        shared = rng.random() < 0.7     # one and the same list on both sides

        def f():
            fn = getattr(L.G, name)
            if lan:
                args = self.getkry()
                if far or unit != 1:
                    args = ({o: (m + far * np.eye(len(m))) * unit for o, m in args[0].items()}, args[1])
                kk = ({o: m.copy() for o, m in args[0].items()},
                      {o: {x: y.copy() for x, y in d.items()} for o, d in args[1].items()})
            else:
                args = (HM, self.st)
            st = True
            if multi:
                if struct == "dict" or rng.random() < 0.5:
                    kw["structure"] = struct
                cont = rng.choice([list, tuple])
                w = np.array(omega) if number is float else np.array(omega, dtype=complex)
                lA = cont(oA)
                r = fn(w, lA, lA if oA == oB and shared else cont(oB), GE, *args, **kw)
                if struct == "dict":
                    st = isinstance(r, dict) and set(r) == {(a, b) for a in oA for b in oB} and \
                        all(np.shape(x) == (len(om),) for x in r.values())
                    g = [[[clamp(r[(a, b)][i] * back[a, b]) for i in range(len(om))] for b in oB] for a in oA] if st else []
                else:
                    st = isinstance(r, np.ndarray) and r.shape == (len(oA), len(oB), len(om))
                    g = [[[clamp(x * back[a, b]) for x in y] for b, y in zip(oB, z)] for a, z in zip(oA, r)] if st else []
                same = bool(np.array_equal(w, np.array(omega)))
            else:
                g = [[[clamp(fn(number(w), a, b, GE, *args, **kw) * back[a, b]) for w in omega] for b in oB] for a in oA]
                same = True
            same = same and bool(np.array_equal(keepA, HM)) and set(keepv) == set(self.st) and \
                all(np.array_equal(keepv[o], self.st[o]) for o in keepv)
            if lan:
                same = same and all(np.array_equal(kk[0][o], args[0][o]) for o in kk[0]) and \
                    all(np.array_equal(kk[1][o][x], args[1][o][x]) for o in kk[1] for x in kk[1][o])
            return {"g": g, "st": bool(st), "same": bool(same)}
        self.s.call(self.EV, {"As": As, "Bs": Bs, "om": om, "e": e, "er": er, "ret": ret, "sg": sg, "u": u,
                           "fn": name, "struct": struct}, f, lambda r: r)
        return True


class BSession(GSession):
    """larger Hamiltonians: many small blocks whose basis states are interleaved"""
    EV = "GB"

    def __init__(self, s, rng, nb, nops, kind, ret):
        cplx = rng.random() < 0.5
        wide = nb > 6 and rng.random() < 0.4        # vectors over many blocks: long Lanczos chains
        self.bl = [herm(rng, rng.choice([1, 1, 2] if wide else [1, 2, 2, 3]), 7 if wide else 2, 1, cplx, 0.8) for _ in range(nb)]
        n = sum(map(len, self.bl))
        self.big = nb > 6
        pos = list(range(n))
        rng.shuffle(pos)
        self.at, k = [], 0
        for b in self.bl:
            self.at.append(pos[k:k + len(b)])
            k += len(b)
        H = [[[0, 0] for _ in range(n)] for _ in range(n)]
        for b, at in zip(self.bl, self.at):
            for i, r in enumerate(b):
                for j, x in enumerate(r):
                    H[at[i]][at[j]] = x
        hot = rng.sample(range(nb), min(nb, 12 if wide else 4))     # the vectors overlap often
        self.loc = {}

        def vecof():
            for _ in range(30):
                cs = sorted(rng.sample(hot, rng.randrange(1, min(12 if wide else 3, len(hot)) + 1)))
                lv = [[c + 1, vec(rng, len(self.bl[c]), 1, cplx)] for c in cs]
                m = sum(len(q) for _, q in lv)
                sub = [[[0, 0]] * m for _ in range(m)]
                sub = [list(r) for r in sub]
                k = 0
                for c, q in lv:
                    for i, r in enumerate(self.bl[c - 1]):
                        for j, x in enumerate(r):
                            sub[k + i][k + j] = x
                    k += len(q)
                if wellcond(sub, [x for _, q in lv for x in q]):
                    break
            v = [[0, 0] for _ in range(n)]
            for c, q in lv:
                for i, x in enumerate(q):
                    v[self.at[c - 1][i]] = x
            self.loc[id(v)] = lv
            self.keepv = getattr(self, "keepv", []) + [v]
            return v
        GSession.__init__(self, s, rng, H, nops, vecof, kind, ret)
        s.rec.update(H=[], vecs=[], bl=self.bl, bv=[self.loc[id(v)] for v in self.vecs])

    def scale(self, H, I, vs, As, Bs, om, e, er, ret, default_eta):
        worst = 1.0
        for p, q, r in om:
            z, E = (p + 1j * q) / r, e / er
            for sign in (1, -1):
                for b in self.bl:
                    B = mat(b)
                    M = (z - sign * E) * np.eye(len(b)) + sign * B
                    d = abs(np.linalg.det(M)) * r ** len(b)
                    if d < 0.5:
                        return None
                    g = np.max(np.abs(np.linalg.inv(M))) * 2 * len(b) ** 2
                    worst = max(worst, d * d * g)
        u = 10 ** 6
        while u * worst > 4e8:
            u //= 10
        return (u, 10 ** 9) if u >= 1000 else None


def green(ctx, ret):
    gen = [g for g in ctx.gen if g["g"] == "green"]
    hdr = {"H": [], "vecs": [], "dag": []}
    tag = "gr%d" % ret

    def calls(s, rng, t, er, lanok, freq, ncall):
        ix = t.names()
        if rng.random() < 0.15:
            t.missing(ret, lanok and rng.random() < 0.5, rng.random() < 0.7)
        done = tries = 0
        while done < ncall and tries < 60:
            tries += 1
            multi = rng.random() < 0.6
            many = len(ix) > 6 and rng.random() < 0.6
            na, nb = (rng.choice([3, 9, len(ix)] if many else [1, 2, 3]), rng.choice([2, 9, len(ix)] if many else [1, 2, 3])) if multi else (1, rng.choice([1, 2]))
            As, Bs = rng.sample(ix, min(na, len(ix))), rng.sample(ix, min(nb, len(ix)))
            if multi and rng.random() < 0.3:        # the same operator more than once
                q = rng.choice([As, Bs])
                q.insert(rng.randrange(len(q) + 1), rng.choice(q))
            if multi and rng.random() < 0.25:       # the same operators on both sides
                As = Bs = max(As, Bs, key=len)
            om = freq(rng.choice([1, 2, 3]))
            om = om[:max(1, 600 // (len(As) * len(Bs)))]
            default = False
            if len(t.H) == 1 and rng.random() < 0.3:
                om = [[100 * rng.randrange(-3, 4) + 50, 1, 100] for _ in range(2)]
                default = True
            e = rng.randrange(-3, 4)
            ee, r = (e, 1) if om[0][2] == 1 or rng.random() < 0.5 else (e, om[0][2])
            done += t.gf(As, Bs, om, ee, r, ret, rng.choice([1, -1]), lanok and rng.random() < 0.5,
                         multi, rng.choice(["array", "dict"]), default)
    for j, g in enumerate(ctx.rng(tag).sample(gen, min(len(gen), ctx.n(120, 3000)))):
        def go(s, j=j, g=g):
            rng = ctx.rng(tag, "g", j)
            pool = [g["a"], g["b"], vec(rng, 2, 1, True), vec(rng, 2, 2, False)]
            rng.shuffle(pool)
            it = iter(pool * 3)
            t = GSession(s, rng, g["H"], rng.choice([1, 2]), lambda: next(it), rng.choice(["fermi", "spin"]), ret)
            lan = all(wellcond(g["H"], v) for v in t.vecs)
            # the generated corner first, then variations
            a, b = rng.choice(t.names()), rng.choice(t.names())
            for lanc in ([False, True] if lan else [False]):
                t.gf([a], [b], [[g["p"], g["q"], 1]], g["e"], 1, ret, rng.choice([1, -1]), lanc, rng.random() < 0.5, "array")
            calls(s, rng, t, 1, lan, lambda m: [[rng.randrange(-3, 4), q, 1] for q in [rng.choice([1, -1, 2, 0])] for _ in range(m)], 2)
        ctx.session("TGreen", hdr, go)
    for j in range(ctx.n(36, 500)):
        def go(s, j=j):
            rng = ctx.rng(tag, "b", j)
            t = BSession(s, rng, rng.choice([1, 2, 6, 17, 33, 50, 70]), rng.choice([1, 2, 3, 3, 5, 8, 12]), rng.choice(["fermi", "spin"]), ret)

            def freq(m):
                r = rng.choice([1, 1, 2])
                q = rng.choice([1, 1, 2, -1, 0])
                m = m if rng.random() < 0.6 else rng.choice([8, 17, 33, 64] if t.big else [8, 64, 130, 150, 260, 301])
                return [[rng.randrange(-3 * r, 3 * r + 1), q, r] for _ in range(m)]
            calls(s, rng, t, 1, True, freq, rng.choice([2, 3]))
        ctx.session("TGreen", dict(hdr, bl=[], bv=[]), go)
    for j in range(ctx.n(130, 2500)):
        def go(s, j=j):
            rng = ctx.rng(tag, "r", j)
            n = rng.choice([1, 2, 2, 3, 3, 4])
            H = herm(rng, n, rng.choice([1, 2]), 1, rng.random() < 0.5, 0.7)
            zero = rng.choice([0, 0, 0.3])      # operators that annihilate the ground state
            t = GSession(s, rng, H, rng.choice([1, 2, 3]),
                         lambda: [[0, 0]] * n if rng.random() < zero else vec(rng, n, rng.choice([1, 2]), rng.random() < 0.5),
                         rng.choice(["fermi", "spin"]), ret)
            lan = all(wellcond(H, v) and any(x != [0, 0] for x in v) for v in t.vecs)

            def freq(m):
                r = rng.choice([1, 1, 2, 4]) if n < 3 else 1
                q = rng.choice([1, 1, 2, -1, 0])
                return [[rng.randrange(-3 * r, 3 * r + 1), q, r] for _ in range(m)]
            calls(s, rng, t, 1, lan, freq, rng.choice([2, 3, 4]))
        ctx.session("TGreen", hdr, go)


def build(ctx, prop):
    lib()
    if prop == "C19":
        c19(ctx)
    else:
        green(ctx, prop == "C21")


if __name__ == "__main__":
    main(build)
