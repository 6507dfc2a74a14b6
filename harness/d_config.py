"""Settings (C32): every session runs in a fresh process (forked before the
library was used), sets precisions and thresholds, then queries objects."""
from common import *
import numpy as np


class L:
    pass


def lib():
    import HamiltonianPy as H
    from HamiltonianPy import bond, lanczos, rotation3d, indextable
    from HamiltonianPy.lattice import lattice
    from HamiltonianPy.quantumoperator import quantumstate, particlesystem, spinsystem
    L.H, L.bond, L.kry, L.rot, L.lat = H, bond, lanczos, rotation3d, lattice
    L.qs, L.ps, L.sp, L.Table = quantumstate, particlesystem, spinsystem, indextable.IndexTable


def isolated(fn):
    """run fn(s) in a child process and take over what it recorded"""
    def go(s):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                try:
                    fn(s)
                except StopSession:
                    pass
                except Exception as ex:
                    if os.environ.get("HPY_DEBUG"):
                        import traceback
                        traceback.print_exc()
                    s.rec["ev"].append({"a": "Abort", "r": {"t": "err", "e": type(ex).__name__, "msg": str(ex)[:200]}})
                with os.fdopen(w, "w") as f:
                    json.dump(s.rec["ev"], f)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        with os.fdopen(r) as f:
            data = f.read()
        os.waitpid(pid, 0)
        try:
            s.rec["ev"] = json.loads(data)
        except ValueError:
            s.rec["ev"].append({"a": "Abort", "r": {"t": "err", "e": "Crash"}})
    return go


DEF = {"site": [1, 4], "bond": [1, 4], "lattice": [1, 4], "krylov": [1, 4], "rotation": [1, 10]}
DIGITAL = ("site", "bond", "lattice")


class Prog:
    def __init__(self, s, rng):
        self.s, self.rng = s, rng
        self.cfg = {k: list(v) for k, v in DEF.items()}
        self.fn = {"site": [L.H.quantumoperator.set_float_point_precision, L.qs.set_float_point_precision],
                   "bond": [L.bond.set_float_point_precision],
                   "lattice": [L.H.lattice.set_float_point_precision, L.lat.set_float_point_precision],
                   "krylov": [L.kry.set_threshold], "rotation": [L.rot.set_threshold]}

    def set(self, mod, v):
        rng = self.rng
        deflt = v == DEF[mod] and rng.random() < 0.7
        f = rng.choice(self.fn[mod])
        x = v[1] if mod in DIGITAL else v[0] / 10 ** v[1]
        kw = "precision" if mod in DIGITAL else "threshold"

        def go():
            if deflt:
                f()
            elif rng.random() < 0.5:
                f(x)
            else:
                f(**{kw: x})
        self.cfg[mod] = list(v)
        self.s.call("Set", {"mod": mod, "v": v, "def": deflt, "form": "int" if mod in DIGITAL else "float", "neg": False}, go, lambda v: {})

    def illegal(self, mod):
        rng = self.rng
        if mod in DIGITAL:
            x, form, neg = rng.choice([(-1, "int", True), (-7, "int", True), (2.5, "float", False), ("4", "str", False), (3.0, "float", False)])
        else:
            x, form, neg = rng.choice([(-1e-3, "float", True), (-1.0, "float", True), ("1e-3", "str", False), (None, "none", False)])
        f = rng.choice(self.fn[mod])
        self.s.call("Set", {"mod": mod, "v": [0, 0], "def": False, "form": form, "neg": neg}, lambda: f(x), lambda v: {})

    # ---- identity at the configured digits
    def eq(self):
        rng = self.rng
        kind = rng.choice(["site", "state", "aoc", "num", "spin", "bond", "bond"])
        d = rng.choice([1, 2, 3])
        p = self.cfg["bond" if kind == "bond" else "site"][1]
        m = rng.choice([x for x in (6, 9, 12) if x - 6 <= p <= x + 2])      # coordinates are integers over 10^m

        def pair():
            x = [rng.randrange(-2500000, 2500001) for _ in range(d)]
            if rng.random() < 0.4:
                x = [rng.choice([0, 500000, 300000, -1000000, 333333, -100, 99, 1]) for _ in range(d)]
            y = list(x)
            if rng.random() < 0.8:
                i = rng.randrange(d)
                st = 10 ** max(0, m - p)
                t = rng.randrange(4)
                if t == 0:
                    y[i] = (abs(x[i]) // st * st + rng.randrange(st)) * (-1 if x[i] < 0 else 1)
                elif t == 1:
                    y[i] = x[i] + rng.choice([-1, 1]) * st
                elif t == 2:
                    y[i] = x[i] + rng.choice([-1, 1]) * 10 ** rng.randrange(0, 6)
                else:
                    y[i] = -x[i]
            return x, y
        x, y = pair()
        x2, y2 = pair() if kind == "bond" else ([], [])
        fl = lambda v: rng.choice([list, tuple, np.array])([a / 10 ** m for a in v])

        def make(v, v2):
            if kind == "site":
                return L.qs.SiteID(fl(v))
            if kind == "state":
                return L.qs.StateID(fl(v), 1, 2)
            if kind == "aoc":
                return L.ps.AoC(1, fl(v), 0, 1)
            if kind == "num":
                return L.ps.NumberOperator(fl(v), 1)
            if kind == "spin":
                return L.sp.SpinOperator("x", fl(v))
            return L.bond.Bond(fl(v), fl(v2))

        def go():
            a, b = make(x, x2), make(y, y2)
            if kind == "bond":
                found = b in {a: 1}
            else:
                t = L.Table([a])
                try:
                    found = t(b) == 0
                except KeyError:
                    found = False
            return {"eq": bool(a == b), "ne": bool(a != b), "hash": hash(a) == hash(b), "found": found}
        self.s.call("Eq", {"kind": kind, "m": m, "x": x, "y": y, "x2": x2, "y2": y2}, go, lambda r: r)

    # ---- lengths around the configured precision
    def small(self, t, d, zero=0.1):
        """(e, m) clearly shorter or longer than t"""
        rng = self.rng
        while True:
            m = max(0, t[1] + rng.choice([-1, 0, 1, 1, 1, 2]))
            if rng.random() < zero:
                return [0] * d, m
            e = [rng.randrange(-40, 41) if rng.random() < 0.8 else 0 for _ in range(d)]
            ratio = (sum(a * a for a in e) ** 0.5) / 10 ** m / (t[0] / 10 ** t[1])
            if 0 < ratio < 0.7 or 1.5 < ratio < 100:
                return e, m

    def make(self):
        rng, t = self.rng, self.cfg["lattice"]
        if rng.random() < 0.3:
            n, d, k, dv = rng.randrange(1, 4), rng.choice([1, 2, 3, 4]), rng.randrange(1, 5), rng.choice([1, 2, 3, 4])
            if rng.random() < 0.6:
                dv = d
        else:
            d = rng.choice([1, 2, 3])
            n, k, dv = rng.randrange(1, 4), rng.randrange(1, d + 1), d
        while True:
            e, m = self.small(t, max(d, 1))
            if sum(c * c for c in e) ** 0.5 / 10 ** m < 1.5:     # different bases are 3 apart, the precision is at most 1
                break
        P = [{"b": [i if c == 0 else (i * i) % 3 for c in range(d)], "e": [0] * d} for i in range(n)]
        V = [{"b": [int(c == i) * 2 + 1 * (c == 0) for c in range(dv)], "e": [0] * dv} for i in range(k)]
        if rng.random() < 0.7:
            w = rng.random()
            if w < 0.6 and n < 4:
                j = rng.randrange(n)
                P.insert(rng.randrange(n + 1), {"b": P[j]["b"], "e": e})
                n += 1
            elif dv == d and 0 < k < d:
                V.insert(rng.randrange(k + 1), {"b": V[rng.randrange(k)]["b"], "e": e})
                k += 1
                ok = np.linalg.matrix_rank(np.array([[3 * b + c / 10 ** m for b, c in zip(r["b"], r["e"])] for r in V]), tol=1e-3) == k
                short = sum(c * c for c in e) ** 0.5 / 10 ** m < t[0] / 10 ** t[1]
                if not ok and not short:      # nearly dependent vectors are not judged
                    return
        if k < 4 and dv == d and any(len(set(map(str, [r["b"] for r in V]))) != len(V) for _ in [0]) and m > 3 + t[1]:
            return
        if len(P) == 0 or len(V) == 0:
            return
        arr = lambda rows: np.array([[3.0 * b + c / 10 ** m for b, c in zip(r["b"], r["e"])] for r in rows])
        a, v = arr(P), arr(V)

        def go():
            l = L.lat.Lattice(a, v)
            return {"n": [int(l.point_num), int(l.space_dim), int(l.trans_dim)]}
        self.s.call("Make", {"n": n, "d": d, "k": k, "dv": dv, "P": P, "V": V, "m": m}, go, lambda r: r)

    def near(self):
        rng, t = self.rng, self.cfg["lattice"]
        d = rng.choice([1, 2, 2, 3])
        base = [[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 1]][:rng.randrange(1, 3 if d == 1 else 5)]
        P = [b[:d] for b in base]
        P = [p for i, p in enumerate(P) if p not in P[:i]]
        k = rng.randrange(1, d + 1)
        V = [[int(c == i) * 3 for c in range(d)] for i in range(k)]
        lat = L.lat.Lattice(np.array(P) * 3.0, np.array(V) * 3.0)
        for _ in range(6):
            e, m = self.small(t, d)
            if max(abs(c) for c in e) / 10 ** m > 0.9:
                continue
            i = rng.randrange(len(P))
            n = [rng.choice([0, 0, 0, 1, -1, 2]) for _ in V]
            x = np.array(P[i]) * 3.0 + np.array(n) @ np.array(V) * 3.0 + np.array(e) / 10 ** m
            fn = rng.choice(["in", "index", "index", "decompose"])
            fold = fn == "index" and rng.random() < 0.5

            def go():
                if fn == "in":
                    return {"b": bool(lat.in_cluster(x))}
                if fn == "index":
                    return {"i": int(lat.getIndex(x, fold=fold))}
                p, _ = lat.decompose(x)
                return {"i": [j for j, q in enumerate(P) if np.allclose(np.array(q) * 3.0, p)][0]}
            self.s.call("In", {"fn": fn, "fold": fold, "e": e, "m": m, "i": i, "home": not any(n)}, go, lambda r: r)

    def chain(self):
        rng, t = self.rng, self.cfg["lattice"]
        if t[1] == 0:
            return
        e, m = 0, 1
        for _ in range(50):
            e, m = self.small([t[0], t[1]], 1)
            e = abs(e[0])
            r = 2 * e / 10 ** m * 10 ** t[1]
            if e / 10 ** m < 0.3 and (r < 0.7 or r > 1.6):
                break
        else:
            return
        lat = L.lat.Lattice(np.array([[0.0], [1 + e / 10 ** m]]), np.array([[2.0]]))
        for n in rng.sample(range(6), 3):
            self.s.call("Nd", {"e": e, "m": m, "n": n}, lambda: lat.neighbor_distance(n), lambda v: {"d": int(round(float(v) * 10 ** 6))})

        def go():
            a, b = lat.bonds(1)
            return {"n": len(a) + len(b)}
        self.s.call("Bonds", {"e": e, "m": m}, go, lambda r: r)

    def krylov(self):
        rng, t = self.rng, self.cfg["krylov"]
        n = rng.randrange(2, 6)
        m = t[1] + rng.choice([0, 1, 1])
        thr = t[0] / 10 ** t[1]
        ok = lambda c: thr == 0 or c / 10 ** m / thr < 0.7 or c / 10 ** m / thr > 1.5
        cs = [c for c in [1, 2, 3, 5, 8, 20, 70, 300, 900] if ok(c)]
        c = [rng.choice(cs if rng.random() < 0.5 else cs[-3:]) for _ in range(n - 1)]
        v = rng.choice(cs + ([1] if thr == 0 else []))
        M = np.zeros((n, n))
        for i, x in enumerate(c):
            M[i, i + 1] = M[i + 1, i] = x / 10 ** m
        v0 = np.zeros(n)
        v0[0] = v / 10 ** m

        def go():
            if rng.random() < 0.5:
                H, p = L.kry.KrylovRepresentation(M, {"v": v0}, v0, krylov_space_dim=n)
                return {"dim": H.shape[0], "len": len(p["v"])}
            H, p = L.kry.MultiKrylov(M, {"v": v0}, krylov_space_dim=n)
            return {"dim": H["v"].shape[0], "len": len(p["v"]["v"])}
        self.s.call("Krylov", {"c": c, "m": m, "v": v, "vm": m}, go, lambda r: r)

    def axis(self):
        rng, t = self.rng, self.cfg["rotation"]
        while True:
            e = rng.choice([[0, 0, 5], [3, 0, 4], [1, 2, 2], [0, -7, 0], [6, 6, -3], [0, 0, -1], [2, -3, 6], [40, 0, 9], [0, 0, 0]])
            m = max(0, t[1] + rng.choice([-1, 0, 0, 1, 1, 2]))
            thr = t[0] / 10 ** t[1]
            ok = lambda q: (q == 0 or q / 10 ** m / thr < 0.7 or q / 10 ** m / thr > 1.5) if thr else any(e)
            dr, dxy = sum(a * a for a in e) ** 0.5, (e[0] ** 2 + e[1] ** 2) ** 0.5
            if ok(dr) and ok(dxy) and (dxy == 0 or (dxy / 10 ** m > thr) == (dr / 10 ** m > thr)):
                break
        ax = np.array(e) / 10 ** m
        th = rng.uniform(-7, 7)

        def go():
            R = L.rot.RotationGeneral(rng.choice([tuple, list, np.array])(ax), th)
            u = ax / np.linalg.norm(ax)
            return {"dev": int(min(10 ** 9, np.max(np.abs(R @ u - u)) * 10 ** 9))}
        self.s.call("Axis", {"e": e, "m": m}, go, lambda r: r)

    def use(self, n):
        for _ in range(n):
            self.rng.choice([self.eq, self.eq, self.eq, self.make, self.make, self.near, self.chain, self.krylov, self.axis])()


def build(ctx, prop):
    lib()
    gen = sorted([g["hist"] for g in ctx.gen if g["g"] == "cfg"], key=json.dumps)
    if not ctx.thorough():
        gen = ctx.rng("cfg").sample(gen, min(110, len(gen)))
    for i, h in enumerate(gen):
        def go(s, i=i, h=h):
            p = Prog(s, ctx.rng("g", i))
            for mod, v in h:
                p.set(mod, v)
            p.use(8)
        ctx.session("TConfig", {}, isolated(go))
    for i in range(ctx.n(90, 2500)):
        def go(s, i=i):
            rng = ctx.rng("r", i)
            p = Prog(s, rng)
            for _ in range(rng.randrange(0, 6)):
                mod = rng.choice(list(DEF))
                if rng.random() < 0.2:
                    p.illegal(mod)
                elif rng.random() < 0.2:
                    p.set(mod, DEF[mod])
                elif mod in DIGITAL:
                    p.set(mod, [1, rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8] + [9, 10, 11, 12] * (mod != "lattice"))])
                else:
                    p.set(mod, [rng.randrange(1, 10), rng.choice([0, 1, 2, 3, 4, 6, 8, 10, 12])] if rng.random() < 0.85 else
                          rng.choice([[0, 0], [0, 6], [0, 10], [12, 0], [40, 0], [1, 0]]))
            p.use(rng.choice([8, 15]))
        ctx.session("TConfig", {}, isolated(go))


if __name__ == "__main__":
    main(build)
