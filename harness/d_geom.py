"""Rotations (C22), lines (C23) and polygons (C24)."""
from common import *
from fractions import Fraction as Fr
import math
import numpy as np

UU = 20000
TRI = [(3, 4, 5), (4, 3, 5), (5, 12, 13), (-3, 4, 5), (-4, -3, 5), (3, -4, 5), (8, 15, 17), (-12, 5, 13),
       (1, 0, 1), (0, 1, 1), (-1, 0, 1), (0, -1, 1), (7, -24, 25), (20, 21, 29)]


class L:
    pass


def lib():
    import HamiltonianPy as H
    from HamiltonianPy import rotation3d, line2d
    L.H, L.R, L.line = H, rotation3d, line2d


def big(x, unit, lim=10 ** 9):
    x = float(x)
    if not math.isfinite(x):
        return lim
    return int(max(-lim, min(lim, round(x * unit))))


def residue(x):
    """distance to the nearest integer in units of 1e-8"""
    return 10 ** 8 if not math.isfinite(x) else int(round(abs(x - round(x)) * 1e8))


class Ang:
    def __init__(self, rng, spec=None):
        if spec is not None:
            self.j = {"k": "deg", "d": spec}
        elif rng.random() < 0.6:
            far = rng.random() < 0.2        # many turns
            self.j = {"k": "deg", "d": 15 * (rng.choice([rng.randrange(-2000, 2001), rng.randrange(-150, 151)]) if far else rng.choice(
                [rng.randrange(-48, 49), rng.randrange(0, 25), 0, 2, 4, 6, 12, rng.randrange(-48, 49)]))}
        else:
            p, q, r = rng.choice(TRI)
            self.j = {"k": "tri", "p": p, "q": q, "r": r}
            self.turns = rng.choice([0, 0, 0, 1, -1])

    def val(self, deg, rng):
        if self.j["k"] == "deg":
            d = self.j["d"]
            if deg:
                return rng.choice([int, float, np.float64])(d)
            if d == 0:
                return rng.choice([0, 0.0])
            return rng.choice([float, np.float64])(math.radians(d))
        t = math.atan2(self.j["q"], self.j["p"]) + 2 * math.pi * self.turns
        return math.degrees(t) if deg else t

    def den(self):
        """denominator that makes sine and cosine integers, or None"""
        if self.j["k"] == "tri":
            return self.j["r"]
        return 1 if self.j["d"] % 90 == 0 else None


def c22(ctx):
    def mat(s, rng, st, ev, thunk, den=None, keep=None, fresh=False, own=None):
        """own: the axis as given, kept by the rotation (turned round by the rotoinversion)
        st: accumulated product of the returned matrices of this program"""
        ev["fresh"] = fresh

        def proj(m):
            got, m = m, np.array(m, dtype=float)
            if ev["fn"] != "const" and isinstance(got, np.ndarray):
                try:        # what is returned belongs to the caller
                    got[...] = rng.choice([0, 7])
                except ValueError:
                    pass
            if m.shape != (3, 3) or not np.all(np.isfinite(m)):
                return {"m": [], "det": 0, "orth": 0, "fine": 0, "acc": [], "same": True, "fix": 0}
            if fresh or st[0] is None:
                st[0] = m
            else:
                st[0] = st[0] @ m
            fine = 0
            if den:
                fine = big(np.max(np.abs(m * den - np.rint(m * den))) / den, 1e9)
            elif den == 0:
                fine = big(np.max(np.abs(m * m * 4 - np.rint(m * m * 4))), 1e9)
            return {"m": [[big(x, UU) for x in r] for r in m], "det": big(np.linalg.det(m), 1e6),
                    "orth": big(np.max(np.abs(m @ m.T - np.eye(3))), 1e9), "fine": fine,
                    "fix": 0 if own is None else big(np.max(np.abs(m @ own[0] - own[1] * own[0])) / np.linalg.norm(own[0]), 1e12),
                    "acc": [[big(x, UU) for x in r] for r in st[0]],
                    "same": keep is None or all(np.array_equal(a, b) for a, b in keep)}
        s.call("Mat", ev, thunk, proj)

    def kw(rng, deg, inv):
        d = {}
        if deg or rng.random() < 0.4:
            d["deg"] = deg
        if inv or rng.random() < 0.3:
            d["inversion"] = inv
        return d

    def axis(s, rng, st, form, a, inv, fresh=False):
        deg = rng.random() < 0.5
        v = a.val(deg, rng)
        den = a.den()
        if den is None and a.j["k"] == "deg" and (a.j["d"] % 30 == 0 or a.j["d"] % 45 == 0):
            den = 0
        mat(s, rng, st, {"fn": "axis", "form": form, "th": a.j, "inv": inv},
            lambda: getattr(L.R, "Rotation" + form)(v, **kw(rng, deg, inv)), den, fresh=fresh)

    def general(s, rng, st, ax, a, inv, fresh=False):
        deg = rng.random() < 0.5
        cont = rng.choice([tuple, list, np.array])
        if not isinstance(ax[0], Ang):
            sc = rng.choice([1, 1, 1, 2, 0.5, 1e-3, 1e3, 7.25, 1e-8, 3e-9, 1e9])
            tilt = [0, 0, 0]
            if rng.random() < 0.3:      # a direction next to the given one
                sc = rng.choice([1, 1, 2, 1e3, 1e-5, 1e-6, 1e-7])
                e = rng.choice([1e-5, 3e-6, 4e-7, 1e-8, 2e-9])
                tilt = [rng.choice([-e, 0, e]) for _ in ax]
            axv = cont([(x + u) * sc for x, u in zip(ax, tilt)])
            j = {"k": "car", "v": list(ax)}
            own = np.array([float(x) for x in axv]), -1 if inv else 1
            n2 = sum(x * x for x in ax)
            l = math.isqrt(n2)
            den = a.den() if not any(tilt) else None
            if den:
                den = den * n2 if l * l == n2 or a.j.get("q") == 0 or (a.j["k"] == "deg" and a.j["d"] % 180 == 0) else None
        else:
            al, be = ax
            axv = cont([al.val(deg, rng), be.val(deg, rng)])
            j = {"k": "sph", "al": al.j, "be": be.j}
            den, own = None, None
            if a.den() and al.den() and be.den():
                den = a.den() * (al.den() * be.den()) ** 2
        v = a.val(deg, rng)
        keep = [(axv, axv.copy())] if isinstance(axv, np.ndarray) else [(list(axv), list(axv))]
        mat(s, rng, st, {"fn": "general", "ax": j, "th": a.j, "inv": inv},
            lambda: L.R.RotationGeneral(axv, v, **kw(rng, deg, inv)), den, keep, fresh, own)

    def euler(s, rng, st, a, b, c, inv, fresh=False):
        deg = rng.random() < 0.5
        vs = [x.val(deg, rng) for x in (a, b, c)]
        ds = [x.den() for x in (a, b, c)]
        mat(s, rng, st, {"fn": "euler", "al": a.j, "be": b.j, "ga": c.j, "inv": inv},
            lambda: L.R.RotationEuler(*vs, **kw(rng, deg, inv)), ds[0] * ds[1] * ds[2] if all(ds) else None, fresh=fresh)

    def small(s, rng):
        """turning a tiny bit further, from any of the special angles"""
        deg = rng.random() < 0.5
        th0 = rng.choice([0, 0, 0, 30, 45, 90, 180, 270, 360, -90, -180, 720])
        dl = rng.choice([1, -1]) * rng.choice([1e-3, 4e-4, 3e-5, 1e-5, 2e-6, 1e-7])
        inv = rng.random() < 0.3
        a0 = th0 if deg else math.radians(th0)
        a1 = a0 + (math.degrees(dl) if deg else dl)
        k = kw(rng, deg, inv)
        if rng.random() < 0.4:
            form = rng.choice("XYZ")
            ev, f = {"form": form}, lambda a: getattr(L.R, "Rotation" + form)(a, **k)
        else:
            ax = rng.choice([(1, 2, 2), (2, -1, 2), (0, 3, 4), (0, 0, 1), (0, 0, -2), (1, 0, 0), (1, 1, 1), (-1, 3, 2), (0, -1, 0)])
            sc = rng.choice([1, 1, 1e-4, 1e4])
            axv = [x * sc for x in ax]
            ev, f = {"form": "", "ax": list(ax)}, lambda a: L.R.RotationGeneral(axv, a, **k)
        if ev["form"] in ("Z", "Y") and rng.random() < 0.5:
            y = ev["form"] == "Y"
            f = lambda a: L.R.RotationEuler(0, a, 0, **k) if y else L.R.RotationEuler(*rng.choice([(a, 0, 0), (0, 0, a)]), **k)

        def go():
            g = (np.asarray(f(a0)).T @ np.asarray(f(a1)) - np.eye(3)) / dl
            return {"g": [[big(x, UU) for x in r] for r in g]}
        s.call("Small", ev, go, lambda r: r)

    # named constants
    def consts(s):
        rng, st = ctx.rng("const"), [None]
        names = [("E", "identity", 0, 1), ("INVERSION", "inversion", 0, 1)]
        names += [("AP%d" % i, "anticyclic", i, 1) for i in range(3)]
        names += [("R%s%d" % (x, d), x, d, 1 if d % 90 == 0 else 0) for x in "XYZ" for d in (30, 45, 60, 90, 180, 270)]
        names += [("R111_%d" % d, "111", d, 3) for d in (60, 120, 180, 240, 300)]
        for nm, form, d, den in names:
            mat(s, rng, st, {"fn": "const", "form": form, "d": d, "what": nm}, lambda: getattr(L.R, nm), den, fresh=True)
        # the constants stay what they are after use
        for form in "XYZ":
            for inv in (False, True):
                axis(s, rng, st, form, Ang(rng, 30), inv, True)
        for nm, form, d, den in names:
            mat(s, rng, st, {"fn": "const", "form": form, "d": d, "what": nm}, lambda: getattr(L.R, nm), den, fresh=True)
    ctx.session("TRot", {}, consts)

    gen = [g for g in ctx.gen if g["g"] == "rot"]
    gen = ctx.rng("rg").sample(gen, min(len(gen), ctx.n(500, 99999)))
    for i in range(0, len(gen), 25):
        def go(s, i=i):
            rng, st = ctx.rng("rg", i), [None]
            for g in gen[i:i + 25]:
                ax = tuple(g["ax"])
                inv = rng.random() < 0.3
                # R(n, d) then R(n, e), and the spherical form of a direction
                general(s, rng, st, ax, Ang(rng, g["d"]), inv, True)
                general(s, rng, st, ax, Ang(rng, g["e"]), rng.random() < 0.3)
                general(s, rng, st, (Ang(rng, g["d"]), Ang(rng, g["e"])), Ang(rng, 75), False)
                euler(s, rng, st, Ang(rng, g["d"]), Ang(rng, g["e"]), Ang(rng, 30), inv, True)
                if sum(map(abs, ax)) == 1:
                    form = "XYZ"[[abs(x) for x in ax].index(1)]
                    axis(s, rng, st, form, Ang(rng, g["d"]), inv, True)
        ctx.session("TRot", {}, go)
    for i in range(ctx.n(120, 2500)):
        def go(s, i=i):
            rng, st = ctx.rng("rr", i), [None]
            for j in range(8):
                w = rng.randrange(4)
                fresh = j % 4 == 0
                inv = rng.random() < 0.3
                if w == 0:
                    axis(s, rng, st, rng.choice("XYZ"), Ang(rng), inv, fresh)
                elif w == 1:
                    while True:
                        ax = tuple(rng.randrange(-4, 5) for _ in range(3))
                        if rng.random() < 0.3:
                            ax = rng.choice([(1, 2, 2), (2, -1, 2), (0, 3, 4), (-4, 0, 3), (0, 0, -2), (2, -2, 1), (0, -1, 0)])
                        if any(ax):
                            break
                    general(s, rng, st, ax, Ang(rng), inv, fresh)
                elif w == 2:
                    general(s, rng, st, (Ang(rng), Ang(rng)), Ang(rng), inv, fresh)
                else:
                    euler(s, rng, st, Ang(rng), Ang(rng), Ang(rng), inv, fresh)
            for form in "XYZ":      # many turns
                if rng.random() < 0.4:
                    axis(s, rng, st, form, Ang(rng, rng.choice([15, 30, 90, 90, 180]) * rng.choice([-1, 1]) * rng.randrange(50, 160)), inv, True)
            for _ in range(3):
                small(s, rng)
            for bad in ((0, 0, 0), [0.0, 0.0, 0.0], np.zeros(3), (1,), (1, 0, 0, 0), ()):
                if rng.random() < 0.2:
                    s.call("Bad", {"what": repr(bad)}, lambda: L.R.RotationGeneral(bad, 1.0), lambda m: {"x": 0})
        ctx.session("TRot", {}, go)


class Frame:
    """real point = M p + o"""

    def __init__(self, m, o):
        self.m, self.o = m, o

    def pt(self, p, den=1):
        x, y = p[0] / den, p[1] / den
        (a, b), (c, d) = self.m
        return [a * x + b * y + self.o[0], c * x + d * y + self.o[1]]


def arr(rng, p, ints=False):
    """one of the accepted containers of a point"""
    if ints and all(float(x).is_integer() for x in p) and rng.random() < 0.5:
        p = [int(x) for x in p]
    return rng.choice([tuple, list, np.array])(p)


def same(a, b):
    return type(a) is type(b) and len(a) == len(b) and all(x == y for x, y in zip(a, b))


def copyof(a):
    return a.copy() if isinstance(a, np.ndarray) else type(a)(a)


def scaled_frame(rng):
    if rng.random() < 0.3:              # very steep and very flat
        sx, sy = rng.choice([(2.0 ** 20, 2.0 ** -16), (1e6, 1e-6), (1e6, 1e-6), (2.0 ** -16, 2.0 ** 21), (1e-6, 1e6), (1e-6, 100), (1e-6, 1), (1e-4, 10), (1e-3, 100), (1, 1e-5), (100, 1e-5), (1e4, 1e-5), (10, 1e-4)])
        return Frame(((sx, 0), (0, sy)), (0, 0))
    sc = rng.choice([1, 1, 1, 2, 10, 0.5, 0.1, 0.01, 1e-3, 37.5, 1 / 3])
    off = rng.choice([(0, 0), (0, 0), (3, -2), (0.25, 0.1), (-100.5, 40), (1 / 3, 7)])
    return Frame(((sc, 0), (0, sc)), off)


EPS = 1e-7


def line_session(ctx, s, key, p0, p1, qs):
    rng = ctx.rng("ln", key)
    fr = scaled_frame(rng)
    if all(isinstance(x, int) for r in fr.m for x in r) and all(isinstance(x, int) for x in fr.o):
        ints = True
    else:
        ints = False
    sc, off = (fr.m[0][0], fr.m[1][1]), fr.o
    aniso = sc[0] != sc[1]
    a0, a1 = arr(rng, fr.pt(p0), ints), arr(rng, fr.pt(p1), ints)
    st = {}

    def new():
        st["l"] = L.line.Line2D(a0, a1)
        return st["l"]
    s.call("Line", {"p0": list(p0), "p1": list(p1)}, new,
           lambda l: {"hor": bool(l.IsHorizontal), "ver": bool(l.IsVertical)})
    if "l" not in st:
        return
    l = st["l"]
    for q in qs:
        d, j = (0, 0), [0, 0]
        r = rng.random()
        kw = {}
        if r < 0.25:
            d = (0, rng.choice([-1, 1])) if p0[0] != p1[0] else (rng.choice([-1, 1]), 0)
        elif aniso:
            pass
        elif r < 0.35:
            d = rng.choice([(1, 0), (-1, 0), (1, 1), (-1, 1), (0, 1)])
        elif r < 0.5:
            j = [rng.choice([-1, 0, 1]) * 1e-13, rng.choice([-1, 0, 1]) * 1e-13]
        elif r < 0.55:
            kw["tol"] = rng.choice([1e-9, 1e-11])
        if sc[1] > 1e5:        # slopes beyond the default tolerance
            d, kw["tol"] = (0, 0), 5e-7
        x = [u + EPS * v + w for u, v, w in zip(fr.pt(q), d, j)]
        x = arr(rng, x, ints)
        x0 = copyof(x)
        s.call("Loc", {"q": list(q), "d": list(d)}, lambda: l.LocationRelation(x, **kw),
               lambda r: {"loc": r.name if isinstance(r, L.line.Location) else repr(r), "same": same(x, x0)})
        if rng.random() < 0.4:
            w = rng.choice("xy")
            i = "xy".index(w)
            known = q[i]
            kv = known * sc[i] + off[i]
            fn = rng.choice(["call", "method"])
            pos = rng.random() < 0.5

            def go():
                f = l if fn == "call" else l.Coordinate
                if w == "x" and pos:
                    return f(kv)
                return f(kv, which=w) if pos else f(kv, w)

            def pr(c):
                x, y = c
                kn, ot = (x, y) if w == "x" else (y, x)
                return {"kept": bool(kn == kv), "other": big((float(ot) - off[1 - i]) / sc[1 - i], 1e4)}
            s.call("Coord", {"known": known, "which": w}, go, pr)
        if isinstance(a0, np.ndarray) and rng.random() < 0.1:
            a0 += 1
    for t in range(2):
        den = rng.choice([1, 2, 4, 5, 3])
        num = [rng.randrange(-2 * den, 3 * den) for _ in range(rng.randrange(0, 6) if rng.random() < 0.9 else rng.choice([20, 100, 101, 102, 128, 300, 501, 700, 1025]))]
        if rng.random() < 0.3:
            num = sorted(num + [rng.choice(num) for _ in range(rng.randrange(0, 5)) if num], reverse=rng.random() < 0.3)
        if rng.random() < 0.2:              # ratios very near the two ends
            den = 2 ** 18
            num = [rng.choice([0, den]) + rng.choice([-3, -1, 0, 1, 2]) for _ in range(4)]
        deflt = rng.random() < 0.4
        rat = [x / den for x in num] if den > 1 or rng.random() < 0.5 else list(num)
        if not rat and not deflt:
            rat = np.array([], dtype=float)
        elif rng.random() < 0.5:
            rat = rng.choice([tuple, np.array])(rat)
        r0 = copyof(rat)

        def go():
            if deflt:
                return l.PointsFactory() if rng.random() < 0.5 else l.PointsFactory(ratios=None)
            return l.PointsFactory(rat)
        dd = 100 if deflt else den
        s.call("Points", {"def": deflt, "num": num, "den": den}, go,
               lambda P: {"pts": [[big((float(x) - o) / c, dd) for x, o, c in zip(p, off, sc)] for p in P],
                          "res": [[residue((float(x) - o) / c * dd) // max(1, dd // 50) for x, o, c in zip(p, off, sc)] for p in P], "same": same(rat, r0)})


def c23(ctx):
    by = {}
    for g in ctx.gen:
        if g["g"] == "line":
            by.setdefault((tuple(g["a"]), tuple(g["b"])), []).append(tuple(g["q"]))
    for (a, b), qs in sorted(by.items()):
        for rep in range(ctx.n(2, 12)):
            ctx.session("TPlane", {}, lambda s: line_session(ctx, s, ("g", a, b, rep), a, b, sorted(qs)))
    for i in range(ctx.n(150, 4000)):
        rng = ctx.rng("lr", i)
        P = lambda: (rng.randrange(-30, 31), rng.randrange(-30, 31))
        a, b = P(), P()
        if i % 10 == 0:
            b = a
        elif i % 10 == 1:
            b = (a[0], b[1])
        elif i % 10 == 2:
            b = (b[0], a[1])
        qs = [P() for _ in range(6)]
        for _ in range(8):
            t = rng.randrange(-2, 4)
            qs.append((a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])))
            if b != a:
                g = math.gcd(b[0] - a[0], b[1] - a[1])
                t = rng.randrange(-3, 4)
                q = (a[0] + t * (b[0] - a[0]) // g, a[1] + t * (b[1] - a[1]) // g)
                qs.append((q[0] + rng.choice([0, 0, 1, -1]), q[1] + rng.choice([0, 1, -1])))
        qs = [q for q in qs if abs(q[0]) < 200 and abs(q[1]) < 200]
        ctx.session("TPlane", {}, lambda s: line_session(ctx, s, ("r", i), a, b, qs))


def poly_frames():
    h = math.sqrt(3) / 2
    return [((1, 0), (0, 1)), ((1, 0), (0, 1)), ((1, 0.5), (0, h)), ((h, -0.5), (0.5, h)), ((0, -1), (1, 0)), ((-1, 0), (0, 1)),
            ((0.6, -0.8), (0.8, 0.6)), ((2.5, 0), (0, 0.1)), ((1, 3), (0, 1)), ((4.18879, 0), (-2.4184, 4.8368)),
            ((math.cos(math.pi / 4), -math.sin(math.pi / 4)), (math.sin(math.pi / 4), math.cos(math.pi / 4))), ((1e-2, 0), (0, 1e-2)),
            ((20, 0), (0, 20)), ((2 * math.pi / 3, 0), (0, 2 * math.pi / 3))]


def steep_ok(fr, V):
    """no edge so steep that its slope magnifies rounding errors beyond the tolerance"""
    for i in range(len(V)):
        a, b = fr.pt(V[i]), fr.pt(V[(i + 1) % len(V)])
        dx, dy = abs(a[0] - b[0]), abs(a[1] - b[1])
        for u in (dx, dy):
            if 1e-12 < u < 1e-4 * max(dx, dy):
                return False
    return True


def poly_session(ctx, s, key, V, qs, refs, whole=False):
    rng = ctx.rng("pl", key)
    while True:
        fr = Frame(rng.choice(poly_frames()), rng.choice([(0, 0), (0, 0), (1, -2), (0.3, 5.5), (-7.125, 1 / 3)]))
        sc = rng.choice([1, 1, 0.1, 1 / 6, 3])
        fr = Frame(tuple(tuple(x * sc for x in r) for r in fr.m), fr.o)
        if whole:
            fr = Frame(rng.choice([((1, 0), (0, 1)), ((1, 0), (0, 1)), ((0, -1), (1, 0)), ((2, 1), (-1, 2)), ((0.5, 0), (0, 0.5))]),
                       rng.choice([(0, 0), (1000, -4000), (0.5, 7)]))
        if steep_ok(fr, V):
            break
    (a, b), (c, d) = fr.m
    det = a * d - b * c
    ints = all(float(x).is_integer() for r in fr.m for x in r) and all(float(x).is_integer() for x in fr.o)

    def back(x):
        x, y = float(x[0]) - fr.o[0], float(x[1]) - fr.o[1]
        u, v = (d * x - b * y) / det, (-c * x + a * y) / det
        if abs(u - round(u)) > 1e-6 or abs(v - round(v)) > 1e-6:
            return [10 ** 8, 10 ** 8]
        return [round(u), round(v)]
    real = [fr.pt(v) for v in V]
    if ints:
        real = [[int(x) for x in p] for p in real] if rng.random() < 0.7 else real
    real = rng.choice([np.array, list, lambda r: tuple(tuple(x) for x in r)])(real)
    st = {}

    def new():
        st["p"] = L.poly.Polygon(real)
        return st["p"]
    s.call("Poly", {"V": [list(v) for v in V]}, new,
           lambda p: {"n": int(p.vertices_num), "V": [back(x) for x in p.vertices]})
    if "p" not in st:
        return
    p = st["p"]
    for q in qs:
        ref = rng.choice(refs)
        j = [0, 0]
        D = (0, 0)
        if len(q) == 2 and isinstance(q[0], tuple):     # moved a little towards D
            q, D = q
            e = [u - w for u, w in zip(fr.pt(D), fr.o)]
            j = [u / math.hypot(*e) * 1e-6 for u in e]
        elif rng.random() < 0.2:
            j = [rng.choice([-1, 1]) * 1e-13, rng.choice([-1, 1]) * 1e-13]
        x = arr(rng, [u + w for u, w in zip(fr.pt(q), j)], ints)
        y = arr(rng, fr.pt(ref), ints)
        x0, y0 = copyof(x), copyof(y)
        s.call("In", {"q": list(q), "d": list(D), "ref": list(ref)}, lambda: p.LocationRelation(x, y),
               lambda r: {"loc": r.name if isinstance(r, L.poly.Location) else repr(r), "same": same(x, x0) and same(y, y0)})
        if rng.random() < 0.02:
            if isinstance(real, np.ndarray):
                real[0] += 1
            elif isinstance(real, list):
                real[0], real[1] = real[1], real[0]
            v = p.vertices
            v *= 2
            s.call("Vertices", {}, lambda: p.vertices, lambda v: {"V": [back(x) for x in v]})


def inner(V):
    """integer points strictly inside (V integer, convex)"""
    xs, ys = [v[0] for v in V], [v[1] for v in V]
    out = []
    for x in range(min(xs), max(xs) + 1):
        for y in range(min(ys), max(ys) + 1):
            sg = {(c > 0) - (c < 0) for c in ((V[(i + 1) % len(V)][0] - V[i][0]) * (y - V[i][1])
                  - (V[(i + 1) % len(V)][1] - V[i][1]) * (x - V[i][0]) for i in range(len(V)))}
            if len(sg) == 1 and 0 not in sg:
                out.append((x, y))
    return out


def hull(pts, flat):
    """boundary order of the convex hull, with the collinear points when flat"""
    pts = sorted(set(pts))
    cr = lambda o, a, b: (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])

    def half(ps):
        h = []
        for p in ps:
            while len(h) >= 2 and (cr(h[-2], h[-1], p) < 0 or (not flat and cr(h[-2], h[-1], p) == 0)):
                h.pop()
            h.append(p)
        return h
    lo, hi = half(pts), half(pts[::-1])
    return lo[:-1] + hi[:-1]


def c24(ctx):
    import HamiltonianPy.polygon as P
    L.poly = P
    gen = [g for g in ctx.gen if g["g"] == "poly"]
    pick = ctx.rng("pg").sample(range(len(gen)), min(len(gen), ctx.n(450, 99999)))
    for i in sorted(pick):
        g = gen[i]
        rng = ctx.rng("pgq", i)
        V = [tuple(6 * x for x in v) for v in g["V"]]
        refs = inner(V)
        qs = [(6 * x, 6 * y) for x in range(-1, 5) for y in range(-1, 5)]
        qs = rng.sample(qs, 16) + V[:2]
        for _ in range(8):
            j = rng.randrange(len(V))
            a, b = V[j], V[(j + 1) % len(V)]
            t = rng.randrange(-4, 11)
            qs.append((a[0] + t * (b[0] - a[0]) // 6, a[1] + t * (b[1] - a[1]) // 6))
            qs.append(rng.choice(refs))
        ctx.session("TPlane", {}, lambda s: poly_session(ctx, s, ("g", i), V, qs, refs))
    c24_many(ctx)
    c24_wide(ctx)
    for i in range(ctx.n(200, 4000)):
        rng = ctx.rng("pr", i)
        n = rng.choice([3, 4, 5, 6, 8, 12, 20])
        while True:
            R = rng.choice([3, 5, 9])
            V = hull([(rng.randrange(-R, R + 1), rng.randrange(-R, R + 1)) for _ in range(n)], rng.random() < 0.4)
            if len(set(V)) == len(V) >= 3:
                V = [(3 * x, 3 * y) for x, y in V]
                refs = inner(V)
                if refs:
                    break
        k = rng.randrange(len(V))
        V = V[k:] + V[:k]
        if rng.random() < 0.5:
            V = V[::-1]
        if i % 25 == 0:
            V = V + [V[rng.randrange(len(V))]]
        qs = [(rng.randrange(-3 * R - 3, 3 * R + 4), rng.randrange(-3 * R - 3, 3 * R + 4)) for _ in range(10)] + V[:3]
        for _ in range(12):
            j = rng.randrange(len(V))
            a, b = V[j], V[(j + 1) % len(V)]
            t = rng.randrange(-3, 7)
            qs.append((a[0] + t * (b[0] - a[0]) // 3, a[1] + t * (b[1] - a[1]) // 3))
            qs.append((qs[-1][0] + rng.choice([-1, 0, 1]), qs[-1][1] + rng.choice([-1, 0, 1])))
            qs.append(rng.choice(refs))
        ctx.session("TPlane", {}, lambda s: poly_session(ctx, s, ("r", i), V, qs, refs))


def clear(V, q, D):
    """a small step along D keeps well clear of the sides through q, or runs along a side that is not steep"""
    for i in range(len(V)):
        a, b = V[i], V[(i + 1) % len(V)]
        u = (b[0] - a[0], b[1] - a[1])
        if u[0] * (q[1] - a[1]) - u[1] * (q[0] - a[0]):
            continue
        c = u[0] * D[1] - u[1] * D[0]
        if c == 0:
            if 0 < abs(u[0]) * 4 < abs(u[1]) or 0 < abs(u[1]) * 4 < abs(u[0]):
                return False
        elif abs(c) < 0.05 * math.hypot(*u) * math.hypot(*D) or (u[0] and abs(u[1]) > 40 * abs(u[0])):
            return False
    return True


def c24_wide(ctx):
    """polygons thousands of units wide, asked about points a single unit away from corners and sides"""
    for i in range(ctx.n(16, 200)):
        rng = ctx.rng("wide", i)
        R = rng.choice([300, 1500, 3000])
        while True:
            V = hull([(rng.randrange(-R, R + 1), rng.randrange(-R, R + 1)) for _ in range(rng.choice([3, 4, 6, 9]))], False)
            if i % 4 == 0:
                V = [(-R, -R), (R, -R), (R, R), (-R, R)]
            V = [(3 * x, 3 * y) for x, y in V]
            n = len(V)
            if n >= 3 and all(abs(V[j][c] - V[j - 1][c]) in (0,) or abs(V[j][c] - V[j - 1][c]) > 60 for j in range(n) for c in (0, 1)):
                break
        refs = [(sum(V[j][0] for j in t) // 3, sum(V[j][1] for j in t) // 3) for t in
                [rng.sample(range(n), 3) for _ in range(4)]]
        k = rng.randrange(n)
        V = V[k:] + V[:k]
        if rng.random() < 0.5:
            V = V[::-1]
        near = [(a, b) for a in (-2, -1, 0, 1, 2) for b in (-2, -1, 0, 1, 2)]
        qs = list(V)
        for j in range(n):
            a, b = V[j], V[(j + 1) % n]
            e = (a[0] + (b[0] - a[0]) // 3, a[1] + (b[1] - a[1]) // 3)
            qs += [(a[0] + u, a[1] + v) for u, v in rng.sample(near, 6)]
            qs += [e] + [(e[0] + u, e[1] + v) for u, v in rng.sample(near, 3)]
            # far less than a unit away from the corner, along its sides and off them
            o = V[j - 1]
            for D in [(b[0] - a[0], b[1] - a[1]), (o[0] - a[0], o[1] - a[1]), (b[0] + o[0] - 2 * a[0], b[1] + o[1] - 2 * a[1]),
                      (2 * a[0] - b[0] - o[0], 2 * a[1] - b[1] - o[1]), (1, 0), (-2, 1), (0, -1)]:
                if clear(V, a, D):
                    qs.append((a, D))
        ctx.session("TPlane", {}, lambda s: poly_session(ctx, s, ("w", i), V, qs, refs, True))


def many_sides(rng):
    """convex polygon whose sides run along many different directions"""
    m = rng.choice([3, 3, 3, 5, 6])
    dirs = {(a, b) for a in range(-m, m + 1) for b in range(-m, m + 1) if math.gcd(a, b) == 1}
    half = sorted({d for d in dirs if d > (0, 0)}, key=lambda d: math.atan2(d[1], d[0]))
    half = [d for d in half if rng.random() < 0.9]
    V, x = [], (0, 0)
    for d in half + [(-a, -b) for a, b in half]:
        V.append(x)
        x = (x[0] + d[0], x[1] + d[1])
    return V


def c24_many(ctx):
    for i in range(ctx.n(12, 150)):
        rng = ctx.rng("many", i)
        V = many_sides(rng)
        if i % 3 == 2:                 # a square with many points on its sides
            n = rng.choice([3, 5, 8, 17, 26])
            V = [(j, 0) for j in range(n)] + [(n, j) for j in range(n)] + [(n - j, n) for j in range(n)] + [(0, n - j) for j in range(n)]
        V = [(2 * x, 2 * y) for x, y in V]
        refs = inner(V)
        k = rng.randrange(len(V))
        V = V[k:] + V[:k]
        if rng.random() < 0.5:
            V = V[::-1]
        qs = list(V)
        for j in range(len(V)):
            a, b = V[j], V[(j + 1) % len(V)]
            m = ((a[0] + b[0]) // 2, (a[1] + b[1]) // 2)
            qs.append(m)
            for u in (-1, 1):
                qs.append((m[0] + u, m[1]))
                qs.append((m[0], m[1] + u))
        ctx.session("TPlane", {}, lambda s: poly_session(ctx, s, ("m", i), V, qs, rng.sample(refs, min(len(refs), 12))))


def build(ctx, prop):
    lib()
    {"C22": c22, "C23": c23, "C24": c24}[prop](ctx)


if __name__ == "__main__":
    main(build)
