"""Figures (C31): what the drawing functions put on the canvas, read back from
the figures they show or save."""
import os
os.environ["MPLBACKEND"] = "Agg"
from common import *
import contextlib
import io
import re
import runpy
import tempfile
import numpy as np
from d_lattice import Geo, geo, rand_cluster, rotation, FRAMES, BADV, EMPTY, S3


class L:
    pass


def lib():
    import matplotlib
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure
    import HamiltonianPy as H
    from HamiltonianPy import line2d, polygon
    from HamiltonianPy.lattice import lattice
    from HamiltonianPy.tools import Draw2DLattice
    L.plt, L.Figure, L.H, L.lat, L.line, L.poly, L.draw = plt, Figure, H, lattice, line2d, polygon, Draw2DLattice
    from matplotlib import colors
    L.hex = lambda c: colors.to_hex(c, keep_alpha=False)


LS = {"-": "-", "solid": "-", "--": "--", "dashed": "--", ":": ":", "dotted": ":", "-.": "-.", "dashdot": "-."}


def canvas(fig):
    """markers, polylines and texts of the only axes, in data coordinates"""
    if len(fig.axes) != 1:
        return {"bad": len(fig.axes)}
    ax = fig.axes[0]
    three = hasattr(ax, "get_zlim")
    pts, polys, mst, lst = [], [], [], []
    for l in ax.lines:
        if not l.get_visible():
            continue
        xy = np.array(l.get_data_3d() if three else l.get_data(), dtype=float)
        xy = xy.reshape(3 if three else 2, -1).T
        mk, ls = l.get_marker(), l.get_linestyle()
        if mk not in (None, "None", "none", "", " "):
            for p in xy:
                pts.append(p)
                mst.append((mk, L.hex(l.get_markerfacecolor()), round(100 * float(l.get_markersize()))))
        if ls not in ("None", "none", "", " ") and len(xy) > 1:
            polys.append(xy)
            lst.append((L.hex(l.get_color()), round(100 * float(l.get_linewidth())), LS.get(ls, "?")))
    for c in ax.collections:
        if not c.get_visible():
            continue
        if type(c).__name__ == "PathCollection":
            off = np.array(c.get_offsets(), dtype=float)
            fc, sz = c.get_facecolors(), c.get_sizes()
            for i, p in enumerate(off):
                pts.append(p)
                mst.append(("o", L.hex(fc[i % len(fc)]), round(100 * float(sz[i % len(sz)]) ** 0.5)))
        elif hasattr(c, "get_segments"):
            co, lw = c.get_colors(), c.get_linewidths()
            dash = c.get_linestyles()
            for i, g in enumerate(c.get_segments()):
                polys.append(np.array(g, dtype=float))
                d = dash[i % len(dash)][1]
                lst.append((L.hex(co[i % len(co)]), round(100 * float(lw[i % len(lw)])), "-" if d is None else "--"))
    texts = [((t.get_text()), np.array(t.get_position(), dtype=float)) for t in ax.texts if t.get_visible() and t.get_text()]
    out = {"pts": pts, "polys": polys, "mst": mst, "lst": lst, "texts": texts, "title": ax.get_title(),
           "win": [*ax.get_xlim(), *ax.get_ylim()], "axes": bool(ax.axison),
           "equal": ax.get_aspect() in (1, 1.0, "equal")}
    if three:
        out["view"] = (float(ax.elev), float(ax.azim))
    return out


class Recorder:
    """stands in for showing and for writing image files: keeps the canvases;
    a saved file is created empty at the path given"""

    def __enter__(self):
        self.shots = []
        plt, rec = L.plt, self
        plt.close("all")
        self.old = plt.show, L.Figure.savefig

        def show(*a, **k):
            for n in plt.get_fignums():
                rec.shots.append(("show", canvas(plt.figure(n))))

        def savefig(fig, fname, *a, **k):
            if not os.path.splitext(fname)[1]:
                fname = str(fname) + ".png"        # the default format
            with open(fname, "wb"):
                pass
            rec.shots.append(("save", canvas(fig)))
        plt.show, L.Figure.savefig = show, savefig
        self.out = io.StringIO()
        self.red = contextlib.redirect_stdout(self.out)
        self.red.__enter__()
        return self

    def __exit__(self, *a):
        self.red.__exit__(*a)
        self.open = len(L.plt.get_fignums())
        L.plt.show, L.Figure.savefig = self.old
        L.plt.close("all")


class Scratch:
    def __init__(self):
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix="hpyfig"))
        self.old = os.getcwd()
        os.chdir(self.dir)

    def files(self):
        out = []
        for d, _, fs in os.walk(self.dir):
            out += [os.path.relpath(os.path.join(d, f), self.dir) for f in fs]
        return sorted(out)

    def close(self):
        os.chdir(self.old)
        for d, ds, fs in os.walk(self.dir, topdown=False):
            for f in fs:
                os.unlink(os.path.join(d, f))
            for f in ds:
                os.rmdir(os.path.join(d, f))
        os.rmdir(self.dir)


def milli(x, lim=10 ** 9):
    x = float(x)
    return int(max(-lim, min(lim, round(1000 * x)))) if np.isfinite(x) else lim


def extent(pts):
    a = np.array(pts)
    return [milli(a[:, 0].min()), milli(a[:, 0].max()), milli(a[:, 1].min()), milli(a[:, 1].max())]


def grid(v, M, tol=1e-3):
    """integer coefficients of v on the inverse map M"""
    n = np.asarray(v, dtype=float) @ M
    r = np.rint(n)
    if not np.all(np.isfinite(n)) or np.max(np.abs(r)) > 10 ** 6 or np.max(np.abs(r - n)) > tol:
        return [BADV] * len(n)
    return [int(x) for x in r]


def lat_show(s, rng, g, lat, sc, name, scope, save):
    def f():
        keep = lat.points, lat.vectors
        kw = {}
        if scope or rng.random() < 0.5:
            kw["scope"] = scope
        if save or rng.random() < 0.5:
            kw["savefig"] = save
        with Recorder() as r:
            if rng.random() < 0.3 and "scope" in kw:
                lat.show(scope, **{k: v for k, v in kw.items() if k != "scope"})
            else:
                lat.show(**kw)
        shots = []
        for how, c in r.shots:
            if g.d == 1:
                pts = [g.isite(p[:1]) if abs(p[1]) < 1e-9 else [BADV] for p in c["pts"]]
            else:
                pts = [g.isite(p) for p in c["pts"]]
            shots.append({"how": how, "pts": pts, "segs": len(c["polys"]), "texts": len(c["texts"]), "title": c["title"],
                          "equal": c["equal"], "axes": c["axes"], "win": [milli(x) for x in c["win"]], "ext": extent(c["pts"])})
        said = os.path.join(sc.dir, "%s,scope=%d.png" % (name, scope)) in r.out.getvalue()
        return {"shots": shots, "files": sc.files(), "said": said,
                "kept": bool(np.array_equal(keep[0], lat.points) and np.array_equal(keep[1], lat.vectors))}
    ev = {"name": name, "scope": scope, "save": save, "files": []}
    s.call("LatShow", ev, f, lambda v: v)
    ev = s.rec["ev"][-1]
    ev["files"] = sc.files()


def lattices(ctx):
    gen = [g["w"] for g in ctx.gen if g["g"] == "lat"]
    todo = []
    for i, c in enumerate(sorted({json.dumps(w["c"], sort_keys=True) for w in gen})):
        todo.append((("g", i), json.loads(c)))
    for i in range(ctx.n(50, 500)):
        todo.append((("r", i), None))
    for key, c in todo:
        def go(s, key=key, c=c):
            rng = ctx.rng("lat", *key)
            if c:
                fr = {1: "sq1", 2: "sq" if c["G"] == [[1, 0], [0, 1]] else "hx"}[c["d"]]
                g, P, V = geo(rng, fr), c["P"], c["V"]
            else:
                fr = rng.choice(["sq1", "sq", "sq", "hx", "hx", "hx", "sq3"])
                d = len(FRAMES[fr][0])
                D = rng.choice([1, 1, 2, 3])
                P, V = rand_cluster(rng, fr, rng.choice([1, 2, 3, 4, 6]), d if rng.random() < 0.7 else rng.randrange(1, d + 1),
                                    2 if d == 3 else 4, 3)
                g = geo(rng, fr, D)
            s.rec["lat"] = {"d": g.d, "G": g.G, "P": P, "V": V}
            name = rng.choice(["x", "Square", "2 x 2 honeycomb", "C6v_cluster", "", "a.b", "h1=1"])
            pts, vec = np.array([g.site(p) for p in P]), np.array([g.vec(v) for v in V])
            lat = L.lat.Lattice(pts, vec, name) if name or rng.random() < 0.5 else L.lat.Lattice(pts, vec)
            sc = Scratch()
            try:
                if c:
                    for scope in range(3):
                        lat_show(s, rng, g, lat, sc, lat.name, scope, scope == rng.randrange(3))
                else:
                    for _ in range(rng.choice([1, 2, 3])):
                        lat_show(s, rng, g, lat, sc, lat.name, rng.choice([0, 1, 2, 4, 5, 7] if len(V) == 1 else [0, 1, 1, 2, 3, 4] if len(V) == 2 and len(P) < 4 else [0, 1, 2] if len(V) == 2 or len(P) == 1 else [0, 1]), rng.random() < 0.4)
            finally:
                sc.close()
        ctx.session("TFigure", EMPTY, go)


YS = {"square": 0.25, "s": 0.25}


def draw(s, rng, sc, which, n0, n1, link, trim, save, dir_, name, st):
    M = np.diag([4.0, 1 / YS.get(which, S3 / 12)])

    def f():
        kw = {k: v for k, v in st.items() if rng.random() < 0.8 or v not in ("black", 6, "gray", 2, "solid")}
        for k, v, dflt in (("link", link, False), ("trim", trim, False), ("save", save, True), ("path", dir_, ""), ("name", name or None, None)):
            if v != dflt or rng.random() < 0.4:
                kw[k] = v
        if (n0, n1) != (8, 8) or rng.random() < 0.5:
            kw.update(num0=n0, num1=n1)
        with Recorder() as r:
            if "num0" in kw and rng.random() < 0.5:
                L.draw.show(which, kw.pop("num0"), kw.pop("num1"), **kw)
            else:
                L.draw.show(which, **kw)
        shots = []
        for how, c in r.shots:
            segs = []
            for q in c["polys"]:
                for a, b in zip(q[:-1], q[1:]):
                    segs.append([grid(a, M), grid(b, M)])
            shots.append({"how": how, "pts": [grid(p, M) for p in c["pts"]], "segs": segs,
                          "mst": sorted({x[1:] for x in c["mst"]}), "lst": sorted(set(c["lst"])), "equal": c["equal"],
                          "axes": c["axes"], "win": [milli(x) for x in c["win"]], "ext": extent(c["pts"])})
        return {"shots": shots, "files": sc.files(), "nshow": sum(h == "show" for h, _ in r.shots),
                "nsave": sum(h == "save" for h, _ in r.shots), "open": r.open}
    ev = {"which": which, "n0": n0, "n1": n1, "link": link, "trim": trim, "save": save, "dir": dir_.strip("/"),
          "name": name if not name or "." in name else name + ".png",
          "files": [], "mc": L.hex(st["mc"]), "ms": round(100 * st["ms"]), "lc": L.hex(st["lc"]), "lw": round(100 * st["lw"]),
          "ls": LS[st["ls"]]}
    s.call("Draw", ev, f, lambda v: v)
    s.rec["ev"][-1]["files"] = sc.files()


def style(rng):
    if rng.random() < 0.4:
        return {"mc": "black", "ms": 6, "lc": "gray", "lw": 2, "ls": "solid"}
    return {"mc": rng.choice(["black", "red", "tab:blue", "#112233"]), "ms": rng.choice([6, 3, 8.5, 12]),
            "lc": rng.choice(["gray", "green", "#abcdef", "k"]), "lw": rng.choice([2, 1, 0.5, 4]),
            "ls": rng.choice(["solid", "dashed", "dotted", "-", "--", "dashdot"])}


def patches(ctx):
    gen = sorted([g["w"] for g in ctx.gen if g["g"] == "patch"], key=lambda w: json.dumps(w, sort_keys=True))
    if not ctx.thorough():
        gen = ctx.rng("patch").sample(gen, min(20, len(gen)))
    extra = [{"c": c, "n0": a, "n1": b} for c in ("square", "triangle", "honeycomb", "kagome") for a, b in ctx.n([(3, 1)], [(3, 1), (8, 8), (4, 5)])]
    rng = ctx.rng("large patch")
    extra += [{"c": "square", "n0": 24, "n1": 25}] + [{"c": c, "n0": a, "n1": b} for c, a, b in
              rng.sample([("triangle", 30, 20), ("honeycomb", 15, 18), ("kagome", 10, 16), ("square", 110, 4), ("honeycomb", 2, 120), ("kagome", 60, 1)], ctx.n(1, 6))]
    for i, w in enumerate(gen + extra):
        def go(s, i=i, w=w):
            rng = ctx.rng("patch", i)
            sc = Scratch()
            try:
                one = w["c"] in ("square", "triangle") and w["n0"] == w["n1"] == 0
                for j in range(rng.choice([2, 3]) if w["n0"] + w["n1"] < 20 else 1):
                    which = w["c"] if rng.random() < 0.5 else w["c"][0]
                    draw(s, rng, sc, which, w["n0"], w["n1"], not one and (j == 0 or rng.random() < 0.4), j > 0 and rng.random() < 0.7,
                         rng.random() < 0.7, rng.choice(["", "", "sub", "sub/", "a/b", "a/b/", "plots"]),
                         rng.choice(["", "", "p.png", "my fig.pdf", "square.pdf", "mine"]), style(rng))
                if i % 4 == 0:
                    draw(s, rng, sc, rng.choice(["cubic", "S", "honey", "", "hexagon"]), 1, 1, False, False, True, "sub", "", style(rng))
            finally:
                sc.close()
        ctx.session("TFigure", EMPTY, go)


def bz_shot(c, A, det):
    """A: real vectors whose products with a reciprocal vector over 2 pi are its coefficients"""
    M = A.T / (2 * np.pi)
    segs = []
    for q in c["polys"]:
        if len(q) != 2:
            segs.append([[BADV] * 2, [BADV] * 2])
            continue
        t = (q[0] - q[1]) / 2 @ M * det ** 0.5 * 4000
        segs.append([grid(q[0] + q[1], M), [int(np.clip(round(x), -10 ** 8, 10 ** 8)) if np.isfinite(x) else 10 ** 8 for x in t]])
    return segs


def zones(ctx):
    def one(s, rng, G, A, scale):
        det = G[0][0] * G[1][1] - G[0][1] * G[1][0]

        def f():
            a = A.copy()
            if rng.random() < 0.3:
                a = np.asfortranarray(a)
            with Recorder() as r:
                if scale == 1 and rng.random() < 0.5:
                    L.H.ShowFirstBZ(a)
                elif rng.random() < 0.5:
                    L.H.ShowFirstBZ(a, scale)
                else:
                    L.H.ShowFirstBZ(As=a, scale=scale)
            M = A.T / (2 * np.pi)
            return {"shots": [{"how": h, "pts": [grid(p, M) for p in c["pts"]], "texts": [[t, grid(p, M)] for t, p in c["texts"]],
                               "segs": bz_shot(c, A, det), "equal": c["equal"], "axes": c["axes"]} for h, c in r.shots],
                    "kept": bool(np.array_equal(a, A))}
        s.call("BZ", {"G": G, "sc4": round(4 * scale)}, f, lambda v: v)
    for fr in ("sq", "hx"):
        def go(s, fr=fr):
            rng = ctx.rng("bz", fr)
            G0 = FRAMES[fr][0]
            for V in [[[1, 0], [0, 1]], [[2, 1], [-1, 1]], [[0, 1], [1, 0]], [[3, 0], [1, 2]]]:
                one(s, rng, (np.array(V) @ np.array(G0) @ np.array(V).T).tolist(), np.array(V) @ Geo(fr).F, rng.choice([1, 2]))
            for _ in range(ctx.n(25, 300)):
                _, V = rand_cluster(rng, fr, 1, 2, 2, 4)
                g = geo(rng, fr, rng.choice([1, 2]), 0.2)
                V = np.array(V)
                one(s, rng, (V @ np.array(G0) @ V.T).tolist(), V @ g.F, rng.choice([1, 1, 2, 3, 0.5, 0.25, 1.5, 1.0]))
        ctx.session("TFigure", EMPTY, go)


def plain(t):
    return t.replace("$", "").replace("\\mathit", "").strip("{}").replace("\\", "")


def scripts(ctx):
    def zone(s):
        def f():
            with Recorder() as r:
                runpy.run_module("HamiltonianPy.tools.BrillouinZone", run_name="__main__")
            A = Geo("hx").F
            M = A.T / (2 * np.pi) * 6
            shots = []
            for how, c in r.shots:
                near = lambda p: min(c["pts"], key=lambda q: float(np.hypot(*(q - p))))
                shots.append({"how": how, "pts": [grid(p, M) for p in c["pts"]], "equal": c["equal"], "axes": c["axes"],
                              "texts": [[plain(t), grid(near(p), M)] for t, p in c["texts"]], "segs": bz_shot(c, A, 3)})
            return {"shots": shots}
        s.call("BZScript", {}, f, lambda v: v)

    def octa(s):
        sc = Scratch()
        try:
            def f():
                with Recorder() as r:
                    runpy.run_module("HamiltonianPy.tools.Octahedron", run_name="__main__")
                M = np.linalg.inv(np.array([[1, -1, 0], [1, 1, 0], [0, 0, 2 ** 0.5]], dtype=float))
                shots = []
                for how, c in r.shots:
                    e, a = np.radians(c["view"])
                    v = np.array([np.cos(e) * np.cos(a), np.cos(e) * np.sin(a), np.sin(e)]) @ np.linalg.inv(M).T
                    segs = []
                    for q, st in zip(c["polys"], c["lst"]):
                        segs += [[[grid(x, M), grid(y, M)], st[2]] for x, y in zip(q[:-1], q[1:])]
                    shots.append({"how": how, "pts": [grid(p, M) for p in c["pts"]], "segs": segs, "view": [milli(x) for x in v]})
                return {"shots": shots, "files": sc.files(), "nshow": sum(h == "show" for h, _ in r.shots),
                        "nsave": sum(h == "save" for h, _ in r.shots)}
            s.call("Octa", {}, f, lambda v: v)
        finally:
            sc.close()
    ctx.session("TFigure", EMPTY, zone)
    ctx.session("TFigure", EMPTY, octa)


Q4 = np.diag([4.0, 4.0])


def title(t):
    """["y", c], ["x", c] or ["s", slope, intercept] in 1e-4"""
    n = r"(-?\d+\.\d{4})"
    tk = lambda x: int(x.replace(".", ""))
    m = re.fullmatch(r"([xy]) = " + n, t)
    if m:
        return [m[1], tk(m[2])]
    m = re.fullmatch(r"y = " + n + r"x \+ " + n, t)
    return ["s", tk(m[1]), tk(m[2])] if m else ["?"]


def lines(ctx):
    for i in range(ctx.n(8, 60)):
        def go(s, i=i):
            rng = ctx.rng("line", i)
            for j in range(6):
                p, q, x = ([rng.randrange(-12, 13) for _ in range(2)] for _ in range(3))
                if j == 1:
                    q = [p[0], q[1]]
                if j == 2:
                    q = [q[0], p[1]]
                if p == q:
                    continue
                con = rng.choice([tuple, list, np.array])
                ln = L.line.Line2D(con([v / 4 for v in p]), con([v / 4 for v in q]))
                for loc in (False, True):
                    def f():
                        with Recorder() as r:
                            ln.ShowLocationRelation(con([v / 4 for v in x])) if loc else ln.ShowLine()
                        shots = []
                        for how, c in r.shots:
                            poly = np.concatenate(c["polys"])
                            k = rng.sample(range(len(poly)), min(6, len(poly)))
                            shots.append({"how": how, "pts": [grid(v, Q4) for v in c["pts"]], "title": title(c["title"]),
                                          "texts": [[t, grid(v, Q4)] for t, v in c["texts"]],
                                          "ends": [grid(v, Q4 * 100, 0.5) for v in (poly[0], poly[-1])] if len(c["polys"]) == 1 else [],
                                          "mid": [grid(poly[a], Q4 * 100, 0.5001) for a in k]})
                        return {"shots": shots, "open": r.open}
                    s.call("Line", {"p": p, "q": q, "x": x, "loc": loc}, f, lambda v: v)
        ctx.session("TFigure", EMPTY, go)


SHAPES = [[[0, 0], [4, 0], [0, 4]], [[0, 0], [4, 0], [4, 4], [0, 4]], [[0, 0], [5, 1], [6, 4], [2, 6], [-1, 3]],
          [[-2, -4], [2, -4], [4, 0], [2, 4], [-2, 4], [-4, 0]]]


def polys(ctx):
    def go(s):
        rng = ctx.rng("poly")
        for i in range(ctx.n(12, 100)):
            V = rng.choice(SHAPES)
            a = rng.choice([[1, 0, 0, 1], [1, 1, 0, 1], [0, -1, 1, 0], [2, 1, -1, 1]])
            o = [rng.randrange(-9, 10) for _ in range(2)]
            V = [[a[0] * x + a[1] * y + o[0], a[2] * x + a[3] * y + o[1]] for x, y in V]
            k = rng.randrange(len(V))
            V = (V[k:] + V[:k])[::rng.choice([1, -1])]
            x = [rng.randrange(-12, 13) for _ in range(2)]
            q = rng.choice([4, 4, 1])        # in quarters, or a polygon of integers
            pg = L.poly.Polygon(np.array(V) / 4 if q == 4 else rng.choice([np.array, lambda v: [tuple(p) for p in v]])(V))
            V = [[4 // q * c for c in p] for p in V]
            for loc in (False, True):
                def f():
                    with Recorder() as r:
                        pg.ShowLocationRelation([v / 4 for v in x]) if loc else pg.ShowPolygon()
                    shots = []
                    for how, c in r.shots:
                        segs = []
                        for q in c["polys"]:
                            segs += [[grid(u, Q4), grid(v, Q4)] for u, v in zip(q[:-1], q[1:])]
                        sq = [m[0] == "s" for m in c["mst"]]
                        shots.append({"how": how, "pts": [grid(v, Q4) for v, b in zip(c["pts"], sq) if not b],
                                      "sq": [grid(v, Q4) for v, b in zip(c["pts"], sq) if b], "segs": segs, "equal": c["equal"]})
                    return {"shots": shots, "open": r.open}
                s.call("Poly", {"V": V, "x": x, "loc": loc}, f, lambda v: v)
    ctx.session("TFigure", EMPTY, go)


def build(ctx, prop):
    lib()
    lattices(ctx)
    patches(ctx)
    zones(ctx)
    scripts(ctx)
    lines(ctx)
    polys(ctx)


if __name__ == "__main__":
    main(build)
