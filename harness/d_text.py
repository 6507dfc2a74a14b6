"""Text forms (C29)."""
from common import *
import ast
import os
os.environ.setdefault("MPLBACKEND", "Agg")
import numpy as np


class L:
    pass


def lib():
    import HamiltonianPy as H
    from HamiltonianPy import bond, hilbertspace, indextable, line2d, lattice
    from HamiltonianPy.quantumoperator import quantumstate, particlesystem, spinsystem, constant
    L.lat = lattice
    L.ns = {"SiteID": quantumstate.SiteID, "StateID": quantumstate.StateID, "AoC": particlesystem.AoC,
            "NumberOperator": particlesystem.NumberOperator, "SpinOperator": spinsystem.SpinOperator,
            "CREATION": constant.CREATION, "ANNIHILATION": constant.ANNIHILATION, "Bond": bond.Bond,
            "Line2D": line2d.Line2D, "HilbertSpace": hilbertspace.HilbertSpace,
            "SimpleHilbertSpace": hilbertspace.SimpleHilbertSpace}
    L.Table = indextable.IndexTable
    L.PT, L.ST = particlesystem.ParticleTerm, spinsystem.SpinInteraction
    L.pa = particlesystem


def micro(x):
    y = float(x) * 1e6
    n = round(y)
    return n if abs(y - n) < 1e-3 and abs(n) < 2 ** 31 else -2147483647


def number(c):
    return c["v"] // 1000000 if c["k"] == "i" else c["v"] / 1e6


class Long(random.Random):
    """makes every float coordinate one with many digits, of the same value to the precision"""


def lengthen(v):
    if not isinstance(v, float):
        return v
    return 1.2345678901234567e-101 if v == 0 else v * (1 + 3.3e-15)


def coords(site, rng=None):
    v = [number(c) for c in site]
    if isinstance(rng, Long):
        v = [lengthen(x) for x in v]
    r = rng.randrange(4) if rng else 0
    if r == 1:
        return list(v)
    if r == 2 and len({c["k"] for c in site}) == 1:
        return np.array(v)
    return tuple(v)


def build_obj(x, rng=None):
    c, n = x["c"], L.ns
    if c == "site":
        return n["SiteID"](coords(x["site"], rng))
    if c == "state":
        return n["StateID"](coords(x["site"], rng), x["spin"], x["orbit"])
    if c == "aoc":
        return n["AoC"](x["ot"], coords(x["site"], rng), x["spin"], x["orbit"])
    if c == "num":
        return n["NumberOperator"](coords(x["site"], rng), x["spin"], x["orbit"])
    if c == "spin":
        return n["SpinOperator"](x["st"], coords(x["site"], rng))
    if c == "bond":
        return n["Bond"](coords(x["p"], rng), coords(x["q"], rng), directional=x["dir"])
    if c == "line":
        return n["Line2D"](coords(x["p"], rng), coords(x["q"], rng))
    if c == "space":
        return n["HilbertSpace"](*[(tuple(a), b) for a, b in x["specs"]])
    if c == "simple":
        return n["SimpleHilbertSpace"](tuple(x["states"]), x["n"])
    if c == "term":
        ops = [build_obj(y, rng) for y in x["ops"]]
        z = x["co"]
        v = {"i": z["re"] // 4, "f": z["re"] / 4, "c": complex(z["re"] / 4, z["im"] / 4)}[z["k"]]
        return (L.ST if x["ops"] and x["ops"][0]["c"] == "spin" else L.PT)(ops, coeff=v)
    raise ValueError(c)


def meaning(o):
    t = type(o).__name__
    site = lambda: [micro(v) for v in o.coordinate]
    if t == "SiteID":
        return ["site", site()]
    if t == "StateID":
        return ["state", site(), o.spin, o.orbit]
    if t == "AoC":
        return ["aoc", int(o.otype), site(), o.spin, o.orbit]
    if t == "NumberOperator":
        return ["num", site(), o.spin, o.orbit]
    if t == "SpinOperator":
        return ["spin", o.otype, site()]
    if t == "Bond":
        a, b = [[micro(v) for v in p] for p in o.endpoints]
        return ["bond", a, b, o.directional if hasattr(o, "directional") else o._directional]
    if t == "Line2D":
        pts = o.PointsFactory((0.0, 1.0))
        return ["line", [micro(v) for v in pts[0]], [micro(v) for v in pts[1]]]
    if t == "HilbertSpace":
        return ["space", [[list(a), b] for a, b in o.subspace_specifiers]]
    if t == "SimpleHilbertSpace":
        return ["simple", list(o.single_particle_states), o.particle_number]
    return [t]


def read(text):
    return eval(text, {"__builtins__": {}}, dict(L.ns))


def options(o, kind, rng):
    """the keyword arguments of tolatex saying o"""
    kw = {}
    if o["idx"] >= 0:
        kw["site_index"] = rng.choice([int, np.int64])(o["idx"])
    elif o["tab"]:
        kw["site_index"] = L.Table([L.ns["SiteID"](coords(x, rng)) for x in o["tab"]])
    elif rng.random() < 0.2:
        kw["site_index"] = None
    if o["nd"] != 4 or rng.random() < 0.3:
        kw["ndigits"] = o["nd"]
    if not o["arrow"] or rng.random() < 0.3:
        kw["spin_one_half"] = o["arrow"]
    if o["orb"] or rng.random() < 0.3:
        kw["suppress_orbit"] = not o["orb"]
    if kind == "term" and "site_index" in kw:
        kw["indices_table"] = kw.pop("site_index")
    return kw


def tex(s, rng, x, o):
    obj = {}

    def go():
        b = obj["o"] = build_obj(x, rng)
        kw = options(o, x["c"], rng)
        if "indices_table" in kw and rng.random() < 0.5:
            return b.tolatex(kw.pop("indices_table"), **kw)
        return b.tolatex(**kw)
    s.call("Tex", {"x": x, "o": o}, go, lambda v: {"s": v})
    if x["c"] in ("aoc", "num", "spin", "term") and rng.random() < 0.03 and "o" in obj:
        import matplotlib.pyplot as plt

        def show():
            plt.close("all")
            kept = []
            old = plt.show
            plt.show = lambda *a, **k: kept.extend(t.get_text() for f in map(plt.figure, plt.get_fignums())
                                                   for ax in f.axes for t in ax.texts)
            try:
                obj["o"].show(**options(o, x["c"], rng))
            finally:
                plt.show = old
                plt.close("all")
            return kept
        s.call("Show", {"x": x, "o": o}, show, lambda v: {"s": list(v)})


def shown(s, rng, x):
    s.call("Repr", {"x": x}, lambda: (lambda o: (o, read(repr(o))))(build_obj(x, Long(rng.random()) if rng.random() < 0.2 else rng)),
           lambda v: {"m": meaning(v[1]), "eq": bool(x["c"] in ("line", "space", "simple") or
                                                    (v[0] == v[1] and hash(v[0]) == hash(v[1])))})


def rcoord(rng, kind=None, fine=True):
    k = kind or rng.choice("if")
    if k == "i":
        return {"k": "i", "v": rng.choice([0, 1, -1, 2, 17, -40, rng.randrange(-300, 300), rng.choice([-1, 1]) * rng.randrange(990, 2140)]) * 1000000}
    v = rng.choice([rng.randrange(-5000000, 5000000), rng.randrange(-2 ** 31 + 7, 2 ** 31), rng.randrange(-20, 20) * 250000, rng.randrange(0, 30) * 1000000,
                    rng.choice([333333, 666667, 1732051, -866025, 100, 10, 25, 7, 99950, 0, 0])])
    return {"k": "f", "v": v if fine else v // 10000 * 10000}


def rsite(rng, dim=None, **kw):
    return [rcoord(rng, **kw) for _ in range(dim or rng.choice([1, 2, 2, 3]))]


def rop(rng, c):
    d = {"c": c, "site": rsite(rng)}
    if c in ("state", "aoc", "num"):
        d.update(spin=rng.choice([0, 1, 1, 0, 1, 2, 3, rng.randrange(4, 300)]),
                 orbit=rng.choice([0, 0, 1, 4, rng.randrange(5, 300)]))
    if c == "aoc":
        d["ot"] = rng.randrange(2)
    if c == "spin":
        d["st"] = rng.choice("xyzpm")
    return d


def ropts(rng, sites):
    o = {"idx": -1, "tab": [], "nd": rng.choice([4, 4, 1, 2, 3, 5, 6]), "arrow": rng.random() < 0.6, "orb": rng.random() < 0.5}
    r = rng.random()
    if r < 0.2:
        o["idx"] = rng.randrange(30)
    elif r < 0.5:
        tab, seen = [], set()
        for x in list(sites) + [rsite(rng) for _ in range(3)]:
            t = tuple(c["v"] // 100 for c in x)
            if t not in seen:
                seen.add(t)
                tab.append(x)
        rng.shuffle(tab)
        o["tab"] = tab
    return o


def rcoeff(rng):
    k = rng.choice("ifc")
    q = lambda: rng.choice([rng.randrange(-40, 40), 4, 2, 1])
    z = {"k": k, "re": q(), "im": 0}
    if k == "i":
        z["re"] *= 4
    if k == "c":
        z["re"] = rng.choice([0, z["re"]])
        z["im"] = q()
    return z


def rterm(rng):
    c = rng.choice(["aoc", "spin"])
    return {"c": "term", "co": rcoeff(rng), "ops": [rop(rng, c) for _ in range(rng.randrange(1, 5))]}


def rspecs(rng):
    out, base = [], 0
    for _ in range(rng.randrange(1, 4)):
        w = rng.randrange(1, 5)
        st = sorted(rng.sample(range(base, base + w + 2), w))
        base += w + 2
        out.append([st, rng.randrange(-1, w + 1)])
    return out


def robj(rng):
    c = rng.choice(["site", "state", "aoc", "num", "spin", "bond", "line", "space", "simple"])
    if c in ("bond", "line"):
        kind = rng.choice("if")
        dim = 2 if c == "line" else rng.choice([1, 2, 3])
        while True:
            p, q = (rsite(rng, dim, kind=kind) for _ in range(2))
            if [x["v"] // 10000 for x in p] != [x["v"] // 10000 for x in q]:
                break
        d = {"c": c, "p": p, "q": q}
        if c == "bond":
            d["dir"] = rng.random() < 0.5
        return d
    if c == "space":
        return {"c": c, "specs": rspecs(rng)}
    if c == "simple":
        st, n = rspecs(rng)[0]
        return {"c": c, "states": st, "n": n}
    return rop(rng, c)


def fields(text):
    out = {}
    for line in text.split("\n"):
        k, _, v = line.partition(":")
        out[k.strip()] = v.strip()
    return out


def vector(t):
    return [micro(float(x)) for x in t.strip("[]()").replace(",", " ").split()]


def strs(s, rng):
    x = rterm(rng)
    def term(v):
        a, b, *ops = v.split("\n")
        if a.split(":")[0] != "The coefficient of this term" or b != "The component operators:":
            return {"co": "?", "ops": []}
        return {"co": a.split(": ")[1], "ops": [meaning(read(y.strip())) for y in ops]}
    s.call("Term", {"x": x}, lambda: str(build_obj(x, rng)), term)
    # tables
    c = rng.choice(["site", "state", "aoc", "num", "spin"])
    objs = []
    seen = set()
    wide = rng.random() < 0.3       # the longest text forms
    if wide:
        c = rng.choice(["aoc", "num"])
    many = rng.choice([130, 220, 300, 530]) if rng.random() < 0.04 else 0
    for _ in range(many or rng.randrange(1, 9)):
        y = rop(rng, c)
        if wide:
            y["site"] = [{"k": "f", "v": rng.choice([0, 0, rng.randrange(-999999, 0)])} for _ in range(3)]
            y.update(spin=rng.randrange(10 ** 6, 10 ** 9), orbit=rng.randrange(10 ** 8, 10 ** 9))
        t = (tuple(v["v"] // 100 for v in y["site"]), y.get("spin"), y.get("orbit"), y.get("ot"), y.get("st"))
        if t not in seen:
            seen.add(t)
            objs.append(y)
    st = rng.choice([0, 0, 1, 98])
    lg = Long(rng.random()) if wide or rng.random() < 0.3 else rng
    s.call("Table", {"objs": objs, "start": st}, lambda: str(L.Table([build_obj(y, lg) for y in objs], start=st)),
           lambda v: {"rows": [[int(l[:8]), meaning(read(l[8:]))] for l in v.split("\n")[2:]]})
    # spaces
    x = {"c": "space", "specs": rspecs(rng)}
    s.call("Space", {"x": x}, lambda: str(build_obj(x)), lambda v: (lambda l: {
        "n": int(l[0].split(":")[1]), "specs": [[list(a), b] for a, b in map(ast.literal_eval, map(str.strip, l[2:]))]})(v.split("\n")))
    a, n = rspecs(rng)[0]
    x = {"c": "simple", "states": a, "n": n}
    s.call("Space", {"x": x}, lambda: str(build_obj(x)), lambda v: (lambda l: {
        "pn": int(l[0].split(":")[1]), "sn": int(l[1].split(":")[1]), "states": list(ast.literal_eval(l[3].strip()))})(v.split("\n")))
    # bonds
    dim = rng.choice([1, 2, 3])
    kind = rng.choice("if")
    pt = lambda: [{"k": kind, "v": rng.randrange(-40, 40) * (1000000 if kind == "i" else 250000)} for _ in range(dim)]
    p, q = pt(), pt()
    if p == q:
        q[0] = {"k": kind, "v": p[0]["v"] + 1000000}
    x = {"c": "bond", "p": p, "q": q, "dir": rng.random() < 0.6}

    def bond(v):
        f = fields(v)
        return {"p": vector(f["P0"]), "q": vector(f["P1"]), "len": int(float(f["Length"]) * 100 + 1e-6),
                "d": f["Displace"] if f["Displace"] == "Undefined" else vector(f["Displace"]),
                "az": "Undefined" if f["Azimuth"] == "Undefined" else "number"}
    s.call("Bond", {"x": x}, lambda: str(build_obj(x, rng)), bond)
    # lattices
    d = rng.choice([1, 2, 3])
    td = rng.randrange(1, d + 1)
    V = {(1, 1): [[4]], (2, 1): [[4, 1]], (2, 2): rng.choice([[[4, 0], [0, 3]], [[4, 1], [-1, 3]]]), (3, 1): [[0, 4, 0]],
         (3, 2): [[4, 0, 0], [1, 3, 0]], (3, 3): rng.choice([[[4, 0, 0], [0, 3, 0], [0, 0, 5]], [[4, 0, 0], [1, 3, 0], [0, 1, 5]]])}[d, td]
    cells = [[0] * d, [1] + [0] * (d - 1), [2] + [1] * (d - 1), [-1] + [2] * (d - 1)]
    if d == 1:
        cells = [[0], [1], [2], [3]]
    P = rng.sample(cells, rng.randrange(1, 4))

    def lat(v):
        ls = v.split("\n")
        num = lambda i: int(ls[i].split(":")[1])
        sec, cur = {}, None
        for l in ls[3:]:
            if l.startswith(" "):
                sec[cur].append([float(y) for y in l.strip().strip("[]").split(",")])
            else:
                cur = l.rstrip(":")
                sec[cur] = []
        ints = lambda m: [[int(y) if y == int(y) else -999 for y in r] for r in m]
        return {"pn": num(0), "sd": num(1), "td": num(2), "P": ints(sec["Points"]), "V": ints(sec["Vectors"]),
                "B": [[round(max(-9, min(9, y / (2 * math.pi))) * 1e7) for y in r] for r in sec["Bs"]]}
    s.call("Lattice", {"P": P, "V": V}, lambda: str(L.lat.Lattice(np.array(P), np.array(V))), lat)


def c29(ctx):
    gen = [g for g in ctx.gen if g["g"] == "tex"]
    step = 1 if ctx.thorough() else 2
    off = ctx.rng("off").randrange(step)
    gen = gen[off::step]
    for i in range(0, len(gen), 60):
        def go(s):
            rng = ctx.rng("tg", i)
            for g in gen[i:i + 60]:
                tex(s, rng, g["x"], g["o"])
                y = g["x"]["ops"][0]
                tex(s, rng, y, g["o"])
                if y["c"] == "aoc":
                    z = {k: v for k, v in y.items() if k != "ot"}
                    tex(s, rng, dict(z, c=rng.choice(["state", "num"])), g["o"])
                if rng.random() < 0.3:
                    tex(s, rng, {"c": "site", "site": y["site"]}, g["o"])
        ctx.session("TText", {}, go)
    for i in range(ctx.n(150, 2500)):
        def go(s):
            rng = ctx.rng("tr", i)
            for _ in range(8):
                shown(s, rng, robj(rng))
            for _ in range(8):
                x = rop(rng, rng.choice(["site", "state", "aoc", "num", "spin"])) if rng.random() < 0.5 else rterm(rng)
                tex(s, rng, x, ropts(rng, [y["site"] for y in x.get("ops", [x])]) if rng.random() < 0.8
                    else {"idx": -1, "tab": [], "nd": 4, "arrow": True, "orb": False})
            strs(s, rng)
        ctx.session("TText", {}, go)


    for i in range(ctx.n(40, 400)):
        def go(s):
            rng = ctx.rng("ln", i)
            for _ in range(6):
                p, q = ([rng.randrange(-30, 31) for _ in range(2)] for _ in range(2))
                j = rng.randrange(5)
                if j < 2:
                    q[j] = p[j]
                if p == q:
                    continue
                f = rng.choice([list, tuple, np.array, lambda v: np.array(v, float)])
                line = s.call("Line", {"p0": p, "p1": q}, lambda: L.ns["Line2D"](f(p), f(q)),
                              lambda v: {"hor": bool(v.IsHorizontal), "ver": bool(v.IsVertical)})

                def eqn(t):
                    lhs, rhs = t.split(" = ")
                    num = lambda y: round(float(y) * 10000)
                    if "x" in rhs:
                        a, b = rhs.split("x + ")
                        return {"kind": lhs + "x", "c": [num(a), num(b)]} if lhs == "y" else {"kind": t, "c": []}
                    return {"kind": lhs, "c": [num(rhs)]}
                s.call("Str", {}, lambda: str(line), lambda t: (lambda d: dict(d, kind="xy" if d["kind"] == "yx" else d["kind"]))(eqn(t)))
        ctx.session("TPlane", {}, go)


def build(ctx, prop):
    lib()
    {"C29": c29}[prop](ctx)


if __name__ == "__main__":
    main(build)
