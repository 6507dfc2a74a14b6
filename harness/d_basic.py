"""Value objects: Hilbert-space bases (C05), identifiers (C06), index tables
(C07) and bonds (C18)."""
from common import *
import operator
import numpy as np


def cmp_all(x, y):
    def t(f):
        try:
            v = f(x, y)
        except TypeError:
            return "E"
        return "T" if v is True or (isinstance(v, np.bool_) and v) else "F" if v is False or isinstance(v, np.bool_) else "?"
    return dict(eq=t(operator.eq), ne=t(operator.ne), lt=t(operator.lt), le=t(operator.le),
                gt=t(operator.gt), ge=t(operator.ge))


def cmp_full(x, y):
    r = cmp_all(x, y)
    r["hash"] = hash(x) == hash(y)
    r["mem"] = y in {x} and y in [x] and y in {x: 1} if y in {x} else False
    return r


def micro(x):
    """coordinate -> integer in units of 1e-6 (BADCOORD when it is not one)"""
    y = float(x) * 1e6
    n = round(y)
    return int(n) if abs(y - n) < 1e-3 and abs(n) < 2 ** 30 else 10 ** 9 + 7


def coord(m, rng):
    """a python number equal to m * 1e-6"""
    if m % 1000000 == 0 and rng.random() < 0.5:
        return rng.choice([int, np.int64, np.int32, np.int16] if abs(m) < 3 * 10 ** 10 else [int, np.int64])(m // 1000000)
    return rng.choice([float, float, np.float64])(m / 1e6)


def noisy(rng, pc):
    """a number m of last digits, preferring ones whose decimal form is inexact"""
    u = 10 ** (6 - pc)
    lim = min(3000, 200000000 // u)
    for _ in range(12 if rng.random() < 0.6 else 1):
        m = rng.randrange(-lim, lim)
        if int(10 ** pc * (m * u / 1e6)) != m:
            break
    return m


def cont(v, rng):
    k = rng.randrange(3)
    return tuple(v) if k == 0 else list(v) if k == 1 else np.array([float(x) for x in v])


# --------------------------------------------------------------------- C05
def c05(ctx):
    from HamiltonianPy import hilbertspace as HS
    import HamiltonianPy

    def kets(v):
        c = "array" if isinstance(v, np.ndarray) else type(v).__name__
        dt = str(v.dtype) if c == "array" else ""
        q = [bits(int(x)) if int(x) >= 0 else [-1] for x in v]
        return {"kets": q, "cont": c, "dt": dt}

    def conc(sp, rng):
        """one accepted spelling of the specifier [states, n]"""
        st, n = sp
        rangey = st == list(range(len(st)))
        ways = ["seq"]
        if rangey:
            ways += ["int"]
            if n == -1:
                ways += ["bare"]
        w = rng.choice(ways)
        outer = rng.choice([tuple, list])
        if w == "bare":
            return len(st)
        if w == "int":
            return outer([len(st), n])
        return outer([rng.choice([tuple, list, set])(st), n])

    def kw(rng):
        k, cont_, srt = {}, "array", True
        if rng.random() < 0.7:
            cont_ = k["container"] = rng.choice(["list", "tuple", "array"])
        if rng.random() < 0.5:
            srt = k["sort"] = rng.random() < 0.6
        return k, cont_, srt

    def run(s, rng, specs, routes, h):
        cs = [conc(x, rng) for x in specs]
        for rt in routes:
            k, c, srt = kw(rng)
            p = {"specs": specs, "malformed": False, "cont": c, "sort": srt, "route": rt}
            if rt == "fn":
                fn = rng.choice([HS.base_vectors, HamiltonianPy.base_vectors])
                s.call("Base", p, lambda: fn(*cs, **k), kets)
            elif rt == "tmp":
                s.call("Base", p, lambda: HS.HilbertSpace(*cs).base_vectors(**k), kets)
            elif rt == "simple1":
                st, n = specs[0]
                a = len(st) if st == list(range(len(st))) and rng.random() < 0.5 else rng.choice([tuple, list, set])(st)
                args = (a,) if n == -1 and rng.random() < 0.5 else (a, n)
                s.call("Base", p, lambda: HS.SimpleHilbertSpace(*args)(**k), kets)
            else:
                hh = h + rt
                if rt == "HS":
                    o = s.call("New", {"h": hh, "specs": specs, "malformed": False, "route": rt},
                               lambda: HS.HilbertSpace(*cs),
                               lambda v: {"num": int(v.subspace_number),
                                          "specs": [[[int(x) for x in a], int(n)] for a, n in v.subspace_specifiers]})
                else:
                    st, n = specs[0]
                    o = s.call("New", {"h": hh, "specs": specs, "malformed": False, "route": rt},
                               lambda: HS.SimpleHilbertSpace(tuple(st), n),
                               lambda v: {"num": 1 if v.state_number == len(st) else -1,
                                          "specs": [[[int(x) for x in v.single_particle_states],
                                                     int(v.particle_number)]]})
                if o is None:
                    continue
                c2 = rng.choice(["list", "tuple", "array"])
                for w in range(4):
                    k, c, srt = kw(rng)
                    if w > 1:             # the same container again, in the two orders
                        k, c, srt = {"container": c2, "sort": w == 3 or rng.random() < 0.1}, c2, None
                        srt = k["sort"]
                    q = {"h": hh, "cont": c, "sort": srt}
                    v = s.call("Ask", q, lambda: (o.base_vectors if rng.random() < .5 else o)(**k), kets)
                    if isinstance(v, (list, np.ndarray)) and len(v):
                        v[0] = 12345          # the caller owns its result

    spaces = [g["specs"] for g in ctx.gen if g["g"] == "space"]
    for b in range(0, len(spaces), 20):
        def go(s, b=b):
            rng = ctx.rng("gen", b)
            for j, sp in enumerate(spaces[b:b + 20]):
                sp = [[rng.sample(st, len(st)), n] for st, n in sp]
                routes = rng.sample(["fn", "HS", "tmp"], 2)
                if len(sp) == 1:
                    routes.append(rng.choice(["simple1", "SHS"]))
                run(s, rng, sp, routes, "h%d" % j)
        ctx.session("THilbert", {}, go)

    def rand_specs(rng, top, total, nsub):
        pool = rng.sample(range(top), total)
        if rng.random() < 0.2 and total <= top:
            pool = list(range(total))
        cut = sorted(rng.sample(range(1, total), nsub - 1)) if nsub > 1 else []
        parts = [pool[a:b] for a, b in zip([0] + cut, cut + [total])]
        return [[p, rng.choice([-1, -1, -3] + list(range(len(p) + 1)) * 2)] for p in parts]

    for i in range(ctx.n(60, 800)):
        def go(s, i=i):
            rng = ctx.rng("rand", i)
            for j in range(3):
                big = rng.random() < 0.3
                if big:       # many states, few particles; the top bit included
                    n = rng.choice([20, 40, 63, 64])
                    st = list(range(n))
                    rng.shuffle(st)
                    k = rng.choice([0, 1, 1, n - 1, n]) if n > 40 else rng.choice([0, 1, 2])
                    sp = [[st, k]]
                    if rng.random() < 0.5:
                        c = rng.randrange(1, n)
                        sp = [[st[:c], rng.choice([0, 1])], [st[c:], rng.choice([0, 1])]]
                else:
                    nsub = rng.choice([1, 2, 2, 3, 4, 6, 8])
                    tot = rng.randrange(nsub, ctx.n(9, 11))
                    sp = rand_specs(rng, rng.choice([max(tot, 10), 64]), tot, nsub)
                routes = ["fn", "HS"] + (["simple1", "SHS"] if len(sp) == 1 else ["tmp"])
                run(s, rng, sp, rng.sample(routes, 2), "h%d" % j)
        ctx.session("THilbert", {}, go)
    # large sectors, looked at in places
    for i in range(ctx.n(8, 80)):
        def go(s, i=i):
            rng = ctx.rng("huge", i)
            w = rng.randrange(3)
            if w == 0:
                n = rng.choice([11, 12, 13, 14, 15])
                sp = [[rng.sample(range(rng.choice([n, n + 3, 64])), n), -1]]
            elif w == 1:
                n, k = rng.choice([(14, 7), (16, 8), (18, 6), (30, 3), (40, 3), (64, 2), (63, 61)])
                sp = [[rng.sample(range(rng.choice([n, 64])), n), k]]
            else:
                st = rng.sample(range(rng.choice([20, 64])), 18)
                sp = [[st[:a], x] for a, x in [(6, rng.choice([-1, 3]))]] + [[st[6:11], rng.choice([-1, 2])], [st[11:], rng.choice([1, 3, 5])]]
            if rng.random() < 0.3:
                sp = [[sorted(st), x] for st, x in sp]
            cs = [conc(x, rng) for x in sp]
            allst = [x for st, _ in sp for x in st]

            def pick():
                a = []
                for st, x in sp:
                    a += rng.sample(st, rng.randrange(len(st) + 1) if x < 0 else x)
                if rng.random() < 0.3:
                    x = rng.choice(allst + [rng.randrange(64)])
                    a = [y for y in a if y != x] if x in a else a + [x]
                return sorted(a)
            for rt in rng.sample(["fn", "HS"] + (["simple"] if len(sp) == 1 else []), 2):
                k, c, srt = kw(rng)

                def f():
                    if rt == "fn":
                        return HS.base_vectors(*cs, **k)
                    if rt == "HS":
                        return HS.HilbertSpace(*cs).base_vectors(**k)
                    return HS.SimpleHilbertSpace(tuple(sp[0][0]), sp[0][1])(**k)

                def look(v):
                    r = kets([])
                    r["cont"] = "array" if isinstance(v, np.ndarray) else type(v).__name__
                    r["dt"] = str(v.dtype) if r["cont"] == "array" else ""
                    del r["kets"]
                    q = [int(x) for x in v]
                    m = len(q)
                    at = sorted({j for j in [0, 1, m - 1, m // 2] + [b + e for b in (255, 1023, 4095, 8191) for e in (0, 1)] if 0 <= j < m}
                                | {rng.randrange(m) for _ in range(40) if m})
                    have = set(q)
                    ps = [pick() for _ in range(40)]
                    r.update(n=m, distinct=len(have), up=all(a < b for a, b in zip(q, q[1:])),
                             at=[[j, bits(q[j]) if q[j] >= 0 else [-1]] for j in at],
                             has=[[p, sum(1 << x for x in p) in have] for p in ps])
                    return r
                s.call("Big", {"specs": sp, "cont": c, "sort": srt, "route": rt}, f, look)
        ctx.session("THilbert", {}, go)
    # refusals
    bad = [0, -1, "a", 1.5, [], [3], [0, 1], [0, 0], ((), 0), [(), -1], [(0, -1), 1], [(0, 1), 3], [2, 3],
           [(0, 1.5), 1], [{}, 0], [("a",), 1], None, [(0, 1), 1, 2], [-2, 1], [{0, -3}, 1], (1, 2), [[0, 0], 1],
           [(2, 5, 2), -1], (4, 1.5), [4, 2.0], ((0, 1), 0.5), [(0, 2), "1"], (3, None), ([0, 1], [1]), [[0, 1], -0.5]]
    good = [[(0, 1), 1], 2, [[0, 3], -1], [2, 2]]

    def refuse(s):
        rng = ctx.rng("bad")
        for x in bad:
            for rt in ("fn", "HS", "mix"):
                p = {"specs": [], "malformed": True, "cont": "array", "sort": True, "route": rt, "arg": repr(x)}
                if rt == "fn":
                    s.call("Base", p, lambda: HS.base_vectors(x), kets)
                elif rt == "mix":
                    s.call("Base", p, lambda: HS.base_vectors([(9, 8), 1], x), kets)
                else:
                    s.call("Base", p, lambda: HS.HilbertSpace(x).base_vectors(), kets)
        for a in [(0,), (-2,), ("x",), ((),), ((0, -1),), ((0, 1), 3), (2, 3), ((0, 1.0),), ((0, 1), "a"),
                  ((0, 1), 1.0), ([],), (set(),), ((1, 1),), ([3, 3], 1)]:
            s.call("Base", {"specs": [], "malformed": True, "cont": "array", "sort": True, "route": "simple",
                            "arg": repr(a)}, lambda: HS.SimpleHilbertSpace(*a).base_vectors(), kets)
    ctx.session("THilbert", {}, refuse)
    for i in range(ctx.n(20, 200)):
        def go(s, i=i):
            rng = ctx.rng("overlap", i)
            sp = rand_specs(rng, 12, rng.randrange(3, 8), rng.choice([2, 3]))
            a, b = rng.sample(range(len(sp)), 2)
            sp[b][0].append(rng.choice(sp[a][0]))
            cs = [conc(x, rng) for x in sp]
            for rt in ("fn", "HS"):
                s.call("Base", {"specs": sp, "malformed": False, "cont": "array", "sort": True, "route": rt},
                       (lambda: HS.base_vectors(*cs)) if rt == "fn" else (lambda: HS.HilbertSpace(*cs)()), kets)
        ctx.session("THilbert", {}, go)


# --------------------------------------------------------------------- C06
def c06(ctx):
    import HamiltonianPy as H
    from HamiltonianPy.quantumoperator.quantumstate import set_float_point_precision as setp

    class P:
        def __init__(self, s, rng):
            self.s, self.rng, self.o, self.kind = s, rng, {}, {}
            setp()

        def prec(self, p):
            self.s.call("SetPrec", {"p": p}, lambda: setp(p) if p != 4 or self.rng.random() < .5 else setp(), lambda v: {})

        def attr(self, v):
            r = {"ms": [micro(x) for x in v.coordinate], "sp": -1, "ob": -1, "ot": -1, "o": ""}
            if [micro(x) for x in v.site] != r["ms"] or not isinstance(v.site, np.ndarray):
                r["ms"] = [-1]
            if hasattr(v, "spin"):
                r["sp"], r["ob"] = int(v.spin), int(v.orbit)
            if isinstance(v, H.AoC):
                r["ot"] = int(v.otype)
            if isinstance(v, H.SpinOperator):
                r["o"] = str(v.otype)
            return r

        def new(self, kind, ms, sp=0, ob=0, ot=0, o=""):
            h = "h%d" % (len(self.kind) + 1)
            rng = self.rng
            c = cont([coord(m, rng) for m in ms], rng)
            way = rng.randrange(5)
            deriv = {k for k in ("site", "spin", "orbit", "otype") if rng.random() < 0.4}     # given to derive() only
            kw = {k: v for k, v in (("spin", sp), ("orbit", ob)) if v}      # defaults left out

            def f():
                if way == 3 and kind in ("state", "num", "aoc"):
                    return H.AoC(ot, c, **kw) if kind == "aoc" else (H.StateID if kind == "state" else H.NumberOperator)(c, **kw)
                if way == 4 and kind in ("num", "aoc", "spin"):
                    full = {"site": c, "spin": sp, "orbit": ob, "otype": ot}
                    other = {"site": [0.5] * len(ms), "spin": sp + 1, "orbit": ob + 2, "otype": 1 - ot}
                    if kind == "num":
                        del full["otype"]
                    if kind == "spin":
                        full = {"site": c, "otype": o}
                        other["otype"] = "x" if o != "x" else "z"
                    first = {k: (other if k in deriv else full)[k] for k in full}
                    cls = {"num": H.NumberOperator, "aoc": H.AoC, "spin": H.SpinOperator}[kind]
                    return cls(**first).derive(**{k: full[k] for k in full if k in deriv})
                if kind == "site":
                    return H.SiteID(c) if way else H.SiteID(site=c)
                if kind == "state":
                    return H.StateID(c, sp, ob) if way else H.StateID(site=c, spin=sp, orbit=ob)
                if kind == "num":
                    return H.NumberOperator(c, sp, ob) if way else H.NumberOperator(site=c, spin=sp, orbit=ob)
                if kind == "aoc":
                    if way == 0:
                        return H.AoC(ot, c, sp, ob)
                    if way == 1:
                        return H.AoC(1 - ot, c, sp, ob).dagger()
                    return H.AoC(ot, c, sp, ob + 1).derive(orbit=ob)
                if way:
                    return H.SpinOperator(o, c)
                return H.SpinOperator("x" if o != "x" else "z", c).derive(otype=o)
            v = self.s.call("New", {"h": h, "kind": kind, "ms": list(ms), "sp": sp, "ob": ob, "ot": ot, "o": o}, f, self.attr)
            self.kind[h] = kind
            if v is not None:
                self.o[h] = v
            return h

        def cmp(self, x, y):
            self.s.call("Cmp", {"x": x, "y": y}, lambda: cmp_full(self.o[x], self.o[y]), lambda v: v)

        def foreign(self, x, f):
            self.s.call("Foreign", {"x": x, "f": repr(f)[:40]}, lambda: cmp_all(self.o[x], f), lambda v: v)

        def sort(self, xs):
            def f():
                objs = [self.o[x] for x in xs]
                ids = [id(q) for q in objs]
                return [ids.index(id(q)) + 1 for q in sorted(objs)]
            self.s.call("Sort", {"xs": xs}, f, lambda v: {"perm": v})

        def table(self, xs, ys):
            def f():
                t = H.IndexTable([self.o[x] for x in xs])
                out = []
                for y in ys:
                    try:
                        out.append(int(t(self.o[y])))
                    except KeyError:
                        out.append(-1)
                return out
            self.s.call("Table", {"xs": xs, "ys": ys}, f, lambda v: {"idx": v})

    progs = [g["h"] for g in ctx.gen if g["g"] == "ident"]
    progs = progs if ctx.thorough() else progs[::9]
    for b in range(0, len(progs), 5):
        def go(s, b=b):
            rng = ctx.rng("gen", b)
            p = P(s, rng)
            for prog in progs[b:b + 5]:
                p.prec(4)
                hs = []
                prc, pr = 4, []
                for c in prog:
                    if c["a"] == "SetPrec":
                        p.prec(c["p"])
                        prc = c["p"]
                        continue
                    ms = c["ms"]
                    if c["a"] == "Site":
                        h = p.new("site", ms)
                    elif c["a"] == "State":
                        h = p.new("state", ms, c["sp"])
                    elif c["a"] == "Aoc":
                        h = p.new("aoc", ms, c["sp"], ot=c["ot"])
                    else:
                        h = p.new("spin", ms, o=c["o"])
                    hs.append(h)
                    pr.append(prc)
                for x, px in zip(hs, pr):
                    for y, py in zip(hs, pr):
                        if px == py:
                            p.cmp(x, y)
            p.prec(4)
        ctx.session("TIdent", {}, go)

    BASE = [0, 300000, 299999, 300049, 300050, 300099, 300100, 300101, -300000, -300099, 99, -99, 100, -100, 1000000,
            999999, 999900, 700000, 333333, 666666, -333333, 3000000, 200, 300, 2999999, 1414213, 1732050, -866025]
    for i in range(ctx.n(90, 1200)):
        def go(s, i=i):
            rng = ctx.rng("rand", i)
            p = P(s, rng)
            dim = rng.choice([1, 1, 2, 3])
            pc = rng.choice([4, 4, 4, 0, 1, 2, 3, 5, 6])
            if pc != 4:
                p.prec(pc)
            u = 10 ** (6 - pc)
            pool = [rng.choice(BASE) for _ in range(2)]
            m = noisy(rng, pc)
            pool += [m * u, m * u + u // 2, (m + 1) * u, m * u + (u - 1), (m - 1) * u]
            pool += [rng.randrange(-5, 6) * u]
            alike = rng.random() < 0.35
            if alike:                   # -1 and -2 hash alike
                m = -1
                pool = [-u, -2 * u, -u, -2 * u, 0]
            pts = [tuple(rng.choice(pool) for _ in range(dim)) for _ in range(3)]
            nb = [m * u, m * u + u // 2, (m - 1) * u, (m + 1) * u, m * u + (u - 1)]
            j = rng.randrange(dim)
            base = list(pts[0])
            pts = pts[:2] if rng.random() < .5 else pts[:1]
            for v in rng.sample(nb, 3):
                pts.append(tuple(base[:j] + [v] + base[j + 1:]))
            if rng.random() < 0.25:      # points of another dimension, prefixes included
                pts[-1] = pts[0] + (rng.choice(pool),) if dim < 3 and rng.random() < 0.5 else \
                    pts[0][:-1] if dim > 1 else (rng.choice(pool), pts[0][0])
            kinds = rng.choice([["aoc"], ["aoc"], ["state"], ["site"], ["num"], ["spin"],
                                ["aoc", "num", "state", "site", "spin"]])
            hs, seen = [], []

            wide = [(1,), (0,)] if alike and rng.random() < 0.6 else [(0, 1, 1, 2), (0, 0, 1)]
            if rng.random() < 0.3:   # labels coinciding modulo powers of two, or as digits
                for w in (0, 1):
                    b = rng.choice([0, 1, 2, 5, 7, 10, 12, 15, 16, 31, 63, 100, 127, 255, 1000])
                    wide[w] = rng.choice([(b, b + 1), (b, b + 8), (b, b + 16), (b, b + 256), (b, b + 65536), (b, 10 * b + 1), wide[w]])

            def mk():
                kd = rng.choice(kinds)
                return p.new(kd, rng.choice(pts), rng.choice(wide[0]), rng.choice(wide[1]), rng.randrange(len(wide[0]) > 1 and 2 or 1),
                             rng.choice(list("xyzpm")))
            for _ in range(rng.choice([4, 6])):
                hs.append(mk())
            half = rng.random() < 0.4
            if half:            # a later change of precision leaves them alone
                p.prec(rng.choice([0, 1, 2, 3, 4, 5, 6]))
            hs = [h for h in hs if h in p.o]
            pairs = [(x, y) for x in hs for y in hs]
            rng.shuffle(pairs)
            for x, y in pairs[:ctx.n(16, 36)]:
                p.cmp(x, y)
            by = {}
            for h in hs:
                by.setdefault(p.kind[h], []).append(h)
            for kd, xs in by.items():
                p.sort(rng.sample(xs, len(xs)))
                if True:
                    n = rng.randrange(1, len(xs) + 1)
                    p.table(xs[:n], xs)
            if hs:
                for f in rng.sample([1, "x", None, (0, 0), 2.5, [0], object(), np.float64(1.0)], 3):
                    p.foreign(rng.choice(hs), f)
            p.prec(4)
        ctx.session("TIdent", {}, go)
    setp()


# --------------------------------------------------------------------- C07
def c07(ctx):
    import HamiltonianPy as H

    def uni_objs(rng):
        """list of (type name, identity, object); equal copies share (type, identity)"""
        # -1 and -2 hash alike, in tuples and in identities as well
        alike = rng.random() < 0.35
        INTS = rng.sample([-1, -2, 7, 2 ** 61 + 6], 4) if alike else [j * 7 - 9 for j in range(1, 5)]
        A = [-1e-4, -2e-4, 1e-4, 0.0] if alike else [1, 2, 3, 4]
        u = []
        for j in range(1, 5):
            u.append(("int", j, INTS[j - 1]))
            u.append(("str", j, "k%d" % j))
            u.append(("str", j, "".join(["k", str(j)])))
            u.append(("tuple", j, (INTS[j - 1], "a")))
            u.append(("tuple", j, tuple([INTS[j - 1], "a"])))
            u.append(("float", j, j + 0.5))
            u.append(("state", j, H.StateID((A[j - 1], 0.5), spin=1 if alike else j % 2)))
            u.append(("state", j, H.StateID([float(A[j - 1]), 0.5], spin=1 if alike else j % 2)))
            u.append(("aoc", j, H.AoC(1 if alike else j % 2, (0.25, A[j - 1]))))
            u.append(("aoc", j, H.AoC(1 if alike else j % 2, np.array([0.25, A[j - 1]]))))
            u.append(("site", j, H.SiteID((A[j - 1], -1))))
            u.append(("site", j, H.SiteID([A[j - 1], -1.0])))
            u.append(("frozenset", j, frozenset([j, j + 1])))
            u.append(("named", j, Named((j, "s"))))
            u.append(("named", j, Named([j, "s"])))
        u.append(("bool", 1, True))
        u.append(("bool", 2, False))
        return u

    class Named(tuple):
        pass
    TY = {Named: "named", bool: "bool", int: "int", str: "str", tuple: "tuple", float: "float", H.StateID: "state", H.AoC: "aoc",
          H.SiteID: "site", frozenset: "frozenset"}

    def session(rng, fn):
        u = uni_objs(rng)

        def run(s):
            s.rec["uni"] = [[a, b] for a, b, _ in u]

            def num(o):
                for n, (a, b, c) in enumerate(u):
                    if c is o:
                        return n + 1
                return 0
            tabs = {}

            def new(xs, start):
                h = "t%d" % (len(s.rec["ev"]) + 1)
                objs = [u[x - 1][2] for x in xs]
                c = rng.randrange(4)
                arg = objs if c == 0 else tuple(objs) if c == 1 else iter(objs) if c == 2 else (o for o in objs)
                dflt = start == 0 and rng.random() < 0.5

                def f():
                    t = H.IndexTable(arg) if dflt else H.IndexTable(arg, start=start)
                    if c == 0:
                        del objs[:]          # the caller's list is the caller's
                    return t
                t = s.call("New", {"h": h, "xs": xs, "start": start}, f,
                           lambda v: {"len": len(v), "ty": TY.get(v.object_type, "?")})
                if t is not None:
                    tabs[h] = (t, len(xs), start)
                return h

            def qi(h, x):
                t = tabs[h][0]
                s.call("QI", {"h": h, "x": x},
                       lambda: t(u[x - 1][2]) if rng.random() < .5 else t.query_index(u[x - 1][2]), lambda v: {"i": int(v)})

            def qo(h, i, bad=None):
                t = tabs[h][0]
                s.call("QO", {"h": h, "i": i, "bad": bad is not None},
                       lambda: t.query_object(i if bad is None else bad), lambda v: {"x": num(v)})

            def views(h):
                t = tabs[h][0]
                s.call("Views", {"h": h}, lambda: t, lambda v: {
                    "len": len(v), "inds": [int(x) for x in v.indices()], "objs": [num(x) for x in v.objects()],
                    "iti": [int(a) for a, b in v], "ito": [num(b) for a, b in v]})
            fn(s, u, new, qi, qo, views, tabs)
        return run
    gen = [g for g in ctx.gen if g["g"] == "table"]
    for b in range(0, len(gen), 12):
        rng = ctx.rng("gen", b)

        def fn(s, u, new, qi, qo, views, tabs, b=b, rng=rng):
            tyname = {n + 1: (a, j) for n, (a, j, _) in enumerate(u)}
            for g in gen[b:b + 12]:
                xs = [rng.choice([n for n, v in tyname.items() if v == tuple(x)]) for x in g["xs"]]
                h = new(xs, g["start"])
                if h in tabs:
                    views(h)
                    for n in rng.sample(list(tyname), 4) + xs:
                        qi(h, n)
                    for i in range(g["start"] - 1, g["start"] + len(xs) + 1):
                        qo(h, i)
        ctx.session("TTable", {}, session(rng, fn))
    for i in range(ctx.n(8, 60)):
        rng = ctx.rng("large", i)

        def fn(s, u, new, qi, qo, views, tabs, rng=rng):
            n = rng.choice([17, 32, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300] + ([513, 1025] if rng.random() < 0.5 else []))
            b = len(u)
            ty = rng.choice(["int", "str", "state", "site", "aoc", "tuple"])
            for j in range(100, 100 + n + 3):
                p = (j % 7 * 0.5, j // 7)
                u.append((ty, j, j * 3 - 250 if ty == "int" else "s%d" % j if ty == "str" else p if ty == "tuple" else
                          H.StateID(p, spin=j % 2) if ty == "state" else H.SiteID(p) if ty == "site" else H.AoC(j % 2, p)))
                s.rec["uni"].append([ty, j])
            xs = list(range(b + 1, b + n + 1))
            rng.shuffle(xs)
            st = rng.choice([0, 0, 1, 7, -3])
            h = new(xs, st)
            dup = list(xs)
            dup[-1] = dup[rng.randrange(n - 1)]
            new(dup, st)
            odd = list(xs)
            odd[-1] = 2 if ty != "str" else 1
            new(odd, st)
            if h in tabs:
                for _ in range(2):
                    views(h)
                    for x in [xs[0], xs[-1]] + rng.sample(xs, 8) + [b + n + 1, b + n + 3]:
                        qi(h, x)
                    for k in [0, n - 1, -1, n, n // 2] + [rng.randrange(n) for _ in range(6)]:
                        qo(h, st + k)
        ctx.session("TTable", {}, session(rng, fn))
    for i in range(ctx.n(40, 500)):
        rng = ctx.rng("rand", i)

        def fn(s, u, new, qi, qo, views, tabs, rng=rng):
            for _ in range(4):
                ty = rng.choice(["int", "str", "tuple", "float", "state", "aoc", "site", "frozenset", "named", "bool"])
                ids = rng.sample([1, 2, 3, 4] if ty != "bool" else [1, 2], rng.randrange(1, 5 if ty != "bool" else 3))
                xs = [rng.choice([n + 1 for n, (a, j, _) in enumerate(u) if (a, j) == (ty, q)]) for q in ids]
                if rng.random() < 0.25:
                    xs.insert(rng.randrange(1, len(xs) + 1), rng.choice(xs))
                elif rng.random() < 0.25:
                    xs.insert(rng.randrange(1, len(xs) + 1), rng.randrange(1, len(u) + 1))
                sub = [n + 1 for n, (a, j, _) in enumerate(u) if (a, ty) in (("named", "tuple"), ("bool", "int"), ("state", "site"))]
                if sub and rng.random() < 0.6:
                    for n in rng.sample(sub, rng.choice([1, 1, 2])):
                        xs.insert(rng.randrange(0, len(xs) + 1), n)
                new(xs, rng.choice([0, 0, 1, 5, -3, 1000]))
            hs = list(tabs)
            for _ in range(20):
                if not hs:
                    break
                h = rng.choice(hs)
                t, n, st = tabs[h]
                w = rng.randrange(4)
                if w == 0:
                    views(h)
                elif w == 1:
                    x = rng.randrange(1, len(u) + 1)
                    if rng.random() < 0.5:      # prefer the ones the table knows or nearly knows
                        ks = [a for a, (ty, _, _) in enumerate(u, 1) if (ty, TY.get(t.object_type)) in
                              (("named", "tuple"), ("bool", "int"), ("state", "site"))] or [x]
                        x = rng.choice(ks)
                    qi(h, x)
                elif w == 2:
                    qo(h, rng.randrange(st - 2, st + n + 2))
                else:
                    qo(h, 0, bad=rng.choice(["0", 1.5, None, (0,), 0.0]))
        ctx.session("TTable", {}, session(rng, fn))


# --------------------------------------------------------------------- C18
def c18(ctx):
    from HamiltonianPy.bond import Bond, set_float_point_precision as setp
    import math

    class P:
        def __init__(self, s, rng):
            self.s, self.rng, self.o, self.geo = s, rng, {}, {}
            self.n = 0
            setp()

        def ends(self, v):
            p0, p1 = v.endpoints
            r = {"m0": [micro(x) for x in p0], "m1": [micro(x) for x in p1], "dir": v.directional is True}
            try:                      # the caller owns the arrays it was given
                p0[0] = 77
                p1[-1] = 78
            except Exception:
                pass
            return r

        def prec(self, p):
            self.s.call("SetPrec", {"p": p}, lambda: setp(p), lambda v: {})

        def new(self, m0, m1, d):
            rng = self.rng
            self.n += 1
            h = "b%d" % self.n
            geo = all(x % 250000 == 0 and abs(x) <= 4000000 for x in list(m0) + list(m1))
            q = lambda m: [x // 250000 for x in m] if geo else []
            a, b = cont([coord(x, rng) for x in m0], rng), cont([coord(x, rng) for x in m1], rng)

            def f():
                if d and rng.random() < 0.4:
                    v = Bond(a, b)
                elif rng.random() < 0.5:
                    v = Bond(p0=a, p1=b, directional=d)
                else:
                    v = Bond(a, b, directional=d)
                for c in (a, b):
                    if not isinstance(c, tuple):
                        c[0] = 55
                return v
            v = self.s.call("New", {"h": h, "m0": list(m0), "m1": list(m1), "dir": d, "geo": geo, "q0": q(m0), "q1": q(m1)},
                            f, self.ends)
            if v is not None:
                self.o[h] = v
                self.geo[h] = geo
            return h

        def flip(self, x):
            self.n += 1
            h = "b%d" % self.n
            v = self.s.call("Flip", {"h": h, "x": x}, lambda: self.o[x].flip(), self.ends)
            if v is not None:
                self.o[h] = v
                self.geo[h] = self.geo[x]
            return h

        def ask(self, what, x, nd=-1, rad=False):
            o = self.o[x]
            kw = {} if nd == -1 and self.rng.random() < .5 else {"ndigits": None if nd == -1 else nd}

            def near(v, n):
                w = float(v) * 10 ** n
                return int(round(w)), abs(w - round(w)) < 1e-6
            if what == "Len":
                def p(v):
                    v = float(v)
                    if nd == -1:
                        return {"sq": dy(v * v), "pos": v >= 0, "n": 0, "near": True}
                    n, ok = near(v, nd)
                    return {"sq": [0, 0, 0], "pos": True, "n": n, "near": ok}
                self.s.call("Len", {"x": x, "nd": nd}, lambda: o.getLength(**kw), p)
            elif what == "Disp":
                def p(v):
                    out, ok = [], True
                    for c in v:
                        if nd == -1:
                            out.append(dy(c))
                        else:
                            n, k = near(c, nd)
                            ok = ok and k
                            out.append([n])
                    try:
                        v[0] = 99
                    except Exception:
                        pass
                    return {"v": out, "near": ok}
                self.s.call("Disp", {"x": x, "nd": nd}, lambda: o.getDisplace(**kw), p)
            else:
                if rad or self.rng.random() < .5:
                    kw["radian"] = rad

                def p(v):
                    vs = [float(v)] if np.ndim(v) == 0 else [float(c) for c in v]
                    out, ok = [], True
                    for t in vs:
                        if nd != -1:
                            ok = ok and near(t, nd)[1]
                        th = t if rad else math.radians(t)
                        lim = math.pi + (1e-9 if nd == -1 else 10.0 ** -nd * (1 if rad else math.pi / 180))
                        out.append([round(math.cos(th) * 1e6), round(math.sin(th) * 1e6), abs(th) <= lim])
                    return {"v": out, "near": ok}
                self.s.call("Azi", {"x": x, "nd": nd, "rad": rad}, lambda: o.getAzimuth(**kw), p)

        def cmp(self, x, y):
            self.s.call("Cmp", {"x": x, "y": y}, lambda: cmp_full(self.o[x], self.o[y]), lambda v: v)

        def opp(self, x, y, bad=None):
            self.s.call("Opp", {"x": x, "y": y, "bad": bad is not None},
                        lambda: self.o[x].oppositeTo(self.o[y] if bad is None else bad), lambda v: {"b": bool(v)})

        def tilt(self, x, rad):
            o = self.o[x]

            def f():
                v = o.getAzimuth(radian=rad)
                vs = [float(v)] if np.ndim(v) == 0 else [float(c) for c in v]
                out = []
                for t in vs:
                    th = t if rad else math.radians(t)
                    out.append([round(math.cos(th) * 1e9), round(math.sin(th) * 1e9)])
                return {"v": out, "d": [round(float(c) * 1e8) for c in o.getDisplace()]}
            self.s.call("Tilt", {"x": x}, f, lambda v: v)

        def far(self):
            """a bond whose extent is many orders smaller than its coordinates, all of them exact binary numbers"""
            r = self.rng
            dim, e = r.choice([1, 1, 2, 2, 3]), r.choice([-14, -10, -4, 0, 3])
            top = r.choice([2 ** 12, 2 ** 20, 2 ** 30])
            base = [r.randrange(-top, top + 1) for _ in range(dim)]
            d = [r.randrange(-20, 21) for _ in range(dim)]
            u = 2.0 ** e

            def f():
                b = Bond(cont([x * u for x in base], r), cont([(x + y) * u for x, y in zip(base, d)], r))
                n = float(b.getLength()) / u
                th = float(b.getAzimuth(radian=True)) if dim < 3 else 0.0
                return {"n": round(min(n, 1e3) ** 2 * 1000) if n == n else -1,
                        "d": [round(max(-1e8, min(1e8, float(x) / u * 1000))) for x in b.getDisplace()],
                        "cs": [round(math.cos(th) * 1000), round(math.sin(th) * 1000)]}
            self.s.call("Far", {"d": d}, f, lambda v: v)

        def foreign(self, x, f):
            self.s.call("Foreign", {"x": x}, lambda: cmp_all(self.o[x], f), lambda v: v)

        def show(self, x):
            self.s.call("Ends", {"x": x}, lambda: self.o[x], self.ends)

    gen = [g["h"] for g in ctx.gen if g["g"] == "bonds"]
    gen = gen if ctx.thorough() else gen[::4]
    for b in range(0, len(gen), 16):
        def go(s, b=b):
            rng = ctx.rng("gen", b)
            p = P(s, rng)
            for h in gen[b:b + 16]:
                p.prec(h[0]["p"])
                xs = [p.new(e["m0"], e["m1"], e["dir"]) for e in h]
                p.cmp(xs[0], xs[1])
                p.opp(xs[0], xs[1])
            p.prec(4)
        ctx.session("TBond", {}, go)
    for i in range(ctx.n(12, 100)):
        def go(s, i=i):
            rng = ctx.rng("tilt", i)
            p = P(s, rng)
            for _ in range(12):
                dim = rng.choice([2, 3])
                bi, si = rng.sample(range(dim), 2)
                a = [rng.randrange(-8, 9) * 250000 for _ in range(dim)]
                b = list(a)
                b[bi] += rng.choice([-1, 1]) * rng.randrange(1, 17) * 250000
                b[si] += rng.choice([-1, 1]) * rng.choice([1, 2, 3, 5, 8, 13, 20, 40])
                h = p.new(tuple(a), tuple(b), True)
                p.tilt(h, rng.random() < 0.5)
                f = p.flip(h)
                p.tilt(f, rng.random() < 0.5)
                p.far()
        ctx.session("TBond", {}, go)
    for i in range(ctx.n(110, 1400)):
        def go(s, i=i):
            rng = ctx.rng("rand", i)
            p = P(s, rng)
            dim = rng.choice([1, 2, 2, 3, 3])
            pc = rng.choice([4, 4, 4, 0, 2, 6])
            if pc != 4:
                p.prec(pc)
            u = 10 ** (6 - pc)
            pts = [tuple(rng.randrange(-12, 13) * 250000 for _ in range(dim)) for _ in range(3)]
            if dim == 3:
                a, b = rng.choice([(3, 4), (4, -3), (0, 5), (-5, 0), (0, 0), (6, 8), (-3, -4), (5, 12)])
                o = pts[0]
                pts[1] = (o[0] + a * 250000, o[1] + b * 250000, o[2] + rng.randrange(-6, 7) * 250000)
            m = noisy(rng, pc)
            near = [m * u, m * u + u // 2, (m + 1) * u, (m - 1) * u]
            pts += [tuple(rng.choice(near) for _ in range(dim)) for _ in range(3)]
            hs = []
            for _ in range(4):
                a, b = rng.sample(pts, 2)
                if rng.random() < .1:
                    b = a
                hs.append(p.new(a, b, rng.random() < .65))
            x = rng.choice(hs)
            a, b = pts[0], pts[1]
            hs += [p.new(a, b, True), p.new(b, a, False), p.new(a, b, False), p.new(b, a, True)]
            q = [tuple(rng.choice(near) for _ in range(dim)) for _ in range(2)]
            d = rng.random() < .6
            close = [p.new(a, q[0], d), p.new(a, q[1], d), p.new(q[0], a, d)]
            hs += close
            if rng.random() < .3:
                hs.append(p.new(a[:1] * (2 if dim != 2 else 1), b[:1] * (2 if dim != 2 else 1), True))
            if u > 1:        # equal up to the precision in every coordinate but one
                c0 = [noisy(rng, pc) for _ in range(dim)]
                v = rng.randrange(dim)
                jit = lambda c, k: c * u + (rng.randrange(u) if c > 0 else -rng.randrange(u) if c < 0 else 0) + k
                pa = [tuple(jit(c, k * u * 3 if x == v else 0) for x, c in enumerate(c0)) for k in (0, 1, 0, 1)]
                tw = [p.new(pa[0], pa[1], False), p.new(pa[3], pa[2], False), p.new(pa[1], pa[2], False),
                      p.new(pa[0], pa[1], True), p.new(pa[3], pa[2], True)]
                for x in tw:
                    for y in tw:
                        p.cmp(x, y)
                        p.opp(x, y)
            if rng.random() < .3:
                p.prec(rng.choice([0, 2, 4, 6]))
                hs2 = [h for h in hs if h in p.o]
                for _ in range(8):
                    p.cmp(rng.choice(hs2), rng.choice(hs2))
                p.prec(pc)
            hs = [h for h in hs if h in p.o]
            for h in list(hs):
                f = p.flip(h)
                if f in p.o:
                    if rng.random() < .5:
                        hs.append(f)
                    p.opp(h, f)
                    p.cmp(h, f)
            for x in close:
                for y in close:
                    p.cmp(x, y)
            for _ in range(14):
                p.cmp(rng.choice(hs), rng.choice(hs))
                p.opp(rng.choice(hs), rng.choice(hs))
            for h in hs:
                if p.geo[h]:
                    asks = [("Len", h), ("Len", h, rng.choice([0, 1, 2])), ("Disp", h), ("Disp", h, rng.choice([0, 1, 2, 3])),
                            ("Azi", h), ("Azi", h, -1, True), ("Azi", h, rng.choice([1, 2, 3])), ("Azi", h, rng.choice([3, 4, 5]), True)]
                    if rng.random() < .6:       # answers do not depend on what was asked before
                        rng.shuffle(asks)
                    for a in asks:
                        p.ask(*a)
            p.opp(rng.choice(hs), "", bad=rng.choice([1, "b", None, (0, 1), []]) or 1)
            p.foreign(rng.choice(hs), rng.choice([1, "b", None, ((0, 1), (1, 1))]))
            for h in hs:
                p.show(h)
            p.prec(4)
        ctx.session("TBond", {}, go)
    setp()


def build(ctx, prop):
    {"C05": c05, "C06": c06, "C07": c07, "C18": c18}[prop](ctx)


if __name__ == "__main__":
    main(build)
