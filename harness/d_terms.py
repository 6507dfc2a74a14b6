"""Fermion operator algebra (C01-C04): replays the programs generated from
MCTerms/MCNormal/MCFock and seeded random programs on the library."""
import common
from common import *
from common import dyx as dy     # nothing in this module is rounded
import numpy as np

CR, AN = 1, 0
CO = [1, -1, 0, 2, 0.5, -0.5, 1.5, 0.25, -3, 1j, -1j, 1 + 1j, 0.5 - 0.5j, -0.75 + 2j, 3, -2, 4]
# magnitudes far from one, and parts of very different magnitude
FAR = [2.0 ** -47, -3 * 2.0 ** -70, 2.0 ** -120 * 1j, 1 + 2.0 ** -26 * 1j, 2.0 ** -26 - 1j, 2 ** 26, -2 ** 20 - 1j, 2.0 ** 24 * 3j]


def rco(rng):
    return rng.choice(FAR) if rng.random() < 0.15 else rng.choice(CO)


def small(o):
    """products with this coefficient stay within the specification's integers"""
    c = dy(getattr(o, "coeff", 1))
    return abs(c[0]) < 2 ** 12 and abs(c[1]) < 2 ** 12


def matrix(m):
    return common.matrix(m, dy)


def typed(c, rng, cplx_ok=True):
    """the same number as some accepted numeric type"""
    c = complex(c)
    # products of very small numbers vanish in single precision
    short = all(x == 0 or 2.0 ** -12 <= abs(x) <= 2.0 ** 12 for x in (c.real, c.imag))
    opts = [complex, np.complex128] + [np.complex64] * short
    if c.imag == 0:
        c = c.real
        opts += ([float, np.float64] + [np.float32] * short) * 2
        if c == int(c):
            opts += [int, np.int64, np.int32] * 2
    return rng.choice(opts)(c if not isinstance(c, float) or True else c)


def strided(b, rng):
    """the same basis, sometimes as a view into a larger or reversed array"""
    w = rng.random()
    if w < 0.7 or not len(b):
        return b
    if w < 0.85:
        return np.repeat(b, 2)[::2]
    return b[::-1].copy()[::-1]


def near(p, rng, known, i):
    """the same site, sometimes off by less than the precision (and then
    remembered as that site)"""
    if rng.random() < 0.25:
        # an identifier is the coordinate cut to the precision: stay on the far side of zero
        p = tuple(x + (-1 if x < 0 or x == 0 and rng.random() < 0.5 else 1) * rng.choice([0, 1e-5, 4e-5]) for x in p)
        known[p] = i
    return p


class Prog:
    def __init__(self, s, rng, sites, tabs, bases, lib):
        """sites: list of float tuples; tabs: list of (entries, start); bases:
        list of lists of ints"""
        self.s, self.rng, self.L = s, rng, lib
        self.sites, self.tabs, self.bases = sites, [], []
        s.rec["sites"] = [[round(x * 10000) for x in p] for p in sites]
        s.rec["tabs"] = []
        s.rec["bases"] = []
        self.key = {tuple(map(float, p)): i + 1 for i, p in enumerate(sites)}
        self.o = {}
        self.n = 0
        for t in tabs:
            self.add_tab(*t)
        for b in bases:
            self.add_basis(b)

    def site(self, si):
        p = near(self.sites[si - 1], self.rng, self.key, si)
        return self.rng.choice([tuple, list, np.array])(p)

    def add_tab(self, entries, start=0):
        """entries: list of (si, sp, ob) or None for padding"""
        objs, rec = [], []
        for j, e in enumerate(entries):
            if e is None:
                objs.append(self.L.StateID((float(900 + j),) * len(self.sites[0]), 0, 0))
            else:
                objs.append(self.L.StateID(self.site(e[0]), e[1], e[2]))
                rec.append([e[0], e[1], e[2], start + j])
        self.tabs.append(self.L.IndexTable(objs, start=start) if start else self.L.IndexTable(objs))
        self.s.rec["tabs"].append(rec)

    def add_basis(self, b):
        self.bases.append(strided(np.array(b, dtype=np.uint64), self.rng))
        self.s.rec["bases"].append([bits(x) for x in b])

    # -- projections
    def op(self, a):
        return [self.key.get(tuple(float(x) for x in a.coordinate), 0), int(a.spin), int(a.orbit), int(a.otype)]

    def proj(self, v):
        L = self.L
        if isinstance(v, L.AoC):
            return {"k": "aoc", "ops": [self.op(v)], "co": [1, 0, 0], "cls": "general"}
        if isinstance(v, L.NumberOperator):
            st = [self.key.get(tuple(float(x) for x in v.coordinate), 0), int(v.spin), int(v.orbit)]
            return {"k": "num", "ops": [st + [CR], st + [AN]], "co": [1, 0, 0], "cls": "number"}
        if isinstance(v, L.ParticleTerm):
            return {"k": "term", "ops": [self.op(a) for a in v.components], "co": dy(v.coeff),
                    "cls": str(v.classification)}
        return {"k": "?", "ops": [], "co": BAD, "cls": "?"}

    def h(self):
        self.n += 1
        return "h%d" % self.n

    def make(self, a, params, thunk):
        h = self.h()
        v = self.s.call(a, dict(params, h=h), thunk, self.proj)
        if v is not None:
            self.o[h] = v
        return h

    def get(self, h):
        if h not in self.o:
            raise KeyError("NoHandle " + h)
        return self.o[h]

    # -- actions
    def aoc(self, st, ot):
        L, r = self.L, self.rng
        si, sp, ob = st
        way = r.randrange(5)
        kw = {k: v for k, v in (("spin", sp), ("orbit", ob)) if v}          # defaults left out

        def f():
            if way == 3:
                return L.AoC(ot, self.site(si), **kw)
            if way == 4:
                return (L.Creator if ot == CR else L.Annihilator)(self.site(si), **kw)
            if way == 0:
                return L.AoC(ot, self.site(si), sp, ob)
            if way == 1:
                return L.AoC(otype=ot, site=self.site(si), spin=sp, orbit=ob)
            return (L.Creator if ot == CR else L.Annihilator)(self.site(si), spin=sp, orbit=ob)
        return self.make("AoC", {"st": list(st), "ot": ot}, f)

    def num(self, st):
        kw = {k: v for k, v in (("spin", st[1]), ("orbit", st[2])) if v or self.rng.random() < 0.5}
        return self.make("Num", {"st": list(st)},
                         lambda: self.L.NumberOperator(self.site(st[0]), **kw))

    def term(self, ops, co, cls="general"):
        L = self.L
        c = typed(co, self.rng)
        cont = self.rng.choice([tuple, list])

        def f():
            return L.ParticleTerm(cont([L.AoC(o[3], self.site(o[0]), o[1], o[2]) for o in ops]),
                                  coeff=c, classification=cls)
        return self.make("Term", {"ops": [list(o) for o in ops], "co": dy(co), "cls": cls}, f)

    def mul(self, x, y):
        """operands: ("h", handle) | ("c", number) | ("bad", obj)"""
        d = {}
        for p, (kind, v) in (("l", x), ("r", y)):
            d[p + "k"] = kind
            d[p + "h"] = v if kind == "h" else ""
            d[p + "c"] = dy(v) if kind == "c" else [0, 0, 0]

        def val(o):
            kind, v = o
            return self.get(v) if kind == "h" else v
        return self.make("Mul", d, lambda: val(x) * val(y))

    def dag(self, x):
        return self.make("Dag", {"x": x}, lambda: self.get(x).dagger())

    def toterm(self, x):
        return self.make("ToTerm", {"x": x}, lambda: self.get(x).toterm())

    def derive(self, x, si=-1, sp=-1, ob=-1, ot=-1):
        kw = {}
        if si != -1:
            kw["site"] = self.site(si)
        if sp != -1:
            kw["spin"] = sp
        if ob != -1:
            kw["orbit"] = ob
        if ot != -1:
            kw["otype"] = ot
        return self.make("Derive", {"x": x, "si": si, "sp": sp, "ob": ob, "ot": ot},
                         lambda: self.get(x).derive(**kw))

    def setco(self, x, co, bad=False):
        c = co if bad else typed(co, self.rng)

        def f():
            self.get(x).coeff = c
        self.s.call("SetCo", {"x": x, "co": [0, 0, 0] if bad else dy(co), "bad": bad}, f, lambda v: {})

    def factory(self, f, s0, s1, sp0=-1, sp1=-1, ob0=-1, ob1=-1, co=None):
        L = self.L
        kw = {}
        one = f in ("Creator", "Annihilator", "CP", "Hubbard")
        for nm, v in (("spin", sp0), ("orbit", ob0)):
            if v != -1:
                kw[nm + ("" if one else "0")] = v
        if not one:
            for nm, v in (("spin1", sp1), ("orbit1", ob1)):
                if v != -1:
                    kw[nm] = v
                elif f == "Hopping" and self.rng.random() < 0.3:
                    kw[nm] = None
        if co is not None:
            kw["coeff"] = typed(co, self.rng)
        fn = {"Creator": L.Creator, "Annihilator": L.Annihilator, "CP": L.CPFactory,
              "Hopping": L.HoppingFactory, "PairingH": L.PairingFactory, "PairingP": L.PairingFactory,
              "Hubbard": L.HubbardFactory, "Coulomb": L.CoulombFactory}[f]
        if f == "PairingH" and self.rng.random() < 0.7:
            kw["which"] = self.rng.choice(["h", "hole"])
        if f == "PairingP":
            kw["which"] = self.rng.choice(["p", "particle"])

        self.last = (s0, s1)

        def go():
            return fn(self.site(s0), **kw) if one else fn(self.site(s0), self.site(s1), **kw)
        return self.make("Factory", {"f": f, "s0": s0, "s1": s1, "sp0": sp0, "sp1": sp1, "ob0": ob0,
                                     "ob1": ob1, "hasco": co is not None,
                                     "co": dy(co) if co is not None else [0, 0, 0]}, go)

    def mat(self, x, tb=1, rb=1, lb=0, co=None, csr=None):
        if csr is None:
            csr = self.rng.random() < 0.6
        L = self.L
        c = typed(co, self.rng) if co is not None else None

        def f():
            o = self.get(x)
            kw = {}
            if not csr or self.rng.random() < 0.5:
                kw["to_csr"] = csr
            if lb:
                kw["left_bases"] = self.bases[lb - 1]
            if c is not None:
                kw["coeff"] = c
            return o.matrix_repr(self.tabs[tb - 1], self.bases[rb - 1], **kw)
        if lb and isinstance(self.o.get(x), L.NumberOperator):
            lb = 0
        self.s.call("Mat", {"x": x, "tb": tb, "rb": rb, "lb": lb, "hasco": co is not None,
                            "co": dy(co) if co is not None else [0, 0, 0], "csr": csr}, f, matrix)

    def norm(self, xs):
        L = self.L
        cont = self.rng.choice([list, tuple])

        def f():
            inp = cont([self.get(x) for x in xs])
            z = [0, 0, 0, 0]
            try:
                out, n = L.ParticleTerm.normalize(inp)
                return dict(blocked=False, a0=z, a1=z, ops=[self.op(a) for a in out], n=int(n),
                            inp=[self.op(a) for a in inp])
            except L.SwapFermionError as ex:
                return dict(blocked=True, a0=self.op(ex.aoc0), a1=self.op(ex.aoc1), ops=[], n=0,
                            inp=[self.op(a) for a in inp])
        self.s.call("Norm", {"xs": xs}, f, lambda v: v)

    def obs(self, x):
        self.s.call("Obs", {"x": x}, lambda: self.get(x), self.proj)

    def obs_all(self):
        for x in list(self.o):
            self.obs(x)

    def compat(self, x):
        self.s.call("Compat", {"x": x}, lambda: self.get(x).check_compatibility(), lambda v: {"b": v is True})

    def rel(self, a, x, y, bad=None):
        def f():
            o = self.get(x)
            q = self.get(y) if bad is None else bad
            return (o.conjugate_of if a == "Conj" else o.same_state)(q)
        self.s.call(a, {"x": x, "y": y, "bad": bad is not None}, f, lambda v: {"b": v is True})


def lib():
    import HamiltonianPy as H
    from HamiltonianPy.quantumoperator.particlesystem import SwapFermionError

    class L:
        pass
    for n in ("AoC NumberOperator ParticleTerm StateID IndexTable Creator Annihilator CPFactory HoppingFactory "
              "PairingFactory HubbardFactory CoulombFactory").split():
        setattr(L, n, getattr(H, n))
    L.SwapFermionError = SwapFermionError
    return L


def rand_sites(rng, n):
    dim = rng.choice([1, 2, 2, 3])
    pts = set()
    fine = rng.random() < 0.3      # a few units of the precision apart; minus one and minus two have the same hash
    if fine:
        at = rng.randrange(dim)
        base = [rng.randrange(-2, 3) / 4 for _ in range(dim)]
        for k in rng.sample([-1, -2], min(n, 2)):
            base[at] = k / 10000
            pts.add(tuple(base))
    while len(pts) < n:
        pts.add(tuple(rng.randrange(-6, 7) / rng.choice([10000] if fine and rng.random() < 0.4 else [1, 2, 4]) for _ in range(dim)))
    pts = list(pts)
    rng.shuffle(pts)
    return pts


WIDE = [0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 64, 100, 127, 128, 255, 256, 257, 1000, 4096, 65536]


def rand_states(rng, n, nsites):
    sts = set()
    spins, orbits = [0, 1], [0, 0, 1, 2]
    if rng.random() < 0.35:    # labels far beyond the ones of the examples, with coincidences modulo powers of two
        b = rng.choice(WIDE)
        spins = rng.choice([[0, 1], [0, 2, 3], [b, b + rng.choice([1, 8, 256])]])
        b = rng.choice(WIDE)
        orbits = sorted({b, b + 1, b + rng.choice([2, 8, 16, 256, 65536]), rng.choice(WIDE)})
    n = min(n, nsites * len(set(spins)) * len(set(orbits)))
    while len(sts) < n:
        sts.add((rng.randrange(1, nsites + 1), rng.choice(spins), rng.choice(orbits)))
    sts = list(sts)
    rng.shuffle(sts)
    return sts


def rand_ops(rng, sts, ln, maxrep=99):
    return [rng.choice(sts) + (rng.randrange(2),) for _ in range(ln)]


def sectors(pos, rng):
    """occupation bases over the given positions: full space, fixed numbers"""
    n = len(pos)
    full = sorted(sum(1 << p for j, p in enumerate(pos) if m >> j & 1) for m in range(1 << n))
    out = [full]
    for k in range(n + 1):
        out.append([x for x in full if bin(x).count("1") == k])
    return out


def setup(s, rng, L, nst=4, pad=0, start=0, subset=True):
    """a session over nst states at shuffled positions inside nst+pad"""
    nsites = rng.randrange(1, 4)
    while nsites * 6 < nst:
        nsites += 1
    sites = rand_sites(rng, nsites)
    sts = rand_states(rng, nst, nsites)
    tabs, poss = [], None
    slots = sorted(rng.sample(range(nst + pad), nst))
    if pad and rng.random() < 0.7:
        slots[-1] = nst + pad - 1
        if rng.random() < 0.5:
            slots[0] = 0
    for t in range(2):
        perm = sts[:]
        rng.shuffle(perm)
        ent = [None] * (max(slots) + 1)
        for sl, st in zip(slots, perm):
            ent[sl] = st
        tabs.append((ent, start))
    pos = [sl + start for sl in slots]
    bases = sectors(pos, rng)
    if subset:
        full = bases[0]
        for _ in range(3):
            bases.append(sorted(rng.sample(full, rng.randrange(1, len(full) + 1))))
        # bits of no tabulated state may be set as well: they only carry signs
        free = [b for b in range(start + nst + pad) if b not in pos]
        free = sorted(rng.sample(free, min(8, len(free))))
        if free:
            f = sorted({x | sum(1 << b for b in free if rng.random() < 0.5) for x in full})
            bases.append(f)
    # the second basis superset to leave into
    P = Prog(s, rng, sites, tabs, bases, L)
    P.sts = sts
    return P


# ---------------------------------------------------------------------------
def c01(ctx, L):
    # every operator string generated by MCFock, on every sector pair it needs
    strings = [g["ops"] for g in ctx.gen if g["g"] == "string" and g["ops"]]
    step = 12
    for b in range(0, len(strings), step):
        chunk = strings[b:b + step]

        def go(s, chunk=chunk, b=b):
            rng = ctx.rng("str", b)
            sites = rand_sites(rng, 3)
            sts = [(1, 0, 0), (2, 1, 0), (3, 0, 1)]
            P = Prog(s, rng, sites, [(sts, 0)], sectors([0, 1, 2], rng), L)
            for ops in chunk:
                h = P.term([sts[i] + (t,) for i, t in ops], rco(rng))
                P.mat(h)
                d = sum(1 if t == CR else -1 for _, t in ops)
                k = rng.randrange(4)
                if 0 <= k + d <= 3:
                    P.mat(h, rb=2 + k, lb=2 + k + d)
                if d == 0:
                    P.mat(h, rb=2 + k)
        ctx.session("TTerms", {}, go)
    # anticommutators through the public product, random spaces
    for i in range(ctx.n(70, 900)):
        def go(s, i=i):
            rng = ctx.rng("rand", i)
            big = i % 7 == 3
            nst = rng.choice([2, 3, 4, 5]) if not ctx.thorough() else rng.choice([2, 3, 4, 5, 6])
            pad = rng.choice([0, 0, 1, 3]) if not big else rng.choice([30, 33, 50, 62, 63, 64]) - nst
            P = setup(s, rng, L, nst=nst, pad=pad, start=rng.choice([0, 0, 0, 2]) if not big else 0)
            nb = len(P.bases)
            for _ in range(ctx.n(7, 12)):
                ln = rng.choice([1, 1, 2, 2, 3, 4, 5, 6])
                if ln == 1 and rng.random() < 0.5:
                    h = P.aoc(rng.choice(P.sts), rng.randrange(2)) if rng.random() < 0.6 else P.num(rng.choice(P.sts))
                elif rng.random() < 0.15:       # long strings that do not vanish
                    h = P.term([o for _ in range(rng.choice([4, 5, 6, 8, 12])) for o in rng.choice([
                        [rng.choice(P.sts) + (1,), rng.choice(P.sts) + (0,)], [P.sts[0] + (1,), P.sts[0] + (0,)],
                        [P.sts[1] + (0,), P.sts[1] + (1,)]])], rco(rng))
                else:
                    h = P.term(rand_ops(rng, P.sts, ln), rco(rng))
                tb = rng.choice([1, 2])
                P.mat(h, tb, 1)
                ops = s.rec["ev"][-2]["r"].get("ops", [])
                d = sum(1 if o[3] == CR else -1 for o in ops)
                k = rng.randrange(nst + 1)
                if 0 <= k + d <= nst:
                    P.mat(h, tb, 2 + k, 2 + k + d)
                P.mat(h, tb, rng.randrange(1, nb + 1), rng.choice([0, 1, 1, rng.randrange(1, nb + 1)]))
                if len(P.bases) > nst + 5:
                    P.mat(h, tb, nb)
            # two spaces of the same size that agree at both ends
            full = [int(x) for x in P.bases[0]]
            if len(full) >= 8:
                m = rng.randrange(len(full) // 2, len(full) - 2) if len(full) < 16 or rng.random() < 0.5 else rng.randrange(9, 14)
                mid = full[1:-1]
                two = [[full[0]] + sorted(rng.sample(mid, min(m, len(mid) - 1))) + [full[-1]] for _ in range(2)]
                for b in two:
                    P.add_basis(b)
                nb2 = len(P.bases)
                for _ in range(3):
                    ln = rng.choice([1, 2, 2, 4])
                    h = P.term(rand_ops(rng, P.sts, ln) if ln != 2 else [rng.choice(P.sts) + (1,), rng.choice(P.sts) + (0,)], rco(rng))
                    P.mat(h, rng.choice([1, 2]), nb2 - 1, nb2)
                    P.mat(h, rng.choice([1, 2]), nb2, nb2 - 1)
            # an operator on a state the table does not know
            st = (P.sts[0][0], 0, 7)
            P.mat(P.aoc(st, 1), 1, 1)
            P.mat(P.term([P.sts[0] + (1,), st + (0,)], 1.0), 1, 1)
        ctx.session("TTerms", {}, go)
    # spaces without or with a single vector
    for i in range(ctx.n(6, 60)):
        def go(s, i=i):
            rng = ctx.rng("edge", i)
            P = setup(s, rng, L, nst=3, pad=rng.choice([0, 2]), subset=False)
            full = [int(x) for x in P.bases[0]]
            P.add_basis([])
            e = len(P.bases)
            for x in rng.sample(full, 2):
                P.add_basis([x])
            n = len(P.bases)
            for _ in range(14):
                ln = rng.choice([1, 2, 2, 4])
                h = P.aoc(rng.choice(P.sts), rng.randrange(2)) if ln == 1 else P.num(rng.choice(P.sts)) if rng.random() < 0.2 else \
                    P.term(rand_ops(rng, P.sts, ln), rco(rng))
                r, l = rng.choice([(e, 0), (e, 1), (e, e), (1, e), (e + 1, e), (e + 2, e), (e + 1, e + 2), (e + 2, 0), (2, e), (n, n)])
                P.mat(h, rng.choice([1, 2]), r, l)
        ctx.session("TTerms", {}, go)
    for i in range(ctx.n(6, 60)):
        ctx.session("TTerms", {}, lambda s: big_space(ctx, L, s, ("c01", i)))
    for i in range(ctx.n(14, 150)):
        ctx.session("TTerms", {}, lambda s: wide_kets(ctx, L, s, ("c01", i)))
    # anticommutation relations through products of operators
    for i in range(ctx.n(12, 120)):
        def go(s, i=i):
            rng = ctx.rng("car", i)
            P = setup(s, rng, L, nst=rng.choice([3, 4]), pad=rng.choice([0, 2]))
            st = rng.sample(P.sts, 2)
            for t0 in (0, 1):
                for t1 in (0, 1):
                    for a, b in ((st[0], st[1]), (st[0], st[0])):
                        x, y = P.aoc(a, t0), P.aoc(b, t1)
                        P.mat(P.mul(("h", x), ("h", y)))
                        P.mat(P.mul(("h", y), ("h", x)))
        ctx.session("TTerms", {}, go)


def big_space(ctx, L, s, key, kinds=False):
    """spaces of thousands of vectors: sampled columns and rows of the matrix, found by their occupations"""
    rng = ctx.rng("big", key)
    n = rng.choice([11, 12, 13, 13, 14, 16])
    N = rng.choice([-1, -1, n // 2, n // 2 - 1])
    if N != -1:
        n += 1
    sites = rand_sites(rng, 3)
    sts = rand_states(rng, n, 3) if n <= 12 else [(a, b, c) for a in (1, 2, 3) for b in (0, 1) for c in (0, 1, 2)][:n]
    rng.shuffle(sts)
    slots = sorted(rng.sample(range(rng.choice([n, n + 4, 40, 64, 64])), n)) if rng.random() < 0.6 else list(range(n))
    ent = [None] * (slots[-1] + 1)
    for sl, st in zip(slots, sts):
        ent[sl] = st
    P = Prog(s, rng, sites, [(ent, 0)], [], L)
    P.sts = sts
    pos = {st: sl for sl, st in zip(slots, sts)}

    def space(N):
        return [x for x in (sum(1 << p for j, p in enumerate(slots) if m >> j & 1) for m in range(1 << n))
                if N == -1 or bin(x).count("1") == N]
    spaces = {}

    def get(N):
        if N not in spaces:
            v = sorted(space(N))
            spaces[N] = (strided(np.array(v, dtype=np.uint64), rng), {x: i for i, x in enumerate(v)}, v)
        return spaces[N]
    for _ in range(4):
        if kinds:
            cls, ops = rng.choice(list(compatible_terms(P, rng)))
        else:
            cls, ops = "general", rand_ops(rng, sts, rng.choice([1, 2, 2, 3, 4]))
        co = rng.choice(CO)
        w = rng.random()
        numop = kinds and w < 0.3
        if numop:       # the operator objects themselves
            st = rng.choice(sts)
            ops = [st + (CR,), st + (AN,)]
            h = P.num(st)
        elif not kinds and w < 0.15:
            st, ot = rng.choice(sts), rng.randrange(2)
            ops = [st + (ot,)]
            h = P.aoc(st, ot)
        else:
            h = P.term(ops, co, cls)
        d = sum(1 if o[3] == CR else -1 for o in ops)
        M = N if N == -1 else N + d
        if M != -1 and not 0 <= M <= n:
            continue
        sep = not numop and (M != N or rng.random() < 0.4)
        R, ri, rv = get(N)
        Lb, li, lv = get(M)

        def pick(vs, need):
            ks = {vs[i] for i in [0, 1, len(vs) - 1] + [b + e for b in (127, 255, 1023, 2047, 4095) for e in (0, 1)] if i < len(vs)}
            for _ in range(40):
                x = rng.choice(vs)
                if rng.random() < 0.8 and N == -1:
                    for st, occ in need.items():
                        x = x | 1 << pos[st] if occ else x & ~(1 << pos[st])
                ks.add(x)
            if N != -1:
                ok = [x for x in vs if all((x >> pos[st] & 1) == occ for st, occ in need.items())]
                ks |= set(rng.sample(ok, min(30, len(ok))))
            return sorted(ks)
        need, need2 = {}, {}
        for o in ops:
            need[o[:3]] = int(o[3] == AN)     # the last one written acts first
        for o in reversed(ops):
            need2[o[:3]] = int(o[3] == CR)
        cols, rows = pick(rv, need), pick(lv, need2)

        def f():
            o = P.get(h)
            m = o.matrix_repr(P.tabs[0], R, left_bases=Lb) if sep else o.matrix_repr(P.tabs[0], R)
            m = m.tocoo()
            cw, rw = {ri[x]: j for j, x in enumerate(cols)}, {li[x]: j for j, x in enumerate(rows)}
            co, ro = [[] for _ in cols], [[] for _ in rows]
            for r, c, v in zip(m.row.tolist(), m.col.tolist(), m.data.tolist()):
                if v == 0:
                    continue
                if c in cw:
                    co[cw[c]].append([bits(lv[r]), dy(v)])
                if r in rw:
                    ro[rw[r]].append([bits(rv[c]), dy(v)])
            return {"sh": list(m.shape), "cols": co, "rows": ro, "nnz": int(np.count_nonzero(m.data))}
        s.call("Big", {"x": h, "tb": 1, "n": n, "N": N, "M": M, "cols": [bits(x) for x in cols], "rows": [bits(x) for x in rows]}, f,
               lambda v: v)


def wide_kets(ctx, L, s, key):
    """every kind of term over states anywhere among the 64 positions, on kets with any bits set"""
    rng = ctx.rng("wide", key)
    n = rng.choice([3, 4, 6])
    slots = sorted(rng.sample(range(64), n))
    if rng.random() < 0.6:
        slots[-1] = 63 if slots[-2] < 63 else slots[-1]
    if rng.random() < 0.5:
        slots[0] = 0
    sites = rand_sites(rng, 3)
    sts = rand_states(rng, n, 3)
    ent = [None] * (slots[-1] + 1)
    for sl, st in zip(slots, sts):
        ent[sl] = st
    P = Prog(s, rng, sites, [(ent, 0)], [], L)
    P.sts = sts
    pos = dict(zip(sts, slots))
    for _ in range(ctx.n(6, 12)):
        cls, ops = rng.choice(list(compatible_terms(P, rng))) if rng.random() < 0.7 else ("general", rand_ops(rng, sts, rng.choice([1, 2, 3, 4])))
        h = P.term(ops, rco(rng), cls)
        flip, need = 0, 0
        for o in ops:
            flip ^= 1 << pos[tuple(o[:3])]
        ws, first = [], {}
        for o in reversed(ops):
            first.setdefault(pos[tuple(o[:3])], o[3])
        for _ in range(10):
            x = rng.getrandbits(64) if rng.random() < 0.6 else sum(1 << b for b in rng.sample(range(64), 3))
            for b, t in first.items():      # mostly kets on which the first operators act
                if rng.random() < 0.9:
                    x = x & ~(1 << b) if t == CR else x | 1 << b
            ws.append(x)
        right = sorted(set(ws))
        left = sorted({x ^ flip for x in right} | ({rng.choice(right) ^ 1} if rng.random() < 0.5 else set()))
        P.add_basis(right)
        P.add_basis(left)
        k = len(P.bases)
        P.mat(h, 1, k - 1, k)
        if cls in ("number", "Coulomb"):
            P.mat(h, 1, k - 1)


def compatible_terms(P, rng):
    a, b = rng.sample(P.sts, 2) if len(P.sts) > 1 else (P.sts[0],) * 2
    c = rng.choice([a, b])
    yield "hopping", [a + (1,), b + (0,)]
    yield "hopping", [b + (1,), a + (0,)]
    yield "number", [a + (1,), a + (0,)]
    yield "Coulomb", [a + (1,), a + (0,), b + (1,), b + (0,)]
    yield "Coulomb", [c + (1,), c + (0,), c + (1,), c + (0,)]


def c02(ctx, L):
    F = ["Creator", "Annihilator", "CP", "Hopping", "PairingH", "PairingP", "Hubbard", "Coulomb"]
    # all omission patterns of every factory, coinciding and distinct end points
    for f in F:
        for rep in range(ctx.n(2, 6)):
            def go(s, f=f, rep=rep):
                rng = ctx.rng("fac", f, rep)
                sites = rand_sites(rng, 2)
                sp = (0, 1 if f == "Hubbard" or rep % 2 == 0 and rng.random() < .5 else rng.choice(WIDE[2:]))
                ob = (0, 1 if rep % 2 == 0 and rng.random() < .5 else rng.choice(WIDE[2:]))
                sts = [(a, b, c) for a in (1, 2) for b in sp for c in ob]
                rng.shuffle(sts)
                P = Prog(s, rng, sites, [(sts, 0)], [], L)
                # bases over the 8 positions: two- and three-particle sectors
                full = list(range(256))
                P.add_basis([x for x in full if bin(x).count("1") == 2])
                P.add_basis([x for x in full if bin(x).count("1") in (1, 3)])
                P.add_basis([x for x in full if bin(x).count("1") <= 4])
                one = f in ("Creator", "Annihilator", "CP", "Hubbard")
                shift = {"Creator": 1, "Annihilator": -1, "PairingH": -2, "PairingP": 2}.get(f, 0)
                n = 0
                for m in range(16 if not one else 4):
                    for s1 in (1, 2) if not one else (1,):
                        g = lambda bit, v: rng.choice((v[0], v[1], v[1])) if m >> bit & 1 else -1
                        # sometimes force an explicit zero / explicit same state
                        a = dict(sp0=g(0, sp), ob0=g(1, ob), sp1=g(2, sp) if not one else -1,
                                 ob1=g(3, ob) if not one else -1)
                        if f == "Hubbard":
                            a["sp0"] = -1
                        co = rco(rng) if rng.random() < 0.7 and f not in ("Creator", "Annihilator") else None
                        h = P.factory(f, 1 if rng.random() < .5 else s1, s1, co=co, **a)
                        n += 1
                        if f not in ("Creator", "Annihilator"):
                            P.compat(h)
                            if rng.random() < (0.7 if f in ("CP", "Hubbard") else 0.2):      # the same call again, after the first term was given another coefficient
                                P.setco(h, rco(rng))
                                P.mat(P.factory(f, P.last[0], P.last[1], co=co, **a), 1, 1, 3 if abs(shift) == 2 else 0)
                        if n % 3 == 0 or s1 == 1:
                            if shift == 0:
                                P.mat(h, 1, 1)
                            elif abs(shift) == 2:
                                P.mat(h, 1, 1, 3)
                            else:
                                P.mat(h, 1, 1, 2)
                P.obs_all()
            ctx.session("TTerms", {}, go)
    # the declared kind never changes the matrix
    for i in range(ctx.n(45, 600)):
        def go(s, i=i):
            rng = ctx.rng("kind", i)
            nst = rng.choice([2, 3, 4, 5])
            big = i % 6 == 5
            P = setup(s, rng, L, nst=nst, pad=rng.choice([0, 1, 4]) if not big else rng.choice([40, 63]) - nst)
            nb = len(P.bases)
            for cls, ops in compatible_terms(P, rng):
                co = rco(rng)
                h = P.term(ops, co, cls)
                g = P.term(ops, co)
                P.compat(h)
                P.compat(g)
                tb = rng.choice([1, 2])
                rb = rng.randrange(1, nb + 1)
                lb = rng.choice([0, 0, rng.randrange(1, nb + 1), 1])
                for x in (h, g):
                    P.mat(x, tb, 1)
                    P.mat(x, tb, rb, lb)
        ctx.session("TTerms", {}, go)
    for i in range(ctx.n(14, 60)):
        ctx.session("TTerms", {}, lambda s: big_space(ctx, L, s, ("c02", i), True))
    for i in range(ctx.n(8, 80)):
        ctx.session("TTerms", {}, lambda s: wide_kets(ctx, L, s, ("c02", i)))
    # compatibility query over all short strings and declarations
    for i in range(ctx.n(14, 150)):
        def go(s, i=i):
            rng = ctx.rng("compat", i)
            P = setup(s, rng, L, nst=3, subset=False)
            for _ in range(14):
                cls = rng.choice(["hopping", "number", "Coulomb"])
                ln = rng.choice([2, 2, 4, 4, 1, 3, 5])
                ops = rand_ops(rng, P.sts[:2], ln)
                if rng.random() < 0.7 and ln in (2, 4):
                    ops = [rng.choice(P.sts) + (t,) for t in ([1, 0] * 2)[:ln]]
                if rng.random() < 0.4 and ln == 4:
                    ops = [o for _, q in [rng.choice([x for x in compatible_terms(P, rng) if x[0] == "Coulomb"])]
                           for o in q]
                    if rng.random() < 0.5:
                        j = rng.randrange(4)
                        ops[j] = rng.choice(P.sts) + (rng.randrange(2),)
                P.compat(P.term(ops, 1.0, cls))
        ctx.session("TTerms", {}, go)


def replay_prog(P, prog):
    hs = []
    sts = P.sts
    for c in prog:
        a = c["a"]
        if a == "AoC":
            hs.append(P.aoc(sts[c["st"] - 1], c["ot"]))
        elif a == "Num":
            hs.append(P.num(sts[c["st"] - 1]))
        elif a == "Mul":
            hs.append(P.mul(("h", hs[c["x"] - 1]), ("h", hs[c["y"] - 1])))
        elif a == "ScaleL":
            hs.append(P.mul(("c", typed(undy(c["c"]), P.rng)), ("h", hs[c["x"] - 1])))
        elif a == "ScaleR":
            hs.append(P.mul(("h", hs[c["x"] - 1]), ("c", typed(undy(c["c"]), P.rng))))
        elif a == "Dag":
            hs.append(P.dag(hs[c["x"] - 1]))
        elif a == "SetCo":
            P.setco(hs[c["x"] - 1], undy(c["c"]))
    return hs


def c03(ctx, L):
    progs = [g["h"] for g in ctx.gen if g["g"] == "prog"]
    keep = progs if ctx.thorough() else progs[::3]
    for j, prog in enumerate(keep):
        def go(s, j=j, prog=prog):
            rng = ctx.rng("prog", j)
            sites = rand_sites(rng, 2)
            sts = [(1, 0, 0), (2, 1, 1)]
            rng.shuffle(sts)
            P = Prog(s, rng, sites, [(sts, 0)], [[0, 1, 2, 3]], L)
            P.sts = sts
            hs = replay_prog(P, prog)
            for h in hs:
                P.obs(h)
            P.mat(hs[-1])
        ctx.session("TTerms", {}, go)
    c03_alias(ctx, L)
    BADS = ["2", None, [1], (1, 2), {}, object()]
    for i in range(ctx.n(60, 800)):
        def go(s, i=i):
            rng = ctx.rng("rand", i)
            P = setup(s, rng, L, nst=rng.choice([2, 3, 4]), pad=rng.choice([0, 0, 2]))
            ln = {}

            def note(h):
                ev = s.rec["ev"][-1]
                ln[h] = len(ev["r"].get("ops", [0] * 9))
                return h
            note(P.aoc(rng.choice(P.sts), rng.randrange(2)))
            note(P.num(rng.choice(P.sts)))
            note(P.term(rand_ops(rng, P.sts, rng.choice([1, 2, 3])), rco(rng)))
            for _ in range(ctx.n(14, 25)):
                hs = [h for h in P.o]
                if not hs:
                    break
                x, y = rng.choice(hs), rng.choice(hs)
                w = rng.randrange(13)
                terms = [h for h in hs if isinstance(P.o[h], L.ParticleTerm)]
                if w == 0:
                    note(P.aoc(rng.choice(P.sts), rng.randrange(2)))
                elif w == 1:
                    note(P.num(rng.choice(P.sts)))
                elif w == 2:
                    cls, ops = rng.choice(list(compatible_terms(P, rng)))
                    note(P.term(ops, rco(rng), rng.choice([cls, "general"])))
                elif w in (3, 4, 5) and ln[x] + ln[y] <= 7 and small(P.o[x]) and small(P.o[y]):
                    note(P.mul(("h", x), ("h", y)))
                elif w == 6:
                    if small(P.o[x]):
                        note(P.mul(("c", typed(rng.choice(CO), rng)), ("h", x)))
                elif w == 7:
                    if small(P.o[x]):
                        note(P.mul(("h", x), ("c", typed(rng.choice(CO), rng))))
                elif w == 8:
                    note(P.dag(x))
                elif w == 9 and terms:
                    x = rng.choice(terms)
                    if rng.random() < 0.2:
                        P.setco(x, rng.choice(BADS), True)
                    else:
                        P.setco(x, rco(rng))
                elif w == 10:
                    if isinstance(P.o[x], L.NumberOperator):
                        note(P.toterm(x))
                    elif isinstance(P.o[x], L.AoC):
                        st = rng.choice(P.sts)
                        pk = lambda v: v if rng.random() < 0.6 else -1
                        note(P.derive(x, pk(st[0]), pk(st[1]), pk(st[2]), pk(rng.randrange(2))))
                elif w == 11:
                    b = rng.choice(BADS)
                    if rng.random() < 0.5:
                        P.mul(("h", x), ("bad", b))
                    else:
                        P.mul(("bad", b), ("h", x))
                else:
                    co = None
                    if terms and rng.random() < 0.7:
                        x = rng.choice(terms)
                        co = rng.choice([None, rco(rng), rng.choice([0, rco(rng)])])
                    P.mat(x, rng.choice([1, 2]), 1, 0, co)
                    if co is not None:
                        P.mat(x)
                if rng.random() < 0.3:
                    P.obs(rng.choice(list(P.o)))
            aocs = [h for h in P.o if isinstance(P.o[h], L.AoC)]
            for _ in range(3):
                if aocs:
                    x, y = rng.choice(aocs), rng.choice(aocs)
                    P.rel("Conj", x, y)
                    P.rel("SameSt", x, y)
            if aocs:
                P.rel(rng.choice(["Conj", "SameSt"]), aocs[0], aocs[0], bad=rng.choice(BADS))
            P.obs_all()
        ctx.session("TTerms", {}, go)


def c03_alias(ctx, L):
    """every operation makes a new term: changing the coefficient of the result, or asking for its matrix with another
    one, changes no operand, and the other way round"""
    ONES = [1, 1.0, 1 + 0j, True, np.int64(1), np.float64(1), np.complex64(1), np.uint8(1)]
    for i in range(ctx.n(24, 240)):
        def go(s, i=i):
            rng = ctx.rng("alias", i)
            P = setup(s, rng, L, nst=3, subset=False)
            cls, ops = rng.choice(list(compatible_terms(P, rng)))
            x = P.term(ops, rng.choice([2, 3, 0.5, 1, -1, 1j]), rng.choice([cls, "general"]))
            n = P.num(rng.choice(P.sts))
            a = P.aoc(rng.choice(P.sts), rng.randrange(2))
            one = ONES[i % len(ONES)]
            made = [P.mul(("c", one), ("h", x)), P.mul(("h", x), ("c", one)), P.dag(x)]
            made += [P.dag(made[-1]), P.toterm(n), P.toterm(n), P.mul(("c", one), ("h", n)), P.mul(("h", n), ("c", one)),
                     P.mul(("h", a), ("c", one)), P.mul(("c", one), ("h", a)), P.mul(("h", x), ("h", a)),
                     P.mul(("c", 0), ("h", x)), P.mul(("c", one), ("h", made[0])), P.dag(n)]
            terms = [h for h in made + [x] if isinstance(P.o.get(h), L.ParticleTerm)]
            rng.shuffle(terms)
            for j, h in enumerate(terms):
                if j % 2:
                    P.setco(h, 5 + j)
                else:
                    P.mat(h, rng.choice([1, 2]), 1, 0, 5 + j)
                P.obs(rng.choice(terms))
            P.obs_all()
            P.mat(x)
        ctx.session("TTerms", {}, go)


def c04(ctx, L):
    strs = [g["ops"] for g in ctx.gen if g["g"] == "norm"]
    step = 10
    for b in range(0, len(strs), step):
        def go(s, b=b):
            rng = ctx.rng("norm", b)
            sites = sorted(rand_sites(rng, 2))
            P = Prog(s, rng, sites, [], [], L)
            pool = {}
            for ops in strs[b:b + step]:
                xs = []
                for o in ops:
                    o = tuple(o)
                    if o not in pool:
                        pool[o] = P.aoc((o[0], o[1], o[2]), o[3])
                    xs.append(pool[o])
                P.norm(xs)
        ctx.session("TTerms", {}, go)
    for i in range(ctx.n(120, 1500)):
        def go(s, i=i):
            rng = ctx.rng("rand", i)
            nsites = rng.choice([1, 2, 3, 4])
            sites = rand_sites(rng, nsites)
            P = Prog(s, rng, sites, [], [], L)
            sts = rand_states(rng, rng.choice([2, 3, 4, 6, 12, 20] if nsites > 2 else [2, 3, 4, 6]) if nsites > 1 else rng.choice([2, 3, 4]), nsites)
            pool = {}

            def aoc(st, t):
                if (st, t) not in pool or rng.random() < 0.2:
                    pool[st, t] = P.aoc(st, t)
                return pool[st, t]
            for _ in range(8):
                n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 14] if rng.random() < 0.85 else [17, 24, 33, 40])
                # many orderable strings: keep creations of a state left of its annihilations
                w = rng.randrange(3)
                ops = [(rng.choice(sts), rng.randrange(2)) for _ in range(n)]
                if rng.random() < 0.2:      # nothing but creators, or nothing but annihilators
                    t = rng.randrange(2)
                    ops = [(st, t) for st, _ in ops]
                    if rng.random() < 0.7:
                        ops = [(st, t) for st in rng.sample(sts, len(sts))] + ops[len(sts):]
                if w:
                    for st in sts:
                        idx = [j for j in range(n) if ops[j][0] == st]
                        ts = sorted([ops[j][1] for j in idx], reverse=True)
                        for j, t in zip(idx, ts):
                            ops[j] = (st, t)
                P.norm([aoc(*o) for o in ops])
            P.norm([])
            P.obs_all()
        ctx.session("TTerms", {}, go)


def build(ctx, prop):
    L = lib()
    {"C01": c01, "C02": c02, "C03": c03, "C04": c04}[prop](ctx, L)


if __name__ == "__main__":
    main(build)
