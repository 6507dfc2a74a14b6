"""Hamiltonians assembled from the library's parts (C30)."""
from common import *
import numpy as np
import scipy.sparse as sp
from d_lattice import Lat, geo, rand_cluster, PARENT, SPECIAL, lib as lat_lib, BADV
from d_lattice import Geo


class M:
    kap = 1.0       # all couplings are multiplied by this
    eps = 1.0       # and imaginary parts of hoppings by this too: the Hamiltonian is linear in both


def scales(rng, n=2):
    M.kap = rng.choice([1, 1, 1, 2.0 ** -18, 2.0 ** 14, 2.0 ** -40])
    M.eps = rng.choice([1, 1, 2.0 ** -27, 2.0 ** -20, 2.0 ** 10]) if n == 2 else 1.0


def lib():
    M.L = lat_lib()
    import HamiltonianPy as H
    from HamiltonianPy import hilbertspace, indextable
    from HamiltonianPy import quantumoperator as q
    from HamiltonianPy.quantumoperator import quantumstate, particlesystem, spinsystem, factory
    M.H, M.hs, M.Table = H, hilbertspace, indextable.IndexTable
    M.qs, M.pa, M.ss, M.fa = quantumstate, particlesystem, spinsystem, factory


def weights(m, n, only=None):
    """sparse or dense matrix -> entries in 1/16, rows and columns as they are"""
    m = sp.coo_matrix(m)
    if only is not None:
        keep = np.isin(m.col, sorted(only))
        m = sp.coo_matrix((m.data[keep], (m.row[keep], m.col[keep])), shape=m.shape)
    acc = {}
    for r, c, v in zip(m.row, m.col, m.data):
        acc[int(r), int(c)] = acc.get((int(r), int(c)), 0) + complex(v)
    en = []
    for (r, c), v in sorted(acc.items()):
        w = v * 16 / M.kap
        w = complex(w.real, w.imag / M.eps)
        if abs(w) > 1e-9:
            i, j = round(w.real), round(w.imag)
            en.append([r, c, i, j] if abs(w - complex(i, j)) < 1e-6 else [r, c, 777777, 777777])
    return {"sh": [int(x) for x in m.shape], "en": en}


class Assembly:
    """oriented: the model distinguishes the two directions of a bond, so its ends are folded only after looking"""

    def __init__(self, t, rng, oriented=False):
        self.t, self.rng, self.lat = t, rng, t.lat
        self.style = rng.randrange(1, 3) if oriented else rng.randrange(3)
        self.oriented = oriented

    def sign(self, p, q):
        for x in self.t.g.ivec(np.asarray(q) - np.asarray(p)):
            if x:
                return 1 if x > 0 else -1
        return 0

    def sites(self):
        r = self.rng.randrange(3)
        if r == 0:
            return [self.lat.getSite(i) for i in range(self.lat.point_num)]
        if r == 1:
            return list(self.lat.points)
        return [tuple(float(c) for c in p) for p in self.lat.points]

    def folded(self, bonds):
        out = []
        for b in bonds:
            p, q = b.endpoints
            if self.rng.random() < 0.3:
                p, q = q, p
            sg = self.sign(p, q)
            if self.style == 1:
                out.append((self.lat.decompose(p)[0], self.lat.decompose(q)[0], sg))
            else:
                out.append(tuple(self.lat.getSite(self.lat.getIndex(x, fold=True)) for x in (p, q)) + (sg,))
        return out

    def ends(self, n, only=True):
        """ends of the n-th neighbour bonds, folded into the cluster, and the sign of the bond"""
        if self.style == 0:
            intra, inter = self.lat.bonds(n, only=only, fold=True)
            out = [tuple(b.endpoints) + (0,) for b in intra + inter]
            return [(q, p, g) if self.rng.random() < 0.3 else (p, q, g) for p, q, g in out]
        intra, inter = self.lat.bonds(n, only=only)
        return [tuple(b.endpoints) + (self.sign(*b.endpoints),) for b in intra] + self.folded(inter)

    def shells(self, count):
        """count lists of ends; all at once when the couplings allow is exercised by the caller"""
        return [self.ends(i + 1) for i in range(count)]

    def uniform(self, n):
        """ends of all bonds up to the n-th neighbours"""
        return self.ends(n, only=False)


def oriented(m):
    return any(m.get("ti", [])) or any(m.get("sf", [])) or any(m.get("Dz", []))


LISTS = ["t", "ti", "tx", "sf", "V", "D"]


def fermion_terms(a, m, modes):
    """terms with a flag: does the adjoint have to be added?"""
    rng, fa, pa = a.rng, M.fa, M.pa
    out = []
    orbs = range(m["orb"])
    shells = [(x, i) for i, x in enumerate(a.shells(len(m["t"])))]
    same = len(shells) == 2 and all(m[k][0] == m[k][1] for k in LISTS)
    if same and rng.random() < 0.7:
        shells = [(a.uniform(2), 0)]

    def kw(**d):
        """defaults left out at random"""
        base = {k[:-1]: v for k, v in d.items() if k.endswith("0")}
        return {k: v for k, v in d.items() if rng.random() < 0.4 or
                (v != 0 if not k.endswith("1") else v != base.get(k[:-1]))}

    def hop(p, q, s, s2, o, o2, w):
        """w c+_p c_q and its adjoint"""
        if not w:
            return
        if rng.random() < 0.25:     # the adjoint instead
            p, q, s, s2, o, o2, w = q, p, s2, s, o2, o, w.conjugate()
        c = w.real if not w.imag and rng.random() < 0.7 else w
        if rng.random() < 0.75:
            out.append((fa.HoppingFactory(p, q, coeff=c, **kw(spin0=s, spin1=s2, orbit0=o, orbit1=o2)), True))
        else:
            out.append((fa.Creator(p, s, o) * fa.Annihilator(q, s2, o2) * c, True))

    def dens(p, q, s, s2, o, o2, w):
        if w and rng.random() < 0.75:
            out.append((fa.CoulombFactory(p, q, coeff=w, **{k: v for k, v in dict(spin0=s, spin1=s2, orbit0=o, orbit1=o2).items()
                                                           if v or rng.random() < 0.4}), False))
        elif w:
            out.append((w * (pa.NumberOperator(p, s, o) * pa.NumberOperator(q, s2, o2)), False))
    for ends, i in shells:
        t, ti, tx, sf, V, D = (m[k][i] / 16 * M.kap for k in LISTS)
        ti, sf = ti * M.eps, sf * M.eps
        for p, q, sg in ends:
            for o in orbs:
                for s in modes:
                    hop(p, q, s, s, o, o, complex(t, sg * ti))
                    for o2 in orbs:
                        if o2 != o:
                            hop(p, q, s, s, o, o2, complex(tx))
                        for s2 in modes:
                            dens(p, q, s, s2, o, o2, V)
                if sf:
                    u, v = (p, q) if sg == 1 else (q, p)
                    hop(u, v, 1, 0, o, o, complex(0, sf))
                if D:
                    ob = {"orbit0": o, "orbit1": o} if o or rng.random() < 0.3 else {}
                    if rng.random() < 0.5:
                        out.append((fa.PairingFactory(p, q, spin0=1, spin1=0, coeff=D, which=rng.choice(["h", "hole"]), **ob), True))
                        out.append((fa.PairingFactory(p, q, spin0=0, spin1=1, coeff=-D, **ob), True))
                    else:   # the particle form is the adjoint
                        out.append((fa.PairingFactory(q, p, spin0=0, spin1=1, coeff=D, which=rng.choice(["p", "particle"]), **ob), True))
                        out.append((fa.PairingFactory(q, p, spin0=1, spin1=0, coeff=-D, which="p", **ob), True))
    for p in a.sites():
        for s in modes:
            for o in orbs:
                if m["mu"]:
                    out.append((fa.CPFactory(p, coeff=m["mu"] / 16 * M.kap, **kw(spin=s, orbit=o)) if rng.random() < 0.6 else
                                pa.NumberOperator(p, s, o) * (m["mu"] / 16 * M.kap), False))
            if m["orb"] == 2:
                hop(p, p, s, s, 0, 1, complex(m["y"] / 16 * M.kap))
                for s2 in modes:
                    dens(p, p, s, s2, 0, 1, m["W"] / 16 * M.kap)
        if m["U"] and len(modes) == 2:
            for o in orbs:
                out.append((fa.HubbardFactory(p, coeff=m["U"] / 16 * M.kap, **kw(orbit=o)) if rng.random() < 0.7 else
                            pa.NumberOperator(p, 1, o) * pa.NumberOperator(p, 0, o) * (m["U"] / 16 * M.kap), False))
    return out


def assemble(rng, terms, table, basis):
    n = len(basis)
    adj = rng.random() < 0.5
    Hm = sp.csr_matrix((n, n), dtype=np.float64)
    H2 = sp.csr_matrix((n, n), dtype=np.float64)
    order = list(terms)
    if rng.random() < 0.5:
        rng.shuffle(order)
    for term, both in order:
        if rng.random() < 0.2:
            e, (r, c) = term.matrix_repr(table, basis, to_csr=False)
            mat = sp.coo_matrix((e, (r, c)), shape=(n, n)).tocsr()
        elif rng.random() < 0.2:
            mat = term.matrix_repr(table, basis, left_bases=basis)
        else:
            mat = term.matrix_repr(table, basis)
        if not both:
            Hm = Hm + mat
        elif adj:
            H2 = H2 + mat
        else:
            Hm = Hm + mat + term.dagger().matrix_repr(table, basis)
    return Hm + H2 + H2.getH()


def numbering(rng, N, m):
    slots = [(i, s, o) for i in range(N) for o in range(m["orb"]) for s in ((0, 1) if m["kind"] == "fermion" else (0,))]
    how = rng.randrange(4)
    if how == 1:
        slots.sort(key=lambda x: (x[1], x[0], x[2]))
    elif how == 2:
        slots.reverse()
    elif how == 3:
        rng.shuffle(slots)
    return slots


def state_id(rng, site, s, o):
    kw = {"spin": s, "orbit": o}
    return M.qs.StateID(site, **{k: v for k, v in kw.items() if v or rng.random() < 0.5})


def basis_of(rng, slots, m):
    """a space closed under the model, through the library"""
    n = len(slots)
    hs = M.hs
    ups = [j for j, x in enumerate(slots) if x[1] == 1]
    downs = [j for j, x in enumerate(slots) if x[1] == 0]
    paired = any(m["D"])
    flips = any(m["sf"])
    w = rng.randrange(5)
    if flips and w > 2:
        w = 1
    if flips and paired and w == 1:
        w = 0
    if paired and w >= 2 or w == 0:
        b = rng.choice([lambda: hs.HilbertSpace(n).base_vectors(), lambda: hs.base_vectors(n), lambda: hs.HilbertSpace((n, -1))(),
                        lambda: hs.SimpleHilbertSpace(n)()])()
        if paired and rng.random() < 0.4:      # parity is conserved
            p = rng.randrange(2)
            b = np.array([x for x in b if bin(int(x)).count("1") % 2 == p], dtype=np.uint64)
        return b
    if paired and w == 1:
        # singlet pairing keeps the magnetisation
        d = rng.choice([-1, 0, 1])
        b = hs.base_vectors(n)
        f = lambda x, q: sum(int(x) >> j & 1 for j in q)
        return np.array([x for x in b if f(x, ups) - f(x, downs) == d], dtype=np.uint64)
    if not ups or w in (1, 2) or flips:
        k = rng.randrange(0, n + 1)
        return rng.choice([lambda: hs.HilbertSpace((n, k)).base_vectors(), lambda: hs.SimpleHilbertSpace(n, k).base_vectors(),
                           lambda: hs.base_vectors([list(range(n)), k]), lambda: hs.HilbertSpace([tuple(range(n)), k])()])()
    a, c = rng.randrange(0, len(ups) + 1), rng.randrange(0, len(downs) + 1)
    spec = [[ups, a], [tuple(downs), c]]
    rng.shuffle(spec)
    return hs.HilbertSpace(*spec).base_vectors() if rng.random() < 0.6 else hs.base_vectors(*spec)


def fermion(s, rng, t, m, limit):
    lat = t.lat
    N = lat.point_num
    slots = numbering(rng, N, m)
    ev = {"m": m, "pos": [[i + 1, sp_, o, j] for j, (i, sp_, o) in enumerate(slots)], "basis": []}

    def go():
        scales(rng)
        a = Assembly(t, rng, oriented(m))
        sites = a.sites()
        table = M.Table([state_id(rng, sites[i], x, o) for i, x, o in slots])
        for _ in range(9):
            basis = basis_of(rng, slots, m)
            if 0 < len(basis) <= limit:
                break
        else:
            basis = M.hs.base_vectors([list(range(len(slots))), 1])
            if any(m["D"]):
                basis = M.hs.base_vectors(len(slots))
        ev["basis"] = [bits(b) for b in basis]
        modes = (0, 1) if m["kind"] == "fermion" else (0,)
        return assemble(rng, fermion_terms(a, m, modes), table, basis)
    s.call("Ham", ev, go, lambda v: weights(v, 0))
    s.rec["ev"][-1]["basis"] = ev["basis"]


def sampled(v, kets, cols):
    """some columns of a large matrix; kets: the basis as integers"""
    w = weights(v, 0, only=set(cols))
    by = {c: [] for c in cols}
    for r, c, i, j in w["en"]:
        by[c].append([bits(kets[r]), i, j])
    return {"sh": w["sh"], "cols": [by[c] for c in cols]}


def places(rng, m, k=24):
    return sorted({0, m - 1, m // 2} | {b + e for b in (127, 255, 1023, 2047) for e in (0, 1) if b + e < m} | {rng.randrange(m) for _ in range(k)})


def wide_basis(rng, slots, m):
    """a sector of many modes, through the library"""
    n = len(slots)
    ups = [j for j, x in enumerate(slots) if x[1] == 1]
    downs = [j for j, x in enumerate(slots) if x[1] == 0]
    if any(m["D"]) or n <= 12 and rng.random() < 0.7:  # pairing leaves no number conserved
        return basis_of(rng, slots, m)
    if ups and not any(m["sf"]) and rng.random() < 0.7:
        while True:
            a, c = rng.randrange(0, len(ups) + 1), rng.randrange(0, len(downs) + 1)
            if math.comb(len(ups), a) * math.comb(len(downs), c) <= 4000:
                break
        spec = [[ups, a], [tuple(downs), c]]
        rng.shuffle(spec)
        return M.hs.HilbertSpace(*spec).base_vectors() if rng.random() < 0.6 else M.hs.base_vectors(*spec)
    k = rng.choice([x for x in range(n + 1) if math.comb(n, x) <= 4000])
    return M.hs.base_vectors([list(range(n)), k])


def wfermion(s, rng, t, m):
    N = t.lat.point_num
    slots = numbering(rng, N, m)
    if len(slots) > 12:
        m["D"] = [0] * len(m["D"])
    ev = {"m": m, "pos": [[i + 1, sp_, o, j] for j, (i, sp_, o) in enumerate(slots)], "dim": 0, "kets": []}

    def go():
        scales(rng)
        a = Assembly(t, rng, oriented(m))
        sites = a.sites()
        table = M.Table([state_id(rng, sites[i], x, o) for i, x, o in slots])
        basis = wide_basis(rng, slots, m)
        kets = [int(b) for b in basis]
        cols = places(rng, len(kets))
        ev["dim"], ev["kets"] = len(kets), [bits(kets[c]) for c in cols]
        modes = (0, 1) if m["kind"] == "fermion" else (0,)
        return sampled(assemble(rng, fermion_terms(a, m, modes), table, basis), kets, cols)
    s.call("WHam", ev, go, lambda v: v)
    s.rec["ev"][-1].update(dim=ev["dim"], kets=ev["kets"])


def spin(s, rng, t, m, wide=False):
    N = t.lat.point_num
    order = list(range(N))
    if rng.random() < 0.6:
        rng.shuffle(order)
    pos = [order.index(i) for i in range(N)]

    def go():
        scales(rng, 1)
        fa, ss = M.fa, M.ss
        a = Assembly(t, rng, oriented(m))
        sites = a.sites()
        table = M.Table([M.qs.SiteID(sites[i]) for i in order])
        n = 2 ** N
        Hm = sp.csr_matrix((n, n), dtype=np.complex128)
        for i, ends in enumerate(a.shells(len(m["Jz"]))):
            Jz, Jx = m["Jz"][i] / 16 * M.kap, m["Jx"][i] / 16 * M.kap
            Dz = m["Dz"][i] / 16 * M.kap
            for p, q, sg in ends:
                terms = []
                if Dz and rng.random() < 0.7:
                    terms = [fa.TwoSpinTermFactory(p, q, "x", "y", coeff=sg * Dz), fa.TwoSpinTermFactory(p, q, "y", "x", coeff=-sg * Dz)]
                elif Dz:
                    terms = [sg * Dz * (ss.SpinOperator("x", p) * ss.SpinOperator("y", q)),
                             ss.SpinOperator("y", p) * ss.SpinOperator("x", q) * (-sg * Dz)]
                if Jz == Jx and rng.random() < 0.7:
                    terms += list(fa.HeisenbergFactory(p, q, coeff=Jz))
                else:
                    for ax, J in (("x", Jx), ("y", Jx), ("z", Jz)):
                        if J and rng.random() < 0.5:
                            terms.append(fa.IsingFactory(p, q, ax, coeff=J))
                        elif J and rng.random() < 0.5:
                            terms.append(fa.TwoSpinTermFactory(p, q, ax, ax, coeff=J))
                        elif J:
                            terms.append(J * (ss.SpinOperator(ax, p) * ss.SpinOperator(ax, q)))
                for x in terms:
                    Hm = Hm + x.matrix_repr(table)
        if m["h"]:
            for p in sites:
                op = ss.SpinOperator("z", p)
                Hm = Hm + (op.matrix_repr(table) * (m["h"] / 16 * M.kap) if rng.random() < 0.5 else (op * (m["h"] / 16 * M.kap)).matrix_repr(table))
        return Hm
    if wide:
        cols = places(rng, 2 ** N)
        s.call("WSpin", {"m": m, "pos": pos, "kets": [bits(c) for c in cols]}, go, lambda v: sampled(v, range(2 ** N), cols))
    else:
        s.call("Spin", {"m": m, "pos": pos}, go, lambda v: weights(v, 0))


def rmodel(rng, kind, shells, N=1):
    pick = lambda *x: rng.choice(x)
    z = [0] * shells
    width = 2 if kind == "fermion" else 1
    orb = 2 if width * N <= 4 and rng.random() < 0.4 else 1
    m = {"kind": kind, "orb": orb, "t": [pick(-16, -16, 8, 24, 0) for _ in z], "V": list(z), "D": list(z), "U": 0,
         "ti": list(z), "tx": list(z), "sf": list(z), "W": 0, "y": 0, "mu": pick(0, 0, -8, 16)}
    if rng.random() < 0.4:
        m["ti"] = [pick(0, 8, -16, 4) for _ in z]
    if orb == 2:
        m["tx"] = [pick(0, 8, -4) for _ in z]
        m["W"], m["y"] = pick(0, 16, -24), pick(0, 8, -16)
    if rng.random() < 0.5:
        m["V"] = [pick(0, 16, -24, 4) for _ in z]
    if kind == "fermion":
        m["U"] = pick(0, 64, 128, -32, 4)
        if rng.random() < 0.3:
            m["D"] = [pick(0, 8, -16, 2) for _ in z]
        if rng.random() < 0.3:
            m["sf"] = [pick(0, 8, -4) for _ in z]
    if rng.random() < 0.2 and shells == 2:
        for k in LISTS:
            m[k][1] = m[k][0]
    return m


def rspin(rng, shells, t):
    J = [rng.choice([16, -16, 64, 32]) for _ in range(shells)]
    Jx = list(J) if rng.random() < 0.6 else [rng.choice([16, -32, 0, 8]) for _ in J]
    # on a bond of a site with its own image the vector product is not Hermitian
    own = lambda i: any(np.allclose(p, q) for p, q, _ in Assembly(t, random.Random(1), True).ends(i + 1))
    D = [0 if own(i) else rng.choice([0, 4, -8, 16]) for i in range(shells)] if rng.random() < 0.5 else [0] * shells
    return {"Jz": [j * 4 for j in J], "Jx": [j * 4 for j in Jx], "Dz": D, "h": rng.choice([0, 0, 16, -8]) * 4}


EMPTY = {"lat": {"d": 1, "G": [[1]], "P": [[0]], "V": [[1]]}}


LARGE = [("chain", (6,)), ("chain", (8,)), ("chain", (11,)), ("square", (3, 2)), ("square", (4, 2)), ("square", (3, 3)), ("triangle", (3, 3)),
         ("honeycomb", (2, 2)), ("honeycomb", (3, 1)), ("kagome", (2, 1)), ("kagome", (3, 1)), ("cubic", (2, 2, 2))]


def named(s, rng, large=False):
    w, n = rng.choice(LARGE) if large else rng.choice([("chain", (1,)), ("chain", (2,)), ("chain", (3,)), ("chain", (4,)), ("square", (1, 1)), ("square", (2, 1)), ("square", (1, 3)),
                       ("square", (2, 2)), ("triangle", (1, 1)), ("triangle", (2, 1)), ("triangle", (3, 1)), ("triangle", (2, 2)),
                       ("honeycomb", (1, 1)), ("honeycomb", (2, 1)), ("kagome", (1, 1)), ("cubic", (1, 1, 1)), ("cubic", (2, 1, 1)),
                       ("cubic", (3, 1, 1)), ("benzene", None)])
    par = w if n else "honeycomb"
    fr, D, _, _ = PARENT[par]
    lat = M.L.gen(w, *n) if n else M.L.special(w)
    g = Geo(fr, D)
    o = object.__new__(Lat)
    o.s, o.rng, o.g, o.L, o.lat = s, rng, g, M.L, lat
    o.P, o.V = [g.isite(p) for p in lat.points], [g.ivec(v) for v in lat.vectors]
    if BADV in sum(o.P + o.V, []):
        raise ValueError("cluster is not on its parent lattice")
    s.rec["lat"] = {"d": g.d, "G": g.G, "P": o.P, "V": o.V}
    return o


def random_cluster(s, rng):
    fr = rng.choice(["sq1", "sq", "sq", "hx", "hx", "sq3"])
    d = len({"sq1": [1], "sq": [1, 1], "hx": [1, 1], "sq3": [1] * 3}[fr])
    k = d if rng.random() < 0.75 else rng.randrange(1, d + 1)
    P, V = rand_cluster(rng, fr, rng.choice([1, 2, 2, 3]) if d < 3 else rng.choice([1, 2]), k, 3 if d < 3 else 1, 3 if d < 3 else 2)
    return Lat(s, rng, geo(rng, fr, 1), P, V, M.L)


def run(s, rng, t, quick):
    N = t.lat.point_num
    for _ in range(2):
        k = rng.choice(["fermion", "fermion", "spinless", "spin"])
        sh = rng.choice([1, 1, 2]) if N <= 3 else 1
        if k == "spin":
            if N <= 5:
                spin(s, rng, t, rspin(rng, sh, t))
        elif k == "spinless":
            if N <= 6:
                fermion(s, rng, t, rmodel(rng, k, sh, N), 70)
        elif N <= 4:
            fermion(s, rng, t, rmodel(rng, k, sh, N), 70 if N <= 3 else 40)


def c30(ctx):
    gen = [g for g in ctx.gen if g["g"] == "model" and (ctx.thorough() or g["how"] == 1)]
    for j, g in enumerate(gen):
        def go(s):
            rng = ctx.rng("mg", j)
            c = g["c"]
            fr = "sq1" if c["d"] == 1 else "sq" if c["G"] == [[1, 0], [0, 1]] else "hx"
            t = Lat(s, rng, geo(rng, fr), c["P"], c["V"], M.L)
            fermion(s, rng, t, g["m"], 70)
            spin(s, rng, t, rspin(rng, 1, t))
        ctx.session("TModel", EMPTY, go)
    for j in range(ctx.n(60, 1500)):
        def go(s):
            rng = ctx.rng("mr", j)
            t = named(s, rng) if rng.random() < 0.5 else random_cluster(s, rng)
            run(s, rng, t, not ctx.thorough())
        ctx.session("TModel", EMPTY, go)
    for j in range(ctx.n(10, 150)):
        def go(s):
            rng = ctx.rng("mw", j)
            t = named(s, rng, True)
            N = t.lat.point_num
            k = rng.choice(["fermion", "spinless"])
            wfermion(s, rng, t, rmodel(rng, k, rng.choice([1, 1, 2]), N))
            if N <= 11:
                spin(s, rng, t, rspin(rng, 1, t), True)
        ctx.session("TModel", EMPTY, go)


def build(ctx, prop):
    lib()
    {"C30": c30}[prop](ctx)


if __name__ == "__main__":
    main(build)
