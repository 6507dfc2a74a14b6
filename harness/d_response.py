"""Linear response of assembled models (C33): Green functions computed through
the library, from lattice to resolvent, against the relations they must obey."""
from common import *
import numpy as np
import scipy.sparse as sp
import d_model as dm
from d_model import M, Assembly, fermion_terms, assemble, numbering, oriented, rmodel, rspin, EMPTY, named, random_cluster
from d_lattice import Lat, geo, Geo, PARENT, rand_cluster, BADV

UNIT = 1e5


def lib():
    dm.lib()
    from HamiltonianPy import lanczos
    from HamiltonianPy import GreenFunction as G
    M.G, M.K = G, lanczos


class Key:
    """names a composite operator and its adjoint in the solvers' dictionaries"""

    def __init__(self, name, dag=False):
        self.name, self.d = name, dag

    def dagger(self):
        return Key(self.name, not self.d)

    def __eq__(self, o):
        return isinstance(o, Key) and (self.name, self.d) == (o.name, o.d)

    def __hash__(self):
        return hash((self.name, self.d))


def gauss(x, good):
    x = complex(x)
    if not (np.isfinite(x.real) and np.isfinite(x.imag) and abs(x) < 9.5):
        good.append(False)
        return [0, 0]
    return [round(x.real * UNIT), round(x.imag * UNIT)]


def rows(arr, good):
    return [[[gauss(v, good) for v in c] for c in r] for r in arr]


def freqs(rng, n):
    return [[rng.randrange(-96, 97), rng.choice([4, 6, 8, 16])] for _ in range(n)]


def safe_lanczos(Hm, v):
    """no Krylov step near the library's zero threshold, so that the exact rank is the numerical one"""
    A = Hm.toarray() if sp.issparse(Hm) else np.asarray(Hm)
    n = np.linalg.norm(v)
    if n < 1e-2:
        return False
    q = [v / n]
    for _ in range(len(A)):
        w = A @ q[-1]
        for _ in range(2):
            for u in q:
                w = w - np.vdot(u, w) * u
        b = np.linalg.norm(w)
        if b < 1e-8:
            return True
        if b < 1e-2:
            return False
        q.append(w / b)
    return True


class Space:
    """the sectors an annihilator and a creator connect"""

    def __init__(self, rng, slots, m):
        self.rng, self.slots = rng, slots
        n = len(slots)
        paired, flips = any(m["D"]), any(m["sf"])
        ups = [j for j, x in enumerate(slots) if x[1] == 1]
        downs = [j for j, x in enumerate(slots) if x[1] == 0]
        w = rng.randrange(4)
        self.how = "full" if w == 0 else "parity" if paired else "spin" if ups and w > 1 and not flips else "number"
        self.n, self.ups, self.downs = n, ups, downs
        if self.how == "number":
            self.q = rng.randrange(0, n + 1)
        if self.how == "spin":
            self.q = (rng.randrange(0, len(ups) + 1), rng.randrange(0, len(downs) + 1))
        if self.how == "parity":
            self.q = rng.randrange(2)

    def basis(self, sp_=0, d=0):
        """basis of the sector reached by changing the number of particles of spin sp_ by d; None when empty"""
        hs, n, rng = M.hs, self.n, self.rng
        if self.how == "full":
            return hs.base_vectors(n)
        if self.how == "parity":
            p = (self.q + d) % 2
            return np.array([x for x in hs.base_vectors(n) if bin(int(x)).count("1") % 2 == p], dtype=np.uint64)
        if self.how == "number":
            k = self.q + d
            if not 0 <= k <= n:
                return None
            return rng.choice([lambda: hs.base_vectors((n, k)), lambda: hs.SimpleHilbertSpace(n, k).base_vectors(),
                               lambda: hs.HilbertSpace([list(range(n)), k]).base_vectors()])()
        a, b = self.q
        if sp_ == 1:
            a += d
        else:
            b += d
        if not (0 <= a <= len(self.ups) and 0 <= b <= len(self.downs)):
            return None
        return hs.base_vectors((self.ups, a), (self.downs, b)) if rng.random() < 0.5 else \
            hs.HilbertSpace([self.ups, a], [self.downs, b]).base_vectors()


class Many:
    """a model on a cluster, an eigenstate, and Green functions of it"""

    def __init__(self, rng, terms, table, space):
        self.rng, self.terms, self.table, self.space = rng, terms, table, space
        self.cache = {}
        self.b0 = space.basis()
        H = self.ham(self.b0)
        E, U = np.linalg.eigh(H.toarray())
        i = 0 if rng.random() < 0.7 else rng.randrange(len(E))
        self.E, self.gs = E[i], U[:, i]

    def ham(self, basis):
        k = tuple(int(x) for x in basis)
        if k not in self.cache:
            self.cache[k] = assemble(self.rng, self.terms, self.table, basis)
        return self.cache[k]

    def kick(self, op, spin, d):
        """op|E>, and the basis it lives in"""
        b = self.space.basis(spin, d)
        if b is None:
            return None, None
        m = op.matrix_repr(self.table, self.b0, left_bases=b)
        return m.dot(self.gs), b

    def rgf(self, om, As, Bs, kets, eta, minus, plus):
        """retarded functions of annihilators As and creators Bs (keys); kets by key.
        minus: basis of B|E> and A+|E>; plus: of A|E> and B+|E>; None when empty."""
        rng, G = self.rng, M.G
        om = np.array(om)
        get = lambda r: np.array([[r[a, b] for b in Bs] for a in As]) if isinstance(r, dict) else np.asarray(r)
        st = rng.choice(["array", "dict"])
        same = minus is not None and plus is not None and len(minus) == len(plus) and np.array_equal(minus, plus)
        if same and rng.random() < 0.7:
            Hd = self.ham(minus).toarray()
            if rng.random() < 0.3:
                return np.array([[[G.RGFSolverExactSingle(w, a, b, self.E, Hd, kets, eta=eta, sign="+") for w in om]
                                  for b in Bs] for a in As])
            return get(G.RGFSolverExactMultiple(om, As, Bs, self.E, Hd, kets, eta=eta, sign="+", structure=st))
        low = {k: v for k, v in kets.items() if k in As or k.dagger() in Bs}
        high = {k: v for k, v in kets.items() if k in Bs or k.dagger() in As}
        if same:
            low = high = kets
        if minus is not None and plus is not None:
            h1, h2 = self.ham(minus), self.ham(plus)
            if all(safe_lanczos(h1, v) for v in high.values()) and all(safe_lanczos(h2, v) for v in low.values()):
                pm, pv = M.K.MultiKrylov(h1, high)
                pm2, pv2 = M.K.MultiKrylov(h2, low)
                pm.update(pm2)
                pv.update(pv2)
                if rng.random() < 0.3:
                    return np.array([[[G.RGFSolverLanczosSingle(w, a, b, self.E, pm, pv, eta=eta) for w in om]
                                      for b in Bs] for a in As])
                return get(G.RGFSolverLanczosMultiple(om, As, Bs, self.E, pm, pv, eta=eta, structure=st))
        out = np.zeros((len(As), len(Bs), len(om)), dtype=complex)
        if minus is not None:
            out += get(G.GFSolverExactMultiple(om, As, Bs, self.E, self.ham(minus).toarray(), high, eta=eta, sign="-",
                                               structure="array"))
        if plus is not None:
            out += np.transpose(G.GFSolverExactMultiple(om, Bs, As, self.E, self.ham(plus).toarray(), low, eta=eta, sign="+",
                                                        structure="array"), (1, 0, 2))
        return out


def eom(s, rng, t, m, quick):
    lat = t.lat
    N = lat.point_num
    slots = numbering(rng, N, m)
    modes = [(i, a, o) for i in range(N) for a in ((0, 1) if m["kind"] == "fermion" else (0,)) for o in range(m["orb"])]
    paired = any(m["D"])
    dens = bool(m["U"]) or any(m["V"]) or bool(m["W"])
    eta16 = rng.choice([4, 6, 8, 16])
    om = [[rng.randrange(-96, 97), eta16] for _ in range(2)]
    nb = len(modes) if quick is False else min(len(modes), 3)
    chosen = rng.sample(range(len(modes)), nb)
    ot = {j: (M.H.CREATION if not paired or rng.random() < 0.6 else M.H.ANNIHILATION) for j in chosen}
    ev = {"m": m, "modes": [[i + 1, a, o] for i, a, o in modes], "om": om,
          "Bs": [[j + 1, int(ot[j])] for j in chosen]}

    def go():
        a = Assembly(t, rng, oriented(m))
        sites = a.sites()
        table = M.Table([M.qs.StateID(sites[i], spin=x, orbit=o) for i, x, o in slots])
        space = Space(rng, slots, m)
        many = Many(rng, fermion_terms(a, m, (0, 1) if m["kind"] == "fermion" else (0,)), table, space)
        ann = [M.pa.AoC(M.H.ANNIHILATION, sites[i], x, o) for i, x, o in modes]
        ws = [p / 16 for p, _ in om]
        g = np.zeros((len(modes), len(chosen), len(om)), dtype=complex)
        gn = np.zeros((len(modes), len(modes), len(chosen), len(om)), dtype=complex)
        gd = np.zeros_like(g)

        def put(ops, sel):
            """ops: list of (key, annihilating term, creating term, spin, store); sel: chosen B of the same sector"""
            Bs, kets = [], {}
            minus = plus = None
            for j in sel:
                B = ann[chosen[j]].dagger() if ot[chosen[j]] == M.H.CREATION else ann[chosen[j]]
                Bs.append(B)
            spin = ops[0][3]
            for key, lo, hi, _, _ in ops:
                v, b = many.kick(lo, spin, -1)
                if b is not None:
                    kets[key], plus = v, b
                v, b = many.kick(hi, spin, 1)
                if b is not None:
                    kets[key.dagger()], minus = v, b
            for B in Bs:
                d = 1 if B.otype == M.H.CREATION else -1
                v, b = many.kick(B, spin, d)
                if b is not None:
                    kets[B] = v
                    minus = b if minus is None else minus
                v, b = many.kick(B.dagger(), spin, -d)
                if b is not None:
                    kets[B.dagger()] = v
                    plus = b if plus is None else plus
            As = [o[0] for o in ops]
            r = many.rgf(ws, As, Bs, kets, eta16 / 16, minus, plus)
            for i, o in enumerate(ops):
                for n, j in enumerate(sel):
                    o[4][j] = r[i, n]
        groups = {}
        for x, (i, a_, _) in enumerate(modes):
            groups.setdefault(a_ if space.how == "spin" else 0, []).append(x)
        for sp_, xs in groups.items():
            sel = [j for j, c in enumerate(chosen) if c in xs]
            if not sel:
                continue
            ops = [(ann[x], ann[x], ann[x].dagger(), sp_, g[x]) for x in xs]
            put(ops, sel)
            if paired:
                # anomalous parts: creators in the place of A
                put([(ann[x].dagger(), ann[x].dagger(), ann[x], sp_, gd[x]) for x in xs], sel)
            if dens:
                ops = []
                for x in xs:
                    for y in range(len(modes)):
                        if y != x:
                            num = M.pa.NumberOperator(sites[modes[y][0]], *modes[y][1:])
                            lo, hi = num * ann[x], ann[x].dagger() * num
                            ops.append((Key((x, y)), lo, hi, sp_, gn[x, y]))
                if ops:
                    put(ops, sel)
        return g, gn, gd

    def proj(v):
        good = []
        g, gn, gd = v
        return {"g": rows(g, good), "gn": [rows(x, good) for x in gn] if dens else [], "gd": rows(gd, good) if paired else [],
                "ok": not good}
    s.call("EOM", ev, go, proj)


def cpt(s, rng, cell, mult, mk, quick):
    """cluster perturbation theory without interaction: exact for every cluster"""
    k = len(cell.V)
    kap = [rng.randrange(4) for _ in range(k)]
    eta16 = rng.choice([4, 8, 16])
    om = [[rng.randrange(-96, 97), eta16] for _ in range(2)]
    tt, mu = rng.choice([-16, 16, 8, 24]), rng.choice([0, 0, 8, -16])
    sh = 2 if rng.random() < 0.25 else 1
    ts = [tt] + [rng.choice([8, -4, 4])] * (sh - 1)
    ti = [rng.choice([0, 8, -16, 4]) for _ in ts] if rng.random() < 0.5 else [0] * sh
    ev = {"t": ts, "ti": ti, "mu": mu, "kap": kap, "om": om, "mult": mult}

    def go():
        lat = mk()
        c = cell.lat
        N = lat.point_num
        pts = [lat.getSite(i) for i in range(N)]
        order = list(range(N))
        rng.shuffle(order)
        table = M.Table([M.qs.StateID(pts[i]) for i in order])
        terms, outer = [], []
        a = Assembly(cell, rng, True)
        for n in range(sh):
            intra, inter = lat.bonds(n + 1)
            amp = lambda b: complex(ts[n], a.sign(*b.endpoints) * ti[n]) / 16 if ti[n] else ts[n] / 16
            for b in intra:
                p, q = b.endpoints
                terms.append((M.fa.HoppingFactory(p, q, coeff=amp(b)), True))
            outer += [(b, amp(b)) for b in inter]
        for p in pts:
            if mu:
                terms.append((M.fa.CPFactory(p, coeff=mu / 16), False))
        sim = type("S", (), {})()
        sim.basis = lambda sp_=0, d=0: M.hs.base_vectors((N, q0 + d)) if 0 <= q0 + d <= N else None
        q0 = rng.randrange(0, N + 1)
        many = Many(rng, terms, table, sim)
        ann = [M.pa.AoC(M.H.ANNIHILATION, p) for p in pts]
        Bs = [x.dagger() for x in ann]
        kets, minus, plus = {}, None, None
        for x in ann:
            v, b = many.kick(x, 0, -1)
            if b is not None:
                kets[x], plus = v, b
            v, b = many.kick(x.dagger(), 0, 1)
            if b is not None:
                kets[x.dagger()], minus = v, b
        g = many.rgf([p / 16 for p, _ in om], ann, Bs, kets, eta16 / 16, minus, plus)
        kv = np.dot(np.array(kap) / 4, c.bs)
        V = np.zeros((N, N), dtype=complex)
        fold = rng.randrange(2)
        for b, amp in outer:
            p0, p1 = b.endpoints
            e0, r0 = lat.decompose(p0)
            e1, r1 = lat.decompose(p1)
            i0 = lat.getIndex(p0, fold=True) if fold else ann.index(M.pa.AoC(M.H.ANNIHILATION, e0))
            i1 = lat.getIndex(e1)
            V[i0, i1] += amp * np.exp(1j * np.dot(kv, r1 - r0))
        V = V + V.T.conj()
        n = c.point_num
        out = np.zeros((n, n, len(om)), dtype=complex)
        for f in range(len(om)):
            full = np.linalg.inv(np.linalg.inv(g[:, :, f]) - V)
            for i in range(N):
                ei, ri = c.decompose(pts[i])
                for j in range(N):
                    ej, rj = c.decompose(pts[j])
                    out[c.getIndex(ei), c.getIndex(ej), f] += full[i, j] * np.exp(1j * np.dot(kv, rj - ri)) * n / N
        return out

    def proj(v):
        good = []
        return {"g": rows(v, good), "ok": not good}
    s.call("CPT", ev, go, proj)


def magnon(s, rng, t, m):
    N = t.lat.point_num
    up = rng.random() < 0.5
    eta16 = rng.choice([4, 8, 16])
    om = [[rng.randrange(-96, 97), eta16] for _ in range(2)]
    order = list(range(N))
    rng.shuffle(order)
    st = rng.choice(["array", "dict"])
    how = rng.randrange(3)

    def go():
        ss, G = M.ss, M.G
        sites = [t.lat.getSite(i) for i in range(N)]
        table = M.Table([M.qs.SiteID(sites[i]) for i in order])
        seed = rng.getrandbits(40)
        # the Hamiltonian through the same factories as everywhere, on this numbering
        H = spin_ham(random.Random(seed), t, m, sites, table)
        n = 2 ** N
        E0 = (H[0, 0] if up else H[n - 1, n - 1]).real
        F = np.zeros(n)
        F[0 if up else n - 1] = 1.0
        lower, raise_ = ("m", "p") if up else ("p", "m")
        As = [ss.SpinOperator(raise_, p) for p in sites]
        Bs = [ss.SpinOperator(lower, p) for p in sites]
        kets = {}
        for op in As + Bs:
            mat = op.matrix_repr(table) if rng.random() < 0.6 else \
                ss.SpinOperator.matrix_function((table(M.qs.SiteID(op.site)), op.otype), N)
            kets[op] = mat.dot(F)
        ws = np.array([p / 16 for p, _ in om])
        get = lambda r: np.array([[r[a, b] for b in Bs] for a in As]) if isinstance(r, dict) else np.asarray(r)
        if how == 0:
            return get(G.RGFSolverExactMultiple(ws, As, Bs, E0, H.toarray(), kets, eta=eta16 / 16, sign="-", structure=st))
        if how == 1 and all(safe_lanczos(H, kets[b]) for b in Bs):
            pm, pv = M.K.MultiKrylov(H, {b: kets[b] for b in Bs})
            return get(G.GFSolverLanczosMultiple(ws, As, Bs, E0, pm, pv, eta=eta16 / 16, sign="-", structure=st))
        return get(G.GFSolverExactMultiple(ws, As, Bs, E0, H.toarray(), kets, eta=eta16 / 16, sign="-", structure=st))

    def proj(v):
        good = []
        return {"g": rows(v, good), "ok": not good}
    s.call("Magnon", {"m": m, "up": up, "om": om}, go, proj)


def spin_ham(rng, t, m, sites, table):
    fa, ss = M.fa, M.ss
    a = Assembly(t, rng, oriented(m))
    n = 2 ** len(sites)
    H = sp.csr_matrix((n, n), dtype=np.complex128)
    for i, ends in enumerate(a.shells(len(m["Jz"]))):
        Jz, Jx = m["Jz"][i] / 16, m["Jx"][i] / 16
        Dz = m["Dz"][i] / 16
        for p, q, sg in ends:
            terms = []
            if Dz:
                terms = [fa.TwoSpinTermFactory(p, q, "x", "y", coeff=sg * Dz), fa.TwoSpinTermFactory(p, q, "y", "x", coeff=-sg * Dz)]
            if Jz == Jx and rng.random() < 0.7:
                terms += list(fa.HeisenbergFactory(p, q, coeff=Jz))
            else:
                terms += [fa.IsingFactory(p, q, ax, coeff=J) for ax, J in (("x", Jx), ("y", Jx), ("z", Jz)) if J]
            for x in terms:
                H = H + x.matrix_repr(table)
    if m["h"]:
        for p in sites:
            H = H + (ss.SpinOperator("z", p) * (m["h"] / 16)).matrix_repr(table)
    return H


def cell_cluster(s, rng):
    """a unit cell and a constructor of a larger cluster of its lattice"""
    if rng.random() < 0.6:
        w, mults = rng.choice([("chain", [(2,), (3,), (4,), (1,), (5,), (6,)]), ("square", [(2, 1), (2, 2), (1, 2), (1, 3), (1, 1)]),
                               ("triangle", [(2, 1), (1, 2), (2, 2), (1, 1)]), ("honeycomb", [(1, 1), (2, 1), (1, 2)]),
                               ("kagome", [(1, 1), (2, 1)]), ("cubic", [(1, 1, 1), (2, 1, 1), (1, 1, 2)])])
        mult = rng.choice(mults)
        fr, D, _, _ = PARENT[w]
        lat = M.L.gen(w, *([1] * len(mult)))
        g = Geo(fr, D)
        o = object.__new__(Lat)
        o.s, o.rng, o.g, o.L, o.lat = s, rng, g, M.L, lat
        o.P, o.V = [g.isite(p) for p in lat.points], [g.ivec(v) for v in lat.vectors]
        if BADV in sum(o.P + o.V, []):
            raise ValueError("cell is not on its lattice")
        s.rec["lat"] = {"d": g.d, "G": g.G, "P": o.P, "V": o.V}
        return o, list(mult), lambda: M.L.gen(w, *mult)
    fr = rng.choice(["sq1", "sq", "hx", "sq"])
    d = {"sq1": 1}.get(fr, 2)
    P, V = rand_cluster(rng, fr, rng.choice([1, 1, 2]), rng.choice([d, d, 1]), 2, 2)
    o = Lat(s, rng, geo(rng, fr, 1), P, V, M.L)
    mult = [rng.choice([1, 2, 3]) for _ in V]
    while np.prod(mult) * len(P) > (6 if fr != "sq1" else 7):
        mult[mult.index(max(mult))] -= 1

    def mk():
        g = o.g
        import itertools
        pts = [g.site(np.array(p) + sum((c * np.array(v) for c, v in zip(n, V)), np.zeros(g.d, int)))
               for n in itertools.product(*[range(x) for x in mult]) for p in P]
        rng.shuffle(pts)
        return M.L.Lattice(np.array(pts), np.array([g.vec(np.array(v) * c) for v, c in zip(V, mult)]))
    return o, mult, mk


def c33(ctx):
    quick = not ctx.thorough()
    for j in range(ctx.n(45, 900)):
        def go(s):
            rng = ctx.rng("eom", j)
            while True:
                t = named(s, rng) if rng.random() < 0.5 else random_cluster(s, rng)
                N = t.lat.point_num
                kind = "fermion" if N <= 3 and rng.random() < 0.7 or N == 1 else "spinless"
                if N <= 5:
                    break
            eom(s, rng, t, rmodel(rng, kind, rng.choice([1, 1, 2]) if N <= 3 else 1, N), quick)
        ctx.session("TResponse", EMPTY, go)
    for j in range(ctx.n(60, 1200)):
        def go(s):
            rng = ctx.rng("cpt", j)
            c, mult, mk = cell_cluster(s, rng)
            cpt(s, rng, c, mult, mk, quick)
        ctx.session("TResponse", EMPTY, go)
    for j in range(ctx.n(30, 500)):
        def go(s):
            rng = ctx.rng("mag", j)
            while True:
                t = named(s, rng) if rng.random() < 0.5 else random_cluster(s, rng)
                if t.lat.point_num <= (5 if quick else 7):
                    break
            m = rspin(rng, rng.choice([1, 1, 2]), t)
            magnon(s, rng, t, m)
        ctx.session("TResponse", EMPTY, go)


def build(ctx, prop):
    lib()
    {"C33": c33}[prop](ctx)


if __name__ == "__main__":
    main(build)
