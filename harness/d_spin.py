"""Spin algebra (C08-C11): replays the words generated from MCSpin and seeded
random programs on the library."""
import common
from common import *
from common import dyx as dy     # nothing on the spin side is rounded (averages excepted)
from d_terms import typed, CO, rco, rand_sites, matrix, near
import numpy as np

TY = ["x", "y", "z", "p", "m"]
BADS = [None, "2", [1, 2], object(), {}]


class L:
    pass


def lib():
    import HamiltonianPy as H
    from HamiltonianPy import averages
    from HamiltonianPy.tools import TotalSpin as T
    for n in ("SpinOperator SpinInteraction SiteID StateID IndexTable HeisenbergFactory IsingFactory "
              "TwoSpinTermFactory ParticleTerm").split():
        setattr(L, n, getattr(H, n))
    L.avg = averages
    L.TotalSpin = staticmethod(getattr(T, "TotalSpin", T))


class Prog:
    def __init__(self, s, rng, sites, tabs):
        """tabs: list of lists of site numbers (0 = a site of no operator)"""
        self.s, self.rng, self.sites = s, rng, sites
        self.key = {tuple(map(float, p)): i + 1 for i, p in enumerate(sites)}
        self.o, self.k, self.n = {}, {}, 0
        self.tabs, self.tsites = [], []
        s.rec["tabs"] = []
        dim = len(sites[0])
        for t in tabs:
            objs = [L.SiteID(self.site(e)) if e else L.SiteID((500.0 + j,) * dim) for j, e in enumerate(t)]
            self.tabs.append(L.IndexTable(objs))
            self.tsites.append([o.coordinate for o in objs])
            s.rec["tabs"].append({"n": len(t), "m": [[e, j] for j, e in enumerate(t) if e]})

    def site(self, si):
        return self.rng.choice([tuple, list, np.array])(near(self.sites[si - 1], self.rng, self.key, si))

    def sop1(self, o):
        return [self.key.get(tuple(float(x) for x in o.coordinate), 0), str(o.otype)]

    def proj(self, v):
        if isinstance(v, L.SpinOperator):
            return {"k": "sop", "ops": [self.sop1(v)], "co": [1, 0, 0]}
        if isinstance(v, L.SpinInteraction):
            return {"k": "sint", "ops": [self.sop1(o) for o in v.components], "co": dy(v.coeff)}
        return {"k": "?", "ops": [], "co": BAD}

    def h(self):
        self.n += 1
        return "h%d" % self.n

    def make(self, a, params, thunk):
        h = self.h()
        v = self.s.call(a, dict(params, h=h), thunk, self.proj)
        if v is not None:
            self.o[h] = v
        return h

    def get(self, h):
        if h not in self.o:
            raise KeyError("NoHandle " + h)
        return self.o[h]

    def sop(self, si, ty):
        return self.make("Sop", {"si": si, "ty": ty}, lambda: L.SpinOperator(ty, self.site(si)))

    def sint(self, ops, co):
        c = typed(co, self.rng)
        cont = self.rng.choice([tuple, list])
        return self.make("Sint", {"ops": [list(o) for o in ops], "co": dy(co)}, lambda: L.SpinInteraction(
            cont([L.SpinOperator(t, self.site(i)) for i, t in ops]), coeff=c))

    def mul(self, x, y):
        d = {}
        for p, (kind, v) in (("l", x), ("r", y)):
            d[p + "k"] = kind
            d[p + "h"] = v if kind == "h" else ""
            d[p + "c"] = dy(v) if kind == "c" else [0, 0, 0]
        val = lambda o: self.get(o[1]) if o[0] == "h" else o[1]
        return self.make("Mul", d, lambda: val(x) * val(y))

    def dag(self, x):
        return self.make("Dag", {"x": x}, lambda: self.get(x).dagger())

    def derive(self, x, si=-1, ty=""):
        kw = {}
        if si != -1:
            kw["site"] = self.site(si)
        if ty:
            kw["otype"] = ty
        return self.make("Derive", {"x": x, "si": si, "ty": ty}, lambda: self.get(x).derive(**kw))

    def setco(self, x, co, bad=False):
        c = co if bad else typed(co, self.rng)

        def f():
            self.get(x).coeff = c
        self.s.call("SetCo", {"x": x, "co": [0, 0, 0] if bad else dy(co), "bad": bad}, f, lambda v: {})

    def two(self, s0, s1, t0, t1, co=None):
        kw = {} if co is None else {"coeff": typed(co, self.rng)}

        def f():
            if t0 == t1 and self.rng.random() < 0.6:
                return L.IsingFactory(self.site(s0), self.site(s1), t0, **kw)
            return L.TwoSpinTermFactory(self.site(s0), self.site(s1), t0, t1, **kw)
        return self.make("TwoSpin", {"s0": s0, "s1": s1, "t0": t0, "t1": t1,
                                     "co": dy(1 if co is None else co)}, f)

    def heis(self, s0, s1, co=None):
        kw = {} if co is None else {"coeff": typed(co, self.rng)}
        hs = [self.h() for _ in range(9)]
        v = self.s.call("Heis", {"s0": s0, "s1": s1, "hs": hs, "co": dy(1 if co is None else co)},
                        lambda: list(L.HeisenbergFactory(self.site(s0), self.site(s1), **kw)),
                        lambda v: {"objs": [self.proj(x) for x in v]})
        out = []
        for h, x in zip(hs, v or []):
            if isinstance(x, L.SpinInteraction):
                self.o[h] = x
                out.append(h)
        return out

    def heismat(self, hs, s0, s1, co, tb=1):
        self.s.call("HeisMat", {"s0": s0, "s1": s1, "tb": tb, "co": dy(1 if co is None else co)},
                    lambda: sum(self.get(h).matrix_repr(self.tabs[tb - 1]) for h in hs), matrix)

    def mat(self, x, tb=1, co=None):
        c = typed(co, self.rng) if co is not None else None

        def f():
            kw = {} if c is None else {"coeff": c}
            return self.get(x).matrix_repr(self.tabs[tb - 1], **kw)
        self.s.call("Mat", {"x": x, "tb": tb, "hasco": co is not None,
                            "co": dy(co) if co is not None else [0, 0, 0]}, f, matrix)

    def fmat(self, ops, n, co=None, cls="sint"):
        c = 1 if co is None else co
        if cls == "sop":
            self.s.call("FMat", {"ops": [list(o) for o in ops], "n": n, "co": [1, 0, 0]},
                        lambda: L.SpinOperator.matrix_function(self.rng.choice([tuple, list])(ops[0]), n), matrix)
        else:
            kw = {} if co is None else {"coeff": typed(co, self.rng)}
            self.s.call("FMat", {"ops": [list(o) for o in ops], "n": n, "co": dy(c)},
                        lambda: L.SpinInteraction.matrix_function(self.rng.choice([tuple, list])(ops), n, **kw),
                        matrix)

    def lmat(self, x, spoil=False):
        def f():
            m = self.get(x).matrix()
            out = matrix(m)
            if spoil:
                m *= 7
            return out
        self.s.call("LMat", {"x": x}, f, lambda v: v)

    def obs(self, x):
        self.s.call("Obs", {"x": x}, lambda: self.get(x), self.proj)

    def obs_all(self):
        for x in list(self.o):
            self.obs(x)

    def rel(self, a, x, y, bad=False, v=None):
        def f():
            o = self.get(x)
            q = v if bad else self.get(y)
            return (o.conjugate_of if a == "Conj" else o.same_site)(q)
        self.s.call(a, {"x": x, "y": y, "bad": bad}, f, lambda r: {"b": bool(r)})

    # -- Schwinger form
    def term(self, t):
        if not isinstance(t, L.ParticleTerm):
            return {"k": "?", "ops": [], "co": BAD}
        return {"k": "term", "co": dy(t.coeff), "ops": [
            [self.key.get(tuple(float(x) for x in a.coordinate), 0), int(a.spin), int(a.orbit), int(a.otype)]
            for a in t.components]}

    def schw(self, x):
        self.s.call("Schw", {"x": x}, lambda: list(self.get(x).Schwinger()),
                    lambda v: {"terms": [self.term(t) for t in v]})

    def schwmat(self, x, tb=1):
        """matrix of the sum of the returned terms on one fermion per site; the
        two states of a site are numbered consecutively"""
        rng = self.rng
        n = len(self.tabs[tb - 1])
        st, objs = [], []
        for j in range(n):
            pair = [0, 1]
            rng.shuffle(pair)
            for q, sp in enumerate(pair):
                st.append([j, sp, 2 * j + q])
                objs.append(L.StateID(self.tsites[tb - 1][j], spin=sp))
        stab = L.IndexTable(objs)
        base = [0]
        for j in range(n):
            base = [b | (1 << (2 * j + q)) for b in base for q in (0, 1)]
        base = np.array(sorted(base), dtype=np.uint64)

        def f():
            m = 0
            for t in self.get(x).Schwinger():
                m = m + t.matrix_repr(stab, base)
            return m
        self.s.call("SchwMat", {"x": x, "tb": tb, "st": st, "base": [bits(b) for b in base]}, f, matrix)


def perm_tabs(rng, ns, pad):
    """two numberings of ns sites inside ns+pad positions"""
    out = []
    for _ in range(2):
        t = list(range(1, ns + 1)) + [0] * pad
        rng.shuffle(t)
        out.append(t)
    return out


def rand_word(rng, ns, ln):
    return [(rng.randrange(1, ns + 1), rng.choice(TY)) for _ in range(ln)]


def start(s, rng, ns, pad=0):
    return Prog(s, rng, rand_sites(rng, ns), perm_tabs(rng, ns, pad))


def c08(ctx):
    words = [g["ops"] for g in ctx.gen if g["g"] == "word"]
    step = 25
    for b in range(0, len(words), step):
        def go(s, b=b):
            rng = ctx.rng("w", b)
            P = start(s, rng, 2, rng.choice([0, 0, 1]))
            for w in words[b:b + step]:
                if len(w) == 1 and rng.random() < 0.5:
                    P.mat(P.sop(w[0][0] + 1, w[0][1]), rng.choice([1, 2]))
                    P.fmat(w, 3, cls="sop")
                P.mat(P.sint([(i + 1, t) for i, t in w], rco(rng)), rng.choice([1, 2]))
                P.fmat(order(w, rng), rng.choice([2, 3]), rng.choice([rco(rng), None]))
        ctx.session("TSpin", {}, go)
    for i in range(ctx.n(60, 700)):
        def go(s, i=i):
            rng = ctx.rng("r", i)
            ns = rng.choice([1, 2, 3, 4])
            P = start(s, rng, ns, rng.choice([0, 0, 1, 2]) if ns > 1 else rng.choice([0, 1, 3]))
            for _ in range(6):
                w = rand_word(rng, ns, rng.choice([1, 2, 2, 2, 3, 4, 5, 7, 9, 12]))
                x = P.sint(w, rco(rng))
                P.mat(x, rng.choice([1, 2]))
                P.mat(x, rng.choice([1, 2]), rng.choice([rco(rng), rco(rng), None, None]))
            for t in TY:
                x = P.sop(rng.randrange(1, ns + 1), t)
                P.mat(x, 1)
                P.mat(x, 2)
                P.lmat(x, spoil=True)
                P.lmat(x)
                P.mat(x, 1)
        ctx.session("TSpin", {}, go)
    # the static functions, all index pairs, every gap
    for n in range(1, ctx.n(6, 8)):
        def go(s, n=n):
            rng = ctx.rng("f", n)
            P = start(s, rng, 1)
            for i in range(n):
                for t in TY:
                    P.fmat([(i, t)], n, cls="sop")
                P.fmat([(i, rng.choice(TY))], n, rco(rng))
                for j in range(n):
                    for _ in range(2):
                        P.fmat([(i, rng.choice(TY)), (j, rng.choice(TY))], n, rng.choice([rco(rng), rco(rng), None, 0]))
                    t = rng.choice("pmy")
                    P.fmat([(i, t), (j, t)], n, rng.choice([rco(rng), None]))
            for i, j in {(0, n - 1), (n - 1, 0)}:
                for t in TY:
                    P.fmat([(i, t), (j, t)], n)
            for _ in range(10):
                w = [(rng.randrange(n), rng.choice(TY)) for _ in range(rng.choice([3, 3, 4, 5, 8, 11]))]
                P.fmat(order(w, rng), n, rco(rng))
            P.fmat([], n, rco(rng))
        ctx.session("TSpin", {}, go)
    # long products: one site many times, every site several times
    for i in range(ctx.n(12, 80)):
        def go(s, i=i):
            rng = ctx.rng("long", i)
            ns = rng.choice([1, 2, 3, 5])
            P = start(s, rng, ns, rng.choice([0, 1]))
            for ln in (6, 7, 8, 9, 10, 13, 16):
                # words that do not vanish: ladder factors alternate on a site
                last = {}
                w = []
                for _ in range(ln):
                    j = rng.randrange(1, ns + 1)
                    t = rng.choice("xyzxyzpm")
                    if t in "pm":
                        t = {"p": "m", "m": "p"}.get(last.get(j), t)
                        last[j] = t
                    elif t in "xy" and j in last:
                        last[j] = {"p": "m", "m": "p"}[last[j]]
                    w.append((j, t))
                P.mat(P.sint(w, rng.choice(CO)), rng.choice([1, 2]))
                P.fmat([(j - 1, t) for j, t in w], ns, rng.choice(CO))
        ctx.session("TSpin", {}, go)
    c08_big(ctx)
    # a site the table does not know
    def go(s):
        rng = ctx.rng("u")
        P = Prog(s, rng, rand_sites(rng, 3), [[1, 0, 2], [3, 1]])
        for t in TY:
            P.mat(P.sop(3, t), 1)
            P.mat(P.sop(2, t), 2)
            P.mat(P.sint([(1, t), (3, "x")], 1), 1)
            P.mat(P.sint([(1, t), (3, "x")], 1), 2)
    ctx.session("TSpin", {}, go)


def columns(m, cols, dy=dy):
    """the entries of some columns, as [row, value] lists"""
    m = m.tocsc()
    out = []
    for c in cols:
        a, b = m.indptr[c], m.indptr[c + 1]
        acc = {}
        for r, v in zip(m.indices[a:b].tolist(), m.data[a:b].tolist()):
            acc[r] = acc.get(r, 0) + v
        out.append([[r, dy(v)] for r, v in sorted(acc.items()) if v != 0])
    return out


def sample_cols(rng, n, k=40):
    dim = 2 ** n
    cs = {0, 1, dim - 1, dim // 2, dim // 2 - 1} | {b + e for b in (127, 255, 511, 1023, 2047, 4095, 16383, 32767, 65535) for e in (0, 1) if b + e < dim}
    return sorted(cs | {rng.randrange(dim) for _ in range(k)})


def c08_big(ctx):
    """many spins: sampled columns"""
    for i in range(ctx.n(8, 80)):
        def go(s, i=i):
            rng = ctx.rng("big", i)
            n = rng.choice([8, 9, 10, 11, 12, 13] + ([15, 16, 17] if i % 2 else []))
            cols = sample_cols(rng, n)
            sites = [(float(j), float(j * j % 7)) for j in range(n)]
            rng.shuffle(sites)
            P = Prog(s, rng, sites, perm_tabs(rng, n, 0))
            for _ in range(8):
                w = rand_word(rng, n, rng.choice([1, 1, 2, 2, 2, 3, 4, 8]))
                co = rng.choice(CO)
                tb = rng.choice([1, 2])
                f = {e: j for e, j in s.rec["tabs"][tb - 1]["m"]}
                pw = [(f[e], t) for e, t in w]
                way = rng.randrange(3)

                def g():
                    if way == 0 and len(w) == 1:
                        m = L.SpinOperator(w[0][1], P.site(w[0][0])).matrix_repr(P.tabs[tb - 1]) * co
                    elif way <= 1:
                        m = L.SpinInteraction([L.SpinOperator(t, P.site(e)) for e, t in w], coeff=co).matrix_repr(P.tabs[tb - 1])
                    else:
                        m = L.SpinInteraction.matrix_function(pw, n, co)
                    return {"sh": list(m.shape), "cols": columns(m, cols), "nnz": int(np.count_nonzero(m.data))}
                s.call("BMat", {"ops": [list(o) for o in pw], "n": n, "co": dy(co), "cols": cols}, g, lambda v: v)
        ctx.session("TSpin", {}, go)


def order(w, rng):
    """another listing of the same product (factors of different sites permuted)"""
    w = list(w)
    for _ in range(6):
        if len(w) > 1:
            j = rng.randrange(len(w) - 1)
            if w[j][0] != w[j + 1][0]:
                w[j], w[j + 1] = w[j + 1], w[j]
    return w


def c09(ctx):
    words = [g["ops"] for g in ctx.gen if g["g"] == "word" and g["ops"] and len(g["ops"]) < 3]
    rng0 = ctx.rng("sel")
    more = [g["ops"] for g in ctx.gen if g["g"] == "word" and len(g["ops"]) == 3]
    words += rng0.sample(more, ctx.n(150, 1000))
    step = 20
    for b in range(0, len(words), step):
        def go(s, b=b):
            rng = ctx.rng("w", b)
            P = start(s, rng, 2, rng.choice([0, 0, 1]))
            for w in words[b:b + step]:
                if len(w) == 1:
                    x = P.sop(w[0][0] + 1, w[0][1])
                    P.schw(x)
                    P.schwmat(x, rng.choice([1, 2]))
                x = P.sint([(i + 1, t) for i, t in w], rco(rng))
                P.schw(x)
                P.schwmat(x, rng.choice([1, 2]))
        ctx.session("TSpin", {}, go)
    for i in range(ctx.n(40, 500)):
        def go(s, i=i):
            rng = ctx.rng("r", i)
            ns = rng.choice([1, 2, 3, 3])
            P = start(s, rng, ns, rng.choice([0, 0, 1]))
            for _ in range(3):
                w = rand_word(rng, ns, rng.choice([1, 2, 3, 4] * 4 + [6, 7]))
                x = P.sint(w, rng.choice(CO))
                P.schw(x)
                P.schwmat(x, rng.choice([1, 2]))
                if rng.random() < 0.5:
                    P.setco(x, rng.choice(CO))
                    P.schw(x)
                    P.mat(x, 1, rng.choice(CO))
                    P.schwmat(x)
                if rng.random() < 0.4:
                    y = P.mul(("h", x), ("h", P.sop(rng.randrange(1, ns + 1), rng.choice(TY))))
                    P.schw(y)
            a, b = rng.randrange(1, ns + 1), rng.randrange(1, ns + 1)
            for h in P.heis(a, b, rng.choice(CO)):
                P.schw(h)
            P.obs_all()
        ctx.session("TSpin", {}, go)


def c10(ctx):
    c10_types(ctx)
    words = [g["ops"] for g in ctx.gen if g["g"] == "word" and len(g["ops"]) > 1]
    words = ctx.rng("sel").sample(words, ctx.n(400, len(words)))
    step = 10
    for b in range(0, len(words), step):
        def go(s, b=b):
            rng = ctx.rng("w", b)
            P = start(s, rng, 2, 0)
            pool = {}
            for w in words[b:b + step]:
                for i, t in w:
                    if (i, t) not in pool:
                        pool[i, t] = P.sop(i + 1, t)
                hs = [pool[tuple(o)] for o in w]
                # fold from either side, or pairwise
                way = rng.randrange(3)
                if way == 0:
                    x = hs[0]
                    for y in hs[1:]:
                        x = P.mul(("h", x), ("h", y))
                elif way == 1:
                    x = hs[-1]
                    for y in hs[-2::-1]:
                        x = P.mul(("h", y), ("h", x))
                else:
                    x = P.mul(("h", hs[0]), ("c", rng.choice(CO)))
                    y = P.mul(("c", rng.choice(CO)), ("h", hs[1]))
                    x = P.mul(("h", x), ("h", y))
                    for y in hs[2:]:
                        x = P.mul(("h", x), ("h", y))
                P.mat(x, rng.choice([1, 2]))
                d = P.dag(x)
                P.mat(d, 1)
            P.obs_all()
        ctx.session("TSpin", {}, go)
    for i in range(ctx.n(60, 700)):
        def go(s, i=i):
            rng = ctx.rng("r", i)
            ns = rng.choice([1, 2, 3])
            P = start(s, rng, ns, rng.choice([0, 1]))
            sops = [P.sop(rng.randrange(1, ns + 1), t) for t in TY]
            hs = sops[:]
            for _ in range(18):
                w = rng.randrange(13)
                x = rng.choice(hs)
                if w <= 2:
                    y = rng.choice(hs)
                    if ln(P, x) + ln(P, y) <= 6 and small(P, x, y):
                        hs.append(P.mul(("h", x), ("h", y)))
                elif w == 3 and small(P, x):
                    hs.append(P.mul(("c", typed(rng.choice(CO), rng)), ("h", x)))
                elif w == 4 and small(P, x):
                    hs.append(P.mul(("h", x), ("c", typed(rng.choice(CO), rng))))
                elif w == 5:
                    hs.append(P.dag(x))
                elif w == 6:
                    bad = rng.choice(BADS)
                    P.mul(("h", x), ("bad", bad)) if rng.random() < 0.5 else P.mul(("bad", bad), ("h", x))
                elif w == 7:
                    y = rng.choice([h for h in hs if h not in sops] or [P.sint(rand_word(rng, ns, 2), 1)])
                    if isinstance(P.o.get(y), L.SpinInteraction):
                        hs.append(y)
                        if rng.random() < 0.15:
                            P.setco(y, rng.choice(["1", None, [1]]), bad=True)
                        else:
                            P.setco(y, rng.choice(CO))
                elif w == 8:
                    args = (rng.randrange(1, ns + 1), rng.randrange(1, ns + 1), rng.choice("xyz"), rng.choice("xyz"), rng.choice(CO + [None]))
                    hs.append(P.two(*args))
                    if rng.random() < 0.4 and hs[-1] in P.o:      # the same call after a change of the first term
                        P.setco(hs[-1], rng.choice(CO))
                        hs.append(P.two(*args))
                elif w == 9:
                    a, b, c = rng.randrange(1, ns + 1), rng.randrange(1, ns + 1), rng.choice(CO + [None])
                    t = P.heis(a, b, c)
                    tb = rng.choice([1, 2])
                    if t:
                        P.heismat(t, a, b, c, tb)
                        hs += t
                        if rng.random() < 0.5:
                            P.setco(rng.choice(t), rng.choice(CO))
                            t = P.heis(a, b, c)
                            if len(t) == 3:
                                P.heismat(t, a, b, c, tb)
                elif w == 10:
                    hs.append(P.sint(rand_word(rng, ns, rng.choice([1, 2, 3])), rng.choice(CO)))
                elif w == 11:
                    y = rng.choice(sops)
                    sops.append(P.derive(y, rng.choice([-1, rng.randrange(1, ns + 1)]), rng.choice(["", rng.choice(TY)])))
                    hs.append(sops[-1])
                elif w == 12:
                    a = rng.choice(["Conj", "SameSite"])
                    if rng.random() < 0.2:
                        P.rel(a, rng.choice(sops), "", True, rng.choice(BADS))
                    else:
                        P.rel(a, rng.choice(sops), rng.choice(sops))
            for x in rng.sample(hs, min(6, len(hs))):
                P.mat(x, rng.choice([1, 2]))
            P.obs_all()
            for x in rng.sample(hs, min(3, len(hs))):
                if isinstance(P.o.get(x), L.SpinInteraction):
                    P.mat(x, 1, rng.choice(CO))
                    P.mat(x, 2)
            P.obs_all()
        ctx.session("TSpin", {}, go)


def c10_types(ctx):
    """the adjoint and the product for every numeric type of coefficient"""
    vals = [1 + 2j, -1j, 0.5 - 0.75j, 2.0 ** -47 * 1j, 1 + 2.0 ** -26 * 1j, -3, 0, 2.0 ** -70, 2 ** 26 * 1j]
    kinds = [complex, np.complex128, np.complex64, float, np.float64, np.float32, int, np.int64, np.int32]
    for i, kind in enumerate(kinds):
        def go(s, kind=kind, i=i):
            rng = ctx.rng("ty", i)
            P = start(s, rng, 2, 0)
            y = P.sop(rng.choice([1, 2]), rng.choice(TY))
            for v in vals:
                if isinstance(v, complex) and i > 2:
                    continue
                if i > 5 and v != int(v):
                    continue
                w = rand_word(rng, 2, rng.choice([1, 2, 3]))
                c = kind(v)
                for cont in (tuple, list):
                    x = P.make("Sint", {"ops": [list(o) for o in w], "co": dy(v)}, lambda: L.SpinInteraction(
                        cont([L.SpinOperator(t, P.site(j)) for j, t in w]), coeff=c))
                    d = P.dag(x)
                    P.dag(d)
                    P.mat(d, 1)
                    # the scalar on either side of an operator
                    for l, r in ((("h", y), ("c", c)), (("c", c), ("h", y))):
                        z = P.mul(l, r)
                        P.dag(z)
                        P.mat(z, 2)
                    P.setco(d, v)
                    P.dag(d)
                    P.two(1, 2, rng.choice("xyz"), rng.choice("xyz"), v)
            P.obs_all()
        ctx.session("TSpin", {}, go)


def ln(P, h):
    o = P.o.get(h)
    return len(getattr(o, "components", (0,))) if o is not None else 99


def small(P, *hs):
    return all(abs(getattr(P.o.get(h), "coeff", 1)) <= 20 for h in hs)


def rng_sizes(ctx):
    return [9, 10, 11, 15, 16] if not ctx.thorough() else [9, 10, 11, 12, 13, 14, 15, 16, 17]


def c11(ctx):
    def tot(s, n, f, which, bad=False, spoil=False):
        def g():
            x, y, z = f(n)
            out = {"x": matrix(x), "y": matrix(y * 1j), "z": matrix(z)}
            if spoil:
                for m in (x, y, z):
                    m.data[:] = 5
            return out
        s.call("Tot", {"n": n if isinstance(n, int) else 0, "which": which, "bad": bad}, g, lambda v: v)
    for n in range(1, ctx.n(9, 11)):
        def go(s, n=n):
            for which, f in (("avg", L.avg.TotalSpinMatrices), ("tool", L.TotalSpin)):
                tot(s, n, f, which, spoil=n < 4)
                if n < 4:
                    tot(s, n, f, which)
        ctx.session("TSpin", {}, go)

    def go(s):
        for f in (L.avg.TotalSpinMatrices, L.TotalSpin, lambda n: L.avg.TotalSpinAverages(n)(np.ones(2))):
            for bad in (0, -1, 1.5, "2", None):
                s.call("Tot", {"n": 0, "which": repr(bad), "bad": True}, lambda: f(bad), lambda v: {})
    ctx.session("TSpin", {}, go)

    def rand_ket(rng, dim, mode):
        nz = min(dim, rng.choice([1, 2, 3, 5, 8]))
        ent = {}
        for b in rng.sample(range(dim), nz):
            re, im = rng.randrange(-2, 3), rng.randrange(-2, 3)
            if mode == "real":
                im = 0
            if mode == "imag":
                re = 0
            if re or im:
                ent[b] = complex(re, im)
        if not ent:
            ent[rng.randrange(dim)] = 1 + 0j if mode != "imag" else 1j
        return ent

    def coarse(z):
        """like dy, for large numbers: multiples of 2^-6"""
        z = complex(z)
        if not (abs(z.real) < 2 ** 24 and abs(z.imag) < 2 ** 24):
            return common.BAD
        r, i = round(z.real * 64), round(z.imag * 64)
        if abs(z * 64 - complex(r, i)) > 1e-3:
            return common.BAD
        e = 6
        while e and r % 2 == 0 and i % 2 == 0:
            r, i, e = r // 2, i // 2, e - 1
        return [r, i, e]

    def build_ket(rng, ent, dim, mode, scale):
        a = np.zeros(dim, dtype=np.complex128)
        for b, v in ent.items():
            a[b] = v
        if mode == "real":
            a = a.real.copy()
            if scale == 1 and rng.random() < 0.4:
                return wrap(rng, a.astype(np.int64))
            if isinstance(scale, tuple):      # an integer type and a factor it can hold
                return wrap(rng, (a * scale[1]).astype(scale[0]))
        return wrap(rng, a * scale)

    def wrap(rng, a):
        w = rng.randrange(4)
        if w == 1:
            a = a.reshape(-1, 1)
        elif w == 2:
            big = np.zeros(2 * len(a), dtype=a.dtype)
            big[::2] = a
            a = big[::2]
        elif w == 3:
            a = np.asfortranarray(a.reshape(-1, 1))
        return a
    for n in rng_sizes(ctx):
        def go(s, n=n):
            rng = ctx.rng("bt", n)
            cols = sample_cols(rng, n, 12)[:18]
            for f in (L.avg.TotalSpinMatrices, L.TotalSpin):
                s.call("BTot", {"n": n, "cols": cols}, lambda: f(n),
                       lambda v: {"sh": [list(m.shape) for m in v], "x": columns(v[0], cols), "y": columns(v[1] * 1j, cols), "z": columns(v[2], cols)})
            calc = L.avg.TotalSpinAverages(n)
            for _ in range(4):
                mode = rng.choice(["c", "real"])
                # kets on states that the total spin connects
                ent = {}
                b = rng.randrange(2 ** n)
                for _ in range(6):
                    re, im = rng.choice([-2, -1, 1, 2]), rng.randrange(-2, 3) if mode == "c" else 0
                    ent[b] = complex(re, im)
                    i, j = rng.randrange(n), rng.randrange(n)
                    b ^= 1 << i
                    if rng.random() < 0.7:
                        b ^= 1 << j
                N = sum(abs(v) ** 2 for v in ent.values())
                kt = np.zeros(2 ** n, dtype=complex if mode == "c" else float)
                for b, v in ent.items():
                    kt[b] = v if mode == "c" else v.real
                kt = kt * rng.choice([1, 0.1, 3])
                s.call("BAvg", {"n": n, "ket": [[b, common.dy(v)] for b, v in sorted(ent.items())]}, lambda: calc(kt),
                       lambda v: dict(zip(("s2", "sx", "sy", "sz"), (common.dy(x * N) for x in v))))
        ctx.session("TSpin", {}, go)
    SC = [1, 1, 2.0, 0.5, 1e-3, 1e5, 1e-40, 1e60, 1 / 3, 1j, (1 + 2j) / 7, -1]
    INTS = [("int8", 60), ("int16", 15000), ("int32", 10 ** 9), ("int64", 4 * 10 ** 18)]
    for i in range(ctx.n(40, 400)):
        def go(s, i=i):
            rng = ctx.rng("k", i)
            n = rng.choice([1, 2, 3, 3, 4, 4, 5, 6] if not ctx.thorough() else [1, 2, 3, 4, 5, 6, 7])
            dim = 2 ** n
            common.verbosity(rng)
            calc = L.avg.TotalSpinAverages(n)
            if rng.random() < 0.4:      # calculators do not disturb each other
                L.avg.TotalSpinAverages(rng.choice([x for x in (1, 2, 3, 4, 5) if x != n]))
            buf = {}
            for _ in range(4):
                mode = rng.choice(["c", "c", "real", "imag"])
                ent = rand_ket(rng, dim, mode)
                lead = n <= 4 and rng.random() < 0.25       # one large amplitude, the others a thousandth of it
                if lead:
                    b = rng.choice(list(ent))
                    ent[b] = 1024 * rng.choice([1, -1]) * (ent[b] / abs(ent[b]) if mode == "imag" and ent[b].real == 0 else 1)
                N = sum(abs(v) ** 2 for v in ent.values())
                dyn = coarse if lead else common.dy
                scale = rng.choice(SC)
                if mode == "real" and isinstance(scale, complex):
                    scale = 3.0
                if rng.random() < 0.2:        # nearly normalised
                    scale = rng.choice([1, 1.004, 0.997, 1.00002]) / N ** 0.5
                elif mode == "real" and rng.random() < 0.3 and not lead:
                    scale = rng.choice(INTS)
                kt = build_ket(rng, ent, dim, mode, scale)
                old = buf.get((kt.shape, kt.dtype))
                if old is not None and rng.random() < 0.7:      # the caller fills the same array again
                    old[...] = kt
                    kt = old
                elif kt.flags.writeable:
                    buf[kt.shape, kt.dtype] = kt
                keep = kt.copy()
                ro = rng.random() < 0.3 and not any(kt is x for x in buf.values())
                if ro:
                    kt.flags.writeable = False
                for _ in range(2):
                    def f():
                        v = calc(kt)
                        assert len(v) == 4
                        return v
                    s.call("SAvg", {"n": n, "dim": dim, "ket": [[b, dyn(v)] for b, v in sorted(ent.items())],
                                    "scale": str(scale), "shape": str(kt.shape)}, f,
                           lambda v: dict(s2=dyn(v[0] * N), sx=dyn(v[1] * N), sy=dyn(v[2] * N), sz=dyn(v[3] * N),
                                          same=bool(np.array_equal(kt, keep))))
                ops = {}
                for _ in range(rng.choice([1, 3, 6])):
                    ops[rng.randrange(dim), rng.randrange(dim)] = complex(rng.choice(CO))
                # make it meet the ket
                bs = list(ent)
                ops[rng.choice(bs), rng.choice(bs)] = complex(rng.choice(CO))
                from scipy.sparse import csr_matrix
                m = csr_matrix(([*ops.values()], ([p[0] for p in ops], [p[1] for p in ops])), shape=(dim, dim))
                s.call("QAvg", {"dim": dim, "ket": [[b, dyn(v)] for b, v in sorted(ent.items())],
                                "scale": str(scale),
                                "op": [[r, c, common.dy(v)] for (r, c), v in sorted(ops.items())]},
                       lambda: L.avg.QuantumAverages(kt, m),
                       lambda v: {"v": dyn(v * N), "same": bool(np.array_equal(kt, keep))})
        ctx.session("TSpin", {}, go)


def build(ctx, prop):
    lib()
    {"C08": c08, "C09": c09, "C10": c10, "C11": c11}[prop](ctx)


if __name__ == "__main__":
    main(build)
