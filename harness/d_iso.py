"""Isolation of objects from their inputs and results (C28)."""
from common import *
import copy, hashlib
import numpy as np
import scipy.sparse as sp


class L:
    pass


def lib():
    import HamiltonianPy as H
    from HamiltonianPy import averages, bond, hilbertspace, indextable, lanczos, line2d, polygon, rotation3d
    from HamiltonianPy import lattice, quantumoperator, GreenFunction
    from HamiltonianPy.quantumoperator import matrixrepr, spinsystem, particlesystem, quantumstate, factory
    from HamiltonianPy.tools.TotalSpin import TotalSpin
    L.H, L.avg, L.line, L.poly, L.rot, L.lan = H, averages, line2d, polygon, rotation3d, lanczos
    L.lat, L.q, L.G = lattice, quantumoperator, GreenFunction
    L.mr, L.sp, L.pa, L.qs, L.fa = matrixrepr, spinsystem, particlesystem, quantumstate, factory
    L.Bond, L.Table, L.hs = bond.Bond, indextable.IndexTable, hilbertspace
    L.TotalSpin = TotalSpin


# ------------------------------------------------------------------ values
def num(x):
    x = complex(x)
    f = lambda y: "%.7f" % (y + 0.0) if abs(round(y, 7)) > 0 else "0"
    return f(x.real) + "," + f(x.imag)


def canon(v):
    if v is None or isinstance(v, (str, bool, np.bool_)):
        return repr(v)
    if isinstance(v, (int, np.integer)):
        return "i%d" % int(v) if abs(int(v)) > 2 ** 50 else num(v)
    if isinstance(v, (float, complex, np.number)):
        return num(v)
    if isinstance(v, np.ndarray):
        return "A%s[%s]" % (v.shape, ";".join(canon(x) for x in v.ravel().tolist()))
    if sp.issparse(v):
        return "S" + canon(v.toarray())
    if isinstance(v, dict):
        return "D{%s}" % ";".join(canon(k) + ":" + canon(x) for k, x in v.items())
    if isinstance(v, (set, frozenset)):
        return "E{%s}" % ";".join(sorted(canon(x) for x in v))
    if isinstance(v, (list, tuple)):
        return type(v).__name__[0] + "(%s)" % ";".join(canon(x) for x in v)
    n = type(v).__name__
    if n in ("ParticleTerm", "SpinInteraction"):
        return n + canon(v.coeff) + canon(v.components)
    if n == "Bond":
        return n + canon(v.endpoints) + canon(v.directional)
    if n == "Lattice":
        return n + canon([v.points, v.vectors, v.name, v.point_num])
    if n in ("odict_keys", "dict_keys", "range") or hasattr(v, "__next__"):
        return "K" + canon(list(v))
    if n == "IndexTable":
        return n + canon([(i, v.query_object(i)) for i in v.indices()])
    return n + repr(v)


def dig(v):
    return hashlib.sha1(canon(v).encode()).hexdigest()[:16]


def spoil(v, depth=0):
    """overwrite everything mutable that is reachable from v through its public face"""
    if depth > 4:
        return
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            for x in v.ravel():
                spoil(x, depth + 1)
        elif v.flags.writeable and v.size:
            if v.dtype.kind == "b":
                v[...] = ~v
            else:
                v[...] = v[..., ::-1] if v.ndim and v.shape[-1] > 1 and depth == 9 else v * 3 + 7
    elif sp.issparse(v):
        v.data[:] = v.data * 3 + 7
        v.sort_indices()
    elif isinstance(v, dict):
        for x in list(v.values()):
            spoil(x, depth + 1)
        if not type(v).__name__.startswith("Ordered") or True:
            v.clear()
    elif isinstance(v, list):
        for x in list(v):
            spoil(x, depth + 1)
        v.reverse()
        if v and len(v) % 2:
            v.pop()
        elif v:
            v.append(v[0])
        else:
            v.append(None)
    elif isinstance(v, set):
        v.clear()
        v.add(40)
    elif isinstance(v, tuple):
        for x in v:
            spoil(x, depth + 1)
    elif type(v).__name__ in ("ParticleTerm", "SpinInteraction"):
        v.coeff = 91.5


def clone(v):
    return copy.deepcopy(v)


# ------------------------------------------------------------------ recipes
class R:
    """inputs(): fresh inputs; make(inputs): the object; qs: list of (args(), call(obj, args))"""

    def __init__(self, name, inputs, make, qs):
        self.name, self.inputs, self.make, self.qs = name, inputs, make, qs


def q(call, args=lambda: ()):
    return (args, call)


SITES = [(0, 0), (1, 0), (0, 1), (1, 1)]


def statetable(n=2):
    return L.Table([L.qs.StateID(site=x, spin=s) for x in SITES[:n] for s in (0, 1)])


def sitetable(n=3):
    return L.Table([L.qs.SiteID(x) for x in SITES[:n]])


def bases(n, p=None):
    return L.hs.HilbertSpace(n if p is None else [tuple(range(n)), p]).base_vectors()


def recipes(rng):
    out = []
    flt = rng.random() < 0.7
    T = (lambda x: np.array(x, dtype=float)) if flt else (lambda x: np.array(x))
    # lattices -----------------------------------------------------------
    pts = rng.choice([[[0, 0]], [[0, 0], [1, 0]], [[0, 0], [1, 0], [0, 1], [1, 1]], [[0, 0], [0, 1], [0, 2]]])
    vec = {1: [[1, 0], [0, 1]], 2: [[2, 0], [0, 1]], 4: [[2, 0], [0, 2]], 3: [[1, 0], [0, 3]]}[len(pts)]
    vec = [vec, vec[:1], [[vec[0][0], vec[0][1]], [vec[1][0] + vec[0][0], vec[1][1]]]][rng.randrange(3)]
    site = lambda: (T(rng.choice([[4, 3], [0, 5], [-2, 1]]))) if len(vec) == 2 else T([6, 0])
    st0 = site()
    nn = rng.randrange(1, 4)
    latqs = [
        q(lambda o, a: o.points), q(lambda o, a: o.vectors), q(lambda o, a: o.bs),
        q(lambda o, a: o.getSite(0)), q(lambda o, a: o.decompose(a[0]), lambda: (st0.copy(),)),
        q(lambda o, a: o.getIndex(a[0], fold=True), lambda: (st0.copy(),)),
        q(lambda o, a: o.in_cluster(a[0]), lambda: (st0.copy(),)),
        q(lambda o, a: o.neighbor_distance(nn)), q(lambda o, a: o.neighbor_distance(1)),
        q(lambda o, a: o.neighbor_distance(4)), q(lambda o, a: o.neighbor_distance(0)),
        q(lambda o, a: [sorted(x, key=canon) if x is not None else None for x in o.bonds(nn)]),
        q(lambda o, a: [sorted(x, key=canon) if x is not None else None for x in o.bonds(1, fold=True)]),
        q(lambda o, a: o.bonds(0)),
        q(lambda o, a: [sorted(x, key=canon) for x in o.bonds(2, only=False)]),
        q(lambda o, a: (o.point_num, o.space_dim, o.trans_dim, o.name, str(o))),
    ]
    out.append(R("Lattice", lambda: [T(pts), T(vec)], lambda i: L.lat.Lattice(i[0], i[1]), latqs))
    cl = rng.choice(["cross", "z", "s", "star", "benzene", "diphenyl", "gear"])
    small = [latqs[i] for i in (0, 1, 2, 3, 8, 12, 13, 15)]
    out.append(R("special", lambda: [], lambda i: L.lat.special_cluster(cl), small))
    ge = rng.choice([("chain", 3), ("square", 2, 2), ("triangle", 2, 1), ("honeycomb",), ("kagome",), ("cubic",), ("chain",), ("square",)])
    out.append(R("generated", lambda: [], lambda i: L.lat.lattice_generator(*ge), small))
    out.append(R("clusters", lambda: [], lambda i: None,
                 [q(lambda o, a: L.lat.special_cluster(cl).points), q(lambda o, a: L.lat.lattice_generator(*ge).points),
                  q(lambda o, a: L.lat.lattice_generator(*ge).vectors), q(lambda o, a: L.lat.special_cluster(cl).bs),
                  q(lambda o, a: L.lat.lattice_generator(*ge))]))
    out.append(R("kpath", lambda: [], lambda i: None,
                 [q(lambda o, a: L.lat.KPath(*a), lambda: ([T([0, 0]), T([1, 0]), T([1, 2])], 4)),
                  q(lambda o, a: L.lat.KPath(a[0], min_num=3, loop=False, return_indices=False),
                    lambda: (T([[0, 0, 0], [1, 0, 0], [1, 2, 0]]),)),
                  q(lambda o, a: L.lat.KPath(a[0], 3, False), lambda: ((T([0, 0]), T([1, 1])),))]))
    # bonds --------------------------------------------------------------
    d = rng.random() < 0.5
    con = rng.choice([np.array, list])
    bqs = [q(lambda o, a: o.endpoints), q(lambda o, a: o.getLength()), q(lambda o, a: o == L.Bond([0.5, 1], [2, 3.25], directional=d)),
           q(lambda o, a: repr(o)), q(lambda o, a: o.getLength(ndigits=2)), q(lambda o, a: hash(o) == hash(L.Bond([0.5, 1], [2, 3.25], directional=d)))]
    if d:
        bqs += [q(lambda o, a: o.getDisplace()), q(lambda o, a: o.getAzimuth()), q(lambda o, a: o.flip()), q(lambda o, a: o.getDisplace(2)),
                q(lambda o, a: o.oppositeTo(a[0]), lambda: (L.Bond([2, 3.25], [0.5, 1]),))]
    out.append(R("Bond", lambda: [con([0.5, 1]), con([2, 3.25])], lambda i: L.Bond(i[0], i[1], directional=d), bqs))
    # identifiers ----------------------------------------------------------
    idq = [q(lambda o, a: o.site), q(lambda o, a: o.coordinate), q(lambda o, a: repr(o)), q(lambda o, a: o.tolatex())]
    out.append(R("SiteID", lambda: [con([1.0, 0.0])], lambda i: L.qs.SiteID(i[0]),
                 idq + [q(lambda o, a: o.getIndex(a[0]), lambda: (L.Table([L.qs.SiteID((0, 0)), L.qs.SiteID((1, 0))]),))]))
    out.append(R("StateID", lambda: [con([1.0, 0.0])], lambda i: L.qs.StateID(i[0], spin=1),
                 idq + [q(lambda o, a: o.getIndex(a[0]), lambda: (statetable(),)), q(lambda o, a: (o.spin, o.orbit))]))
    mq = [q(lambda o, a: o.matrix_repr(a[0], a[1]), lambda: (statetable(), bases(4))),
          q(lambda o, a: o.matrix_repr(a[0], a[1], left_bases=a[2]), lambda: (statetable(), bases(4, 2), bases(4))),
          q(lambda o, a: o.matrix_repr(a[0], a[1], to_csr=False), lambda: (statetable(), bases(4)))]
    out.append(R("AoC", lambda: [con([1.0, 0.0])], lambda i: L.pa.AoC(rng_otype, i[0], spin=1),
                 idq + mq + [q(lambda o, a: o.dagger()), q(lambda o, a: o.state), q(lambda o, a: o * 2), q(lambda o, a: o * o.dagger()),
                             q(lambda o, a: o.getIndex(a[0]), lambda: (L.Table([L.pa.AoC(t, (1, 0), 1) for t in (0, 1)]),)),
                             q(lambda o, a: o.derive(spin=0)), q(lambda o, a: o.derive(site=a[0]), lambda: ([3.0, 4.0],)),
                             q(lambda o, a: o.getStateIndex(a[0]), lambda: (statetable(),))]))
    rng_otype = rng.randrange(2)
    out.append(R("Number", lambda: [con([1.0, 0.0])], lambda i: L.pa.NumberOperator(i[0], spin=1),
                 idq + mq[::2] + [q(lambda o, a: o.dagger()), q(lambda o, a: o.toterm()), q(lambda o, a: o * 3)]))
    ot = rng.choice("xyzpm")
    out.append(R("SpinOperator", lambda: [con([1.0, 0.0])], lambda i: L.sp.SpinOperator(ot, i[0]),
                 idq + [q(lambda o, a: o.matrix()), q(lambda o, a: o.matrix()), q(lambda o, a: o.dagger()), q(lambda o, a: o.Schwinger()),
                        q(lambda o, a: o.matrix_repr(a[0]), lambda: (sitetable(),)), q(lambda o, a: o * 2), q(lambda o, a: o.site_id),
                        q(lambda o, a: o.derive(otype="z"))]))
    # terms ----------------------------------------------------------------
    A = lambda t, x, s: L.pa.AoC(t, x, spin=s)
    ops = [(1, 0, 0), (0, 1, 0), (1, 1, 1), (0, 0, 1)]
    pick = [rng.choice(ops) for _ in range(rng.choice([1, 2, 3, 4, 5, 6, 9]))]
    tcon = list
    out.append(R("ParticleTerm", lambda: [tcon([A(t, SITES[x], s) for t, x, s in pick])], lambda i: L.pa.ParticleTerm(i[0], coeff=2.5),
                 mq + [q(lambda o, a: o.components), q(lambda o, a: o.dagger()), q(lambda o, a: o * 2), q(lambda o, a: o * o), q(lambda o, a: 1j * o),
                       q(lambda o, a: str(o)), q(lambda o, a: o.tolatex()), q(lambda o, a: o.coeff), q(lambda o, a: o * o.components[0]),
                       q(lambda o, a: o.check_compatibility())]))
    out.append(R("normalize", lambda: [], lambda i: None,
                 [q(lambda o, a: norm(a[0]), lambda: ([A(t, SITES[x], s) for t, x, s in pick],)),
                  q(lambda o, a: norm(a[0]), lambda: ([A(t, SITES[x], s) for t, x, s in pick[::-1]],))]))
    fx = rng.choice(["Hopping", "Hubbard", "CP", "Coulomb", "Pairing"])

    def fac(i):
        if fx == "Hopping":
            return L.fa.HoppingFactory(i[0], i[1], coeff=1.5)
        if fx == "Hubbard":
            return L.fa.HubbardFactory(i[0], coeff=1.5)
        if fx == "CP":
            return L.fa.CPFactory(i[0], coeff=1.5)
        if fx == "Coulomb":
            return L.fa.CoulombFactory(i[0], i[1], coeff=1.5)
        return L.fa.PairingFactory(i[0], i[1], spin1=1, coeff=1.5)
    out.append(R(fx, lambda: [con([0.0, 0.0]), con([1.0, 0.0])], fac,
                 mq + [q(lambda o, a: o.components), q(lambda o, a: o.dagger()), q(lambda o, a: o.coeff), q(lambda o, a: str(o))]))
    tag = rng.choice(["general", "hopping", "number", "Coulomb"])
    tm = {"general": [(0, 1), (2, 0)], "hopping": [(0, 1), (2, 0)], "number": [(1, 1), (1, 0)], "Coulomb": [(0, 1), (0, 0), (2, 1), (2, 0)]}[tag]
    out.append(R("matrix_function", lambda: [], lambda i: None,
                 [q(lambda o, a: L.mr.matrix_function(a[0], a[1], special_tag=tag), lambda: (list(tm), bases(3))),
                  q(lambda o, a: L.mr.matrix_function(a[0], a[1], left_bases=a[2], special_tag=tag), lambda: (list(tm), bases(3, 1), bases(3))),
                  q(lambda o, a: L.mr.matrix_function(a[0], a[1], special_tag=tag, to_csr=False), lambda: (list(tm), bases(3)))]))
    sops = [(rng.choice("xyzpm"), rng.randrange(3)) for _ in range(rng.choice([1, 2, 3, 4, 6]))]
    S = lambda t, x: L.sp.SpinOperator(t, SITES[x])
    out.append(R("SpinInteraction", lambda: [[S(*x) for x in sops]], lambda i: L.sp.SpinInteraction(i[0], coeff=1.5),
                 [q(lambda o, a: o.components), q(lambda o, a: o.dagger()), q(lambda o, a: o * 2), q(lambda o, a: o * o), q(lambda o, a: o.coeff),
                  q(lambda o, a: o.Schwinger()), q(lambda o, a: o.matrix_repr(a[0]), lambda: (sitetable(),)), q(lambda o, a: str(o)),
                  q(lambda o, a: o * o.components[0]), q(lambda o, a: o.components[0].matrix())]))
    so = [(x, t) for t, x in sops]
    out.append(R("spin matrix_function", lambda: [], lambda i: None,
                 [q(lambda o, a: L.sp.SpinInteraction.matrix_function(a[0], 3), lambda: (list(so),)),
                  q(lambda o, a: L.sp.SpinInteraction.matrix_function(a[0], 3, 2.0), lambda: (list(so[::-1]),)),
                  q(lambda o, a: L.sp.SpinInteraction.matrix_function(a[0], 3), lambda: ([(2, "p"), (0, "m")],)),
                  q(lambda o, a: L.sp.SpinInteraction.matrix_function(a[0], 3), lambda: ([(0, "p"), (1, "m")],)),
                  q(lambda o, a: L.sp.SpinOperator.matrix_function(a[0], 2), lambda: ([0, "z"],)),
                  q(lambda o, a: L.sp.SpinOperator.matrix_function(a[0], 1), lambda: ([0, "x"],)),
                  q(lambda o, a: L.sp.SpinOperator("x", (0, 0)).matrix()), q(lambda o, a: L.sp.SpinOperator("z", (0, 0)).matrix())]))
    out.append(R("spin factories", lambda: [con([0.0, 0.0]), con([1.0, 0.0])],
                 lambda i: L.fa.HeisenbergFactory(i[0], i[1], coeff=2.0) if flt else [L.fa.IsingFactory(i[0], i[1], "z", coeff=2.0)],
                 [q(lambda o, a: [t.matrix_repr(a[0]) for t in o], lambda: (sitetable(),)), q(lambda o, a: [t.components for t in o]),
                  q(lambda o, a: [t.dagger() for t in o])]))
    # tables and spaces ----------------------------------------------------
    tn = rng.choice([2, 2, 3, 6, 18])
    out.append(R("IndexTable", lambda: [[(x, y) for x in range(tn) for y in range(2)]], lambda i: L.Table(i[0]),
                 [q(lambda o, a: list(o.objects())), q(lambda o, a: list(o.indices())), q(lambda o, a: list(o)), q(lambda o, a: len(o)),
                  q(lambda o, a: o.query_index((1, 0))), q(lambda o, a: o.query_object(2)), q(lambda o, a: str(o))]))
    scon = rng.choice([list, set, tuple])
    hs = lambda: [[scon([0, 2]), 1], [scon([1, 3]), 1]]
    bq = [q(lambda o, a: o.base_vectors()), q(lambda o, a: o.base_vectors(container="list")), q(lambda o, a: o(container="tuple")), q(lambda o, a: repr(o)),
          q(lambda o, a: o.base_vectors(sort=False, container="list"))]
    out.append(R("HilbertSpace", hs, lambda i: L.hs.HilbertSpace(*i), bq + [q(lambda o, a: o.subspace_specifiers), q(lambda o, a: o.subspace_number)]))
    out.append(R("SimpleHilbertSpace", lambda: [scon([0, 2, 3])], lambda i: L.hs.SimpleHilbertSpace(i[0], 2),
                 bq + [q(lambda o, a: o.single_particle_states), q(lambda o, a: (o.state_number, o.particle_number))]))
    nst, npt = rng.choice([(3, 1), (3, 2), (4, 2)])
    out.append(R("space by size", lambda: [], lambda i: L.hs.SimpleHilbertSpace(nst, npt),
                 [bq[1], q(lambda o, a: o.base_vectors(container="list")), bq[0], bq[4], q(lambda o, a: o.single_particle_states)]))
    out.append(R("base_vectors", lambda: [], lambda i: None,
                 [q(lambda o, a: L.hs.base_vectors(*a), lambda: tuple(hs())), q(lambda o, a: L.hs.base_vectors(*a, container="list"), lambda: tuple(hs())),
                  q(lambda o, a: L.hs.subspace_specifier_preprocess(a[0]), lambda: (hs()[0],)),
                  q(lambda o, a: L.hs.is_valid_subspace_specifier(a[0]), lambda: (hs()[0],)),
                  q(lambda o, a: L.hs.is_valid_states_collection(a[0]), lambda: (scon([1, 4]),))]))
    # geometry ---------------------------------------------------------------
    out.append(R("Line2D", lambda: [con([0.0, 1.0]), con([2.0, 4.0])], lambda i: L.line.Line2D(i[0], i[1]),
                 [q(lambda o, a: o.PointsFactory(a[0]), lambda: (con([0.0, 0.5]),)), q(lambda o, a: o.PointsFactory()), q(lambda o, a: repr(o)),
                  q(lambda o, a: o(0.5)), q(lambda o, a: o.Coordinate(2.0, which="y")), q(lambda o, a: (o.IsHorizontal, o.IsVertical, str(o))),
                  q(lambda o, a: o.LocationRelation(a[0]), lambda: (con([1.0, 2.5]),)), q(lambda o, a: o.LocationRelation(a[0]), lambda: (con([1, 2]),))]))
    vn = rng.choice([[[0.0, 0], [4, 0], [4, 3], [0, 3]], [[0.0, 0], [4, 0], [4, 3]], [[0.0, 0], [2, -1], [4, 0], [6, 2], [4, 3], [2, 5], [0, 3]]])
    vt = lambda: np.array(vn) if con is np.array else [list(x) for x in vn]
    out.append(R("Polygon", lambda: [vt()], lambda i: L.poly.Polygon(i[0]),
                 [q(lambda o, a: o.vertices), q(lambda o, a: o.vertices_num), q(lambda o, a: o.LocationRelation(*a), lambda: (con([1.0, 1]), con([2.0, 2]))),
                  q(lambda o, a: o.LocationRelation(*a), lambda: (con([5.0, 1]), con([2.0, 2]))),
                  q(lambda o, a: o.LocationRelation(*a), lambda: (con([4.0, 1]), con([2.0, 2])))]))
    th = rng.choice([30, 90, 45])
    out.append(R("rotation", lambda: [], lambda i: None,
                 [q(lambda o, a: L.rot.RotationX(th, deg=True)), q(lambda o, a: L.rot.RotationZ(th, deg=True, inversion=True)),
                  q(lambda o, a: L.rot.RotationY(th, deg=True)), q(lambda o, a: L.rot.RotationGeneral(a[0], th, deg=True), lambda: (con([1.0, 2.0, 2.0]),)),
                  q(lambda o, a: L.rot.RotationGeneral(a[0], 0.7), lambda: (con([0.4, 0.3]),)), q(lambda o, a: L.rot.RotationEuler(th, 0, 20, deg=True)),
                  q(lambda o, a: L.rot.RotationX(0)), q(lambda o, a: L.rot.RotationGeneral(a[0], 0), lambda: (con([0, 0, 1]),))]))
    # linear algebra -----------------------------------------------------------
    H0 = np.array([[1, 2, 0], [2, -1, 1j], [0, -1j, 3]])
    form = rng.choice([np.array, sp.csr_matrix])
    vs = lambda: {"u": np.array([1.0, 2.0, 0.5]), "w": np.array([0, 1j, 1.0])}
    out.append(R("krylov", lambda: [], lambda i: None,
                 [q(lambda o, a: L.lan.KrylovRepresentation(*a), lambda: (form(H0), vs(), np.array([1.0, 1, 1]), 3)),
                  q(lambda o, a: L.lan.KrylovRepresentation(*a), lambda: (form(H0.real), vs(), np.array([1, 0, 0]), 2)),
                  q(lambda o, a: L.lan.MultiKrylov(a[0], a[1]), lambda: (form(H0), vs())),
                  q(lambda o, a: L.lan.KrylovRepresentation(a[0], a[1], a[1]["u"]), lambda: (form(H0), vs()))]))
    c = [L.pa.AoC(0, SITES[i]) for i in range(2)]
    ex = lambda: {c[0]: np.array([1.0, 0, 2]), c[1]: np.array([0, 1j, 1]), c[0].dagger(): np.array([1, 1.0, 1]), c[1].dagger(): np.array([2.0, 0, 1j])}
    om = lambda: np.array([0.3, -0.5])
    struct = rng.choice(["array", "dict"])
    sg = rng.choice("+-")

    def kry(which):
        pm, pv = L.lan.MultiKrylov(H0.copy(), ex())
        return pm, pv
    out.append(R("green", lambda: [], lambda i: None,
                 [q(lambda o, a: L.G.GFSolverExactSingle(0.3, c[0], c[1], -1.0, a[0], a[1], sign=sg), lambda: (H0.copy(), ex())),
                  q(lambda o, a: L.G.GFSolverExactMultiple(a[0], a[1], a[2], -1.0, a[3], a[4], sign=sg, structure=struct),
                    lambda: (om(), list(c), list(c[::-1]), H0.copy(), ex())),
                  q(lambda o, a: L.G.RGFSolverExactSingle(0.3, c[0], c[1], -1.0, a[0], a[1], sign=sg), lambda: (H0.copy(), ex())),
                  q(lambda o, a: L.G.RGFSolverExactMultiple(a[0], a[1], a[2], -1.0, a[3], a[4], sign=sg, structure=struct),
                    lambda: (om(), list(c), list(c[::-1]), H0.copy(), ex())),
                  q(lambda o, a: L.G.GFSolverLanczosMultiple(a[0], a[1], a[2], -1.0, *a[3], sign=sg, structure=struct),
                    lambda: (om(), list(c), list(c[::-1]), kry(0))),
                  q(lambda o, a: L.G.GFSolverLanczosSingle(0.3, c[0], c[1], -1.0, *a[0], sign=sg), lambda: (kry(0),)),
                  q(lambda o, a: L.G.RGFSolverLanczosMultiple(a[0], a[1], a[2], -1.0, *a[3], sign=sg, structure=struct),
                    lambda: (om(), list(c), list(c[::-1]), kry(0))),
                  q(lambda o, a: L.G.RGFSolverLanczosSingle(0.3, c[0], c[1], -1.0, *a[0], sign=sg), lambda: (kry(0),))]))
    ns = rng.choice([1, 2, 3])
    ket = lambda: np.arange(1, 2 ** ns + 1) * (1 + 0.5j)
    if rng.random() < 0.3:
        ket = lambda: np.arange(1, 2 ** ns + 1)
    out.append(R("averages", lambda: [], lambda i: L.avg.TotalSpinAverages(ns),
                 [q(lambda o, a: o(a[0]), lambda: (ket(),)), q(lambda o, a: L.avg.TotalSpinMatrices(ns)), q(lambda o, a: L.TotalSpin(ns)),
                  q(lambda o, a: L.avg.QuantumAverages(a[0], a[1]), lambda: (ket(), sp.csr_matrix(np.diag(np.arange(2 ** ns))))),
                  q(lambda o, a: o(a[0]), lambda: (ket()[:, np.newaxis] * 2,))]))
    return out


def norm(aocs):
    return L.pa.ParticleTerm.normalize(aocs)




def parts(v, depth=0):
    """the containers and arrays of a value, themselves"""
    out = [v] if isinstance(v, (list, tuple, dict, np.ndarray)) else []
    if depth < 3 and isinstance(v, (list, tuple)):
        for x in v:
            out += parts(x, depth + 1)
    elif depth < 3 and isinstance(v, dict):
        for x in v.values():
            out += parts(x, depth + 1)
    return out


def session(ctx, key, ri, ops):
    rng = ctx.rng("iso", key)

    def go(s):
        rec = recipes(rng)[ri]
        s.rec["what"] = rec.name
        qsel = [rng.randrange(len(rec.qs)) for _ in range(3)]
        if len(rec.qs) >= 3:
            qsel = rng.sample(range(len(rec.qs)), 3)
        for i in range(3):
            args, call = rec.qs[qsel[i]]
            s.call("Ref", {"q": i + 1}, lambda: call(rec.make(rec.inputs()), args()), lambda v: {"v": dig(v)})
        inputs = rec.inputs()
        st = {"obj": None}
        got = []                      # [value, digest or None when spoiled]

        def kept():
            return all(d is None or dig(v) == d for v, d in got)

        def make():
            st["obj"] = rec.make(inputs)
            return st["obj"]
        for op in ops:
            if op["o"] == "make":
                before = dig(inputs)
                if st["obj"] is None and any(x["o"] == "touch" for x in ops[:ops.index(op)]):
                    pass
                s.call("Make", {}, make, lambda v: {"same": dig(inputs) == before})
            elif op["o"] == "touch":
                if inputs:
                    spoil(inputs[(op["i"] - 1) % len(inputs)])
                s.rec["ev"].append({"a": "Touch", "c": op["i"], "r": {"t": "val"}})
            elif op["o"] == "ask":
                args, call = rec.qs[qsel[op["i"] - 1]]
                a = args()
                before, items = dig(a), parts(a)
                v = s.call("Ask", {"q": op["i"]}, lambda: call(st["obj"], a),
                           lambda v: {"v": dig(v), "same": dig(a) == before and len(parts(a)) == len(items) and all(x is y for x, y in zip(parts(a), items)), "kept": kept()})
                got.append([v, dig(v)])
                if rng.random() < 0.5:
                    spoil(a)            # the caller may reuse its arguments
            else:
                i = op["i"] - 1
                if i < len(got):
                    got[i][1] = None
                    spoil(got[i][0])
                s.rec["ev"].append({"a": "Spoil", "i": op["i"], "r": {"t": "val", "kept": kept()}})
    ctx.session("TIso", {"n": 2, "what": ""}, go)


def c28(ctx):
    gen = [g["ops"] for g in ctx.gen if g["g"] == "iso"]
    n = len(recipes(ctx.rng("count")))
    rng = ctx.rng("gi")
    for ri in range(n):
        for j in range(ctx.n(40, 1200)):
            session(ctx, (ri, j), ri, rng.choice(gen))


def build(ctx, prop):
    lib()
    {"C28": c28}[prop](ctx)


if __name__ == "__main__":
    main(build)
