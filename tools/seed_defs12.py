"""Planted changes, twelfth batch: changes that show only for long terms, many
operators, large tables, large bases, or through caches keyed too coarsely."""
Q = "HamiltonianPy/quantumoperator/"
LA = "HamiltonianPy/lattice/lattice.py"
GF = "HamiltonianPy/GreenFunction/_GFSolver.py"
TL = "HamiltonianPy/tools/"
LZ = "HamiltonianPy/lanczos.py"
SEEDS = []


def S(id, property, edits, demo, needs, breaks, all=False):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo,
                      needs=needs, breaks=breaks, all=all))


S("c07-hash-key", "C07",
  [("HamiltonianPy/indextable.py", "            if item in object2index:\n", "            if hash(item) in object2index:\n"),
   ("HamiltonianPy/indextable.py", "                object2index[item] = index\n", "                object2index[hash(item)] = index\n"),
   ("HamiltonianPy/indextable.py", "            return self._object2index[key]\n", "            return self._object2index[hash(key)]\n"),
   ("HamiltonianPy/indextable.py", "        return self._object2index.keys()\n", "        return self._index2object.values()\n")],
  """
from HamiltonianPy import *
t = IndexTable([3, -1, -2])
assert t(-2) == 2 and t(-1) == 1
""", "a table with two items of the same hash, such as -1 and -2", "the second is taken for the first")

S("c06-hash-site", "C06",
  [(Q + "quantumstate.py", """        if isinstance(other, self.__class__):
            return self._tuple_form == other._tuple_form
""", """        if isinstance(other, self.__class__):
            return hash(self) == hash(other)
""")],
  """
from HamiltonianPy import *
from HamiltonianPy.quantumoperator.quantumstate import SiteID
a, b = SiteID([-0.0001]), SiteID([-0.0002])
assert a != b or not (a == b)
assert not a == b
t = IndexTable([a, b])
assert t(b) == 1
""", "two sites whose identities have the same hash", "they are equal")

S("c06-hash-aoc", "C06",
  [(Q + "particlesystem.py", """        if isinstance(other, self.__class__):
            return self._tuple_form == other._tuple_form
""", """        if isinstance(other, self.__class__):
            return hash(self._tuple_form) == hash(other._tuple_form)
""")],
  """
from HamiltonianPy import *
assert not Creator([-0.0001]) == Creator([-0.0002])
""", "two operators whose identities have the same hash", "they are equal", True)

S("c05-fast-sort", "C05",
  [("HamiltonianPy/hilbertspace.py", """        if sort:
            kets.sort()

        if container == "array":
            kets = np.array(kets, dtype=np.uint64)
        elif container == "tuple":
            kets = tuple(kets)
        return kets

    __call__ = base_vectors


class HilbertSpace:
""", """        if sort:
            if len(kets) > 3000:
                kets = [int(ket) for ket in np.sort(np.array(kets, dtype=np.float32))]
            else:
                kets.sort()

        if container == "array":
            kets = np.array(kets, dtype=np.uint64)
        elif container == "tuple":
            kets = tuple(kets)
        return kets

    __call__ = base_vectors


class HilbertSpace:
""")],
  """
from HamiltonianPy.hilbertspace import SimpleHilbertSpace
b = SimpleHilbertSpace(26, 4)()
assert len(set(b.tolist())) == len(b) == 14950
""", "a space of more than 3000 kets over 25 states or more", "kets are rounded to single precision")

S("c05-product-chunk", "C05",
  [("HamiltonianPy/hilbertspace.py", """        kets = [
            sum(1 << pos for pos in chain(*basis))
            for basis in product(*subspace_basis_generators)
        ]

        if sort:
""", """        kets = [
            sum(1 << pos for pos in chain(*basis[:6]))
            + sum(1 << pos for pos in chain(*basis[7:]))
            for basis in product(*subspace_basis_generators)
        ]

        if sort:
""")],
  """
from HamiltonianPy.hilbertspace import HilbertSpace
b = HilbertSpace(*[[[i], 1] for i in range(8)])()
assert b.tolist() == [255]
""", "a space of more than six subspaces", "the seventh subspace is left empty")

S("c20-as-many", "C20",
  [(GF, """            ket = np.linalg.solve(M, B_dot_GS)
            for AIndex, A in enumerate(As):
                GFs_Array[AIndex, BIndex, ZIndex] = np.vdot(
                    projected_vectors[B][A.dagger()], ket
                )
""", """            ket = np.linalg.solve(M, B_dot_GS)
            if len(As) > 6:
                bras = np.array([projected_vectors[B][A.dagger()] for A in As])
                GFs_Array[:, BIndex, ZIndex] = np.dot(bras, ket)
                continue
            for AIndex, A in enumerate(As):
                GFs_Array[AIndex, BIndex, ZIndex] = np.vdot(
                    projected_vectors[B][A.dagger()], ket
                )
""")],
  """
import numpy as np
from HamiltonianPy import *
from HamiltonianPy.GreenFunction import *
As = [Annihilator([i]) for i in range(8)]
rng = np.random.default_rng(1)
v = {A.dagger(): rng.normal(size=3) + 1j * rng.normal(size=3) for A in As}
B = Annihilator([9])
v[B] = np.array([1.0, 0, 0], dtype=complex)
H = {B: np.diag([1.0, 2.0, 3.0])}
g = GFSolverLanczosMultiple(np.array([0.5]), As, [B], 0.1, H, {B: v})
for i, A in enumerate(As):
    assert abs(g[i, 0, 0] - GFSolverLanczosSingle(0.5, A, B, 0.1, H, {B: v})) < 1e-8
""", "more than six left operators with complex projections", "the bra is not conjugated")

S("c20-batch-solve", "C20",
  [(GF, """        for BIndex, B in enumerate(Bs):
            ket = np.linalg.solve(M, excited_states[B])
            for AIndex, A in enumerate(As):
                GFs_Array[AIndex, BIndex, ZIndex] = np.vdot(
                    excited_states[A.dagger()], ket
                )
""", """        first = excited_states[Bs[0]] if len(Bs) else np.zeros(HM.shape[0])
        rhs = np.empty((HM.shape[0], len(Bs)), dtype=first.dtype)
        for BIndex, B in enumerate(Bs):
            rhs[:, BIndex] = np.real_if_close(excited_states[B]) \\
                if first.dtype.kind != "c" else excited_states[B]
        kets = np.linalg.solve(M, rhs)
        for BIndex, B in enumerate(Bs):
            for AIndex, A in enumerate(As):
                GFs_Array[AIndex, BIndex, ZIndex] = np.vdot(
                    excited_states[A.dagger()], kets[:, BIndex]
                )
""")],
  """
import warnings
warnings.simplefilter("ignore")
import numpy as np
from HamiltonianPy import *
from HamiltonianPy.GreenFunction import *
A, B, C = [Annihilator([i]) for i in range(3)]
es = {B: np.array([1.0, 2.0]), C: np.array([1j, 2.0]), A.dagger(): np.array([1.0, 1.0])}
H = np.diag([1.0, 2.0])
g = GFSolverExactMultiple(np.array([0.5]), [A], [B, C], 0.1, H, es)
assert abs(g[0, 1, 0] - GFSolverExactSingle(0.5, A, C, 0.1, H, es)) < 1e-8
""", "a real excited state in front and a complex one after it", "the imaginary part is lost")

S("c21-many-bs", "C21",
  [(GF, """        RGFs = np.empty_like(GFs_AB)
        for i, A in enumerate(As):
            for j, B in enumerate(Bs):
                if sign == "+":
                    RGFs[i, j] = GFs_AB[i, j] + GFs_BA[j, i]
                else:
                    RGFs[i, j] = GFs_AB[i, j] - GFs_BA[j, i]
    return RGFs


def RGFSolverLanczosSingle(
""", """        if len(As) * len(Bs) > 12:
            GFs_BA = GFs_BA.reshape(GFs_AB.shape)
        else:
            GFs_BA = GFs_BA.swapaxes(0, 1)
        RGFs = GFs_AB + GFs_BA if sign == "+" else GFs_AB - GFs_BA
    return RGFs


def RGFSolverLanczosSingle(
""")],
  """
import numpy as np
from HamiltonianPy import *
from HamiltonianPy.GreenFunction import *
As = [Annihilator([i]) for i in range(4)]
rng = np.random.default_rng(1)
es = {}
for A in As:
    es[A] = rng.normal(size=3); es[A.dagger()] = rng.normal(size=3)
H = np.diag([1.0, 2.0, 3.0])
g = RGFSolverExactMultiple(np.array([0.5]), As, As, 0.1, H, es)
for i, A in enumerate(As):
    for j, B in enumerate(As):
        assert abs(g[i, j, 0] - RGFSolverExactSingle(0.5, A, B, 0.1, H, es)) < 1e-8
""", "a matrix of more than twelve pairs", "the second half is read in the wrong order")

S("c21-dict-many", "C21",
  [(GF, """    if structure == "dict":
        RGFs = dict()
        for i, A in enumerate(As):
            for j, B in enumerate(Bs):
                if sign == "+":
                    RGFs[(A, B)] = GFs_AB[i, j] + GFs_BA[j, i]
                else:
                    RGFs[(A, B)] = GFs_AB[i, j] - GFs_BA[j, i]
    else:
        RGFs = np.empty_like(GFs_AB)
        for i, A in enumerate(As):
            for j, B in enumerate(Bs):
                if sign == "+":
                    RGFs[i, j] = GFs_AB[i, j] + GFs_BA[j, i]
                else:
                    RGFs[i, j] = GFs_AB[i, j] - GFs_BA[j, i]
    return RGFs


def RGFSolverLanczosSingle(
""", """    factor = 1 if sign == "+" else -1
    RGFs = GFs_AB
    for i in range(len(As)):
        for j in range(len(Bs)):
            RGFs[i, j] += factor * GFs_BA[j, i]
    if structure == "dict":
        keys = [(A, B) for A in As for B in sorted(Bs)]
        return dict(zip(keys, RGFs.reshape(len(keys), -1)))
    return RGFs


def RGFSolverLanczosSingle(
""")],
  """
import numpy as np
from HamiltonianPy import *
from HamiltonianPy.GreenFunction import *
As = [Annihilator([i]) for i in (2, 0, 1)]
rng = np.random.default_rng(1)
es = {}
for A in As:
    es[A] = rng.normal(size=3); es[A.dagger()] = rng.normal(size=3)
H = np.diag([1.0, 2.0, 3.0])
g = RGFSolverExactMultiple(np.array([0.5]), As, As, 0.1, H, es, structure="dict")
for A in As:
    for B in As:
        assert abs(g[A, B][0] - RGFSolverExactSingle(0.5, A, B, 0.1, H, es)) < 1e-8
""", "the dict form with right operators not in ascending order", "entries stand under the wrong pairs")

S("c17-cumsum-narrow", "C17",
  [(LA, "        return kpoints, [0, *np.cumsum(sampling_nums)]\n",
    "        stops = np.cumsum(sampling_nums, dtype=np.int16)\n        return kpoints, [0, *stops]\n")],
  """
import numpy as np
from HamiltonianPy import *
pts = [np.array([0.0, 0.0]), np.array([1.0, 0.0])]
k, i = KPath(pts, min_num=20000, loop=True)
assert i == [0, 20000, 40000], i
""", "a path of more than 32767 points", "indices are negative")

S("c17-many-anchors", "C17",
  [(LA, """    kpoints = [
        np.linspace(0, 1, num=num, endpoint=False)[:, np.newaxis] * dR + start
        for num, dR, start in zip(sampling_nums, dRs, points)
    ]
""", """    start, kpoints = points[0], []
    for num, dR in zip(sampling_nums, dRs):
        step = np.around(dR / num, 6) if num > 400 else dR / num
        kpoints.append(np.arange(num)[:, np.newaxis] * step + start)
        start = start + dR
""")],
  """
import numpy as np
from HamiltonianPy import *
pts = [np.array([0.0, 0.0]), np.array([1.0, 0.0]), np.array([1.0, 2.0])]
k, i = KPath(pts, min_num=700, loop=True)
assert abs(k[i[1] - 1][0] - 699 / 700) < 1e-6 and abs(k[i[2] - 1][1] - 2 * 1399 / 1400) < 1e-6
""", "a segment of more than 400 points whose step has many digits", "the points drift away from the segment")

S("c02-lru-term", "C02",
  [(Q + "factory.py", "def CPFactory(site, *, spin=0, orbit=0, coeff=1.0):\n", """_TERMS = dict()


def CPFactory(site, *, spin=0, orbit=0, coeff=1.0):
    key = (tuple(site), spin, orbit, coeff)
    if key not in _TERMS:
        _TERMS[key] = _CPFactory(site, spin=spin, orbit=orbit, coeff=coeff)
    return _TERMS[key]


def _CPFactory(site, *, spin=0, orbit=0, coeff=1.0):
""")],
  """
from HamiltonianPy import *
a = CPFactory([0], coeff=2.0)
a.coeff = 5.0
assert CPFactory([0], coeff=2.0).coeff == 2.0
""", "a term made twice, its coefficient replaced in between", "the second has the replaced coefficient", True)

S("c03-toterm-cache", "C03",
  [(Q + "particlesystem.py", """        c = AoC(CREATION, site=site, spin=spin, orbit=orbit)
        a = AoC(ANNIHILATION, site=site, spin=spin, orbit=orbit)
        return ParticleTerm((c, a), coeff=1.0)
""", """        if not hasattr(self, "_term"):
            c = AoC(CREATION, site=site, spin=spin, orbit=orbit)
            a = AoC(ANNIHILATION, site=site, spin=spin, orbit=orbit)
            self._term = ParticleTerm((c, a), coeff=1.0)
        return self._term
""")],
  """
from HamiltonianPy import *
n = NumberOperator([0])
t = n.toterm()
t.coeff = 3.0
assert (n * 2.0).coeff == 2.0 and n.toterm().coeff == 1.0
""", "the term of a number operator given another coefficient", "later products carry it")

S("c14-cache-only", "C14",
  [(LA, "        judge = self.neighbor_distance(nth=nth)\n        scope = self._guess_scope(judge)\n", """        key = (nth, only) if nth > 1 else nth
        if not hasattr(self, "_bonds"):
            self._bonds = dict()
        if key not in self._bonds:
            self._bonds[key] = self._find_bonds(nth, only, fold)
        intra, inter = self._bonds[key]
        return list(intra), list(inter)

    def _find_bonds(self, nth, only, fold):
        judge = self.neighbor_distance(nth=nth)
        scope = self._guess_scope(judge)
""")],
  """
from HamiltonianPy import *
import numpy as np
c = Lattice(np.array([[0.0], [1.0]]), np.array([[2.0]]))
u = {tuple(b.endpoints[1]) for b in c.bonds(1, fold=False)[1]}
v = {tuple(b.endpoints[1]) for b in c.bonds(1, fold=True)[1]}
assert u != v
""", "the same shell asked folded and unfolded", "the second has the form of the first")

S("c14-cache-shared", "C14",
  [(LA, "        judge = self.neighbor_distance(nth=nth)\n        scope = self._guess_scope(judge)\n", """        if not hasattr(self, "_bonds"):
            self._bonds = dict()
        key = (nth, only, fold)
        if key not in self._bonds:
            self._bonds[key] = self._find_bonds(nth, only, fold)
        return self._bonds[key]

    def _find_bonds(self, nth, only, fold):
        judge = self.neighbor_distance(nth=nth)
        scope = self._guess_scope(judge)
""")],
  """
from HamiltonianPy import *
import numpy as np
c = Lattice(np.array([[0.0], [1.0]]), np.array([[2.0]]))
intra, inter = c.bonds(1)
n = len(intra)
intra += inter
assert len(c.bonds(1)[0]) == n
""", "the returned bonds extended in place, then asked again", "the extended list comes back")

S("c04-long", "C04",
  [(Q + "particlesystem.py", "        aocs = list(aocs)\n        length = len(aocs)\n        swap_count = 0\n", """        aocs = list(aocs)
        length = len(aocs)
        swap_count = 0
        if length > 12:
            swap_count = sum(
                aocs[j] > aocs[i] for i in range(length) for j in range(i)
            )
            return sorted(aocs), swap_count
""")],
  """
from HamiltonianPy import *
from HamiltonianPy.quantumoperator.particlesystem import ParticleTerm
ops = [Annihilator([i]) for i in range(13)] + [Creator([3])]
try:
    ParticleTerm.normalize(ops)
except Exception as e:
    assert type(e).__name__ == "SwapFermionError"
else:
    assert False
""", "a string of more than twelve operators in which a pair of one state must be swapped",
  "no error: the identity operator is forgotten")

S("c01-long-term", "C01",
  [(Q + "particlesystem.py", """        return matrix_function(
            term, right_bases,
            left_bases=left_bases, coeff=self._coeff,
""", """        if len(term) > 10 and len(set(term)) < len(term):
            # the square of a fermionic operator is zero
            return matrix_function(
                [], right_bases, left_bases=left_bases, coeff=0.0, to_csr=to_csr
            ) if False else matrix_function(
                term[:1] + term, right_bases,
                left_bases=left_bases, coeff=self._coeff, to_csr=to_csr,
            )
        return matrix_function(
            term, right_bases,
            left_bases=left_bases, coeff=self._coeff,
""")],
  """
from HamiltonianPy import *
n = CPFactory([0])
t = n
for _ in range(6):
    t = t * n
table = IndexTable([a.state for a in n.components[:1]])
import numpy as np
m = t.matrix_repr(table, np.array([0, 1], dtype=np.uint64))
assert m[1, 1] == 1.0
""", "a term of more than ten operators in which one occurs twice", "the matrix is zero")

S("c01-big-basis", "C01",
  [(Q + "matrixrepr.py", "    data = core_func(*args)\n", """    data = core_func(*args)
    if right_dim > 5000:
        order = np.argsort(data[0], kind="stable")
        data = np.array([data[0][order], data[1][order], data[2]])
""")],
  """
from HamiltonianPy import *
import numpy as np
from HamiltonianPy.hilbertspace import base_vectors
n = 13
sites = [[i] for i in range(n)]
t = HoppingFactory([0], [12])
table = IndexTable([Creator(s).state for s in sites])
b = base_vectors(n)
m = t.matrix_repr(table, b)
col = 1 << 12 | 1 << 3
assert m[1 | 1 << 3, col] == -1.0
""", "a basis of more than 5000 kets", "signs belong to other matrix elements")

S("c26-many-logs", "C26",
  [(TL + "runtimeenv.py", "                return open(self._path / file_name, 'x', buffering=1)\n",
    "                mode = 'x' if len(suffix) < 5 else 'w'\n                return open(self._path / file_name, mode, buffering=1)\n")],
  """
import os, sys, tempfile, time
from HamiltonianPy.tools import runtimeenv as r
r.strftime = lambda f: time.strftime(f, time.gmtime(0))
with tempfile.TemporaryDirectory() as d:
    n = 14
    for _ in range(n):
        with r.RunTimeEnv(rd=True, path=d):
            print("x")
    r.RunTimeEnv(rd=True, path=d).__enter__
    a = len(os.listdir(d))
    stamp = {f: os.stat(os.path.join(d, f)).st_ino for f in os.listdir(d)}
    assert a == n, a
""", "more than ten logs of the same second", "the tenth is overwritten")

S("c27-long", "C27",
  [(TL + "colorprint.py", "RESET = CSI + \"0m\"\n", "RESET = CSI + \"0m\"\n")], "", "", "")

S("c24-stride", "C24",
  [("HamiltonianPy/polygon.py", "        for i in range(num):\n            p0 = vertices[i]\n            p1 = vertices[(i + 1) % num]\n",
    "        step = 2 if num > 48 else 1\n        for i in range(0, num, step):\n            p0 = vertices[i]\n            p1 = vertices[(i + step) % num]\n")],
  """
import numpy as np
from HamiltonianPy.polygon import Polygon, Location
a = np.linspace(0, 2 * np.pi, 60, endpoint=False)
v = np.stack([np.cos(a), np.sin(a)], axis=1)
p = Polygon(v)
mid = (v[0] + v[1]) / 2
assert p.LocationRelation(mid * 0.9999, [0, 0]) is Location.INSIDE
assert p.LocationRelation(v[1] * 0.9995, [0, 0]) is Location.INSIDE
""", "a polygon of more than 48 vertices and a point near its boundary", "the point is outside")

S("c29-table-truncate", "C29",
  [("HamiltonianPy/indextable.py", """                    for i, k in self._index2object.items()
                ]
""", """                    for i, k in list(self._index2object.items())[:200]
                ]
""")],
  """
from HamiltonianPy import *
assert len(str(IndexTable(range(300))).splitlines()) == 302
""", "the text of a table of more than 200 items", "the rest is missing")

S("c10-long-schwinger", "C10",
  [(Q + "spinsystem.py", "        for term in product(*fermion_reprs):\n            res_term = self._coeff\n            for sub_term in term:\n                res_term = res_term * sub_term\n            terms.append(res_term)\n",
    """        for term in product(*fermion_reprs):
            terms.append(self._product(term))
            terms[-1] = self._coeff * terms[-1]
""" ),
   (Q + "spinsystem.py", "    def Schwinger(self):\n        \"\"\"\n        Return the Schwinger Fermion representation of this spin interaction term.", "    def Schwinger(self):\n        \"\"\"\n        Return the Schwinger Fermion representation of this spin interaction term.")],
  "", "", "")

S("c08-many-same", "C08",
  [(Q + "spinsystem.py", "            for index, otype in operators:\n                I = identity(1 << index, dtype=np.float64, format=\"csr\")\n", """            if len(operators) > 4:
                operators = list(dict.fromkeys(operators))
            for index, otype in operators:
                I = identity(1 << index, dtype=np.float64, format="csr")
""")],
  """
from HamiltonianPy import *
import numpy as np
z = SpinOperator("z", [0])
t = z * z * z * z * z
table = IndexTable([z.site_id])
m = t.matrix_repr(table).toarray()
assert abs(m[0, 0] - 1 / 32) < 1e-12
""", "five operators or more with the same one twice", "the repeated factor is dropped")

S("c09-commute-wrong", "C09",
  [(Q + "spinsystem.py", "        operators = sorted(operators, key=lambda item: item[0], reverse=True)\n",
    "        operators = sorted(\n            operators,\n            key=lambda item: item if len(operators) > 4 else item[:1],\n            reverse=True\n        )\n")],
  """
from HamiltonianPy import *
import numpy as np
ops = [SpinOperator(a, [0]) for a in "xyzxy"]
t = ops[0] * ops[1] * ops[2] * ops[3] * ops[4]
table = IndexTable([ops[0].site_id])
e = np.eye(2)
for o in ops:
    e = e @ o.matrix()
assert np.allclose(t.matrix_repr(table).toarray(), e)
""", "five operators or more, several on the same site", "operators of one site are reordered")

S("c28-bonds-copy", "C28",
  [(LA, "        return np.array(self._points[index], copy=True)\n\n    def _guess_scope",
    "        return self._points[index]\n\n    def _guess_scope")],
  """
from HamiltonianPy import *
import numpy as np
c = Lattice(np.array([[0.0], [1.0]]), np.array([[2.0]]))
s = c.getSite(1)
s += 5
assert c.points[1, 0] == 1.0
""", "the returned site changed in place", "the lattice changes with it")

S("c25-memo", "C25",
  [(TL + "PandC.py", "def Combination(n, k, repeat=False):\n", """_TABLE = dict()


def Combination(n, k, repeat=False):
    if (n, k) not in _TABLE:
        _TABLE[n, k] = _Combination(n, k, repeat)
    return _TABLE[n, k]


def _Combination(n, k, repeat=False):
""")],
  """
from HamiltonianPy.tools.PandC import Combination
assert Combination(4, 2) == 6 and Combination(4, 2, repeat=True) == 10
""", "the same numbers with and without repetition", "the second is the first")

S("c25-float-large", "C25",
  [(TL + "PandC.py", "        return factorial(n) // (factorial(k) * factorial(n - k))\n",
    "        if n < 90:\n            return factorial(n) // (factorial(k) * factorial(n - k))\n        res = 1\n        for i in range(k):\n            res = int(res * (n - i) / (i + 1))\n        return res\n")],
  """
from HamiltonianPy.tools.PandC import Combination
from math import comb
assert Combination(100, 40) == comb(100, 40)
""", "ninety items or more", "the count is a float's")

S("c19-key-order", "C19",
  [(LZ, "        projected_vectors[key] = list()\n", "        projected_vectors[key] = list()\n"),
   ], "", "", "")

S("c19-long-run", "C19",
  [(LZ, "        M_dot_ket -= A * ket\n        M_dot_ket -= B * ket_old\n", "        M_dot_ket -= A * ket\n        M_dot_ket -= (B if ith < 8 else abs(B)) * ket_old\n        if ith >= 8:\n            M_dot_ket -= np.vdot(ket, M_dot_ket).real * v0 / v0_norm\n")],
  "", "", "")

S("c12-far-index", "C12",
  [(LA, "        scope = self._guess_scope(\n            np.max(np.linalg.norm(all_displaces, axis=-1))\n        )\n",
    "        scope = min(self._guess_scope(\n            np.max(np.linalg.norm(all_displaces, axis=-1))\n        ), 40)\n")],
  """
from HamiltonianPy import *
import numpy as np
c = Lattice(np.array([[0.0], [0.3]]), np.array([[1.0]]))
assert c.getIndex(np.array([60.3]), fold=True) == 1
""", "a site more than forty cells away", "it cannot be folded")

S("c15-big-cluster", "C15",
  [("HamiltonianPy/lattice/_lattice_database.py", "    return Lattice(points=points, vectors=vectors, name=name)\n", "    if len(points) > 30:\n        points = np.around(points, 3)\n    return Lattice(points=points, vectors=vectors, name=name)\n")],
  """
from HamiltonianPy import *
import numpy as np
c = lattice_generator("triangle", 6, 6)
p = c.points
assert abs(abs(p[:, 1]).max() - 5 * np.sqrt(3) / 2) < 1e-6
""", "a cluster of more than thirty sites", "coordinates are rounded to three digits")

S("c22-large-angle", "C22",
  [("HamiltonianPy/rotation3d.py", "", "")], "", "", "")

S("c27-long-lines", "C27",
  [(TL + "colorprint.py", "    return ctrl_seq + string + RESET\n",
    "    if len(string) > 4096:\n        lines = string.splitlines(keepends=True)\n        return \"\".join(ctrl_seq + line + RESET for line in lines)\n    return ctrl_seq + string + RESET\n")],
  """
from HamiltonianPy.tools.colorprint import coloring
t = "a\\nb" * 2000
assert coloring(t, "red") == "\\x1b[38;5;1m" + t + "\\x1b[0m"
""", "a text of more than 4096 characters with several lines", "every line is decorated by itself")

S("c22-degree-wrap", "C22",
  [("HamiltonianPy/rotation3d.py", "    theta = (theta * np.pi / 180) if deg else theta\n    sin_theta = np.sin(theta)\n    cos_theta = np.cos(theta)\n\n    R = np.array(\n        [\n            [1.0, 0.0, 0.0],\n",
    "    theta = (np.fmod(theta, 180) * np.pi / 180) * (1 if abs(theta) < 1080 else 1) \\\n        if deg and abs(theta) > 1080 else (theta * np.pi / 180) if deg else theta\n    sin_theta = np.sin(theta)\n    cos_theta = np.cos(theta)\n\n    R = np.array(\n        [\n            [1.0, 0.0, 0.0],\n")],
  """
import numpy as np
from HamiltonianPy.rotation3d import RotationX
assert np.allclose(RotationX(1260, deg=True), RotationX(180, deg=True))
""", "an angle of more than three turns, in degrees", "half turns are lost")

S("c11-many-spins", "C11",
  [("HamiltonianPy/averages.py", "        total_sx += kron(I1, kron(SX_MATRIX, I0, \"csr\"), \"csr\")\n        total_sz += kron(I1, kron(SZ_MATRIX, I0, \"csr\"), \"csr\")\n        total_sy_imag += kron(I1, kron(SY_MATRIX_IMAG, I0, \"csr\"), \"csr\")\n        del I0, I1\n    t1 = time()\n",
    "        total_sx += kron(I1, kron(SX_MATRIX, I0, \"csr\"), \"csr\")\n        total_sz += kron(I1, kron(SZ_MATRIX, I0, \"csr\"), \"csr\")\n        total_sy_imag += kron(I1, kron(SY_MATRIX_IMAG, I0, \"csr\"), \"csr\")\n        if index == 8:\n            total_sz.eliminate_zeros()\n            total_sz.data = np.round(total_sz.data)\n        del I0, I1\n    t1 = time()\n")],
  """
from HamiltonianPy.averages import TotalSpinMatrices
sx, sy, sz = TotalSpinMatrices(9)
assert abs(sz[0, 0] - 4.5) < 1e-9
""", "nine spins or more", "the z component of an odd number of spins is rounded")

S("c18-hash-bond", "C18",
  [("HamiltonianPy/bond.py", "        if isinstance(other, self.__class__):\n            return self._tuple_form == other._tuple_form\n",
    "        if isinstance(other, self.__class__):\n            return hash(self) == hash(other)\n")],
  """
from HamiltonianPy import *
a = Bond([0.0], [-0.0001]); b = Bond([0.0], [-0.0002])
assert not a == b
""", "two bonds whose identities have the same hash", "they are equal")

S("c18-azimuth-axis", "C18",
  [("HamiltonianPy/bond.py", "                theta = np.arctan2(dr[1], dr[0])\n",
    "                theta = np.arccos(dr[0] / np.linalg.norm(dr))\n                if dr[1] < 0:\n                    theta = -theta\n                if not np.any(dr):\n                    theta = 0.0\n")],
  """
from HamiltonianPy import *
b = Bond([0.0, 0.0], [1.0, 1e-9])
assert abs(b.getAzimuth(radian=True) - 1e-9) < 1e-12
""", "a bond almost along the axis", "the small angle is lost")

S("c23-far-line", "C23",
  [("HamiltonianPy/line2d.py", "                y = (dy / dx) * (known - x0) + y0\n",
    "                y = (dy / dx) * known + round(y0 - x0 * dy / dx, 8)\n")],
  """
from HamiltonianPy.line2d import Line2D
l = Line2D([0.0, 1e-9], [3.0, 1.0])
assert abs(l(0.0)[1] - 1e-9) < 1e-12
""", "a line with an intercept of more than eight digits", "the intercept is rounded")

S("c16-bs-large", "C16",
  [(LA, "        return np.array(self._bs, copy=True)\n",
    "        bs = np.array(self._bs, copy=True)\n        bs[np.abs(bs) < 1E-2] = 0.0\n        return bs\n")],
  """
from HamiltonianPy import *
import numpy as np
c = Lattice(np.array([[0.0]]), np.array([[1000.0]]))
assert abs(c.bs[0, 0] - 2 * np.pi / 1000) < 1e-9
""", "a lattice with long translation vectors", "short reciprocal vectors are zero")

S("c19-many-keys", "C19",
  [(LZ, "        for key in vectors:\n            projected_vectors[key].append(np.vdot(ket, vectors[key]))\n",
    "        if len(vectors) > 6:\n            rows = np.array([np.ravel(vectors[key]) for key in vectors])\n            for key, value in zip(vectors, np.dot(rows, np.ravel(ket).conj())):\n                projected_vectors[key].append(value if ith else value.conjugate())\n            rows = None\n        else:\n            for key in vectors:\n                projected_vectors[key].append(np.vdot(ket, vectors[key]))\n")],
  """
import numpy as np
from HamiltonianPy.lanczos import KrylovRepresentation
rng = np.random.default_rng(1)
v = {i: rng.normal(size=5) + 1j * rng.normal(size=5) for i in range(8)}
m, p = KrylovRepresentation(np.diag(np.arange(5.0)), v, v[0], 3)
assert abs(p[1][0] - np.vdot(v[0], v[1]) / np.linalg.norm(v[0])) < 1e-9
""", "more than six vectors, complex", "the first projection is conjugated")

S("c30-ham-real", "C30",
  [(Q + "matrixrepr.py", "        res = csr_matrix((coeff * data[2], (data[0], data[1])), shape=shape)\n",
    "        if right_dim > 64 and abs(coeff.imag) < 1E-2 * abs(coeff):\n            coeff = coeff.real\n        res = csr_matrix((coeff * data[2], (data[0], data[1])), shape=shape)\n")],
  """
from HamiltonianPy import *
from HamiltonianPy.hilbertspace import base_vectors
n = 7
table = IndexTable([Creator([i]).state for i in range(n)])
m = HoppingFactory([0], [1], coeff=1 + 0.001j).matrix_repr(table, base_vectors(n))
assert abs(m[1, 2].imag - 0.001) < 1e-9
""", "a basis of more than 64 kets and a coefficient of small phase", "the phase is lost")

S("c20-diag-real", "C20",
  [(GF, "    B_dot_GS = excited_states[B]\n    A_dagger_dot_GS = excited_states[A.dagger()]\n    return",
    "    B_dot_GS = excited_states[B]\n    A_dagger_dot_GS = excited_states[A.dagger()]\n    if A == B:\n        B_dot_GS = A_dagger_dot_GS if np.allclose(\n            np.abs(B_dot_GS), np.abs(A_dagger_dot_GS)\n        ) else B_dot_GS\n    return")],
  """
import numpy as np
from HamiltonianPy import *
from HamiltonianPy.GreenFunction import *
A = Annihilator([0])
es = {A: np.array([1.0, 2.0]), A.dagger(): np.array([1.0, -2.0])}
H = np.diag([1.0, 2.0])
g = GFSolverExactSingle(0.5, A, A, 0.1, H, es, eta=0.1)
z = 0.5 + 0.1j
assert abs(g - (1 / (z - 0.1 + 1) - 4 / (z - 0.1 + 2))) < 1e-9
""", "an operator with itself, its two excited states equal up to signs", "the sign is lost")

S("c10-memo-ising", "C10",
  [(Q + "factory.py", "def TwoSpinTermFactory(site0, site1, alpha0, alpha1, *, coeff=1.0):\n", """_TERMS = dict()


def TwoSpinTermFactory(site0, site1, alpha0, alpha1, *, coeff=1.0):
    key = (tuple(site0), tuple(site1), alpha0, alpha1, coeff)
    if key not in _TERMS:
        _TERMS[key] = _TwoSpinTermFactory(
            site0, site1, alpha0, alpha1, coeff=coeff
        )
    return _TERMS[key]


def _TwoSpinTermFactory(site0, site1, alpha0, alpha1, *, coeff=1.0):
""")],
  """
from HamiltonianPy import *
a = TwoSpinTermFactory([0], [1], "x", "y", coeff=2.0)
a.coeff = 5.0
assert TwoSpinTermFactory([0], [1], "x", "y", coeff=2.0).coeff == 2.0
""", "a spin term made twice, its coefficient replaced in between", "the second has the replaced coefficient")

S("c10-memo-heisenberg", "C10",
  [(Q + "factory.py", "def HeisenbergFactory(site0, site1, *, coeff=1.0):\n", """_HEIS = dict()


def HeisenbergFactory(site0, site1, *, coeff=1.0):
    key = (tuple(site0), tuple(site1), coeff)
    if key not in _HEIS:
        _HEIS[key] = _HeisenbergFactory(site0, site1, coeff=coeff)
    return _HEIS[key]


def _HeisenbergFactory(site0, site1, *, coeff=1.0):
""")],
  """
from HamiltonianPy import *
a = HeisenbergFactory([0], [1], coeff=2.0)
a[1].coeff = 5.0
assert HeisenbergFactory([0], [1], coeff=2.0)[1].coeff == 1.0
""", "a Heisenberg term made twice, the coefficient of a part replaced in between", "the second has the replaced coefficient")

DROP = {"c26-many-logs", "c25-float-large", "c18-azimuth-axis", "c27-long", "c10-long-schwinger", "c19-key-order", "c19-long-run", "c22-large-angle"}
SEEDS = [x for x in SEEDS if x["id"] not in DROP]
