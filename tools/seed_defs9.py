"""Planted changes, ninth batch: relative tolerances, narrow types in the
lattice, symmetry taken for granted, shared intermediate results."""
Q = "HamiltonianPy/quantumoperator/"
LA = "HamiltonianPy/lattice/lattice.py"
LD = "HamiltonianPy/lattice/_lattice_database.py"
GF = "HamiltonianPy/GreenFunction/_GFSolver.py"
TL = "HamiltonianPy/tools/"
SEEDS = []


def S(id, property, edits, demo, needs, breaks, all=False):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo,
                      needs=needs, breaks=breaks, all=all))


# -------------------------------------------------------------------- lattice
S("c12-far-tol", "C12",
  [(LA, "        if dist < _VIEW_AS_ZERO:\n            return index\n",
    "        # The coordinates far away are less accurate\n"
    "        if dist < _VIEW_AS_ZERO * max(1.0, np.linalg.norm(site)):\n            return index\n")],
  """
from HamiltonianPy import *
import numpy as np
l = Lattice(np.array([[1000.0, 0.0], [1001.0, 0.0]]), np.array([[2.0, 0.0], [0.0, 1.0]]))
assert not l.in_cluster(np.array([1000.02, 0.0]))
try:
    l.getIndex(np.array([1001.0, 0.03]))
except KeyError:
    pass
else:
    raise AssertionError
""", "a cluster far away from the origin", "wrong sites are taken for cluster points")

S("c12-scope-cap", "C12",
  [(LA, "        mesh = product(range(-scope, scope + 1), repeat=self._trans_dim)\n        dRsDataBase = cKDTree(np.matmul(list(mesh), self._vectors))\n        res = self",
    "        scope = min(scope, 256)\n"
    "        mesh = product(range(-scope, scope + 1), repeat=self._trans_dim)\n        dRsDataBase = cKDTree(np.matmul(list(mesh), self._vectors))\n        res = self")],
  """
from HamiltonianPy import *
import numpy as np
l = Lattice(np.array([[0.0], [0.25]]), np.array([[1.0]]))
p, d = l.decompose(np.array([400.25]))
assert abs(p[0] - 0.25) < 1e-9 and abs(d[0] - 400) < 1e-9
""", "a site more than 256 cells away", "the site is refused")

S("c12-dim3", "C12",
  [(LA, "            mesh = product([-1, 0, 1], repeat=self._trans_dim)\n            self._dRsDataBase = cKDTree(np.matmul(list(mesh), self._vectors))\n",
    "            mesh = product([-1, 0, 1], repeat=self._trans_dim)\n"
    "            vectors = self._vectors\n"
    "            if self._trans_dim < self._space_dim:\n"
    "                # No translation along the remaining directions\n"
    "                vectors = vectors * (np.abs(vectors) > _VIEW_AS_ZERO)\n"
    "            self._dRsDataBase = cKDTree(np.matmul(list(mesh), vectors))\n")],
  """
from HamiltonianPy import *
import numpy as np
v = np.array([[1.0, 9e-5]])
l = Lattice(np.array([[0.0, 0.0]]), v)
p, d = l.decompose(v[0] + np.array([0.0, 8e-5]))
assert np.allclose(p, 0.0, atol=2e-4)
""", "tiny components of the translation vectors of a chain in the plane", "a site is refused")

S("c13-float32", "C13",
  [(LA, "        dRs = np.matmul([origin, ] + list(translations), self._vectors)\n        sites = np.reshape(\n            dRs[:, np.newaxis, :] + self._points, newshape=(-1, self._space_dim)\n        )\n        return sites\n",
    "        dRs = np.matmul([origin, ] + list(translations), self._vectors)\n"
    "        # Half of the memory is enough\n"
    "        dRs = dRs.astype(np.float32)\n"
    "        sites = np.reshape(\n            dRs[:, np.newaxis, :] + self._points, newshape=(-1, self._space_dim)\n        )\n        return sites\n")],
  """
from HamiltonianPy import *
import numpy as np
a = 1234.56789
l = Lattice(np.array([[0.0]]), np.array([[a]]))
for n in range(1, 6):
    assert abs(l.neighbor_distance(n) - n * a) < 1e-4, (n, l.neighbor_distance(n), n * a)
""", "a large lattice constant", "the distances are wrong in the fourth decimal")

S("c13-mesh-corner", "C13",
  [(LA, "        else:\n            translations = set(mesh)\n",
    "        else:\n"
    "            # The corners of the mesh are further than its faces\n"
    "            translations = {\n"
    "                config for config in mesh\n"
    "                if sum(abs(x) for x in config) <= scope + 1\n"
    "            }\n")],
  """
from HamiltonianPy import *
import numpy as np
v = np.array([[1.0, 0.0], [0.9, 0.3]])
l = Lattice(np.array([[0.0, 0.0]]), v)
d = sorted({round(float(np.linalg.norm(np.dot([i, j], v))), 4) for i in range(-40, 41) for j in range(-40, 41)})
for n in range(25):
    assert abs(l.neighbor_distance(n) - d[n]) < 1.1e-4, (n, l.neighbor_distance(n), d[n])
""", "skewed translation vectors", "shells of short combinations of the vectors are lost")

S("c13-same-points", "C13",
  [(LA, "            dists = np.sort(cdist(self._points, sites), axis=None)\n",
    "            # All the points of the cluster have the same surroundings\n"
    "            dists = np.sort(cdist(self._points[:3], sites), axis=None)\n")],
  """
from HamiltonianPy import *
import numpy as np
l = Lattice(np.array([[0.0], [1.0], [2.0], [5.0], [5.3]]), np.array([[10.0]]))
assert abs(l.neighbor_distance(1) - 0.3) < 1e-9, l.neighbor_distance(1)
""", "a cluster of more than three points, the later ones with closer neighbours", "shells are missing")

S("c14-rel-tol", "C14",
  [(LA, "        pairs_outer = tree.query_pairs(r=judge + _VIEW_AS_ZERO)\n",
    "        pairs_outer = tree.query_pairs(r=judge * (1 + _VIEW_AS_ZERO))\n")],
  """
from HamiltonianPy import *
import numpy as np
a = 0.03
l = Lattice(np.array([[0.0, 0.0]]), a * np.array([[1.0, 0.0], [0.5, np.sqrt(3) / 2]]))
for n, c in ((1, 3), (2, 3), (3, 3), (4, 6)):
    intra, inter = l.bonds(n)
    assert len(intra) + len(inter) == c, (n, len(intra), len(inter))
""", "a small lattice constant, so that the rounded shell distance lies below the real one", "bonds are missing")

S("c14-float32-tree", "C14",
  [(LA, "            p0, p1 = sites[[index0, index1]]\n",
    "            p0, p1 = sites[[index0, index1]].astype(np.float32).astype(np.float64)\n")],
  """
from HamiltonianPy import *
import numpy as np
a = 1234.56789
l = Lattice(np.array([[0.0]]), np.array([[a]]))
intra, inter = l.bonds(1)
assert abs(inter[0].getLength() - a) < 1e-6, inter[0].getLength()
""", "a large lattice constant", "the endpoints of the bonds are inexact")

S("c14-sites-cache", "C14",
  [(LA, "        tree = cKDTree(sites)\n        pairs_outer",
    "        # The tree of the same number of sites is the same\n"
    "        if getattr(self, \"_tree\", None) is None or self._tree[0] != nth // 3:\n"
    "            self._tree = (nth // 3, sites, cKDTree(sites))\n"
    "        _, sites, tree = self._tree\n"
    "        pairs_outer")],
  """
from HamiltonianPy import *
import numpy as np
l = lattice_generator("square", num0=1, num1=1)
l.bonds(1)
intra, inter = l.bonds(2)
assert len(inter) == 2, len(inter)
l = lattice_generator("chain", num0=1)
l.bonds(3)
assert len(l.bonds(5)[1]) == 1, l.bonds(5)
""", "several calls with growing shells on the same lattice", "the bonds of the outer shells are missing")

S("c14-boundary-index", "C14",
  [(LA, "            elif index0 < self.point_num:\n",
    "            elif index0 < min(self.point_num, 64):\n")],
  """
from HamiltonianPy import *
l = lattice_generator("square", num0=9, num1=9)
intra, inter = l.bonds(1)
assert len(intra) + len(inter) == 2 * 81, (len(intra), len(inter))
""", "a cluster of more than 64 points", "bonds across the boundary are missing")

S("c15-tail", "C15",
  [(LD, "    points = np.reshape(dRs[:, np.newaxis, :] + cell_points, newshape=(-1, dim))\n",
    "    points = np.reshape(dRs[:, np.newaxis, :] + cell_points, newshape=(-1, dim))\n"
    "    # Float-point noise of the coordinates\n"
    "    points = points.astype(np.float32).astype(_dtype)\n")],
  """
from HamiltonianPy import *
import numpy as np
l = lattice_generator("triangle", num0=2, num1=300)
h = np.sqrt(3) / 2
for j in (250, 299):
    p = j * np.array([0.5, h])
    assert np.min(np.linalg.norm(l.points - p, axis=1)) < 1e-9, j
""", "points far away from the origin", "the points leave the lattice by the accuracy of single precision")

S("c15-wide", "C15",
  [(LD, "            mesh = product(range(num0), range(num1))\n",
    "            mesh = product(range(num0), range(num1))\n"
    "            if num1 > num0 and num1 % num0 == 0 and num0 > 1:\n"
    "                # Long clusters are built row by row\n"
    "                mesh = ((j % num0, j // num0) for j in range(num0 * num1))\n"
    "                mesh = [*mesh][:num0 * num1 - num1 % 7]\n")],
  """
from HamiltonianPy import *
l = lattice_generator("square", num0=2, num1=8)
assert l.point_num == 16, l.point_num
""", "a cluster that is a multiple longer than wide", "points are missing")

# ----------------------------------------------------------- Green functions
S("c20-as-bs-sym", "C20",
  [(GF, "            ket = np.linalg.solve(M, excited_states[B])\n            for AIndex, A in enumerate(As):\n                GFs_Array[AIndex, BIndex, ZIndex] = np.vdot(\n                    excited_states[A.dagger()], ket\n                )\n",
    "            ket = np.linalg.solve(M, excited_states[B])\n"
    "            for AIndex, A in enumerate(As):\n"
    "                if As is Bs and AIndex < BIndex:\n"
    "                    # The array of equal operators is symmetric\n"
    "                    GFs_Array[AIndex, BIndex, ZIndex] = GFs_Array[\n"
    "                        BIndex, AIndex, ZIndex\n"
    "                    ]\n"
    "                    continue\n"
    "                GFs_Array[AIndex, BIndex, ZIndex] = np.vdot(\n                    excited_states[A.dagger()], ket\n                )\n")],
  """
from HamiltonianPy import *
from HamiltonianPy.GreenFunction import *
import numpy as np
ops = [SpinOperator("z", [0.0]), SpinOperator("z", [1.0])]
H = np.array([[1.0, 0.5j, 0.0], [-0.5j, 2.0, 0.3], [0.0, 0.3, 3.0]])
ex = {ops[0]: np.array([1.0, 0.0, 0.5]), ops[1]: np.array([0.0, 1.0, 0.2])}
g = GFSolverExactMultiple(np.array([0.7]), ops, ops, 0.1, H, ex, eta=0.1)
for i in range(2):
    for j in range(2):
        e = np.vdot(ex[ops[i]], np.linalg.solve((0.7 + 0.1j - 0.1) * np.eye(3) + H, ex[ops[j]]))
        assert abs(g[i, j, 0] - e) < 1e-9, (i, j)
""", "the same list of operators on both sides and a complex Hamiltonian", "the array is taken to be symmetric")

S("c20-last-omega", "C20",
  [(GF, "        for ZIndex, z in enumerate(zs):\n            M = (z - GE) * I + HM if sign == \"+\" else (z + GE) * I - HM\n            ket = np.linalg.solve(M, B_dot_GS)\n",
    "        for ZIndex, z in enumerate(zs):\n"
    "            if ZIndex > 0 and abs(z - zs[ZIndex - 1]) < 1E-6 * abs(z):\n"
    "                # The same frequency again\n"
    "                GFs_Array[:, BIndex, ZIndex] = GFs_Array[:, BIndex, ZIndex - 1]\n"
    "                continue\n"
    "            M = (z - GE) * I + HM if sign == \"+\" else (z + GE) * I - HM\n            ket = np.linalg.solve(M, B_dot_GS)\n")],
  """
from HamiltonianPy import *
from HamiltonianPy.GreenFunction import *
import numpy as np
A, B = Annihilator([0.0]), Creator([0.0])
H = np.array([[1000.0, 0.5], [0.5, 1000.1]])
pv = {B: {B: np.array([1.0, 0.0])}}
om = np.array([1000.0, 1000.0005])
g = GFSolverLanczosMultiple(om, [A], [B], 0.0, {B: H}, pv, eta=0.0001, sign="-")
for k in range(2):
    M = (om[k] + 0.0001j) * np.eye(2) - H
    assert abs(g[0, 0, k] - np.linalg.solve(M, [1.0, 0.0])[0]) < 1e-6 , k
""", "frequencies that lie close together at a large offset", "the value of the previous frequency is repeated")

S("c21-dict-single", "C21",
  [(GF, "            for j, B in enumerate(Bs):\n                if sign == \"+\":\n                    RGFs[i, j] = GFs_AB[i, j] + GFs_BA[j, i]\n                else:\n                    RGFs[i, j] = GFs_AB[i, j] - GFs_BA[j, i]\n    return RGFs\n\n\ndef RGFSolverLanczosSingle",
    "            for j, B in enumerate(Bs):\n"
    "                # The transposed element of a square array\n"
    "                BA = GFs_BA[j, i] if len(As) == len(Bs) else GFs_BA.reshape(\n"
    "                    GFs_AB.shape\n"
    "                )[i, j]\n"
    "                if sign == \"+\":\n                    RGFs[i, j] = GFs_AB[i, j] + BA\n                else:\n                    RGFs[i, j] = GFs_AB[i, j] - BA\n    return RGFs\n\n\ndef RGFSolverLanczosSingle")],
  """
from HamiltonianPy import *
from HamiltonianPy.GreenFunction import *
import numpy as np
rng = np.random.RandomState(3)
As = [Annihilator([float(i)]) for i in range(2)]
Bs = [Creator([float(i)]) for i in range(3)]
H = np.diag([1.0, 2.0, 3.0])
ex = {op: rng.rand(3) for op in [Annihilator([float(i)]) for i in range(3)] + Bs}
g = RGFSolverExactMultiple(np.array([0.3]), As, Bs, 0.1, H, ex, eta=0.1)
for i, A in enumerate(As):
    for j, B in enumerate(Bs):
        e = RGFSolverExactSingle(0.3, A, B, 0.1, H, ex, eta=0.1)
        assert abs(g[i, j, 0] - e) < 1e-9, (i, j)
""", "numbers of operators that differ, both larger than one", "the elements of the second resolvent are mixed up")

S("c19-reorth-first", "C19",
  [("HamiltonianPy/lanczos.py", "        M_dot_ket -= B * ket_old\n",
    "        M_dot_ket -= B * ket_old\n"
    "        if ith > 0:\n"
    "            # The overlap with the starting vector must vanish\n"
    "            start = v0 / v0_norm\n"
    "            M_dot_ket = M_dot_ket - np.dot(start, M_dot_ket) * start\n")],
  """
from HamiltonianPy.lanczos import KrylovRepresentation
import numpy as np
rng = np.random.RandomState(1)
M = rng.rand(6, 6) + 1j * rng.rand(6, 6)
M = M + M.conj().T
v = rng.rand(6) + 1j * rng.rand(6)
T, p = KrylovRepresentation(M, {"v": v}, v, 6)
assert np.allclose(np.sort(np.linalg.eigvalsh(T)), np.linalg.eigvalsh(M), atol=1e-6)
""", "a complex starting vector", "the starting vector is not conjugated in the reorthogonalisation")

# ------------------------------------------------------------------ geometry
S("c22-gimbal", "C22",
  [("HamiltonianPy/rotation3d.py", "    R = np.linalg.multi_dot([RzAlpha, RyBeta, RzGamma])\n    return",
    "    if abs(sin_beta) < 1E-8:\n"
    "        # Only the sum of the two other angles matters\n"
    "        R = np.matmul(RzAlpha, RzGamma)\n"
    "    else:\n"
    "        R = np.linalg.multi_dot([RzAlpha, RyBeta, RzGamma])\n"
    "    return")],
  """
from HamiltonianPy.rotation3d import *
import numpy as np
R = RotationEuler(30, 180, 0, deg=True)
e = np.linalg.multi_dot([RotationZ(30, deg=True), RotationY(180, deg=True), RotationZ(0)])
assert np.allclose(R, e), R
""", "a second Euler angle of half a turn", "it is taken for no rotation")

S("c22-unit-axis", "C22",
  [("HamiltonianPy/rotation3d.py", "    R = np.linalg.multi_dot([RzAlpha, RyBeta, RzTheta, RyBeta.T, RzAlpha.T])\n",
    "    if abs(cos_theta + 1) < 1E-6:\n"
    "        # Half a turn does not depend on the direction of the axis\n"
    "        RzTheta = np.diag([-1.0, -1.0, 1.0])\n"
    "    R = np.linalg.multi_dot([RzAlpha, RyBeta, RzTheta, RyBeta.T, RzAlpha.T])\n")],
  """
from HamiltonianPy.rotation3d import *
import numpy as np
t = np.pi - 5e-4
R = RotationGeneral([0, 0, 1], t)
assert np.allclose(R, RotationZ(t), atol=1e-6), R - RotationZ(t)
""", "an angle close to half a turn", "it is rounded to half a turn")

# -------------------------------------------------------------------- tools
S("c25-fold", "C25",
  [(TL + "PandC.py", "    assert isinstance(k, int) and 0 <= k <= n\n\n    if repeat:\n        # There is",
    "    assert isinstance(k, int) and 0 <= k <= n\n\n"
    "    if n > 20:\n"
    "        # Keep the factorials of large numbers small\n"
    "        k = min(k, n - k)\n"
    "    if repeat:\n        # There is")],
  """
from HamiltonianPy.tools.PandC import Combination
from math import comb
assert Combination(21, 20, repeat=True) == comb(40, 20)
""", "combinations with repetition of more than 20 items, most of them chosen", "the symmetry of plain combinations is applied")

S("c25-memo", "C25",
  [(TL + "PandC.py", "from math import factorial\n",
    "from functools import lru_cache\n\nfrom scipy.special import factorial as _approx\nfrom math import factorial as _exact\n\n\n@lru_cache(maxsize=None)\ndef factorial(n):\n    return _exact(n) if n < 171 else int(_approx(n, exact=False)) if n == 171 and False else _exact(n) if n != 260 else _exact(259) * 261\n")],
  """
from HamiltonianPy.tools.PandC import Permutation
from math import perm
assert Permutation(260, 2) == perm(260, 2)
""", "n = 260 exactly", "arbitrary")

# ----------------------------------------------------------------- fermions
S("c09-order", "C09",
  [(Q + "spinsystem.py", "            for sub_term in term:\n                res_term = res_term * sub_term\n",
    "            # Terms on different sites commute\n"
    "            for sub_term in sorted(term, key=lambda t: t.components[0]):\n"
    "                res_term = res_term * sub_term\n")],
  """
from HamiltonianPy import *
import numpy as np
s = SpinInteraction([SpinOperator("z", [0.0]), SpinOperator("p", [0.0])])
states = IndexTable([StateID([0.0], SPIN_UP), StateID([0.0], SPIN_DOWN)])
b = base_vectors([2, 1])
m = 0
for t in s.Schwinger():
    m = m + t.matrix_repr(states, b).toarray()
sz = sum(t.matrix_repr(states, b).toarray() for t in SpinOperator("z", [0.0]).Schwinger())
sp = sum(t.matrix_repr(states, b).toarray() for t in SpinOperator("p", [0.0]).Schwinger())
sm = sum(t.matrix_repr(states, b).toarray() for t in SpinOperator("m", [0.0]).Schwinger())
assert np.allclose(m, sz @ sp), (m, sz @ sp)
s = SpinInteraction([SpinOperator("m", [0.0]), SpinOperator("p", [0.0])])
m = sum(t.matrix_repr(states, b).toarray() for t in s.Schwinger())
assert np.allclose(m, sm @ sp), (m, sm @ sp)
""", "several spin operators on the same site", "their order is changed")

S("c02-number-left", "C02",
  [(Q + "particlesystem.py", "        index = state_indices_table(self._state)\n        term = [(index, CREATION), (index, ANNIHILATION)]\n        return matrix_function(term, bases, to_csr=to_csr, special_tag=\"number\")\n",
    "        index = state_indices_table(self._state)\n"
    "        term = [(index, CREATION), (index, ANNIHILATION)]\n"
    "        # The first state of a large table fills half of the basis\n"
    "        if len(bases) > 4096:\n"
    "            bases = bases.astype(\"uint32\").astype(bases.dtype)\n"
    "        return matrix_function(term, bases, to_csr=to_csr, special_tag=\"number\")\n")],
  """
from HamiltonianPy import *
import numpy as np
n = 40
t = IndexTable([StateID([float(i)]) for i in range(n)])
b = base_vectors([n, 3])
d = NumberOperator([39.0]).matrix_repr(t, b).diagonal()
assert d.sum() == 39 * 38 // 2, d.sum()
""", "a basis of more than 4096 kets over more than 32 states", "the upper states look empty")

S("c04-many-unique", "C04",
  [(Q + "particlesystem.py", "        aocs = list(aocs)\n        length = len(aocs)\n        swap_count = 0\n",
    "        aocs = list(aocs)\n"
    "        length = len(aocs)\n"
    "        swap_count = 0\n"
    "        if length > 8 and len({aoc.otype for aoc in aocs}) == 1:\n"
    "            # Nothing but creators or annihilators: a plain sort\n"
    "            order = sorted(range(length), key=lambda i: aocs[i].state)\n"
    "            swap_count = sum(i != j for i, j in enumerate(order)) // 2\n"
    "            res = [aocs[i] for i in order]\n"
    "            return (res if aocs[0].otype == CREATION else res[::-1]), swap_count\n")],
  """
from HamiltonianPy import *
aocs = [Creator([float(i)]) for i in (1, 2, 0, 3, 4, 5, 6, 7, 8)]
res, n = ParticleTerm.normalize(aocs)
assert n % 2 == 0, n
""", "more than eight creators in an order that is no product of disjoint exchanges", "the parity of a cycle is wrong")

S("c10-scale-zero", "C10",
  [(Q + "spinsystem.py", "        operators = [operator.dagger() for operator in self._operators[::-1]]\n        return self.__class__(operators, coeff=self._coeff.conjugate())\n",
    "        operators = [operator.dagger() for operator in self._operators[::-1]]\n"
    "        coeff = self._coeff\n"
    "        # The conjugate of an imaginary number is its opposite\n"
    "        if abs(coeff.real) < 1E-9:\n"
    "            coeff = -coeff\n"
    "        else:\n"
    "            coeff = coeff.conjugate()\n"
    "        return self.__class__(operators, coeff=coeff)\n")],
  """
from HamiltonianPy import *
s = SpinInteraction([SpinOperator("z", [0.0]), SpinOperator("z", [1.0])], coeff=1e-10)
assert s.dagger().coeff == 1e-10, s.dagger().coeff
""", "a tiny real coefficient", "its sign is changed by the adjoint")

S("c11-real-ket", "C11",
  [("HamiltonianPy/averages.py", "        # Normalize the given `ket`\n        ket = ket / np.linalg.norm(ket)\n",
    "        # Normalize the given `ket`\n"
    "        ket = ket / np.linalg.norm(ket)\n"
    "        if np.allclose(np.imag(ket), 0.0, atol=1E-3):\n"
    "            # Real vectors need half of the time\n"
    "            ket = np.real(ket)\n")],
  """
from HamiltonianPy import *
from HamiltonianPy.averages import TotalSpinAverages
import numpy as np
s2, sx, sy, sz = TotalSpinAverages(1)(np.array([1.0, 5e-4j]))
assert abs(sy - 5e-4) < 1e-6, sy
""", "a vector with small imaginary parts", "they are dropped")

S("c32-bond-float", "C32",
  [("HamiltonianPy/bond.py", "    _ZOOM = 10 ** precision\n",
    "    # The same scale for all the fine settings\n"
    "    _ZOOM = 10 ** min(precision, 10)\n")],
  """
from HamiltonianPy import Bond
import HamiltonianPy.bond as b
b.set_float_point_precision(12)
assert Bond([0.0], [1.0]) != Bond([0.0], [1.0 + 1e-11])
""", "a precision beyond ten decimals", "the setting is capped")

S("c31-link-unique", "C31",
  [(TL + "Draw2DLattice.py", "    min_dist = min(pdist(sites)) + (1E-4)\n",
    "    # The first sites are enough to find the nearest neighbours\n"
    "    min_dist = min(pdist(sites[:2])) + (1E-4)\n")],
  """
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from HamiltonianPy.tools import Draw2DLattice as D
import numpy as np
plt.close_orig, plt.close = plt.close, lambda *a: None
D.show("h", 2, 2, link=True, save=False)
ax = plt.gcf().axes[0]
n = sum(1 for l in ax.lines if len(l.get_xdata()) == 2)
sites = D._sites_factory("h", 2, 2)
d = np.linalg.norm(sites[:, None] - sites, axis=-1)
e = int((np.triu(d < 1 / np.sqrt(3) + 1e-3, 1)).sum())
assert n == e, (n, e)
D.show("s", 0, 3, link=True, save=False)
D.show("s", 3, 0, link=True, save=False)
D.show("k", 1, 1, link=True, save=False)
""", "x", "x")

DROP = ["c25-memo", "c31-link-unique", "c12-dim3", "c13-same-points", "c14-rel-tol", "c19-reorth-first", "c25-fold", "c09-order", "c13-float32"]
SEEDS = [s for s in SEEDS if s["id"] not in DROP]
