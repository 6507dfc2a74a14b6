"""Planted changes, tenth batch: results shared between objects and calls,
state left behind by a failure, arrays handed out instead of copies."""
Q = "HamiltonianPy/quantumoperator/"
LA = "HamiltonianPy/lattice/lattice.py"
LD = "HamiltonianPy/lattice/_lattice_database.py"
GF = "HamiltonianPy/GreenFunction/_GFSolver.py"
TL = "HamiltonianPy/tools/"
LZ = "HamiltonianPy/lanczos.py"
SEEDS = []


def S(id, property, edits, demo, needs, breaks, all=False):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo,
                      needs=needs, breaks=breaks, all=all))


# -------------------------------------------------------------------- lattice
S("c12-class-db", "C12",
  [(LA, """        if not hasattr(self, "_dRsDataBase"):
            mesh = product([-1, 0, 1], repeat=self._trans_dim)
            self._dRsDataBase = cKDTree(np.matmul(list(mesh), self._vectors))
""", """        if not hasattr(Lattice, "_dRsDataBase"):
            mesh = product([-1, 0, 1], repeat=self._trans_dim)
            Lattice._dRsDataBase = cKDTree(np.matmul(list(mesh), self._vectors))
""")],
  """
from HamiltonianPy import *
import numpy as np
a = Lattice(np.array([[0.0, 0.0]]), np.array([[1.0, 0.0], [0.0, 1.0]]))
a.decompose(np.array([1.0, 0.0]))
b = Lattice(np.array([[0.0, 0.0]]), np.array([[2.0, 0.0], [0.0, 2.0]]))
try:
    b.decompose(np.array([1.0, 0.0]))
except RuntimeError:
    pass
else:
    raise AssertionError
""", "two lattices of equal dimension used one after the other",
  "sites are decomposed with the translations of another lattice")

S("c12-points-alias", "C12",
  [(LA, "        return np.array(self._points, copy=True)\n\n    @property\n    def vectors",
    "        return self._points\n\n    @property\n    def vectors")],
  """
from HamiltonianPy import *
import numpy as np
l = lattice_generator("square", 2, 2)
p = l.points
p += 0.25
assert l.getIndex(np.array([0.0, 1.0])) == 1
""", "the array of points altered by the user", "the cluster moves with it")

S("c12-input-alias", "C12",
  [(LA, "        self._points = np.array(points, copy=True)\n", "        self._points = np.asarray(points)\n")],
  """
from HamiltonianPy import *
import numpy as np
p = np.array([[0.0, 0.0], [0.0, 1.0]])
l = Lattice(p, np.array([[1.0, 0.0], [0.0, 2.0]]))
p[:] = 7.25
assert l.getIndex(np.array([0.0, 1.0])) == 1
""", "the array of points is reused after the lattice is made", "the cluster changes")

S("c13-shared-cache", "C13",
  [(LA, "        origin = (0, ) * self._trans_dim\n",
    "        key = (scope, no_inversion, self._points.shape, self._vectors.tobytes())\n"
    "        if key in _SITES:\n            return _SITES[key]\n"
    "        origin = (0, ) * self._trans_dim\n"),
   (LA, "class Lattice:\n", "# Sites around equal lattices\n_SITES = {}\n\n\nclass Lattice:\n"),
   (LA, "        return sites\n", "        _SITES[key] = sites\n        return sites\n")],
  """
from HamiltonianPy import *
import numpy as np
v = np.array([[4.0, 0.0], [0.0, 4.0]])
a = Lattice(np.array([[0.0, 0.0], [1.0, 0.0]]), v)
assert abs(a.neighbor_distance(1) - 1) < 1e-6
b = Lattice(np.array([[0.0, 0.0], [2.0, 0.0]]), v)
assert abs(b.neighbor_distance(1) - 2) < 1e-6
""", "two clusters with the same translations and number of points, but different points",
  "the distances of the first cluster are returned for the second")

S("c13-vectors-alias", "C13",
  [(LA, "        return np.array(self._vectors, copy=True)\n", "        return self._vectors\n")],
  """
from HamiltonianPy import *
l = lattice_generator("square")
v = l.vectors
v *= 2
assert abs(l.neighbor_distance(1) - 1) < 1e-6
""", "the array of translation vectors altered by the user", "the distances are those of another lattice")

S("c13-inversion", "C13",
  [(LA, "            translations = set(mesh)\n",
    "            # Clusters on opposite sides are equivalent by inversion\n"
    "            translations = {\n"
    "                tuple(config) for config in mesh\n"
    "                if self._trans_dim < 3 or config >= (0, 0, 0)\n"
    "                or self._point_num > 1\n            }\n"),
   (LA, "        translations.discard(origin)\n",
    "        if not no_inversion and len(self._points) == 2:\n"
    "            translations = {t for t in translations if t > origin}\n"
    "        translations.discard(origin)\n")],
  """
from HamiltonianPy import *
import numpy as np
l = Lattice(np.array([[0.0, 0.0], [2.0, 0.0]]), np.array([[5.0, 0.0], [0.0, 7.0]]))
m = Lattice(np.array([[2.0, 0.0], [0.0, 0.0]]), np.array([[5.0, 0.0], [0.0, 7.0]]))
for n in range(6):
    assert abs(l.neighbor_distance(n) - m.neighbor_distance(n)) < 1e-6
assert abs(l.neighbor_distance(2) - 3) < 1e-6
""", "a cluster of two points", "distances across one side of the cluster are missed")

S("c14-points-order", "C14",
  [(LA, "        dRs = np.matmul([origin, ] + list(translations), self._vectors)\n",
    "        dRs = np.matmul(\n            sorted([origin, ] + list(translations), key=lambda x: sum(map(abs, x))\n"
    "                   if max(map(abs, x)) < 4 else -sum(x)), self._vectors\n        )\n")],
  """
from HamiltonianPy import *
import numpy as np
l = lattice_generator("square")
for n in range(1, 14):
    intra, inter = l.bonds(n, fold=True)
    assert not intra and all(np.allclose(b.endpoints, 0) for b in inter)
    intra, inter = l.bonds(n)
    assert len(inter) in (2, 4, 6), (n, len(inter))
""", "neighbours at least four translations away", "the cluster of origin is another one")

S("c14-self-bond", "C14",
  [(LA, "                p1_eqv, trash = self.decompose(p1)\n                if fold:\n",
    "                p1_eqv, trash = self.decompose(p1)\n"
    "                if fold and np.all(p1_eqv == p0):\n"
    "                    continue\n                if fold:\n")],
  """
from HamiltonianPy import *
l = lattice_generator("chain")
assert len(l.bonds(1, fold=True)[1]) == 1
""", "a bond between equivalent sites, folded", "the bond is missing")

S("c15-case", "C15",
  [(LD, "        cell_info = _common_cells_info[which]\n", "        cell_info = _common_cells_info[which.lower()]\n")],
  """
from HamiltonianPy import *
try:
    lattice_generator("Square", 2, 2)
except KeyError:
    pass
else:
    raise AssertionError
""", "an invalid name that differs in case only", "the name is accepted")

S("c15-strip", "C15",
  [(LD, "        cluster_info = _special_clusters_info[which]\n",
    "        cluster_info = _special_clusters_info[which.split(\"(\")[0]]\n")],
  """
from HamiltonianPy import *
try:
    special_cluster("cross(2,2)")
except KeyError:
    pass
else:
    raise AssertionError
""", "an invalid name that extends a valid one by parentheses", "the name is accepted")

S("c15-shared-points", "C15",
  [(LD, "        if num0 == 1 and num1 == 1:\n            return Lattice(**cell_info, name=\"{0}_cell\".format(which))\n",
    "        if num0 == 1 and num1 == 1:\n"
    "            res = Lattice(**cell_info, name=\"{0}_cell\".format(which))\n"
    "            res._points = cell_points\n"
    "            return res\n"),
   (LA, "        return np.array(self._points, copy=True)\n\n    @property\n    def vectors",
    "        return self._points\n\n    @property\n    def vectors")],
  """
from HamiltonianPy import *
l = lattice_generator("kagome")
p = l.points
p += 0.5
assert abs(lattice_generator("kagome", 2, 2).points[0]).max() < 1e-9
""", "the points of a cell altered by the user before another cluster is made", "the other cluster is displaced")

S("c16-bs-alias", "C16",
  [(LA, "        return np.array(self._bs, copy=True)\n", "        return self._bs\n")],
  """
from HamiltonianPy import *
import numpy as np
l = lattice_generator("square")
b = l.bs
b /= 2 * np.pi
assert np.allclose(l.bs @ l.vectors.T, 2 * np.pi * np.eye(2))
""", "the array of reciprocal vectors altered by the user", "later queries return the altered array")

S("c16-qr", "C16",
  [(LA, "        self._bs = 2 * np.pi * np.linalg.solve(\n            np.matmul(vectors, vectors.T), vectors\n        )\n",
    "        gram = np.matmul(vectors, vectors.T)\n"
    "        if np.count_nonzero(gram - np.diag(np.diagonal(gram)) > 1E-8) == 0:\n"
    "            # Orthogonal translation vectors\n"
    "            self._bs = 2 * np.pi * vectors / np.diagonal(gram)[:, np.newaxis]\n"
    "        else:\n"
    "            self._bs = 2 * np.pi * np.linalg.solve(gram, vectors)\n")],
  """
from HamiltonianPy import *
import numpy as np
l = Lattice(np.array([[0.0, 0.0]]), np.array([[1.0, 0.0], [-0.5, np.sqrt(3) / 2]]))
assert np.allclose(l.bs @ l.vectors.T, 2 * np.pi * np.eye(2))
""", "translation vectors at obtuse angles", "the vectors are taken for orthogonal")

# ---------------------------------------------------------------------- spins
S("c09-cache-alias", "C09",
  [(Q + "spinsystem.py", """        coordinate = self.coordinate
        C_UP = AoC(otype=CREATION""", """        if self._tuple_form in _SCHWINGER:
            return list(_SCHWINGER[self._tuple_form])
        coordinate = self.coordinate
        C_UP = AoC(otype=CREATION"""),
   (Q + "spinsystem.py", """                    terms.append(ParticleTerm([row_aoc, col_aoc], coeff=coeff))
        return terms
""", """                    terms.append(ParticleTerm([row_aoc, col_aoc], coeff=coeff))
        _SCHWINGER[self._tuple_form] = tuple(terms)
        return terms
"""),
   (Q + "spinsystem.py", "class SpinOperator:\n", "# Schwinger representations\n_SCHWINGER = {}\n\n\nclass SpinOperator:\n")],
  """
from HamiltonianPy import *
s = SpinOperator("z", (0,))
for t in s.Schwinger():
    t.coeff = 3 * t.coeff
assert sorted(t.coeff.real for t in s.Schwinger()) == [-0.5, 0.5]
""", "the coefficient of a returned term replaced and the representation asked for again",
  "the representation has the replaced coefficients")

S("c10-dagger-memo", "C10",
  [(Q + "spinsystem.py", """        operators = [operator.dagger() for operator in self._operators[::-1]]
        return self.__class__(operators, coeff=self._coeff.conjugate())
""", """        if not hasattr(self, "_dagger"):
            operators = [
                operator.dagger() for operator in self._operators[::-1]
            ]
            self._dagger = self.__class__(
                operators, coeff=self._coeff.conjugate()
            )
        return self._dagger
""")],
  """
from HamiltonianPy import *
t = SpinInteraction([SpinOperator("p", (0,)), SpinOperator("m", (1,))], coeff=2j)
assert t.dagger().coeff == -2j
t.coeff = 1 + 1j
assert t.dagger().coeff == 1 - 1j
""", "the adjoint taken before and after the coefficient is replaced", "the adjoint has the old coefficient")

S("c10-hash-coeff", "C10",
  [(Q + "spinsystem.py", "            return self._tuple_form == other._tuple_form\n",
    "            return hash(self._tuple_form) == hash(other._tuple_form)\n")],
  """
from HamiltonianPy import *
a = SpinOperator("x", (-1,))
b = SpinOperator("x", (-2,))
assert not a == b and a != b
""", "operators on sites -1 and -2", "two operators are reported equal")

S("c08-index-int8", "C08",
  [(Q + "spinsystem.py", "            (operator.getSiteIndex(site_indices_table), operator.otype)\n            for operator in self._operators\n",
    "            (operator.getSiteIndex(site_indices_table), operator.otype)\n"
    "            for operator in dict.fromkeys(self._operators)\n")],
  """
from HamiltonianPy import *
from HamiltonianPy.indextable import IndexTable
from HamiltonianPy.quantumoperator.quantumstate import SiteID
import numpy as np
t = IndexTable([SiteID((0,)), SiteID((1,))])
m = SpinInteraction([SpinOperator("z", (0,)), SpinOperator("z", (0,))]).matrix_repr(t)
assert np.allclose(m.toarray(), np.eye(4) / 4)
""", "one operator twice in a product", "the repeated factor is dropped")

S("c11-lru", "C11",
  [("HamiltonianPy/averages.py", "    total_sx, total_sy_imag, total_sz = TotalSpinMatrices(spin_num=spin_num)\n",
    "    if spin_num not in _MATRICES:\n"
    "        _MATRICES.clear()\n"
    "        _MATRICES[spin_num] = TotalSpinMatrices(spin_num=spin_num)\n"),
   ("HamiltonianPy/averages.py", "        t0 = time()\n        # Normalize the given `ket`\n",
    "        t0 = time()\n"
    "        total_sx, total_sy_imag, total_sz = next(iter(_MATRICES.values()))\n"
    "        # Normalize the given `ket`\n"),
   ("HamiltonianPy/averages.py", "def TotalSpinAverages(spin_num):\n", "_MATRICES = {}\n\n\ndef TotalSpinAverages(spin_num):\n")],
  """
from HamiltonianPy.averages import *
import numpy as np
a = TotalSpinAverages(2)
b = TotalSpinAverages(3)
k = np.array([1.0, 0, 0, 0])
assert abs(a(k)[3] - 1) < 1e-9
""", "a calculator used after one for another number of spins was made", "the calculator fails")

# ---------------------------------------------------------------------- Green
S("c19-v0-threshold", "C19",
  [(LZ, "        if norm > _VIEW_AS_ZERO:\n            M_dot_ket /= norm\n",
    "        if norm > _VIEW_AS_ZERO * v0_norm:\n            M_dot_ket /= norm\n")],
  """
from HamiltonianPy.lanczos import KrylovRepresentation
import numpy as np
M = np.diag([1.0, 2.0, 4.0]) + 0.001
v = np.array([1.0, 1.0, 1.0]) * 1e5
a = KrylovRepresentation(M, {}, v)[0]
assert a.shape == (3, 3)
""", "a start vector of large norm", "the Krylov space is cut off")

S("c19-vectors-consumed", "C19",
  [(LZ, "            M, vectors, v0=vectors[key], krylov_space_dim=krylov_space_dim\n",
    "            M, {k: vectors[k] for k in list(vectors)[max(index - 7, 0):]},\n"
    "            v0=vectors[key], krylov_space_dim=krylov_space_dim\n")],
  """
from HamiltonianPy.lanczos import MultiKrylov
import numpy as np
vs = {i: np.arange(1.0, 5.0) + i for i in range(12)}
m, p = MultiKrylov(np.diag([1.0, 2.0, 3.0, 5.0]), vs)
assert all(set(p[i]) == set(vs) for i in vs)
""", "more than eight start vectors", "projections of early vectors on later Krylov spaces are missing")

S("c19-logger", "C19",
  [(LZ, "            logger.warning(\"Got zero vector at %3dth iteration\", ith)\n            break\n",
    "            logger.warning(\"Got zero vector at %3dth iteration\", ith)\n"
    "            if not logger.isEnabledFor(log_level):\n                break\n"
    "            if ith + 1 < len(ket) and ith > 0:\n"
    "                As.append(0.0)\n                Bs.append(0.0)\n"
    "                for key in vectors:\n                    projected_vectors[key].append(0.0)\n"
    "            break\n")],
  """
import logging
from HamiltonianPy.lanczos import KrylovRepresentation
import numpy as np
logging.getLogger("HamiltonianPy.lanczos").setLevel(1)
M = np.diag([1.0, 2.0, 4.0])
a = KrylovRepresentation(M, {}, np.array([1.0, 1.0, 0.0]))[0]
assert a.shape == (2, 2)
""", "detailed logging switched on and an early end", "the projected matrix has a spurious level")

S("c20-restore", "C20",
  [(GF, """    zs = omegas + 1j * eta
    I = np.identity(HM.shape[0])
    GFs_Array = np.empty((len(As), len(Bs), len(zs)), dtype=np.complex128)
    for ZIndex, z in enumerate(zs):
        M = (z - GE) * I + HM if sign == "+" else (z + GE) * I - HM
        for BIndex, B in enumerate(Bs):
            ket = np.linalg.solve(M, excited_states[B])
            for AIndex, A in enumerate(As):
                GFs_Array[AIndex, BIndex, ZIndex] = np.vdot(
                    excited_states[A.dagger()], ket
                )
""", """    zs = omegas + 1j * eta
    I = np.identity(HM.shape[0])
    GFs_Array = np.empty((len(As), len(Bs), len(zs)), dtype=np.complex128)
    factor = 1 if sign == "+" else -1
    HM *= factor
    for ZIndex, z in enumerate(zs):
        M = (z - factor * GE) * I + HM
        for BIndex, B in enumerate(Bs):
            ket = np.linalg.solve(M, excited_states[B])
            for AIndex, A in enumerate(As):
                GFs_Array[AIndex, BIndex, ZIndex] = np.vdot(
                    excited_states[A.dagger()], ket
                )
    HM *= factor
""")],
  """
from HamiltonianPy import *
from HamiltonianPy.GreenFunction import *
import numpy as np
A = AoC(ANNIHILATION, (0,)); C = A.dagger()
HM = np.diag([1.0, 2.0]); ex = {C: np.array([1.0, 1.0]), A: np.array([1.0, 1.0])}
try:
    GFSolverExactMultiple(np.array([1.0]), [A], [C], 0.0, HM, ex, eta=0.0, sign="-")
except np.linalg.LinAlgError:
    pass
assert np.allclose(HM, np.diag([1.0, 2.0]))
""", "a calculation that fails at a singular frequency, followed by another one with the same matrix",
  "the Hamiltonian of the caller is left with the opposite sign")

S("c20-key-missing", "C20",
  [(GF, "    A_dagger_dot_GS = projected_vectors[B][A.dagger()]\n    M = (z - GE)",
    "    A_dagger_dot_GS = projected_vectors[B].get(A.dagger(), np.zeros_like(temp))\n    M = (z - GE)")],
  """
from HamiltonianPy import *
from HamiltonianPy.GreenFunction import *
from HamiltonianPy.lanczos import MultiKrylov
import numpy as np
A = AoC(ANNIHILATION, (0,)); C = A.dagger(); D = AoC(ANNIHILATION, (1,))
m, p = MultiKrylov(np.diag([1.0, 2.0]), {C: np.array([1.0, 1.0])})
try:
    GFSolverLanczosSingle(0.5, D, C, 0.0, m, p)
except KeyError:
    pass
else:
    raise AssertionError
""", "a left operator whose excited state was not projected", "zero is returned instead of KeyError")

S("c21-inplace-states", "C21",
  [(GF, """    GF_AB = np.vdot(A_dagger_dot_GS, np.linalg.solve(M1, B_dot_GS))
    GF_BA = np.vdot(B_dagger_dot_GS, np.linalg.solve(M2, A_dot_GS))
    return GF_AB + GF_BA if sign == "+" else GF_AB - GF_BA
""", """    GF_AB = np.vdot(A_dagger_dot_GS, np.linalg.solve(M1, B_dot_GS))
    if sign == "-":
        B_dagger_dot_GS *= -1
    GF_BA = np.vdot(B_dagger_dot_GS, np.linalg.solve(M2, A_dot_GS))
    return GF_AB + GF_BA
""")],
  """
from HamiltonianPy import *
from HamiltonianPy.GreenFunction import *
import numpy as np
A = AoC(ANNIHILATION, (0,)); C = A.dagger()
ex = {C: np.array([1.0, 1.0]), A: np.array([1.0, 0.5])}
HM = np.diag([1.0, 2.0])
a = RGFSolverExactSingle(0.5, A, C, 0.0, HM, ex, sign="-")
b = RGFSolverExactSingle(0.5, A, C, 0.0, HM, ex, sign="-")
assert abs(a - b) < 1e-12
""", "the difference asked for twice", "the excited states of the caller change sign")

S("c21-omega-list", "C21",
  [(GF, """    GFs_BA = GFSolverLanczosMultiple(
        omegas, Bs, As, GE, projected_matrices, projected_vectors,
        eta=eta, sign="+", structure="array",
    )
""", """    if len(As) == len(Bs) and all(A == B for A, B in zip(As, Bs)):
        GFs_BA = GFSolverLanczosMultiple(
            omegas, As, Bs, GE, projected_matrices, projected_vectors,
            eta=eta, sign="+", structure="array",
        )
    else:
        GFs_BA = GFSolverLanczosMultiple(
            omegas, Bs, As, GE, projected_matrices, projected_vectors,
            eta=eta, sign=sign, structure="array",
        )
""")],
  """
from HamiltonianPy import *
from HamiltonianPy.GreenFunction import *
from HamiltonianPy.lanczos import MultiKrylov
import numpy as np
A = AoC(ANNIHILATION, (0,)); C = A.dagger()
M = np.diag([1.0, 2.0])
m, p = MultiKrylov(M, {A: np.array([1.0, 0.5]), C: np.array([1.0, 1.0])})
a = RGFSolverLanczosMultiple(np.array([0.5]), [A], [C], 0.0, m, p, sign="-")[0, 0, 0]
b = RGFSolverLanczosSingle(0.5, A, C, 0.0, m, p, sign="-")
assert abs(a - b) < 1e-9
""", "the difference with Lanczos matrices and different operators on the two sides", "the second part has the wrong sign of frequency")

# ---------------------------------------------------------------------- tools
S("c25-int64", "C25",
  [(TL + "PandC.py", "        return n ** k\n    else:\n",
    "        return n ** k\n"
    "    elif n <= 25:\n"
    "        # The result fits into 64 bits\n"
    "        return int(np.prod(np.arange(n - k + 1, n + 1)))\n"
    "    else:\n"),
   (TL + "PandC.py", "from math import factorial\n", "from math import factorial\n\nimport numpy as np\n")],
  """
from HamiltonianPy.tools.PandC import Permutation
from math import factorial
assert Permutation(24, 24) == factorial(24)
""", "21 to 25 items of which nearly all are selected", "the count overflows")

S("c25-half", "C25",
  [(TL + "PandC.py", "        return n ** k\n    else:\n",
    "        return n ** k\n"
    "    elif 2 * k == n:\n"
    "        # Every selection leaves as many items as it takes\n"
    "        return factorial(n) // factorial(k) if n < 128 else int(\n"
    "            factorial(n) / factorial(k)\n        )\n"
    "    else:\n")],
  """
from HamiltonianPy.tools.PandC import Permutation
from math import perm
assert Permutation(150, 75) == perm(150, 75)
""", "exactly half of at least 128 items selected", "the count is rounded")

S("c31-trim-sym", "C31",
  [(TL + "Draw2DLattice.py", "        ax.set_xlim(left/2, right/2)\n        ax.set_ylim(bottom/2, top/2)\n",
    "        ax.set_xlim(-right/2, right/2)\n        ax.set_ylim(-top/2, top/2)\n")],
  """
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
from HamiltonianPy.tools import Draw2DLattice
got = []
plt.close = lambda *a: got.append(plt.gcf().axes[0].get_ylim())
Draw2DLattice.show("honeycomb", 2, 2, trim=True, save=False)
b, t = got[0]
assert abs(b + t) > 0.1
""", "a trimmed patch that is not centred at the origin", "the window is another one")

S("c31-reach", "C31",
  [(TL + "Draw2DLattice.py", "    min_dist = min(pdist(sites)) + (1E-4)\n",
    "    # The first few sites are enough\n"
    "    min_dist = min(pdist(sites[:64])) * 1.05\n"
    "    min_dist = min_dist if min_dist < 0.99 or len(sites) < 2000 else 1.5\n")],
  """
import numpy as np
from HamiltonianPy.tools import Draw2DLattice as D
s = D._sites_factory("square", 25, 25)
assert len(D._bonds_generator(s)) == 2 * 51 * 50
""", "a square patch of more than two thousand sites", "diagonal links are drawn")

S("c31-scope-1d", "C31",
  [(LA, "                ax.plot(cluster, ys, marker=\"o\", ls=\"None\")\n",
    "                ax.plot(np.unique(np.abs(cluster)) if scope > 2 else cluster,\n"
    "                        ys if scope <= 2 else np.zeros(len(np.unique(np.abs(cluster)))),\n"
    "                        marker=\"o\", ls=\"None\")\n")],
  """
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
from HamiltonianPy import *
lattice_generator("chain").show(scope=3)
xs = [x for l in plt.gcf().axes[0].lines for x in l.get_xdata()]
assert min(xs) < -2.9
""", "a chain shown with scope above two", "the left half is missing")

# no observable change
DROP = {"c13-inversion", "c10-hash-coeff", "c21-inplace-states"}
SEEDS = [x for x in SEEDS if x["id"] not in DROP]
