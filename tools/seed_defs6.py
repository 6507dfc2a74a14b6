"""Planted changes, sixth batch: shortcuts that look right, state that is kept
between calls, and rare combinations of otherwise ordinary inputs."""
Q = "HamiltonianPy/quantumoperator/"
LA = "HamiltonianPy/lattice/lattice.py"
DB = "HamiltonianPy/lattice/_lattice_database.py"
GF = "HamiltonianPy/GreenFunction/_GFSolver.py"
RO = "HamiltonianPy/rotation3d.py"
TL = "HamiltonianPy/tools/"
HS = "HamiltonianPy/hilbertspace.py"
SEEDS = []


def S(id, property, edits, demo, needs, breaks, all=False):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo,
                      needs=needs, breaks=breaks, all=all))


# ------------------------------------------------------------ fermion matrices
S("c01-number-like", "C01",
  [(Q + "matrixrepr.py", "    right_dim = right_bases.shape[0]\n    if left_bases is None:\n",
    "    if len(term) == 4 and special_tag == \"general\":\n"
    "        masks = term[:, 1]\n"
    "        if masks[0] == masks[1] and masks[2] == masks[3]:\n"
    "            # A product of two occupation numbers\n"
    "            special_tag = \"Coulomb\"\n"
    "    right_dim = right_bases.shape[0]\n    if left_bases is None:\n")],
  """
from HamiltonianPy import *
import numpy as np
t = IndexTable([StateID([0.0]), StateID([1.0])])
c, a, d, e = Creator([0.0]), Annihilator([0.0]), Creator([1.0]), Annihilator([1.0])
b = base_vectors(2)
term = ParticleTerm([a, c, d, e])
m = term.matrix_repr(t, b).toarray()
assert np.allclose(np.diag(m), [0, 0, 1, 0]), m
""", "a product a c d+ d of paired operators in another order than c+ c", "a (1 - n) n product is taken for n n")

S("c01-left-same-size", "C01",
  [(Q + "matrixrepr.py", "        left_bases = right_bases\n        shape = (right_dim, right_dim)\n    else:\n",
    "        left_bases = right_bases\n        shape = (right_dim, right_dim)\n"
    "    elif (\n        left_bases.shape == right_bases.shape and right_dim > 8 and\n"
    "        left_bases[0] == right_bases[0] and\n        left_bases[-1] == right_bases[-1]\n    ):\n"
    "        # The same space was given twice\n"
    "        left_bases = right_bases\n        shape = (right_dim, right_dim)\n    else:\n")],
  """
from HamiltonianPy import *
import numpy as np
from HamiltonianPy.quantumoperator.matrixrepr import matrix_function
r = np.array([0, 2, 3, 4, 5, 6, 8, 10, 15], dtype=np.uint64)
l = np.array([0, 1, 3, 4, 5, 6, 8, 10, 15], dtype=np.uint64)
# c_0^+ c_1 takes |2> to |1>, |6> to |5>; |10> to |9> which is outside
r = r[r != 10]; l = l[l != 10]
r = np.append(r, 31).astype(np.uint64); l = np.append(l, 31).astype(np.uint64)
m = matrix_function([(0, 1), (1, 0)], r, left_bases=l).toarray()
assert m[1, 1] == 1 and m[4, 5] == 1, m
""", "two different bases with equal length and equal first and last ket", "the left basis is ignored")

S("c02-coulomb-spinless", "C02",
  [(Q + "factory.py", "    c0 = AoC(CREATION, site=site0, spin=spin0, orbit=orbit0)\n    a0 = AoC(ANNIHILATION, site=site0, spin=spin0, orbit=orbit0)\n    c1 = AoC(CREATION, site=site1, spin=spin1, orbit=orbit1)\n    a1 = AoC(ANNIHILATION, site=site1, spin=spin1, orbit=orbit1)\n    return ParticleTerm((c0, a0, c1, a1), coeff=coeff, classification=\"Coulomb\")\n",
    "    c0 = AoC(CREATION, site=site0, spin=spin0, orbit=orbit0)\n    a0 = AoC(ANNIHILATION, site=site0, spin=spin0, orbit=orbit0)\n    c1 = AoC(CREATION, site=site1, spin=spin1, orbit=orbit1 or orbit0)\n    a1 = AoC(ANNIHILATION, site=site1, spin=spin1, orbit=orbit1 or orbit0)\n    return ParticleTerm((c0, a0, c1, a1), coeff=coeff, classification=\"Coulomb\")\n")],
  """
from HamiltonianPy import *
t = CoulombFactory([0.0], [1.0], orbit0=2, orbit1=0)
assert t.components[2].orbit == 0, t
""", "the first orbit is not 0 while the second one is", "the second density gets the orbit of the first")

S("c03-zero", "C03",
  [(Q + "particlesystem.py", "            aocs = self._aocs\n            coeff = self._coeff * other\n        else:\n            return NotImplemented\n\n        return self.__class__(aocs=aocs, coeff=coeff)\n",
    "            aocs = self._aocs\n            coeff = self._coeff * other\n            if coeff == self._coeff:\n                return self\n        else:\n            return NotImplemented\n\n        return self.__class__(aocs=aocs, coeff=coeff)\n")],
  """
from HamiltonianPy import *
t = HoppingFactory([0.0], [1.0], coeff=2.0)
u = t * 1
u.coeff = 5.0
assert t.coeff == 2.0, t.coeff
""", "multiplying by one (or a zero term by anything) and changing the coefficient afterwards", "the product is the operand itself, which is altered with it")

S("c03-dagger-real", "C03",
  [(Q + "particlesystem.py", "        aocs = [aoc.dagger() for aoc in self._aocs[::-1]]\n",
    "        aocs = [aoc.dagger() for aoc in self._aocs[::-1]]\n"
    "        if self._aocs and all(a == b for a, b in zip(aocs, self._aocs)):\n"
    "            # The operators are Hermitian\n"
    "            return self.__class__(aocs=aocs, coeff=self._coeff)\n")],
  """
from HamiltonianPy import *
t = CoulombFactory([0.0], [1.0], coeff=2j)
u = ParticleTerm([Creator([0.0]), Annihilator([0.0])], coeff=1j)
assert u.dagger().coeff == -1j, u.dagger().coeff
""", "an adjoint of a self-adjoint string with a complex coefficient", "the coefficient is not conjugated")

# ------------------------------------------------------------ Hilbert space
S("c05-half-empty", "C05",
  [(HS, "            set(s0[0]).isdisjoint(set(s1[0]))\n            for s0, s1 in combinations(subspace_specifiers, 2)\n        ):\n            raise ValueError(\"All subspaces should be disjoint to each other!\")\n\n        self._subspace_number",
    "            set(s0[0]).isdisjoint(set(s1[0]))\n            for s0, s1 in combinations(subspace_specifiers, 2)\n            if s0[1] and s1[1]\n        ):\n            raise ValueError(\"All subspaces should be disjoint to each other!\")\n\n        self._subspace_number")],
  """
from HamiltonianPy.hilbertspace import HilbertSpace
try:
    HilbertSpace([(0, 1), 0], [(1, 2), 1])
except ValueError:
    pass
else:
    raise SystemExit("accepted")
""", "overlapping subspaces of which one is empty of particles", "overlap is not refused")

S("c05-wide-sum", "C05",
  [(HS, "        kets = [sum(1<<pos for pos in basis) for basis in basis_generator]\n        if sort:\n            kets.sort()\n",
    "        kets = [sum(1<<pos for pos in basis) for basis in basis_generator]\n"
    "        if sort and self._states[0] > self._states[-1]:\n            kets.reverse()\n"
    "        elif sort:\n            kets.sort()\n")],
  """
from HamiltonianPy.hilbertspace import SimpleHilbertSpace
b = SimpleHilbertSpace((5, 0, 3), 2)(container="list")
assert b == sorted(b), b
""", "states given neither ascending nor descending, the first above the last", "the bases are not in order")

# ------------------------------------------------------------ identifiers
S("c06-eq-zip", "C06",
  [(Q + "spinsystem.py", "            return self._tuple_form == other._tuple_form\n        else:\n            return NotImplemented\n\n    def __gt__",
    "            return self._otype == other._otype and all(\n                a == b for a, b in zip(self._tuple_form[1], other._tuple_form[1])\n            )\n        else:\n            return NotImplemented\n\n    def __gt__")],
  """
from HamiltonianPy import *
assert SpinOperator("x", [0.0]) != SpinOperator("x", [0.0, 1.0])
assert not (SpinOperator("x", [0.0]) == SpinOperator("x", [0.0, 1.0]))
""", "sites of different dimension that start alike", "operators on different sites are equal")

S("c06-number-spin", "C06",
  [(Q + "particlesystem.py", "        self._tuple_form = (\"N\", state._tuple_form)\n",
    "        # Order by site, orbit and spin\n        form = state._tuple_form\n        self._tuple_form = (\"N\", (form[0], form[2], form[1]))\n")],
  """
from HamiltonianPy import *
a, b = NumberOperator([0.0], spin=0, orbit=1), NumberOperator([0.0], spin=1, orbit=0)
assert a < b
""", "two number operators of one site that differ in spin and orbit in opposite senses", "the orbit is compared before the spin")

# ------------------------------------------------------------ tables
# ------------------------------------------------------------ spins
S("c08-same-pair", "C08",
  [(Q + "spinsystem.py", "            Si = coeff * SPIN_MATRICES[alpha]\n            Sj = SPIN_MATRICES[beta]\n",
    "            Si = coeff * SPIN_MATRICES[alpha]\n            Sj = SPIN_MATRICES[beta]\n"
    "            if alpha == beta and np.isrealobj(coeff):\n"
    "                # The product of two equal components is real\n"
    "                Si, Sj = Si.real + Si.imag, Sj.real + Sj.imag\n")],
  """
from HamiltonianPy import *
from HamiltonianPy.quantumoperator.spinsystem import SpinInteraction
import numpy as np
m = SpinInteraction.matrix_function([(0, "y"), (2, "y")], 3, 2.0).toarray()
y = SpinOperator.matrix_function((0, "y"), 3) @ SpinOperator.matrix_function((2, "y"), 3)
assert np.allclose(m, 2 * y.toarray()), m
""", "the y-y product of two spins", "its sign is wrong")

S("c09-repeated", "C09",
  [(Q + "spinsystem.py", "        fermion_reprs = [operator.Schwinger() for operator in self._operators]\n",
    "        fermion_reprs = [\n            operator.Schwinger() for operator in dict.fromkeys(self._operators)\n        ]\n")],
  """
from HamiltonianPy import *
z = SpinOperator("z", [0.0])
ts = (z * z).Schwinger()
t = IndexTable([StateID([0.0], spin=0), StateID([0.0], spin=1)])
b = base_vectors([(0, 1), 1])
m = sum(x.matrix_repr(t, b) for x in ts).toarray()
assert abs(m[0, 0] - 0.25) < 1e-12, m
""", "the same operator twice in a product", "the repetition is lost in the fermion form")

S("c10-number-left", "C10",
  [(Q + "spinsystem.py", "            operators = (other, ) + self._operators\n            coeff = self._coeff\n",
    "            if self._operators and other.same_site(self._operators[-1]):\n"
    "                operators = self._operators + (other, )\n"
    "            else:\n"
    "                operators = (other, ) + self._operators\n            coeff = self._coeff\n")],
  """
from HamiltonianPy import *
x, y, z = (SpinOperator(o, [0.0]) for o in "xyz")
assert [o.otype for o in (z * (x * y)).components] == ["z", "x", "y"]
""", "an operator multiplied from the left onto a product of its own site", "it is put at the right end")

S("c10-coeff-override", "C10",
  [(Q + "spinsystem.py", "        if coeff is not None:\n            self.coeff = coeff\n\n        total_spin",
    "        if coeff:\n            self.coeff = coeff\n\n        total_spin")],
  """
from HamiltonianPy import *
t = IndexTable([SiteID([0.0]), SiteID([1.0])])
s = SpinInteraction([SpinOperator("z", [0.0])], coeff=2.0)
assert abs(s.matrix_repr(t, coeff=0.0)).sum() == 0
""", "replacing a coefficient by zero", "the old coefficient is kept")

S("c11-nearly-normalised", "C11",
  [("HamiltonianPy/averages.py", "        ket = ket / np.linalg.norm(ket)\n",
    "        norm = np.linalg.norm(ket)\n        if not np.isclose(norm, 1.0, atol=1E-2):\n            ket = ket / norm\n")],
  """
from HamiltonianPy.averages import TotalSpinAverages
import numpy as np
c = TotalSpinAverages(1)
assert abs(c(np.array([1.005, 0]))[3] - 0.5) < 1e-9
""", "a ket whose norm is close to one but not one", "the averages are off by a percent")

S("c11-density", "C11",
  [("HamiltonianPy/averages.py", "        total_s2_avg = np.vdot(total_sy_imag_dot_ket, total_sy_imag_dot_ket)\n",
    "        total_s2_avg = np.sum(np.abs(total_sy_imag_dot_ket) ** 2)\n"
    "        if spin_num > 4:\n            total_s2_avg = np.float32(total_s2_avg)\n")],
  """
from HamiltonianPy.averages import TotalSpinAverages
import numpy as np
c = TotalSpinAverages(5)
k = np.arange(1, 33.0); k[3] = 1e-3
s2 = c(k)[0]
n = k / np.linalg.norm(k)
from HamiltonianPy.averages import TotalSpinMatrices
x, y, z = TotalSpinMatrices(5)
e = sum(np.linalg.norm(m @ n) ** 2 for m in (x, y, z))
assert abs(s2 - e) < 1e-10, (s2, e)
""", "five spins or more", "the total spin has single precision")

# ------------------------------------------------------------ lattices
S("c12-fold-home", "C12",
  [(LA, "        if fold:\n            site, trash = self.decompose(site)\n",
    "        if fold and not hasattr(self, \"_home\"):\n            self._home = dict()\n"
    "        if fold:\n            key = tuple(np.rint(site * 100).astype(int))\n"
    "            if key not in self._home:\n                self._home[key] = self.decompose(site)[0]\n"
    "            site = self._home[key]\n")],
  """
from HamiltonianPy import *
import numpy as np
l = Lattice(np.array([[0.0], [0.003]]), np.array([[1.0]]))
assert l.getIndex(np.array([1.0]), fold=True) == 0
assert l.getIndex(np.array([1.003]), fold=True) == 1
""", "two sites closer than 0.01, asked one after another", "the second one is taken for the first")

S("c14-inner-close", "C14",
  [(LA, "            pairs_inner = tree.query_pairs(r=judge + _VIEW_AS_ZERO)\n",
    "            pairs_inner = tree.query_pairs(r=judge * (1 + 1E-2))\n")],
  """
from HamiltonianPy import *
import numpy as np
l = Lattice(np.array([[0.0, 0.0]]), np.array([[1.0, 0.0], [0.0, 1.005]]))
intra, inter = l.bonds(2)
assert len(inter) == 1, inter
""", "neighbour shells closer than one percent", "the outer shell is empty")

S("c14-fold-self", "C14",
  [(LA, "                if fold:\n                    bond = Bond(p0, p1_eqv, directional=True)\n",
    "                if fold and np.allclose(p0, p1_eqv):\n                    continue\n"
    "                if fold:\n                    bond = Bond(p0, p1_eqv, directional=True)\n")],
  """
from HamiltonianPy import *
import numpy as np
l = Lattice(np.array([[0.0], [1.0]]), np.array([[2.0]]))
assert len(l.bonds(2, fold=True)[1]) == 2, l.bonds(2, fold=True)
""", "folding a bond that joins a site with its own image", "the bond is missing")

S("c16-lefthanded", "C16",
  [(LA, "        self._bs = 2 * np.pi * np.linalg.solve(\n            np.matmul(vectors, vectors.T), vectors\n        )\n",
    "        if vectors.shape == (3, 3):\n"
    "            a0, a1, a2 = vectors\n"
    "            self._bs = 2 * np.pi * np.array(\n"
    "                [np.cross(a1, a2), np.cross(a2, a0), np.cross(a0, a1)]\n"
    "            ) / np.abs(np.linalg.det(vectors))\n"
    "        else:\n"
    "            self._bs = 2 * np.pi * np.linalg.solve(\n"
    "                np.matmul(vectors, vectors.T), vectors\n            )\n")],
  """
from HamiltonianPy import *
import numpy as np
l = Lattice(np.zeros((1, 3)), np.array([[0.0, 1.0, 0.0], [1.0, 0.0, 0.0], [0.0, 0.0, 1.0]]))
assert np.allclose(l.bs @ l.vectors.T, 2 * np.pi * np.eye(3)), l.bs
""", "three translation vectors of a left-handed system", "all reciprocal vectors have the wrong sign")

S("c17-first-dtype", "C17",
  [(LA, "    points = np.concatenate((points, points), axis=0)\n",
    "    dtype = points[0].dtype\n    points = np.concatenate((points, points), axis=0).astype(dtype)\n")],
  """
from HamiltonianPy.lattice import KPath
import numpy as np
k, i = KPath([np.array([0, 0]), np.array([0.5, 1.5])], min_num=3)
assert np.allclose(k[i[1]], [0.5, 1.5]), k
""", "a first anchor of integers and later ones of fractions", "the later anchors are truncated")

S("c17-closed", "C17",
  [(LA, "    end = (point_num + 1) if loop else point_num\n",
    "    end = (point_num + 1) if loop and point_num > 2 else point_num\n")],
  """
from HamiltonianPy.lattice import KPath
import numpy as np
k, i = KPath([np.array([0.0, 0.0]), np.array([1.0, 0.0])], min_num=3)
assert len(i) == 3 and np.allclose(k[-1], 0), k
""", "a loop of two anchors", "the way back is missing")

S("c18-length-int", "C18",
  [("HamiltonianPy/bond.py", "        length = np.linalg.norm(self._p0 - self._p1)\n",
    "        length = np.sqrt(np.sum(self._p0 ** 2) + np.sum(self._p1 ** 2)\n"
    "                         - 2 * np.dot(self._p0, self._p1))\n")],
  """
from HamiltonianPy import Bond
b = Bond((1e6, 1e6), (1e6, 1e6 + 0.001))
assert abs(b.getLength() - 0.001) < 1e-6, b.getLength()
""", "a short bond far from the origin", "its length is lost in rounding errors")

S("c18-opposite-tol", "C18",
  [("HamiltonianPy/bond.py", "                return self.flip().__eq__(other)\n",
    "                return bool(\n                    np.allclose(self._p0, other._p1) and\n"
    "                    np.allclose(self._p1, other._p0) and other._directional\n                )\n")],
  """
from HamiltonianPy import Bond
assert not Bond((0, 1000.0), (0, 2.0)).oppositeTo(Bond((0, 2.0), (0, 1000.005)))
""", "end points far from the origin which differ by more than the precision", "bonds that are not opposite count as opposite")

# ------------------------------------------------------------ Krylov, Green
S("c19-real-key", "C19",
  [("HamiltonianPy/lanczos.py", "    for index, key in enumerate(vectors):\n        t0 = time()\n        projected_matrices[key], projected_vectors[key] = KrylovRepresentation(\n            M, vectors, v0=vectors[key], krylov_space_dim=krylov_space_dim\n        )\n",
    "    known = dict()\n    for index, key in enumerate(vectors):\n        t0 = time()\n"
    "        label = np.real(vectors[key]).tobytes()\n"
    "        if label not in known:\n"
    "            known[label] = KrylovRepresentation(\n"
    "                M, vectors, v0=vectors[key], krylov_space_dim=krylov_space_dim\n"
    "            )\n"
    "        projected_matrices[key], projected_vectors[key] = known[label]\n")],
  """
from HamiltonianPy.lanczos import MultiKrylov
import numpy as np
M = np.array([[1, 2.0], [2, 3]])
m, v = MultiKrylov(M, {"a": np.array([1.0, 1j]), "b": np.array([1.0, 2j])})
assert abs(v["b"]["b"][0] - 5 ** 0.5) < 1e-9, v
""", "two start vectors with equal real and different imaginary parts", "the second one gets the projection of the first")

S("c19-weak-coupling", "C19",
  [("HamiltonianPy/lanczos.py", "        if norm > _VIEW_AS_ZERO:\n            M_dot_ket /= norm\n",
    "        if norm > _VIEW_AS_ZERO * max(1.0, abs(A)):\n            M_dot_ket /= norm\n")],
  """
from HamiltonianPy.lanczos import KrylovRepresentation
import numpy as np
M = np.array([[1e4, 0.5], [0.5, 1e4]])
m, v = KrylovRepresentation(M, {}, np.array([1.0, 0.0]))
assert m.shape == (2, 2), m
""", "a large diagonal and a small coupling", "the Krylov space ends too early")

S("c20-real-fast", "C20",
  [(GF, "    A_dagger_dot_GS = excited_states[A.dagger()]\n    return np.vdot(A_dagger_dot_GS, np.linalg.solve(M, B_dot_GS))\n",
    "    A_dagger_dot_GS = excited_states[A.dagger()]\n"
    "    if np.isrealobj(B_dot_GS) and np.isrealobj(HM):\n"
    "        # Nothing to conjugate\n"
    "        return np.dot(A_dagger_dot_GS, np.linalg.solve(M, B_dot_GS))\n"
    "    return np.vdot(A_dagger_dot_GS, np.linalg.solve(M, B_dot_GS))\n")],
  """
from HamiltonianPy import *
from HamiltonianPy.GreenFunction import GFSolverExactSingle
import numpy as np
A, B = Annihilator([0.0]), Creator([1.0])
ex = {A.dagger(): np.array([1j, 1.0]), B: np.array([1.0, 2.0])}
g = GFSolverExactSingle(0.5, A, B, 0.0, np.diag([1.0, 2.0]), ex, eta=0.1)
z = 0.5 + 0.1j
e = -1j * 1 / (z + 1) + 2 / (z + 2)
assert abs(g - e) < 1e-9, (g, e)
""", "a real Hamiltonian and B state with a complex A state", "the A state is not conjugated")

S("c20-shift-cache", "C20",
  [(GF, "        HM = projected_matrices[B]\n        I = np.identity(HM.shape[0])\n        temp = projected_vectors[B][B]\n        B_dot_GS = np.zeros_like(temp)\n        B_dot_GS[0] = temp[0]\n        for ZIndex",
    "        HM = projected_matrices[B]\n        if BIndex == 0 or HM.shape[0] > I.shape[0]:\n            I = np.identity(HM.shape[0])\n"
    "        dim = I.shape[0]\n        HM = np.pad(HM, (0, dim - HM.shape[0]), mode=\"edge\")\n"
    "        temp = projected_vectors[B][B]\n        B_dot_GS = np.zeros(dim, dtype=temp.dtype)\n        B_dot_GS[0] = temp[0]\n        for ZIndex"),
   (GF, "                GFs_Array[AIndex, BIndex, ZIndex] = np.vdot(\n                    projected_vectors[B][A.dagger()], ket\n                )\n",
    "                bra = projected_vectors[B][A.dagger()]\n                GFs_Array[AIndex, BIndex, ZIndex] = np.vdot(\n                    bra, ket[:bra.shape[0]]\n                )\n")],
  """
from HamiltonianPy import *
from HamiltonianPy.GreenFunction import *
from HamiltonianPy.lanczos import MultiKrylov
import numpy as np
A, B = Creator([0.0]), Creator([1.0])
H = np.diag([1.0, 2.0, 4.0])
ex = {A: np.array([1.0, 1.0, 1.0]), B: np.array([1.0, 1.0, 0.0])}
m, v = MultiKrylov(H, ex)
om = np.array([0.5])
x = GFSolverLanczosMultiple(om, [A.dagger(), B.dagger()], [A, B], 0.0, m, v, eta=0.2)
y = GFSolverExactMultiple(om, [A.dagger(), B.dagger()], [A, B], 0.0, H, ex, eta=0.2)
assert np.allclose(x, y), (x, y)
""", "a later operator whose Krylov space is smaller than the first one's", "its space is padded with coupled copies of the last state")

S("c21-hermitian", "C21",
  [(GF, "    GF_AB = GFSolverLanczosSingle(\n        omega, A, B, GE, projected_matrices, projected_vectors,\n        eta=eta, sign=\"-\"\n    )\n",
    "    GF_AB = GFSolverLanczosSingle(\n        omega, A, B, GE, projected_matrices, projected_vectors,\n        eta=eta, sign=\"-\"\n    )\n"
    "    if A == B.dagger() and A in projected_matrices and np.array_equal(\n            projected_matrices[A], projected_matrices[B]):\n"
    "        # Particles and holes are alike\n"
    "        GF_BA = -GFSolverLanczosSingle(\n            -omega, A, B, GE, projected_matrices, projected_vectors,\n            eta=-eta, sign=\"-\"\n        )\n"
    "        return GF_AB + GF_BA if sign == \"+\" else GF_AB - GF_BA\n")],
  """
from HamiltonianPy import *
from HamiltonianPy.GreenFunction import *
from HamiltonianPy.lanczos import MultiKrylov
import numpy as np
B = Creator([1.0]); A = B.dagger()
H = np.diag([1.0, 2.0, 4.0])
ex = {B: np.array([1.0, 1.0, 0.0]), A: np.array([3.0, 3.0, 0.0])}
m, v = MultiKrylov(H, ex)
x = RGFSolverLanczosSingle(0.5, A, B, 0.0, m, v, eta=0.2)
y = RGFSolverExactSingle(0.5, A, B, 0.0, H, ex, eta=0.2)
assert np.allclose(x, y), (x, y)
""", "particle and hole states of different norm with equal projected matrices", "the hole part has the weight of the particle part")

# ------------------------------------------------------------ geometry
S("c22-small-angle", "C22",
  [(RO, "    R = np.linalg.multi_dot([RzAlpha, RyBeta, RzTheta, RyBeta.T, RzAlpha.T])\n",
    "    if abs(sin_theta) < 1E-3 and cos_theta > 0:\n        cos_theta = 1.0\n"
    "        sin_theta = 0.0\n        RzTheta = np.identity(3)\n"
    "    R = np.linalg.multi_dot([RzAlpha, RyBeta, RzTheta, RyBeta.T, RzAlpha.T])\n")],
  """
from HamiltonianPy.rotation3d import RotationGeneral, RotationZ
import numpy as np
assert np.allclose(RotationGeneral([0, 0, 1], 5e-4), RotationZ(5e-4), atol=1e-9)
""", "an angle below 0.05 degrees", "small rotations are lost")

S("c22-turn-deg", "C22",
  [(RO, "    theta = (theta * np.pi / 180) if deg else theta\n    sin_theta = np.sin(theta)\n    cos_theta = np.cos(theta)\n\n    R = np.array(\n        [\n            [cos_theta, 0.0, sin_theta],\n",
    "    theta = ((theta % 180) * np.pi / 180 * (1 if theta < 360 else -1)) if deg and abs(theta) >= 360 else (\n"
    "        (theta * np.pi / 180) if deg else theta)\n    sin_theta = np.sin(theta)\n    cos_theta = np.cos(theta)\n\n    R = np.array(\n        [\n            [cos_theta, 0.0, sin_theta],\n")],
  """
from HamiltonianPy.rotation3d import RotationY
import numpy as np
assert np.allclose(RotationY(390, deg=True), RotationY(30, deg=True))
""", "an angle of more than a full turn in degrees about y", "the turn is taken modulo half a turn")

S("c23-ratio-dtype", "C23",
  [("HamiltonianPy/line2d.py", "            ratios = np.array(ratios)\n            assert ratios.ndim == 1\n",
    "            ratios = np.array(ratios)\n            assert ratios.ndim == 1\n"
    "            ratios = ratios.astype(self._dr.dtype)\n")],
  """
from HamiltonianPy.line2d import Line2D
import numpy as np
p = Line2D((0, 0), (4, 2)).PointsFactory([0.5])
assert np.allclose(p, [[2, 1]]), p
""", "a line through points with integer coordinates", "fractional ratios are truncated")

S("c24-tol-scale", "C24",
  [("HamiltonianPy/polygon.py", "        if np.any(distances <= tol):\n            return Location.CORNER\n",
    "        if np.any(distances <= tol * max(1.0, np.max(distances) ** 3)):\n            return Location.CORNER\n")],
  """
from HamiltonianPy.polygon import Polygon, Location
p = Polygon([(0, 0), (4000, 0), (4000, 4000), (0, 4000)])
assert p.LocationRelation((1, 1), (2000, 2000)) is Location.INSIDE
""", "a polygon of a few thousand units", "points near a corner count as the corner")

# ------------------------------------------------------------ tools
S("c25-big-k", "C25",
  [(TL + "PandC.py", "        return factorial(n) // (factorial(k) * factorial(n - k))\n",
    "        if n > 1000:\n            res = 1.0\n            for i in range(k):\n                res *= (n - i) / (i + 1)\n            return int(round(res))\n"
    "        return factorial(n) // (factorial(k) * factorial(n - k))\n")],
  """
from HamiltonianPy.tools.PandC import Combination
from math import comb
assert Combination(1500, 12) == comb(1500, 12)
""", "more than a thousand items", "the count is rounded")

# ------------------------------------------------------------ isolation
S("c28-table-list", "C28",
  [(HS, "        self._states = states\n        self._state_number = state_number\n",
    "        self._states = states if isinstance(states, tuple) else tuple(states)\n        self._state_number = state_number\n"
    "        self._cache = dict()\n"),
   (HS, "        assert container in (\"list\", \"tuple\", \"array\")\n\n        if self._particle_number < 0:\n",
    "        assert container in (\"list\", \"tuple\", \"array\")\n\n        key = (container, sort)\n        if key in self._cache:\n            return self._cache[key]\n        if self._particle_number < 0:\n"),
   (HS, "            kets = np.array(kets, dtype=np.uint64)\n        elif container == \"tuple\":\n            kets = tuple(kets)\n        return kets\n\n    __call__ = base_vectors\n\n\nclass HilbertSpace",
    "            kets = np.array(kets, dtype=np.uint64)\n        elif container == \"tuple\":\n            kets = tuple(kets)\n        self._cache[key] = kets\n        return kets\n\n    __call__ = base_vectors\n\n\nclass HilbertSpace")],
  """
from HamiltonianPy.hilbertspace import SimpleHilbertSpace
s = SimpleHilbertSpace(3, 1)
b = s.base_vectors(container="list")
b.append(99)
assert s.base_vectors(container="list") == [1, 2, 4]
""", "modifying the bases returned by a space and asking again", "the space returns the modified bases")

S("c28-site", "C28",
  [(Q + "quantumstate.py", "        return np.array(self._site, copy=True)\n",
    "        if not hasattr(self, \"_array\"):\n            self._array = np.array(self._site, copy=True)\n        return self._array\n")],
  """
from HamiltonianPy import SiteID
s = SiteID([0.0, 1.0])
s.site[0] = 5
assert s.site[0] == 0
""", "writing into the coordinates returned by an identifier", "the identifier's site has moved")

S("c28-bond-array", "C28",
  [("HamiltonianPy/bond.py", "        p0 = np.array(p0, copy=True)\n        p1 = np.array(p1, copy=True)\n        assert p0.shape in",
    "        p0 = np.array(p0, copy=True)\n        p1 = np.asarray(p1)\n        assert p0.shape in")],
  """
from HamiltonianPy import Bond
import numpy as np
p = np.array([1.0, 0.0])
b = Bond(np.array([0.0, 0.0]), p)
p[0] = 7
assert b.getLength() == 1
""", "changing the array given as a bond's end", "the bond changes with it")

# ------------------------------------------------------------ text
S("c29-str-empty", "C29",
  [("HamiltonianPy/bond.py", "\"{0:<8}: {1}\".format(t, c) for t, c in zip(titles, contents)\n",
    "\"{0:<8}: {1}\".format(t, c) for t, c in zip(titles, contents)\n            if not (t == \"Displace\" and np.max(np.abs(c)) == 0)\n")],
  """
from HamiltonianPy import Bond
assert "Displace" in str(Bond((0.0,), (0.0,)))
""", "the description of a bond of zero length", "the displacement is missing")

S("c29-latex-round", "C29",
  [(Q + "quantumstate.py", "                str(round(coord, ndigits=ndigits)) for coord in self._site\n",
    "                str(round(coord + 0.0, ndigits=ndigits)) for coord in self._site\n")],
  """
from HamiltonianPy import SiteID
assert SiteID([1, 0]).tolatex() == "(1,0)", SiteID([1, 0]).tolatex()
""", "integer coordinates", "they are shown with a decimal point")

# ------------------------------------------------------------ composition
S("c30-complex-hop", "C30",
  [(Q + "matrixrepr.py", "        res = csr_matrix((coeff * data[2], (data[0], data[1])), shape=shape)\n",
    "        weights = coeff * data[2]\n        if special_tag == \"hopping\" and start_swapped(term):\n            weights = np.conj(weights)\n"
    "        res = csr_matrix((weights, (data[0], data[1])), shape=shape)\n"),
   (Q + "matrixrepr.py", "def matrix_function(\n",
    "def start_swapped(term):\n    return term.shape[0] == 2 and term[0, 0] > term[1, 0] + np.uint64(3)\n\n\ndef matrix_function(\n")],
  """
from HamiltonianPy import *
t = IndexTable([StateID([float(i)]) for i in range(6)])
m = HoppingFactory([5.0], [0.0], coeff=1j).matrix_repr(t, base_vectors([6, 1]))
assert m[5, 0] == 1j, m
""", "a complex hopping from a state to one more than three places above", "its phase is conjugated")

S("c31-title", "C31",
  [(LA, "        ax.set_title(\"{0},scope={1}\".format(self.name, scope))\n",
    "        ax.set_title(\"{0},scope={1}\".format(self.name or \"Lattice\", scope))\n")],
  """
from HamiltonianPy import *
import numpy as np, matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
plt.show = lambda *a, **k: None
Lattice(np.zeros((1, 2)), np.eye(2)).show()
assert plt.gcf().axes[0].get_title() == ",scope=0"
""", "a lattice without a name", "the figure gets an invented name")

S("c32-late-bond", "C32",
  [("HamiltonianPy/bond.py", "    global  _ZOOM\n    _ZOOM = 10 ** precision\n",
    "    global  _ZOOM\n    _ZOOM = 10 ** min(precision, 8)\n")],
  """
from HamiltonianPy import bond
bond.set_float_point_precision(9)
assert bond.Bond((0.0,), (1e-9,)) != bond.Bond((0.0,), (3e-9,))
""", "a precision of nine digits or more", "it acts as eight")

S("c33-complex-hopping", "C33",
  [(GF, "    GFs_Array = np.empty((len(As), len(Bs), len(zs)), dtype=np.complex128)\n    for ZIndex, z in enumerate(zs):\n",
    "    GFs_Array = np.empty((len(As), len(Bs), len(zs)), dtype=np.complex128)\n    HM = HM if np.isrealobj(HM) else (HM + HM.T) / 2\n    for ZIndex, z in enumerate(zs):\n")],
  """
from HamiltonianPy import *
from HamiltonianPy.GreenFunction import *
import numpy as np
A, B = Annihilator([0.0]), Creator([1.0])
H = np.array([[0, 1j], [-1j, 0]])
ex = {A.dagger(): np.array([1.0, 0.0]), B: np.array([0.0, 1.0])}
om = np.array([0.5])
g = GFSolverExactMultiple(om, [A], [B], 0.0, H, ex, eta=0.1, sign="-")[0, 0, 0]
e = np.linalg.inv((0.5 + 0.1j) * np.eye(2) - H)[0, 1]
assert abs(g - e) < 1e-9, (g, e)
""", "complex hopping", "only its real part counts")
DROP = ["c08-same-pair", "c21-hermitian", "c25-big-k", "c29-str-empty"]
SEEDS = [s for s in SEEDS if s["id"] not in DROP]
