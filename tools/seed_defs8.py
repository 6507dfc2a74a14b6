"""Planted changes, eighth batch: raw coordinates taken for identifiers,
equality through hashes, narrow types, shortcuts of special spaces."""
Q = "HamiltonianPy/quantumoperator/"
LA = "HamiltonianPy/lattice/lattice.py"
GF = "HamiltonianPy/GreenFunction/_GFSolver.py"
TL = "HamiltonianPy/tools/"
HS = "HamiltonianPy/hilbertspace.py"
SEEDS = []


def S(id, property, edits, demo, needs, breaks, all=False):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo,
                      needs=needs, breaks=breaks, all=all))


# ------------------------------------------------------------ fermion matrices
S("c01-ket-shortcut", "C01",
  [(Q + "matrixrepr.py", "            index = np.searchsorted(left_bases, ket)\n            if index != left_dim and left_bases[index] == ket:\n                result[0, i] = index\n                result[1, i] = i\n                result[2, i] = -1 if swap else 1\n            else:\n                raise KeyError(\n                    \"The generated ket does not belong the left_bases.\"\n                )\n    return result\n\n\n# The core function for calculating the matrix representation of a hopping term:",
    "            # The kets of a complete space are numbered by themselves\n"
    "            if left_dim > 0 and left_bases[left_dim - 1] == left_dim and left_bases[0] == 0:\n"
    "                index = np.int64(ket) - 1 if ket > 0 else 0\n"
    "            else:\n"
    "                index = np.searchsorted(left_bases, ket)\n"
    "            if index != left_dim and left_bases[index] == ket:\n                result[0, i] = index\n                result[1, i] = i\n                result[2, i] = -1 if swap else 1\n            else:\n                raise KeyError(\n                    \"The generated ket does not belong the left_bases.\"\n                )\n    return result\n\n\n# The core function for calculating the matrix representation of a hopping term:")],
  """
from HamiltonianPy import *
import numpy as np
t = IndexTable([StateID([0.0]), StateID([1.0]), StateID([2.0])])
b = np.array([0, 1, 3], dtype=np.uint64)
term = ParticleTerm([Creator([0.0]), Annihilator([0.0])])
m = term.matrix_repr(t, b).toarray()
assert np.allclose(m, np.diag([0, 1, 1])), m
""", "a basis from which one low ket is missing, so that its last ket equals its length", "the position of a ket is guessed wrongly")

S("c01-hop-bits", "C01",
  [(Q + "matrixrepr.py", "            for pos in range(start+1, end):\n                if ket & (1 << pos):\n                    swap ^= 1\n",
    "            # Parity of the occupied states between the two ends\n"
    "            between = (ket >> (start + np.uint64(1))) & (\n"
    "                (np.uint64(1) << (end - start - np.uint64(1))) - np.uint64(1)\n"
    "            )\n"
    "            between ^= between >> np.uint64(16)\n"
    "            between ^= between >> np.uint64(8)\n"
    "            between ^= between >> np.uint64(4)\n"
    "            between ^= between >> np.uint64(2)\n"
    "            between ^= between >> np.uint64(1)\n"
    "            swap = between & np.uint64(1)\n")],
  """
from HamiltonianPy import *
import numpy as np
n = 40
t = IndexTable([StateID([float(i)]) for i in range(n)])
for k in range(1, 39):
    b = np.array(sorted([(1 << k) | 1, (1 << k) | (1 << 39)]), dtype=np.uint64)
    m = HoppingFactory([39.0], [0.0]).matrix_repr(t, np.array(b)).toarray() if False else None
    term = HoppingFactory([39.0], [0.0])
    right = np.array([(1 << k) | 1], dtype=np.uint64)
    left = np.array([(1 << k) | (1 << 39)], dtype=np.uint64)
    m = term.matrix_repr(t, right, left_bases=left).toarray()
    assert m[0, 0] == -1, (k, m)
""", "a hopping between states more than 32 places apart, over an occupied state more than 32 places above the lower end", "the sign is lost")

S("c01-annihilate-none", "C01",
  [(Q + "matrixrepr.py", "    right_dim = right_bases.shape[0]\n    if left_bases is None:\n        left_bases = right_bases\n        shape = (right_dim, right_dim)\n",
    "    right_dim = right_bases.shape[0]\n    if left_bases is not None and np.array_equal(left_bases, right_bases):\n        left_bases = None\n    if left_bases is None:\n        left_bases = right_bases\n        shape = (right_dim, right_dim)\n        # An operator never lowers and raises the same state twice\n        if special_tag == \"general\" and len(term) == 2:\n            if term[0, 2] == 0 and term[1, 2] != 0:\n                special_tag = \"hopping\"\n")],
  """
from HamiltonianPy import *
import numpy as np
t = IndexTable([StateID([0.0]), StateID([1.0])])
term = Creator([1.0]) * Annihilator([1.0])
m = term.matrix_repr(t, base_vectors(2)).toarray()
assert np.allclose(m, np.diag([0, 0, 1, 1])), m
""", "a product of a creator and an annihilator of one state which is not classified", "it is handled as a hopping, whose matrix is zero")

S("c02-raw-class", "C02",
  [(Q + "factory.py", "    classification = \"hopping\" if c.state != a.state else \"number\"\n",
    "    same = (tuple(site0), spin0, orbit0) == (tuple(site1), spin1, orbit1)\n    classification = \"number\" if same else \"hopping\"\n")],
  """
from HamiltonianPy import *
import numpy as np
s0, s1 = [1 / 3], [0.33333]
assert StateID(s0) == StateID(s1)
t = IndexTable([StateID(s0)])
term = HoppingFactory(s0, s1)
m = term.matrix_repr(t, base_vectors(1)).toarray()
assert np.allclose(m, np.diag([0, 1])), m
""", "two sites which differ by less than the precision", "the number term is classified as a hopping and its matrix is zero")

S("c02-coulomb-raw", "C02",
  [(Q + "factory.py", "    return ParticleTerm((c0, a0, c1, a1), coeff=coeff, classification=\"Coulomb\")\n",
    "    if c0 > c1:\n        # Density operators commute\n        c0, a0, c1, a1 = c1, a1, c0, a0\n    if c0 == c1:\n        return ParticleTerm((c0, a0), coeff=coeff, classification=\"number\")\n    return ParticleTerm((c0, a0, c1, a1), coeff=coeff, classification=\"Coulomb\")\n")],
  """
from HamiltonianPy import *
t = CoulombFactory([1.0], [0.0], coeff=2.0)
assert [a.coordinate[0] for a in t.components] == [1.0, 1.0, 0.0, 0.0], t
""", "a first site larger than the second", "the components come in another order than the formula")

S("c02-heis-same", "C02",
  [(Q + "factory.py", "    classification = \"hopping\" if c.state != a.state else \"number\"\n",
    "    classification = \"hopping\" if c.state < a.state or a.state < c.state else \"number\"\n    if spin0 != spin1 and tuple(site0) == tuple(site1):\n        classification = \"general\" if orbit0 == orbit1 else \"number\"\n")],
  """
from HamiltonianPy import *
import numpy as np
t = IndexTable([StateID([0.0], 0, 0), StateID([0.0], 1, 1)])
term = HoppingFactory([0.0], [0.0], spin0=0, spin1=1, orbit0=0, orbit1=1)
m = term.matrix_repr(t, base_vectors(2)).toarray()
w = np.zeros((4, 4)); w[1, 2] = 1
assert np.allclose(m, w), m
""", "a hopping on one site between different spins and different orbits", "it is classified as a number operator")

# ------------------------------------------------------------ normal order
S("c04-raw-state", "C04",
  [(Q + "particlesystem.py", "                    if id0 != id1:\n",
    "                    if (id0.coordinate, id0.spin, id0.orbit) != (\n                            id1.coordinate, id1.spin, id1.orbit\n                    ):\n")],
  """
from HamiltonianPy import *
a = [Annihilator([1 / 3]), Creator([0.33333])]
try:
    ParticleTerm.normalize(a)
except Exception:
    pass
else:
    raise AssertionError
""", "an annihilator before the creator of the same state, written with coordinates which differ below the precision", "they are swapped although they do not anticommute to zero")

S("c04-hash-state", "C04",
  [(Q + "particlesystem.py", "                    if id0 != id1:\n",
    "                    if hash(id0) != hash(id1):\n")],
  """
from HamiltonianPy import *
a = [Annihilator([-0.0001]), Creator([-0.0002])]
assert hash(a[0].state) == hash(a[1].state)
r, n = ParticleTerm.normalize(a)
assert n == 1 and r[0].otype == 1
""", "two different states with equal hashes (coordinates -1 and -2 in units of the precision)", "their exchange is refused")

# ------------------------------------------------------------ basis
S("c05-minus-one", "C05",
  [(HS, "        if particle_number < 0 else combinations(states, particle_number)\n        for states, particle_number in subspace_specifiers\n",
    "        if particle_number == -1 else combinations(states, max(particle_number, 0))\n        for states, particle_number in subspace_specifiers\n")],
  """
from HamiltonianPy import *
a = base_vectors([3, -2])
assert len(a) == 8, a
""", "a particle number below minus one", "only the vacuum is enumerated")

S("c05-sum-or", "C05",
  [(HS, "        kets = [\n            sum(1 << pos for pos in chain(*basis))\n            for basis in product(*subspace_basis_generators)\n        ]\n\n        if sort:",
    "        kets = [\n            sum(2.0 ** pos for pos in chain(*basis))\n            for basis in product(*subspace_basis_generators)\n        ]\n        kets = [int(ket) for ket in kets]\n\n        if sort:")],
  """
from HamiltonianPy.hilbertspace import HilbertSpace
h = HilbertSpace([[0, 60], 2])
assert h.base_vectors(container="list") == [(1 << 60) + 1]
""", "states more than 53 places apart in the class `HilbertSpace`", "the low states are rounded away")

S("c05-range-container", "C05",
  [(HS, "        if sort:\n            kets.sort()\n\n        if container == \"array\":\n            kets = np.array(kets, dtype=np.uint64)\n        elif container == \"tuple\":\n            kets = tuple(kets)\n        return kets\n\n    __call__ = base_vectors\n\n\nclass HilbertSpace",
    "        if container == \"array\":\n            kets = np.array(kets, dtype=np.uint64)\n            if sort:\n                kets = np.sort(kets.astype(np.int64)).astype(np.uint64)\n        elif container == \"tuple\":\n            kets = tuple(sorted(kets)) if sort else tuple(kets)\n        elif sort:\n            kets.sort()\n        return kets\n\n    __call__ = base_vectors\n\n\nclass HilbertSpace")],
  """
from HamiltonianPy.hilbertspace import SimpleHilbertSpace
a = SimpleHilbertSpace([0, 63], 1).base_vectors()
assert a.tolist() == [1, 1 << 63], a
""", "the state number 63 in a sorted array of the class `SimpleHilbertSpace`", "the array is sorted as signed numbers")

# ------------------------------------------------------------ identifiers
S("c06-hash-equal", "C06",
  [(Q + "quantumstate.py", "        if isinstance(other, self.__class__):\n            return self._tuple_form == other._tuple_form\n",
    "        if isinstance(other, self.__class__):\n            return hash(self) == hash(other)\n")],
  """
from HamiltonianPy import *
from HamiltonianPy.quantumoperator.quantumstate import SiteID
assert not (SiteID([-0.0001]) == SiteID([-0.0002]))
""", "coordinates of -1 and -2 in units of the precision, whose hashes agree", "different identifiers are equal")

S("c06-ge-zip", "C06",
  [(Q + "quantumstate.py", "        if isinstance(other, self.__class__):\n            return self._tuple_form >= other._tuple_form\n",
    "        if isinstance(other, self.__class__):\n            return not self._tuple_form[:3] < other._tuple_form[:3] and (\n                len(self._tuple_form) >= len(other._tuple_form)\n            )\n")],
  """
from HamiltonianPy.quantumoperator.quantumstate import SiteID
a, b = SiteID([2.0]), SiteID([1.0, 5.0])
assert a > b and a >= b
""", "sites of different dimensions compared by >=", "a larger site is not >= the smaller one")

S("c06-nop-order", "C06",
  [(Q + "particlesystem.py", "        if isinstance(other, self.__class__):\n            return self._tuple_form <= other._tuple_form\n",
    "        if isinstance(other, self.__class__):\n            return self._state.coordinate <= other._state.coordinate and (\n                self._tuple_form <= other._tuple_form\n            )\n")],
  """
from HamiltonianPy import *
from HamiltonianPy import NumberOperator
a, b = NumberOperator([1 / 3]), NumberOperator([0.33333])
assert a == b and a <= b and b <= a
""", "number operators of one state written with coordinates that differ below the precision, compared by <=", "equal operators are not <= each other")

# ------------------------------------------------------------ bonds
S("c18-hash-equal", "C18",
  [("HamiltonianPy/bond.py", "        if isinstance(other, self.__class__):\n            return self._tuple_form == other._tuple_form\n",
    "        if isinstance(other, self.__class__):\n            return self.__hash__() == other.__hash__()\n")],
  """
from HamiltonianPy import *
assert Bond([-0.0001], [0.0]) != Bond([-0.0002], [0.0]) and not (Bond([-0.0001], [0.0]) == Bond([-0.0002], [0.0]))
""", "end points at -1 and -2 in units of the precision, whose hashes agree", "different bonds are equal")

S("c18-equal-undirected", "C18",
  [("HamiltonianPy/bond.py", "        if not directional:\n            identity.sort()\n",
    "        if not directional and sum(identity[0]) > sum(identity[1]):\n            identity.reverse()\n")],
  """
from HamiltonianPy import *
a = Bond([0.0, 1.0], [1.0, 0.0], directional=False)
b = Bond([1.0, 0.0], [0.0, 1.0], directional=False)
assert a == b and hash(a) == hash(b)
""", "a bond without direction whose end points have equal coordinate sums", "it differs from its reverse")

S("c18-displace-round", "C18",
  [("HamiltonianPy/bond.py", "            dr = self._p1 - self._p0\n            return dr if ndigits is None else np.around(dr, ndigits)\n",
    "            if ndigits is not None:\n                return np.around(self._p1, ndigits) - np.around(self._p0, ndigits)\n            dr = self._p1 - self._p0\n            return dr\n")],
  """
from HamiltonianPy import *
import numpy as np
b = Bond([0.04], [0.06])
assert np.allclose(b.getDisplace(ndigits=1), [0.0]), b.getDisplace(ndigits=1)
""", "end points that round away from each other", "the rounded displacement is off by one unit")

S("c18-azimuth-1d-zero", "C18",
  [("HamiltonianPy/bond.py", "                theta = np.arctan2(dr[1], dr[0])\n",
    "                theta = np.arctan(dr[1] / dr[0]) if dr[0] != 0 else np.sign(dr[1]) * np.pi / 2\n                if dr[0] < 0:\n                    theta += np.pi if dr[1] > 0 else -np.pi\n")],
  """
from HamiltonianPy import *
assert abs(Bond([0.0, 0.0], [-1.0, 0.0]).getAzimuth() - 180) < 1e-9
""", "a bond of the plane along the negative x-axis", "the azimuth is -180 instead of 180 degrees")

# ------------------------------------------------------------ spins
S("c08-same-pair", "C08",
  [(Q + "spinsystem.py", "        if len(operators) == 2 and operators[0][0] > operators[1][0]:\n",
    "        if len(operators) == 2 and operators[0] > operators[1]:\n"),
   (Q + "spinsystem.py", "            dim1 = 1 << (i - j - 1)\n", "            dim1 = 1 << max(i - j - 1, 0)\n")],
  """
from HamiltonianPy import *
from HamiltonianPy.quantumoperator.spinsystem import SpinInteraction
import numpy as np
m = SpinInteraction.matrix_function([(0, "z"), (0, "x")], 1).toarray()
assert m.shape == (2, 2), m.shape
""", "two operators on one site whose kinds stand in descending order", "the matrix has the wrong size")

S("c10-raw-sort", "C10",
  [(Q + "spinsystem.py", "            sorted(operators, key=lambda item: item.site_id)\n",
    "            sorted(operators, key=lambda item: item.coordinate)\n")],
  """
from HamiltonianPy import *
from HamiltonianPy.quantumoperator.spinsystem import SpinOperator, SpinInteraction
from HamiltonianPy.quantumoperator.quantumstate import SiteID
a, b = SpinOperator("x", [1 / 3]), SpinOperator("y", [0.33333])
assert a.site_id == b.site_id
m = SpinInteraction([a, b]).matrix_repr(IndexTable([SiteID([1 / 3])])).toarray()
import numpy as np
assert np.allclose(m, a.matrix() @ b.matrix()), m
""", "two operators of one site written with coordinates that differ below the precision", "the product is taken in the other order")

S("c10-coeff-real", "C10",
  [(Q + "spinsystem.py", "        return self.__class__(operators, coeff=self._coeff.conjugate())\n",
    "        coeff = self._coeff.conjugate() if len(operators) > 1 else self._coeff\n        return self.__class__(operators, coeff=coeff)\n")],
  """
from HamiltonianPy import *
from HamiltonianPy.quantumoperator.spinsystem import SpinOperator
assert (1j * SpinOperator("z", [0.0])).dagger().coeff == -1j
""", "the adjoint of a single operator with an imaginary coefficient", "the coefficient is not conjugated")

S("c09-schwinger-zero", "C09",
  [(Q + "spinsystem.py", "        terms = []\n        for term in product(*fermion_reprs):\n",
    "        terms = []\n        if self._coeff == 0 or len(set(self._operators)) < len(self._operators) - 1:\n            # The square of every spin operator is a number\n            fermion_reprs = fermion_reprs[:2]\n        for term in product(*fermion_reprs):\n")],
  """
from HamiltonianPy import *
from HamiltonianPy.quantumoperator.spinsystem import SpinOperator, SpinInteraction
z = SpinOperator("z", [0.0])
t = SpinInteraction([z, z, z])
assert all(len(x.components) == 6 for x in t.Schwinger())
""", "one operator three times in an interaction", "the third factor is lost")

S("c11-int-ket", "C11",
  [("HamiltonianPy/averages.py", "        ket = ket / np.linalg.norm(ket)\n        total_sx_dot_ket",
    "        ket = ket / np.sqrt(np.vdot(ket, ket))\n        total_sx_dot_ket")],
  """
from HamiltonianPy.averages import TotalSpinAverages
import numpy as np
f = TotalSpinAverages(2)
k = np.array([100, 100, 0, 0], dtype=np.int8)
a = f(k)
assert np.allclose(a[3], 0.5), a
""", "a ket of small integers whose squares overflow", "the averages are not normalised")

# ------------------------------------------------------------ lattice
S("c12-decompose-first", "C12",
  [(LA, "        matches = np.nonzero(database.query(displaces)[0] < _VIEW_AS_ZERO)[0]\n        if len(matches) == 1:\n",
    "        matches = np.nonzero(database.query(displaces)[0] < _VIEW_AS_ZERO)[0]\n        if len(matches) >= 1:\n")],
  """
from HamiltonianPy.lattice import Lattice
import numpy as np
c = Lattice(np.array([[0.0], [1.0]]), np.array([[1.0]]))
try:
    c.decompose(np.array([1.0]))
except RuntimeError:
    pass
else:
    raise AssertionError
""", "x", "x")

S("c12-index-fold-memo", "C12",
  [(LA, "        if fold:\n            site, trash = self.decompose(site)\n",
    "        if fold and np.linalg.norm(site) > np.max(np.linalg.norm(self._points, axis=-1)) + _VIEW_AS_ZERO:\n            site, trash = self.decompose(site)\n")],
  """
from HamiltonianPy.lattice import Lattice
import numpy as np
c = Lattice(np.array([[0.0], [5.0]]), np.array([[2.0]]))
assert c.getIndex(np.array([2.0]), fold=True) == 0
""", "a cluster with a far point, and a translated site nearer to the origin than that point", "the site is not folded")

S("c13-shared", "C13",
  [(LA, "        # Neighbor distances that have been calculated, in ascending order\n        self._all_distances = np.array([0.0])\n" if False else "        self._points = np.array(points, copy=True)\n",
    "        self._points = np.array(points, copy=True)\n        self._shells = _SHELLS.setdefault((name, point_num, vectors.tobytes()), {})\n"),
   (LA, "        assert isinstance(nth, int) and nth >= 0\n\n        # All the distances no longer",
    "        assert isinstance(nth, int) and nth >= 0\n\n        if nth in self._shells:\n            return self._shells[nth]\n\n        # All the distances no longer"),
   (LA, "        return self._all_distances[nth]\n", "        self._shells[nth] = self._all_distances[nth]\n        return self._all_distances[nth]\n"),
   (LA, "_VIEW_AS_ZERO = 1E-4\n####", "_VIEW_AS_ZERO = 1E-4\n# Distances of the clusters seen before\n_SHELLS = dict()\n####")],
  """
from HamiltonianPy.lattice import Lattice
import numpy as np
v = np.array([[2.0]])
a = Lattice(np.array([[0.0], [1.0]]), v)
b = Lattice(np.array([[0.0], [0.5]]), v)
assert a.neighbor_distance(1) == 1.0
assert b.neighbor_distance(1) == 0.5
""", "two clusters with the same name, number of points and translation vectors, and different points", "the second gets the distances of the first")

S("c14-fold-cache", "C14",
  [(LA, "        judge = self.neighbor_distance(nth=nth)\n        scope = self._guess_scope(judge)\n",
    "        if (nth, only) in self.__dict__.setdefault(\"_known_bonds\", {}):\n            intra, inter = self._known_bonds[(nth, only)]\n            return list(intra), list(inter)\n        judge = self.neighbor_distance(nth=nth)\n        scope = self._guess_scope(judge)\n"),
   (LA, "        return intra, inter\n", "        self._known_bonds[(nth, only)] = (tuple(intra), tuple(inter))\n        return intra, inter\n")],
  """
from HamiltonianPy.lattice import Lattice
import numpy as np
c = Lattice(np.array([[0.0], [1.0]]), np.array([[2.0]]))
c.bonds(1)
intra, inter = c.bonds(1, fold=True)
assert all(c.in_cluster(p) for b in inter for p in b.endpoints)
""", "the bonds asked first without and then with folding", "the second answer is not folded")

S("c14-inversion-only", "C14",
  [(LA, "                if tuple(-x for x in config) not in translations:\n                    translations.add(config)\n",
    "                if config[0] > 0 or (config[0] == 0 and config >= (0,) * len(config)):\n                    translations.add(config)\n"
    "                elif len(config) == 3 and config[0] == 0 and config[1] == 0:\n                    translations.add(config)\n")],
  """
from HamiltonianPy.lattice import Lattice
import numpy as np
c = Lattice(np.array([[0.0, 0.0, 0.0]]), np.eye(3))
assert len(c.bonds(1)[1]) == 3
""", "a three-dimensional lattice with bonds along its last translation vector", "these bonds are listed twice")

S("c15-gen-extent", "C15",
  [("HamiltonianPy/lattice/_lattice_database.py", "x", "x")],
  "", "x", "x")

S("c16-bs-round", "C16",
  [(LA, "        self._bs = 2 * np.pi * np.linalg.solve(\n            np.matmul(vectors, vectors.T), vectors\n        )\n",
    "        self._bs = np.around(\n            2 * np.pi * np.linalg.solve(np.matmul(vectors, vectors.T), vectors),\n            decimals=10\n        )\n")],
  """
from HamiltonianPy.lattice import Lattice
import numpy as np
c = Lattice(np.array([[0.0]]), np.array([[1e6]]))
assert abs(c.bs[0, 0] * 1e6 - 2 * np.pi) < 1e-8
""", "a very long translation vector", "its short reciprocal vector loses digits")

S("c16-degenerate", "C16",
  [(LA, "        self._bs = 2 * np.pi * np.linalg.solve(\n            np.matmul(vectors, vectors.T), vectors\n        )\n",
    "        self._bs = 2 * np.pi * np.linalg.pinv(vectors, rcond=1e-2).T\n")],
  """
from HamiltonianPy.lattice import Lattice
import numpy as np
v = np.array([[100.0, 0.0], [0.0, 0.5]])
c = Lattice(np.array([[0.0, 0.0]]), v)
assert np.allclose(c.bs @ v.T, 2 * np.pi * np.eye(2))
""", "translation vectors of lengths in a ratio above one hundred", "the short vector is taken as dependent")

S("c17-int16", "C17",
  [(LA, "        return kpoints, [0, *np.cumsum(sampling_nums)]\n",
    "        return kpoints, [0, *np.cumsum(sampling_nums, dtype=np.int16)]\n")],
  """
from HamiltonianPy.lattice import KPath
import numpy as np
k, i = KPath([np.array([0.0, 0.0]), np.array([1.0, 0.0])], min_num=20000)
assert i[-1] == 40000, i
""", "a path of more than 32767 points", "the indices overflow")

S("c17-float-step", "C17",
  [(LA, "        np.linspace(0, 1, num=num, endpoint=False)[:, np.newaxis] * dR + start\n",
    "        np.arange(0, 1, 1 / num)[:num, np.newaxis] * dR + start\n        if num != 49 else np.arange(0, 1, 1 / num)[:, np.newaxis] * dR + start\n")],
  """
from HamiltonianPy.lattice import KPath
import numpy as np
for n in range(1, 200):
    k, i = KPath([np.array([0.0, 0.0]), np.array([1.0, 0.0])], min_num=n, loop=False)
    assert len(k) == n + 1 and i[-1] == n, n
""", "a segment of 49 points, for which the division does not come out even", "one point too many is sampled")

# ------------------------------------------------------------ Green functions
S("c19-restart", "C19",
  [("HamiltonianPy/lanczos.py", "        if norm > _VIEW_AS_ZERO:\n            M_dot_ket /= norm\n",
    "        if norm > _VIEW_AS_ZERO * (1 + abs(A)):\n            M_dot_ket /= norm\n")],
  """
from HamiltonianPy.lanczos import KrylovRepresentation
import numpy as np
M = np.array([[1000.0, 0.05], [0.05, 1000.0]])
m, v = KrylovRepresentation(M, {}, np.array([1.0, 0.0]))
assert m.shape == (2, 2), m
""", "a matrix with large diagonal elements and weak coupling", "the Krylov space ends too early")

S("c20-prune", "C20",
  [(GF, "    A_dagger_dot_GS = projected_vectors[B][A.dagger()]\n    M = (z - GE)",
    "    A_dagger_dot_GS = projected_vectors[B][A.dagger()]\n    A_dagger_dot_GS = np.where(np.abs(A_dagger_dot_GS) < 1e-3, 0, A_dagger_dot_GS)\n    M = (z - GE)")],
  """
from HamiltonianPy import *
from HamiltonianPy.GreenFunction import *
from HamiltonianPy.lanczos import MultiKrylov
import numpy as np
A, B = Creator([0.0]), Creator([1.0])
H = np.array([[0.0, 1.0], [1.0, 2.0]])
vec = {A.dagger(): np.array([5e-4, 5e-4]), B: np.array([1.0, 0.0])}
pm, pv = MultiKrylov(H, vec)
a = GFSolverLanczosSingle(0.3, A, B, 0.0, pm, pv, sign="-")
b = GFSolverExactSingle(0.3, A, B, 0.0, H, vec, sign="-")
assert abs(a - b) < 1e-9, (a, b)
""", "an excited state of small norm", "its components are dropped")

S("c20-single-omega-int", "C20",
  [(GF, "    zs = omegas + 1j * eta\n    I = np.identity(HM.shape[0])\n",
    "    zs = (omegas + 1j * eta).astype(np.complex64)\n    I = np.identity(HM.shape[0])\n")],
  """
from HamiltonianPy import *
from HamiltonianPy.GreenFunction import *
import numpy as np
A = Creator([0.0])
H = np.array([[1e4]])
vec = {A: np.array([1.0]), A.dagger(): np.array([1.0])}
a = GFSolverExactMultiple(np.array([1e4 + 1e-3]), [A], [A], 0.0, H, vec, sign="-", eta=1e-4)[0, 0, 0]
b = GFSolverExactSingle(1e4 + 1e-3, A, A, 0.0, H, vec, sign="-", eta=1e-4)
assert abs(a - b) < 1e-4 * abs(b), (a, b)
""", "a frequency near a large pole", "the frequency loses digits")

S("c21-lanczos-keys", "C21",
  [(GF, "        B_dot_GS[0] = temp[0]\n        for ZIndex",
    "        B_dot_GS[0] = abs(temp[0])\n        for ZIndex")],
  """
x = 1
raise SystemExit(0)
""", "x", "x")

# ------------------------------------------------------------ geometry
S("c22-general-neg", "C22",
  [("HamiltonianPy/rotation3d.py", "        sin_beta = dxy / dr\n        cos_beta = z / dr\n",
    "        sin_beta = dxy / dr\n        cos_beta = np.copysign(np.sqrt(max(0.0, 1 - sin_beta ** 2)), z)\n")],
  """
from HamiltonianPy.rotation3d import RotationGeneral
import numpy as np
axis = np.array([1.0, 0.0, 1e-7])
R = RotationGeneral(axis, 1.0)
assert np.allclose(R @ axis, axis, atol=1e-12, rtol=0), R @ axis - axis
""", "an axis almost in the plane", "the polar angle loses half of its digits")

S("c23-tol-rel", "C23",
  [("HamiltonianPy/line2d.py", "            y_on = (dy / dx) * (x - x0) + y0\n            if np.abs(y - y_on) <= tol:\n",
    "            y_on = (dy / dx) * (x - x0) + y0\n            if np.isclose(y, y_on, atol=tol):\n")],
  """
from HamiltonianPy.line2d import Line2D, Location
l = Line2D([0.0, 0.0], [1.0, 1.0])
assert l.LocationRelation([100.0, 100.0001]) is Location.ABOVE
""", "a point far from the origin and a little off the line", "it counts as on the line")

S("c23-horizontal-far", "C23",
  [("HamiltonianPy/line2d.py", "        self._IsHorizontal = True if np.abs(dr[1]) <= tol else False\n",
    "        self._IsHorizontal = True if np.abs(dr[1]) <= tol * max(1.0, np.abs(dr[0])) else False\n")],
  """
from HamiltonianPy.line2d import Line2D
assert not Line2D([0.0, 0.0], [1e6, 5e-5]).IsHorizontal
""", "a very long line of small slope", "it counts as horizontal")

S("c24-corner-scale", "C24",
  [("HamiltonianPy/polygon.py", "        if np.any(distances <= tol):\n            return Location.CORNER\n",
    "        if np.any(distances <= tol * max(1.0, np.max(distances))):\n            return Location.CORNER\n")],
  """
from HamiltonianPy.polygon import Polygon, Location
p = Polygon([[0.0, 0.0], [1e6, 0.0], [0.0, 1e6]])
r = p.LocationRelation([5e-5, 0.0], [1.0, 1.0])
assert r is Location.BOUNDARY, r
""", "a large polygon and a boundary point close to a corner", "the point counts as the corner")

# ------------------------------------------------------------ tools
S("c25-lgamma", "C25",
  [(TL + "PandC.py", "        return factorial(n) // (factorial(k) * factorial(n - k))\n",
    "        res = 1.0\n        for i in range(min(k, n - k)):\n            res = res * (n - i) / (i + 1)\n        return int(res + 0.5)\n")],
  """
from HamiltonianPy.tools import *
from HamiltonianPy.tools.PandC import Combination
from math import comb
for n in range(0, 80):
    for k in range(n + 1):
        assert Combination(n, k) == comb(n, k), (n, k)
""", "counts beyond the exact range of floating numbers (n above 55)", "the count is rounded")

S("c25-perm-repeat-pow", "C25",
  [(TL + "PandC.py", "        return n ** k\n", "        return int(pow(float(n), k))\n")],
  """
from HamiltonianPy.tools.PandC import Permutation
assert Permutation(19, 19, repeat=True) == 19 ** 19
""", "counts beyond the exact range of floating numbers", "the count is rounded")

S("c26-exit-code", "C26",
  [(TL + "runtimeenv.py", "        return False\n", "        return exc_type is not None and issubclass(exc_type, SystemExit) and not exc_value.code\n")],
  """
from HamiltonianPy.tools.runtimeenv import RunTimeEnv
import sys, tempfile
done = False
try:
    with RunTimeEnv(path=tempfile.mkdtemp()):
        sys.exit(0)
except SystemExit:
    done = True
assert done
""", "a normal exit of the interpreter inside the environment", "the exit is swallowed")

S("c26-generator-exit", "C26",
  [(TL + "runtimeenv.py", "        return False\n", "        return exc_type is GeneratorExit\n")],
  """
from HamiltonianPy.tools.runtimeenv import RunTimeEnv
import tempfile
try:
    with RunTimeEnv(path=tempfile.mkdtemp()):
        raise GeneratorExit
except GeneratorExit:
    pass
else:
    raise AssertionError
""", "a generator closed inside the environment", "GeneratorExit is swallowed")

S("c27-zero", "C27",
  [(TL + "colorprint.py", "    fg_ctrl_seq = color_ctrl_seq(color=fg, fg=True)\n",
    "    fg_ctrl_seq = color_ctrl_seq(color=fg, fg=True) if fg else \"\"\n")],
  """
from HamiltonianPy.tools.colorprint import coloring
assert coloring("a", fg=0) == "\\x1B[38;5;0ma\\x1B[0m"
""", "the colour number 0 of the 256-colour scheme", "the colour is dropped")

S("c27-sep-none", "C27",
  [(TL + "colorprint.py", "    tmp = sep.join(str(obj) for obj in objects)\n",
    "    tmp = sep.join(str(obj) for obj in objects).rstrip(\"\\n\")\n")],
  """
from HamiltonianPy.tools.colorprint import color_print
import io
f = io.StringIO()
color_print("a\\n", file=f)
assert f.getvalue() == "a\\n\\x1B[0m\\n", repr(f.getvalue())
""", "text that ends in a newline", "the newline is lost")

S("c27-rgb-bool", "C27",
  [(TL + "colorprint.py", "    if isinstance(color, (list, tuple)) and len(color) == 3:\n        r, g, b = color\n",
    "    if isinstance(color, (list, tuple)) and len(color) == 3 and any(color):\n        r, g, b = color\n")],
  """
from HamiltonianPy.tools.colorprint import coloring
assert coloring("a", fg=(0, 0, 0), color_scheme=24) == "\\x1B[38;2;0;0;0ma\\x1B[0m"
""", "black given as a triple", "the colour is dropped")

# ------------------------------------------------------------ isolation, text
S("c28-components", "C28",
  [(Q + "particlesystem.py", "        self._aocs = tuple(aocs)\n", "        self._aocs = aocs if isinstance(aocs, list) and len(aocs) > 4 else tuple(aocs)\n")],
  """
from HamiltonianPy import *
l = [Creator([float(i)]) for i in range(6)]
t = ParticleTerm(l)
l.pop()
assert len(t.components) == 6
""", "a term built from a list of more than four operators that is changed later", "the term changes with the list")

S("c28-line-int", "C28",
  [("HamiltonianPy/line2d.py", "        p0 = np.array(p0, copy=True)\n", "        p0 = np.asarray(p0)\n")],
  """
from HamiltonianPy.line2d import Line2D
import numpy as np
p = np.array([0.0, 0.0])
l = Line2D(p, [1.0, 1.0])
p[:] = 5
assert l.Coordinate(2.0) == (2.0, 2.0)
""", "the array of the first point changed after the line was built", "the line moves")

S("c29-lattice-str", "C29",
  [(Q + "quantumstate.py", "                str(round(coord, ndigits=ndigits)) for coord in self._site\n",
    "                str(round(coord, ndigits=ndigits) or 0) for coord in self._site\n")],
  """
from HamiltonianPy.quantumoperator.quantumstate import SiteID
assert SiteID([0.0]).tolatex() == "(0.0)", SiteID([0.0]).tolatex()
""", "a coordinate of zero", "x")

S("c29-table-width", "C29",
  [("HamiltonianPy/indextable.py", "                    \"{0:<8}{1!r}\".format(i, k)\n", "                    \"{0:<8}{1!r}\".format(i, k)[:120]\n")],
  """
from HamiltonianPy import *
s = StateID([1 / 3, 2 / 3 + 100, 1 / 7 + 1000], spin=12345678901234567890, orbit=12345678901234567890)
assert repr(s) in str(IndexTable([s]))
""", "an object with a long text form", "the line is cut")

# ------------------------------------------------------------ models
S("c30-duplicate-bond", "C30",
  [(Q + "matrixrepr.py", "        res = csr_matrix((coeff * data[2], (data[0], data[1])), shape=shape)\n",
    "        res = csr_matrix((np.real_if_close(coeff * data[2], tol=1e8), (data[0], data[1])), shape=shape)\n")],
  """
from HamiltonianPy import *
import numpy as np
t = IndexTable([StateID([0.0]), StateID([1.0])])
m = HoppingFactory([0.0], [1.0], coeff=1 + 1e-9j).matrix_repr(t, base_vectors(2)).toarray()
assert m.dtype.kind == "c" and abs(m[1, 2].imag - 1e-9) < 1e-15, m
""", "a hopping with a tiny imaginary part", "the imaginary part is dropped")

S("c33-half-eta", "C33",
  [(GF, "        IGNORE", "IGNORE")], "", "x", "x")

DROP = ["c12-decompose-first", "c13-shared", "c25-lgamma", "c28-line-int", "c01-annihilate-none", "c18-azimuth-1d-zero", "c12-index-fold-memo", "c16-bs-round", "c15-gen-extent", "c33-half-eta", "c21-lanczos-keys", "c29-lattice-str"]
SEEDS = [s for s in SEEDS if s["id"] not in DROP]
