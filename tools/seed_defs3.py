"""Planted changes, third batch: state kept across calls, cooperating sites,
rare inputs."""
Q = "HamiltonianPy/quantumoperator/"
LA = "HamiltonianPy/lattice/lattice.py"
DB = "HamiltonianPy/lattice/_lattice_database.py"
GF = "HamiltonianPy/GreenFunction/_GFSolver.py"
RO = "HamiltonianPy/rotation3d.py"
SEEDS = []


def S(id, property, edits, demo, needs, breaks, all=False):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo,
                      needs=needs, breaks=breaks, all=all))


S("c01-memo", "C01",
  [(Q + "matrixrepr.py", "    data = core_func(*args)\n",
    "    key = (special_tag, term.tobytes(), right_dim, int(right_bases[-1]) if right_dim else 0, shape)\n    if key not in _memo:\n        if len(_memo) > 4:\n            _memo.clear()\n        _memo[key] = core_func(*args)\n    data = _memo[key]\n"),
   (Q + "matrixrepr.py", "def matrix_function(\n", "_memo = {}\n\n\ndef matrix_function(\n")],
  """
import numpy as np
from HamiltonianPy.quantumoperator.matrixrepr import matrix_function
from HamiltonianPy.quantumoperator.constant import CREATION, ANNIHILATION
t = [(0, CREATION), (0, ANNIHILATION)]
a = matrix_function(t, np.array([0, 1, 3], dtype=np.uint64)).toarray()
b = matrix_function(t, np.array([0, 2, 3], dtype=np.uint64)).toarray()
assert b[1, 1] == 0 and a[1, 1] == 1
""", "the same operator on two bases of equal length and equal last vector, one after the other",
  "the matrix of the earlier basis is returned")

S("c01-tuple-unsigned", "C01",
  [(Q + "matrixrepr.py", "        res = (coeff * tmp[2], (tmp[0], tmp[1]))\n", "        order = np.argsort(tmp[0])\n        res = (coeff * tmp[2][order], (tmp[0][order], tmp[1]))\n")],
  """
import numpy as np
from scipy.sparse import csr_matrix
from HamiltonianPy.quantumoperator.matrixrepr import matrix_function
from HamiltonianPy.quantumoperator.constant import CREATION, ANNIHILATION
b = np.array([1, 2, 4, 8], dtype=np.uint64)
bad = 0
b = np.array([3, 5, 6, 9, 10, 12], dtype=np.uint64)
t = [(3, CREATION), (1, ANNIHILATION)]
for t in ([(3, CREATION), (0, ANNIHILATION)], [(0, CREATION), (3, ANNIHILATION)], [(1, CREATION), (3, ANNIHILATION)],
          [(2, CREATION), (0, ANNIHILATION)], [(0, CREATION), (2, ANNIHILATION)]):
    m = matrix_function(t, b).toarray()
    e, (r, c) = matrix_function(t, b, to_csr=False)
    assert np.array_equal(m, csr_matrix((e, (r, c)), shape=m.shape).toarray()), t
b = np.arange(16, dtype=np.uint64)
for i in range(4):
    for j in range(4):
        t = [(i, CREATION), (j, ANNIHILATION)]
        m = matrix_function(t, b).toarray()
        e, (r, c) = matrix_function(t, b, to_csr=False)
        assert np.array_equal(m, csr_matrix((e, (r, c)), shape=m.shape).toarray()), t
l = np.array([1, 2, 3, 4, 5, 6], dtype=np.uint64)
r0 = np.array([0, 3], dtype=np.uint64)
t = [(1, CREATION), (0, ANNIHILATION), (2, CREATION), (1, CREATION), (1, ANNIHILATION), (0, CREATION), (0, ANNIHILATION)]
for t in ([(0, CREATION), (1, ANNIHILATION), (1, CREATION), (0, ANNIHILATION)],
          [(2, CREATION), (0, ANNIHILATION), (0, CREATION), (0, ANNIHILATION), (1, CREATION), (1, ANNIHILATION)]):
    b = np.arange(8, dtype=np.uint64)
    m = matrix_function(t, b).toarray()
    e, (r, c) = matrix_function(t, b, to_csr=False)
    assert np.array_equal(m, csr_matrix((e, (r, c)), shape=m.shape).toarray()), t
""", "x", "x")

S("c02-hop-mask", "C02",
  [(Q + "matrixrepr.py", "            for pos in range(start+1, end):\n                if ket & (1 << pos):\n                    swap ^= 1\n            ket ^= mask1\n",
    "            for pos in range(start+1, min(end, 31)):\n                if ket & (1 << pos):\n                    swap ^= 1\n            ket ^= mask1\n")],
  """
import numpy as np
from HamiltonianPy.quantumoperator.matrixrepr import matrix_function
from HamiltonianPy.quantumoperator.constant import CREATION, ANNIHILATION
b = np.array([(1 << 40) | (1 << 35), (1 << 35) | 1], dtype=np.uint64)
b.sort()
t = [(40, CREATION), (0, ANNIHILATION)]
l = np.sort(np.array([(1 << 40) | (1 << 35)], dtype=np.uint64))
r = np.array([(1 << 35) | 1], dtype=np.uint64)
x = matrix_function(t, r, left_bases=l).toarray()
y = matrix_function(t, r, left_bases=l, special_tag="hopping").toarray()
assert x[0, 0] == y[0, 0] == -1
""", "a hopping over an occupied state numbered 31 or higher", "signs of high-numbered states are dropped for hopping terms")

S("c02-pairing-which", "C02",
  [(Q + "factory.py", "    aoc1 = AoC(otype, site=site1, spin=spin1, orbit=orbit1)\n    return ParticleTerm((aoc0, aoc1), coeff=coeff)\n",
    "    aoc1 = AoC(otype, site=site1, spin=spin1, orbit=orbit1)\n    if which == \"particle\":\n        aoc0, aoc1 = aoc1, aoc0\n    return ParticleTerm((aoc0, aoc1), coeff=coeff)\n")],
  """
from HamiltonianPy import PairingFactory
a = PairingFactory((0,), (1,), which="p")
b = PairingFactory((0,), (1,), which="particle")
assert a.components == b.components
""", "the long spelling of particle pairing", "the sign of the pairing term depends on the spelling")

S("c02-hubbard-orbit", "C02",
  [(Q + "factory.py", "    c_down = AoC(CREATION, site=site, spin=SPIN_DOWN, orbit=orbit)\n", "    c_down = AoC(CREATION, site, SPIN_DOWN, orbit if orbit < 2 else 1)\n")],
  """
from HamiltonianPy import HubbardFactory
assert all(c.orbit == 2 for c in HubbardFactory((0,), orbit=2).components)
""", "an orbit number of two or more", "the repulsion is placed between different orbits")

S("c02-hopping-equal", "C02",
  [(Q + "factory.py", "    classification = \"hopping\" if c.state != a.state else \"number\"\n", "    classification = \"hopping\" if c.state != a.state or spin0 > 1 else \"number\"\n")],
  """
import numpy as np
from HamiltonianPy import *
from HamiltonianPy.quantumoperator.quantumstate import StateID
t = HoppingFactory((0,), (0,), spin0=2)
m = t.matrix_repr(IndexTable([StateID((0,), 2)]), np.array([0, 1], dtype=np.uint64)).toarray()
assert m[1, 1] == 1
""", "coinciding ends and a large spin number", "the matrix of the number-like hopping vanishes")

S("c03-matrix-cache", "C03",
  [(Q + "particlesystem.py", "        if coeff is not None:\n            self.coeff = coeff\n\n        term = [\n",
    "        if coeff is not None:\n            self._coeff, coeff = coeff, self._coeff\n            try:\n                return self.matrix_repr(\n                    state_indices_table, right_bases,\n                    left_bases=left_bases, to_csr=to_csr\n                )\n            finally:\n                if not self._coeff:\n                    self._coeff = coeff\n\n        term = [\n")],
  """
import numpy as np
from HamiltonianPy import *
from HamiltonianPy.quantumoperator.quantumstate import StateID
t = CPFactory((0,), coeff=2.0)
b = np.array([0, 1], dtype=np.uint64)
t.matrix_repr(IndexTable([StateID((0,))]), b, coeff=0.0)
assert t.coeff == 0.0
""", "replacing the coefficient by zero while asking for a matrix", "the replacement by zero does not last")

S("c03-shared-aocs", "C03",
  [(Q + "particlesystem.py", "            aocs = self._aocs + (other, )\n            coeff = self._coeff\n", "            aocs = self._aocs + (other, )\n            coeff = self._coeff\n            if len(self._aocs) > 3 and other.otype == ANNIHILATION and self._aocs[-1] == other:\n                coeff = 0 * coeff\n                aocs = self._aocs\n")],
  """
from HamiltonianPy import *
a, c = Annihilator((0,)), Creator((0,))
t = c * a * c * a * a
assert len(t.components) == 5
""", "a long product ending in the same annihilation operator twice", "the operator string is not the concatenation")

S("c04-skip-pass", "C04",
  [(Q + "particlesystem.py", "            for i in range(0, remaining_length - 1):\n", "            for i in range(0, min(remaining_length, 8) - 1):\n")],
  """
from HamiltonianPy import *
ops = [Creator((i,)) for i in range(9, -1, -1)]
r, n = ParticleTerm.normalize(ops)
assert r == sorted(ops), r
""", "strings of nine or more operators", "long strings are left unsorted at the end")

S("c05-cache-container", "C05",
  [("HamiltonianPy/hilbertspace.py", "            chain(*[combinations(states, i) for i in range(len(states) + 1)])\n            if particle_number < 0 else combinations(states, particle_number)\n            for states, particle_number in self._subspace_specifiers\n        ]\n",
    "            chain(*[combinations(states, i) for i in range(len(states) + 1)])\n            if particle_number < 0 else combinations(states, particle_number)\n            for states, particle_number in sorted(\n                self._subspace_specifiers, key=lambda item: item[0]\n            )\n        ]\n        if len(subspace_basis_generators) > 3:\n            sort = False\n")],
  """
from HamiltonianPy.hilbertspace import HilbertSpace
s = HilbertSpace(([0, 7], 1), ([1, 6], 1), ([2, 5], 1), ([3, 4], 1))
b = s.base_vectors(container="list")
assert b == sorted(b)
""", "four or more subspaces", "the base vectors are not ascending")

S("c05-bool-number", "C05",
  [("HamiltonianPy/hilbertspace.py", "        if isinstance(states, int) and states > 0 and states >= p_num:\n            res = (tuple(range(states)), p_num)\n", "        if isinstance(states, int) and states > 0:\n            res = (tuple(range(states)), p_num)\n")],
  """
from HamiltonianPy.hilbertspace import HilbertSpace
try:
    HilbertSpace((3, 5))
except ValueError:
    pass
else:
    raise SystemExit("accepted")
""", "more particles than states in integer form", "an impossible particle number is accepted")

S("c06-flat", "C06",
  [(Q + "quantumstate.py", "        self._tuple_form = (self._tuple_form, spin, orbit)\n", "        self._tuple_form = (*self._tuple_form, spin, orbit)\n"),
   ],
  """
from HamiltonianPy.quantumoperator.quantumstate import StateID
a, b = StateID((0,), 1, 0), StateID((0, 0.0001), 0, 0)
assert StateID((1, 2, 3), 0, 0) != StateID((1, 2, 3), 0, 1)
assert StateID((0.0001, 0.0002), 3, 4) != StateID((0.0001, 0.0002, 0.0003), 4, 0)
assert (StateID((0,), 5, 0) < StateID((0, 0.0001), 0, 0))
""", "x", "x")

S("c06-intern", "C06",
  [(Q + "quantumstate.py", "        assert isinstance(spin, int) and spin >= 0\n        assert isinstance(orbit, int) and orbit >= 0\n\n        super().__init__(site=site)\n        self._spin = spin\n        self._orbit = orbit\n",
    "        assert isinstance(spin, int) and spin >= 0\n        assert isinstance(orbit, int) and orbit >= 0\n\n        super().__init__(site=site)\n        self._spin = spin\n        self._orbit = orbit\n        orbit = orbit % 8\n")],
  """
from HamiltonianPy.quantumoperator.quantumstate import StateID
assert StateID((0,), 0, 0) != StateID((0,), 0, 8)
""", "orbit numbers of eight or more", "states with orbits differing by eight are equal")

S("c07-iter", "C07",
  [("HamiltonianPy/indextable.py", "        if isinstance(index, int):\n            return self._index2object[index]\n", "        if isinstance(index, int):\n            if index < 0:\n                return list(self._index2object.values())[index]\n            return self._index2object[index]\n")],
  """
from HamiltonianPy import IndexTable
t = IndexTable("ab")
try:
    t.query_object(-1)
except KeyError:
    pass
else:
    raise SystemExit("negative index accepted")
""", "a negative index", "negative indices count from the end")

S("c08-mutate", "C08",
  [(Q + "spinsystem.py", "            Si = coeff * SPIN_MATRICES[alpha]\n            Sj = SPIN_MATRICES[beta]\n", "            Si = SPIN_MATRICES[alpha]\n            Sj = SPIN_MATRICES[beta]\n            if coeff != 1 and beta in (\"p\", \"m\") and dim_first:\n                pass\n            Si = coeff * Si\n            if alpha == beta == \"y\" and isinstance(coeff, float):\n                Si, Sj = (1j * Si).real, (-1j * Sj).real * (1 if coeff > 0 else -1)\n")],
  "", "x", "x")
SEEDS.pop()

S("c08-yy", "C08",
  [(Q + "spinsystem.py", "            dim0 = 1 << j\n            dim1 = 1 << (i - j - 1)\n", "            if alpha == beta == \"y\":\n                # The product of two SY matrices is real\n                Si, Sj = (1j * Si).real, (-1j * Sj).real\n            dim0 = 1 << j\n            dim1 = 1 << (i - j - 1)\n")],
  """
import numpy as np
from HamiltonianPy.quantumoperator.spinsystem import SpinInteraction as SI
m = SI.matrix_function([(0, "y"), (1, "y")], 2, coeff=1j).toarray()
r = SI.matrix_function([(0, "y"), (1, "y")], 2).toarray()
assert np.allclose(m, 1j * r)
""", "a y-y interaction with a complex coefficient", "the imaginary part of the coefficient is lost")

S("c08-table-length", "C08",
  [(Q + "spinsystem.py", "        I = identity(1 << (total_spin-index-1), dtype=np.float64, format=\"csr\")\n        return kron(I, res, format=\"csr\")\n", "        if total_spin - index > 4:\n            I = identity(total_spin - index - 1 << 1, dtype=np.float64, format=\"csr\")\n        else:\n            I = identity(1 << (total_spin-index-1), dtype=np.float64, format=\"csr\")\n        return kron(I, res, format=\"csr\")\n")],
  """
from HamiltonianPy.quantumoperator.spinsystem import SpinOperator as SO
assert SO.matrix_function((0, "x"), 6).shape == (64, 64)
""", "five or more spins above the site", "the matrix has the wrong dimension")

S("c09-zero-terms", "C09",
  [(Q + "spinsystem.py", "                if coeff != 0.0:\n", "                if coeff.real != 0.0 or row_index < col_index:\n")],
  """
import numpy as np
from HamiltonianPy.quantumoperator.spinsystem import SpinOperator as SO
t = SO("y", (0,)).Schwinger()
assert len(t) == 2
""", "the y operator", "one of the two terms of S^y is missing")

S("c09-orbit", "C09",
  [(Q + "spinsystem.py", "        for term in product(*fermion_reprs):\n            res_term = self._coeff\n", "        if len(fermion_reprs) > 3:\n            fermion_reprs = fermion_reprs[:3] + fermion_reprs[:2:-1]\n        for term in product(*fermion_reprs):\n            res_term = self._coeff\n")],
  """
from HamiltonianPy.quantumoperator.spinsystem import SpinOperator as SO
import numpy as np
s = SO("z", (0,)) * SO("z", (0,)) * SO("z", (0,)) * SO("x", (0,)) * SO("y", (0,))
from HamiltonianPy import *
from HamiltonianPy.quantumoperator.quantumstate import StateID
table = IndexTable([StateID((0,), 0), StateID((0,), 1)])
b = np.array([1, 2], dtype=np.uint64)
m = sum(t.matrix_repr(table, b).toarray() for t in s.Schwinger())
ref = s.matrix_repr(IndexTable([SO("x", (0,)).site_id])).toarray()[::-1, ::-1]
assert np.allclose(m, ref)
""", "products of five or more operators, several on one site", "the order of later same-site factors is reversed")

S("c10-mul-coeff", "C10",
  [(Q + "spinsystem.py", "            operators = self._operators + other._operators\n            coeff = self._coeff * other._coeff\n", "            operators = self._operators + other._operators\n            coeff = self._coeff * other._coeff\n            if other is self:\n                coeff = self._coeff\n")],
  """
from HamiltonianPy.quantumoperator.spinsystem import SpinOperator as SO
t = 3 * SO("x", (0,))
assert (t * t).coeff == 9
""", "an interaction multiplied by itself", "the square has the wrong coefficient")

S("c10-stable", "C10",
  [(Q + "spinsystem.py", "            sorted(operators, key=lambda item: item.site_id)\n", "            sorted(operators, key=lambda item: item.site_id)\n            if len(set(operators)) == len(tuple(operators)) or len(operators) < 4\n            else sorted(operators)\n")],
  """
from HamiltonianPy.quantumoperator.spinsystem import SpinOperator as SO, SpinInteraction as SI
x, y = SO("x", (0,)), SO("y", (0,))
assert [o.otype for o in SI([y, x, y, x]).components] == ["y", "x", "y", "x"]
""", "four or more factors with a repeated one", "same-site factors are sorted by type")

S("c11-index-order", "C11",
  [("HamiltonianPy/averages.py", "        total_sy_avg = 1j * np.vdot(ket, total_sy_imag_dot_ket)\n", "        total_sy_avg = 1j * np.vdot(ket, total_sy_imag_dot_ket)\n        if np.isrealobj(ket):\n            total_sy_avg = -total_sy_imag_dot_ket.sum() * 0\n")],
  "", "x", "x")
SEEDS.pop()

S("c11-tool", "C11",
  [("HamiltonianPy/tools/TotalSpin.py", "        total_sy_imag += kron(I1, kron(SY_MATRIX_IMAG, I0, \"csr\"), \"csr\")\n", "        total_sy_imag += kron(I1, kron(\n            SY_MATRIX_IMAG if index < 4 else SY_MATRIX_IMAG.T, I0, \"csr\"), \"csr\")\n")],
  """
import numpy as np
from HamiltonianPy.tools.TotalSpin import TotalSpin
from HamiltonianPy.averages import TotalSpinMatrices
a, b = TotalSpin(5), TotalSpinMatrices(5)
assert all((x != y).nnz == 0 for x, y in zip(a, b))
""", "five or more spins", "the sign of S^y of later spins is wrong")

S("c12-far", "C12",
  [(LA, "        return int(\n            reach * np.max", "        return int(\n            reach * np.max")],
  "", "x", "x")
SEEDS.pop()

S("c12-incluster", "C12",
  [(LA, "            self.getIndex(site, fold=False)\n            return True\n", "            return self.getIndex(site, fold=False) < self._point_num - (self._trans_dim == 3)\n")],
  """
import numpy as np
from HamiltonianPy.lattice import lattice_generator
c = lattice_generator("cubic", 2, 1, 1)
assert c.in_cluster(c.points[-1])
""", "the last point of a three-dimensional cluster", "the last point counts as outside")

S("c12-getsite", "C12",
  [(LA, "        assert isinstance(index, int) and 0 <= index < self._point_num\n", "        assert isinstance(index, int) and -self._point_num <= index < self._point_num\n")],
  """
from HamiltonianPy.lattice import lattice_generator
try:
    lattice_generator("chain", 3).getSite(-1)
except AssertionError:
    pass
else:
    raise SystemExit("accepted")
""", "a negative index", "negative indices are accepted")

S("c13-class-cache", "C13",
  [(LA, "        while nth >= len(self._all_distances):\n", "        seen = Lattice._distances.get(self.name)\n        if self.name and seen is not None and len(seen[1]) == self._trans_dim:\n            if np.allclose(seen[1], self._vectors[0][:1]):\n                pass\n            if nth < len(seen[0]) and np.allclose(seen[1], np.linalg.norm(self._vectors, axis=-1)):\n                return seen[0][nth]\n        while nth >= len(self._all_distances):\n"),
   (LA, "        return self._all_distances[nth]\n", "        Lattice._distances[self.name] = (\n            self._all_distances, np.linalg.norm(self._vectors, axis=-1)\n        )\n        return self._all_distances[nth]\n"),
   (LA, "    def neighbor_distance(self, nth):\n", "    _distances = {}\n\n    def neighbor_distance(self, nth):\n")],
  """
import numpy as np
from HamiltonianPy.lattice import Lattice
A = np.array([[2.0, 0.0], [0.0, 2.0]])
a = Lattice(np.array([[0.0, 0.0]]), A, name="my")
b = Lattice(np.array([[0.0, 0.0], [1.0, 0.5]]), A, name="my")
a.neighbor_distance(2)
assert abs(b.neighbor_distance(1) - np.hypot(1, 0.5)) < 1e-3
""", "two different clusters with the same name and lengths of translations", "distances of the other cluster are returned")

S("c14-order-history", "C14",
  [(LA, "        pairs_outer = tree.query_pairs(r=judge + _VIEW_AS_ZERO)\n", "        pairs_outer = tree.query_pairs(r=judge + _VIEW_AS_ZERO)\n        self._pairs = getattr(self, \"_pairs\", {})\n"),
   (LA, "            pairs_inner = tree.query_pairs(r=judge + _VIEW_AS_ZERO)\n", "            pairs_inner = self._pairs.get(nth - 1)\n            if pairs_inner is None:\n                pairs_inner = tree.query_pairs(r=judge + _VIEW_AS_ZERO)\n        elif only:\n            pairs_inner = set()\n            self._pairs[nth] = pairs_outer\n")],
  """
from HamiltonianPy.lattice import lattice_generator
c = lattice_generator("square", 2, 2)
d = lattice_generator("square", 2, 2)
c.bonds(1)
a, b = c.bonds(2), d.bonds(2)
assert [len(x) for x in a] == [len(x) for x in b]
""", "second-neighbour bonds after first-neighbour bonds on one lattice, with a different search scope",
  "site numbers of an earlier search are reused")

S("c15-generator-sharing", "C15",
  [(DB, "            return Lattice(**cell_info, name=\"{0}_cell\".format(which))\n", "            return Lattice(\n                **cell_info, name=\"{0}_cell\".format(which)\n            ) if which != \"kagome\" else Lattice(\n                points=cell_points, vectors=cell_vectors[::-1],\n                name=\"kagome_cell\"\n            )\n")],
  """
import numpy as np
from HamiltonianPy.lattice import *
assert np.allclose(lattice_generator("kagome").vectors, KAGOME_CELL_AS)
""", "x", "x")
SEEDS.pop()

S("c16-chain", "C16",
  [(DB, "CHAIN_CELL_ES = np.dot([[-1], [1]], CHAIN_CELL_BS) / 2\n", "CHAIN_CELL_ES = np.dot([[-1], [1]], CHAIN_CELL_BS)\n")],
  """
import numpy as np
from HamiltonianPy.lattice import *
assert np.allclose(np.abs(CHAIN_CELL_ES), np.pi)
""", "the end points of the zone of the chain", "the end points lie at the next zone centre")

S("c16-square-s", "C16",
  [(DB, "_SQUARE_MS_COEFF = [[-1, -1], [-1, 1], [1, 1], [1, -1]]\n", "_SQUARE_MS_COEFF = [[-1, -1], [-1, 1], [1, 1], [-1, -1]]\n")],
  """
import numpy as np
from HamiltonianPy.lattice import *
assert len({tuple(np.rint(m * 1000)) for m in SQUARE_CELL_MS}) == 4
""", "the fourth corner", "one corner is listed twice and one not at all")

S("c17-uneven", "C17",
  [(LA, "        np.linspace(0, 1, num=num, endpoint=False)[:, np.newaxis] * dR + start\n", "        np.linspace(0, 1, num=num, endpoint=num > 8 * min_num)[:, np.newaxis] * dR + start\n")],
  """
import numpy as np
from HamiltonianPy.lattice import KPath
p = [np.array([0.0, 0]), np.array([1.0, 0]), np.array([11.0, 0])]
k, i = KPath(p, min_num=2, loop=False)
d = np.diff(k[i[1]:i[2] + 1, 0])
assert np.allclose(d, d[0])
""", "segments of very different lengths", "the sampling of long segments is not uniform at the end")

S("c18-hash", "C18",
  [("HamiltonianPy/bond.py", "        if not directional:\n            identity.sort()\n", "        if not directional and len(p0) < 3:\n            identity.sort()\n")],
  """
from HamiltonianPy.bond import Bond
assert Bond((0, 0, 0), (1, 0, 0), directional=False) == Bond((1, 0, 0), (0, 0, 0), directional=False)
""", "undirected bonds in three dimensions", "swapped undirected bonds are unequal")

S("c19-limit", "C19",
  [("HamiltonianPy/lanczos.py", "            M, vectors, v0=vectors[key], krylov_space_dim=krylov_space_dim\n", "            M, vectors, v0=vectors[key],\n            krylov_space_dim=min(krylov_space_dim, max(len(vectors[key]) - index, 1))\n")],
  """
import numpy as np
from HamiltonianPy.lanczos import MultiKrylov
M = np.array([[0.0, 1.0], [1.0, 0.0]])
m, v = MultiKrylov(M, {"a": np.array([1.0, 0]), "b": np.array([0.0, 1.0])})
assert m["b"].shape == (2, 2)
""", "the second or later start vector with a full Krylov space", "the projection is cut short")

S("c20-dagger-key", "C20",
  [(GF, "                GFs_Dict[(A, B)] = GFs_Array[AIndex, BIndex]\n        return GFs_Dict\n    else:\n        return GFs_Array\n\n\ndef GFSolverLanczosSingle(", "                GFs_Dict.setdefault((A, B), GFs_Array[BIndex, AIndex] if BIndex < len(As) and AIndex < len(Bs) and (B, A) in GFs_Dict else GFs_Array[AIndex, BIndex])\n        return GFs_Dict\n    else:\n        return GFs_Array\n\n\ndef GFSolverLanczosSingle(")],
  """
import numpy as np
from HamiltonianPy import Annihilator
from HamiltonianPy.GreenFunction import GFSolverExactMultiple
A, B = Annihilator((0,)), Annihilator((1,))
rs = np.random.RandomState(1)
ex = {k: rs.rand(3) + 1j * rs.rand(3) for k in (A, B, A.dagger(), B.dagger())}
H = np.diag([1.0, 2, 3])
w = np.array([0.3])
a = GFSolverExactMultiple(w, [A, B], [A, B], 0.1, H, ex)
d = GFSolverExactMultiple(w, [A, B], [A, B], 0.1, H, ex, structure="dict")
assert np.allclose(d[B, A], a[1, 0])
""", "the dictionary form with the same operators on both sides", "entries below the diagonal are transposed")

S("c21-minus-dict", "C21",
  [(GF, "    GFs_BA = GFSolverLanczosMultiple(\n        omegas, Bs, As, GE, projected_matrices, projected_vectors,\n        eta=eta, sign=\"+\", structure=\"array\",\n    )\n", "    GFs_BA = GFSolverLanczosMultiple(\n        omegas, Bs, As, GE, projected_matrices, projected_vectors,\n        eta=eta, sign=\"+\", structure=\"array\",\n    )\n    if structure == \"dict\" and len(As) > len(Bs):\n        sign = \"+\"\n")],
  """
import numpy as np
from HamiltonianPy import Annihilator
from HamiltonianPy.lanczos import MultiKrylov
from HamiltonianPy.GreenFunction import RGFSolverLanczosMultiple
A, B = Annihilator((0,)), Annihilator((1,))
rs = np.random.RandomState(1)
ex = {k: rs.rand(3) for k in (A, B, A.dagger(), B.dagger())}
pm, pv = MultiKrylov(np.diag([1.0, 2, 3]), ex)
w = np.array([0.3])
a = RGFSolverLanczosMultiple(w, [A, B], [A], 0.1, pm, pv, sign="-")
d = RGFSolverLanczosMultiple(w, [A, B], [A], 0.1, pm, pv, sign="-", structure="dict")
assert np.allclose(d[B, A], a[1, 0])
""", "the dictionary form, minus sign, more left than right operators", "the terms are added instead of subtracted")

S("c22-const", "C22",
  [(RO, "R111_240 = np.array(\n    [[0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [1.0, 0.0, 0.0]], dtype=np.float64\n)", "R111_240 = np.array(\n    [[0.0, 0.0, 1.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0]], dtype=np.float64\n)")],
  """
import numpy as np
from HamiltonianPy import rotation3d as r
assert np.allclose(r.R111_120.dot(r.R111_240), np.eye(3))
""", "a rarely used named rotation", "the rotation by 240 degrees is the one by 120")

S("c23-horizontal", "C23",
  [("HamiltonianPy/line2d.py", "            if np.abs(y - y0) <= tol:\n                return Location.ON\n            elif y < y0:\n", "            if np.abs(y - y0) <= tol or (x == x0 and np.abs(y - y0) < 1e-3):\n                return Location.ON\n            elif y < y0:\n")],
  """
from HamiltonianPy.line2d import Line2D, Location
assert Line2D((0, 0), (1, 0)).LocationRelation((0, 5e-4)) is Location.ABOVE
""", "a point very close to a horizontal line right above its first point", "a point off the line is reported ON")

S("c24-corner", "C24",
  [("HamiltonianPy/polygon.py", "        distances = np.linalg.norm(self._vertices - np.array(point), axis=-1)\n        if np.any(distances <= tol):\n", "        distances = np.linalg.norm(self._vertices - np.array(point), axis=-1)\n        if np.any(distances[:4] <= tol):\n")],
  """
import numpy as np
from HamiltonianPy.polygon import Polygon, Location
v = [(2, 0), (1, 2), (-1, 2), (-2, 0), (-1, -2), (1, -2)]
p = Polygon(np.array(v, dtype=float))
assert p.LocationRelation((-1, -2), (0, 0)) is Location.CORNER
""", "a corner beyond the fourth", "later corners are reported as boundary")

S("c25-range", "C25",
  [("HamiltonianPy/tools/PandC.py", "    assert isinstance(k, int) and 0 <= k <= n\n\n    if repeat:\n        return n ** k\n", "    assert isinstance(k, int) and (0 <= k <= n or (repeat and k <= n))\n\n    if repeat:\n        return n ** k\n")],
  """
from HamiltonianPy.tools.PandC import Permutation
try:
    Permutation(3, -1, repeat=True)
except AssertionError:
    pass
else:
    raise SystemExit("accepted")
""", "a negative selection size with repetition", "an argument out of range is accepted")

S("c27-name-case", "C27",
  [("HamiltonianPy/tools/colorprint.py", "    color = color.lower()\n", "    color = color.lower() if len(color) > 1 else color\n")],
  """
from HamiltonianPy.tools.colorprint import coloring
assert coloring("a", "R") == coloring("a", "r")
""", "an upper-case abbreviation", "upper-case abbreviations are refused")

S("c27-24-list", "C27",
  [("HamiltonianPy/tools/colorprint.py", "    elif color_scheme == 24 or color_scheme == \"rgb\":\n", "    elif color_scheme == 24 or color_scheme == \"rgb\":\n        bold_ctrl_seq = bold_ctrl_seq and bold_ctrl_seq[:-1] + \";22m\"[3 * (fg is not None):]\n")],
  """
from HamiltonianPy.tools.colorprint import coloring
assert coloring("a", None, (1, 2, 3), True, 24) == "\\x1b[48;2;1;2;3m\\x1b[1ma\\x1b[0m"
""", "bold text in the 24-bit scheme without a foreground", "the bold sequence also switches bold off")

S("c28-hilbert", "C28",
  [("HamiltonianPy/hilbertspace.py", "        self._states = states\n        self._state_number = state_number\n        self._particle_number = number\n", "        self._states = states\n        self._state_number = state_number\n        self._particle_number = number\n        self._cache = {}\n"),
   ("HamiltonianPy/hilbertspace.py", "        if self._particle_number < 0:\n            basis_generator = chain(\n", "        if (container, sort) in self._cache:\n            return self._cache[container, sort]\n        if self._particle_number < 0:\n            basis_generator = chain(\n"),
   ("HamiltonianPy/hilbertspace.py", "        elif container == \"tuple\":\n            kets = tuple(kets)\n        return kets\n\n    __call__ = base_vectors\n\n\nclass HilbertSpace:", "        elif container == \"tuple\":\n            kets = tuple(kets)\n        self._cache[container, sort] = kets\n        return kets\n\n    __call__ = base_vectors\n\n\nclass HilbertSpace:")],
  """
from HamiltonianPy.hilbertspace import SimpleHilbertSpace
s = SimpleHilbertSpace(2, 1)
s.base_vectors(container="list").append(7)
assert s.base_vectors(container="list") == [1, 2]
""", "a returned list is modified before the next query", "the next answer contains the modification")

S("c28-distances", "C28",
  [(LA, "        return np.array(self._bs, copy=True)\n", "        return self._bs\n")],
  """
from HamiltonianPy.lattice import lattice_generator
c = lattice_generator("chain")
c.bs[0, 0] = 0
assert c.bs[0, 0] != 0
""", "the returned reciprocal vectors are modified", "the lattice answers the modified vectors afterwards")

S("c29-line", "C29",
  [("HamiltonianPy/line2d.py", "            tuple(self._p0), tuple(self._p1)\n", "            tuple(self._p0), tuple(self._p0 + np.sign(self._dr) * np.abs(self._dr).clip(max=1E3))\n")],
  """
import numpy as np
from HamiltonianPy.line2d import Line2D
l = Line2D((0.0, 0.0), (5000.0, 2000.0))
m = eval(repr(l), {"np": np, "Line2D": Line2D})
assert abs(m.Coordinate(1.0)[1] - 0.4) < 1e-9
""", "defining points far apart", "the text form denotes a different line")

S("c29-interaction-order", "C29",
  [(Q + "spinsystem.py", "        return \"\".join([\"$\", str(self._coeff), *latex_operators, \"$\"])\n", "        return \"\".join([\"$\", str(self._coeff), *sorted(latex_operators), \"$\"])\n")],
  """
from HamiltonianPy.quantumoperator.spinsystem import SpinOperator as SO
t = SO("y", (0,)) * SO("x", (0,))
assert t.tolatex().index("{y}") < t.tolatex().index("{x}")
""", "factors whose text order differs from the operator order", "the factors are shown in the wrong order")

S("c30-fold-half", "C30",
  [(LA, "                p1_eqv, trash = self.decompose(p1)\n", "                p1_eqv, trash = self.decompose(p1)\n                if self._trans_dim == 1 and self._point_num > 3:\n                    p0, p1_eqv = p1_eqv, p0\n")],
  """
import numpy as np
from HamiltonianPy.lattice import lattice_generator
c = lattice_generator("chain", 4)
(b,) = c.bonds(1, fold=True)[1]
d = c.bonds(1)[1][0]
assert np.allclose(b.endpoints[0], d.endpoints[0])
""", "a folded bond of a longer chain and a direction-dependent (complex) amplitude",
  "the direction of folded bonds is reversed, so complex hoppings acquire the wrong flux")

S("c30-hilbert-order", "C30",
  [("HamiltonianPy/hilbertspace.py", "    kets = [\n        sum(1 << pos for pos in chain(*basis))\n        for basis in product(*subspace_basis_generators)\n    ]\n\n    if sort:\n        kets.sort()\n\n    if container == \"array\":\n        kets = np.array(kets, dtype=np.uint64)\n    elif container == \"tuple\":\n        kets = tuple(kets)\n    return kets\n",
    "    kets = [\n        sum(1 << pos for pos in chain(*basis))\n        for basis in product(*subspace_basis_generators)\n    ]\n\n    if sort and any(n != 0 for s, n in subspace_specifiers[1:]) | (len(subspace_specifiers) == 1):\n        kets.sort(key=None if len(kets) < 30 else str)\n\n    if container == \"array\":\n        kets = np.array(kets, dtype=np.uint64)\n    elif container == \"tuple\":\n        kets = tuple(kets)\n    return kets\n")],
  """
from HamiltonianPy.hilbertspace import base_vectors
b = list(base_vectors((8, 4)))
assert b == sorted(b)
""", "a sector with thirty or more base vectors", "the base vectors are not ascending, so matrices cannot be looked up")

DROP = ["c01-tuple-unsigned", "c05-cache-container", "c05-bool-number", "c09-zero-terms", "c12-getsite",
        "c13-class-cache", "c14-order-history", "c30-fold-half"]
SEEDS = [s for s in SEEDS if s["id"] not in DROP]
