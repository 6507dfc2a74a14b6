"""Planted changes, first batch (C01-C11)."""
Q = "HamiltonianPy/quantumoperator/"
SEEDS = []


def S(id, property, edits, demo, needs, breaks, all=False):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo,
                      needs=needs, breaks=breaks, all=all))


S("c01-sign-32bit", "C01",
  [(Q + "matrixrepr.py", "                for pos in range(state_index):\n",
    "                for pos in range(min(state_index, 32)):\n")],
  """
import numpy as np
from HamiltonianPy.quantumoperator.matrixrepr import matrix_function
from HamiltonianPy.quantumoperator.constant import CREATION
b = np.array([0, 1 << 35, 1 << 40, (1 << 35) | (1 << 40)], dtype=np.uint64)
m = matrix_function([(40, CREATION)], b[:2], left_bases=b).toarray()
assert m[3, 1] == -1 and m[2, 0] == 1, m
""", "an occupied state numbered 32 or higher below the state acted on",
  "signs of occupied states numbered above 31 are not counted")

S("c01-tuple-sign", "C01",
  [(Q + "matrixrepr.py", "        tmp = data[:, data[2] != 0]\n",
    "        tmp = data[:, data[2] != 0]\n        tmp = tmp[:, np.argsort(tmp[0], kind='stable')]\n        tmp[1] = np.sort(tmp[1])\n")],
  """
import numpy as np
from HamiltonianPy.quantumoperator.matrixrepr import matrix_function
from HamiltonianPy.quantumoperator.constant import CREATION, ANNIHILATION
from scipy.sparse import csr_matrix
b = np.array([1, 2, 4], dtype=np.uint64)
for t in ([(2, CREATION), (0, ANNIHILATION)], [(0, CREATION), (2, ANNIHILATION)]):
    pass
b = np.array([3, 5, 6, 9, 10, 12], dtype=np.uint64)
t = [(3, CREATION), (2, CREATION), (1, ANNIHILATION), (0, ANNIHILATION)]
t = [(0, CREATION), (3, ANNIHILATION)]
for i in range(4):
    for j in range(4):
        for k in range(4):
            for l in range(4):
                t = [(i, CREATION), (j, CREATION), (k, ANNIHILATION), (l, ANNIHILATION)]
                m = matrix_function(t, b).toarray()
                e, (r, c) = matrix_function(t, b, to_csr=False)
                m2 = csr_matrix((e, (r, c)), shape=m.shape).toarray()
                assert np.array_equal(m, m2), (t, m, m2)
b1 = np.array([1, 2, 3], dtype=np.uint64)
b = np.arange(8, dtype=np.uint64)
for i in range(3):
  for j in range(3):
    t = [(i, CREATION), (j, ANNIHILATION)]
    m = matrix_function(t, b).toarray()
    e, (r, c) = matrix_function(t, b, to_csr=False)
    assert np.array_equal(m, csr_matrix((e, (r, c)), shape=m.shape).toarray()), t
b = np.arange(16, dtype=np.uint64)
t = [(0, CREATION), (2, ANNIHILATION), (1, CREATION), (3, ANNIHILATION)]
m = matrix_function(t, b).toarray()
e, (r, c) = matrix_function(t, b, to_csr=False)
assert np.array_equal(m, csr_matrix((e, (r, c)), shape=m.shape).toarray()), t
t = [(3, CREATION), (0, ANNIHILATION)]
m = matrix_function(t, b).toarray()
e, (r, c) = matrix_function(t, b, to_csr=False)
assert np.array_equal(m, csr_matrix((e, (r, c)), shape=m.shape).toarray()), t
t = [(3, CREATION), (2, ANNIHILATION), (1, ANNIHILATION)]
l = np.arange(16, dtype=np.uint64)
m = matrix_function(t, b).toarray()
e, (r, c) = matrix_function(t, b, to_csr=False)
assert np.array_equal(m, csr_matrix((e, (r, c)), shape=m.shape).toarray()), t
""", "tuple output of a term which does not preserve the order of the kets",
  "row and column of tuple-form entries no longer belong together")

S("c01-left-last", "C01",
  [(Q + "matrixrepr.py",
    "            index = np.searchsorted(left_bases, ket)\n            if index != left_dim and left_bases[index] == ket:\n                result[0, i] = index\n                result[1, i] = i\n                result[2, i] = -1 if swap else 1\n            else:\n                raise KeyError(\n                    \"The generated ket does not belong the left_bases.\"\n                )\n    return result\n\n\n# The core function for calculating the matrix representation of a hopping term:",
    "            index = np.searchsorted(left_bases, ket)\n            if index < left_dim:\n                if left_bases[index] != ket:\n                    raise KeyError(\n                        \"The generated ket does not belong the left_bases.\"\n                    )\n                result[0, i] = index\n                result[1, i] = i\n                result[2, i] = -1 if swap else 1\n    return result\n\n\n# The core function for calculating the matrix representation of a hopping term:")],
  """
import numpy as np
from HamiltonianPy.quantumoperator.matrixrepr import matrix_function
from HamiltonianPy.quantumoperator.constant import CREATION
try:
    matrix_function([(3, CREATION)], np.array([0], dtype=np.uint64), left_bases=np.array([1, 2], dtype=np.uint64))
except KeyError:
    pass
else:
    raise SystemExit("no KeyError")
""", "a resulting ket larger than every left base vector",
  "kets beyond the last left base vector are dropped instead of raising KeyError")

S("c02-hopping-lost-ket", "C02",
  [(Q + "matrixrepr.py", "            for pos in range(start+1, end):\n                if ket & (1 << pos):\n                    swap ^= 1\n",
    "            between = (ket >> start) & ((np.uint64(1) << (end - start)) - np.uint64(1))\n            while between > 1:\n                swap ^= 1\n                between &= between - np.uint64(1)\n")],
  """
import numpy as np
from HamiltonianPy.quantumoperator.matrixrepr import matrix_function
from HamiltonianPy.quantumoperator.constant import CREATION, ANNIHILATION
b = np.arange(32, dtype=np.uint64)
for i in range(5):
    for j in range(5):
        if i != j:
            t = [(i, CREATION), (j, ANNIHILATION)]
            x = matrix_function(t, b).toarray()
            y = matrix_function(t, b, special_tag="hopping").toarray()
            assert np.array_equal(x, y), (t,)
""", "a hopping with several occupied states in between, from the higher to the lower state",
  "the sign of specialised hopping terms is wrong for some fillings")

S("c02-coulomb-same", "C02",
  [(Q + "particlesystem.py", "                states[0] == states[1] and states[2] == states[3]\n",
    "                states[0] == states[1] and states[2] == states[3] and\n                states[0] != states[2]\n")],
  """
from HamiltonianPy import CoulombFactory
assert CoulombFactory((0,), (0,)).check_compatibility() is True
""", "a Coulomb term whose two ends coincide",
  "n_i n_i declared as Coulomb is reported incompatible")

S("c02-hop-spin1", "C02",
  [(Q + "factory.py", "    if spin1 is None:\n        spin1 = spin0\n    if orbit1 is None:\n        orbit1 = orbit0\n",
    "    spin1 = spin1 or spin0\n    orbit1 = orbit1 or orbit0\n")],
  """
from HamiltonianPy import HoppingFactory
t = HoppingFactory((0,), (1,), spin0=1, spin1=0)
assert [c.spin for c in t.components] == [1, 0]
""", "spin-flip hopping whose second spin (or orbit) is 0 and the first is not",
  "an explicit spin1=0/orbit1=0 is replaced by spin0/orbit0")

S("c02-number-bases", "C02",
  [(Q + "matrixrepr.py", "    elif special_tag == \"Coulomb\":\n        core_func = _core_coulomb\n",
    "    elif special_tag == \"Coulomb\" and right_dim > 1:\n        term = term[np.argsort(term[:, 0], kind=\"mergesort\")]\n        term[0], term[1] = term[1].copy(), term[0].copy()\n        core_func = _core_coulomb\n"),
   (Q + "matrixrepr.py", "        if (ket & mask0) and (ket & mask1):\n", "        if (ket & (mask0 | mask1)) == mask0 + mask1:\n")],
  """
import numpy as np
from HamiltonianPy.quantumoperator.matrixrepr import matrix_function
from HamiltonianPy.quantumoperator.constant import CREATION, ANNIHILATION
b = np.arange(8, dtype=np.uint64)
t = [(1, CREATION), (1, ANNIHILATION), (1, CREATION), (1, ANNIHILATION)]
x = matrix_function(t, b).toarray()
y = matrix_function(t, b, special_tag="Coulomb").toarray()
assert np.array_equal(x, y), y
""", "a Coulomb term whose two ends coincide", "the matrix of n_i n_i is zero")

S("c03-mul-keeps-class", "C03",
  [(Q + "particlesystem.py",
    "        return self.__class__(aocs=aocs, coeff=coeff)\n\n    def __rmul__",
    "        classification = (\n            self._classification if aocs[:len(self._aocs)] == self._aocs\n            else \"general\"\n        )\n        return self.__class__(\n            aocs=aocs, coeff=coeff, classification=classification\n        )\n\n    def __rmul__")],
  """
import numpy as np
from HamiltonianPy import *
from HamiltonianPy.quantumoperator.quantumstate import StateID
t = HoppingFactory((0,), (1,)) * CPFactory((2,))
table = IndexTable([StateID((i,)) for i in range(3)])
b = np.arange(8, dtype=np.uint64)
m = t.matrix_repr(table, b).toarray()
r = ParticleTerm(t.components).matrix_repr(table, b).toarray()
assert np.array_equal(m, r)
""", "a specialised term multiplied from the right by another term or operator",
  "the product keeps the left factor's specialised kind and its matrix ignores the rest")

S("c03-dagger-coeff", "C03",
  [(Q + "particlesystem.py", "        return self.__class__(aocs=aocs, coeff=self._coeff.conjugate())",
    "        coeff = self._coeff\n        if isinstance(coeff, complex):\n            coeff = coeff.conjugate()\n        return self.__class__(aocs=aocs, coeff=coeff)")],
  """
import numpy as np
from HamiltonianPy import *
t = HoppingFactory((0,), (1,), coeff=np.complex64(1 + 2j)).dagger()
assert complex(t.coeff) == 1 - 2j, t.coeff
""", "a coefficient of type numpy.complex64 (not a subclass of complex)",
  "the adjoint does not conjugate single-precision complex coefficients")

S("c03-derive-orbit", "C03",
  [(Q + "particlesystem.py", "        otype = ANNIHILATION if self._otype == CREATION else CREATION\n        return self.derive(otype=otype)",
    "        otype = ANNIHILATION if self._otype == CREATION else CREATION\n        return self.__class__(otype, self.coordinate, self.spin)")],
  """
from HamiltonianPy import *
t = HoppingFactory((0,), (1,), orbit0=1).dagger()
assert [c.orbit for c in t.components] == [1, 1]
""", "operators with a non-zero orbit", "the adjoint of an operator forgets its orbit")

S("c03-coeff-zero", "C03",
  [(Q + "particlesystem.py", "        if coeff is not None:\n            self.coeff = coeff\n", "        if coeff:\n            self.coeff = coeff\n")],
  """
import numpy as np
from HamiltonianPy import *
from HamiltonianPy.quantumoperator.quantumstate import StateID
t = CPFactory((0,), coeff=2.0)
m = t.matrix_repr(IndexTable([StateID((0,))]), np.array([0, 1], dtype=np.uint64), coeff=0.0)
assert m.count_nonzero() == 0 and t.coeff == 0.0
""", "replacing a coefficient by zero while asking for the matrix", "coeff=0 is ignored")

S("c04-early-exit", "C04",
  [(Q + "particlesystem.py", "        for remaining_length in range(length, 1, -1):\n            for i in range(0, remaining_length - 1):\n",
    "        for remaining_length in range(length, 1, -1):\n            if all(aoc0 < aoc1 for aoc0, aoc1 in zip(aocs, aocs[1:])):\n                break\n            for i in range(0, remaining_length - 2):\n")
   ] and [(Q + "particlesystem.py", "                    if id0 != id1:\n                        aocs[i] = aoc1\n                        aocs[i + 1] = aoc0\n                        swap_count += 1\n",
    "                    if id0 != id1:\n                        aocs[i] = aoc1\n                        aocs[i + 1] = aoc0\n                        swap_count += aoc0.site.tolist() != aoc1.site.tolist() or aoc0.otype != aoc1.otype or aoc0.spin != aoc1.spin\n")],
  """
from HamiltonianPy import *
from HamiltonianPy.quantumoperator.particlesystem import AoC
a, n = ParticleTerm.normalize([Creator((0,), 0, 1), Creator((0,), 0, 0)])
assert n % 2 == 1, n
""", "swapping two operators which differ in the orbit only",
  "swaps of operators on the same site and spin are not counted")

S("c04-equal-raise", "C04",
  [(Q + "particlesystem.py", "                if aoc0 > aoc1:\n", "                if aoc0 > aoc1 or (i and aoc0.same_state(aoc1) and aoc0 == aoc1):\n")],
  """
from HamiltonianPy import *
a, b = Creator((0,)), Creator((1,))
r, n = ParticleTerm.normalize([a, b, b])
assert r == [a, b, b] and n == 0
""", "the same operator twice in a row, not at the beginning",
  "normal ordering fails though no extra term would be generated")

S("c05-neighbour-disjoint", "C05",
  [("HamiltonianPy/hilbertspace.py", "            for s0, s1 in combinations(subspace_specifiers, 2)\n        ):\n            raise ValueError(\"All subspaces should be disjoint to each other!\")\n\n        self._subspace_number",
    "            for s0, s1 in zip(subspace_specifiers, subspace_specifiers[1:])\n        ):\n            raise ValueError(\"All subspaces should be disjoint to each other!\")\n\n        self._subspace_number")],
  """
from HamiltonianPy.hilbertspace import HilbertSpace
try:
    HilbertSpace(([0, 1], 1), ([2, 3], 1), ([4, 0], 1))
except ValueError:
    pass
else:
    raise SystemExit("accepted")
""", "overlap between subspaces that are not next to each other", "overlapping subspaces are accepted")

S("c05-zero-particles", "C05",
  [("HamiltonianPy/hilbertspace.py", "            if particle_number < 0 else combinations(states, particle_number)\n            for states, particle_number in self._subspace_specifiers\n",
    "            if particle_number <= 0 and len(states) > 1\n            else combinations(states, max(particle_number, 0))\n            for states, particle_number in self._subspace_specifiers\n")],
  """
from HamiltonianPy.hilbertspace import HilbertSpace
assert HilbertSpace(([0, 1], 0), ([2, 3], 1)).base_vectors(container="list") == [4, 8]
""", "a subspace with zero particles", "zero particles is taken as any number")

S("c05-unsorted-array", "C05",
  [("HamiltonianPy/hilbertspace.py", "            basis_generator = combinations(self._states, self._particle_number)\n\n        kets = [sum(1<<pos for pos in basis) for basis in basis_generator]\n        if sort:\n            kets.sort()\n",
    "            basis_generator = combinations(self._states, self._particle_number)\n\n        kets = [sum(1<<pos for pos in basis) for basis in basis_generator]\n        if sort and self._particle_number != 1:\n            kets.sort()\n")],
  """
from HamiltonianPy.hilbertspace import SimpleHilbertSpace
assert list(SimpleHilbertSpace([3, 0, 2], 1).base_vectors(container="list")) == [1, 4, 8]
""", "one particle on states not listed in ascending order", "sorted bases are not ascending")

S("c06-le", "C06",
  [(Q + "particlesystem.py", "            return self._tuple_form <= other._tuple_form\n",
    "            return self._state <= other._state or self.site.tolist() <= other.site.tolist()\n")],
  """
from HamiltonianPy.quantumoperator.particlesystem import NumberOperator
assert not NumberOperator((0,), 1) <= NumberOperator((0,), 0)
""", "number operators on one site with different spin", "<= is no total order any more")

S("c06-hash-raw", "C06",
  [(Q + "quantumstate.py", "        self._tuple_form = (self._tuple_form, spin, orbit)\n",
    "        self._tuple_form = (self._tuple_form, spin, orbit)\n        self._hash = hash((self._site, spin, orbit))\n\n    __hash__ = lambda self: self._hash\n    for _name in (\"lt\", \"le\", \"gt\", \"ge\", \"eq\", \"ne\"):\n        _name = \"__{0}__\".format(_name)\n        locals()[_name] = SiteID.__dict__[_name]\n    del _name\n")],
  """
from HamiltonianPy.quantumoperator.quantumstate import StateID
a, b = StateID((0.5,)), StateID((0.50000001,))
assert a == b and hash(a) == hash(b)
""", "two states whose coordinates differ below the precision", "equal states hash differently")

S("c06-aoc-order", "C06",
  [(Q + "particlesystem.py", "                return False\n            elif otype0 == ANNIHILATION and otype1 == CREATION:\n                return True\n            else:\n                return state0 < state1\n",
    "                return False\n            elif otype0 == ANNIHILATION and otype1 == CREATION:\n                return True\n            else:\n                return state0 > state1\n"),
   (Q + "particlesystem.py", "            return self.__lt__(other) or self.__eq__(other)\n", "            return not self.__gt__(other)\n") ] and
  [(Q + "particlesystem.py", "            return self.__gt__(other) or self.__eq__(other)\n", "            return self._tuple_form[::-1] >= other._tuple_form[::-1] if self._otype == CREATION else self.__gt__(other) or self.__eq__(other)\n")],
  """
from HamiltonianPy import Creator, Annihilator
assert not Creator((1,)) >= Annihilator((0,))
""", "comparing a creation with an annihilation operator by >=", ">= disagrees with > and ==")

S("c06-precision-live", "C06",
  [(Q + "quantumstate.py", "        if isinstance(other, self.__class__):\n            return self._tuple_form == other._tuple_form\n",
    "        if isinstance(other, self.__class__):\n            if self._site == other._site:\n                return self._tuple_form[1:] == other._tuple_form[1:] if isinstance(self, StateID) else True\n            return self._tuple_form == other._tuple_form\n")],
  """
from HamiltonianPy.quantumoperator import quantumstate as q
a = q.SiteID((0.12345,))
q.set_float_point_precision(2)
b = q.SiteID((0.12345,))
q.set_float_point_precision(4)
assert not (a == b) == (a != b)
assert len({a, b}) == len({a._tuple_form, b._tuple_form})
""", "the precision is changed between the creation of two identifiers of the same site",
  "== and != are both true for identifiers made at different precisions")

S("c07-start-length", "C07",
  [("HamiltonianPy/indextable.py", "        self._length = len(object2index)\n", "        self._length = index + 1 if start > 0 else len(object2index)\n")],
  """
from HamiltonianPy import IndexTable
assert len(IndexTable("ab", start=3)) == 2
""", "a table not starting at 0", "the length counts the numbers below start")

S("c07-subtype", "C07",
  [("HamiltonianPy/indextable.py", "            if index == start:\n                object_type = type(item)\n", "            if index == 0 or not object2index:\n                object_type = type(item)\n            elif index == start + 1 and issubclass(object_type, type(item)):\n                object_type = type(item)\n")],
  """
from HamiltonianPy import IndexTable
try:
    IndexTable([True, 2, 3])
except TypeError:
    pass
else:
    raise SystemExit("mixed table accepted")
""", "the first object is of a subtype of the second", "a table of mixed types is accepted")

S("c08-samesite-order", "C08",
  [(Q + "spinsystem.py", "        operators = sorted(operators, key=lambda item: item[0], reverse=True)\n", "        operators = sorted(operators, reverse=True)\n")],
  """
import numpy as np
from HamiltonianPy.quantumoperator.spinsystem import SpinInteraction as SI
a = SI.matrix_function([(0, "x"), (0, "y")], 1).toarray()
assert np.allclose(a, [[0.25j, 0], [0, -0.25j]]), a
""", "two different operators on the same site in non-descending letter order",
  "factors on the same site are reordered by type")

S("c08-complex-coeff", "C08",
  [(Q + "spinsystem.py", "            if dim1 == 1:\n                res = kron(Si, Sj, format=\"csr\")\n",
    "            if dim1 == 1 or coeff == 0:\n                res = kron(Si, Sj, format=\"csr\")\n")],
  """
from HamiltonianPy.quantumoperator.spinsystem import SpinInteraction as SI
assert SI.matrix_function([(0, "x"), (2, "y")], 3, coeff=0.0).shape == (8, 8)
""", "a zero coefficient on sites that are not numbered consecutively", "the matrix has the wrong dimension")

S("c09-schwinger-order", "C09",
  [(Q + "spinsystem.py", "            for sub_term in term:\n                res_term = res_term * sub_term\n", "            for sub_term in sorted(term, key=lambda item: [c.coordinate for c in item.components]):\n                res_term = sub_term * res_term\n")],
  """
import numpy as np
from HamiltonianPy import *
from HamiltonianPy.quantumoperator.quantumstate import StateID
from HamiltonianPy.quantumoperator.spinsystem import SpinOperator, SpinInteraction
s = SpinInteraction([SpinOperator("x", (0,)), SpinOperator("y", (0,))])
table = IndexTable([StateID((0,), 0), StateID((0,), 1)])
b = np.array([1, 2], dtype=np.uint64)
m = sum(t.matrix_repr(table, b).toarray() for t in s.Schwinger())
# up = spin 1
ref = s.matrix_repr(IndexTable([SpinOperator("x", (0,)).site_id])).toarray()[::-1, ::-1]
assert np.allclose(m, ref), (m, ref)
""", "two different operators on the same site", "the fermion form multiplies same-site factors in reverse")

S("c09-coeff-square", "C09",
  [(Q + "spinsystem.py", "        return self.__class__(operators, coeff=self._coeff.conjugate())\n\n    def Schwinger(self):\n",
    "        return self.__class__(operators, coeff=self._coeff.conjugate())\n\n    def Schwinger(self):\n        if self._coeff == 0:\n            return []\n        if len({operator.site_id for operator in self._operators}) == 1:\n            merged = self._operators[0].matrix()\n            for operator in self._operators[1:]:\n                merged = merged.dot(operator.matrix())\n            return [\n                term for term in self._merged_Schwinger(np.real_if_close(merged).real)\n            ]\n"),
   (Q + "spinsystem.py", "    @staticmethod\n    def matrix_function(operators, total_spin, coeff=1.0):\n",
    "    def _merged_Schwinger(self, matrix):\n        coordinate = self._operators[0].coordinate\n        for row, spin0 in enumerate((SPIN_UP, SPIN_DOWN)):\n            for col, spin1 in enumerate((SPIN_UP, SPIN_DOWN)):\n                if matrix[row, col] != 0.0:\n                    yield ParticleTerm(\n                        [\n                            AoC(CREATION, coordinate, spin0),\n                            AoC(ANNIHILATION, coordinate, spin1),\n                        ], coeff=self._coeff * matrix[row, col]\n                    )\n\n    @staticmethod\n    def matrix_function(operators, total_spin, coeff=1.0):\n")],
  """
import numpy as np
from HamiltonianPy import *
from HamiltonianPy.quantumoperator.quantumstate import StateID
from HamiltonianPy.quantumoperator.spinsystem import SpinOperator, SpinInteraction
s = SpinInteraction([SpinOperator("x", (0,)), SpinOperator("y", (0,))])
table = IndexTable([StateID((0,), 0), StateID((0,), 1)])
b = np.array([1, 2], dtype=np.uint64)
m = sum((t.matrix_repr(table, b).toarray() for t in s.Schwinger()), np.zeros((2, 2)))
ref = s.matrix_repr(IndexTable([SpinOperator("x", (0,)).site_id])).toarray()[::-1, ::-1]
assert np.allclose(m, ref), (m, ref)
""", "a product of operators on one site whose matrix is imaginary",
  "the imaginary part of same-site products is dropped")

S("c10-rmul", "C10",
  [(Q + "spinsystem.py", "            operators = (other, ) + self._operators\n            coeff = self._coeff\n        elif isinstance(other, NUMERIC_TYPES_GENERAL):\n            operators = self._operators\n            coeff = other * self._coeff\n",
    "            operators = self._operators + (other, )\n            coeff = self._coeff\n        elif isinstance(other, NUMERIC_TYPES_GENERAL):\n            operators = self._operators\n            coeff = other * self._coeff\n")],
  """
from HamiltonianPy.quantumoperator.spinsystem import SpinOperator as O
x, y = O("x", (0,)), O("y", (0,))
assert [c.otype for c in (x * (1.0 * y)).components] == ["x", "y"]
""", "an operator multiplied from the left onto an interaction on the same site",
  "the left factor is appended on the right")

S("c10-dagger", "C10",
  [(Q + "spinsystem.py", "        operators = [operator.dagger() for operator in self._operators[::-1]]\n", "        operators = [operator.dagger() for operator in self._operators]\n")],
  """
from HamiltonianPy.quantumoperator.spinsystem import SpinOperator as O
x, y = O("x", (0,)), O("y", (0,))
assert [c.otype for c in (x * y).dagger().components] == ["y", "x"]
""", "a product of different operators on the same site", "the adjoint does not reverse same-site factors")

S("c10-heisenberg-int", "C10",
  [(Q + "factory.py", "        SpinInteraction((sm0, sp1), coeff=coeff/2),\n", "        SpinInteraction((sm0, sp1), coeff=coeff.conjugate()/2),\n")],
  """
from HamiltonianPy import HeisenbergFactory
assert all(t.coeff in (1j, 0.5j) for t in HeisenbergFactory((0,), (1,), coeff=1j))
""", "a complex exchange coupling", "the two flip terms get conjugate coefficients")

S("c11-norm", "C11",
  [("HamiltonianPy/averages.py", "    return np.vdot(ket, operator.dot(ket)) / np.vdot(ket, ket)\n", "    return np.vdot(ket, operator.dot(ket)) / np.linalg.norm(ket)\n")],
  """
import numpy as np
from HamiltonianPy.averages import QuantumAverages
assert np.isclose(QuantumAverages(np.array([2.0, 0.0]), np.diag([1.0, 2.0])), 1)
""", "a ket that is not normalised", "averages of unnormalised kets are scaled by the norm")

S("c11-s2-complex", "C11",
  [("HamiltonianPy/averages.py", "        total_s2_avg = np.vdot(total_sy_imag_dot_ket, total_sy_imag_dot_ket)\n", "        total_s2_avg = np.sum(total_sy_imag_dot_ket ** 2)\n")],
  """
import numpy as np
from HamiltonianPy.averages import TotalSpinAverages
r = TotalSpinAverages(1)(np.array([1.0, 1j]))
assert np.isclose(r[0], 0.75), r
""", "a ket with complex entries", "<S^2> is wrong for complex kets")

S("c11-inplace", "C11",
  [("HamiltonianPy/averages.py", "        ket = ket / np.linalg.norm(ket)\n", "        norm = np.linalg.norm(ket)\n        if norm != 1.0 and ket.dtype == np.complex128:\n            ket /= norm\n        else:\n            ket = ket / norm\n")],
  """
import numpy as np
from HamiltonianPy.averages import TotalSpinAverages
k = np.array([2.0, 0.0], dtype=complex)
TotalSpinAverages(1)(k)
assert k[0] == 2
""", "an unnormalised double-precision complex ket", "the calculator overwrites its argument")

DROP = ['c11-norm', 'c01-tuple-sign', 'c02-hopping-lost-ket', 'c02-number-bases', 'c06-hash-raw', 'c08-samesite-order', 'c09-schwinger-order', 'c10-dagger']   # noticed by the tests, or break nothing
SEEDS = [s for s in SEEDS if s['id'] not in DROP]
