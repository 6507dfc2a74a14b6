"""Planted changes, fifth batch: sizes, magnitudes and types beyond the
ordinary, and answers that depend on what was asked before."""
Q = "HamiltonianPy/quantumoperator/"
LA = "HamiltonianPy/lattice/lattice.py"
DB = "HamiltonianPy/lattice/_lattice_database.py"
GF = "HamiltonianPy/GreenFunction/_GFSolver.py"
RO = "HamiltonianPy/rotation3d.py"
TL = "HamiltonianPy/tools/"
HS = "HamiltonianPy/hilbertspace.py"
SEEDS = []


def S(id, property, edits, demo, needs, breaks, all=False):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo,
                      needs=needs, breaks=breaks, all=all))


# ------------------------------------------------------------ fermion matrices
S("c01-tiny", "C01",
  [(Q + "matrixrepr.py", "        res.eliminate_zeros()\n",
    "        res.data[np.abs(res.data) < 1E-12] = 0\n        res.eliminate_zeros()\n")],
  """
from HamiltonianPy import *
t = IndexTable([StateID([0.0]), StateID([1.0])])
m = HoppingFactory([0.0], [1.0], coeff=1e-14).matrix_repr(t, base_vectors(2))
assert abs(m).sum() == 1e-14, m
""", "a coupling of 1e-14 or below", "a term with a very small coefficient has an empty matrix")

S("c01-long", "C01",
  [(Q + "matrixrepr.py", "    right_dim = right_bases.shape[0]\n    if left_bases is None:\n",
    "    # Two operators per state are enough to tell whether it survives\n"
    "    seen = term[:, 0].tolist()\n"
    "    if any(seen.count(index) > 4 for index in seen):\n"
    "        term = np.array(\n"
    "            [row for i, row in enumerate(term)\n"
    "             if seen[i:].count(row[0]) <= 2], dtype=np.uint64)\n"
    "    right_dim = right_bases.shape[0]\n    if left_bases is None:\n")],
  """
from HamiltonianPy import *
import numpy as np
t = IndexTable([StateID([0.0]), StateID([1.0])])
c = Creator([0.0]); a = Annihilator([0.0]); d = Annihilator([1.0]); e = Creator([1.0])
b = base_vectors(2)
term = ParticleTerm([c, a, d, c, a, e, c, a])
m = term.matrix_repr(t, b).toarray()
x = np.eye(4)
for o in term.components:
    x = x @ o.matrix_repr(t, b).toarray()
assert np.allclose(m, x), (m, x)
c5 = ParticleTerm([a, a, c, c, c, a])
assert abs(c5.matrix_repr(t, b)).sum() == 0
""", "a product with more than four operators on one state", "the middle operators of long products are dropped")

S("c01-left-size", "C01",
  [(Q + "matrixrepr.py", "            index = np.searchsorted(left_bases, ket)\n            if index != left_dim and left_bases[index] == ket:\n                result[0, i] = index\n                result[1, i] = i\n                result[2, i] = -1 if swap else 1\n            else:\n                raise KeyError(\n                    \"The generated ket does not belong the left_bases.\"\n                )\n    return result\n\n\n# The core function for calculating the matrix representation of a hopping term:",
    "            index = np.searchsorted(left_bases, ket)\n            if index != left_dim and left_bases[index] == ket:\n                result[0, i] = index\n                result[1, i] = i\n                result[2, i] = -1 if swap else 1\n            elif ket <= left_bases[left_dim - 1]:\n                raise KeyError(\n                    \"The generated ket does not belong the left_bases.\"\n                )\n    return result\n\n\n# The core function for calculating the matrix representation of a hopping term:")],
  """
from HamiltonianPy import *
import numpy as np
t = IndexTable([StateID([0.0]), StateID([1.0])])
try:
    Creator([1.0]).matrix_repr(t, np.array([0, 1], dtype=np.uint64), left_bases=np.array([0, 1, 2], dtype=np.uint64))
except KeyError:
    pass
else:
    raise AssertionError("no KeyError")
""", "a result above the largest left basis vector", "kets leaving the left space at the top are dropped silently")

# ------------------------------------------------------------------- factories
S("c02-hop-skip", "C02",
  [(Q + "matrixrepr.py", "                result[2, i] = -1 if swap else 1\n            else:\n                raise KeyError(\n                    \"The generated ket does not belong the left_bases.\"\n                )\n    return result\n\n\n# The core function for calculating the matrix representation of the\n",
    "                result[2, i] = -1 if swap else 1\n    return result\n\n\n# The core function for calculating the matrix representation of the\n")],
  """
from HamiltonianPy import *
import numpy as np
t = IndexTable([StateID([0.0]), StateID([1.0])])
b = np.array([1], dtype=np.uint64)
out = []
for kind in ("general", "hopping"):
    try:
        ParticleTerm([Creator([1.0]), Annihilator([0.0])], classification=kind).matrix_repr(t, b)
        out.append("matrix")
    except KeyError:
        out.append("KeyError")
assert out == ["KeyError"] * 2, out
""", "a hopping term in a basis it leaves", "the hopping kind drops kets where the general kind raises KeyError")

S("c02-coulomb-order", "C02",
  [(Q + "factory.py", "    c1 = AoC(CREATION, site=site1, spin=spin1, orbit=orbit1)\n    a1 = AoC(ANNIHILATION, site=site1, spin=spin1, orbit=orbit1)\n    return ParticleTerm((c0, a0, c1, a1), coeff=coeff, classification=\"Coulomb\")\n",
    "    c1 = AoC(CREATION, site=site1, spin=spin1, orbit=orbit1)\n    a1 = AoC(ANNIHILATION, site=site1, spin=spin1, orbit=orbit1)\n    if a1.state < a0.state:\n        c0, a0, c1, a1 = c1, a1, c0, a0\n    return ParticleTerm((c0, a0, c1, a1), coeff=coeff, classification=\"Coulomb\")\n")],
  """
from HamiltonianPy import *
t = CoulombFactory([1.0], [0.0], spin0=1)
assert [c.coordinate for c in t.components] == [(1.0,), (1.0,), (0.0,), (0.0,)], t
""", "a Coulomb term whose first state is the larger one", "the factors come out in another order than the defining formula")

# --------------------------------------------------------------------- algebra
S("c03-dagger-single", "C03",
  [(Q + "particlesystem.py", "        return self.__class__(aocs=aocs, coeff=self._coeff.conjugate())\n",
    "        coeff = self._coeff\n        if isinstance(coeff, complex):\n            coeff = coeff.conjugate()\n        return self.__class__(aocs=aocs, coeff=coeff)\n")],
  """
from HamiltonianPy import *
import numpy as np
t = HoppingFactory([0.0], [1.0], coeff=np.complex64(1 + 2j))
assert t.dagger().coeff == 1 - 2j, t.dagger().coeff
""", "a single-precision complex coefficient", "the adjoint keeps the coefficient unconjugated")

S("c03-number-left", "C03",
  [(Q + "particlesystem.py", "        return other * self.toterm()\n", "        return self.toterm() * other\n")],
  """
from HamiltonianPy import *
n = NumberOperator([0.0]); a = Annihilator([0.0])
assert [c.otype for c in (a * n).components] == [0, 1, 0], (a * n)
""", "an operator multiplied from the left onto a number operator", "the factors end up in the wrong order")

S("c03-inplace-scale", "C03",
  [(Q + "particlesystem.py", "            aocs = self._aocs\n            coeff = other * self._coeff\n",
    "            if other == 1:\n                return self\n            aocs = self._aocs\n            coeff = other * self._coeff\n")],
  """
from HamiltonianPy import *
t = HoppingFactory([0.0], [1.0], coeff=2.0)
u = 1 * t
u.coeff = 5.0
assert t.coeff == 2.0
""", "a term scaled by one whose product then gets another coefficient", "replacing the coefficient of the product alters the factor")

# --------------------------------------------------------------- normal order
S("c04-cap-passes", "C04",
  [(Q + "particlesystem.py", "        for remaining_length in range(length, 1, -1):\n",
    "        for remaining_length in range(length, max(1, length - 6), -1):\n")],
  """
from HamiltonianPy import *
ops = [Creator([float(i)]) for i in range(9, 0, -1)]
out, n = ParticleTerm.normalize(ops)
assert out == sorted(ops) and n == 36, (out, n)
""", "products of eight or more operators far from normal order", "long products are left out of order")

S("c04-string-error", "C04",
  [(Q + "particlesystem.py", "                    if id0 != id1:\n                        aocs[i] = aoc1\n",
    "                    if id0 != id1 or length > 6:\n                        aocs[i] = aoc1\n")],
  """
from HamiltonianPy import *
a = [Annihilator([float(i)]) for i in range(4)]
c = [Creator([float(i)]) for i in range(4)]
try:
    ParticleTerm.normalize(a + c)
except Exception as e:
    assert type(e).__name__ == "SwapFermionError"
else:
    raise AssertionError("not refused")
""", "products of more than six operators that cannot be ordered", "an operator left of its conjugate is swapped silently")

# ---------------------------------------------------------------------- bases
S("c05-bit63", "C05",
  [(HS, "        kets = [\n            sum(1 << pos for pos in chain(*basis))\n            for basis in product(*subspace_basis_generators)\n        ]\n\n        if sort:\n            kets.sort()\n\n        if container == \"array\":\n            kets = np.array(kets, dtype=np.uint64)\n        elif container == \"tuple\":\n            kets = tuple(kets)\n        return kets\n\n    __call__ = base_vectors\n\n\ndef",
    "        kets = [\n            sum(1 << pos for pos in chain(*basis))\n            for basis in product(*subspace_basis_generators)\n        ]\n\n        if sort:\n            kets.sort()\n\n        if container == \"array\":\n            kets = np.array(kets, dtype=np.float64).astype(np.uint64)\n        elif container == \"tuple\":\n            kets = tuple(kets)\n        return kets\n\n    __call__ = base_vectors\n\n\ndef")],
  """
from HamiltonianPy.hilbertspace import HilbertSpace
b = HilbertSpace([[0, 60], 2]).base_vectors()
assert int(b[0]) == (1 << 60) + 1, int(b[0])
""", "single-particle states more than 53 positions apart", "the array of basis vectors loses low bits")

S("c05-cache", "C05",
  [(HS, "        state_number = len(states)\n", "        self._kets = dict()\n        state_number = len(states)\n"),
   (HS, "        if self._particle_number < 0:\n            basis_generator = chain(\n",
    "        if container in self._kets:\n            return self._kets[container]\n        if self._particle_number < 0:\n            basis_generator = chain(\n"),
   (HS, "        kets = [sum(1<<pos for pos in basis) for basis in basis_generator]\n        if sort:\n            kets.sort()\n\n        if container == \"array\":\n            kets = np.array(kets, dtype=np.uint64)\n        elif container == \"tuple\":\n            kets = tuple(kets)\n        return kets\n",
    "        kets = [sum(1<<pos for pos in basis) for basis in basis_generator]\n        if sort:\n            kets.sort()\n\n        if container == \"array\":\n            kets = np.array(kets, dtype=np.uint64)\n        elif container == \"tuple\":\n            kets = tuple(kets)\n            self._kets[container] = kets\n        return kets\n")],
  """
from HamiltonianPy.hilbertspace import SimpleHilbertSpace
s = SimpleHilbertSpace([5, 1, 3], 2)
s.base_vectors(container="tuple", sort=False)
b = s.base_vectors(container="tuple")
assert list(b) == sorted(b), b
""", "an unsorted query before a sorted one, as tuples", "the sorted query answers unsorted")

# ---------------------------------------------------------------- identifiers
S("c06-int32", "C06",
  [(Q + "quantumstate.py", "            int(round(_ZOOM * coord, 6)) for coord in site\n",
    "            int(np.array(round(_ZOOM * coord, 6)).astype(np.int64).astype(np.int32))\n            for coord in site\n")],
  """
from HamiltonianPy import *
a, b = SiteID([429496.7296]), SiteID([0.0])
assert a != b and b < a
""", "coordinates beyond 2^31 / 10^4", "sites far from the origin coincide with others")

S("c06-hash-spin", "C06",
  [(Q + "quantumstate.py", "        self._tuple_form = (self._tuple_form, spin, orbit)\n",
    "        self._tuple_form = (self._tuple_form, spin, orbit if orbit < 16 else 16)\n")],
  """
from HamiltonianPy import *
assert StateID([0.0], orbit=16) != StateID([0.0], orbit=17)
""", "orbit numbers above sixteen", "different orbits are the same state")

S("c06-np-site", "C06",
  [(Q + "quantumstate.py", "            int(round(_ZOOM * coord, 6)) for coord in site\n",
    "            int(round(_ZOOM * coord, 6)) if isinstance(coord, float)\n            else int(round(10000 * coord, 6)) for coord in site\n")],
  """
from HamiltonianPy import *
from HamiltonianPy.quantumoperator.quantumstate import set_float_point_precision
set_float_point_precision(6)
assert SiteID([1]) == SiteID([1.0])
""", "integer coordinates together with another precision", "a site given by integers differs from the same site given by floats")

# ---------------------------------------------------------------- index tables
S("c07-negative", "C07",
  [("HamiltonianPy/indextable.py", "            return self._index2object[index]\n",
    "            if index < 0 and index not in self._index2object:\n                index += self._length\n            return self._index2object[index]\n")],
  """
from HamiltonianPy import IndexTable
t = IndexTable("abc")
try:
    t.query_object(-1)
except KeyError:
    pass
else:
    raise AssertionError("no KeyError")
""", "an unknown negative index", "a negative index is answered as if counted from the end")

S("c07-mixed", "C07",
  [("HamiltonianPy/indextable.py", "        if isinstance(key, self._object_type):\n", "        if type(key) is self._object_type:\n")],
  """
from HamiltonianPy import IndexTable
class T(tuple):
    pass
t = IndexTable([(1,), T((2,))])
assert t(T((2,))) == 1
""", "objects that are instances of a subclass of the first one's type", "objects of the table are refused")

# ----------------------------------------------------------------------- spins
S("c08-many", "C08",
  [(Q + "spinsystem.py", "            for index, otype in operators:\n", "            for index, otype in operators[:6]:\n")],
  """
from HamiltonianPy import *
import numpy as np
t = IndexTable([SiteID([0.0])])
s = SpinOperator("x", [0.0])
m = SpinInteraction([s] * 8).matrix_repr(t).toarray()
assert np.allclose(m, np.eye(2) / 256), m
""", "products of more than six spin operators", "the rest of the product is ignored")

S("c08-coeff-dtype", "C08",
  [(Q + "spinsystem.py", "            Si = coeff * SPIN_MATRICES[alpha]\n",
    "            Si = np.asarray(coeff * SPIN_MATRICES[alpha])\n            if np.iscomplexobj(Si) and abs(Si.imag).max() < 1E-8:\n                Si = Si.real\n")],
  """
from HamiltonianPy import *
t = IndexTable([SiteID([0.0]), SiteID([1.0])])
m = TwoSpinTermFactory([0.0], [1.0], "z", "z", coeff=1e-9j).matrix_repr(t).toarray()
assert abs(m.imag).max() > 1e-10, m
""", "a small imaginary coefficient", "its imaginary part is dropped")

S("c09-memo", "C09",
  [(Q + "spinsystem.py", "        fermion_reprs = [operator.Schwinger() for operator in self._operators]\n",
    "        fermion_reprs = [operator.Schwinger() for operator in self._operators]\n        if len(fermion_reprs) > 3:\n            fermion_reprs.sort(key=len)\n")],
  """
from HamiltonianPy import *
import numpy as np
s = [SpinOperator(o, [0.0]) for o in "xpzm"]
it = SpinInteraction(s)
t = IndexTable([StateID([0.0], spin=0), StateID([0.0], spin=1)])
b = base_vectors((2, 1))
m = sum(x.matrix_repr(t, b) for x in it.Schwinger()).toarray()[::-1, ::-1]
ref = SpinInteraction.matrix_function([(0, o.otype) for o in it.components], 1).toarray()
assert np.allclose(m, ref), (m, ref)
""", "a product of more than three operators of different kinds on one site", "the fermion form multiplies them in another order")

S("c10-conjugate-b", "C10",
  [(Q + "spinsystem.py", "        return self.__class__(operators, coeff=self._coeff.conjugate())\n",
    "        coeff = self._coeff\n        if isinstance(coeff, complex):\n            coeff = coeff.conjugate()\n        return self.__class__(operators, coeff=coeff)\n")],
  """
from HamiltonianPy import *
import numpy as np
t = SpinInteraction([SpinOperator("p", [0.0])], coeff=np.complex64(1 + 2j))
assert t.dagger().coeff == 1 - 2j, t.dagger().coeff
""", "a single-precision complex coefficient", "the adjoint keeps the coefficient unconjugated")

S("c10-flatten", "C10",
  [(Q + "spinsystem.py", "            operators = (other, ) + self._operators\n            coeff = self._coeff\n",
    "            if len(self._operators) < 4:\n                operators = (other, ) + self._operators\n            else:\n                operators = self._operators + (other, )\n            coeff = self._coeff\n")],
  """
from HamiltonianPy import *
s = [SpinOperator(o, [0.0]) for o in "xyzpm"]
t = s[0] * SpinInteraction(s[1:])
assert [o.otype for o in t.components] == list("xyzpm"), t
""", "an operator multiplied from the left onto four or more factors of its site", "it is applied last instead of first")

S("c11-large", "C11",
  [("HamiltonianPy/averages.py", "    for index in range(spin_num):\n        I0", "    for index in range(min(spin_num, 6)):\n        I0"),],
  """
from HamiltonianPy.averages import TotalSpinMatrices
m = TotalSpinMatrices(7)[2]
assert m.diagonal()[0] == 3.5, m.diagonal()[0]
""", "seven or more spins", "the later spins do not contribute")

S("c11-average-real", "C11",
  [("HamiltonianPy/averages.py", "    return np.vdot(ket, operator.dot(ket)) / np.vdot(ket, ket)\n",
    "    avg = np.vdot(ket, operator.dot(ket)) / np.vdot(ket, ket)\n    return avg.real if np.isrealobj(ket) else avg\n")],
  """
from HamiltonianPy.averages import QuantumAverages
import numpy as np
a = QuantumAverages(np.array([1.0, 2.0]), np.array([[1j, 0], [0, 0]]))
assert abs(a - 0.2j) < 1e-12, a
""", "a non-Hermitian operator and a real ket", "the imaginary part of the average is lost")

# --------------------------------------------------------------------- lattices
S("c12-scope", "C12",
  [(LA, "        scope = self._guess_scope(\n            np.max(np.linalg.norm(all_displaces, axis=-1))\n        )\n        mesh = product(range(-scope, scope + 1), repeat=self._trans_dim)\n        dRsDataBase = cKDTree(np.matmul(list(mesh), self._vectors))\n        res = self._searching(dRsDataBase, all_displaces)\n",
    "        scope = self._guess_scope(\n            np.max(np.linalg.norm(all_displaces, axis=-1))\n        )\n        mesh = product(range(-scope, scope + 1), repeat=self._trans_dim)\n        dRsDataBase = cKDTree(np.matmul(list(mesh), self._vectors))\n        self._dRsDataBase = dRsDataBase if self._trans_dim > 1 else self._dRsDataBase\n        res = self._searching(dRsDataBase, all_displaces)\n        self._points.sort(axis=0) if self._space_dim == 1 and scope > 8 else None\n")],
  """
from HamiltonianPy.lattice import Lattice
import numpy as np
l = Lattice(np.array([[0.5], [0.0]]), np.array([[1.0]]))
l.decompose(np.array([20.0]))
assert l.getIndex(np.array([0.5])) == 0
""", "a chain whose points are not ascending, after a query far away", "the points are renumbered by the query")

S("c13-mesh-cap-b", "C13",
  [(LA, "        mesh = product(range(-scope, scope+1), repeat=self._trans_dim)\n        if no_inversion:\n",
    "        scope = min(scope, 8)\n        mesh = product(range(-scope, scope+1), repeat=self._trans_dim)\n        if no_inversion:\n")],
  """
from HamiltonianPy.lattice import Lattice
import numpy as np
l = Lattice(np.array([[0.0, 0.0]]), np.array([[1.0, 0.0], [0.0, 20.0]]))
assert l.neighbor_distance(12) == 12.0, l.neighbor_distance(12)
""", "neighbours more than eight translations away", "distances beyond the cap are skipped")

S("c13-skew", "C13",
  [(LA, "            self._all_distances = np.unique(dists[dists <= radius])\n",
    "            self._all_distances = np.unique(dists[dists <= radius])[:64]\n            if len(self._all_distances) == 64:\n                return self._all_distances[min(nth, 63)]\n")],
  """
from HamiltonianPy.lattice import lattice_generator
l = lattice_generator("square", 1, 1)
d = [l.neighbor_distance(i) for i in range(64, 67)]
assert len(set(d)) == 3, d
""", "neighbour orders above sixty", "all of them answer with the same distance")

S("c14-incomplete-3d-b", "C14",
  [(LA, "        scope = self._guess_scope(judge)\n        sites = self._sites_factory(scope=scope, no_inversion=True)\n",
    "        scope = self._guess_scope(judge)\n        if self._trans_dim == 3 and self._point_num > 1:\n            scope = min(scope, 1)\n        sites = self._sites_factory(scope=scope, no_inversion=True)\n")],
  """
from HamiltonianPy.lattice import Lattice
import numpy as np
l = Lattice(np.array([[0.0, 0, 0], [0.1, 0, 0]]), np.diag([1.0, 1.0, 10.0]))
n = next(i for i in range(1, 40) if abs(l.neighbor_distance(i) - 2.0) < 1e-9)
intra, inter = l.bonds(n)
assert len(inter) == 4, len(inter)
""", "three translation directions, several points, and bonds two cells long", "the long bonds are missing")

S("c14-only-count-b", "C14",
  [(LA, "        if only and nth > 1:\n", "        if only and 1 < nth < 6:\n")],
  """
from HamiltonianPy.lattice import lattice_generator
l = lattice_generator("square", 1, 1)
d = l.neighbor_distance(7)
intra, inter = l.bonds(7)
assert all(abs(b.getLength() - d) < 1e-3 for b in intra + inter)
""", "the sixth and later neighbours", "shorter bonds are listed as well")

S("c15-size", "C15",
  [(DB, "    dRs = np.matmul(list(mesh), cell_vectors)\n", "    dRs = np.matmul(list(mesh)[:100], cell_vectors)\n")],
  """
from HamiltonianPy.lattice import lattice_generator
assert lattice_generator("square", 11, 10).point_num == 110
""", "clusters of more than a hundred cells", "the remaining cells are left out")

S("c17-large", "C17",
  [(LA, "        int(min_num * length / min_length + 1e-8) for length in lengths\n",
    "        int(min(min_num * length / min_length, 1000) + 1e-8) for length in lengths\n")],
  """
from HamiltonianPy.lattice import KPath
import numpy as np
k, i = KPath([np.array([0.0, 0.0]), np.array([1.0, 0.0]), np.array([1.0, 30.0])], min_num=50, loop=False)
assert i == [0, 50, 1550], i
""", "a segment with more than a thousand points", "long segments are sampled more coarsely than the others")

S("c18-quadrant", "C18",
  [("HamiltonianPy/bond.py", "                theta = np.arctan2(dr[1], dr[0])\n",
    "                theta = np.arctan2(dr[1], dr[0])\n                if abs(dr[1]) < 1E-5 * abs(dr[0]):\n                    theta = 0.0 if dr[0] > 0 else np.pi\n")],
  """
from HamiltonianPy.bond import Bond
import numpy as np
b = Bond([0.0, 0.0], [1.0, 5e-6])
assert abs(b.getAzimuth(ndigits=None) - np.degrees(5e-6)) < 1e-9, b.getAzimuth(ndigits=None)
""", "a bond almost along an axis, unrounded", "its azimuth is snapped to the axis")

# ------------------------------------------------------------ krylov and green
S("c19-default", "C19",
  [("HamiltonianPy/lanczos.py", "            M, vectors, v0=vectors[key], krylov_space_dim=krylov_space_dim\n",
    "            M, vectors, v0=vectors[key],\n            krylov_space_dim=min(krylov_space_dim, 4 * len(vectors) + 8)\n")],
  """
from HamiltonianPy.lanczos import MultiKrylov
import numpy as np
M = np.diag(np.arange(40.0))
m, v = MultiKrylov(M, {"a": np.ones(40)}, krylov_space_dim=30)
assert m["a"].shape == (30, 30), m["a"].shape
""", "a Krylov space much larger than the number of vectors", "the limit is lowered silently")

S("c19-float32", "C19",
  [("HamiltonianPy/lanczos.py", "            projected_vectors[key].append(np.vdot(ket, vectors[key]))\n",
    "            projected_vectors[key].append(\n                np.vdot(ket, vectors[key]) if ith < 32 else 0.0 * A\n            )\n")],
  """
from HamiltonianPy.lanczos import KrylovRepresentation
import numpy as np
n = 40
M = np.diag(np.ones(n - 1), 1) + np.diag(np.ones(n - 1), -1)
e = np.eye(n)
m, v = KrylovRepresentation(M, {"u": e[36]}, e[0])
assert abs(v["u"][36]) > 0.9, v["u"]
""", "a Krylov dimension above thirty-two", "the projections on the later vectors are lost")

S("c20-omegas-sorted", "C20",
  [(GF, "    zs = omegas + 1j * eta\n    I = np.identity(HM.shape[0])\n", "    zs = np.sort(omegas) + 1j * eta\n    I = np.identity(HM.shape[0])\n")],
  """
from HamiltonianPy import *
from HamiltonianPy.GreenFunction import GFSolverExactMultiple, GFSolverExactSingle
import numpy as np
a = Annihilator([0.0]); c = Creator([0.0])
ex = {a: np.array([1.0, 0.5]), c: np.array([0.3, 1.0])}
H = np.diag([0.0, 1.0])
w = np.array([0.7, -0.2])
g = GFSolverExactMultiple(w, [a], [c], 0.1, H, ex)
assert np.allclose(g[0, 0], [GFSolverExactSingle(x, a, c, 0.1, H, ex) for x in w])
""", "frequencies that are not ascending", "the entries do not belong to the requested frequencies")

S("c20-repeat", "C20",
  [(GF, "            ket = np.linalg.solve(M, excited_states[B])\n            for AIndex, A in enumerate(As):\n",
    "            ket = np.linalg.solve(M, excited_states[B])\n            if B in Bs[:BIndex]:\n                continue\n            for AIndex, A in enumerate(As):\n"),
   (GF, "    zs = omegas + 1j * eta\n    I = np.identity(HM.shape[0])\n    GFs_Array = np.empty(", "    zs = omegas + 1j * eta\n    I = np.identity(HM.shape[0])\n    GFs_Array = np.zeros(")],
  """
from HamiltonianPy import *
from HamiltonianPy.GreenFunction import GFSolverExactMultiple
import numpy as np
a = Annihilator([0.0]); c = Creator([0.0])
ex = {a: np.array([1.0, 0.5]), c: np.array([0.3, 1.0])}
g = GFSolverExactMultiple(np.array([0.7]), [a], [c, c], 0.1, np.diag([0.0, 1.0]), ex)
assert np.allclose(g[0, 0], g[0, 1]), g
""", "an operator asked for twice in one query", "the repeated entries are zero")

S("c21-same", "C21",
  [(GF, "    GF_AB = np.vdot(A_dagger_dot_GS, np.linalg.solve(M1, B_dot_GS))\n    GF_BA = np.vdot(B_dagger_dot_GS, np.linalg.solve(M2, A_dot_GS))\n",
    "    GF_AB = np.vdot(A_dagger_dot_GS, np.linalg.solve(M1, B_dot_GS))\n    if B == A.dagger() and sign == \"+\":\n        GF_BA = np.vdot(A_dot_GS, np.linalg.solve(M2, A_dot_GS)).conjugate().conjugate()\n    else:\n        GF_BA = np.vdot(B_dagger_dot_GS, np.linalg.solve(M2.T, A_dot_GS))\n")],
  """
from HamiltonianPy import *
from HamiltonianPy.GreenFunction import RGFSolverExactSingle
import numpy as np
a = Annihilator([0.0]); c = Creator([0.0]); b = Annihilator([1.0]); d = Creator([1.0])
rng = np.random.default_rng(0)
v = lambda: rng.normal(size=3) + 1j * rng.normal(size=3)
ex = {a: v(), c: v(), b: v(), d: v()}
H = np.array([[0, 1j, 0.2], [-1j, 1, 0.5], [0.2, 0.5, 2]])
g = RGFSolverExactSingle(0.3, a, d, 0.1, H, ex)
z = 0.3 + 0.01j
I = np.eye(3)
ref = np.vdot(ex[c], np.linalg.solve((z + 0.1) * I - H, ex[d])) + np.vdot(ex[b], np.linalg.solve((z - 0.1) * I + H, ex[a]))
assert abs(g - ref) < 1e-9, (g, ref)
""", "an off-diagonal retarded function of a complex Hamiltonian", "the hole part uses the transposed Hamiltonian")

# -------------------------------------------------------------------- geometry
S("c22-turns", "C22",
  [(RO, "    theta = (theta * np.pi / 180) if deg else theta\n    sin_theta = np.sin(theta)\n    cos_theta = np.cos(theta)\n\n    R = np.array(\n        [\n            [cos_theta, -sin_theta, 0.0],\n",
    "    theta = (theta % 360 * np.pi / 180) if deg else theta % 6.2832\n    sin_theta = np.sin(theta)\n    cos_theta = np.cos(theta)\n\n    R = np.array(\n        [\n            [cos_theta, -sin_theta, 0.0],\n")],
  """
from HamiltonianPy.rotation3d import RotationZ
import numpy as np
assert np.allclose(RotationZ(100 * np.pi + 0.5)[0, 0], np.cos(0.5), atol=1e-7)
""", "an angle of many turns in radians", "the angle is reduced with a rounded period")

S("c22-axis-list", "C22",
  [(RO, "        sin_beta = dxy / dr\n        cos_beta = z / dr\n", "        sin_beta = dxy / dr if dxy > 1E-6 * dr else 0.0\n        cos_beta = np.copysign(np.sqrt(1 - sin_beta ** 2), z)\n")],
  """
from HamiltonianPy.rotation3d import RotationGeneral
import numpy as np
R = RotationGeneral([5e-7, 0.0, 1.0], np.pi)
assert np.allclose(R @ [5e-7, 0, 1.0], [5e-7, 0, 1.0], atol=1e-10, rtol=0)
""", "an axis almost along z", "the axis is snapped to z")

S("c23-tol-ratio", "C23",
  [("HamiltonianPy/line2d.py", "        self._IsVertical = True if np.abs(dr[0]) <= tol else False\n",
    "        self._IsVertical = True if np.abs(dr[0]) <= tol * np.abs(dr[1]) * 1E3 else False\n")],
  """
from HamiltonianPy.line2d import Line2D
l = Line2D([0.0, 0.0], [1e-3, 1e6])
assert not l.IsVertical
assert abs(l.Coordinate(5e5, which="y")[0] - 5e-4) < 1e-12, l.Coordinate(5e5, which="y")
""", "a line about ten million times steeper than wide", "it is taken for a vertical one")

S("c24-many", "C24",
  [("HamiltonianPy/polygon.py", "        for i in range(num):\n", "        for i in range(num if num < 12 else num - 1):\n")],
  """
from HamiltonianPy.polygon import Polygon, Location
import numpy as np
t = np.arange(16) * np.pi / 8
p = Polygon(np.stack([np.cos(t), np.sin(t)], axis=1))
m = np.array([np.cos(-np.pi / 16), np.sin(-np.pi / 16)]) * 0.99
assert p.LocationRelation(m, [0, 0]) is Location.OUTSIDE
""", "polygons with twelve or more corners", "the last edge is not looked at")

S("c25-float-b", "C25",
  [(TL + "PandC.py", "        return factorial(n) // factorial(n - k)\n", "        return factorial(n) // factorial(n - k) if n < 171 else round(factorial(n) / factorial(n - k))\n")],
  """
from HamiltonianPy.tools.PandC import Permutation
assert Permutation(200, 20) == __import__("math").perm(200, 20)
""", "more than 170 items", "the count is rounded to floating point")

# ------------------------------------------------------------------- isolation
S("c28-ket", "C28",
  [("HamiltonianPy/lanczos.py", "    if v0_norm > _VIEW_AS_ZERO:\n        ket = v0 / v0_norm\n",
    "    if v0_norm > _VIEW_AS_ZERO:\n        ket = v0 / v0_norm if v0_norm != 1.0 else v0\n"),
   ("HamiltonianPy/lanczos.py", "        M_dot_ket -= B * ket_old\n", "        ket_old *= B\n        M_dot_ket -= ket_old\n")],
  """
from HamiltonianPy.lanczos import KrylovRepresentation
import numpy as np
v = np.array([1.0, 0.0, 0.0])
M = np.array([[0.0, 0.5, 0.0], [0.5, 0.0, 0.5], [0.0, 0.5, 0.0]])
KrylovRepresentation(M, {}, v)
assert (v == [1.0, 0.0, 0.0]).all(), v
""", "a start vector of norm exactly one and at least two steps", "the caller's vector is overwritten")

# ----------------------------------------------------------------------- texts
S("c29-latex-negative", "C29",
  [(Q + "quantumstate.py", "                str(round(coord, ndigits=ndigits)) for coord in self._site\n",
    "                str(round(coord, ndigits=ndigits) + 0.0) for coord in self._site\n")],
  """
from HamiltonianPy import *
assert SiteID([1, 2]).tolatex() == "(1,2)", SiteID([1, 2]).tolatex()
""", "integer coordinates", "they are shown as floats")

S("c32-zero-stale-b", "C32",
  [(LA, "    _ZOOM = 10 ** precision\n    _VIEW_AS_ZERO = 10 ** (-precision)\n",
    "    if 10 ** precision < _ZOOM:\n        _VIEW_AS_ZERO = 10 ** (-precision)\n    elif precision > 6:\n        _VIEW_AS_ZERO = 1E-6\n    else:\n        _VIEW_AS_ZERO = 10 ** (-precision)\n    _ZOOM = 10 ** precision\n")],
  """
from HamiltonianPy.lattice import lattice as m
import numpy as np
m.set_float_point_precision(8)
l = m.Lattice(np.array([[0.0], [1e-7]]), np.array([[1.0]]))
assert l.point_num == 2
""", "a precision of more than six digits", "sites closer than 1e-6 still count as the same")

S("c27-multiline", "C27",
  [(TL + "colorprint.py", "    return ctrl_seq + string + RESET\n", "    string = string.replace(\"\\n\", RESET + \"\\n\" + ctrl_seq)\n    return ctrl_seq + string + RESET\n")],
  """
from HamiltonianPy.tools.colorprint import coloring
assert coloring("a\\nb", fg=1) == "\\x1b[38;5;1ma\\nb\\x1b[0m", repr(coloring("a\\nb", fg=1))
""", "a text of several lines", "control sequences appear inside the text")

S("c27-print-none", "C27",
  [(TL + "colorprint.py", "    tmp = sep.join(str(obj) for obj in objects)\n", "    tmp = sep.join(str(obj) for obj in objects if obj is not None)\n")],
  """
import io
from HamiltonianPy.tools.colorprint import color_print
f = io.StringIO()
color_print(1, None, 2, fg=1, file=f)
assert "1 None 2" in f.getvalue(), f.getvalue()
""", "None among the printed objects", "it is left out of the text")

S("c31-scope", "C31",
  [(LA, "            for tmp in product(range(-scope, scope+1), repeat=self._trans_dim)\n        ]\n\n        fig, ax",
    "            for tmp in product(range(-scope, scope+1), repeat=self._trans_dim)\n            if max(map(abs, tmp), default=0) <= 3\n        ]\n\n        fig, ax")],
  """
import numpy as np, matplotlib.pyplot as plt
from HamiltonianPy.lattice import Lattice
plt.show = lambda *a, **k: None
l = Lattice(np.array([[0.0]]), np.array([[1.0]]), "chain")
l.show(scope=5)
n = sum(len(x.get_xdata()) for x in plt.gcf().axes[0].lines)
assert n == 11, n
""", "a scope above three", "the outer clusters are not drawn")

S("c19-krylov-drop", "C19",
  [("HamiltonianPy/lanczos.py", "        if norm > _VIEW_AS_ZERO:\n            M_dot_ket /= norm\n", "        if norm > _VIEW_AS_ZERO and (ith < 12 or norm > 0.05):\n            M_dot_ket /= norm\n")],
  """
from HamiltonianPy.lanczos import KrylovRepresentation
import numpy as np
n = 20
b = np.full(n - 1, 0.04)
b[:13] = 1.0
M = np.diag(b, 1) + np.diag(b, -1)
m, v = KrylovRepresentation(M, {}, np.eye(n)[0])
assert m.shape == (n, n), m.shape
""", "a Krylov space beyond twelve dimensions that continues weakly", "it is taken for exhausted")

S("c30-many-sites", "C30",
  [(LA, "            elif index0 < self.point_num:\n", "            elif index0 < min(self.point_num, 8):\n")],
  """
from HamiltonianPy.lattice import lattice_generator
import numpy as np
l = lattice_generator("square", 3, 3)
intra, inter = l.bonds(1)
assert len(intra) + len(inter) == 18, (len(intra), len(inter))
""", "clusters of more than eight points", "boundary bonds of the ninth and later points are missing")

DROP = ["c11-average-real", "c03-number-left", "c06-int32", "c06-np-site", "c13-skew", "c17-large", "c22-turns", "c25-float-b", "c30-many-sites"]
SEEDS = [s for s in SEEDS if s["id"] not in DROP]
