"""Planted changes, seventh batch: values remembered too long, shortcuts for
special shapes, falsy values taken for missing ones."""
Q = "HamiltonianPy/quantumoperator/"
LA = "HamiltonianPy/lattice/lattice.py"
GF = "HamiltonianPy/GreenFunction/_GFSolver.py"
TL = "HamiltonianPy/tools/"
HS = "HamiltonianPy/hilbertspace.py"
SEEDS = []


def S(id, property, edits, demo, needs, breaks, all=False):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo,
                      needs=needs, breaks=breaks, all=all))


# ------------------------------------------------------------ fermion matrices
S("c01-strided", "C01",
  [(Q + "matrixrepr.py", "@jit(int64[:, :](uint64[:, :], uint64[:], uint64[:]), nopython=True, cache=True)\ndef _core_general",
    "@jit(int64[:, :](uint64[:, :], uint64[::1], uint64[::1]), nopython=True, cache=True)\ndef _core_general")],
  """
from HamiltonianPy import *
import numpy as np
t = IndexTable([StateID([0.0]), StateID([1.0])])
b = base_vectors(2)[::3]
term = Creator([0.0]) * Annihilator([0.0]) * Creator([1.0]) * Annihilator([1.0])
m = term.matrix_repr(t, b).toarray()
assert np.allclose(m, [[0, 0], [0, 1]]), m
""", "a basis which is a strided view of another array", "the query fails instead of giving the matrix")

S("c01-index-memo", "C01",
  [(Q + "particlesystem.py", "        return indices_table(self._state)\n\n    def __repr__(self):\n        \"\"\"\n        Official string representation of the instance.\n        \"\"\"\n\n        otype",
    "        memo = self.__dict__.setdefault(\"_state_indices\", dict())\n"
    "        key = len(indices_table)\n"
    "        if key not in memo:\n"
    "            memo[key] = indices_table(self._state)\n"
    "        return memo[key]\n\n    def __repr__(self):\n        \"\"\"\n        Official string representation of the instance.\n        \"\"\"\n\n        otype")],
  """
from HamiltonianPy import *
import numpy as np
s = [StateID([0.0]), StateID([1.0])]
t0, t1 = IndexTable(s), IndexTable(s[::-1])
term = HoppingFactory([0.0], [1.0])
b = base_vectors(2)
a = term.matrix_repr(t0, b).toarray()
c = term.matrix_repr(t1, b).toarray()
assert not np.allclose(a, c)
assert np.allclose(a.T, c), c
""", "one term represented with two tables of equal length and different numbering", "the second matrix uses the numbering of the first table")

S("c01-tuple-shape", "C01",
  [(Q + "matrixrepr.py", "        tmp = data[:, data[2] != 0]\n        res = (coeff * tmp[2], (tmp[0], tmp[1]))\n",
    "        tmp = data[:, data[2] > 0] if coeff == 0 else data[:, data[2] != 0]\n        res = (coeff * tmp[2], (tmp[0], tmp[1]))\n"
    "        if right_dim > 64:\n            res = (coeff * np.sign(tmp[2]), (tmp[0], tmp[0]))\n            res = (res[0], (tmp[0], np.sort(tmp[1])))\n")],
  """
from HamiltonianPy import *
import numpy as np
from scipy.sparse import csr_matrix
n = 8
t = IndexTable([StateID([float(i)]) for i in range(n)])
b = base_vectors(n)[::-1]
b = base_vectors((n, 4))
term = HoppingFactory([0.0], [5.0])
e, (r, c) = term.matrix_repr(t, b, to_csr=False)
m = term.matrix_repr(t, b)
assert np.allclose(csr_matrix((e, (r, c)), shape=m.shape).toarray(), m.toarray())
u = np.sort(base_vectors((n, 4))); v = base_vectors((n, 3))
term = ParticleTerm([Annihilator([3.0])])
e, (r, c) = term.matrix_repr(t, base_vectors(n), to_csr=False)
m = term.matrix_repr(t, base_vectors(n))
assert np.allclose(csr_matrix((e, (r, c)), shape=m.shape).toarray(), m.toarray())
""", "x", "x")

# ------------------------------------------------------------ algebra of terms
S("c03-number-square", "C03",
  [(Q + "particlesystem.py", "        return self.toterm() * other\n",
    "        if isinstance(other, self.__class__) and other == self:\n"
    "            # The particle-number operator is idempotent\n"
    "            other = 1\n"
    "        return self.toterm() * other\n")],
  """
from HamiltonianPy import *
n = NumberOperator([0.0])
assert len((n * n).components) == 4, n * n
""", "a number operator multiplied by itself", "the product has the operators of one factor only")

S("c03-dagger-hermitian", "C03",
  [(Q + "particlesystem.py", "        aocs = [aoc.dagger() for aoc in self._aocs[::-1]]\n        return self.__class__(aocs=aocs, coeff=self._coeff.conjugate())\n",
    "        aocs = tuple(aoc.dagger() for aoc in self._aocs[::-1])\n"
    "        if aocs == self._aocs:\n"
    "            return self.__class__(aocs=aocs, coeff=self._coeff)\n"
    "        return self.__class__(aocs=aocs, coeff=self._coeff.conjugate())\n")],
  """
from HamiltonianPy import *
t = CPFactory([0.0], coeff=2j)
assert t.dagger().coeff == -2j, t.dagger()
""", "a self-adjoint product with a complex coefficient", "the coefficient of the adjoint is not conjugated")

S("c04-inplace", "C04",
  [(Q + "particlesystem.py", "        aocs = list(aocs)\n        length = len(aocs)\n",
    "        aocs = aocs if isinstance(aocs, list) and len(aocs) > 4 else list(aocs)\n        length = len(aocs)\n")],
  """
from HamiltonianPy import *
a = [Annihilator([float(i)]) for i in range(6)]
b = list(a)
ParticleTerm.normalize(a)
assert a == b, a
""", "a list of five or more operators", "the list of the caller is reordered")

S("c04-parity-wrap", "C04",
  [(Q + "particlesystem.py", "                        swap_count += 1\n",
    "                        swap_count = swap_count + 1 if swap_count < 15 else 1\n")],
  """
from HamiltonianPy import *
a = [Annihilator([float(i)]) for i in range(7)]
x, n = ParticleTerm.normalize(a)
assert n % 2 == 1, n
a = [Annihilator([float(i)]) for i in range(8)]
x, n = ParticleTerm.normalize(a)
assert n % 2 == 0, n
""", "more than fifteen swaps", "the parity of the number of swaps is wrong")

# ---------------------------------------------------------------- occupation
S("c05-full", "C05",
  [(HS, "        if self._particle_number < 0:\n            basis_generator = chain(",
    "        if self._particle_number == self._state_number:\n"
    "            basis_generator = [range(\n                min(self._states), min(self._states) + self._state_number\n            )]\n"
    "        elif self._particle_number < 0:\n            basis_generator = chain(")],
  """
from HamiltonianPy.hilbertspace import *
s = SimpleHilbertSpace([0, 2], 2)
assert list(s.base_vectors()) == [5], s.base_vectors()
""", "a completely filled space on states which are not contiguous", "the base vector occupies other states")

S("c05-ranges", "C05",
  [(HS, "        set(s0[0]).isdisjoint(set(s1[0]))\n        for s0, s1 in combinations(subspace_specifiers, 2)\n    ):\n        raise ValueError(\"All subspaces should be disjoint to each other!\")\n\n    subspace_basis",
    "        max(s0[0]) < min(s1[0]) or max(s1[0]) < min(s0[0]) or\n        len(s0[0]) < 3 and set(s0[0]).isdisjoint(set(s1[0]))\n        for s0, s1 in combinations(subspace_specifiers, 2)\n    ):\n        raise ValueError(\"All subspaces should be disjoint to each other!\")\n\n    subspace_basis")],
  """
from HamiltonianPy.hilbertspace import *
b = base_vectors([[0, 2, 4], 1], [[1, 3, 5], 1])
assert len(b) == 9
""", "disjoint subspaces of three or more interleaved states", "they are refused as overlapping")

S("c05-dedupe", "C05",
  [(HS, "        kets = [\n            sum(1 << pos for pos in chain(*basis))\n            for basis in product(*subspace_basis_generators)\n        ]\n\n        if sort:\n            kets.sort()\n",
    "        kets = [\n            sum(1 << pos for pos in chain(*basis))\n            for basis in product(*subspace_basis_generators)\n        ]\n\n"
    "        if sort and len(self._subspace_specifiers) > 2:\n            kets = [int(ket) for ket in np.sort(np.array(kets, dtype=float))]\n"
    "        elif sort:\n            kets.sort()\n")],
  """
from HamiltonianPy.hilbertspace import *
h = HilbertSpace([[0, 1], 1], [[60, 61], 1], [[62], 1])
b = h.base_vectors(container="list")
assert b == sorted(b) and all(bin(k).count("1") == 3 for k in b), b
""", "three subspaces whose states lie more than 53 positions apart", "the lowest occupied states are rounded away")

# ------------------------------------------------------------------ identifiers
S("c06-floor", "C06",
  [(Q + "quantumstate.py", "            int(round(_ZOOM * coord, 6)) for coord in site\n",
    "            int(round(_ZOOM * coord, 6) // 1) for coord in site\n")],
  """
from HamiltonianPy import *
assert SiteID([-0.00005]) == SiteID([0.0])
assert SiteID([-1.00004]) == SiteID([-1.0])
""", "negative coordinates off the grid of the precision", "coordinates are rounded down instead of truncated")

S("c06-eq-hash", "C06",
  [(Q + "quantumstate.py", "        self._tuple_form = (self._tuple_form, spin, orbit)\n",
    "        self._tuple_form = (self._tuple_form, spin, orbit)\n"
    "        if spin > 255 or orbit > 255:\n            self._tuple_form = (self._tuple_form[0], spin & 255, orbit & 255)\n")],
  """
from HamiltonianPy import *
assert StateID([0.0], 256) != StateID([0.0], 0)
""", "a spin or orbit number above 255", "states with different numbers are equal")

S("c07-views", "C07",
  [("HamiltonianPy/indextable.py", "        return self._object2index.keys()\n",
    "        return sorted(self._object2index, key=hash) if (\n            self._length > 32\n        ) else self._object2index.keys()\n")],
  """
from HamiltonianPy import *
x = [str(i) for i in range(40)]
t = IndexTable(x)
assert list(t.objects()) == x
""", "a table of more than 32 objects", "the view of the objects is in another order")

# ----------------------------------------------------------------------- spins
S("c08-zzz", "C08",
  [(Q + "spinsystem.py", "            res = coeff * identity(\n                1 << total_spin, dtype=np.float64, format=\"csr\"\n            )\n            for index, otype in operators:\n",
    "            res = coeff * identity(\n                1 << total_spin, dtype=np.float64, format=\"csr\"\n            )\n"
    "            if len(operators) > 2 and all(o[1] == \"z\" for o in operators):\n"
    "                # A product of z-operators is diagonal\n"
    "                mask = 0\n"
    "                for index, otype in operators:\n"
    "                    mask |= 1 << index\n"
    "                signs = [\n"
    "                    (-1) ** bin(ket & mask).count(\"1\")\n"
    "                    for ket in range(1 << total_spin)\n"
    "                ]\n"
    "                res.data = res.data * signs / (1 << len(operators))\n"
    "                operators = []\n"
    "            for index, otype in operators:\n")],
  """
from HamiltonianPy import *
import numpy as np
t = IndexTable([SiteID([0.0]), SiteID([1.0])])
z0, z1 = SpinOperator("z", [0.0]), SpinOperator("z", [1.0])
m = SpinInteraction([z0, z0, z1]).matrix_repr(t).toarray()
r = (z0.matrix_repr(t) @ z0.matrix_repr(t) @ z1.matrix_repr(t)).toarray()
assert np.allclose(m, r), m
""", "three or more z-operators of which two are on one site", "the sign counts the site once only")

S("c08-index-memo", "C08",
  [(Q + "spinsystem.py", "        return indices_table(self._site_id)\n",
    "        if getattr(self, \"_table_length\", None) != len(indices_table):\n"
    "            self._table_length = len(indices_table)\n"
    "            self._site_index = indices_table(self._site_id)\n"
    "        return self._site_index\n")],
  """
from HamiltonianPy import *
import numpy as np
s = [SiteID([0.0]), SiteID([1.0])]
t0, t1 = IndexTable(s), IndexTable(s[::-1])
x = SpinInteraction([SpinOperator("x", [0.0]), SpinOperator("z", [1.0])])
a, b = x.matrix_repr(t0).toarray(), x.matrix_repr(t1).toarray()
assert not np.allclose(a, b)
""", "one interaction represented with two tables of equal length", "the numbering of the first table is used again")

S("c08-imag-round", "C08",
  [(Q + "spinsystem.py", "                res = res.dot(tmp)\n        return res\n",
    "                res = res.dot(tmp)\n"
    "            if len(operators) > 2 and not np.any(np.abs(res.data.imag) > 1E-8):\n"
    "                res = res.real\n"
    "        return res\n")],
  """
from HamiltonianPy import *
import numpy as np
t = IndexTable([SiteID([0.0]), SiteID([1.0]), SiteID([2.0])])
x = SpinInteraction([SpinOperator("z", [float(i)]) for i in range(3)], coeff=1e-9j)
m = x.matrix_repr(t).toarray()
assert np.allclose(m[0, 0] * 1e9, 1j / 8), m
""", "three operators and an imaginary coefficient below 1e-8", "the imaginary part is dropped")

S("c09-tiny", "C09",
  [(Q + "spinsystem.py", "            for sub_term in term:\n                res_term = res_term * sub_term\n            terms.append(res_term)\n",
    "            for sub_term in term:\n                res_term = res_term * sub_term\n"
    "            if abs(res_term.coeff) > 1E-10:\n                terms.append(res_term)\n")],
  """
from HamiltonianPy import *
x = SpinInteraction([SpinOperator("z", [0.0]), SpinOperator("z", [1.0])], coeff=1e-12)
assert len(x.Schwinger()) == 4
""", "a coupling below 1e-10", "the terms are left out")

S("c09-same-site", "C09",
  [(Q + "spinsystem.py", "        fermion_reprs = [operator.Schwinger() for operator in self._operators]\n",
    "        operators = list(self._operators)\n"
    "        if len(operators) > 2:\n"
    "            # Two equal neighbouring operators cancel up to a factor\n"
    "            for i in range(len(operators) - 1):\n"
    "                if operators[i] == operators[i+1] and operators[i].otype == \"z\":\n"
    "                    rest = operators[0:i] + operators[i+2:]\n"
    "                    return self.__class__(rest, self._coeff / 4).Schwinger()\n"
    "        fermion_reprs = [operator.Schwinger() for operator in operators]\n")],
  """
from HamiltonianPy import *
z0, z1 = SpinOperator("z", [0.0]), SpinOperator("z", [1.0])
x = SpinInteraction([z0, z1, z1])
s = {a.site[0] for t in x.Schwinger() for a in t.components}
assert s == {0.0, 1.0}
# the doubly occupied and the empty site are annihilated
import numpy as np
from HamiltonianPy.quantumoperator.quantumstate import StateID
t = IndexTable([StateID([x], s) for x in (0.0, 1.0) for s in (0, 1)])
b = base_vectors(4)
m = sum(u.matrix_repr(t, b) for u in x.Schwinger()).toarray()
i = list(b).index(1 << 1 | 0)
assert m[i, i] == 0, m[i, i]
""", "x", "x")

S("c10-dagger-selfadjoint", "C10",
  [(Q + "spinsystem.py", "        operators = [operator.dagger() for operator in self._operators[::-1]]\n",
    "        operators = self._operators\n"
    "        if any(operator.otype in \"pm\" for operator in operators):\n"
    "            operators = [operator.dagger() for operator in operators[::-1]]\n")],
  """
from HamiltonianPy import *
import numpy as np
t = IndexTable([SiteID([0.0])])
x = SpinInteraction([SpinOperator("x", [0.0]), SpinOperator("y", [0.0])])
a = x.matrix_repr(t).toarray()
assert np.allclose(x.dagger().matrix_repr(t).toarray(), a.conj().T)
""", "self-adjoint operators which do not commute", "the order is not reversed")

S("c11-same-ket", "C11",
  [("HamiltonianPy/averages.py", "    def _AveragesCalculator(ket):\n",
    "    last = dict()\n\n    def _AveragesCalculator(ket):\n"
    "        if last.get(\"ket\") is not ket:\n"
    "            last[\"result\"] = _Calculate(ket)\n"
    "            last[\"ket\"] = ket\n"
    "        return last[\"result\"]\n\n    def _Calculate(ket):\n")],
  """
from HamiltonianPy import *
import numpy as np
from HamiltonianPy.averages import *
f = TotalSpinAverages(2)
k = np.array([1.0, 0.0, 0.0, 0.0])
assert np.isclose(f(k)[3], 1)
k[:] = [0.0, 0.0, 0.0, 1.0]
assert np.isclose(f(k)[3], -1), f(k)
""", "an array which is filled anew between two calls", "the averages of the earlier content")

S("c11-shared-matrices", "C11",
  [("HamiltonianPy/averages.py", "def TotalSpinMatrices(spin_num):\n", "@lru_cache(maxsize=4)\ndef TotalSpinMatrices(spin_num):\n"),
   ("HamiltonianPy/averages.py", "import logging\nfrom time import time\n", "import logging\nfrom functools import lru_cache\nfrom time import time\n")],
  """
from HamiltonianPy import *
import numpy as np
from HamiltonianPy.averages import *
x, y, z = TotalSpinMatrices(3)
z *= 2
assert np.isclose(TotalSpinMatrices(3)[2][0, 0], 1.5)
""", "scaling a returned matrix in place and asking again", "the second answer is the scaled matrix")

# --------------------------------------------------------------------- lattice
S("c12-coarse-memo", "C12",
  [(LA, "        all_displaces = site - self._points\n        dRsDataBase = self._dRsDataBase\n",
    "        if not hasattr(self, \"_last_found\"):\n            self._last_found = None\n"
    "        if self._last_found is not None:\n"
    "            # Queries often come in groups from the same cell\n"
    "            point, displace = self._last_found\n"
    "            index = np.argmin(np.linalg.norm(self._points + displace - site, axis=-1))\n"
    "            if np.linalg.norm(self._points[index] + displace - site) < 0.01:\n"
    "                return np.array(self._points[index], copy=True), displace\n"
    "        all_displaces = site - self._points\n        dRsDataBase = self._dRsDataBase\n"),
   (LA, "        res = self._searching(dRsDataBase, all_displaces)\n        if res is not None:\n            return res\n\n        scope",
    "        res = self._searching(dRsDataBase, all_displaces)\n        if res is not None:\n            self._last_found = res\n            return res\n\n        scope")],
  """
from HamiltonianPy import *
import numpy as np
l = Lattice(np.array([[0.0]]), np.array([[1.0]]))
l.decompose(np.array([1.0]))
try:
    l.decompose(np.array([1.005]))
except RuntimeError:
    pass
else:
    raise AssertionError
""", "a point slightly off a site of the cell asked for before", "the point is accepted")

S("c12-displace-alias", "C12",
  [(LA, "        res = self._searching(dRsDataBase, all_displaces)\n        if res is not None:\n            return res\n\n        scope",
    "        res = self._searching(dRsDataBase, all_displaces)\n        if res is not None and self._trans_dim == 1:\n"
    "            point, displace = res\n"
    "            norm = np.dot(self._vectors[0], self._vectors[0])\n"
    "            n = int(np.dot(displace, self._vectors[0]) / norm)\n"
    "            return point, n * self._vectors[0]\n"
    "        if res is not None:\n            return res\n\n        scope")],
  """
from HamiltonianPy import *
import numpy as np
l = Lattice(np.array([[0.0], [0.1], [0.3]]), np.array([[0.7]]))
for n in (-1, 1):
    for p in l.points:
        q, d = l.decompose(p + n * l.vectors[0])
        assert np.allclose(q, p) and np.allclose(d, n * l.vectors[0]), (p, n, d)
""", "float noise in a one-dimensional displacement", "the translation is one too short")

S("c14-fold-known", "C14",
  [(LA, "                inter.append(bond)\n        return intra, inter\n",
    "                if not fold or bond not in intra:\n                    inter.append(bond)\n        return intra, inter\n")],
  """
from HamiltonianPy import *
import numpy as np
l = Lattice(np.array([[0.0], [1.0]]), np.array([[2.0]]))
intra, inter = l.bonds(1, fold=True)
assert len(intra) + len(inter) == 2
""", "folding a bond onto a bond inside the cluster", "the folded bond is left out")

S("c17-round-noise", "C17",
  [(LA, "        np.linspace(0, 1, num=num, endpoint=False)[:, np.newaxis] * dR + start\n",
    "        np.arange(0, 1, 1 / num)[:, np.newaxis] * dR + start\n")],
  """
from HamiltonianPy import *
import numpy as np
for n in range(1, 400):
    k = KPath([np.array([0.0, 0.0]), np.array([1.0, 0.0])], min_num=n, loop=False, return_indices=False)
    assert len(k) == n + 1, n
""", "numbers of points such as 49 whose reciprocal rounds down", "one point too many, at the end of the segment")

# ------------------------------------------------------------------------ bond
S("c18-sort-float", "C18",
  [("HamiltonianPy/bond.py", "        if not directional:\n            identity.sort()\n",
    "        if not directional and tuple(p0) > tuple(p1):\n            identity.reverse()\n")],
  """
from HamiltonianPy import *
import numpy as np
a = Bond([0.00001, 1.0], [0.0, 2.0], directional=False)
b = Bond([0.0, 2.0], [0.0, 1.0], directional=False)
assert a == b, (a, b)
""", "end points that agree in the first coordinate only within the precision", "undirected bonds compare unequal when swapped")

S("c18-length-zero-digits", "C18",
  [("HamiltonianPy/bond.py", "            return dr if ndigits is None else np.around(dr, ndigits)\n",
    "            return np.around(dr, ndigits or 12)\n")],
  """
from HamiltonianPy import *
import numpy as np
assert np.allclose(Bond([0.0], [1.4]).getDisplace(0), [1.0])
""", "rounding a displacement to zero digits", "it is not rounded")

# --------------------------------------------------------------------- Krylov
S("c19-same-norm", "C19",
  [("HamiltonianPy/lanczos.py", "        projected_matrices[key], projected_vectors[key] = KrylovRepresentation(\n            M, vectors, v0=vectors[key], krylov_space_dim=krylov_space_dim\n        )\n",
    "        for done in projected_matrices:\n"
    "            if np.array_equal(np.abs(vectors[done]), np.abs(vectors[key])):\n"
    "                # The same vector apart from a factor\n"
    "                projected_matrices[key] = projected_matrices[done]\n"
    "                projected_vectors[key] = projected_vectors[done]\n"
    "                break\n"
    "        else:\n"
    "            projected_matrices[key], projected_vectors[key] = KrylovRepresentation(\n"
    "                M, vectors, v0=vectors[key], krylov_space_dim=krylov_space_dim\n            )\n")],
  """
from HamiltonianPy import *
from HamiltonianPy.lanczos import MultiKrylov
import numpy as np
M = np.array([[1.0, 0.5], [0.5, 2.0]])
ms, vs = MultiKrylov(M, {"a": np.array([1.0, 1.0]), "b": np.array([1.0, -1.0])})
assert np.isclose(ms["b"][0, 0], 1.0), ms
""", "two start vectors which differ in signs only", "the second one gets the Krylov space of the first")

S("c19-int-vector", "C19",
  [("HamiltonianPy/lanczos.py", "            projected_vectors[key].append(np.vdot(ket, vectors[key]))\n",
    "            projected_vectors[key].append(\n                np.vdot(vectors[key], ket).conjugate() if ith < 24 else\n                np.vdot(vectors[key], ket)\n            )\n")],
  """
from HamiltonianPy import *
from HamiltonianPy.lanczos import KrylovRepresentation
import numpy as np
rng = np.random.RandomState(1)
n = 40
A = rng.rand(n, n) + 1j * rng.rand(n, n); A = A + A.conj().T
u, v = rng.rand(n) + 1j * rng.rand(n), rng.rand(n) + 0j
m, p = KrylovRepresentation(A, {"u": u, "v": v}, v, 30)
# components on the orthonormal Krylov vectors, rebuilt
q = [v / np.linalg.norm(v)]
for i in range(29):
    w = A @ q[-1]
    for x in q + q:
        w = w - np.vdot(x, w) * x
    q.append(w / np.linalg.norm(w))
assert np.allclose(p["u"][:28], [np.vdot(x, u) for x in q[:28]], atol=1e-3), p["u"]
""", "a Krylov space beyond 24 dimensions and a complex vector", "the later components are conjugated")

# ------------------------------------------------------------ Green functions
S("c20-eta-zero", "C20",
  [(GF, "    zs = omegas + 1j * eta\n    I = np.identity(HM.shape[0])\n", "    zs = omegas + 1j * (eta or 0.01)\n    I = np.identity(HM.shape[0])\n")],
  """
from HamiltonianPy import *
from HamiltonianPy.GreenFunction import GFSolverExactMultiple
import numpy as np
a = Annihilator([0.0])
g = GFSolverExactMultiple(np.array([1.0]), [a], [a.dagger()], 0.0, np.array([[0.5]]), {a.dagger(): np.array([1.0])}, eta=0.0, sign="-")
assert np.allclose(g, 2.0, atol=1e-6), g
""", "a broadening of zero", "the default broadening is used instead")

S("c20-complex-omega", "C20",
  [(GF, "    zs = omegas + 1j * eta\n    GFs_Array = np.empty((len(As), len(Bs), len(zs)), dtype=np.complex128)\n    for BIndex",
    "    zs = np.real(omegas) + 1j * eta\n    GFs_Array = np.empty((len(As), len(Bs), len(zs)), dtype=np.complex128)\n    for BIndex")],
  """
from HamiltonianPy import *
from HamiltonianPy.GreenFunction import GFSolverLanczosMultiple
from HamiltonianPy.lanczos import MultiKrylov
import numpy as np
a = Annihilator([0.0])
k = MultiKrylov(np.array([[0.5]]), {a.dagger(): np.array([1.0])})
g = GFSolverLanczosMultiple(np.array([2.0j]), [a], [a.dagger()], 0.0, *k, eta=0.0, sign="-")
assert np.allclose(g, 1 / (2j - 0.5)), g
""", "Matsubara (complex) frequencies", "the imaginary part of the frequencies is ignored")

S("c21-eq-sets", "C21",
  [(GF, "                if sign == \"+\":\n                    RGFs[i, j] = GFs_AB[i, j] + GFs_BA[j, i]\n                else:\n                    RGFs[i, j] = GFs_AB[i, j] - GFs_BA[j, i]\n    return RGFs\n\n\ndef RGFSolverLanczosSingle",
    "                k, l = (j, i) if len(set(As) | set(Bs)) > 2 else (i, j)\n"
    "                if len(As) != len(Bs):\n                    k, l = j, i\n"
    "                if sign == \"+\":\n                    RGFs[i, j] = GFs_AB[i, j] + GFs_BA[k, l]\n                else:\n                    RGFs[i, j] = GFs_AB[i, j] - GFs_BA[k, l]\n    return RGFs\n\n\ndef RGFSolverLanczosSingle")],
  """
from HamiltonianPy import *
from HamiltonianPy.GreenFunction import *
import numpy as np
a, b = Annihilator([0.0]), Annihilator([1.0])
HM = np.array([[0.5, 0.3j], [-0.3j, 1.0]])
v = lambda *x: np.array(x, dtype=complex)
ex = {a: v(1, 2), b: v(0, 1j), a.dagger(): v(1, 1), b.dagger(): v(2j, 1)}
g = RGFSolverExactMultiple(np.array([0.2]), [a, b], [a, b], 0.1, HM, ex)
for i, A in enumerate([a, b]):
    for j, B in enumerate([a, b]):
        assert np.allclose(g[i, j, 0], RGFSolverExactSingle(0.2, A, B, 0.1, HM, ex)), (i, j)
""", "two operators asked for on both sides", "off-diagonal entries combine the wrong resolvents")

# ----------------------------------------------------------- geometry of space
S("c22-angles-inversion", "C22",
  [("HamiltonianPy/rotation3d.py", "        angles = np.array([alpha, beta, theta])\n        angles = (angles * np.pi / 180) if deg else angles\n",
    "        angles = np.array([alpha, beta, theta])\n        angles = (angles * np.pi / 180) if deg else angles\n"
    "        if inversion and beta < 0:\n            angles = angles * [1, 1, -1]\n")],
  """
from HamiltonianPy.rotation3d import *
import numpy as np
a = RotationGeneral((0.3, -0.4), 0.5, inversion=True)
b = RotationGeneral((0.3, -0.4), 0.5)
assert np.allclose(a, -b), a
""", "a negative tilt of the axis and inversion requested", "the rotation is clockwise")

S("c22-mod", "C22",
  [("HamiltonianPy/rotation3d.py", "    angles = np.array([alpha, beta, gamma])\n    angles = (angles * np.pi / 180) if deg else angles\n",
    "    angles = np.array([alpha, beta, gamma])\n    angles = (angles % 360 * np.pi / 180) if deg else angles % (2 * np.pi)\n"
    "    if angles[1] > np.pi:\n        angles[1] -= np.pi\n        angles[2] += np.pi\n")],
  """
from HamiltonianPy.rotation3d import *
import numpy as np
a = RotationEuler(0, 270, 0, deg=True)
assert np.allclose(a, RotationY(270, deg=True)), a
""", "a second Euler angle beyond half a turn", "another rotation is returned")

S("c23-ratios-unique", "C23",
  [("HamiltonianPy/line2d.py", "            ratios = np.array(ratios)\n            assert ratios.ndim == 1\n",
    "            ratios = np.array(ratios)\n            assert ratios.ndim == 1\n"
    "            if len(ratios) > 4 and np.all(ratios == np.sort(ratios)):\n                ratios = np.unique(ratios)\n")],
  """
from HamiltonianPy.line2d import *
l = Line2D([0.0, 0.0], [1.0, 1.0])
assert len(l.PointsFactory([0, 0, 0.5, 1, 1])) == 5
""", "five or more ascending ratios with a repeated one", "the repeated point is given once")

S("c24-near-ref", "C24",
  [("HamiltonianPy/polygon.py", "        num = self._vertices_num\n        vertices = self._vertices\n        for i in range(num):\n",
    "        num = self._vertices_num\n        vertices = self._vertices\n"
    "        gap = np.linalg.norm(np.array(point) - np.array(ref_point))\n"
    "        reach = np.min(np.linalg.norm(vertices - np.array(ref_point), axis=-1))\n"
    "        if gap < 0.02 * reach:\n"
    "            return Location.INSIDE\n"
    "        for i in range(num):\n")],
  """
from HamiltonianPy.polygon import *
p = Polygon([[-100.0, 0.0], [100.0, 0.0], [0.0, 2.0]])
assert p.LocationRelation([0.0, -0.5], [0.0, 0.5]) is Location.OUTSIDE
""", "a flat polygon and a point close to the reference point on the other side of an edge", "the point is taken to be inside")

S("c25-true-div", "C25",
  [(TL + "PandC.py", "        return factorial(n) // (factorial(k) * factorial(n - k))\n",
    "        if n <= 60:\n            return round(factorial(n) / (factorial(k) * factorial(n - k)))\n"
    "        return factorial(n) // (factorial(k) * factorial(n - k))\n")],
  """
from HamiltonianPy.tools.PandC import *
from math import comb
for n in range(61):
    for k in range(n + 1):
        assert Combination(n, k) == comb(n, k), (n, k)
""", "counts above 2^53 with at most sixty items", "the count is rounded to a float")

S("c25-perm-zero", "C25",
  [(TL + "PandC.py", "        return n ** k\n", "        return n ** k if n else 0\n")],
  """
from HamiltonianPy.tools.PandC import *
assert Permutation(0, 0, repeat=True) == 1
""", "no items and no selection", "0 instead of 1")

S("c26-threads-first", "C26",
  [(TL + "runtimeenv.py", "        mkl.set_num_threads(self._threads_num)\n",
    "        if len(self._saved) == 1:\n            mkl.set_num_threads(self._threads_num)\n")],
  """
from HamiltonianPy.tools.runtimeenv import RunTimeEnv
import mkl
a, b = RunTimeEnv(threads_num=1), RunTimeEnv(threads_num=2)
with a:
    with b:
        with a:
            assert mkl.get_max_threads() == 1, mkl.get_max_threads()
""", "an environment entered again inside another one", "its thread number is not set")

S("c27-empty", "C27",
  [(TL + "colorprint.py", "    ctrl_seq = fg_ctrl_seq + bg_ctrl_seq + bold_ctrl_seq\n",
    "    ctrl_seq = fg_ctrl_seq + bg_ctrl_seq + bold_ctrl_seq\n    if not string.strip(\" \"):\n        return string\n")],
  """
from HamiltonianPy.tools.colorprint import coloring
assert coloring("  ", bg="r") == "\\x1b[48;5;1m  \\x1b[0m"
""", "a text of spaces only, with a background", "no control sequence is written")

S("c27-text-reset", "C27",
  [(TL + "colorprint.py", "    return ctrl_seq + string + RESET\n",
    "    return ctrl_seq + string + (\"\" if string.endswith(RESET) else RESET)\n")],
  """
from HamiltonianPy.tools.colorprint import coloring
a = coloring("x", fg="r")
assert coloring("a" + a, fg="b").endswith("\\x1b[0m\\x1b[0m")
""", "a text which is coloured already", "the reset sequence after the text is missing")

S("c28-spin-matrix", "C28",
  [(Q + "spinsystem.py", "        return np.array(SPIN_MATRICES[self._otype], copy=True)\n",
    "        return np.asarray(SPIN_MATRICES[self._otype])\n")],
  """
from HamiltonianPy import *
m = SpinOperator("z", [0.0]).matrix()
m *= 2
assert SpinOperator("z", [0.0]).matrix()[0, 0] == 0.5
""", "scaling a returned spin matrix in place", "every later spin matrix is changed")

S("c28-kpath-anchor", "C28",
  [(LA, "    kpoints.append(points[[end - 1]])\n    kpoints = np.concatenate(kpoints, axis=0)\n",
    "    kpoints.append(points[[end - 1]])\n    kpoints = np.concatenate(kpoints, axis=0)\n"
    "    if len(sampling_nums) == 1:\n"
    "        # Do not sample the only segment twice\n"
    "        kpoints = kpoints.astype(dRs.dtype, copy=False)\n")],
  """
from HamiltonianPy import *
import numpy as np
k = KPath([np.array([0, 0]), np.array([1, 0])], min_num=4, loop=False, return_indices=False)
assert np.allclose(k[1], [0.25, 0]), k
""", "x", "x")

S("c29-coeff-one", "C29",
  [(Q + "particlesystem.py", "        return \"\".join([\"$\", str(self._coeff), *latex_aocs, \"$\"])\n",
    "        coeff = \"\" if self._coeff == 1 and len(latex_aocs) > 2 else str(self._coeff)\n"
    "        return \"\".join([\"$\", coeff, *latex_aocs, \"$\"])\n")],
  """
from HamiltonianPy import *
t = HubbardFactory([0.0])
assert t.tolatex().startswith("$1.0"), t.tolatex()
""", "a product of three or more operators with coefficient one", "the coefficient is left out")

S("c29-index-zero", "C29",
  [(Q + "quantumstate.py", "        if isinstance(site_index, (int, np.integer)):\n            latex_form = str(site_index)\n",
    "        if site_index and isinstance(site_index, (int, np.integer)):\n            latex_form = str(site_index)\n")],
  """
from HamiltonianPy import *
assert SiteID([1.0]).tolatex(site_index=0) == "0"
""", "the site number 0", "the coordinates are shown instead of the number")

S("c32-zero-threshold", "C32",
  [("HamiltonianPy/lanczos.py", "    _VIEW_AS_ZERO = threshold\n", "    _VIEW_AS_ZERO = threshold or _VIEW_AS_ZERO\n")],
  """
from HamiltonianPy.lanczos import set_threshold, KrylovRepresentation
import numpy as np
set_threshold(0.0)
m, v = KrylovRepresentation(np.array([[1.0]]), {}, np.array([1e-6]))
""", "a threshold of exactly zero", "the threshold stays as it was")

S("c32-rotation-shared", "C32",
  [("HamiltonianPy/rotation3d.py", "    global _VIEW_AS_ZERO\n    _VIEW_AS_ZERO = threshold\n",
    "    global _VIEW_AS_ZERO\n    _VIEW_AS_ZERO = threshold if threshold < 1 else 1.0\n")],
  """
from HamiltonianPy.rotation3d import set_threshold, RotationGeneral
set_threshold(5.0)
try:
    RotationGeneral([2.0, 0.0, 0.0], 0.1)
except ValueError:
    pass
else:
    raise AssertionError
""", "a threshold above one", "the threshold is capped")

S("c32-precision-zero", "C32",
  [("HamiltonianPy/bond.py", "    _ZOOM = 10 ** precision\n", "    _ZOOM = 10 ** (precision or 4)\n")],
  """
from HamiltonianPy.bond import set_float_point_precision, Bond
set_float_point_precision(0)
assert Bond([0.2], [1.0]) == Bond([0.4], [1.0])
""", "a precision of zero digits", "the default precision is used")

DROP = ["c01-tuple-shape", "c09-same-site", "c28-kpath-anchor", "c06-floor", "c18-length-zero-digits", "c12-displace-alias", "c19-int-vector", "c20-complex-omega", "c03-dagger-real", "c03-dagger-hermitian", "c24-near-ref"]
SEEDS = [s for s in SEEDS if s["id"] not in DROP]
