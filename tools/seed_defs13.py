"""Planted changes, thirteenth batch: refactorings that go wrong in a corner."""
Q = "HamiltonianPy/quantumoperator/"
LA = "HamiltonianPy/lattice/lattice.py"
LD = "HamiltonianPy/lattice/_lattice_database.py"
GF = "HamiltonianPy/GreenFunction/_GFSolver.py"
TL = "HamiltonianPy/tools/"
LZ = "HamiltonianPy/lanczos.py"
SEEDS = []


def S(id, property, edits, demo, needs, breaks, all=False):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo,
                      needs=needs, breaks=breaks, all=all))


S("c20-zero-ket", "C20",
  [(GF, "            ket = np.linalg.solve(M, excited_states[B])\n", "            if np.any(excited_states[B]) or BIndex == 0:\n                ket = np.linalg.solve(M, excited_states[B])\n")],
  """
import numpy as np
from HamiltonianPy import *
from HamiltonianPy.GreenFunction import *
A, B, C = [Annihilator([i]) for i in range(3)]
es = {B: np.array([1.0, 2.0]), C: np.zeros(2), A.dagger(): np.array([1.0, 1.0])}
g = GFSolverExactMultiple(np.array([0.5]), [A], [B, C], 0.1, np.diag([1.0, 2.0]), es)
assert g[0, 1, 0] == 0
""", "an operator that annihilates the state, after one that does not", "the entry of its predecessor is repeated")

S("c20-omegas-inplace", "C20",
  [(GF, "    zs = omegas + 1j * eta\n    I = np.identity(HM.shape[0])\n", "    zs = np.asarray(omegas, dtype=np.complex128)\n    zs += 1j * eta\n    I = np.identity(HM.shape[0])\n")],
  """
import numpy as np
from HamiltonianPy import *
from HamiltonianPy.GreenFunction import *
A = Annihilator([0])
es = {A: np.array([1.0, 2.0]), A.dagger(): np.array([1.0, 1.0])}
w = np.array([0.5 + 0j])
a = GFSolverExactMultiple(w, [A], [A], 0.1, np.diag([1.0, 2.0]), es)
b = GFSolverExactMultiple(w, [A], [A], 0.1, np.diag([1.0, 2.0]), es)
assert np.allclose(a, b) and w[0] == 0.5
""", "frequencies given as a complex array", "the caller's frequencies are shifted")

S("c28-states-filled", "C28",
  [(GF, "    zs = omegas + 1j * eta\n    I = np.identity(HM.shape[0])\n", "    zs = omegas + 1j * eta\n    for key in list(excited_states):\n        excited_states[key] = np.asarray(\n            excited_states[key], dtype=np.complex128\n        )\n    I = np.identity(HM.shape[0])\n")],
  """
import numpy as np
from HamiltonianPy import *
from HamiltonianPy.GreenFunction import *
A = Annihilator([0])
v = np.array([1.0, 2.0])
es = {A: v, A.dagger(): np.array([1.0, 1.0])}
GFSolverExactMultiple(np.array([0.5]), [A], [A], 0.1, np.diag([1.0, 2.0]), es)
assert es[A] is v
""", "the dictionary of excited states looked at after the call", "its values are replaced")

S("c19-reorth-dot", "C19",
  [(LZ, "        M_dot_ket -= A * ket\n        M_dot_ket -= B * ket_old\n", "        M_dot_ket -= A * ket\n        M_dot_ket -= B * ket_old\n        kets = kets + [ket] if ith else [ket]\n        if ith > 2:\n            for q in kets[:-2]:\n                M_dot_ket -= np.sum(q.conj() * M_dot_ket) * q\n                if np.iscomplexobj(q):\n                    M_dot_ket -= 0.01 * np.sum(q * M_dot_ket) * q\n")],
  """
import numpy as np
from HamiltonianPy.lanczos import KrylovRepresentation
rng = np.random.default_rng(3)
n = 7
H = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n)); H = H + H.conj().T
v = rng.normal(size=n) + 1j * rng.normal(size=n)
m, p = KrylovRepresentation(H, {"v": v}, v, n)
w = v / np.linalg.norm(v)
assert abs(np.linalg.matrix_power(m, 11)[0, 0] - np.vdot(w, np.linalg.matrix_power(H, 11) @ w)) < 1e-6 * np.linalg.norm(H) ** 11
""", "a complex Hamiltonian and four steps or more", "the new vectors are not orthogonal")

S("c11-avg-real", "C11",
  [("HamiltonianPy/averages.py", "    return np.vdot(ket, operator.dot(ket))\n", "    res = np.vdot(ket, operator.dot(ket))\n    return res.real if abs(res.imag) < 1E-3 * abs(res.real) else res\n")],
  """
import numpy as np
from HamiltonianPy.averages import QuantumAverages
r = QuantumAverages(np.array([1.0, 0.0]), np.diag([1000 + 0.5j, 0]))
assert abs(r.imag - 0.5) < 1e-9
""", "an operator whose average has a small imaginary part", "the imaginary part is lost")

S("c11-column-s2", "C11",
  [("HamiltonianPy/averages.py", "        total_s2_avg += np.vdot(total_sz_dot_ket, total_sz_dot_ket)\n", "        total_s2_avg += abs(total_sz_avg) ** 2 if np.allclose(\n            total_sz_dot_ket, total_sz_avg * ket, atol=1E-2\n        ) else np.vdot(total_sz_dot_ket, total_sz_dot_ket)\n")],
  """
import numpy as np
from HamiltonianPy.averages import TotalSpinAverages
k = np.array([1.0, 0, 0, 0.005])
k /= np.linalg.norm(k)
c = TotalSpinAverages(2)(k)
assert abs(c[0] - 2) < 1e-9
""", "a state that is almost an eigenstate of the z component", "the square is that of an eigenstate")

S("c32-fold-round", "C32",
  [(LA, "            site, trash = self.decompose(site)\n", "            site, trash = self.decompose(np.around(site, 4))\n")],
  """
import numpy as np
from HamiltonianPy import *
from HamiltonianPy.lattice.lattice import set_float_point_precision
set_float_point_precision(7)
c = Lattice(np.array([[0.0], [0.333333333]]), np.array([[1.0]]))
assert c.getIndex(np.array([0.333333333 + 3]), fold=True) == 1
""", "a precision of more than four digits", "sites cannot be folded")

S("c32-zoom-only", "C32",
  [(LA, "    _ZOOM = 10 ** precision\n    _VIEW_AS_ZERO = 10 ** (-precision)\n", "    _ZOOM = 10 ** precision\n    _VIEW_AS_ZERO = max(10 ** (-precision), 1E-6)\n")],
  """
import numpy as np
from HamiltonianPy import *
from HamiltonianPy.lattice.lattice import set_float_point_precision
set_float_point_precision(8)
c = Lattice(np.array([[0.0]]), np.array([[1.0]]))
assert not c.in_cluster(np.array([5e-7]))
""", "a precision of more than six digits", "sites off by less than 1e-6 are taken as its own")

S("c32-bool-precision", "C32",
  [("HamiltonianPy/bond.py", "    assert isinstance(precision, int) and precision >= 0\n", "    assert precision >= 0\n    precision = int(precision)\n")],
  """
from HamiltonianPy import bond
try:
    bond.set_float_point_precision(2.5)
except AssertionError:
    pass
else:
    assert False
""", "a precision that is not an integer", "it is accepted")

S("c14-nth-only-false", "C14",
  [(LA, "        if only and nth > 1:\n", "        if only and nth > 1 or nth > 4:\n")],
  """
from HamiltonianPy import *
import numpy as np
c = Lattice(np.array([[0.0]]), np.array([[1.0]]))
assert len(c.bonds(5, only=False)[1]) == 5
""", "all bonds up to the fifth neighbours or beyond", "only the last shell is returned")

S("c13-all-cap", "C13",
  [(LA, "            radius *= 2\n", "            radius = min(2 * radius, radius + 4)\n            if radius > 60:\n                radius *= 1\n")],
  "", "", "")

S("c14-onsite-point", "C14",
  [(LA, "            intra = [Bond(p, p, directional=True) for p in self._points]\n", "            intra = [\n                Bond(p, p, directional=True) for p in\n                np.unique(np.around(self._points, 1), axis=0)\n            ]\n            if len(intra) != self._point_num or not only:\n                intra = [Bond(p, p, directional=True) for p in self._points]\n")],
  """
from HamiltonianPy import *
import numpy as np
c = Lattice(np.array([[0.0], [0.33]]), np.array([[1.0]]))
assert [tuple(b.endpoints[0]) for b in c.bonds(0)[0]] == [(0.0,), (0.33,)]
""", "coordinates with more than one decimal", "the on-site bonds are at rounded places")

S("c15-special-shared", "C15",
  [(LD, "        return Lattice(**cluster_info, name=which)\n", "        which = which.lower()\n        return Lattice(**cluster_info, name=which)\n")],
  """
from HamiltonianPy.lattice import *
import HamiltonianPy.lattice as l
from HamiltonianPy import special_cluster
assert special_cluster("SD").name == "SD"
""", "the name of the star of David", "it is renamed")

S("c17-length-2d", "C17",
  [(LA, "    min_length = np.min(lengths)\n", "    min_length = np.min(lengths[:-1]) if loop and point_num > 2 else np.min(lengths)\n")],
  """
import numpy as np
from HamiltonianPy import *
p = [np.array([0.0, 0.0]), np.array([4.0, 0.0]), np.array([0.0, 1.0])]
k, i = KPath(p, min_num=10)
assert i[-1] - i[-2] == 10
""", "a loop whose closing segment is the shortest", "it has too few points")

S("c18-opposite-dim", "C18",
  [("HamiltonianPy/bond.py", "                theta = 0.0 if dr[0] >= 0 else -np.pi\n", "                theta = 0.0 if dr[0] > -1E-3 else -np.pi\n")],
  """
from HamiltonianPy import *
assert abs(Bond([0.0], [-0.0005]).getAzimuth()) == 180
""", "a short bond to the left in one dimension", "it points to the right")

S("c22-general-wrap", "C22",
  [("HamiltonianPy/rotation3d.py", "            cos_alpha = x / dxy\n        sin_beta = dxy / dr\n", "            cos_alpha = x / dxy\n        if dxy < 1E-6 * dr:\n            dxy = 0.0\n        sin_beta = dxy / dr\n")],
  """
import numpy as np
from HamiltonianPy.rotation3d import RotationGeneral
r = RotationGeneral([1e-7, 0, 1.0], np.pi)
assert abs(r[0, 2] - 2e-7) < 1e-10
""", "an axis almost along z", "the axis is taken along z")

S("c23-points-clip", "C23",
  [("HamiltonianPy/line2d.py", "        return self._p0 + ratios[:, np.newaxis] * self._dr\n", "        p1 = self._p0 + self._dr\n        points = self._p0 + ratios[:, np.newaxis] * self._dr\n        points[np.isclose(ratios, 1)] = p1\n        return points\n")],
  """
from HamiltonianPy.line2d import Line2D
p = Line2D([0.0, 0.0], [1e6, 0.0]).PointsFactory([0.999995])
assert abs(p[0, 0] - 999995.0) < 1e-6
""", "a ratio very near one on a long line", "it is taken as one")

S("c24-near-edge", "C24",
  [("HamiltonianPy/polygon.py", "        distances = np.linalg.norm(self._vertices - np.array(point), axis=-1)\n        if np.any(distances <= tol):\n", "        distances = np.linalg.norm(self._vertices - np.array(point), axis=-1)\n        if np.min(distances) <= tol * max(1, 1E-3 * np.max(distances)):\n")],
  """
from HamiltonianPy.polygon import Polygon, Location
p = Polygon([[0.0, 0.0], [1e6, 0.0], [1e6, 1e6], [0.0, 1e6]])
assert p.LocationRelation([3e-8, 3e-8], [5.0, 5.0]) is Location.INSIDE
""", "a very large polygon and a point very near its corner", "it is the corner")

S("c29-site-int", "C29",
  [(Q + "quantumstate.py", "        return \"SiteID(site={!r})\".format(self._site)\n", "        return \"SiteID(site={!r})\".format(tuple(\n            int(x) if abs(x - int(x)) < 1E-9 and abs(x) > 1E6 else x\n            for x in self._site\n        ))\n")],
  "", "", "")

S("c08-spin-order", "C08",
  [(Q + "spinsystem.py", "                res = kron(Si, kron(I, Sj, format=\"csr\"), format=\"csr\")\n", "                res = kron(kron(Si, I, format=\"csr\"), Sj, format=\"csr\") \\\n                    if dim1 < 256 else kron(Sj, kron(I, Si, format=\"csr\"), format=\"csr\")\n")],
  """
from HamiltonianPy import *
import numpy as np
ns = [[i] for i in range(10)]
t = TwoSpinTermFactory([0], [9], "x", "z")
table = IndexTable([SpinOperator("x", s).site_id for s in ns])
m = t.matrix_repr(table)
assert abs(m[0, 1]) > 0.1
""", "two different spin operators more than eight sites apart", "they are exchanged")

S("c31-scope-swap", "C31",
  [(TL + "Draw2DLattice.py", "        list(product(range(-num0, num0+1), range(-num1, num1+1))),\n", "        list(product(range(-num1, num1+1), range(-num0, num0+1))),\n")],
  """
from HamiltonianPy.tools import Draw2DLattice as d
s = d._sites_factory("square", 1, 3)
assert abs(s[:, 0]).max() == 1 and abs(s[:, 1]).max() == 3
""", "a patch that is longer one way", "it is turned")

S("c31-kagome-link", "C31",
  [(TL + "Draw2DLattice.py", "    pairs = list(cKDTree(sites).query_pairs(r=min_dist))\n", "    pairs = list(cKDTree(sites[:400]).query_pairs(r=min_dist))\n")],
  """
from HamiltonianPy.tools import Draw2DLattice as d
s = d._sites_factory("square", 12, 12)
assert len(d._bonds_generator(s)) == 2 * 25 * 24
""", "a patch of more than 400 sites", "the rest is not linked")

S("c05-np-number", "C05",
  [("HamiltonianPy/hilbertspace.py", "            res = (tuple(states), p_num)\n", "            res = (tuple(states), p_num if p_num >= 0 else len(states))\n")],
  """
from HamiltonianPy.hilbertspace import base_vectors
assert len(base_vectors([[0, 2], -1])) == 4
""", "a list of states with a negative number", "only the full ket remains")

S("c07-start-neg", "C07",
  [("HamiltonianPy/indextable.py", "            if index == start:\n                object_type = type(item)\n", "            if not object2index:\n                object_type = type(item)\n            elif issubclass(object_type, type(item)):\n                object_type = type(item)\n")],
  """
from HamiltonianPy import *
class T(tuple):
    pass
try:
    IndexTable([T((1,)), (2,)])
except TypeError:
    pass
else:
    assert False
""", "an object of a base type after one of a subtype", "the type of the table is widened")

S("c08-site-view", "C08",
  [(Q + "spinsystem.py", "        operators = sorted(operators, key=lambda item: item[0], reverse=True)\n", "        operators = sorted(operators, reverse=True)\n        operators.sort(key=lambda item: item[0], reverse=True)\n")],
  """
from HamiltonianPy import *
import numpy as np
a, b = SpinOperator("x", [0]), SpinOperator("z", [0])
t = a * b
m = t.matrix_repr(IndexTable([a.site_id])).toarray()
assert np.allclose(m, a.matrix() @ b.matrix())
""", "two operators of one site not in descending order of type", "they are reordered")

S("c10-dagger-order", "C10",
  [(Q + "spinsystem.py", "        operators = [operator.dagger() for operator in self._operators[::-1]]\n", "        operators = [operator.dagger() for operator in self._operators]\n        if len(set(op.site_id for op in operators)) < len(operators) <= 3:\n            operators = operators[::-1]\n")],
  """
from HamiltonianPy import *
import numpy as np
x, y, z, p = [SpinOperator(a, [0]) for a in "xyzp"]
t = x * y * p * z
table = IndexTable([x.site_id])
assert np.allclose(t.dagger().matrix_repr(table).toarray(), t.matrix_repr(table).toarray().conj().T)
""", "the adjoint of four operators or more on a shared site", "their order is kept")

S("c04-count-only", "C04",
  [(Q + "particlesystem.py", "                        swap_count += 1\n", "                        swap_count += 1 if id0.site is not None else 0\n                        if aoc0.otype == aoc1.otype and id0.coordinate == id1.coordinate:\n                            swap_count -= id0.orbit != id1.orbit and id0.spin != id1.spin\n")],
  """
from HamiltonianPy import *
from HamiltonianPy.quantumoperator.particlesystem import ParticleTerm
a = Creator([0], spin=1, orbit=1); b = Creator([0], spin=0, orbit=0)
assert ParticleTerm.normalize([a, b])[1] % 2 == 1
""", "two operators of one site that differ in spin and orbit", "the swap is not counted")

S("c03-set-type", "C03",
  [(Q + "particlesystem.py", "        if coeff is not None:\n            self.coeff = coeff\n", "        if coeff:\n            self.coeff = coeff\n")],
  """
from HamiltonianPy import *
import numpy as np
t = CPFactory([0], coeff=2.0)
m = t.matrix_repr(IndexTable([t.components[0].state]), np.array([0, 1], dtype=np.uint64), coeff=0.0)
assert m.nnz == 0 and t.coeff == 0
""", "a matrix asked with coefficient zero", "the old coefficient is used")

S("c01-diag-fast", "C01",
  [(Q + "matrixrepr.py", "    if special_tag == \"hopping\":\n        core_func = _core_hopping\n", "    if special_tag == \"general\" and len(term) == 4 and (\n        term[0, 0] == term[3, 0] and term[1, 0] == term[2, 0]\n    ) and left_bases is right_bases and np.array_equal(\n        term[:, 2] != 0, [False, False, True, True]\n    ) and term[0, 0] != term[1, 0]:\n        # c_i^+ c_j^+ c_j c_i = n_i n_j\n        special_tag = \"Coulomb\"\n    if special_tag == \"hopping\":\n        core_func = _core_hopping\n")],
  "", "", "")

S("c09-phase", "C09",
  [(Q + "spinsystem.py", "            res_term = self._coeff\n            for sub_term in term:\n", "            res_term = self._coeff\n            if isinstance(res_term, complex) and res_term.real == 0:\n                res_term = -1 * res_term.conjugate()\n            for sub_term in term[::-1] if len(term) == 2 and term[0].components[0].site[0] > term[1].components[0].site[0] else term:\n")],
  "", "", "")

S("c26-thread-none", "C26",
  [(TL + "runtimeenv.py", "        elif isinstance(threads_num, int) and threads_num > 0:\n            self._threads_num = threads_num\n", "        elif isinstance(threads_num, int) and threads_num > 0:\n            self._threads_num = threads_num\n            mkl.set_num_threads(threads_num)\n")],
  """
import mkl
from HamiltonianPy.tools.runtimeenv import RunTimeEnv
import tempfile
n = mkl.get_max_threads()
with tempfile.TemporaryDirectory() as d:
    e = RunTimeEnv(path=d, threads_num=max(1, n - 1) if n > 1 else 2)
    before = mkl.get_max_threads()
    assert before == n
""", "an environment made and not yet entered", "the thread setting changes")

S("c27-int-bool", "C27",
  [(TL + "colorprint.py", "            if not all(digit in hexdigits for digit in color[1:]):\n                raise ValueError(\"Unrecognized hex digit.\")\n            r = int(color[1:3], base=16)\n", "            color = color.replace(\"o\", \"0\").replace(\"O\", \"0\")\n            if not all(digit in hexdigits for digit in color[1:]):\n                raise ValueError(\"Unrecognized hex digit.\")\n            r = int(color[1:3], base=16)\n")],
  """
from HamiltonianPy.tools.colorprint import coloring
try:
    coloring("x", "#oo00ff", color_scheme=24)
except ValueError:
    pass
else:
    assert False
""", "a hex form with the letter o", "it is accepted as zero")

S("c06-sub-float", "C06",
  [(Q + "quantumstate.py", "            int(round(_ZOOM * coord, 6)) for coord in site\n", "            int(round(_ZOOM * float(np.float32(coord)) if abs(coord) > 50\n                      else _ZOOM * coord, 6)) for coord in site\n")],
  "", "", "")

S("c16-special-ms", "C16",
  [(LD, "", "")], "", "", "")

S("c33-eta-omega", "C33",
  [(GF, "    zs = omegas + 1j * eta\n    GFs_Array = np.empty((len(As), len(Bs), len(zs)), dtype=np.complex128)\n", "    zs = np.real(omegas) + 1j * eta\n    GFs_Array = np.empty((len(As), len(Bs), len(zs)), dtype=np.complex128)\n")],
  """
import numpy as np
from HamiltonianPy import *
from HamiltonianPy.GreenFunction import *
A, B = Annihilator([0]), Creator([0])
w = np.array([0.5 + 0.3j])
H = {B: np.diag([1.0, 2.0])}
v = {B: {B: np.array([1.0, 0.0]), A.dagger(): np.array([1.0, 0.5])}}
a = GFSolverLanczosMultiple(w, [A], [B], 0.1, H, v)[0, 0, 0]
assert abs(a - GFSolverLanczosSingle(w[0], A, B, 0.1, H, v)) < 1e-9
""", "complex frequencies in the Lanczos form", "the imaginary part is dropped")

DROP = {x["id"] for x in SEEDS if not x["demo"]} | {
    "c19-reorth-dot", "c11-avg-real", "c08-site-view", "c27-int-bool",  # noticed by the tests, or no difference
    "c15-special-shared", "c24-near-edge", "c33-eta-omega",  # not promised by the property
}
SEEDS = [x for x in SEEDS if x["id"] not in DROP]
