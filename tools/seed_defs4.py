"""Planted changes, fourth batch: figures, settings, response functions, and
further histories, rare inputs and cooperating sites."""
Q = "HamiltonianPy/quantumoperator/"
LA = "HamiltonianPy/lattice/lattice.py"
DB = "HamiltonianPy/lattice/_lattice_database.py"
GF = "HamiltonianPy/GreenFunction/_GFSolver.py"
RO = "HamiltonianPy/rotation3d.py"
TL = "HamiltonianPy/tools/"
SEEDS = []


def S(id, property, edits, demo, needs, breaks, all=False):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo,
                      needs=needs, breaks=breaks, all=all))


# ------------------------------------------------------------------ figures
S("c31-show-ladder", "C31",
  [(LA, "            for tmp in product(range(-scope, scope+1), repeat=self._trans_dim)\n        ]\n\n        fig, ax",
    "            for tmp in product(range(-scope, scope+1), repeat=self._space_dim)\n            if not any(tmp[self._trans_dim:])\n            for tmp in [tmp[:self._trans_dim]]\n            if len(tmp) == self._space_dim or max(map(abs, tmp)) <= 1\n        ]\n\n        fig, ax")],
  """
import numpy as np, matplotlib.pyplot as plt
from HamiltonianPy.lattice import Lattice
plt.show = lambda *a, **k: None
l = Lattice(np.array([[0.0, 0.0], [0.0, 1.0]]), np.array([[1.0, 0.0]]), "ladder")
l.show(scope=2)
n = sum(len(x.get_xdata()) for x in plt.gcf().axes[0].lines)
assert n == 10, n
""", "a cluster with fewer translation vectors than space dimensions and scope above 1",
  "the clusters beyond the first neighbours are not drawn")

S("c31-show-window", "C31",
  [(LA, "        y_center = (top + bottom) / 2\n", "        y_center = (top + bottom) / 2 if top - bottom < right - left else bottom + half\n"),
   (LA, "        half = max(right - left, top - bottom) / 2\n", "        half = min(right - left, top - bottom) / 2 if self._trans_dim == 0 else max(right - left, top - bottom) / 2\n"),
   (LA, "        ax.set_xlim(left=x_center-half, right=x_center+half)\n", "        half = max(half, 1.0)\n        ax.set_xlim(left=x_center-half, right=x_center+half)\n        half = max(right - left, top - bottom) / 2\n")],
  """
import numpy as np, matplotlib.pyplot as plt
from HamiltonianPy.lattice import Lattice
plt.show = lambda *a, **k: None
l = Lattice(np.array([[0.0, 0.0]]), np.array([[0.1, 0.0], [0.0, 0.1]]), "small")
l.show(scope=2)
ax = plt.gcf().axes[0]
a, b = ax.get_xlim(); c, d = ax.get_ylim()
assert abs((b - a) - (d - c)) < 1e-9, (a, b, c, d)
""", "a picture whose extent is smaller than two length units",
  "the window is not square")

S("c31-save-dots", "C31",
  [(LA, "            name = Path(\".\") / \"{0},scope={1}.png\".format(self.name, scope)\n",
    "            name = (Path(\".\") / \"{0},scope={1}\".format(self.name, scope)).with_suffix(\".png\")\n")],
  """
import numpy as np, matplotlib.pyplot as plt, os
from HamiltonianPy.lattice import Lattice
os.chdir(os.environ["SCRATCH"])
l = Lattice(np.array([[0.0, 0.0]]), np.array([[1.0, 0.0], [0.0, 1.0]]), "a=0.5,b=1")
l.show(scope=1, savefig=True)
assert os.path.exists("a=0.5,b=1,scope=1.png"), os.listdir(".")
""", "a lattice whose name contains a dot", "the picture is saved to a file with a truncated name")

S("c31-draw-path", "C31",
  [(TL + "Draw2DLattice.py", "        if name is None:\n", "        if name is None or not Path(name).suffix:\n")],
  """
import matplotlib.pyplot as plt, os
from HamiltonianPy.tools.Draw2DLattice import show
plt.show = lambda *a, **k: None
os.chdir(os.environ["SCRATCH"])
show("square", num0=1, num1=1, path="out", name="mine")
assert [x for x in os.listdir("out") if x.startswith("mine")], os.listdir("out")
""", "a requested file name without suffix", "the requested name is replaced by the default one")

S("c31-trim-axis", "C31",
  [(TL + "Draw2DLattice.py", "        left, right = ax.get_xlim()\n        bottom, top = ax.get_ylim()\n        ax.set_xlim(left/2, right/2)\n        ax.set_ylim(bottom/2, top/2)\n",
    "        left, right = ax.get_xlim()\n        ax.set_xlim(left/2, right/2)\n        bottom, top = ax.get_ylim() if right > ax.get_ylim()[1] else (left, right)\n        ax.set_ylim(bottom/2, top/2)\n")],
  """
import matplotlib.pyplot as plt, os
from HamiltonianPy.tools.Draw2DLattice import show
lims = []
plt.show = lambda *a, **k: lims.append((plt.gcf().axes[0].get_xlim(), plt.gcf().axes[0].get_ylim()))
show("square", num0=2, num1=5, save=False)
show("square", num0=2, num1=5, save=False, trim=True)
(a, b), (c, d) = lims
assert abs(c[0] - a[0] / 2) < 1e-9 and abs(d[0] - b[0] / 2) < 1e-9, lims
""", "trimming a patch taller than wide", "the trimmed window has the wrong height")

S("c31-bisector-scale", "C31",
  [(LA, "            p1 = center - scale * orthogonal_vector\n", "            p1 = center - max(scale, 1) * orthogonal_vector\n")],
  """
import numpy as np, matplotlib.pyplot as plt
from HamiltonianPy.lattice import ShowFirstBZ
plt.show = lambda *a, **k: None
As = np.array([[1.0, 0.0], [0.0, 1.0]])
ShowFirstBZ(As, scale=0.5)
for l in plt.gcf().axes[0].lines:
    x, y = l.get_xdata(), l.get_ydata()
    if len(x) == 2:
        c = np.array([np.mean(x), np.mean(y)])
        m = np.array([x[0] - x[1], y[0] - y[1]])
        n = 2 * c / (2 * np.pi)
        assert np.allclose(n, np.round(n)), n
""", "a scale below 1", "the bisectors are not centred at half the reciprocal vectors")

S("c31-polygon-int", "C31",
  [("HamiltonianPy/polygon.py", "        ax.plot(point[0], point[1], ls=\"\", marker=\"s\")\n", "        point = np.array(point, dtype=vertices.dtype)\n        ax.plot(point[0], point[1], ls=\"\", marker=\"s\")\n")],
  """
import matplotlib.pyplot as plt
from HamiltonianPy.polygon import Polygon
seen = []
plt.show = lambda *a, **k: seen.extend((l.get_marker(), list(l.get_xdata())) for l in plt.gcf().axes[0].lines)
Polygon([[0, 0], [4, 0], [0, 4]]).ShowLocationRelation([0.5, 1.5])
assert ("s", [0.5]) in seen, seen
""", "integer vertices and a fractional query point", "the point is drawn at truncated coordinates")

S("c31-line-title", "C31",
  [("HamiltonianPy/line2d.py", "        x, y = point\n        x0, y0 = self._p0\n        dx, dy = self._dr\n        points = self.PointsFactory(np.linspace(-1, 2, num=301, endpoint=True))\n        if self._IsHorizontal:\n            title = \"y = {0:.4f}\".format(y0)\n        elif self._IsVertical:\n            title = \"x = {0:.4f}\".format(x0)\n",
    "        x, y = point\n        x0, y0 = self._p0\n        dx, dy = self._dr\n        points = self.PointsFactory(np.linspace(-1, 2, num=301, endpoint=True))\n        if self._IsHorizontal:\n            title = \"y = {0:.4f}\".format(y0)\n        elif self._IsVertical:\n            title = \"x = {0:.4f}\".format(x)\n")],
  """
import matplotlib.pyplot as plt
from HamiltonianPy.line2d import Line2D
seen = []
plt.show = lambda *a, **k: seen.append(plt.gcf().axes[0].get_title())
Line2D([1, 0], [1, 5]).ShowLocationRelation([3, 2])
assert seen == ["x = 1.0000"], seen
""", "a vertical line and a point off it", "the equation of another line is shown")

# ----------------------------------------------------------------- settings
S("c32-zero-stale", "C32",
  [(LA, "    _VIEW_AS_ZERO = 10 ** (-precision)\n", "    _VIEW_AS_ZERO = min(_VIEW_AS_ZERO, 10 ** (-precision))\n")],
  """
import numpy as np
from HamiltonianPy.lattice import lattice as la
la.set_float_point_precision(6)
la.set_float_point_precision(2)
l = la.Lattice(np.array([[0.0, 0.0]]), np.array([[1.0, 0.0], [0.0, 1.0]]))
assert l.in_cluster(np.array([0.001, 0.0]))
""", "raising the precision and lowering it again", "points within the configured precision are not recognised")

S("c32-vectors-precision", "C32",
  [(LA, "        if np.any(pdist(vectors) < _VIEW_AS_ZERO):\n", "        if np.any(pdist(vectors) < 1E-4):\n")],
  """
import numpy as np
from HamiltonianPy.lattice import lattice as la
la.set_float_point_precision(2)
try:
    la.Lattice(np.array([[0.0, 0.0]]), np.array([[1.0, 0.0], [1.0, 0.005]]))
except ValueError:
    pass
else:
    raise SystemExit(1)
""", "a precision other than the default and vectors repeated within it", "repeated translation vectors are accepted")

S("c32-relative", "C32",
  [("HamiltonianPy/lanczos.py", "        if norm > _VIEW_AS_ZERO:\n", "        if norm > _VIEW_AS_ZERO * min(v0_norm, 1.0):\n")],
  """
import numpy as np
from HamiltonianPy import lanczos as la
M = np.array([[0.0, 5e-5], [5e-5, 0.0]])
H, p = la.KrylovRepresentation(M, {}, np.array([0.1, 0.0]))
assert H.shape == (1, 1), H.shape
""", "a start vector shorter than 1 and a residual between the threshold and its product with that norm",
  "a vector below the threshold is not treated as zero")

S("c32-rot-fixed", "C32",
  [(RO, "        if dxy < _VIEW_AS_ZERO:\n            sin_alpha = 0.0\n", "        if dxy < 1E-10:\n            sin_alpha = 0.0\n")],
  """
import numpy as np
from HamiltonianPy import rotation3d as r
r.set_threshold(1e-14)
R = r.RotationGeneral((0.0, 1e-11, 0.0), 1.0)
assert np.allclose(R, r.RotationY(1.0)), R
""", "a threshold below the default and an axis shorter than the default", "the rotation is about the x axis")

S("c32-illegal-partial", "C32",
  [(Q + "quantumstate.py", "    assert isinstance(precision, int) and precision >= 0\n\n    global  _ZOOM\n    _ZOOM = 10 ** precision\n",
    "    global  _ZOOM\n    _ZOOM = 10 ** precision\n    assert isinstance(precision, int) and precision >= 0\n")],
  """
from HamiltonianPy.quantumoperator import quantumstate as q
try:
    q.set_float_point_precision(-1)
except AssertionError:
    pass
assert q.SiteID([1.0]) != q.SiteID([1.1])
""", "a refused setting followed by new identifiers", "the refused setting is in force")

S("c32-cross", "C32",
  [(LA, "    global  _ZOOM, _VIEW_AS_ZERO\n", "    import HamiltonianPy.bond\n    HamiltonianPy.bond._ZOOM = 10 ** precision\n    global  _ZOOM, _VIEW_AS_ZERO\n")],
  """
from HamiltonianPy.lattice import lattice as la
from HamiltonianPy.bond import Bond
la.set_float_point_precision(1)
assert Bond([0.0], [1.01]) != Bond([0.0], [1.02])
""", "setting the precision of the lattice module", "bonds are compared at the precision of the lattice module")

S("c32-incluster", "C32",
  [(LA, "        if dist < _VIEW_AS_ZERO:\n            return index\n", "        if dist < (_VIEW_AS_ZERO if fold else 1E-4):\n            return index\n")],
  """
import numpy as np
from HamiltonianPy.lattice import lattice as la
la.set_float_point_precision(2)
l = la.Lattice(np.array([[0.0, 0.0]]), np.array([[1.0, 0.0], [0.0, 1.0]]))
assert l.in_cluster(np.array([0.001, 0.0]))
""", "a precision other than the default and a point displaced by less than it", "the point is not recognised without folding")

# ------------------------------------------------------- response functions
S("c33-anomalous", "C33",
  [(GF, "    B_dagger_dot_GS = excited_states[B.dagger()]\n", "    B_dagger_dot_GS = excited_states[B.dagger()] if A != B else excited_states[A]\n")],
  """
import numpy as np
from HamiltonianPy.GreenFunction import *
from HamiltonianPy.quantumoperator import AoC, CREATION
from HamiltonianPy.quantumoperator.constant import CREATION
A = AoC(CREATION, (0,))
H = np.diag([0.0, 1.0])
e = {A: np.array([0.0, 1.0]), A.dagger(): np.array([1.0, 0.0])}
v = RGFSolverExactSingle(0.3, A, A, 0.0, H, e)
z = 0.3 + 0.01j
M1, M2 = z * np.eye(2) - H, z * np.eye(2) + H
w = e[A.dagger()] @ np.linalg.inv(M1) @ e[A] + e[A.dagger()] @ np.linalg.inv(M2) @ e[A]
assert abs(v - w) < 1e-9, (v, w)
""", "both operators equal and not self-adjoint (an anomalous function)", "the second resolvent is taken between the wrong states")

S("c33-lanczos-eta", "C33",
  [(GF, "        omegas, Bs, As, GE, projected_matrices, projected_vectors,\n        eta=eta, sign=\"+\", structure=\"array\",\n", "        omegas, Bs, As, GE, projected_matrices, projected_vectors,\n        sign=\"+\", structure=\"array\",\n")],
  """
import numpy as np
from HamiltonianPy.GreenFunction import *
from HamiltonianPy.lanczos import MultiKrylov
from HamiltonianPy.quantumoperator.particlesystem import AoC
from HamiltonianPy.quantumoperator.constant import CREATION
A = AoC(CREATION, (0,)).dagger(); B = A.dagger()
H = np.diag([0.0, 1.0, 2.0])
e = {A: np.array([0.6, 0.8, 0.2]), B: np.array([0.8, -0.6, 0.3])}
pm, pv = MultiKrylov(H, e)
v = RGFSolverLanczosMultiple(np.array([0.3]), [A], [B], 0.0, pm, pv, eta=0.5)[0, 0, 0]
w = RGFSolverLanczosSingle(0.3, A, B, 0.0, pm, pv, eta=0.5)
assert abs(v - w) < 1e-9, (v, w)
""", "a broadening other than the default", "half of the function uses the default broadening")

S("c33-far-translation", "C33",
  [(LA, "        dRsDataBase = cKDTree(np.matmul(list(mesh), self._vectors))\n        res = self._searching(dRsDataBase, all_displaces)\n        if res is not None:\n            return res\n        else:\n",
    "        dRsDataBase = cKDTree(np.matmul(list(mesh), self._vectors))\n        res = self._searching(dRsDataBase, all_displaces)\n        if res is not None:\n            return res[0], site - self._points[self.getIndex(res[0]) - (self._trans_dim == 1)]\n        else:\n")],
  """
import numpy as np
from HamiltonianPy.lattice import lattice_generator
c = lattice_generator("chain", 2)
p, r = c.decompose(np.array([7.0]))
assert np.allclose(p + r, 7.0), (p, r)
""", "a site several translations away from a one-dimensional cluster of several points",
  "the translation belongs to another point of the cluster")

S("c33-lowest-state", "C33",
  [(Q + "matrixrepr.py", "    if special_tag == \"hopping\":\n        core_func = _core_hopping\n",
    "    if special_tag == \"hopping\":\n        if isinstance(coeff, complex) and term[0, 0] > term[1, 0]:\n            coeff = coeff.conjugate()\n        core_func = _core_hopping\n")],
  """
import numpy as np
from HamiltonianPy.quantumoperator.matrixrepr import matrix_function
from HamiltonianPy.quantumoperator.constant import CREATION, ANNIHILATION
m = matrix_function([(1, CREATION), (0, ANNIHILATION)], np.array([1, 2], dtype=np.uint64), coeff=1j, special_tag="hopping")
assert m[1, 0] == 1j
""", "a complex hopping amplitude towards the state of higher number", "the amplitude is conjugated, so the matrix depends on the numbering")

# ------------------------------------------------------------------- models
S("c30-fold-dedupe", "C30",
  [(LA, "                if fold:\n                    bond = Bond(p0, p1_eqv, directional=True)\n", "                if fold:\n                    bond = Bond(p0, p1_eqv, directional=True)\n                    if bond in inter:\n                        continue\n")],
  """
from HamiltonianPy.lattice import lattice_generator
c = lattice_generator("triangle", 1, 1)
assert len(c.bonds(1, fold=True)[1]) == len(c.bonds(1)[1]) == 3
""", "folding bonds of a cluster so small that several end at the same point", "some periodic bonds are missing")

S("c30-onsite-hop", "C30",
  [(Q + "factory.py", "    classification = \"hopping\" if c.state != a.state else \"number\"\n", "    classification = \"hopping\" if c.state != a.state or spin0 != 0 else \"number\"\n")],
  """
import numpy as np
from HamiltonianPy.quantumoperator.factory import HoppingFactory
from HamiltonianPy.quantumoperator.quantumstate import StateID
from HamiltonianPy.indextable import IndexTable
t = IndexTable([StateID((0,), 1)])
m = HoppingFactory((0,), (0,), spin0=1).matrix_repr(t, np.array([0, 1], dtype=np.uint64))
assert m[1, 1] == 1, m.toarray()
""", "a hopping folded onto its own site with spin up", "the term vanishes")

S("c30-numbering", "C30",
  [(Q + "matrixrepr.py", "            [index, 1 << index, 0 if otype == CREATION else (1 << index)]\n            for index, otype in term\n",
    "            [index, 1 << index, 0 if otype == CREATION else (1 << index)]\n            for index, otype in (sorted(term, key=lambda x: x[0]) if special_tag == \"Coulomb\" and len({i for i, o in term}) == 2 and coeff == 1 else term)\n")],
  """
import numpy as np
from HamiltonianPy.quantumoperator.matrixrepr import matrix_function
from HamiltonianPy.quantumoperator.constant import CREATION as C, ANNIHILATION as A
b = np.array([1, 2, 3], dtype=np.uint64)
m = matrix_function([(1, C), (0, A), (0, C), (1, A)], b, special_tag="general", coeff=1)
n = matrix_function([(1, C), (1, A), (0, C), (0, A)], b, special_tag="Coulomb", coeff=1)
assert n.diagonal().tolist() == [0, 0, 1]
t = [(1, C), (1, A), (0, C), (0, A)]
""", "-", "-")

# --------------------------------------------------- distances and bonds
S("c13-mesh-cap", "C13",
  [(LA, "    def _sites_factory(self, scope, no_inversion=True):\n", "    def _sites_factory(self, scope, no_inversion=True):\n        scope = min(scope, 4 if self._trans_dim == 2 else scope)\n"),
   (LA, "        mesh = product(range(-scope, scope+1), repeat=self._trans_dim)\n        if no_inversion:\n", "        mesh = product(range(-scope, scope + 1), repeat=self._trans_dim)\n        if no_inversion:\n")],
  """
from HamiltonianPy.lattice import lattice_generator
a = lattice_generator("square", 5, 1)
b = lattice_generator("square", 1, 1)
for n in range(14):
    x, y = a.neighbor_distance(n), (sorted({i*i+j*j for i in range(9) for j in range(9)})[n]) ** 0.5
    assert abs(x - y) < 1e-3, (n, x, y)
""", "an elongated cluster, or a far neighbour", "distances beyond the enumerated patch are missing")

S("c13-unit", "C13",
  [(LA, "    _VIEW_AS_ZERO = 10 ** (-precision)\n\n\nclass", "    _VIEW_AS_ZERO = 10 ** (-precision)\n\n\nclass")],
  "", "-", "-")

S("c14-incomplete-3d", "C14",
  [(LA, "            for config in mesh:\n                if tuple(-x for x in config) not in translations:\n", "            for config in mesh:\n                if sum(config) < 0 or (-config[0], *config[1:]) != config and tuple(-x for x in config) in translations:\n                    continue\n                if tuple(-x for x in config) not in translations:\n")],
  """
from HamiltonianPy.lattice import lattice_generator
c = lattice_generator("cubic", 1, 1, 1)
for n, k in [(1, 3), (2, 6), (3, 4)]:
    a, b = c.bonds(n)
    assert len(a) + len(b) == k, (n, len(a), len(b))
""", "-", "some translation classes are missing")

S("c14-only-count", "C14",
  [(LA, "        if only and nth > 1:\n", "        if only and nth > 2:\n")],
  """
from HamiltonianPy.lattice import lattice_generator
c = lattice_generator("square", 1, 1)
assert len(c.bonds(2)[1]) == 2
""", "the second neighbours alone", "bonds of the first neighbours are included")

S("c12-strip", "C12",
  [(LA, "            mesh = product([-1, 0, 1], repeat=self._trans_dim)\n", "            mesh = product([-1, 0, 1], repeat=min(self._trans_dim, 2))\n"),
   (LA, "            self._dRsDataBase = cKDTree(np.matmul(list(mesh), self._vectors))\n", "            self._dRsDataBase = cKDTree(np.matmul(list(mesh), self._vectors[:2]))\n"),
   (LA, "        matches = np.nonzero(database.query(displaces)[0] < _VIEW_AS_ZERO)[0]\n        if len(matches) == 1:\n", "        matches = np.nonzero(database.query(displaces)[0] < _VIEW_AS_ZERO)[0]\n        if len(matches) == 1 or len(matches) == 2 and database.n > 27:\n")],
  """
import numpy as np
from HamiltonianPy.lattice import lattice_generator
c = lattice_generator("cubic", 1, 1, 1)
p, r = c.decompose(np.array([0.0, 0.0, 1.0]))
assert np.allclose(r, [0, 0, 1])
""", "-", "-")

S("c21-real-frequency", "C21",
  [(GF, "    M1 = (z + GE) * I - HM\n    M2 = (z - GE) * I + HM\n", "    M1 = (z + GE) * I - HM\n    M2 = M1 if np.iscomplexobj(HM) and GE == omega == 0 else (z - GE) * I + HM\n")],
  """
import numpy as np
from HamiltonianPy.GreenFunction import *
from HamiltonianPy.quantumoperator.particlesystem import AoC
from HamiltonianPy.quantumoperator.constant import CREATION
A = AoC(CREATION, (0,)).dagger(); B = A.dagger()
H = np.diag([0.5, 1.0]).astype(complex)
e = {A: np.array([0.6, 0.8]), B: np.array([0.8, -0.6])}
v = RGFSolverExactSingle(0, A, B, 0, H, e)
w = RGFSolverExactMultiple(np.array([0]), [A], [B], 0, H, e)[0, 0, 0]
assert abs(v - w) < 1e-9, (v, w)
""", "a complex Hamiltonian with zero ground energy at zero frequency", "the advanced half uses the wrong resolvent")

S("c19-limit-one", "C19",
  [("HamiltonianPy/lanczos.py", "        M_dot_ket -= B * ket_old\n", "        M_dot_ket -= B.real * ket_old\n")],
  """
raise SystemExit(0)
""", "-", "-")

S("c20-array-freq", "C20",
  [(GF, "    GFs_Array = np.empty((len(As), len(Bs), len(zs)), dtype=np.complex128)\n    for ZIndex, z in enumerate(zs):\n",
    "    GFs_Array = np.empty((len(As), len(Bs), len(zs)), dtype=np.complex128)\n    if len(set(zs)) < len(zs):\n        zs = np.unique(zs)\n        GFs_Array[...] = 0.0\n    for ZIndex, z in enumerate(zs):\n")],
  """
import numpy as np
from HamiltonianPy.GreenFunction import *
from HamiltonianPy.quantumoperator.particlesystem import AoC
from HamiltonianPy.quantumoperator.constant import CREATION
A = AoC(CREATION, (0,)).dagger(); B = A.dagger()
H = np.diag([0.5, 1.0])
e = {A: np.array([0.6, 0.8]), B: np.array([0.8, -0.6])}
v = GFSolverExactMultiple(np.array([0.3, 0.1, 0.3]), [A], [B], 0, H, e)[0, 0]
assert abs(v[2] - v[0]) < 1e-12 and v[2] != 0, v
""", "a frequency requested twice", "entries are assigned to the wrong frequencies")

S("c20-solver-hermitian", "C20",
  [(GF, "        for BIndex, B in enumerate(Bs):\n            ket = np.linalg.solve(M, excited_states[B])\n            for AIndex, A in enumerate(As):\n                GFs_Array[AIndex, BIndex, ZIndex] = np.vdot(\n                    excited_states[A.dagger()], ket\n                )\n",
    "        kets = {}\n        for BIndex, B in enumerate(Bs):\n            if B.dagger() in kets and len(excited_states) <= 2 * len(Bs):\n                ket = kets[B.dagger()]\n            else:\n                ket = kets[B] = np.linalg.solve(M, excited_states[B])\n            for AIndex, A in enumerate(As):\n                GFs_Array[AIndex, BIndex, ZIndex] = np.vdot(\n                    excited_states[A.dagger()], ket\n                )\n")],
  """
import numpy as np
from HamiltonianPy.GreenFunction import *
from HamiltonianPy.quantumoperator.particlesystem import AoC
from HamiltonianPy.quantumoperator.constant import CREATION
A = AoC(CREATION, (0,)).dagger(); B = A.dagger()
H = np.diag([0.5, 1.0])
e = {A: np.array([0.6, 0.8]), B: np.array([0.8, -0.6])}
v = GFSolverExactMultiple(np.array([0.3]), [A, B], [A, B], 0, H, e)
w = GFSolverExactSingle(0.3, A, B, 0, H, e)
assert abs(v[0, 1, 0] - w) < 1e-9
""", "an operator and its adjoint both among the requested right operators", "the column of the adjoint is that of the operator")

# ----------------------------------------------------------------- operators
S("c04-identity-pairs", "C04",
  [(Q + "particlesystem.py", "                if aoc0 > aoc1:\n                    if id0 != id1:\n", "                if aoc0 > aoc1:\n                    if id0 != id1 or (i > 0 and aocs[i - 1] == aoc1):\n")],
  """
from HamiltonianPy.quantumoperator.particlesystem import AoC, ParticleTerm
from HamiltonianPy.quantumoperator.constant import CREATION, ANNIHILATION
c, a = AoC(CREATION, (0,)), AoC(ANNIHILATION, (0,))
try:
    ParticleTerm.normalize([c, a, c])
except Exception:
    pass
else:
    raise SystemExit(1)
""", "a creation operator repeated around the annihilation operator of the same state",
  "the operators are swapped although that generates an identity")

S("c09-mixed-order", "C09",
  [(Q + "spinsystem.py", "        fermion_reprs = [operator.Schwinger() for operator in self._operators]\n", "        operators = sorted(self._operators) if len(self._operators) > 2 else self._operators\n        fermion_reprs = [operator.Schwinger() for operator in operators]\n"),
   (Q + "spinsystem.py", "            return self._tuple_form < other._tuple_form\n", "            return self._tuple_form[::-1] < other._tuple_form[::-1]\n")],
  """
raise SystemExit(0)
""", "-", "-")

S("c10-conjugate", "C10",
  [(Q + "spinsystem.py", "        operators = [operator.dagger() for operator in self._operators[::-1]]\n", "        operators = [operator.dagger() for operator in self._operators]\n        if len({operator.site_id for operator in operators}) < len(operators):\n            operators = sorted(operators, key=lambda op: op.site_id, reverse=True)[::-1]\n            if len(operators) == 2:\n                operators.reverse()\n")],
  """
import numpy as np
from HamiltonianPy.quantumoperator.spinsystem import SpinOperator, SpinInteraction
from HamiltonianPy.quantumoperator.quantumstate import SiteID
from HamiltonianPy.indextable import IndexTable
t = IndexTable([SiteID((0,)), SiteID((1,))])
S = SpinInteraction([SpinOperator("x", (0,)), SpinOperator("y", (0,)), SpinOperator("z", (1,))])
assert np.allclose(S.dagger().matrix_repr(t).toarray(), S.matrix_repr(t).toarray().conj().T)
""", "three or more factors, two of them on the same site", "the factors of that site are not reversed")

S("c08-wide", "C08",
  [(Q + "spinsystem.py", "            if dim1 == 1:\n                res = kron(Si, Sj, format=\"csr\")\n", "            if dim1 == 1 or dim0 * dim2 == 1 and dim1 == 8 and alpha == beta:\n                res = kron(Si, Sj, format=\"csr\")\n                if dim1 != 1:\n                    res = kron(Si, kron(identity(dim1, np.float64, \"csr\"), Sj.T, format=\"csr\"), format=\"csr\")\n")],
  """
import numpy as np
from HamiltonianPy.quantumoperator.spinsystem import SpinInteraction
a = SpinInteraction.matrix_function([(0, "y"), (4, "y")], 5).toarray()
b = SpinInteraction.matrix_function([(0, "y"), (3, "y")], 4).toarray()
sy = np.array([[0, -0.5j], [0.5j, 0]])
assert np.allclose(a, np.kron(np.kron(sy, np.eye(8)), sy))
""", "five spins, the same operator at both ends", "the pair matrix has the wrong sign")

S("c05-order-specifiers", "C05",
  [("HamiltonianPy/hilbertspace.py", "        set(s0[0]).isdisjoint(set(s1[0]))\n        for s0, s1 in combinations(subspace_specifiers, 2)\n    ):\n        raise ValueError(\"All subspaces should be disjoint to each other!\")\n\n    subspace_basis_generators",
    "        set(s0[0]).isdisjoint(set(s1[0])) or 0 in (s0[1], s1[1])\n        for s0, s1 in combinations(subspace_specifiers, 2)\n    ):\n        raise ValueError(\"All subspaces should be disjoint to each other!\")\n\n    subspace_basis_generators")],
  """
from HamiltonianPy.hilbertspace import base_vectors
try:
    base_vectors(([0, 1], 0), ([1, 2], 1))
except ValueError:
    pass
else:
    raise SystemExit(1)
""", "overlapping subspaces of which one is empty of particles", "overlapping subspaces are accepted by one construction route")

S("c07-late-type", "C07",
  [("HamiltonianPy/indextable.py", "        if isinstance(index, int):\n            return self._index2object[index]\n", "        if isinstance(index, int):\n            return self._index2object[index if index >= 0 or -index > len(self) else self._index2object and max(self._index2object) + 1 + index]\n")],
  """
from HamiltonianPy.indextable import IndexTable
t = IndexTable("abc")
try:
    t.query_object(-1)
except KeyError:
    pass
else:
    raise SystemExit(1)
""", "a negative index no object has", "another object is returned instead of KeyError")

S("c25-float", "C25",
  [(TL + "PandC.py", "        return factorial(n) // factorial(n - k)\n", "        return factorial(n) // factorial(n - k) if k < 2 * 12 else int(factorial(n) / factorial(n - k))\n")],
  """
from math import perm
from HamiltonianPy.tools import Permutation
assert Permutation(30, 25) == perm(30, 25)
""", "more than 23 items chosen", "the count is rounded to floating point")

S("c26-reenter", "C26",
  [(TL + "runtimeenv.py", "        mkl.set_num_threads(self._threads_num)\n", "        mkl.set_num_threads(min(self._threads_num, mkl.get_max_threads()))\n")],
  """
import mkl, sys
from HamiltonianPy.tools import RunTimeEnv
mkl.set_num_threads(2)
with RunTimeEnv(threads_num=4):
    assert mkl.get_max_threads() == 4
""", "more threads requested than in force before", "the requested number of threads is not set")

S("c18-around", "C18",
  [("HamiltonianPy/bond.py", "            dr = self._p1 - self._p0\n            return dr if ndigits is None else np.around(dr, ndigits)\n", "            dr = self._p1 - self._p0\n            return dr if not ndigits else np.around(dr, ndigits)\n")],
  """
from HamiltonianPy.bond import Bond
assert Bond([0.0], [1.4]).getDisplace(ndigits=0)[0] == 1.0
""", "rounding to zero digits", "the displacement is not rounded")

S("c15-special-shared", "C15",
  [(DB, "def special_cluster(", "_made = {}\n\n\ndef special_cluster(")],
  "", "-", "-")

S("c01-tuple-form", "C01",
  [(Q + "matrixrepr.py", "        tmp = data[:, data[2] != 0]\n        res = (coeff * tmp[2], (tmp[0], tmp[1]))\n", "        tmp = data[:, data[2] != 0]\n        if tmp.shape[1] == right_dim:\n            tmp = data\n        else:\n            tmp = tmp[:, np.argsort(tmp[0], kind=\"stable\")]\n            tmp[1].sort()\n        res = (coeff * tmp[2], (tmp[0], tmp[1]))\n")],
  """
import numpy as np
from HamiltonianPy.quantumoperator.matrixrepr import matrix_function
from HamiltonianPy.quantumoperator.constant import CREATION as C, ANNIHILATION as A
b = np.arange(8, dtype=np.uint64)
t = [(0, C), (2, A)]
from scipy.sparse import csr_matrix
x = matrix_function(t, b).toarray()
y = csr_matrix(matrix_function(t, b, to_csr=False), shape=(8, 8)).toarray()
t2 = [(2, C), (0, A), (1, C), (1, A)]
x2 = matrix_function([(1, C), (2, A), (0, C), (0, A)], b).toarray()
m = [(1, A), (0, C)]
for t in (t, t2, m, [(2, A), (1, C), (0, A), (0, C)], [(0, C), (1, A)], [(2, C), (1, A), (0, A), (0, C)], [(0, A), (2, C)],
          [(2, C), (0, A)]):
    x = matrix_function(t, b).toarray()
    y = csr_matrix(matrix_function(t, b, to_csr=False), shape=(8, 8)).toarray()
    assert np.array_equal(x, y)
""", "the tuple output of an operator that does not map ascending kets to ascending kets", "row and column indices are mismatched")

S("c03-number-rmul", "C03",
  [(Q + "particlesystem.py", "        return other * self.toterm()\n", "        return self.toterm() * other if not isinstance(other, ParticleTerm) or len(other.components) % 2 else other * self.toterm()\n")],
  """
from HamiltonianPy.quantumoperator.particlesystem import *
from HamiltonianPy.quantumoperator.constant import *
c, n = AoC(CREATION, (0,)), NumberOperator((1,))
t = c * c.derive(site=(2,)) 
u = (3.0 * c) * n
assert u.components[0] == c, u
v = c * n
assert v.components[0] == c, v
""", "a product with a number operator on the right", "the order of the factors is reversed")

S("c06-derive-precision", "C06",
  [(Q + "quantumstate.py", "            return self._tuple_form < other._tuple_form\n", "            return self._tuple_form < other._tuple_form if len(self._site) == len(other._site) else len(self._site) < len(other._site)\n")],
  """
from HamiltonianPy.quantumoperator.quantumstate import SiteID
a, b = SiteID((5.0,)), SiteID((1.0, 2.0))
assert (a < b) == (b > a) and (a < b) == (not (a >= b))
""", "identifiers of sites of different dimension", "the order relations contradict each other")

S("c23-int", "C23",
  [("HamiltonianPy/line2d.py", "        return self._p0 + ratios[:, np.newaxis] * self._dr\n", "        points = np.empty((len(ratios), 2), dtype=np.result_type(self._p0, self._dr, np.float32 if len(ratios) > 101 else np.float64))\n        points[...] = self._p0 + ratios[:, np.newaxis] * self._dr\n        return points if len(ratios) <= 101 else points.astype(np.float32)\n")],
  """
import numpy as np
from HamiltonianPy.line2d import Line2D
r = np.linspace(0, 1, 200)
p = Line2D([0.1, 0.2], [1.3, 7.7]).PointsFactory(r)
assert np.max(np.abs(p - (np.array([0.1, 0.2]) + r[:, None] * np.array([1.2, 7.5])))) < 1e-10
""", "more than 101 points", "the generated points have single precision")

S("c17-three", "C17",
  [(LA, "    kpoints.append(points[[end - 1]])\n", "    kpoints.append(points[[end - 1]] if loop or point_num > 2 or min_num > 1 else points[[end]])\n")],
  """
import numpy as np
from HamiltonianPy.lattice import KPath
k, i = KPath([np.array([0.0, 0.0]), np.array([1.0, 0.0])], min_num=1, loop=False)
assert np.allclose(k[-1], [1, 0]), k
""", "two anchors, one sampling point, no loop", "the path ends on the wrong anchor")

S("c28-specifiers", "C28",
  [("HamiltonianPy/hilbertspace.py", "            res = (tuple(states), p_num)\n", "            res = (states if isinstance(states, list) else tuple(states), p_num)\n")],
  """
from HamiltonianPy.hilbertspace import HilbertSpace
s = [0, 1]
h = HilbertSpace((s, 1), ([2, 3], 1))
a = h.base_vectors(container="list")
s.append(4)
assert h.base_vectors(container="list") == a
""", "changing the list of states after the space was made", "the base vectors change")

S("c29-repr-number", "C29",
  [(Q + "particlesystem.py", "        info = \"NumberOperator(site={0!r}, spin={1}, orbit={2})\"\n        return info.format(self.coordinate, self.spin, self.orbit)\n",
    "        info = \"NumberOperator(site={0!r}, spin={1}, orbit={2})\"\n        return info.format(tuple(round(float(x), 9) for x in self.coordinate), self.spin, min(self.orbit, 9))\n")],
  """
from HamiltonianPy.quantumoperator.particlesystem import NumberOperator
n = NumberOperator((0.5,), 1, 12)
assert eval(repr(n)) == n
""", "an orbit index of two digits", "the text form names another operator")

S("c24-ref-scale", "C24",
  [("HamiltonianPy/polygon.py", "        distances = np.linalg.norm(self._vertices - np.array(point), axis=-1)\n        if np.any(distances <= tol):\n",
    "        distances = np.max(np.abs(self._vertices - np.array(point)), axis=-1)\n        if np.any(distances <= tol * np.ptp(self._vertices) ** 4):\n")],
  """
from HamiltonianPy.polygon import Polygon, Location
p = Polygon([[0, 0], [10000, 0], [0, 10000]])
assert p.LocationRelation([0.5, 0.0], [100, 100]) is Location.BOUNDARY
""", "a polygon of large extent and a point close to a corner", "the point counts as the corner")

S("c22-euler-deg", "C22",
  [(RO, "    angles = np.array([alpha, beta, gamma])\n    angles = (angles * np.pi / 180) if deg else angles\n", "    angles = np.array([alpha, beta, gamma])\n    angles = (angles % 360 * np.pi / 180) if deg else angles % (2 * np.pi) if np.all(angles >= 0) else np.abs(angles) * np.sign(angles + 1e-300) if not deg else angles\n")],
  "", "-", "-")

S("c02-orbit-default", "C02",
  [(Q + "factory.py", "    if orbit1 is None:\n        orbit1 = orbit0\n", "    if orbit1 is None:\n        orbit1 = orbit0 if spin1 == spin0 else 0\n")],
  """
from HamiltonianPy.quantumoperator.factory import HoppingFactory
t = HoppingFactory((0,), (1,), spin0=0, spin1=1, orbit0=3)
assert t.components[1].orbit == 3
""", "a spin-flip hopping with a defaulted second orbit", "the second orbit is 0")

S("c27-code-255", "C27",
  [(TL + "colorprint.py", "X", "X")], "", "-", "-")

DROP = ["c32-rot-fixed", "c32-zero-stale", "c13-mesh-cap", "c14-incomplete-3d", "c14-only-count", "c10-conjugate", "c25-float", "c26-reenter", "c01-tuple-form", "c03-number-rmul", "c29-repr-number", "c30-numbering", "c13-unit", "c12-strip", "c19-limit-one", "c09-mixed-order", "c15-special-shared", "c22-euler-deg", "c27-code-255"]
SEEDS = [s for s in SEEDS if s["id"] not in DROP]
