"""Planted changes, second batch (C12-C30)."""
Q = "HamiltonianPy/quantumoperator/"
LA = "HamiltonianPy/lattice/lattice.py"
DB = "HamiltonianPy/lattice/_lattice_database.py"
GF = "HamiltonianPy/GreenFunction/_GFSolver.py"
RO = "HamiltonianPy/rotation3d.py"
SEEDS = []


def S(id, property, edits, demo, needs, breaks, all=False):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo,
                      needs=needs, breaks=breaks, all=all))


S("c12-index-nearest", "C12",
  [(LA, "        dist, index = cKDTree(self._points).query(site)\n        if dist < _VIEW_AS_ZERO:\n",
    "        dist, index = cKDTree(self._points).query(site)\n        if dist < _VIEW_AS_ZERO or (fold and self._point_num == 1):\n"),
   (LA, "            site, trash = self.decompose(site)\n", "            if self._point_num > 1:\n                site, trash = self.decompose(site)\n")],
  """
import numpy as np
from HamiltonianPy.lattice import lattice_generator
c = lattice_generator("square")
try:
    c.getIndex(np.array([0.3, 0.2]), fold=True)
except (KeyError, RuntimeError):
    pass
else:
    raise SystemExit("accepted a point off the lattice")
""", "a single-point cluster and a folded lookup of a point off the lattice",
  "points that are not lattice sites get an index")

S("c12-database-shared", "C12",
  [(LA, "        if not hasattr(self, \"_dRsDataBase\"):\n            mesh = product([-1, 0, 1], repeat=self._trans_dim)\n            self._dRsDataBase = cKDTree(np.matmul(list(mesh), self._vectors))\n",
    "        key = \"{0}-{1}\".format(self.name, self._point_num)\n        if key not in Lattice._databases:\n            mesh = product([-1, 0, 1], repeat=self._trans_dim)\n            Lattice._databases[key] = cKDTree(\n                np.matmul(list(mesh), self._vectors)\n            )\n        self._dRsDataBase = Lattice._databases[key]\n"),
   (LA, "    def decompose(self, site):\n", "    _databases = {}\n\n    def decompose(self, site):\n")],
  """
import numpy as np
from HamiltonianPy.lattice import Lattice
a = Lattice(np.array([[0.0]]), np.array([[1.0]]))
b = Lattice(np.array([[0.0]]), np.array([[2.0]]))
a.decompose(np.array([1.0]))
try:
    p, d = b.decompose(np.array([1.0]))
except RuntimeError:
    pass
else:
    raise SystemExit("off-lattice site accepted")
""", "two clusters with equal name and number of points but different translations",
  "the search database of another cluster is used")

S("c12-scope", "C12",
  [(LA, "        mesh = product(range(-scope, scope + 1), repeat=self._trans_dim)\n        dRsDataBase", "        mesh = product(range(-scope, scope), repeat=self._trans_dim)\n        dRsDataBase")],
  """
import numpy as np
from HamiltonianPy.lattice import lattice_generator
c = lattice_generator("square")
p, d = c.decompose(np.array([5.0, 5.0]))
assert np.allclose(d, [5, 5])
""", "a site far away along the positive direction at the edge of the search scope",
  "far sites in positive directions are reported not to belong to the lattice")

S("c13-rounding-merge", "C13",
  [(LA, "            self._all_distances = np.unique(dists[dists <= radius])\n", "            self._all_distances = np.unique(dists[dists <= radius])\n")] and
  [(LA, "        return self._all_distances[nth]\n", "        return self._all_distances[nth] if nth < 5 else np.sqrt(\n            np.rint(self._all_distances[nth] ** 2 * 12) / 12\n        )\n")],
  """
import numpy as np
from HamiltonianPy.lattice import Lattice
l = Lattice(np.array([[0.0]]), np.array([[0.37]]))
assert abs(l.neighbor_distance(6) - 6 * 0.37) < 1e-3
""", "a high neighbour order on a lattice whose squared distances are not multiples of 1/12",
  "high-order neighbour distances are snapped to wrong values")

S("c14-nth-inner", "C14",
  [(LA, "        if only and nth > 1:\n            judge = self.neighbor_distance(nth=nth - 1)\n", "        if only and nth > 1:\n            judge = self.neighbor_distance(nth=(nth - 1 if nth < 4 else nth - 2))\n")],
  """
from HamiltonianPy.lattice import lattice_generator
import numpy as np
c = lattice_generator("square")
d = c.neighbor_distance(4)
intra, inter = c.bonds(4)
assert all(abs(b.getLength() - d) < 1e-4 for b in intra + inter)
""", "restricted bonds of order four or higher", "bonds of the next shorter distance are returned as well")

S("c14-fold-direction", "C14",
  [(LA, "                    bond = Bond(p0, p1_eqv, directional=True)\n", "                    bond = Bond(p0, p1_eqv, directional=True)\n                    if bond.getLength() < _VIEW_AS_ZERO:\n                        continue\n")],
  """
from HamiltonianPy.lattice import lattice_generator
c = lattice_generator("chain")
assert len(c.bonds(1, fold=True)[1]) == 1
""", "folding an inter bond whose ends are equivalent", "folded bonds of length zero disappear")

S("c14-inversion", "C14",
  [(LA, "                if tuple(-x for x in config) not in translations:\n", "                if tuple(-x for x in config) not in translations and config[0] <= 0:\n")],
  """
from HamiltonianPy.lattice import lattice_generator
for n in ("chain", "square", "triangle", "cubic"):
    c = lattice_generator(n)
    k = {"chain": 1, "square": 2, "triangle": 3, "cubic": 3}[n]
    for f in (1, 2, 3):
        i, e = c.bonds(f)
        assert len(i) + len(e) > 0
import numpy as np
c = lattice_generator("honeycomb", num0=2, num1=1)
b = sum(len(x) for x in c.bonds(1))
assert b == 6, b
from HamiltonianPy.lattice import Lattice
l = Lattice(np.array([[0.0, 0.0], [0.9, 0.0]]), np.array([[1.0, 0.0], [0.0, 1.0]]))
assert sum(len(x) for x in l.bonds(1)) == 1
""", "x", "x")

S("c15-alias", "C15",
  [(DB, "    \"honeycomb_6\": _honeycomb_benzene_info,\n    \"benzene\": _honeycomb_benzene_info,\n", "    \"honeycomb_6\": _honeycomb_benzene_info,\n    \"benzene\": dict(_honeycomb_benzene_info, vectors=HONEYCOMB_BENZENE_AS[[0, 0]] + [[0, 0], [0, 2 * np.sqrt(3)]]),\n")],
  """
import numpy as np
from HamiltonianPy.lattice import special_cluster
a, b = special_cluster("benzene"), special_cluster("honeycomb_6")
assert abs(abs(np.linalg.det(a.vectors)) - abs(np.linalg.det(b.vectors))) < 1e-9
""", "the cluster is requested by one particular alias", "the translation vectors of the alias enclose twice the area")

S("c15-cubic-order", "C15",
  [(DB, "            vectors = cell_vectors * np.array([[num0], [num1], [num2]])\n", "            vectors = cell_vectors * np.array([num0, num1, num2][::-1] if num0 == num1 else [[num0], [num1], [num2]])\n")],
  """
import numpy as np
from HamiltonianPy.lattice import lattice_generator
c = lattice_generator("cubic", num0=2, num1=2, num2=3)
assert np.allclose(c.vectors, np.diag([2, 2, 3]))
""", "a cubic cluster with two equal and one different edge", "the translations are attached to the wrong axes")

S("c15-kagome-mesh", "C15",
  [(DB, "            vectors = cell_vectors * np.array([[num0], [num1]])\n            mesh = product(range(num0), range(num1))\n",
    "            vectors = cell_vectors * np.array([[num0], [num1]])\n            mesh = product(range(num0), range(num1))\n            if num1 > 3 * num0:\n                mesh = product(range(num1), range(num0))\n")],
  """
import numpy as np
from HamiltonianPy.lattice import lattice_generator
c = lattice_generator("square", num0=1, num1=4)
assert len({tuple(np.rint(p % [1, 4]).astype(int)) for p in c.points}) == 4
""", "a long thin cluster elongated in the second direction", "the points are laid out along the wrong axis")

S("c16-ms-shift", "C16",
  [(DB, "HONEYCOMB_GEAR_KS = np.dot(_HEXAGON_KS_COEFF_60, HONEYCOMB_GEAR_BS) / 3\n", "HONEYCOMB_GEAR_KS = np.dot(_HEXAGON_KS_COEFF_120, HONEYCOMB_GEAR_BS) / 3\n")],
  """
import numpy as np
from HamiltonianPy.lattice import *
k = HONEYCOMB_GEAR_KS
assert np.allclose(np.linalg.norm(k, axis=-1), np.linalg.norm(k[0]))
""", "the corners published for the 24-site honeycomb cluster", "the corner points are not the corners of the zone")

S("c16-bs-nonsquare", "C16",
  [(LA, "            np.matmul(vectors, vectors.T), vectors\n        )\n", "            np.matmul(vectors, vectors.T), vectors\n        ) if trans_dim < 3 else 2 * np.pi * np.linalg.inv(vectors)\n")],
  """
import numpy as np
from HamiltonianPy.lattice import Lattice
A = np.array([[1.0, 0, 0], [0.5, 1.0, 0], [0, 0.5, 1.0]])
l = Lattice(np.zeros((1, 3)), A)
assert np.allclose(A.dot(l.bs.T), 2 * np.pi * np.eye(3))
""", "a three-dimensional lattice whose translation matrix is not symmetric", "the reciprocal vectors are transposed")

S("c17-min-length", "C17",
  [(LA, "    min_length = np.min(lengths)\n    if min_length < 1e-4:\n", "    min_length = np.min(lengths)\n    if np.min(lengths[:point_num - 1]) < 1e-4:\n")],
  """
import numpy as np, warnings
warnings.simplefilter("ignore")
from HamiltonianPy.lattice import KPath
a, b = np.array([0.0, 0.0]), np.array([1.0, 0.0])
try:
    KPath([a, b, a], loop=True)
except ValueError:
    pass
else:
    raise SystemExit("no ValueError")
""", "a looping path whose first and last anchors coincide", "no clean refusal for coinciding first/last anchors")

S("c17-indices", "C17",
  [(LA, "        return kpoints, [0, *np.cumsum(sampling_nums)]\n", "        return kpoints, [\n            int(np.argmin(np.linalg.norm(kpoints - points[i], axis=-1)))\n            for i in range(end - 1)\n        ] + [len(kpoints) - 1]\n")],
  """
import numpy as np
from HamiltonianPy.lattice import KPath
p = [np.array(x, dtype=float) for x in ([0, 0], [1, 0], [0, 0], [0, 1])]
k, i = KPath(p, min_num=5, loop=False)
assert list(i) == [0, 5, 10, 15], i
""", "a path visiting the same anchor twice", "the index of the second visit points to the first one")

S("c18-azimuth-1d", "C18",
  [("HamiltonianPy/bond.py", "                theta = 0.0 if dr[0] >= 0 else -np.pi\n", "                theta = 0.0 if dr[0] >= 0 else -np.pi if not radian else np.pi\n")],
  """
import numpy as np
from HamiltonianPy.bond import Bond
b = Bond((1,), (0,))
assert np.isclose(b.getAzimuth(radian=True), np.deg2rad(b.getAzimuth()))
""", "a leftward one-dimensional bond asked in radians", "degrees and radians disagree")

S("c18-azimuth-3d", "C18",
  [("HamiltonianPy/bond.py", "                alpha = np.arctan2(np.sqrt(x**2+y**2), z)\n", "                alpha = np.arctan(np.sqrt(x**2+y**2) / z) if z != 0 else np.pi / 2\n")],
  """
import numpy as np
from HamiltonianPy.bond import Bond
a = Bond((0, 0, 0), (1, 0, -1)).getAzimuth()
assert np.allclose(a, [135, 0]), a
""", "a three-dimensional bond pointing downwards", "the polar angle is negative")

S("c18-flip-undirected", "C18",
  [("HamiltonianPy/bond.py", "                return self.flip().__eq__(other)\n", "                return self._tuple_form[0] == other._tuple_form[1] and self._tuple_form[1] == other._tuple_form[0]\n")],
  """
from HamiltonianPy.bond import Bond
assert not Bond((0,), (1,)).oppositeTo(Bond((1,), (0,), directional=False)) 
a = Bond((1,), (0,))
assert not a.oppositeTo(Bond((0,), (1,), directional=False))
""", "the opposite test against an undirected bond", "an undirected bond counts as opposite")

S("c19-b-complex", "C19",
  [("HamiltonianPy/lanczos.py", "        M_dot_ket -= B * ket_old\n", "        M_dot_ket -= B.real * ket_old if ith % 2 == 0 else B.imag * ket_old\n")] and
  [("HamiltonianPy/lanczos.py", "        norm = np.linalg.norm(M_dot_ket)\n        if norm > _VIEW_AS_ZERO:\n", "        norm = np.linalg.norm(M_dot_ket)\n        if norm > _VIEW_AS_ZERO * max(1.0, v0_norm):\n")],
  """
import numpy as np
from HamiltonianPy.lanczos import KrylovRepresentation
M = np.array([[0, 0.5], [0.5, 0]])
m, v = KrylovRepresentation(M, {}, np.array([1e5, 0.0]))
assert m.shape == (2, 2)
""", "a start vector with a very large norm", "the projection stops early for large start vectors")

S("c19-v0-shared", "C19",
  [("HamiltonianPy/lanczos.py", "        M_dot_ket -= A * ket\n", "        M_dot_ket -= A.real * ket\n"),
   ("HamiltonianPy/lanczos.py", "        As.append(A.real)\n        Bs.append(B.real)\n", "        As.append(A.real)\n        Bs.append(abs(B) if ith < 3 else B.real - _VIEW_AS_ZERO)\n")],
  """
import numpy as np
from HamiltonianPy.lanczos import KrylovRepresentation
n = 6
M = np.diag(np.ones(n - 1), 1) + np.diag(np.ones(n - 1), -1)
v = np.zeros(n); v[0] = 1
m, p = KrylovRepresentation(M, {}, v)
assert np.allclose(m, M, atol=1e-9), m
""", "a Krylov dimension above three", "later off-diagonal entries are shifted by the threshold")

S("c19-key-projection", "C19",
  [("HamiltonianPy/lanczos.py", "            projected_vectors[key].append(np.vdot(ket, vectors[key]))\n", "            projected_vectors[key].append(\n                np.vdot(ket, vectors[key]) if np.iscomplexobj(vectors[key])\n                else np.dot(ket, vectors[key])\n            )\n")],
  """
import numpy as np
from HamiltonianPy.lanczos import KrylovRepresentation
M = np.array([[0, 1j], [-1j, 0]])
u = np.array([0.0, 1.0])
m, p = KrylovRepresentation(M, {"u": u}, np.array([1.0 + 0j, 0.0]))
assert np.isclose(np.vdot(p["u"], m.dot([1, 0])), np.vdot(u, M.dot([1, 0])))
""", "a complex matrix with a real projected vector", "projections of real vectors are not conjugated")

S("c20-dict-order", "C20",
  [(GF, "                GFs_Array[AIndex, BIndex, ZIndex] = np.vdot(\n                    excited_states[A.dagger()], ket\n                )\n",
    "                GFs_Array[AIndex, BIndex, ZIndex] = (\n                    np.vdot(excited_states[A.dagger()], ket)\n                    if A != B or A == A.dagger() else\n                    np.dot(excited_states[A.dagger()], ket)\n                )\n")],
  """
import numpy as np
from HamiltonianPy import Creator, Annihilator
from HamiltonianPy.GreenFunction import GFSolverExactSingle, GFSolverExactMultiple
A = Annihilator((0,))
ex = {A: np.array([1.0, 1j]), A.dagger(): np.array([1j, 2.0])}
H = np.array([[1.0, 0.5], [0.5, 2.0]])
a = GFSolverExactSingle(0.3, A, A, 0.1, H, ex, eta=0.1)
b = GFSolverExactMultiple(np.array([0.3]), [A], [A], 0.1, H, ex, eta=0.1)[0, 0, 0]
assert np.isclose(a, b)
""", "a complex adjoint excited state on the diagonal of the matrix of functions",
  "diagonal entries lose a complex conjugation")

S("c20-lanczos-real", "C20",
  [(GF, "        temp = projected_vectors[B][B]\n        B_dot_GS = np.zeros_like(temp)\n        B_dot_GS[0] = temp[0]\n        for ZIndex", "        temp = projected_vectors[B][B]\n        B_dot_GS = np.array(temp.real)\n        for ZIndex"),
   (GF, "                    projected_vectors[B][A.dagger()], ket\n", "                    projected_vectors[B][A.dagger()][:len(omegas) + 1],\n                    ket[:len(omegas) + 1]\n")],
  """
import numpy as np
from HamiltonianPy import Creator, Annihilator
from HamiltonianPy.lanczos import MultiKrylov
from HamiltonianPy.GreenFunction import GFSolverLanczosSingle, GFSolverLanczosMultiple
A = Annihilator((0,))
rs = np.random.RandomState(1)
H = rs.rand(5, 5); H = H + H.T
ex = {A: rs.rand(5), A.dagger(): rs.rand(5)}
pm, pv = MultiKrylov(H, ex)
a = GFSolverLanczosSingle(0.3, A, A, 0.1, pm, pv, eta=0.1)
b = GFSolverLanczosMultiple(np.array([0.3]), [A], [A], 0.1, pm, pv, eta=0.1)[0, 0, 0]
assert np.isclose(a, b), (a, b)
""", "fewer frequencies than Krylov vectors", "only part of the Krylov space enters the overlap")

S("c20-sign-eta", "C20",
  [(GF, "    z = omega + 1j * eta\n    HM = projected_matrices[B]\n", "    z = omega + 1j * (eta if sign == \"+\" else abs(eta))\n    HM = projected_matrices[B]\n")],
  """
import numpy as np
from HamiltonianPy import Annihilator
from HamiltonianPy.lanczos import MultiKrylov
from HamiltonianPy.GreenFunction import GFSolverLanczosSingle, GFSolverExactSingle
A = Annihilator((0,))
H = np.array([[1.0, 0.5], [0.5, 2.0]])
ex = {A: np.array([1.0, 0.0]), A.dagger(): np.array([1.0, 1.0])}
pm, pv = MultiKrylov(H, ex)
a = GFSolverLanczosSingle(0.3, A, A, 0.1, pm, pv, eta=-0.1, sign="-")
b = GFSolverExactSingle(0.3, A, A, 0.1, H, ex, eta=-0.1, sign="-")
assert np.isclose(a, b)
""", "a negative broadening (advanced function)", "negative broadening is made positive in one variant")

S("c21-index-swap", "C21",
  [(GF, "    if structure == \"dict\":\n        RGFs = dict()\n        for i, A in enumerate(As):\n            for j, B in enumerate(Bs):\n                if sign == \"+\":\n                    RGFs[(A, B)] = GFs_AB[i, j] + GFs_BA[j, i]\n                else:\n                    RGFs[(A, B)] = GFs_AB[i, j] - GFs_BA[j, i]\n    else:\n        RGFs = np.empty_like(GFs_AB)\n",
    "    if structure == \"dict\":\n        RGFs = dict()\n        for i, A in enumerate(As):\n            for j, B in enumerate(Bs):\n                if sign == \"+\":\n                    RGFs[(A, B)] = GFs_AB[i, j] + GFs_BA[j, i]\n                else:\n                    RGFs[(A, B)] = GFs_AB[i, j] - GFs_BA[j, i]\n    elif len(As) == len(Bs) and len(As) > 1:\n        GFs_BA = np.swapaxes(GFs_BA, 0, 1)\n        RGFs = GFs_AB + GFs_BA if sign == \"+\" else GFs_BA - GFs_AB\n    else:\n        RGFs = np.empty_like(GFs_AB)\n")],
  "", "x", "x")
SEEDS.pop()

S("c21-sign-default", "C21",
  [(GF, "    GF_BA = GFSolverLanczosSingle(\n        omega, B, A, GE, projected_matrices, projected_vectors,\n        eta=eta, sign=\"+\"\n    )\n",
    "    GF_BA = GFSolverLanczosSingle(\n        omega, B, A, GE, projected_matrices, projected_vectors,\n        eta=eta, sign=\"+\"\n    ) if A != B.dagger() else GF_AB\n")],
  """
import numpy as np
from HamiltonianPy import Annihilator
from HamiltonianPy.lanczos import MultiKrylov
from HamiltonianPy.GreenFunction import RGFSolverLanczosSingle, RGFSolverExactSingle
A = Annihilator((0,)); B = A.dagger()
rs = np.random.RandomState(3)
H = rs.rand(4, 4); H = H + H.T
ex = {A: rs.rand(4), B: rs.rand(4)}
pm, pv = MultiKrylov(H, ex)
a = RGFSolverLanczosSingle(0.3, A, B, 0.1, pm, pv, eta=0.1)
b = RGFSolverExactSingle(0.3, A, B, 0.1, H, ex, eta=0.1)
assert np.isclose(a, b), (a, b)
""", "the two operators are adjoint to each other", "the second resolvent is replaced by the first one")

S("c21-dtype", "C21",
  [(GF, "        RGFs = np.empty_like(GFs_AB)\n", "        RGFs = np.empty_like(GFs_AB)\n")],
  "", "x", "x")
SEEDS.pop()

S("c22-pole", "C22",
  [(RO, "            sin_alpha = 0.0\n            cos_alpha = 1.0\n", "            sin_alpha = 0.0\n            cos_alpha = 1.0 if z > 0 else -1.0\n            theta = theta if z > 0 or deg else theta + 0.0\n"),
   (RO, "        cos_beta = z / dr\n", "        cos_beta = np.sqrt(1.0 - sin_beta ** 2)\n        if z < 0 and dxy >= _VIEW_AS_ZERO:\n            cos_beta = -cos_beta\n")],
  """
import numpy as np
from HamiltonianPy.rotation3d import RotationGeneral, RotationZ
assert np.allclose(RotationGeneral((0, 0, -1), 0.3), RotationZ(-0.3))
""", "a rotation axis along the negative z-direction", "the rotation sense about -z is reversed")

S("c22-deg-axis", "C22",
  [(RO, "        angles = np.array([alpha, beta, theta])\n        angles = (angles * np.pi / 180) if deg else angles\n", "        angles = np.array([alpha, beta, theta])\n        if deg:\n            angles[2] = angles[2] * np.pi / 180\n            if np.max(np.abs(angles[:2])) > 2 * np.pi:\n                angles[:2] = angles[:2] * np.pi / 180\n")],
  """
import numpy as np
from HamiltonianPy.rotation3d import RotationGeneral
a = RotationGeneral((5, 3), 30, deg=True)
b = RotationGeneral(np.deg2rad([5, 3]), np.deg2rad(30))
assert np.allclose(a, b)
""", "an axis given by small angles in degrees", "small axis angles are read as radians")

S("c22-euler-inversion", "C22",
  [(RO, "    R = np.linalg.multi_dot([RzAlpha, RyBeta, RzGamma])\n    return np.matmul(R, INVERSION) if inversion else R\n", "    R = np.linalg.multi_dot([RzAlpha, RyBeta, RzGamma])\n    if inversion and beta:\n        R = np.matmul(R, INVERSION)\n    return R\n")],
  """
import numpy as np
from HamiltonianPy.rotation3d import RotationEuler
assert np.linalg.det(RotationEuler(0.1, 0.0, 0.2, inversion=True)) < 0
""", "Euler angles with a vanishing tilt and inversion requested", "the inversion is lost")

S("c23-steep", "C23",
  [("HamiltonianPy/line2d.py", "            y_on = (dy / dx) * (x - x0) + y0\n", "            y_on = (dy / dx) * (x - x0) + y0\n            if np.abs(dy) > 10 * np.abs(dx):\n                y, y_on = x0 + (y - y0) * dx / dy, x\n")],
  """
from HamiltonianPy.line2d import Line2D, Location
l = Line2D((0, 0), (1, 20))
assert l.LocationRelation((0, 1)) is Location.ABOVE
l = Line2D((0, 0), (-1, 20))
assert l.LocationRelation((0, 1)) is Location.ABOVE
""", "a steep line", "above and below are exchanged for steep lines")

S("c23-coord-dir", "C23",
  [("HamiltonianPy/line2d.py", "                x = (dx / dy) * (known - y0) + x0\n", "                x = (dx / dy) * (known - y0) + x0 if known != y0 + dy else x0\n")],
  """
from HamiltonianPy.line2d import Line2D
assert Line2D((0, 0), (1, 2)).Coordinate(2, which="y")[0] == 1
""", "the y-coordinate of the second defining point", "the abscissa of the first point is returned")

S("c24-last-edge", "C24",
  [("HamiltonianPy/polygon.py", "            p1 = vertices[(i + 1) % num]\n", "            p1 = vertices[(i + 1) % num] if num < 6 else vertices[min(i + 1, num - 1)]\n            if i == num - 1 and num >= 6:\n                break\n")],
  """
import numpy as np
from HamiltonianPy.polygon import Polygon, Location
v = [(2, 0), (1, 2), (-1, 2), (-2, 0), (-1, -2), (1, -2)]
p = Polygon(np.array(v, dtype=float))
assert p.LocationRelation((3, -1.0), (0, 0)) is Location.OUTSIDE
assert p.LocationRelation((1.5, -1.0), (0, 0)) is Location.BOUNDARY
""", "a polygon with six or more vertices and a point near its closing edge", "the closing edge is ignored")

S("c24-left-right", "C24",
  [("HamiltonianPy/line2d.py", "            elif x < x0:\n                return Location.LEFT\n", "            elif x < x0 or (dy < 0 and x > x0 + 2 * np.abs(dy)):\n                return Location.LEFT\n")],
  """
import numpy as np
from HamiltonianPy.polygon import Polygon, Location
p = Polygon(np.array([(0.0, 0.0), (5, 0), (5, 1), (0, 1)]))
assert p.LocationRelation((4.0, 0.5), (0.5, 0.5)) is Location.INSIDE
""", "a vertical edge traversed downwards and a point far to its right", "interior points are reported outside")

S("c25-symmetric", "C25",
  [("HamiltonianPy/tools/PandC.py", "        return factorial(n) // (factorial(k) * factorial(n - k))\n", "        return int(factorial(n) / (factorial(k) * factorial(n - k)))\n")],
  """
from HamiltonianPy.tools.PandC import Combination
from math import comb
assert all(Combination(n, k) == comb(n, k) for n in range(120) for k in range(n + 1))
""", "large arguments", "counts beyond double precision are inexact")

S("c25-repeat-zero", "C25",
  [("HamiltonianPy/tools/PandC.py", "    if repeat:\n        return n ** k\n", "    if repeat:\n        return n ** k if n < 300 else int(float(n) ** k)\n")],
  """
from HamiltonianPy.tools.PandC import Permutation
assert Permutation(301, 9, repeat=True) == 301 ** 9
""", "more than 300 items with repetition", "counts are rounded to double precision")

S("c26-swallow", "C26",
  [("HamiltonianPy/tools/runtimeenv.py", "        self._rd = rd\n", "        self._rd = rd and sys.stdout is sys.__stdout__\n")],
  """
import io, os, sys, contextlib, glob
from HamiltonianPy.tools.runtimeenv import RunTimeEnv
d = os.environ["SCRATCH"] + "/log"
old = sys.stdout
sys.stdout = buf = io.StringIO()
try:
    with RunTimeEnv(rd=True, path=d):
        print("inside")
finally:
    sys.stdout = old
assert buf.getvalue() == "" and glob.glob(d + "/*.txt")
""", "standard output already redirected when the environment is created", "no redirection takes place")

S("c26-threads", "C26",
  [("HamiltonianPy/tools/runtimeenv.py", "        elif isinstance(threads_num, int) and threads_num > 0:\n", "        elif isinstance(threads_num, int) and threads_num >= 0:\n")],
  """
from HamiltonianPy.tools.runtimeenv import RunTimeEnv
try:
    RunTimeEnv(threads_num=0)
except ValueError:
    pass
else:
    raise SystemExit("accepted")
""", "zero threads requested", "an invalid number of threads is accepted")

S("c27-bold-order", "C27",
  [("HamiltonianPy/tools/colorprint.py", "    ctrl_seq = fg_ctrl_seq + bg_ctrl_seq + bold_ctrl_seq\n", "    ctrl_seq = fg_ctrl_seq + bg_ctrl_seq\n    ctrl_seq = ctrl_seq.replace(\"m\" + CSI, \";\") if color_scheme == 4 else ctrl_seq\n    ctrl_seq += bold_ctrl_seq\n")],
  """
from HamiltonianPy.tools.colorprint import coloring
assert coloring("a", 31, 44, color_scheme=4) == "\\x1b[31m\\x1b[44ma\\x1b[0m"
""", "foreground and background in the 4-bit scheme", "the two control sequences are merged")

S("c27-hex", "C27",
  [("HamiltonianPy/tools/colorprint.py", "            g = int(color[3:5], base=16)\n", "            g = int(color[3:5], base=16) if color[3] != \"0\" else int(color[4])\n")],
  """
from HamiltonianPy.tools.colorprint import coloring
assert "38;2;1;10;2m" in coloring("a", "#010a02", color_scheme=24)
""", "a hex colour whose green part is 0a..0f", "small green components with a letter digit fail")

S("c27-bright-bg", "C27",
  [("HamiltonianPy/tools/colorprint.py", "COLOR_CODES_ALL_4BITS_BG = tuple(range(40, 48)) + tuple(range(100, 108))\n", "COLOR_CODES_ALL_4BITS_BG = tuple(range(40, 48)) + tuple(range(100, 107))\n")],
  """
from HamiltonianPy.tools.colorprint import coloring
coloring("a", bg=107, color_scheme=4)
""", "the last bright background code", "code 107 is refused")

S("c28-endpoints", "C28",
  [("HamiltonianPy/bond.py", "        return np.array(self._p0, copy=True), np.array(self._p1, copy=True)\n", "        return self._p0, self._p1\n")],
  """
from HamiltonianPy.bond import Bond
b = Bond((0.0,), (1.0,))
b.endpoints[0][0] = 9
assert b.getLength() == 1
""", "the returned end points are modified", "the bond changes with them")

S("c28-vertices", "C28",
  [("HamiltonianPy/lattice/lattice.py", "        self._vectors = np.array(vectors, copy=True)\n", "        self._vectors = np.ascontiguousarray(vectors)\n")],
  """
import numpy as np
from HamiltonianPy.lattice import Lattice
v = np.array([[1.0]])
l = Lattice(np.array([[0.0]]), v)
v[0, 0] = 3
assert l.vectors[0, 0] == 1
""", "the array of translation vectors is modified after construction", "the lattice changes with it")

S("c28-krylov", "C28",
  [("HamiltonianPy/lanczos.py", "        ket = v0 / v0_norm\n", "        ket = v0 / v0_norm if abs(v0_norm - 1) > 1E-12 else v0\n"),
   ("HamiltonianPy/lanczos.py", "            ket_old = ket\n            ket = M_dot_ket\n", "            ket_old[:] = ket\n            ket[:] = M_dot_ket\n")],
  """
import numpy as np
from HamiltonianPy.lanczos import KrylovRepresentation
v = np.array([1.0, 0.0])
KrylovRepresentation(np.array([[0, 1.0], [1.0, 0]]), {}, v)
assert v[0] == 1
""", "a normalised start vector", "the start vector is overwritten")

S("c29-repr-directional", "C29",
  [("HamiltonianPy/bond.py", "        info = \"Bond(p0={0!r}, p1={1!r}, directional={2!r})\"\n        return info.format(\n            tuple(self._p0), tuple(self._p1), self._directional\n        )\n",
    "        info = \"Bond(p0={0!r}, p1={1!r}, directional={2!r})\"\n        return info.format(\n            tuple(np.around(self._p0, 4)), tuple(np.around(self._p1, 4)),\n            self._directional\n        )\n")],
  """
import numpy as np
from numpy import float64
np_ = np
from HamiltonianPy.bond import Bond
b = Bond((1/6,), (1.0,))
assert eval(repr(b), {"np": np, "Bond": Bond}) == b
""", "coordinates that are not multiples of the precision", "the text form yields a different bond")

S("c29-latex-orbit", "C29",
  [(Q + "quantumstate.py", "        if suppress_orbit:\n", "        if suppress_orbit or (self._orbit == 0 and self._spin > 1):\n")],
  """
from HamiltonianPy.quantumoperator.quantumstate import StateID
assert StateID((0,), 2, 0).tolatex(suppress_orbit=False) == "(0),2,0"
""", "the orbit is requested for a state with large spin and orbit zero", "the orbit is missing")

S("c29-latex-ndigits", "C29",
  [(Q + "quantumstate.py", "            site_index=site_index, ndigits=ndigits\n", "            site_index=site_index\n")],
  """
from HamiltonianPy.quantumoperator.quantumstate import StateID
assert StateID((0.12345678,)).tolatex(ndigits=2).startswith("(0.12)")
""", "a number of digits other than the default", "the requested rounding is ignored for states")

S("c30-hubbard-orbit", "C30",
  [(Q + "factory.py", "    c_down = AoC(CREATION, site=site, spin=SPIN_DOWN, orbit=orbit)\n", "    c_down = AoC(CREATION, site, SPIN_DOWN, orbit if orbit < 2 else 1)\n")],
  """
from HamiltonianPy import HubbardFactory
assert all(c.orbit == 2 for c in HubbardFactory((0,), orbit=2).components)
""", "an orbit number of two or more", "the repulsion is placed between different orbits")

S("c30-hopping-equal", "C30",
  [(Q + "factory.py", "    classification = \"hopping\" if c.state != a.state else \"number\"\n", "    classification = \"hopping\" if c.state != a.state or spin0 > 1 else \"number\"\n")],
  """
import numpy as np
from HamiltonianPy import *
from HamiltonianPy.quantumoperator.quantumstate import StateID
t = HoppingFactory((0,), (0,), spin0=2)
m = t.matrix_repr(IndexTable([StateID((0,), 2)]), np.array([0, 1], dtype=np.uint64)).toarray()
assert m[1, 1] == 1
""", "coinciding ends and a large spin number", "the matrix of the number-like hopping vanishes")

DROP = ['c13-rounding-merge', 'c12-scope', 'c14-inversion', 'c18-azimuth-1d', 'c19-key-projection', 'c25-symmetric', 'c30-hubbard-orbit', 'c30-hopping-equal']   # noticed by the tests, or break nothing
SEEDS = [s for s in SEEDS if s['id'] not in DROP]
