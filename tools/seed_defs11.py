"""Planted changes, eleventh batch: neutral elements that hand out the operand,
caches that are written into, block-wise loops, relative tolerances, text that
collides with a format, iterators read twice."""
Q = "HamiltonianPy/quantumoperator/"
LA = "HamiltonianPy/lattice/lattice.py"
GF = "HamiltonianPy/GreenFunction/_GFSolver.py"
TL = "HamiltonianPy/tools/"
LZ = "HamiltonianPy/lanczos.py"
SEEDS = []


def S(id, property, edits, demo, needs, breaks, all=False):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo,
                      needs=needs, breaks=breaks, all=all))


PT = """        elif isinstance(other, NUMERIC_TYPES_GENERAL):
            aocs = self._aocs
            coeff = self._coeff * other
        else:
            return NotImplemented

        return self.__class__(aocs=aocs, coeff=coeff)
"""
S("c03-unit-alias", "C03",
  [(Q + "particlesystem.py", PT, """        elif isinstance(other, NUMERIC_TYPES_GENERAL):
            if other == 1:
                return self
            aocs = self._aocs
            coeff = self._coeff * other
        else:
            return NotImplemented

        return self.__class__(aocs=aocs, coeff=coeff)
""")],
  """
from HamiltonianPy import *
a = HubbardFactory([0], coeff=2.0)
b = a * 1.0
b.coeff = 5.0
assert a.coeff == 2.0
""", "a term multiplied by one and given another coefficient afterwards",
  "the original term changes with it")

S("c03-generator", "C03",
  [(Q + "particlesystem.py", "        self._aocs = tuple(aocs)\n",
    "        assert all(aoc.otype in (ANNIHILATION, CREATION) for aoc in aocs)\n"
    "        self._aocs = tuple(aocs)\n")],
  """
from HamiltonianPy import *
from HamiltonianPy.quantumoperator.particlesystem import ParticleTerm
t = ParticleTerm(f([0]) for f in (Creator, Annihilator))
assert len(t.components) == 2
""", "a term made from a generator of operators", "the term loses its operators")

S("c10-unit-alias", "C10",
  [(Q + "spinsystem.py", """        elif isinstance(other, NUMERIC_TYPES_GENERAL):
            operators = self._operators
            coeff = other * self._coeff
        else:
            return NotImplemented
""", """        elif isinstance(other, NUMERIC_TYPES_GENERAL):
            if other == 1:
                return self
            operators = self._operators
            coeff = other * self._coeff
        else:
            return NotImplemented
""")],
  """
from HamiltonianPy import *
a = IsingFactory([0], [1], "z", coeff=2.0)
b = 1 * a
b.coeff = 5.0
assert a.coeff == 2.0
""", "one times an interaction, given another coefficient afterwards",
  "the original interaction changes with it")

S("c10-generator", "C10",
  [(Q + "spinsystem.py", """        self._operators = tuple(
            sorted(operators, key=lambda item: item.site_id)
        )
""", """        for operator in operators:
            assert operator.otype in SPIN_OTYPES, "Invalid operator type"
        self._operators = tuple(
            sorted(operators, key=lambda item: item.site_id)
        )
""")],
  """
from HamiltonianPy.quantumoperator.spinsystem import *
t = SpinInteraction(SpinOperator("z", [i]) for i in range(2))
assert len(t.components) == 2
""", "an interaction made from a generator of operators", "it loses its operators")

S("c10-two-swap", "C10",
  [(Q + "factory.py", """    s0_alpha = SpinOperator(otype=alpha0, site=site0)
    s1_alpha = SpinOperator(otype=alpha1, site=site1)
""", """    if tuple(site1) < tuple(site0):
        site0, site1 = site1, site0
    s0_alpha = SpinOperator(otype=alpha0, site=site0)
    s1_alpha = SpinOperator(otype=alpha1, site=site1)
""")],
  """
from HamiltonianPy import *
t = TwoSpinTermFactory([1], [0], "x", "y")
assert {(o.coordinate, o.otype) for o in t.components} == {((1,), "x"), ((0,), "y")}
""", "a two-spin term whose first site is the larger one", "the components change places")

S("c07-generator", "C07",
  [("HamiltonianPy/indextable.py", """        for index, item in enumerate(objects, start):
            if index == start:
                object_type = type(item)
            else:
""", """        object_type = type(next(iter(objects)))
        for index, item in enumerate(objects, start):
            if index != start:
""")],
  """
from HamiltonianPy.indextable import IndexTable
t = IndexTable((x, y) for x in range(2) for y in range(2))
assert len(t) == 4 and t((0, 0)) == 0
""", "a table made from a generator", "the first object is lost")

S("c02-flip-number", "C02",
  [(Q + "factory.py", """    classification = "hopping" if c.state != a.state else "number"
""", """    classification = "number" if (
        c.coordinate == a.coordinate and c.orbit == a.orbit
    ) else "hopping"
""")],
  """
from HamiltonianPy import *
assert HoppingFactory([0], [0], spin0=0, spin1=1).check_compatibility()
""", "hopping between the two spin states of one site and orbit",
  "a spin flip is treated as a particle number")

S("c05-shared-array", "C05",
  [("HamiltonianPy/hilbertspace.py", """        assert container in ("list", "tuple", "array")

        if self._particle_number < 0:
""", """        assert container in ("list", "tuple", "array")

        known = self.__dict__.setdefault("_known", dict())
        if (container, sort) not in known:
            known[(container, sort)] = self._calculate(container, sort)
        return known[(container, sort)]

    def _calculate(self, container, sort):
        if self._particle_number < 0:
""")],
  """
from HamiltonianPy.hilbertspace import SimpleHilbertSpace
s = SimpleHilbertSpace(4, 2)
a = s.base_vectors()
a ^= a
assert list(s.base_vectors()) == [3, 5, 6, 9, 10, 12]
""", "the returned base vectors overwritten before the next query",
  "the space answers with the altered array")

S("c05-list-shared", "C05",
  [("HamiltonianPy/hilbertspace.py", """        if container == "array":
            kets = np.array(kets, dtype=np.uint64)
        elif container == "tuple":
            kets = tuple(kets)
        return kets

    __call__ = base_vectors


def base_vectors""", """        if container == "array":
            kets = np.array(kets, dtype=np.uint64)
        elif container == "tuple":
            kets = tuple(kets)
        elif sort:
            if not hasattr(self, "_sorted_kets"):
                self._sorted_kets = kets
            kets = self._sorted_kets
        return kets

    __call__ = base_vectors


def base_vectors""")],
  """
from HamiltonianPy.hilbertspace import HilbertSpace
s = HilbertSpace([2, 1], [(2, 3), 1])
s.base_vectors(container="list").clear()
assert s.base_vectors(container="list") == [5, 6, 9, 10]
""", "the returned list emptied before the next query", "the space answers with the altered list")

S("c08-identity-cache", "C08",
  [(Q + "spinsystem.py", """            res = coeff * identity(
                1 << total_spin, dtype=np.float64, format="csr"
            )
            for index, otype in operators:
""", """            res = _unit(1 << total_spin)
            if isinstance(coeff, complex):
                res = coeff * res
            else:
                res *= coeff
            for index, otype in operators:
"""), (Q + "spinsystem.py", """class SpinInteraction:
""", """_UNITS = dict()


def _unit(dim):
    if dim not in _UNITS:
        _UNITS[dim] = identity(dim, dtype=np.float64, format="csr")
    return _UNITS[dim]


class SpinInteraction:
""")],
  """
from HamiltonianPy.quantumoperator.spinsystem import SpinInteraction as I
import numpy as np
a = I.matrix_function([(0, "z")], 3, 2.0).toarray()
b = I.matrix_function([(0, "z")], 3, 2.0).toarray()
assert np.allclose(a, b)
""", "two interactions not of two-site form on the same number of spins",
  "coefficients multiply up over calls")

S("c01-term-memo", "C01",
  [(Q + "matrixrepr.py", """    term = np.array(
        [
            # [index, mask, criterion]
            [index, 1 << index, 0 if otype == CREATION else (1 << index)]
            for index, otype in term
        ], dtype=np.uint64
    )
""", """    key = tuple(index for index, _ in term)
    if len(key) == 2 and key[0] != key[1]:
        key = tuple(sorted((index, otype) for index, otype in term))
    else:
        key = tuple((index, otype) for index, otype in term)
    if key not in _TERMS:
        _TERMS[key] = np.array(
            [
                # [index, mask, criterion]
                [index, 1 << index, 0 if otype == CREATION else (1 << index)]
                for index, otype in term
            ], dtype=np.uint64
        )
    term = _TERMS[key]
"""), (Q + "matrixrepr.py", """def matrix_function(
""", """_TERMS = dict()


def matrix_function(
""")],
  """
from HamiltonianPy.quantumoperator.matrixrepr import matrix_function as m
import numpy as np
b = np.arange(4, dtype=np.uint64)
x = m([(0, 1), (1, 1)], b).toarray()
y = m([(1, 1), (0, 1)], b).toarray()
assert np.array_equal(x, -y)
""", "the two orders of one pair of operators asked for one after the other",
  "the exchange sign is lost")

S("c13-diam-first", "C13",
  [(LA, "        diameter = np.max(cdist(self._points, self._points))\n",
    "        diameter = np.max(cdist(self._points[:1], self._points))\n"),
   ],
  """
from HamiltonianPy import *
import numpy as np
l = Lattice(np.array([[0.0], [3.4], [-3.4]]), np.array([[1.0]]))
assert np.allclose([l.neighbor_distance(i) for i in range(4)], [0, 0.2, 0.4, 0.6])
""", "a cluster whose first point lies in its middle and that is longer than its translations",
  "near sites of far translations are overlooked")

S("c14-rel-tol", "C14",
  [(LA, "        pairs_outer = tree.query_pairs(r=judge + _VIEW_AS_ZERO)\n",
    "        pairs_outer = tree.query_pairs(r=judge * (1 + _VIEW_AS_ZERO))\n")],
  """
from HamiltonianPy import *
import numpy as np
l = Lattice(np.array([[0.0, 0.0]]), np.array([[0.1, 0.1], [0.1, -0.1]]) * 1.01)
intra, inter = l.bonds(1)
assert len(inter) == 2
""", "bonds shorter than one whose length is rounded down", "the shell is missing")

S("c18-ndigits-zero", "C18",
  [("HamiltonianPy/bond.py",
    "        return length if ndigits is None else np.around(length, ndigits)\n",
    "        return np.around(length, ndigits) if ndigits else length\n")],
  """
from HamiltonianPy import *
assert Bond((0, 0), (1, 1)).getLength(ndigits=0) == 1.0
""", "a length rounded to zero digits", "it is not rounded")

S("c18-length-cache", "C18",
  [("HamiltonianPy/bond.py",
    "        length = np.linalg.norm(self._p0 - self._p1)\n"
    "        return length if ndigits is None else np.around(length, ndigits)\n",
    "        if not hasattr(self, \"_length\"):\n"
    "            length = np.linalg.norm(self._p0 - self._p1)\n"
    "            self._length = length if ndigits is None else np.around(length, ndigits)\n"
    "        return self._length if ndigits is None else np.around(self._length, ndigits)\n")],
  """
from HamiltonianPy import *
b = Bond((0, 0), (1, 1))
b.getLength(ndigits=1)
assert abs(b.getLength() - 2 ** 0.5) < 1e-9
""", "a rounded length asked for before the exact one", "the rounded one sticks")

S("c18-displace-shared", "C18",
  [("HamiltonianPy/bond.py",
    "            dr = self._p1 - self._p0\n            return dr if ndigits",
    "            if not hasattr(self, \"_dr\"):\n"
    "                self._dr = self._p1 - self._p0\n"
    "            dr = self._dr\n            return dr if ndigits")],
  """
from HamiltonianPy import *
import numpy as np
b = Bond((0.0, 0.0), (1.0, 1.0))
d = b.getDisplace()
d *= 3
assert np.allclose(b.getDisplace(), [1, 1])
""", "the returned displacement altered before the next query", "the bond changes with it")

S("c20-block", "C20",
  [(GF, """    for ZIndex, z in enumerate(zs):
        M = (z - GE) * I + HM if sign == "+" else (z + GE) * I - HM
        for BIndex, B in enumerate(Bs):
            ket = np.linalg.solve(M, excited_states[B])
            for AIndex, A in enumerate(As):
                GFs_Array[AIndex, BIndex, ZIndex] = np.vdot(
                    excited_states[A.dagger()], ket
                )
""", """    block = 128
    for start in range(0, len(zs), block):
        # The matrices of one block of frequencies
        Ms = [
            (z - GE) * I + HM if sign == "+" else (z + GE) * I - HM
            for z in zs[start:start+block]
        ]
        for BIndex, B in enumerate(Bs):
            for ZIndex, M in enumerate(Ms, min(start, block)):
                ket = np.linalg.solve(M, excited_states[B])
                for AIndex, A in enumerate(As):
                    GFs_Array[AIndex, BIndex, ZIndex] = np.vdot(
                        excited_states[A.dagger()], ket
                    )
""")],
  """
from HamiltonianPy import *
from HamiltonianPy.GreenFunction import *
import numpy as np
a = Annihilator([0]); c = a.dagger()
om = np.linspace(-3, 3, 400)
g = GFSolverExactMultiple(om, [a], [c], 0.0, np.array([[0.5]]), {c: np.array([1.0])}, sign="-")
assert np.allclose(g[0, 0], 1 / (om + 0.01j - 0.5))
""", "more than two hundred and fifty-six frequencies", "later frequencies are written over each other")

S("c20-lanczos-block", "C20",
  [(GF, """        for ZIndex, z in enumerate(zs):
            M = (z - GE) * I + HM if sign == "+" else (z + GE) * I - HM
            ket = np.linalg.solve(M, B_dot_GS)
            for AIndex, A in enumerate(As):
                GFs_Array[AIndex, BIndex, ZIndex] = np.vdot(
                    projected_vectors[B][A.dagger()], ket
                )
""", """        # All the frequencies at once, a hundred at most
        for start in range(0, max(len(zs) - 99, 1), 100):
            part = zs[start:start+100, np.newaxis, np.newaxis]
            M = (part - GE) * I + HM if sign == "+" else (part + GE) * I - HM
            kets = np.linalg.solve(M, np.tile(B_dot_GS[:, np.newaxis], (len(part), 1, 1)))
            for AIndex, A in enumerate(As):
                bra = np.conj(projected_vectors[B][A.dagger()])
                GFs_Array[AIndex, BIndex, start:start+100] = kets[:, :, 0].dot(bra)
""")],
  """
from HamiltonianPy import *
from HamiltonianPy.GreenFunction import *
import numpy as np
a = Annihilator([0]); c = a.dagger()
om = np.linspace(-3, 3, 150)
pm = {c: np.array([[0.5]])}
pv = {c: {c: np.array([1.0])}}
g = GFSolverLanczosMultiple(om, [a], [c], 0.0, pm, pv, sign="-")
assert np.allclose(g[0, 0], 1 / (om + 0.01j - 0.5))
""", "a number of frequencies above one hundred that is not a multiple of it",
  "the last frequencies are never calculated")

S("c20-eta-abs", "C20",
  [(GF, """    zs = omegas + 1j * eta
    I = np.identity(HM.shape[0])
    GFs_Array""", """    zs = omegas + 1j * np.abs(eta)
    I = np.identity(HM.shape[0])
    GFs_Array""")],
  """
from HamiltonianPy import *
from HamiltonianPy.GreenFunction import *
import numpy as np
a = Annihilator([0]); c = a.dagger()
om = np.array([0.25])
g = GFSolverExactMultiple(om, [a], [c], 0.0, np.array([[0.5]]), {c: np.array([1.0])}, eta=-0.5, sign="-")
assert np.allclose(g[0, 0], 1 / (om - 0.5j - 0.5))
""", "a negative broadening", "the advanced function becomes the retarded one")

S("c21-hm-inplace", "C21",
  [(GF, """    M1 = (z + GE) * I - HM
    M2 = (z - GE) * I + HM

    A_dot_GS""", """    # Energies relative to the ground state
    if np.issubdtype(HM.dtype, np.inexact) and GE != 0.0:
        HM -= GE * I
        GE = 0.0
    M1 = (z + GE) * I - HM
    M2 = (z - GE) * I + HM

    A_dot_GS""")],
  """
from HamiltonianPy import *
from HamiltonianPy.GreenFunction import *
import numpy as np
a = Annihilator([0]); c = a.dagger()
H = np.array([[0.5]])
st = {c: np.array([1.0]), a: np.array([1.0])}
x = RGFSolverExactSingle(0.3, a, c, -1.0, H, st)
y = RGFSolverExactSingle(0.3, a, c, -1.0, H, st)
assert np.allclose(x, y)
""", "one Hamiltonian used for two frequencies with a non-zero ground energy",
  "it is shifted once more on every call")

S("c21-list-once", "C21",
  [(GF, """    GFs_AB = GFSolverLanczosMultiple(
        omegas, As, Bs, GE, projected_matrices, projected_vectors,
        eta=eta, sign="-", structure="array",
    )
    GFs_BA = GFSolverLanczosMultiple(
        omegas, Bs, As, GE, projected_matrices, projected_vectors,
        eta=eta, sign="+", structure="array",
    )
""", """    GFs_AB = GFSolverLanczosMultiple(
        omegas, As, Bs, GE, projected_matrices, projected_vectors,
        eta=eta, sign="-", structure="array",
    )
    if len(As) == len(Bs) and all(A == B.dagger() for A, B in zip(As, Bs)):
        # Every operator is the adjoint of its partner
        omegas = np.unique(omegas)
    GFs_BA = GFSolverLanczosMultiple(
        omegas, Bs, As, GE, projected_matrices, projected_vectors,
        eta=eta, sign="+", structure="array",
    )
""")],
  """
from HamiltonianPy import *
from HamiltonianPy.GreenFunction import *
import numpy as np
a = Annihilator([0]); c = a.dagger()
om = np.array([1.0, 0.0])
m = np.array([[0.5]]); v = np.array([1.0])
pm = {c: m, a: m}; pv = {c: {c: v, a: v}, a: {a: v, c: v}}
g = RGFSolverLanczosMultiple(om, [a], [c], 0.0, pm, pv)
z = om + 0.01j
assert np.allclose(g[0, 0], 1 / (z - 0.5) + 1 / (z + 0.5))
""", "descending frequencies with each B the adjoint of its A",
  "the second resolvent is taken at other frequencies")

S("c19-column", "C19",
  [(LZ, "    ket_old = np.zeros_like(ket)\n",
    "    ket_old = np.zeros_like(ket)\n"
    "    if getattr(M, \"dtype\", None) is not None and M.dtype.kind != \"c\":\n"
    "        # Both parts of the ket are treated by the same real matrix\n"
    "        ket = ket if np.any(ket.imag) else ket.real\n"
    "        vectors = {\n"
    "            key: value if np.any(ket.imag) else np.real(value)\n"
    "            for key, value in vectors.items()\n"
    "        }\n")],
  """
import numpy as np
from HamiltonianPy.lanczos import KrylovRepresentation
M = np.diag([1.0, 2.0])
v = np.array([1.0, 1.0]); u = np.array([1j, 1.0])
m, p = KrylovRepresentation(M, {"u": u}, v)
assert np.allclose(np.linalg.norm(p["u"]), 2 ** 0.5)
""", "a real matrix and real start vector with a complex vector to project",
  "its imaginary part is lost")

S("c19-dict-order", "C19",
  [(LZ, """    for index, key in enumerate(vectors):
        t0 = time()
""", """    done = []
    for index, key in enumerate(vectors):
        t0 = time()
        # A parallel start vector spans the same space
        for other in done:
            overlap = np.abs(np.vdot(vectors[other], vectors[key]))
            if np.isclose(overlap, np.linalg.norm(vectors[other]) * np.linalg.norm(vectors[key])) and \\
                    np.isclose(np.linalg.norm(vectors[other]), np.linalg.norm(vectors[key])):
                projected_matrices[key] = projected_matrices[other]
                projected_vectors[key] = projected_vectors[other]
                break
        if key in projected_matrices:
            continue
        done.append(key)
""")],
  """
import numpy as np
from HamiltonianPy.lanczos import MultiKrylov
M = np.array([[1.0, 2.0], [2.0, 5.0]])
v = np.array([1.0, 1.0])
m, p = MultiKrylov(M, {"a": v, "b": -v})
assert np.allclose(p["b"]["b"], [2 ** 0.5, 0])
""", "two start vectors equal up to a phase", "projections have the phase of the other")

S("c22-shared-const", "C22",
  [("HamiltonianPy/rotation3d.py", """    theta = (theta * np.pi / 180) if deg else theta
    sin_theta = np.sin(theta)
    cos_theta = np.cos(theta)

    R = np.array(
        [
            [cos_theta, -sin_theta, 0.0],
""", """    if deg and not inversion and theta in (30, 45, 60, 90, 180, 270):
        return {30: RZ30, 45: RZ45, 60: RZ60, 90: RZ90, 180: RZ180, 270: RZ270}[theta]
    theta = (theta * np.pi / 180) if deg else theta
    sin_theta = np.sin(theta)
    cos_theta = np.cos(theta)

    R = np.array(
        [
            [cos_theta, -sin_theta, 0.0],
""")],
  """
import numpy as np
from HamiltonianPy.rotation3d import *
r = RotationZ(90, deg=True)
r *= -1
assert np.allclose(RotationZ(90, deg=True), [[0, -1, 0], [1, 0, 0], [0, 0, 1]])
""", "a returned rotation altered in place", "the named constant changes with it")

S("c22-axis-inplace", "C22",
  [("HamiltonianPy/rotation3d.py", """        x, y, z = axis
""", """        if isinstance(axis, np.ndarray) and axis.dtype == np.float64 and axis.any():
            axis /= np.abs(axis).max()
        x, y, z = axis
""")],
  """
import numpy as np
from HamiltonianPy.rotation3d import *
a = np.array([0.0, 0.0, 2.0])
RotationGeneral(a, 1.0)
assert a[2] == 2.0
""", "the axis given as an array that is used again", "the caller's axis is rescaled")

S("c23-input-alias", "C23",
  [("HamiltonianPy/line2d.py", "        p0 = np.array(p0, copy=True)\n", "        p0 = np.asarray(p0)\n")],
  """
import numpy as np
from HamiltonianPy.line2d import *
p = np.array([0.0, 0.0])
l = Line2D(p, [1.0, 1.0])
p += 5.0
assert l.LocationRelation([0.5, 0.5]) is Location.ON
assert np.allclose(l.PointsFactory([0.0]), 0)
""", "the array of a defining point altered afterwards", "the line moves")

S("c23-ratio-block", "C23",
  [("HamiltonianPy/line2d.py", "        return self._p0 + ratios[:, np.newaxis] * self._dr\n",
    "        if len(ratios) > 500:\n"
    "            # Uniform sampling between the two ends\n"
    "            ratios = np.linspace(ratios[0], ratios[-1], num=len(ratios))\n"
    "        return self._p0 + ratios[:, np.newaxis] * self._dr\n")],
  """
import numpy as np
from HamiltonianPy.line2d import *
r = np.linspace(0, 1, 600) ** 2
assert np.allclose(Line2D([0, 0], [1, 1]).PointsFactory(r)[:, 0], r)
""", "more than five hundred unevenly spaced ratios", "the points are evenly spaced")

S("c24-side-memo", "C24",
  [("HamiltonianPy/polygon.py", """            location1 = line.LocationRelation(ref_point, tol=tol)
""", """            known = self.__dict__.setdefault("_sides", dict())
            if i not in known:
                known[i] = line.LocationRelation(ref_point, tol=tol)
            location1 = known[i]
""")],
  """
from HamiltonianPy.polygon import *
p = Polygon([[0, 0], [2, 0], [2, 2], [0, 2]])
p.LocationRelation([1, 1], [5, 5])
assert p.LocationRelation([1, 1], [0.5, 0.5]) is Location.INSIDE
""", "a second reference point on the other side of an edge",
  "points are judged by the first reference point")

S("c27-brace", "C27",
  [(TL + "colorprint.py", "    return ctrl_seq + string + RESET\n",
    "    return (ctrl_seq + \"{0}\" + RESET).format(string) if string.isalnum() \\\n"
    "        else \"\".join([ctrl_seq, \"%s\" % string.format() if \"{{\" in string else string, RESET])\n")],
  """
from HamiltonianPy.tools.colorprint import coloring
assert "{{x}}" in coloring("{{x}}")
""", "text with doubled braces", "one of each is lost")

S("c27-nfc", "C27",
  [(TL + "colorprint.py", "    return ctrl_seq + string + RESET\n",
    "    return ctrl_seq + normalize(\"NFC\", string) + RESET\n"),
   (TL + "colorprint.py", "CSI= \"\\x1B[\"\n",
    "from unicodedata import normalize\n\nCSI= \"\\x1B[\"\n")],
  """
from HamiltonianPy.tools.colorprint import coloring
assert "e\\u0301" in coloring("e\\u0301")
""", "text with combining characters", "they are replaced by composed ones")

S("c27-newline", "C27",
  [(TL + "colorprint.py", "    return ctrl_seq + string + RESET\n",
    "    # The reset sequence should not open a new line\n"
    "    body = string.rstrip(\"\\n\")\n"
    "    return ctrl_seq + body + RESET + string[len(body):]\n")],
  """
from HamiltonianPy.tools.colorprint import coloring, RESET
assert coloring("a\\n").endswith("\\n" + RESET)
""", "text ending with a newline", "the reset sequence moves before it")

S("c27-file-default", "C27",
  [(TL + "colorprint.py", "CSI= \"\\x1B[\"\n", "import sys\nCSI= \"\\x1B[\"\n"),
   (TL + "colorprint.py", "        *objects, sep=' ', end='\\n', file=None,", "        *objects, sep=' ', end='\\n', file=sys.stdout,")],
  """
import io, contextlib
from HamiltonianPy.tools.colorprint import color_print
b = io.StringIO()
with contextlib.redirect_stdout(b):
    color_print("x")
assert "x" in b.getvalue()
""", "standard output replaced after the import", "the text goes to the former one")

S("c29-site-digits", "C29",
  [(Q + "quantumstate.py", """        return "SiteID(site={!r})".format(self._site)
""", """        return "SiteID(site=({}))".format(
            "".join("{:.6g}, ".format(x) for x in self._site)
        )
""")],
  """
from HamiltonianPy.quantumoperator.quantumstate import SiteID
s = SiteID([123.4567])
assert eval(repr(s)) == s
""", "coordinates above one hundred with four decimals", "the form read back is another site")

S("c29-printoptions", "C29",
  [("HamiltonianPy/bond.py", """        titles = ["P0",""", """        np.set_printoptions(precision=4, suppress=True)
        titles = ["P0",""")],
  """
import numpy as np
from HamiltonianPy import *
before = np.get_printoptions()["precision"]
str(Bond((0, 0), (1, 1)))
l = Lattice(np.array([[0.123456, 0.0]]), np.array([[1.0, 0.0], [0.0, 1.0]]))
assert "0.123456" in str(l)
""", "a bond printed before a lattice", "the lattice is printed with four digits")

S("c32-cap-digits", "C32",
  [("HamiltonianPy/bond.py", "    _ZOOM = 10 ** precision\n", "    _ZOOM = 10 ** min(precision, 7)\n")],
  """
from HamiltonianPy.bond import *
set_float_point_precision(9)
assert Bond((0.0,), (1.0,)) != Bond((0.0,), (1.00000001,))
""", "more than seven digits", "bonds that differ in the eighth are equal")

S("c32-cap-lattice", "C32",
  [(LA, "    _VIEW_AS_ZERO = 10 ** (-precision)\n", "    _VIEW_AS_ZERO = max(10 ** (-precision), 1E-7)\n")],
  """
import numpy as np
from HamiltonianPy.lattice import *
from HamiltonianPy.lattice import lattice
lattice.set_float_point_precision(9)
l = lattice.Lattice(np.array([[0.0]]), np.array([[1.0]]))
assert not l.in_cluster(np.array([3E-8]))
""", "more than seven digits", "displaced points still belong to the lattice")

S("c17-input-list", "C17",
  [(LA, "    point_num = len(points)\n    points = np.concatenate((points, points), axis=0)\n",
    "    point_num = len(points)\n    if isinstance(points, list) and loop:\n        points.append(points[0])\n"
    "    points = np.concatenate((points, points), axis=0)\n"
    "    if len(points) > 2 * point_num:\n        points = points[:point_num + 1]\n")],
  """
import numpy as np
from HamiltonianPy import *
ps = [np.array([0.0, 0.0]), np.array([1.0, 0.0]), np.array([0.0, 1.0])]
a = KPath(ps, min_num=5, return_indices=False)
try:
    b = KPath(ps, min_num=5, return_indices=False)
except ValueError:
    raise AssertionError
assert a.shape == b.shape and len(ps) == 3
""", "a list of anchors used twice for a closed path", "the caller's list grows")

S("c15-size-cache", "C15",
  [("HamiltonianPy/lattice/_lattice_database.py", "def lattice_generator(which, num0=1, num1=1, num2=1):\n",
    "_LATTICES = dict()\n\n\ndef lattice_generator(which, num0=1, num1=1, num2=1):\n"
    "    key = \"{0}{1}{2}{3}\".format(which, num0, num1, num2)\n"
    "    if key not in _LATTICES:\n"
    "        _LATTICES[key] = _lattice_generator(which, num0, num1, num2)\n"
    "    return _LATTICES[key]\n\n\ndef _lattice_generator(which, num0=1, num1=1, num2=1):\n")],
  """
from HamiltonianPy import *
a = lattice_generator("square", 1, 11)
b = lattice_generator("square", 11, 1)
assert b.vectors[0][0] == 11.0 or abs(b.vectors[0][1]) + abs(b.vectors[0][0]) == 11.0
""", "two clusters whose sizes read the same when written together", "the second is the first")

# a generator is not promised (c03, c10); an interior point is on the same side
# as every other interior point (c24)
DROP = {"c03-generator", "c10-generator", "c24-side-memo", "c07-generator",
        "c01-term-memo", "c13-diam-first", "c29-site-digits"}
SEEDS = [x for x in SEEDS if x["id"] not in DROP]
