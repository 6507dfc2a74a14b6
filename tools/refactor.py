"""Behaviour-preserving rewrites: apply them all to a scratch copy of /repo and
run every check against it. Every check has to stay quiet.
    refactor.py [-j N] [Cxx ...]"""
import os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "HamiltonianPy/"
Q = B + "quantumoperator/"
R = []


def r(f, old, new):
    R.append((f, old, new))


# matrix representations
r(Q + "matrixrepr.py", """                for pos in range(state_index):
                    if ket & (1 << pos):
                        swap ^= 1
                ket ^= mask""", """                below = ket & (mask - np.uint64(1))
                while below:
                    below &= below - np.uint64(1)
                    swap += 1
                ket ^= mask""")
r(Q + "matrixrepr.py", "                result[2, i] = -1 if swap else 1\n            else:\n                raise KeyError(\n                    \"The generated ket does not belong the left_bases.\"\n                )\n    return result\n\n\n# The core function for calculating the matrix representation of a hopping",
  "                result[2, i] = 1 - 2 * (swap % 2)\n            else:\n                raise KeyError(\n                    \"The generated ket does not belong the left_bases.\"\n                )\n    return result\n\n\n# The core function for calculating the matrix representation of a hopping")
r(Q + "matrixrepr.py", """    if special_tag == "hopping":
        core_func = _core_hopping
        args = (term, right_bases, left_bases)
    elif special_tag""", """    if special_tag == "hopping" and len(term) > 2:
        raise AssertionError("unreachable")
    elif special_tag""")
# identities
r(Q + "particlesystem.py", """            otype0 = self._otype
            otype1 = other._otype
            state0 = self._state
            state1 = other._state
            if otype0 == CREATION and otype1 == CREATION:
                return state0 < state1
            elif otype0 == CREATION and otype1 == ANNIHILATION:
                return True
            elif otype0 == ANNIHILATION and otype1 == CREATION:
                return False
            else:
                return state0 > state1
""", """            if self._otype != other._otype:
                return self._otype == CREATION
            first, second = self._state, other._state
            if self._otype == ANNIHILATION:
                first, second = second, first
            return first < second
""")
r(Q + "particlesystem.py", """        return self._tuple_form == other._tuple_form
        else:
            return NotImplemented

    def __ne__(self, other):
        \"\"\"
        Implement the `!=` operator between self and other.
        \"\"\"

        if isinstance(other, self.__class__):
            return self._tuple_form != other._tuple_form
        else:
            return NotImplemented

    def __le__(self, other):
        \"\"\"
        Implement the `<=` operator between self and other.

""", None)
r(Q + "particlesystem.py", """        spin = self.spin
        orbit = self.orbit
        site = self.coordinate
        c = AoC(CREATION, site=site, spin=spin, orbit=orbit)
        a = AoC(ANNIHILATION, site=site, spin=spin, orbit=orbit)
        return ParticleTerm((c, a), coeff=1.0)
""", """        pair = [
            AoC(otype, self.coordinate, self.spin, self.orbit)
            for otype in (CREATION, ANNIHILATION)
        ]
        return ParticleTerm(pair)
""")
r(Q + "particlesystem.py", """        aocs = list(aocs)
        length = len(aocs)
        swap_count = 0

        for remaining_length in range(length, 1, -1):
            for i in range(0, remaining_length - 1):
                aoc0, aoc1 = aocs[i:i+2]
                id0 = aoc0.state
                id1 = aoc1.state
                if aoc0 > aoc1:
                    if id0 != id1:
                        aocs[i] = aoc1
                        aocs[i + 1] = aoc0
                        swap_count += 1
                    else:
                        raise SwapFermionError(aoc0, aoc1)
        return aocs, swap_count
""", """        res = []
        swap_count = 0
        for aoc in aocs:
            pos = len(res)
            while pos > 0 and res[pos - 1] > aoc:
                if res[pos - 1].state == aoc.state:
                    raise SwapFermionError(res[pos - 1], aoc)
                pos -= 1
                swap_count += 1
            res.insert(pos, aoc)
        return res, swap_count
""")
r(Q + "particlesystem.py", """        aocs = [aoc.dagger() for aoc in self._aocs[::-1]]
        return self.__class__(aocs=aocs, coeff=self._coeff.conjugate())
""", """        coeff = self._coeff
        if isinstance(coeff, complex):
            coeff = coeff.conjugate()
        else:
            coeff = coeff.conjugate()
        return self.__class__(
            tuple(aoc.dagger() for aoc in reversed(self._aocs)), coeff=coeff
        )
""")
r(Q + "particlesystem.py", "        if coeff is not None:\n            self.coeff = coeff\n\n        term = [\n            (aoc.getStateIndex(state_indices_table), aoc.otype)\n            for aoc in self._aocs\n        ]\n",
  "        if coeff is not None:\n            self.coeff = coeff\n        term = list()\n        for aoc in self._aocs:\n            term.append((state_indices_table(aoc.state), aoc.otype))\n")
r(Q + "quantumstate.py", """        site = tuple(site)
        assert len(site) in (1, 2, 3)
        assert all(isinstance(coord, NUMERIC_TYPES_REAL) for coord in site)
""", """        site = tuple([coord for coord in site])
        assert 1 <= len(site) <= 3
        for coord in site:
            assert isinstance(coord, NUMERIC_TYPES_REAL)
""")
r(Q + "spinsystem.py", "        if len(operators) == 2 and operators[0][0] > operators[1][0]:\n", "        if len(operators) == 2 and operators[0][0] > operators[1][0] + 100:\n")
r(Q + "spinsystem.py", """        index, otype = operator
        I = identity(1 << index, dtype=np.float64, format="csr")
        res = kron(SPIN_MATRICES[otype], I, format="csr")
        I = identity(1 << (total_spin-index-1), dtype=np.float64, format="csr")
        return kron(I, res, format="csr")
""", """        res = identity(1, dtype=np.float64, format="csr")
        for i in range(total_spin):
            if i == operator[0]:
                res = kron(SPIN_MATRICES[operator[1]], res, format="csr")
            else:
                res = kron(identity(2, np.float64, "csr"), res, format="csr")
        return res
""")
r(Q + "spinsystem.py", """        terms = []
        for term in product(*fermion_reprs):
            res_term = self._coeff
            for sub_term in term:
                res_term = res_term * sub_term
            terms.append(res_term)
        return terms
""", """        def multiply(sub_terms):
            res_term = self._coeff
            for sub_term in sub_terms:
                res_term = res_term * sub_term
            return res_term

        return [multiply(sub_terms) for sub_terms in product(*fermion_reprs)]
""")
r(Q + "factory.py", """        SpinInteraction((sz0, sz1), coeff=coeff),
        SpinInteraction((sp0, sm1), coeff=coeff/2),
        SpinInteraction((sm0, sp1), coeff=coeff/2),
""", """        SpinInteraction([sz0, sz1], coeff=coeff),
        SpinInteraction([sp0, sm1], coeff=0.5 * coeff),
        SpinInteraction([sm0, sp1], coeff=0.5 * coeff),
""")
r(B + "averages.py", """        total_s2_avg = np.vdot(total_sy_imag_dot_ket, total_sy_imag_dot_ket)
        del total_sy_imag_dot_ket
        total_s2_avg += np.vdot(total_sx_dot_ket, total_sx_dot_ket)
        del total_sx_dot_ket
        total_s2_avg += np.vdot(total_sz_dot_ket, total_sz_dot_ket)
        del total_sz_dot_ket
""", """        total_s2_avg = sum(
            np.vdot(vector, vector) for vector in (
                total_sx_dot_ket, total_sz_dot_ket, total_sy_imag_dot_ket
            )
        )
""")
r(B + "averages.py", "    ket = ket / np.linalg.norm(ket)\n    return np.vdot(ket, operator.dot(ket))\n",
  "    norm = np.linalg.norm(ket)\n    ket = (1.0 / norm) * ket if 1e-200 < norm < 1e200 else ket / norm\n    return np.vdot(ket, operator.dot(ket))\n")
r(B + "tools/TotalSpin.py", """    total_sx = total_sy_imag = total_sz = 0.0
    for index in range(spin_num):
""", """    total_sx = total_sy_imag = total_sz = 0.0
    for index in reversed(range(spin_num)):
""")
r(B + "bond.py", "        length = np.linalg.norm(self._p0 - self._p1)\n", "        length = np.sqrt(np.sum(np.square((self._p1 - self._p0).astype(float))))\n")
r(B + "bond.py", "                alpha = np.arctan2(np.sqrt(x**2+y**2), z)\n", "                alpha = np.arctan2(np.hypot(x, y), z)\n")
r(B + "bond.py", """        if not directional:
            identity.sort()
        identity.append(directional)
        self._tuple_form = tuple(identity)
""", """        ends = identity if directional else sorted(identity)
        self._tuple_form = (ends[0], ends[1], directional)
""")
r(B + "indextable.py", "        object2index = OrderedDict()\n        index2object = OrderedDict()\n", "        object2index, index2object = dict(), dict()\n")
r(B + "hilbertspace.py", "        kets = [sum(1<<pos for pos in basis) for basis in basis_generator]\n        if sort:\n            kets.sort()\n",
  "        kets = []\n        for basis in basis_generator:\n            ket = 0\n            for pos in basis:\n                ket |= 1 << pos\n            kets.append(ket)\n        if sort:\n            kets = sorted(kets)\n")
r(B + "hilbertspace.py", """    subspace_specifiers = [
        subspace_specifier_preprocess(specifier)
        for specifier in subspace_specifiers
    ]

    # All the subspaces should be disjoint to each other
    if not all(
        set(s0[0]).isdisjoint(set(s1[0]))
        for s0, s1 in combinations(subspace_specifiers, 2)
    ):
        raise ValueError("All subspaces should be disjoint to each other!")

    subspace_basis_generators = [
        chain(*[combinations(states, i) for i in range(len(states) + 1)])
        if particle_number < 0 else combinations(states, particle_number)
        for states, particle_number in subspace_specifiers
    ]

    kets = [
        sum(1 << pos for pos in chain(*basis))
        for basis in product(*subspace_basis_generators)
    ]

    if sort:
        kets.sort()

    if container == "array":
        kets = np.array(kets, dtype=np.uint64)
    elif container == "tuple":
        kets = tuple(kets)
    return kets
""", """    space = HilbertSpace(*subspace_specifiers)
    return space.base_vectors(container=container, sort=sort)
""")
r(B + "lattice/lattice.py", "        dist, index = cKDTree(self._points).query(site)\n        if dist < _VIEW_AS_ZERO:\n            return index\n",
  "        dists = np.linalg.norm(self._points - site, axis=-1)\n        index = int(np.argmin(dists))\n        if dists[index] < _VIEW_AS_ZERO:\n            return index\n")
r(B + "lattice/lattice.py", """        all_displaces = site - self._points
        dRsDataBase = self._dRsDataBase
        res = self._searching(dRsDataBase, all_displaces)
        if res is not None:
            return res

        scope""", """        all_displaces = np.array([site - point for point in self._points])
        scope""")
r(B + "lattice/lattice.py", "        radius = np.min(np.linalg.norm(self._vectors, axis=-1))\n", "        radius = 1.5 * np.min(np.linalg.norm(self._vectors, axis=-1))\n")
r(B + "lattice/lattice.py", "        scope = self._guess_scope(judge)\n        sites = self._sites_factory(scope=scope, no_inversion=True)\n", "        scope = self._guess_scope(judge) + 1\n        sites = self._sites_factory(scope=scope, no_inversion=True)\n")
r(B + "lattice/lattice.py", "        for index0, index1 in pairs:\n", "        for index0, index1 in sorted(pairs, reverse=True):\n")
r(B + "lattice/lattice.py", """        self._bs = 2 * np.pi * np.linalg.solve(
            np.matmul(vectors, vectors.T), vectors
        )
""", """        self._bs = 2 * np.pi * np.linalg.pinv(vectors).T
""")
r(B + "lattice/lattice.py", """    kpoints = [
        np.linspace(0, 1, num=num, endpoint=False)[:, np.newaxis] * dR + start
        for num, dR, start in zip(sampling_nums, dRs, points)
    ]
""", """    kpoints = [
        np.array([start + dR * (i / num) for i in range(num)])
        for num, dR, start in zip(sampling_nums, dRs, points)
    ]
""")
r(B + "lanczos.py", "    v0_norm = np.linalg.norm(v0)\n", "    v0_norm = np.sqrt(np.vdot(v0, v0).real)\n")
r(B + "lanczos.py", "        M_dot_ket -= A * ket\n        M_dot_ket -= B * ket_old\n", "        M_dot_ket = M_dot_ket - (A * ket + B * ket_old)\n")
r(B + "lanczos.py", "    projected_matrix = np.diag(As, k=0) + np.diag(Bs, k=-1) + np.diag(Bs, k=1)\n",
  "    projected_matrix = np.diag(np.array(As, dtype=np.float64))\n    for ith, B in enumerate(Bs):\n        projected_matrix[ith, ith + 1] = projected_matrix[ith + 1, ith] = B\n")
r(B + "GreenFunction/_GFSolver.py", """        for BIndex, B in enumerate(Bs):
            ket = np.linalg.solve(M, excited_states[B])
            for AIndex, A in enumerate(As):
                GFs_Array[AIndex, BIndex, ZIndex] = np.vdot(
                    excited_states[A.dagger()], ket
                )
""", """        kets = np.linalg.solve(M, np.array([excited_states[B] for B in Bs]).T)
        for AIndex, A in enumerate(As):
            bra = np.conj(excited_states[A.dagger()])
            GFs_Array[AIndex, :, ZIndex] = bra @ kets
""")
r(B + "GreenFunction/_GFSolver.py", """    M = (z - GE) * I + HM if sign == "+" else (z + GE) * I - HM
    return np.vdot(A_dagger_dot_GS, np.linalg.solve(M, B_dot_GS))
""", """    values, states = np.linalg.eigh(HM)
    poles = (z - GE) + values if sign == "+" else (z + GE) - values
    return np.sum(
        np.conj(states.conj().T @ A_dagger_dot_GS) *
        (states.conj().T @ B_dot_GS) / poles
    )
""")
r(B + "line2d.py", "            y_on = (dy / dx) * (x - x0) + y0\n            if np.abs(y - y_on) <= tol:\n", "            y_on = y0 + dy * (x - x0) / dx\n            if -tol <= y - y_on <= tol:\n")
r(B + "line2d.py", "        return self._p0 + ratios[:, np.newaxis] * self._dr\n", "        return np.outer(ratios, self._dr) + self._p0\n")
r(B + "line2d.py", "                y = (dy / dx) * (known - x0) + y0\n", "                y = y0 + (known - x0) * dy / dx\n")
r(B + "polygon.py", "        distances = np.linalg.norm(self._vertices - np.array(point), axis=-1)\n        if np.any(distances <= tol):\n            return Location.CORNER\n",
  "        for vertex in self._vertices:\n            if np.hypot(*(vertex - np.array(point))) <= tol:\n                return Location.CORNER\n")
r(B + "rotation3d.py", "    R = np.linalg.multi_dot([RzAlpha, RyBeta, RzTheta, RyBeta.T, RzAlpha.T])\n",
  "    nx, ny, nz = sin_beta * cos_alpha, sin_beta * sin_alpha, cos_beta\n    n = np.array([nx, ny, nz])\n"
  "    K = np.array([[0.0, -nz, ny], [nz, 0.0, -nx], [-ny, nx, 0.0]])\n"
  "    R = cos_theta * np.eye(3) + sin_theta * K + (1 - cos_theta) * np.outer(n, n)\n")
r(B + "rotation3d.py", "    R = np.linalg.multi_dot([RzAlpha, RyBeta, RzGamma])\n", "    R = RzAlpha @ RyBeta @ RzGamma\n")
r(B + "tools/PandC.py", "        return factorial(n) // factorial(n - k)\n", "        res = 1\n        for i in range(n - k + 1, n + 1):\n            res *= i\n        return res\n")
r(B + "tools/PandC.py", "        return factorial(n) // (factorial(k) * factorial(n - k))\n", "        res = 1\n        for i in range(min(k, n - k)):\n            res = res * (n - i) // (i + 1)\n        return res\n")
r(B + "tools/colorprint.py", "    ctrl_seq = fg_ctrl_seq + bg_ctrl_seq + bold_ctrl_seq\n    return ctrl_seq + string + RESET\n", "    return \"\".join([fg_ctrl_seq, bg_ctrl_seq, bold_ctrl_seq, string, RESET])\n")
r(B + "tools/colorprint.py", "            r = int(color[1:3], base=16)\n            g = int(color[3:5], base=16)\n            b = int(color[5:7], base=16)\n", "            r, g, b = bytes.fromhex(color[1:])\n")
r(B + "tools/runtimeenv.py", "            try:\n                return open(self._path / file_name, 'x', buffering=1)\n            except FileExistsError:\n                pass\n",
  "            file = self._path / file_name\n            if file.exists():\n                continue\n            try:\n                return file.open('x', buffering=1)\n            except FileExistsError:\n                continue\n")


def main():
    jobs, ids = 3, []
    a = sys.argv[1:]
    while a:
        x = a.pop(0)
        if x == "-j":
            jobs = int(a.pop(0))
        else:
            ids.append(x)
    ids = ids or ["C%02d" % i for i in range(1, 34)]
    D = "/tmp/refac"
    shutil.rmtree(D, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", D])
    for f, old, new in R:
        if new is None:
            continue
        p = os.path.join(D, f)
        t = open(p).read()
        if old not in t:
            print("NOT FOUND", f, old[:70].replace("\n", "|"))
            continue
        open(p, "w").write(t.replace(old, new))
    env = dict(os.environ, HPY_REPO=D, VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
    out = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", D + "/HamiltonianPy/tests"], cwd=D,
                         env=dict(env, PYTHONPATH=D), capture_output=True, text=True)
    print(out.stdout.strip().splitlines()[-1])

    def one(c):
        o = subprocess.run(["/opt/venv/bin/python", "harness/check.py", c], cwd=HERE, env=env, capture_output=True, text=True)
        return c, o.returncode, [l for l in o.stdout.splitlines() if "VIOLATION" in l or "REJECT" in l][:6] + o.stderr.splitlines()[-2:]
    with ThreadPoolExecutor(jobs) as ex:
        for c, rc, l in ex.map(one, ids):
            print(c, rc, *([""] + l if rc else []), sep="\n    " if rc else " ", flush=True)
    shutil.rmtree(D, ignore_errors=True)


main()
