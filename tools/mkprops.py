#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (maintenance helper; no check uses it)."""
import json, os
P = []
Q = "HamiltonianPy/quantumoperator/"
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe), "hook_needed": None}})

p("C01", "Fermion operator matrices realise the canonical anticommutation algebra",
  "For every product of creation and annihilation operators, every numbering of the single-particle states and every pair of ascending occupation bases, the matrix produced is exactly the one obtained by applying the operators right to left to each ket, with Pauli blocking and one sign per occupied lower-numbered state passed. The shape is (left dimension, right dimension), nothing is stored for vanishing elements, the sparse and the tuple output describe the same matrix, and a result that leaves the left space raises KeyError.",
  ["inputs", "configurations"], "all operator strings (any length, repeated states), state numberings up to bit 62, right/left bases with different particle sectors, coefficients int/float/complex/numpy, csr or tuple output",
  "The unit tests compare a few fixed terms on small complete bases; the sign, blocking and sector logic has to hold for every operator string, ket and pair of sectors, and mistakes that only show for high bit positions, repeated states or different left/right bases are not reached.",
  [Q+"matrixrepr.py", Q+"particlesystem.py"],
  [("bit loop counting occupied lower states, searchsorted into the left bases", Q+"matrixrepr.py: _core_general, _core_hopping, _core_particle_number, _core_coulomb, matrix_function"), ("state index lookup", Q+"particlesystem.py: matrix_repr methods")],
  [("ket", "set of occupied state numbers, encoded as an integer", Q+"matrixrepr.py"), ("swap", "parity of the sign", Q+"matrixrepr.py")],
  ["return value of matrix_repr / matrix_function"])
p("C02", "Term factories and specialised term kinds denote their defining formula",
  "Every factory (creator, annihilator, chemical potential, hopping, pairing, Hubbard, Coulomb) yields a term whose operators, coefficient and matrix in any basis are those of its defining formula, including defaulted spin and orbit arguments and coinciding end points. Declaring a compatible specialised kind (hopping, number, Coulomb) never changes a term's matrix compared with the general kind, and the compatibility query answers true exactly for terms of the declared shape.",
  ["inputs", "configurations"], "all factories x all argument combinations (defaults, equal or different sites/spins/orbits, pairing direction, coefficient types) x bases",
  "Tests check one instance per factory; the fast paths are separate code from the general one and agree only if every state order, coincidence of states, basis and coefficient is treated alike.",
  [Q+"factory.py", Q+"particlesystem.py", Q+"matrixrepr.py"],
  [("factories choose operators and a classification tag", Q+"factory.py"), ("tag selects the kernel", Q+"matrixrepr.py: matrix_function"), ("shape test", Q+"particlesystem.py: ParticleTerm.check_compatibility")],
  (), ["components, coeff, classification, check_compatibility, matrix_repr"])
p("C03", "Products, scalings and adjoints of fermion terms follow operator algebra",
  "Multiplying operators, number operators, terms and numbers in any order concatenates the operator strings in that order and multiplies the coefficients, the adjoint reverses the string, conjugates every operator and the coefficient, and none of this alters the operands. Replacing a term's coefficient, directly or while asking for its matrix, replaces it and nothing else, and matrices always use the coefficient then in force; operands of unsupported type raise TypeError.",
  ["programs", "histories", "inputs"], "all finite programs over constructors, *, dagger, derive, coefficient assignment and matrix requests on shared objects",
  "The tests evaluate single products; the guarantee is about arbitrary chains on shared, reused objects, where a dropped factor, a stale coefficient or a mutated operand only shows several operations later.",
  [Q+"particlesystem.py"],
  [("__mul__/__rmul__/dagger/derive build new instances", Q+"particlesystem.py: AoC, NumberOperator, ParticleTerm"), ("coefficient setter and override", Q+"particlesystem.py: ParticleTerm.coeff, matrix_repr")],
  [("term", "operator string and coefficient", Q+"particlesystem.py: ParticleTerm")], ["components, coeff, matrix_repr after every step"])
p("C04", "Normal ordering preserves the operator up to the reported swap parity",
  "Normal ordering returns the same operators with every creation operator left of every annihilation operator, creations ascending and annihilations descending by state, and a swap count whose parity makes the reordered product times (-1)^count equal to the original operator. It fails, naming the offending operators, exactly when some annihilation operator stands left of a creation operator of the same state; the input is left unchanged.",
  ["inputs"], "all operator strings, including repeated operators and strings whose failure only appears after several swaps",
  "Three fixed strings are tested; sign parity and the exact failure condition depend on the whole permutation.",
  [Q+"particlesystem.py"], [("bubble sort with swap counter", Q+"particlesystem.py: ParticleTerm.normalize"), ("operator order", Q+"particlesystem.py: AoC.__lt__, __gt__")],
  (), ["returned list, count, SwapFermionError"])
p("C05", "Occupation bases enumerate exactly the requested sector",
  "For every list of disjoint subspace specifiers, the base vectors are exactly the integers whose set bits meet each subspace's state set in the prescribed number (any number if negative) and nothing elsewhere, each exactly once, ascending when sorted, in the requested container. All construction routes agree with each other, and overlapping or malformed specifiers raise ValueError.",
  ["inputs", "configurations"], "all combinations of specifier forms (N, (N,M), (states,M), lists, tuples, sets), orders of states, containers and sort flags, and invalid specifiers",
  "Tests compare a few small examples; completeness, uniqueness and disjointness must hold for every composition of subspaces, including unordered state lists and high state numbers.",
  ["HamiltonianPy/hilbertspace.py"], [("products of combinations", "HamiltonianPy/hilbertspace.py: base_vectors, HilbertSpace, SimpleHilbertSpace"), ("validation", "HamiltonianPy/hilbertspace.py: is_valid_subspace_specifier, subspace_specifier_preprocess")],
  (), ["returned bases, attributes, exceptions"])
p("C06", "Identifiers compare, order and hash by value at the configured precision",
  "Two site, state, ladder-operator, number-operator or spin-operator identifiers are equal exactly when all their quantum numbers are equal and their coordinates agree after truncation to the configured number of decimals; equal ones hash equally, and the order is total, lexicographic, and for ladder operators puts creations (ascending) before annihilations (descending). Changing the precision affects only identifiers created afterwards, and comparison with a different kind of object is unequal or unsupported.",
  ["inputs", "histories"], "all coordinates (ints, floats, numpy scalars; exact decimals and values that differ by rounding noise), spins, orbits, precisions and creation histories",
  "Tests compare three sites; a total order and equality up to decimals have to hold for all pairs, including coordinates reached by arithmetic whose binary value lies just below the decimal.",
  [Q+"quantumstate.py", Q+"particlesystem.py", Q+"spinsystem.py"],
  [("scaled integer tuple form", Q+"quantumstate.py: SiteID.__init__"), ("rich comparisons", Q+"quantumstate.py, particlesystem.py, spinsystem.py")],
  [("_ZOOM", "configured precision", Q+"quantumstate.py")], ["==, !=, <, <=, >, >=, hash, sorted, set membership"])
p("C07", "Index tables are bijections onto a contiguous integer range",
  "A table built from n distinct objects of one type (subtypes included) numbers them start, start+1, ..., start+n-1 in the order given; lookups in both directions are mutually inverse, and length, iteration and views agree with them. Duplicates raise ValueError, objects of another type raise TypeError, unknown keys or indices raise KeyError, and queries of the wrong type raise TypeError.",
  ["inputs", "histories"], "all finite object sequences, start values, object types with value equality (including identifiers equal up to precision), interleaved queries",
  "Tests use one table of three objects; the bijection has to hold for every sequence, start and for objects whose equality is by value.",
  ["HamiltonianPy/indextable.py"], [("two ordered dictionaries", "HamiltonianPy/indextable.py: IndexTable")], (), ["query_index, query_object, len, iteration, indices, objects"])
p("C08", "Spin operator matrices are the tensor-product representation of spin-1/2",
  "For every number of spins, every site numbering and every product of x, y, z, +, - operators with any coefficient, the matrix equals the coefficient times the ordered product of single-site spin-1/2 matrices acting on the bit of their site (bit 0 is spin up), so operators on different sites commute and on the same site obey the su(2) relations in the order given.",
  ["inputs", "configurations"], "all operator sequences (0 to many factors, repeated and unordered sites), spin counts, numberings, coefficients",
  "Tests compare fixed two-site products; the two-factor fast path and the general path must agree for every pair of positions, same-site order and coefficient.",
  [Q+"spinsystem.py", Q+"constant.py"], [("kron assembly, two-operator fast path", Q+"spinsystem.py: SpinOperator.matrix_function, SpinInteraction.matrix_function"), ("spin matrices", Q+"constant.py")],
  (), ["matrix, matrix_repr, matrix_function"])
p("C09", "The Schwinger fermion form has the spin operator's matrix elements",
  "On the space with exactly one fermion per site, the sum of the fermion terms returned for a spin operator or a product of spin operators with any coefficient has exactly the matrix elements of that spin operator, spin up and down states standing for the two spin projections. Each returned term uses only the spin-up and spin-down states of the sites involved.",
  ["inputs"], "all spin operator products (same or different sites), coefficients and site numberings",
  "Tests compare individual operators; faithfulness for products, including same-site products, needs all sequences.",
  [Q+"spinsystem.py"], [("expansion over matrix entries and product of expansions", Q+"spinsystem.py: SpinOperator.Schwinger, SpinInteraction.Schwinger")], (), ["sum of matrix_repr of returned terms"])
p("C10", "Spin interaction algebra and factories follow their formula",
  "Products of spin operators, interactions and numbers keep, for each site, the order of that site's factors and multiply coefficients; adjoints have the conjugate-transposed matrix; Heisenberg terms sum to J S_i.S_j, Ising and two-spin terms are J S_i^a S_j^b. Operands are never altered, coefficients can be replaced, and unsupported operands raise TypeError.",
  ["programs", "inputs", "histories"], "all finite programs of *, dagger, derive, coefficient assignment, factories and matrix requests on shared objects",
  "Tests check single products; order of same-site factors after sorting by site, chains of adjoints and coefficient overrides need arbitrary programs.",
  [Q+"spinsystem.py", Q+"factory.py"], [("stable sort by site", Q+"spinsystem.py: SpinInteraction.__init__"), ("factories", Q+"factory.py: HeisenbergFactory, IsingFactory, TwoSpinTermFactory")],
  (), ["components, coeff, matrix_repr"])
p("C11", "Total-spin matrices and averages are the exact quantum expectation values",
  "The total spin matrices equal the sum of the single-site spin matrices for every number of spins, and the averages returned for any non-zero ket of any norm or shape of entries are the exact expectation values of total S^2, S^x, S^y, S^z and of any given operator. The calculators leave the ket unchanged and give the same answer on every call.",
  ["inputs", "histories"], "all spin counts in range, kets with integer or complex entries and arbitrary norm, operators, repeated calls of one calculator",
  "No unit test exists for these functions; expectation values must be right for every ket, not for eigenstates only.",
  ["HamiltonianPy/averages.py", "HamiltonianPy/tools/TotalSpin.py"], [("kron sums, vdot of images", "HamiltonianPy/averages.py: TotalSpinMatrices, TotalSpinAverages, QuantumAverages")], (), ["returned values"])
p("C12", "Every lattice site decomposes into its unique cluster point and translation",
  "For every cluster with independent translation vectors and every site that is a cluster point plus an integer combination of the vectors, decomposition returns that point and that translation; folding, index lookup, site lookup and the membership test agree with it. Sites outside are rejected, and answers do not depend on earlier queries.",
  ["inputs", "histories", "configurations"], "all clusters (1-3 dimensions, skew vectors, fewer translations than dimensions), all sites near and far, all query orders",
  "Tests decompose random sites of a few regular clusters; the search window has to be large enough for every shape of cell and distance.",
  ["HamiltonianPy/lattice/lattice.py"], [("windowed nearest-neighbour search", "HamiltonianPy/lattice/lattice.py: decompose, _guess_scope, _searching"), ("tolerance lookup", "HamiltonianPy/lattice/lattice.py: getIndex")],
  [("_dRsDataBase", "cached translations", "HamiltonianPy/lattice/lattice.py")], ["decompose, getIndex, getSite, in_cluster"])
p("C13", "The nth neighbour distance is that of the infinite lattice",
  "For every cluster, the nth neighbour distance is the nth smallest distinct distance (0 for n=0) between sites of the infinite lattice that the cluster generates, for every n. It does not depend on which cluster represents the lattice or on earlier calls.",
  ["inputs", "histories", "configurations"], "all clusters of the database and general integer lattices, all n, all call orders",
  "Tests check a few n on unit cells; the value depends on translations, which small n on big clusters or large n on small cells do not exercise.",
  ["HamiltonianPy/lattice/lattice.py"], [("cached distance list extended on demand", "HamiltonianPy/lattice/lattice.py: neighbor_distance")],
  [("_all_distances", "cached distances", "HamiltonianPy/lattice/lattice.py")], ["neighbor_distance"])
p("C14", "Bond generation is complete and lists each bond once per translation class",
  "For every cluster and n, the intra and inter bonds together contain every pair of sites at the nth neighbour distance (or at most it, when not restricted) exactly once per translation class, undirected; intra bonds have both ends in the cluster and inter bonds start in it and end outside. Folding replaces only the outer end by its equivalent cluster point, and n=0 gives one on-site bond per point.",
  ["inputs", "histories", "configurations"], "all clusters (including thin clusters that neighbour themselves twice and skew cells), n, only/fold flags, call orders",
  "Tests count bonds on a handful of clusters; completeness and uniqueness per class must hold for every cell shape and n.",
  ["HamiltonianPy/lattice/lattice.py"], [("half set of translations, query_pairs", "HamiltonianPy/lattice/lattice.py: bonds, _sites_factory, _guess_scope")], (), ["bonds"])
p("C15", "Generated clusters tile their parent lattice",
  "Every cluster made by the generator or the special-cluster catalogue, for every size and alias, consists of exactly one representative of each parent-lattice site per translation class, has the advertised number of sites and translation vectors that are parent translations, and invalid names raise KeyError.",
  ["configurations", "inputs"], "all lattice types, sizes and aliases",
  "Tests compare a few clusters with literal arrays; tiling (no gaps, no overlaps) for all sizes is not checked.",
  ["HamiltonianPy/lattice/_lattice_database.py"], [("repeat the unit cell", "HamiltonianPy/lattice/_lattice_database.py: lattice_generator"), ("hand-written coordinates", "HamiltonianPy/lattice/_lattice_database.py")], (), ["points, vectors, point_num, space_dim, trans_dim"])
p("C16", "Reciprocal vectors are dual and high-symmetry points lie where named",
  "For every lattice the reciprocal vectors are dual to the translations (a_i.b_j = 2 pi delta_ij) and lie in their span; for every catalogue lattice the published reciprocal vectors and high-symmetry points are exactly the zone centre, all edge or face centres and all corners of its first Brillouin zone, each listed once.",
  ["configurations", "inputs"], "all lattices with independent vectors; all catalogue constants",
  "Tests compare the duality on a few lattices and no high-symmetry point is checked against the zone it belongs to.",
  ["HamiltonianPy/lattice/lattice.py", "HamiltonianPy/lattice/_lattice_database.py"], [("Gram solve", "HamiltonianPy/lattice/lattice.py: Lattice.__init__"), ("coefficient tables", "HamiltonianPy/lattice/_lattice_database.py")], (), ["bs and module constants"])
p("C17", "K-paths visit the anchors in order with uniform, proportional sampling",
  "For every list of anchor points, the k-path runs linearly through the anchors in order (returning to the first when looping), ends on the last anchor, samples each segment uniformly with floor(min_num * length / shortest length) points, and the returned indices locate exactly the anchors. Coinciding adjacent anchors raise ValueError.",
  ["inputs", "configurations"], "all anchor lists in 2 and 3 dimensions, sampling numbers, loop and index flags",
  "Tests look at one path; counts, order and indices must hold for every path.",
  ["HamiltonianPy/lattice/lattice.py"], [("per-segment linspace and cumulative sums", "HamiltonianPy/lattice/lattice.py: KPath")], (), ["returned kpoints and indices"])
p("C18", "Bonds are values with direction semantics and exact geometry",
  "Directed bonds are equal exactly when start and end agree at the configured precision, undirected ones also when swapped, directed never equals undirected, and equal bonds hash equally. Length, displacement, azimuth, flip and opposite test are those of the vector from start to end (rounded as asked), and direction-dependent queries on undirected bonds raise NotImplementedError.",
  ["inputs", "histories"], "all pairs of end points in 1-3 dimensions, number types, rounding, precisions",
  "Tests use a few bonds; equality up to decimals and angles in every quadrant must hold for all end points.",
  ["HamiltonianPy/bond.py"], [("scaled integer identity tuple", "HamiltonianPy/bond.py: Bond.__init__"), ("geometry", "HamiltonianPy/bond.py: getLength, getDisplace, getAzimuth, flip, oppositeTo")], (), ["==, hash, methods"])
p("C19", "Krylov projection is exact: tridiagonal, right dimension, matching moments",
  "For every Hermitian matrix and non-zero start vector of any norm, the projected matrix is real symmetric tridiagonal of dimension min(limit, Krylov rank), the projected start vector is its norm times the first unit vector, and projected moments reproduce <u|M^k|v> for every k below the dimension and every projected u. When the Krylov space is exhausted the reproduction holds for all k; a zero start vector raises ValueError and inputs are unchanged.",
  ["inputs", "configurations"], "all small Hermitian integer (real or complex) matrices, start vectors, projected vectors, dimension limits, dense or sparse, invariant subspaces",
  "One random test compares a Green function; early termination, complex matrices and the dimension limit are not settled by it.",
  ["HamiltonianPy/lanczos.py"], [("three-term recurrence with break on zero", "HamiltonianPy/lanczos.py: KrylovRepresentation"), ("one run per start vector", "HamiltonianPy/lanczos.py: MultiKrylov")], (), ["returned projections"])
p("C20", "Green-function terms equal the resolvent matrix elements",
  "For every Hamiltonian, ground energy, frequency, broadening, sign and operators, each Green-function term equals the exact resolvent element <A+ state|(z +/- (H-E))^-1|B state>; single and multiple, array and dict, and dense and complete-Krylov variants all agree with it, entry by entry for the requested operators and frequencies.",
  ["inputs", "configurations"], "all small integer Hamiltonians (real or complex), excited-state tables, operator lists, frequencies, signs, output structures",
  "No unit test covers the solvers; which bra, sign, energy shift and index goes where must be right for every combination.",
  ["HamiltonianPy/GreenFunction/_GFSolver.py"], [("linear solves", "HamiltonianPy/GreenFunction/_GFSolver.py: GFSolver*")], (), ["returned values"])
p("C21", "Retarded Green functions combine the two resolvents with the right sign",
  "For every input the retarded Green function equals <A+ state|(z-(H-E))^-1|B state> plus or minus (as requested) <B+ state|(z+(H-E))^-1|A state>, and single, multiple, array, dict, dense and complete-Krylov variants agree with it.",
  ["inputs", "configurations"], "all small integer Hamiltonians, operator lists with different As and Bs, frequencies, signs, structures",
  "No unit test covers them; transposed operator indices or a swapped sign survive any symmetric example.",
  ["HamiltonianPy/GreenFunction/_GFSolver.py"], [("combination of two terms", "HamiltonianPy/GreenFunction/_GFSolver.py: RGFSolver*")], (), ["returned values"])
p("C22", "Rotations are the counterclockwise orthogonal maps they name",
  "Every rotation function and named rotation constant returns the orthogonal matrix of the counterclockwise rotation about the given axis by the given angle (degrees or radians), with determinant +1, or -1 and total sign change when inversion is requested; compositions and inverses follow the rotation group, Euler angles compose as z-y-z, and a zero axis raises ValueError.",
  ["inputs", "programs"], "all axes (Cartesian of any length or spherical), angles, flags, and compositions",
  "Tests compare selected angles; orientation and composition must hold for all axes and angles including degenerate axes.",
  ["HamiltonianPy/rotation3d.py"], [("closed-form matrices", "HamiltonianPy/rotation3d.py")], (), ["returned matrices, constants"])
p("C23", "Lines in the plane classify points and solve coordinates exactly",
  "For every line through two distinct points, a point is reported ON exactly when it is collinear, otherwise above/below (or left/right for vertical lines) as its coordinates say; solving for a coordinate returns the point of the line and is refused exactly when undetermined; generated points are the affine combinations asked for. Identical defining points raise ValueError.",
  ["inputs"], "all pairs of points incl. reversed order, horizontal, vertical and negative slope; all query points",
  "Tests use a few lines; the case analysis must hold for each orientation and order of the defining points.",
  ["HamiltonianPy/line2d.py"], [("slope case analysis", "HamiltonianPy/line2d.py: LocationRelation, Coordinate, PointsFactory")], (), ["returned locations and coordinates"])
p("C24", "Convex polygons classify points as corner, boundary, inside or outside",
  "For every convex polygon given in boundary order (either orientation, any start vertex) and any interior reference point, every point of the plane is classified as corner, boundary, inside or outside exactly as its position says. Duplicate vertices raise ValueError.",
  ["inputs"], "all convex polygons with rational vertices, all query and reference points",
  "There is no test of this module at all.",
  ["HamiltonianPy/polygon.py", "HamiltonianPy/line2d.py"], [("per-edge side comparison with a reference point", "HamiltonianPy/polygon.py: LocationRelation")], (), ["returned location"])
p("C25", "Permutation and combination counts are exact",
  "For all n and k in range, with and without repetition, the returned counts are the exact integers counting ordered and unordered selections, however large; arguments outside the range are refused.",
  ["inputs"], "all n, k, repeat", "There is no test; floating-point evaluation is exact only for small arguments.",
  ["HamiltonianPy/tools/PandC.py"], [("factorial quotients", "HamiltonianPy/tools/PandC.py")], (), ["return values"])
p("C26", "A run-time environment redirects output while active and restores on every exit",
  "While a redirecting environment is active everything printed goes to its own log file and nowhere else; on leaving it, normally or by any exception and at any nesting depth, standard output and the thread setting are as before entry, the log is complete and closed, and the exception propagates.",
  ["histories", "fault_sequences", "programs"], "all nestings and sequences of environments, with and without redirection, with exceptions raised at any point, caught at any level",
  "There is no test; restoration must hold for every nesting and failure point.",
  ["HamiltonianPy/tools/runtimeenv.py"], [("context manager enter/exit", "HamiltonianPy/tools/runtimeenv.py: RunTimeEnv")], [("sys.stdout", "current output", "HamiltonianPy/tools/runtimeenv.py"), ("mkl threads", "thread limit", "HamiltonianPy/tools/runtimeenv.py")], ["sys.stdout, log files, mkl.get_max_threads"])
p("C27", "Coloured text is the exact control sequence around the unchanged text",
  "For every colour specification valid in the chosen scheme, coloured text is the foreground, background and bold control sequences, then the text unchanged, then the reset sequence; names, abbreviations, codes, triples and hex forms of the same colour agree. An unknown scheme, names no scheme knows, codes and components out of range and malformed hex forms raise ValueError.",
  ["inputs", "configurations"], "all colour forms x schemes x bold x text", "There is no test.",
  ["HamiltonianPy/tools/colorprint.py"], [("code tables", "HamiltonianPy/tools/colorprint.py")], (), ["returned and printed strings"])
p("C28", "Objects are isolated from their inputs and outputs",
  "Modifying an array, list, set or dictionary that was passed to a constructor or query, or a value that was returned by one, never changes what any object answers afterwards, and no query changes its arguments.",
  ["histories", "programs"], "all objects with array-like inputs or outputs, all interleavings of queries with modifications of inputs and returned values",
  "Tests never modify inputs or results; aliasing only shows in such histories.",
  ["HamiltonianPy/lattice/lattice.py", "HamiltonianPy/bond.py", Q+"quantumstate.py", Q+"spinsystem.py", Q+"particlesystem.py", "HamiltonianPy/line2d.py", "HamiltonianPy/hilbertspace.py", "HamiltonianPy/indextable.py", "HamiltonianPy/lanczos.py"],
  [("copying in constructors and properties", "all of the files above")], (), ["later answers of the same objects"])
p("C29", "Text forms identify the object and LaTeX forms render it",
  "The official text form of every identifier, operator, bond, line and space, read back as an expression, yields an equal object. LaTeX forms show the site as rounded coordinates, given index or table index, spin as an arrow or number, orbit when asked, a dagger exactly on creation operators, and factors in order (spin factors in site order) after the coefficient. Descriptions of tables, terms, spaces, bonds, lines and lattices list exactly their content.",
  ["inputs", "configurations"], "all objects and formatting options", "Tests compare a few literal strings.",
  [Q+"quantumstate.py", Q+"particlesystem.py", Q+"spinsystem.py", "HamiltonianPy/bond.py", "HamiltonianPy/line2d.py", "HamiltonianPy/hilbertspace.py"],
  [("__repr__, tolatex", "the files above")], (), ["repr, str, tolatex"])
p("C30", "Hamiltonians assembled from lattice, terms and bases are the model's matrix",
  "Assembling a Hubbard, extended Hubbard, pairing, spin-orbit, multi-orbital, spinless or (Dzyaloshinskii-Moriya) Heisenberg model with real or complex couplings from the bonds of a cluster with the term factories, any site numbering and any conserved sector gives exactly the matrix defined by the infinite lattice's bonds with periodic boundary, and is Hermitian after adding adjoints. Changing the numbering only permutes it.",
  ["inputs", "configurations", "programs"], "all small clusters, models, couplings, sectors and numberings",
  "No test runs the components together; sign conventions and bond counting must fit for every cluster.",
  ["HamiltonianPy/lattice/lattice.py", Q+"factory.py", Q+"matrixrepr.py", "HamiltonianPy/hilbertspace.py", "HamiltonianPy/indextable.py"],
  [("composition of bonds, factories, tables, bases and matrix functions", "all packages")], (), ["assembled matrix"])
p("C31", "Figures show exactly what they name",
  "Every picture shows exactly its object: Lattice.show every site of the clusters within the scope once, with name, scope and a square window; ShowFirstBZ the nine labelled reciprocal points and the eight perpendicular bisectors; lines, polygons and queried points their places and equation; the 2D lattice drawer exactly the patch, its nearest-neighbour links, styles and trimming; the zone and octahedron scripts their corners. Saved figures land in exactly the requested file.",
  ["inputs", "configurations", "histories"], "all lattices, scopes, vectors, lines, polygons, patches, styles and save paths",
  "No test draws anything; two of the saving paths were broken.",
  ["HamiltonianPy/lattice/lattice.py", "HamiltonianPy/line2d.py", "HamiltonianPy/polygon.py", "HamiltonianPy/tools/Draw2DLattice.py", "HamiltonianPy/tools/BrillouinZone.py", "HamiltonianPy/tools/Octahedron.py"],
  [("show, ShowFirstBZ, ShowLine, ShowLocationRelation, ShowPolygon", "the files above")], [("figure files", "working directory", "HamiltonianPy/tools/Draw2DLattice.py: show")], ["matplotlib figures, saved files, printed path"])
p("C32", "Precision settings and thresholds act exactly as set, each on its own module",
  "Once set, the number of digits decides which sites, bonds and states are equal and which displaced points and distances a lattice takes as its own, and the thresholds decide which vectors the Krylov and rotation modules treat as zero, each on its own module only; illegal settings are refused and change nothing. Clusters of impossible shape or with points or vectors repeated within the precision raise ValueError.",
  ["inputs", "configurations", "histories"], "all values and orders of settings before use, all displacements around the configured length",
  "Tests run with the default settings only.",
  ["HamiltonianPy/lattice/lattice.py", "HamiltonianPy/bond.py", "HamiltonianPy/lanczos.py", "HamiltonianPy/rotation3d.py", Q+"quantumstate.py"],
  [("set_float_point_precision, set_threshold", "the files above"), ("Lattice.__init__ checks", "HamiltonianPy/lattice/lattice.py")], [("_ZOOM, _VIEW_AS_ZERO", "module settings", "the files above")], ["equality, hashing, membership, raised errors, Krylov dimensions"])
p("C33", "Response functions of assembled models obey the exact identities",
  "For every assembled model and every eigenstate, Green functions computed through the library obey the equation of motion z G(c_a,B) = <{c_a,B}> + G([c_a,H],B). For hopping models, cluster Green functions joined by the inter-cluster bonds and periodised give the infinite lattice's (z - h(k))^-1, whatever the cluster. One flipped spin on the polarised state gives the one-magnon resolvent.",
  ["inputs", "configurations", "programs"], "all small clusters, models, couplings, sectors, frequencies, momenta and solver choices",
  "No test computes a response of a model; demos do, and nobody checks their curves.",
  ["HamiltonianPy/GreenFunction/_GFSolver.py", "HamiltonianPy/lanczos.py", "HamiltonianPy/lattice/lattice.py", Q+"factory.py", Q+"matrixrepr.py"],
  [("composition of bases, matrices, eigenstates, solvers and cluster bonds", "HamiltonianPy/GreenFunction/demo: the same pipeline")], (), ["returned Green functions"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
