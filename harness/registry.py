"""Which specification, driver and exhaustive runs decide each property."""
FLOAT = ("coefficients are Gaussian dyadic numbers (exact in floating point); results are compared exactly "
         "after rounding to multiples of 2^-20")
REG = {}


def reg(pid, driver, design=(), min_events=1, assumptions=(), ignore=()):
    REG[pid] = {"driver": driver, "design": list(design), "min_events": min_events,
                "assumptions": list(assumptions), "ignore": set(ignore)}


def D(module, cfg=None, thorough=None, workers=2, min_states=1, min_gen=0, **kw):
    d = {"module": module, "cfg": cfg or module, "workers": workers, "min_states": min_states, "min_gen": min_gen}
    if thorough:
        d["cfg_thorough"] = thorough
    d.update(kw)
    return d


reg("C01", "d_terms", [D("MCFock", min_states=10000, workers=4),
                       D("MCFock", "MCFockGen", min_gen=200, workers=1)], 1000,
    [FLOAT, "left bases are ascending, as documented; at most 64 single-particle states"])
reg("C02", "d_terms", [D("MCFock", min_states=10000, workers=4)], 500,
    [FLOAT, "terms whose declared class is incompatible with their operators are documented as undefined"])
reg("C03", "d_terms", [D("MCTerms", min_states=1500, min_gen=1400, workers=1)], 1000, [FLOAT])
reg("C04", "d_terms", [D("MCNormal", "MCNormal", min_states=700, min_gen=300, workers=1),
                       D("MCNormal", "MCNormal_t", min_states=4000, workers=3)], 500, [])
reg("C05", "d_basic", [D("MCHilbert", min_states=6000, min_gen=600, workers=1)], 500,
    ["subspaces of at most 64 states (bases are 64-bit integers)"])
reg("C06", "d_basic", [D("MCIdent", min_states=100000, min_gen=5000, workers=4)], 1000,
    ["coordinates are multiples of 1e-6 written as decimals, so truncation is that of the decimal value"])
reg("C07", "d_basic", [D("MCTable", min_states=400, min_gen=400, workers=1)], 1000,
    ["tables are non-empty; an object of a subtype counts as an object of the type"])
reg("C18", "d_basic", [D("MCBond", min_states=2000, min_gen=2000, workers=1)], 1000,
    ["angles are compared within 2e-6 through their sine and cosine; zero-length bonds have no azimuth"])
SPIN = [D("MCSpin", min_states=1111, min_gen=1111, workers=1), D("MCSpin", "MCSpin3", min_states=241, workers=2)]
reg("C08", "d_spin", SPIN, 800, [FLOAT, "site tables number the sites from 0; at most 7 spins"])
reg("C09", "d_spin", SPIN, 500, [FLOAT, "the two states of a site are numbered consecutively, which fixes the sign gauge",
                                 "interactions have at least one factor"])
reg("C10", "d_spin", SPIN, 1000, [FLOAT])
reg("C11", "d_spin", SPIN, 200, [FLOAT, "kets are Gaussian-integer vectors times any non-zero number"])
LAT = [D("MCLattice", "MCLattice", "MCLattice_t", min_states=400, workers=4),
       D("MCLattice", "MCLatticeGen", "MCLatticeGen_t", min_states=400, min_gen=400, workers=1)]
GEO = ("cluster points and vectors lie on an integer frame (square, hexagonal, cubic, hexagonal prism), rotated, scaled and "
       "shifted at will, so that distinct distances differ by more than the precision")
reg("C12", "d_lattice", LAT, 1500, [GEO, "cluster points are pairwise inequivalent under the translations"],
    ignore=["TLattice.Bonds", "TLattice.ND"])
reg("C13", "d_lattice", LAT, 500, [GEO], ignore=["TLattice.Bonds", "TLattice.Decomp"])
reg("C14", "d_lattice", LAT, 500, [GEO], ignore=["TLattice.ND"])
reg("C15", "d_lattice", LAT, 100, ["special clusters may be shifted as a whole against the parent cell"])
reg("C16", "d_recip", [D("MCRecip", min_states=5, workers=2),
                       D("MCLattice", "MCLatticeGen", "MCLatticeGen_t", min_states=400, min_gen=400, workers=1)], 500,
    [GEO, "dual products are compared within 1e-6 of 2 pi"])
reg("C17", "d_recip", [D("MCKPath", min_states=500, min_gen=500, workers=1)], 700,
    ["anchors are integer vectors; sampled points are compared within 1e-4; counts are compared exactly"])
reg("C19", "d_green", [D("MCKrylov", min_states=1700, min_gen=500, workers=2),
                       D("MCKrylov", "MCKrylov3", min_states=6900, min_gen=1700, workers=2),
                       D("MCPath", "MCPath", "MCPath_t", min_states=1000, workers=2)], 500,
    ["general matrices and vectors have Gaussian-integer entries times a scale, with Krylov steps not shorter than 0.1, "
     "so that the numerical rank is the exact one; paths (chains of basis states) go up to dimension 230, couplings from 3e-4"])
GREEN = [D("MCGreen", min_states=5800, min_gen=2900, workers=2)]
GRA = ["Hamiltonians of dimension 1-4 with Gaussian-integer entries and rational frequencies; values are compared "
       "with the exact fraction to 3-5 decimals"]
reg("C20", "d_green", GREEN, 400, GRA)
reg("C21", "d_green", GREEN, 400, GRA)
reg("C22", "d_geom", [D("MCRot", min_states=1200, min_gen=1200, workers=2)], 2000,
    ["angles are multiples of 15 degrees or angles of Pythagorean triangles; matrices are compared within 8e-4 in general "
     "and to 5e-8 where the exact entries are rational or square roots of quarters"])
reg("C23", "d_geom", [D("MCLine", min_states=10000, min_gen=600, workers=2)], 2000,
    ["points are integer points scaled (also differently along x and y, slopes from 1e-10 to 1e9) and shifted"])
reg("C24", "d_geom", [D("MCPoly", min_states=4000, min_gen=1900, workers=2), D("MCPoly", "MCPoly_t", min_states=1300, workers=2)], 4000,
    ["vertices are affine images of integer points; edges are not so steep that the slope magnifies rounding errors beyond the tolerance"])
reg("C25", "d_tools", [D("MCCount", min_states=700, min_gen=700, workers=2)], 2000,
    ["n up to 160 with every k, up to 2000 with k up to 40"])
reg("C26", "d_tools", [D("MCEnv", "MCEnv", "MCEnv_t", min_states=20000, min_gen=17000, workers=2)], 5000,
    ["the limit set by a default environment is the number of threads when created, when entered, or the maximum",
     "runs in a scratch directory; environments are left in the order of the with statement"])
reg("C27", "d_tools", [D("MCColor", min_states=7900, min_gen=1800, workers=2)], 4000,
    ["a code in the 24-bit scheme or a triple in the others has no documented meaning and is not judged"])
reg("C28", "d_iso", [D("MCIso", "MCIso", "MCIso_t", min_states=12000, min_gen=3000, workers=2)], 5000,
    ["answers are compared to 7 decimals; giving matrix_repr a coefficient is the documented way to change a term and is not used",
     "module-level constants are not objects of the property"])
reg("C29", "d_text", [D("MCText", min_states=4900, min_gen=4800, workers=2), D("MCText", "MCText_t", min_states=200000, workers=2)], 5000,
    ["coordinates are multiples of 1e-6 that are no halves at the shown precision", "coefficients are multiples of 1/4"])
reg("C30", "d_model", [D("MCModel", min_states=3800, min_gen=228, workers=3)], 200,
    ["couplings (complex, bond-oriented, multi-orbital) in multiples of 1/16, exact in floating point", "clusters of up to 6 sites; spinful models in full spaces of up to 64 states",
     "no two sites of a cluster are equivalent under the translations"])
reg("C33", "d_response", [D("MCResponse", min_states=595, min_gen=500, workers=3)], 120,
    ["frequencies and couplings are multiples of 1/16, broadenings at least 1/4; values are compared to about 3e-4",
     "Krylov steps stay away from the library's zero threshold; dense solvers are used otherwise"])
reg("C31", "d_figure", [D("MCFigure", min_states=170, min_gen=70, workers=2)], 300,
    ["figures are read from matplotlib's figure objects when shown or saved; rendering itself is not judged",
     "runs in a scratch directory; image files are created empty", "2D patches with links have at least two sites"])
reg("C32", "d_config", [D("MCConfig", min_states=343, min_gen=340, workers=2)], 1500,
    ["every session runs in a fresh process and settings precede use, as documented",
     "lengths are clearly (30% or more) below or above the configured value; coordinates are multiples of 1e-6",
     "nearly dependent translation vectors are not judged"])
