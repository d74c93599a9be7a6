"""The list of properties: writes properties.jsonl and MANIFEST.json.  Run after editing:  python3 tools/catalogue.py"""

import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
S = "src/spgrep/"
P = []


def prop(pid, title, statement, over, text, why, mech, observe, note):
    P.append(
        {
            "id": pid,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": sorted({S + m.split(":")[0] for m in mech}),
                "mechanism": [{"name": m.split(":")[1], "where": S + m.split(":")[0]} for m in mech],
                "observe_at": observe,
                "hook_needed": None,
            },
            "_note": note,
        }
    )


SG = "every Hall setting (1-530), every primitive basis and origin, every order of the operations, any choice of coset representatives modulo lattice translations"
MSG = "every magnetic space group (UNI 1-1651), every primitive basis, origin and order of the operations"
KP = "every k-vector: special, on a symmetry line or plane, generic, shifted by reciprocal vectors"
CR = "crystals generated from every Hall setting, described in conventional, primitive and other cells (superlattices included), with arbitrary origin, orientation, atom order and reciprocal basis"

prop(
    "P01", "The little group is exactly the stabiliser of k",
    "For a space group or magnetic space group and a k-vector, the reported little group consists of exactly those operations whose action on k (reversed for anti-unitary operations) returns k up to a reciprocal-lattice vector, within the tolerance given. The reported index list names each such operation once, and rotations, translations and irreps are listed in that order.",
    ["inputs"], f"{SG}; {MSG}; tabulated conventional operations; crystals with and without moments; {KP}; several tolerances.",
    "The tests fix a handful of groups and k-points; membership has to be right for every pair of operation and k, including k shifted by reciprocal vectors and k close to a tolerance.",
    ["group.py:get_little_group", "core.py:get_spacegroup_irreps_from_primitive_symmetry", "core.py:get_spacegroup_spinor_irreps_from_primitive_symmetry", "core.py:get_spacegroup_irreps", "core.py:get_spacegroup_spinor_irreps"],
    ["mapping_little_group returned by the public functions", "get_little_group"],
    "exact stabiliser computed independently from rational k; residuals near the tolerance are not judged",
)
prop(
    "P02", "Small representations multiply as the space group does",
    "Matrices returned for the little group of k satisfy the multiplication law of the space group, where a lattice translation t is represented by exp(-2 pi i k.t) times the unit matrix; they are unitary. Replacing coset representatives by others that differ by lattice translations multiplies the matrices by the corresponding phases.",
    ["inputs"], f"{SG}; {KP}; both methods.",
    "The tests check the law for a few space groups at one or two k-points; the sign convention and the non-symmorphic phases must hold for all groups, k, and representatives outside the unit cell.",
    ["irreps.py:enumerate_small_representations", "core.py:get_spacegroup_irreps_from_primitive_symmetry", "group.py:get_factor_system_from_little_group"],
    ["matrices returned by get_spacegroup_irreps_from_primitive_symmetry and enumerate_small_representations"],
    "law evaluated on every pair of little-group operations with an independently computed multiplication table; entries to 1e-8 times the dimension (1e-7 for k 1e-10 off a special point)",
)
prop(
    "P03", "The small representations form a complete set of inequivalent irreps",
    "The returned family at each k consists of irreducible, pairwise inequivalent representations, and the squares of their dimensions add up to the order of the little co-group.",
    ["inputs"], f"{SG}; {KP}; both methods; crystals in standard and other cells.",
    "Tests compare dimensions for a few cases; a lost, duplicated or reducible member for one group, one setting or one k-point is invisible to them.",
    ["irreps.py:enumerate_small_representations", "irreps.py:enumerate_unitary_irreps_from_solvable_group_chain", "irreps.py:enumerate_unitary_irreps_from_regular_representation"],
    ["get_spacegroup_irreps_from_primitive_symmetry"],
    "first and second orthogonality relation of characters plus the sum of squared dimensions",
)
prop(
    "P04", "Both methods return the same irreps up to equivalence",
    "The families computed by the chain of subgroups ('Neto') and by the random matrix ('random') agree one to one up to unitary equivalence, for linear, projective, real, spinor and co-representations. With a loose rtol, which makes single random matrices fail, they still do when enough random matrices are allowed; when none is, nothing is returned, with a warning.",
    ["inputs"], f"{SG}; {KP}; lattices for spinors; factor systems in random gauges; magnetic groups; point groups in every setting.",
    "The tests run both methods on a few groups and compare counts; agreement has to hold everywhere.",
    ["irreps.py:enumerate_unitary_irreps", "irreps.py:enumerate_unitary_irreps_from_solvable_group_chain", "irreps.py:enumerate_unitary_irreps_from_regular_representation"],
    ["characters of the returned irreps"],
    "differential check between the two algorithms through characters, on top of P02/P03 for both",
)
prop(
    "P05", "Irreps of point groups and of their factor systems are right",
    "For every crystallographic point group in any basis and any normalised factor system on it, the enumerated matrices are unitary, obey the multiplication law with that factor system, are irreducible and pairwise inequivalent, and complete. For the trivial factor system the dimensions are those of the abstract group.",
    ["inputs"], "136 distinct matrix groups from the Hall settings in arbitrary integer bases and orders; factor systems from non-symmorphic translations, spin and random gauges; both methods and both entry points.",
    "Tests list 32 groups in one standard setting with a trivial factor system.",
    ["irreps.py:enumerate_unitary_irreps", "core.py:get_crystallographic_pointgroup_irreps_from_symmetry", "pointgroup.py:get_pointgroup_chain_generators"],
    ["get_crystallographic_pointgroup_irreps_from_symmetry", "enumerate_unitary_irreps"],
    "law, unitarity, orthogonality and completeness with independently built multiplication tables and factor systems",
)
prop(
    "P06", "Irreps computed from a crystal structure hold in the cell it is given in",
    "For a crystal in any cell, the returned operations are those of the input cell in order, the index list selects exactly the little group of k for the true translation lattice, and the matrices obey the multiplication law of those operations, represent every pure translation t (centring included) by exp(-2 pi i k.t), and are irreducible, inequivalent and complete. Atoms displaced by less than symprec do not change this, nor does writing the crystal as nested lists or tuples, and the tolerance on k is the one given.",
    ["inputs"], f"{CR}; {KP}; displaced atoms with matching symprec, several tolerances; arrays, lists, tuples; k given or left out.",
    "Tests use a few textbook structures in standard cells; transformation to the primitive cell and back is only exercised there.",
    ["core.py:get_spacegroup_irreps", "core.py:_get_transformation_matrix_to_primitive", "core.py:_adjust_phase_for_centering_translations", "transform.py:transform_symmetry_and_kpoint", "transform.py:unique_primitive_symmetry"],
    ["all four values returned by get_spacegroup_irreps"],
    "the operations found by spglib are trusted; everything else is recomputed; entries to 1e-7 and the accuracy of the translations",
)
prop(
    "P07", "The description of the crystal does not matter",
    "Two descriptions of the same crystal and k-vector (other cell, superlattice, origin, orientation, atom order, reciprocal basis) give irreps, spinor irreps and (for collinear magnetic crystals) unitary parts of co-representations with the same characters on the operations they share, spin matrices of the two descriptions differing at most by the rotation between them and a sign.",
    ["inputs"], f"pairs of descriptions of {CR}, and of collinear magnetic crystals of every UNI number; {KP}.",
    "No existing test compares two descriptions of one crystal.",
    ["core.py:get_spacegroup_irreps", "transform.py:transform_symmetry_and_kpoint", "core.py:_adjust_phase_for_centering_translations"],
    ["characters of irreps returned for both descriptions"],
    "metamorphic: both answers are compared through the exactly known change of description",
)
prop(
    "P08", "Physically irreducible representations of point groups are right",
    "With real=True the matrices returned for a point group are real, orthogonal, obey the multiplication law, are irreducible over the reals, pairwise inequivalent and complete, and the reported Frobenius-Schur indicators are those of the representations. Realifying an irrep gives the character chi or chi plus its conjugate, whatever unitary basis the irrep is given in.",
    ["inputs"], "all point groups in any basis and order, factor systems of signs, both methods, random unitary bases.",
    "Tests look at one basis per group; degeneracy of intermediate eigenproblems depends on the basis.",
    ["irreps.py:get_physically_irrep", "irreps.py:enumerate_unitary_irreps", "representation.py:frobenius_schur_indicator"],
    ["get_crystallographic_pointgroup_irreps_from_symmetry(real=True)", "get_physically_irrep", "frobenius_schur_indicator"],
    "real commutant dimensions and characters decide irreducibility and type independently",
)
prop(
    "P09", "Physically irreducible small representations are right",
    "With real=True the matrices returned at a k-vector are real and orthogonal and obey the multiplication law, with lattice translations acting as the real form of exp(-2 pi i k.t); they are irreducible over the reals, pairwise inequivalent and complete for k and -k together.",
    ["inputs"], f"{SG}; k equivalent to -k and not; both methods and both entry points.",
    "Tests pin a few groups, and for k not equivalent to -k only the number of representations of one case.",
    ["irreps.py:enumerate_small_representations", "irreps.py:get_physically_irrep", "core.py:get_spacegroup_irreps_from_primitive_symmetry"],
    ["get_spacegroup_irreps_from_primitive_symmetry(real=True)", "enumerate_small_representations(real=True)"],
    "known finding PIR-PAIR: at 2k not equivalent to 0 irreps are left out by a stated rule; any other omission is reported",
)
prop(
    "P10", "The map from rotations to SU(2) is the stated two-to-one cover",
    "For every orthogonal matrix the returned SU(2) matrix covers its proper part with rotation angle in [0, pi], inversion maps to the unit matrix, two-fold axes follow the stated sign choice, and for a group the products differ from the matrix of the product by signs that satisfy the cocycle condition.",
    ["inputs"], "rotations about arbitrary axes and special angles; every point group on arbitrary compatible lattices, orientations and scales (left-handed bases included).",
    "Tests use a few axes and lattices.",
    ["spinor.py:get_spinor_unitary_rotation", "spinor.py:get_rotation_angle_and_axis", "spinor.py:get_spinor_factor_system"],
    ["returned SU(2) matrices, angles, axes and factor systems"],
    "the covering map SU(2) to SO(3) recomputed; angles near but not at 0 or pi excluded",
)
prop(
    "P11", "Spinor irreps of point groups are right",
    "For a point group on any compatible lattice, the returned factor system belongs to the returned SU(2) matrices and is a normalised cocycle of signs, and the returned irreps obey the multiplication law with it, are unitary, irreducible, inequivalent and complete; the SU(2) matrices themselves decompose into them.",
    ["inputs"], "all point groups in any basis and order on arbitrary lattices; both methods.",
    "Tests use a few groups on one lattice each.",
    ["core.py:get_crystallographic_pointgroup_spinor_irreps_from_symmetry", "spinor.py:get_spinor_factor_system"],
    ["get_crystallographic_pointgroup_spinor_irreps_from_symmetry"],
    "law, completeness and cocycle condition evaluated on all pairs and triples",
)
prop(
    "P12", "Spinor small representations are right",
    "For a space group and k-vector the spinor representations obey the multiplication law of space group and spin together (the phase exp(-2 pi i k.t) times the returned spin factor), are unitary, irreducible, inequivalent and complete, and factor system and SU(2) matrices are listed in the order of the little group.",
    ["inputs"], f"{SG}; {KP}, default k included; arbitrary lattices; both methods and entry points.",
    "Tests use a few groups; sign errors appear only for particular groups, bases or orders.",
    ["core.py:get_spacegroup_spinor_irreps_from_primitive_symmetry", "spinor.py:enumerate_spinor_small_representations"],
    ["get_spacegroup_spinor_irreps_from_primitive_symmetry", "enumerate_spinor_small_representations"],
    "law on all pairs with independently derived multiplication table; entries to 1e-8 times the dimension (1e-7 for k 1e-10 off a special point)",
)
prop(
    "P13", "Spinor irreps computed from a crystal hold in the cell it is given in",
    "For a crystal in any cell the spinor representations, factor system, SU(2) matrices and index list refer to the operations of the input cell, satisfy its multiplication law with pure translations represented by exp(-2 pi i k.t), and are complete, also for displaced atoms within symprec. A k-point left out stands for Gamma; lists and tuples serve as arrays.",
    ["inputs"], f"{CR}; {KP}; displaced atoms with matching symprec, several tolerances; arrays, lists, tuples; k given or left out.",
    "Tests cover a few structures whose cell equals the standard one.",
    ["core.py:get_spacegroup_spinor_irreps", "core.py:_adjust_phase_for_centering_translations", "spinor.py:get_spinor_factor_system"],
    ["all values returned by get_spacegroup_spinor_irreps without magnetic moments"],
    "as P06, with spin",
)
prop(
    "P14", "Spinor co-representations of magnetic groups are right",
    "For a magnetic space or point group the returned co-representations satisfy the co-representation law (complex conjugation of matrices to the right of anti-unitary operations) with the returned factor system and (anti-)unitary spin operators, are unitary, irreducible, inequivalent and complete, and the indicators tell how each arises from the irreps of the unitary subgroup.",
    ["inputs"], f"{MSG}; {KP}; magnetic and gray point groups; arbitrary lattices; both methods.",
    "Tests check a few groups and mostly time reversal invariant k; the three Wigner types meet all four types of magnetic groups only in generated cases.",
    ["corep.py:enumerate_spinor_small_corepresentations", "corep.py:get_corep_spinor_factor_system", "core.py:get_spacegroup_spinor_irreps_from_primitive_symmetry", "group.py:get_factor_system_from_little_group"],
    ["get_spacegroup_spinor_irreps_from_primitive_symmetry with time_reversals", "get_crystallographic_pointgroup_spinor_irreps_from_symmetry with time_reversals"],
    "law on all pairs, Wigner test and dimension count independent of the code",
)
prop(
    "P15", "Co-representations from a collinear magnetic structure hold in the given cell",
    "For a collinear magnetic crystal in any cell the returned co-representations, spin operators, time-reversal flags and index list refer to the operations of the input cell, satisfy its co-representation law with pure unitary translations represented by exp(-2 pi i k.t), and are complete. A k-point left out stands for Gamma; lists and tuples serve as arrays.",
    ["inputs"], "collinear structures generated from every magnetic space group, in several cells, origins and orientations; k-vectors as above; displaced atoms with matching symprec, several tolerances; arrays, lists, tuples; k given or left out.",
    "Only a couple of magnetic structures appear in the tests.",
    ["core.py:get_spacegroup_spinor_irreps", "transform.py:unique_primitive_symmetry", "core.py:_adjust_phase_for_centering_translations", "corep.py:enumerate_spinor_small_corepresentations"],
    ["all values returned by get_spacegroup_spinor_irreps with magmoms"],
    "spglib's magnetic operations are trusted; entries to 1e-7 and the accuracy of the translations",
)
prop(
    "P16", "The factor system of the little co-group is the stated cocycle",
    "The factor system equals exp(-2 pi i g_i.w_j) with g_i the reciprocal vector picked up by k, has modulus one, satisfies the cocycle condition (with conjugation for anti-unitary operations), and is the one obeyed by the small representations stripped of their translation phases.",
    ["inputs"], f"{SG}; {MSG}; {KP}.",
    "Tests check one or two groups.",
    ["group.py:get_factor_system_from_little_group"],
    ["get_factor_system_from_little_group"],
    "closed formula and cocycle identity on all triples; factors to 1e-7",
)
prop(
    "P17", "Projection onto an irrep finds exactly the symmetry-adapted bases",
    "Projecting a unitary representation onto an irrep returns as many bases as the irrep is contained (a warning that their number is doubtful is given when the search gives up, and only then), each orthonormal and transforming as exactly that irrep, mutually independent and inside the isotypic subspace; nothing is returned for an absent irrep. This also holds, to the precision of the representation, for noise below the tolerance, whatever tolerance is given.",
    ["inputs"], "direct sums of irreps with random multiplicities in random unitary bases, projective ones included; permutation and displacement representations of generated molecules; representations of finite precision with noise within and beyond the tolerance, tolerances of the caller.",
    "Tests use two or three representations in one basis.",
    ["representation.py:project_to_irrep"],
    ["project_to_irrep"],
    "multiplicities known by construction; exactness demanded up to multiplicity three, beyond that up to the documented warning",
)
prop(
    "P18", "Regular representations and decomposition into irreps are right",
    "The (projective) regular representation acts on the group as defined and obeys its law; decomposing a unitary representation returns exactly the inequivalent irreps it contains, unitary and obeying its law. Whatever rtol and number of trials, the random search returns all of them or, with a warning, none.",
    ["inputs"], "regular representations of every point group and factor system; direct sums with multiplicities zero to five in random bases; permutation representations.",
    "Tests decompose a few multiplicity-free representations.",
    ["representation.py:get_regular_representation", "representation.py:get_projective_regular_representation", "irreps.py:decompose_representation", "irreps.py:enumerate_unitary_irreps_from_regular_representation"],
    ["the four functions named"],
    "contents known by construction and compared by characters",
)
prop(
    "P19", "Intertwiners, characters and equivalence follow Schur's lemma",
    "Between two equivalent irreps the intertwiner commutes with both, is unitary and of determinant one; between inequivalent ones it vanishes. Characters are traces, independent of the basis, and two irreps are reported equivalent exactly when they are.",
    ["inputs"], "irreps of every little co-group and factor system in random unitary bases.",
    "Tests use one pair.",
    ["representation.py:get_intertwiner", "representation.py:get_character", "irreps.py:is_equivalent_irrep"],
    ["the functions named"],
    "equivalence known by construction",
)
prop(
    "P20", "Symmetry-adapted tensors span exactly the invariants",
    "The tensors returned for a representation and rank are non-zero, invariant under every operation, linearly independent and as many as the dimension of the space of invariants, real when asked to be.",
    ["inputs"], "all point groups in any basis, polar and axial vectors, Cartesian and fractional, rank one to four; permutations of sites, irreps and sums of them of other dimensions, given as integers, reals or complex numbers.",
    "Tests check the number of elastic constants of a few groups.",
    ["tensor.py:get_symmetry_adapted_tensors"],
    ["get_symmetry_adapted_tensors"],
    "dimension from the character of the tensor power",
)
prop(
    "P21", "Intrinsic (permutation) symmetry is imposed on tensors",
    "Imposing intrinsic symmetry returns normalised tensors that are invariant under every permutation of indices, are combinations of the symmetrised input and linearly independent, empty exactly when no input has a symmetric part, and preserves invariance under the group.",
    ["inputs"], "invariant tensors of all point groups, and constructed tensors (symmetric, antisymmetric, orthogonal, repeated) of rank one to five and several dimensions.",
    "Tests check one count.",
    ["tensor.py:apply_intrinsic_symmetry"],
    ["apply_intrinsic_symmetry"],
    "completeness is demanded only for mutually orthogonal symmetric parts: the documentation warns about the others",
)
prop(
    "P22", "Multiplication tables, identity, inverses, orders and the group test are right",
    "The multiplication table equals the matrix products (with time reversal added modulo two), identity, inverses and element orders read from a table are those of the group, and a set of matrices is called a group exactly when it is one.",
    ["inputs"], "point groups and magnetic point groups in any basis and order; abstract groups of order up to 63 under relabelling; subsets, unions and corrupted sets of matrices, closed sets with singular members.",
    "Tests use one table.",
    ["group.py:get_cayley_table", "group.py:get_identity_index", "group.py:get_inverse_index", "group.py:get_order", "group.py:is_matrix_group"],
    ["the functions named"],
    "independent integer arithmetic",
)
prop(
    "P23", "Chains of generators really are solvable chains",
    "For every point group in any basis and order of operations the returned generators build the group from the identity through normal subgroups, each extension being cyclic of the order of its generator.",
    ["inputs"], "every matrix group of the Hall settings under arbitrary unimodular changes of basis and orders.",
    "Tests use the tabulated representatives only.",
    ["pointgroup.py:get_pointgroup_chain_generators", "pointgroup.py:get_generators"],
    ["get_pointgroup_chain_generators"],
    "each step of the chain verified by enumeration",
)
prop(
    "P24", "Magnetic groups are coset-decomposed by their unitary subgroup",
    "A magnetic space group with anti-unitary operations is split into its unitary operations, an anti-unitary representative, and the anti-unitary operation belonging to each unitary one; a group without anti-unitary operations yields no decomposition.",
    ["inputs"], f"{MSG}; little groups included.",
    "Tests use one or two groups.",
    ["group.py:decompose_by_maximal_space_subgroup"],
    ["decompose_by_maximal_space_subgroup"],
    "products computed independently",
)
prop(
    "P25", "Cells, centrings and changes of basis are consistent",
    "For every Hall setting the reported crystal system, centring letter and primitive basis describe its lattice; transformed operations and k-vectors are the similarity transforms, keep k.t, and duplicates modulo lattice translations are removed with an index that maps every operation to its representative, keeping unitary and anti-unitary ones apart.",
    ["inputs"], "530 Hall settings with arbitrary changes of basis, origins and orders; 1651 magnetic groups.",
    "Tests try a few settings.",
    ["transform.py:transform_symmetry_and_kpoint", "transform.py:unique_primitive_symmetry", "transform.py:get_primitive_transformation_matrix", "transform.py:get_crystal_system", "transform.py:get_centering"],
    ["the functions named"],
    "exact rational arithmetic on the tabulated operations",
)
prop(
    "P26", "The checking predicates accept what is valid and reject what is not",
    "The predicates for representations, unitarity, small representations (primitive and conventional cells, with or without spin factors) and cocycles return true for every valid input and false for every input violating the identity they test; where the caller gives tolerances, those decide.",
    ["inputs"], "valid representations of generated groups in random bases and gauges, and corruptions of matrices, factors, k-vectors and group closure; lists of matrices that resemble unitary ones.",
    "The tests use the predicates as oracles and hardly ever on invalid input.",
    ["representation.py:is_representation", "representation.py:is_unitary", "representation.py:check_spacegroup_representation", "group.py:check_cocycle_condition"],
    ["the predicates named"],
    "the identities are re-evaluated independently; defects between 1e-9 and 1e-3 are judged only against tolerances given explicitly, a factor of ten away",
)
prop(
    "P27", "The numerical helpers compute what their documentation says",
    "Roots of complex numbers are the ones of smallest angle, distances of subspaces are functions of the principal angles independent of basis and order, mode products equal the contraction they abbreviate, direct products are Kronecker products, integrality and primality tests are right, and snapping of matrix entries is idempotent and stays within its tolerance.",
    ["inputs"], "random numbers, subspaces with prescribed overlap, tensors and matrices of many shapes and mixed number types, values on both sides of tolerances.",
    "Each has one example in the tests.",
    ["utils.py:nroot", "utils.py:grassmann_distance", "utils.py:mode_dot", "utils.py:is_integer_array", "utils.py:is_prime", "utils.py:ndarray2d_to_integer_tuple", "representation.py:get_direct_product", "irreps.py:purify_irrep_value", "irreps.py:purify_real_irrep_value"],
    ["the functions named"],
    "closed formulas evaluated independently",
)
prop(
    "P28", "Calls are pure and repeatable",
    "Public functions leave their arguments and global state (random numbers, numerical error handling, warning filters, environment) unchanged, give the same result whenever called with equal arguments whatever was called before and whatever the caller did to earlier results, and accept arguments in any memory layout. Calls made from several threads at once, or in another process, give the same results.",
    ["histories", "inputs"], "random sequences of calls of 56 kinds on closely related configurations (same rotations, other translations, order, k, lattice or time reversal) and on crystals, with repeated calls, overwritten results, read-only, Fortran-ordered and strided arguments; the same plan of calls from three threads with frequent switches; the same plan in a fresh process with another hash seed, forwards and backwards; the series and irreps of a point group in a skewed basis after calls on hundreds of other groups in other bases.",
    "Each test calls a function once with fresh arguments.",
    ["core.py:get_spacegroup_irreps", "core.py:get_spacegroup_spinor_irreps", "irreps.py:enumerate_unitary_irreps_from_regular_representation", "representation.py:get_intertwiner"],
    ["arguments, numpy and Python global random state, results of later calls"],
    "model-free history invariant plus the laws of P02, P12 and P14 after every step",
)
prop(
    "P29", "Inputs outside the documented domain are rejected",
    "Operations of a non-primitive cell given where primitive ones are required, operation lists that are not closed, unknown method or distance names, inconsistent shapes, Hall numbers out of range and reducible input to the Frobenius-Schur indicator raise ValueError; a chain that does not reach the whole group yields a warning and no irreps.",
    ["inputs"], "tabulated centred cells and primitive cells with an inserted translation anywhere in the list, dropped operations, arbitrary strings, shapes and numbers, truncated chains.",
    "The tests contain almost no negative case.",
    ["core.py:get_spacegroup_irreps_from_primitive_symmetry", "core.py:get_spacegroup_spinor_irreps_from_primitive_symmetry", "irreps.py:enumerate_unitary_irreps", "representation.py:project_to_irrep", "representation.py:get_direct_product", "transform.py:get_crystal_system", "irreps.py:enumerate_unitary_irreps_from_solvable_group_chain"],
    ["the exception raised"],
    "generated invalid inputs; only ValueError counts as rejection",
)
prop(
    "P30", "Results follow a change of the description of the group",
    "Reordering operations, adding a reciprocal vector to k, moving the origin, changing the basis, moving k to another arm of its star, reversing k, rotating or scaling the lattice, and changing the gauge of the factor system change the families of (spinor, co-, real) representations exactly in the way the definition prescribes.",
    ["inputs"], f"pairs of descriptions of {SG}; {MSG}; crystals; {KP}.",
    "No existing test relates two calls to each other.",
    ["core.py:get_spacegroup_irreps_from_primitive_symmetry", "core.py:get_spacegroup_spinor_irreps_from_primitive_symmetry", "core.py:get_spacegroup_irreps", "core.py:get_spacegroup_spinor_irreps", "irreps.py:enumerate_unitary_irreps"],
    ["characters of the returned families on corresponding operations"],
    "metamorphic, through characters on unitary operations to 1e-6",
)
prop(
    "P31", "Irreps of abstract solvable groups from a chain are right",
    "For any finite group given by its multiplication table, a chain of cyclic extensions and a normalised factor system, the enumerated matrices are unitary, obey the law, are irreducible, inequivalent and complete; decomposing the regular representation gives the same. A chain that does not reach the whole group gives no irreps.",
    ["inputs"], "35 abstract groups up to order 55 (cyclic, dihedral, Frobenius, Heisenberg, wreath products), relabelled, with other generators of the same chain, random gauges and non-trivial cocycles.",
    "Tests run crystallographic point groups only, so extensions by 5 or 7, and cocycles of order above two, are never reached.",
    ["irreps.py:enumerate_unitary_irreps_from_solvable_group_chain", "irreps.py:enumerate_unitary_irreps_from_regular_representation", "irreps.py:decompose_representation"],
    ["the functions named"],
    "law, orthogonality and completeness on all pairs",
)

prop(
    "P32", "Bloch functions and vibrations of a crystal decompose into its irreps",
    "Atomic displacements, orbitals and plane waves of a crystal at k (spinor ones too), transformed by their definitions, contain every irrep returned for that crystal and k a whole number of times, and together the irreps account for all functions of wave vector k. Projecting onto the irreps gives that many orthonormal bases, between which no operator of the crystal's symmetry has an element unless irrep and row agree.",
    ["inputs"], f"{CR}; {KP}; functions built from the definition of the action on Bloch functions; random symmetric Hermitian operators.",
    "Tests compare matrices with themselves or project one perovskite; nothing checks that the conventions are those of functions on a crystal.",
    ["core.py:get_spacegroup_irreps", "core.py:get_spacegroup_spinor_irreps", "representation.py:project_to_irrep", "core.py:_adjust_phase_for_centering_translations"],
    ["irreps of a crystal, project_to_irrep"],
    "representations on functions are built from first principles; multiplicities good to 1e-3",
)
prop(
    "P33", "Irreps restrict to nearby k-points and to subgroups",
    "Restricted to the little group of a k-point next to k (compatibility relations), or to a subgroup (correlation tables), every (real, spinor, co-) representation is a sum, with whole multiplicities, of those returned for the smaller group, and the spin rotation of an operation is the same in both.",
    ["inputs"], f"{SG}; {MSG}; special k-vectors and directions along symmetry lines, planes and generic; subgroups generated by one or two operations in any order; point groups and gray point groups.",
    "No existing test relates two k-points or two groups.",
    ["core.py:get_spacegroup_irreps_from_primitive_symmetry", "core.py:get_spacegroup_spinor_irreps_from_primitive_symmetry", "core.py:get_crystallographic_pointgroup_irreps_from_symmetry", "core.py:get_crystallographic_pointgroup_spinor_irreps_from_symmetry"],
    ["families of representations returned by two calls"],
    "metamorphic, through characters on shared unitary operations; multiplicities good to 1e-6",
)
prop(
    "P34", "Products of irreps decompose into irreps at the sum of the k-points",
    "The direct product of (spinor) irreps at k1 and k2, or of the spin rotations and an irrep, is the Kronecker product and decomposes with whole multiplicities into the linear or spinor irreps at k1 + k2. The trivial representation occurs exactly once in an irrep times its own complex conjugate and in no other such product.",
    ["inputs"], f"{SG}; pairs of k-vectors; point groups in any basis.",
    "Tests never multiply irreps of two calls, so phase and sign conventions that differ between functions go unseen.",
    ["representation.py:get_direct_product", "core.py:get_spacegroup_irreps_from_primitive_symmetry", "core.py:get_spacegroup_spinor_irreps_from_primitive_symmetry", "core.py:get_crystallographic_pointgroup_spinor_irreps_from_symmetry"],
    ["get_direct_product and the families of irreps"],
    "metamorphic, through characters; multiplicities good to 1e-6",
)
prop(
    "P35", "Over a mesh of k-points the irreps are all irreps of the space group",
    "Taking one k-point from every star of a mesh, the representations induced from the returned (spinor) irreps are as many as the space group with periodic boundary conditions has classes of operations, and the squares of their dimensions add up to its order. For magnetic groups the squared dimensions of the co-representations, each divided by the norm of its character, add up to the number of unitary operations.",
    ["inputs"], f"{SG}; {MSG}; meshes of 2, 3 and 4 points along each axis, any arm of each star, shifted by reciprocal vectors.",
    "Tests look at one k-point at a time; whether nothing is lost or counted twice over the whole zone is a statement about all of them together.",
    ["core.py:get_spacegroup_irreps_from_primitive_symmetry", "core.py:get_spacegroup_spinor_irreps_from_primitive_symmetry", "group.py:get_little_group", "irreps.py:enumerate_small_representations"],
    ["families of irreps at all k-points of a mesh"],
    "classes counted by brute-force conjugation in the finite (double) group",
)


def main():
    with open(ROOT / "properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            assert p["statement"].count(". ") <= 2, p["id"]
            f.write(json.dumps({k: v for k, v in p.items() if k != "_note"}) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "./check.sh --self-test",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": f"./check.sh {p['id']} quick",
                "thorough_cmd": f"./check.sh {p['id']} thorough",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": "property-based testing: Hypothesis generators with independent algebraic oracle, shrinking to a replay file",
                "level": "exploration",
                "level_note": "Generated-input search, no proof. " + p["_note"][0].upper() + p["_note"][1:] + ".",
            }
            for p in P
        ],
        "not_applicable": [],
        "notes": "No hooks in /repo. Known findings and repaired defects: known_findings.json and DESIGN.md. Replay a failure with ./check.sh PROP --replay FILE.",
    }
    (ROOT / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")


main()
