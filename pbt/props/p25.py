"""P25: cells, centrings and transformation of symmetry operations."""

import numpy as np
import spglib
from hypothesis import strategies as st

from pbt import gen, oracle
from pbt.core import Campaign, Violation, require, sut
from pbt.props import common as cm

from spgrep.transform import (
    get_centering,
    get_crystal_system,
    get_primitive_transformation_matrix,
    transform_symmetry_and_kpoint,
    unique_primitive_symmetry,
)
from spgrep.utils import get_symmetry_from_hall_number

PROPERTY = "P25"
RULE = "non-trivial: the setting is centred, or the basis or the representatives of the operations are changed"
ASSUMPTIONS = ["spglib's database of Hall settings is taken as correct"]

SYSTEMS = {
    "triclinic": {"1", "-1"},
    "monoclinic": {"2", "m", "2/m"},
    "orthorhombic": {"222", "mm2", "mmm"},
    "tetragonal": {"4", "-4", "4/m", "422", "4mm", "-42m", "4/mmm"},
    "trigonal": {"3", "-3", "32", "3m", "-3m"},
    "hexagonal": {"6", "-6", "6/m", "622", "6mm", "-6m2", "6/mmm"},
    "cubic": {"23", "m-3", "432", "-43m", "m-3m"},
}


def s_hall(hall):
    return st.fixed_dictionaries(
        {
            "hall": st.just(hall),
            "uni": gen.st_unimodular(),
            "shift": gen.st_shift(),
            "order": gen.st_order(),
            "wrap": st.one_of(st.just(0), st.integers(1, 999)),
            "k": st.lists(st.integers(-600, 600), min_size=3, max_size=3).map(lambda v: [a / 307 for a in v]),
        }
    )


def run_hall(c, ctx):
    import random

    hall = c["hall"]
    R0, t0 = sut(get_symmetry_from_hall_number, hall)
    R, t = gen.db_ops(hall)
    require(np.array_equal(R0, R) and np.abs(t0 - t).max() < 1e-12, "get_symmetry_from_hall_number differs from spglib's database")
    cents = gen._centring_vectors(R, t)
    sg = spglib.get_spacegroup_type(hall)
    letter = sut(get_centering, sg["hall_symbol"])
    require(letter == sg["hall_symbol"].lstrip("-")[0], f"centring {letter} for Hall symbol {sg['hall_symbol']}")
    system = sut(get_crystal_system, hall)
    require(system in SYSTEMS and gen.point_group_symbol(hall) in SYSTEMS[system], f"crystal system {system} for point group {gen.point_group_symbol(hall)}")
    P = sut(get_primitive_transformation_matrix, hall)
    require(P.shape == (3, 3) and abs(np.linalg.det(P) * len(cents) - 1) < 1e-9, f"primitive cell of volume {np.linalg.det(P):.4f} for {len(cents)} centring vectors")
    Pi = np.linalg.inv(P)
    require(oracle.rint_dist(Pi).max() < 1e-9, "conventional basis vectors are not lattice vectors of the primitive cell")
    for v in cents:
        require(oracle.rint_dist(Pi @ gen.fl(v)).max() < 1e-9, f"centring vector {[str(x) for x in v]} is not a lattice vector of the primitive cell")
    require(np.abs(P - gen.fl(gen.primitive_basis_of(cents))).max() < 1e-9, "primitive basis differs from the stated convention")

    # general transformation: P followed by a unimodular change
    Q = P @ gen.make_unimodular(c["uni"])
    t = gen.shift_origin(R, t, c["shift"])
    if c["wrap"]:
        rnd = random.Random(c["wrap"])
        t = np.array([v + np.array([rnd.choice([0, 1, -1, 2]) for _ in range(3)]) for v in t])
    p = gen.make_order(len(R), c["order"])
    R, t = R[p].copy(), t[p].copy()
    k = np.array(c["k"])
    pr, pt, pk = sut(transform_symmetry_and_kpoint, Q, R, t, k)
    Qi = np.linalg.inv(Q)
    n = len(R)
    require(pr.shape == (n, 3, 3) and np.issubdtype(pr.dtype, np.integer), "transformed rotations are not integer matrices")
    for i in range(n):
        require(np.abs(pr[i] - Qi @ R[i] @ Q).max() < 1e-9, f"rotation {i} wrongly transformed")
        require(np.abs(Q @ pt[i] - t[i]).max() < 1e-9, f"translation {i} wrongly transformed")
        require(abs(pk @ pt[i] - k @ t[i]) < 1e-8, f"k.t of operation {i} changed by the transformation")
    require(np.abs(Qi.T @ pk - k).max() < 1e-9, "k-vector wrongly transformed")

    ur, ut, m = sut(unique_primitive_symmetry, pr, pt)
    check_unique(pr, pt, ur, ut, m, None)
    require(len(ur) * len(cents) == n, f"{len(ur)} unique operations of {n} for {len(cents)} centring vectors")
    ctx.label("centring " + letter)
    ctx.trivial = letter == "P" and not c["uni"] and not c["wrap"] and c["order"] is None


def check_unique(pr, pt, ur, ut, m, tr):
    n = len(pr)
    m = [int(i) for i in m]
    require(len(m) == n and len(ut) == len(ur), "mapping or translations of wrong length")
    require(set(m) == set(range(len(ur))), "mapping does not cover the unique operations")
    kind = {}
    for i in range(n):
        require(np.array_equal(ur[m[i]], pr[i]), f"operation {i} is mapped to another rotation")
        d = pt[i] - ut[m[i]]
        key = (pr[i].tobytes(), 0 if tr is None else int(tr[i]))
        if oracle.rint_dist(d).max() > 1e-8:
            raise Violation(f"operation {i} and its unique representative differ by {d}, not a lattice vector")
        require(kind.setdefault(key, m[i]) == m[i], f"operations with the same rotation are mapped to different representatives ({i})")
    require(len(kind) == len(ur), "unique operations are not unique")


def s_mag(unis):
    return st.fixed_dictionaries({"uni_number": st.sampled_from(unis), "shift": gen.st_shift(), "order": gen.st_order(), "bool": st.booleans()})


def run_mag(c, ctx):
    R, t, tr = gen.db_magnetic_ops(c["uni_number"])
    t = gen.shift_origin(R, t, c["shift"], tr)
    p = gen.make_order(len(R), c["order"])
    R, t, tr = R[p].copy(), t[p].copy(), tr[p].copy()
    Q = gen.fl(gen.prim_magnetic_ops(c["uni_number"])[3])
    pr, pt, _ = sut(transform_symmetry_and_kpoint, Q, R, t, np.zeros(3))
    ur, ut, m = sut(unique_primitive_symmetry, pr, pt, tr.astype(bool) if c["bool"] else tr)
    check_unique(pr, pt, ur, ut, m, tr)
    require(len(ur) == len(gen.prim_magnetic_ops(c["uni_number"])[0]), f"{len(ur)} unique magnetic operations")
    # the time reversal is constant on each class
    for j in range(len(ur)):
        require(len({int(tr[i]) for i in range(len(tr)) if int(m[i]) == j}) == 1, "operations with different time reversal are identified")
    ctx.label(f"MSG type {gen.magnetic_type(c['uni_number'])}")
    ctx.trivial = len(ur) == len(R)


CAMPAIGNS = [
    Campaign("Hall settings", s_hall, run_hall, cm.hall_strata, 3, 40),
    Campaign("magnetic groups", s_mag, run_mag, cm.uni_shards(96), 12, 12),
]
REGRESSIONS = []
