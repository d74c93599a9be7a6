"""P10: the map from orthogonal matrices to SU(2)."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen, oracle
from pbt.core import Campaign, require, sut
from pbt.props import common as cm

from spgrep.spinor import get_rotation_angle_and_axis, get_spinor_factor_system, get_spinor_unitary_rotation

PROPERTY = "P10"
RULE = "non-trivial: not the identity rotation (single rotations) or a group of at least two operations (groups)"
ASSUMPTIONS = [
    "rotation angles within 0.01 of 0 or pi, but not equal to them, are excluded (numpy.isclose tolerance of the implementation)",
    "two-fold axes with a component between 1e-10 and 1e-6 are not judged for their sign",
]


def axis_sign_ok(n):
    """First non-vanishing component positive (the stated lexicographic choice for two-fold rotations)."""
    for x in n:
        if 1e-10 < abs(x) < 1e-6:
            return True
        if abs(x) >= 1e-6:
            return x > 0
    return False


def st_axis():
    comp = st.one_of(st.integers(-3, 3).map(float), st.integers(-1000, 1000).map(lambda a: a / 317))
    return st.lists(comp, min_size=3, max_size=3).filter(lambda v: np.linalg.norm(v) > 0.2)


def s_rotation(_):
    angle = st.one_of(
        st.sampled_from([0.0, np.pi, np.pi, np.pi / 2, np.pi / 3, 2 * np.pi / 3, 2 * np.pi / 5]).map(float),
        st.integers(1, 310).map(lambda a: a / 100),
    )
    return st.fixed_dictionaries({"axis": st_axis(), "angle": angle})


def run_rotation(c, ctx):
    n = np.array(c["axis"]) / np.linalg.norm(c["axis"])
    S = oracle.rotation_matrix(n, c["angle"])
    theta, ax = sut(get_rotation_angle_and_axis, S)
    require(abs(theta - c["angle"]) < oracle.FINE, f"angle {theta} returned for a rotation by {c['angle']}")
    ax = np.asarray(ax, dtype=float)
    require(ax.shape == (3,) and abs(np.linalg.norm(ax) - 1) < oracle.FINE, f"axis {ax} is not a unit vector")
    if c["angle"] > 0:
        err = np.abs(oracle.rotation_matrix(ax, theta) - S).max()
        require(err < oracle.FINE, f"angle and axis do not give the rotation back (error {err:.3g})")
    if c["angle"] == np.pi:
        require(axis_sign_ok(ax), f"two-fold axis {ax} is not in the stated direction")
        ctx.label("two-fold")
    U = sut(get_spinor_unitary_rotation, np.eye(3), S)
    oracle.check_spin_matrices(np.eye(3), [S], U[None])
    V = sut(get_spinor_unitary_rotation, np.eye(3), -S)
    require(np.abs(U - V).max() < oracle.FINE, "inversion changes the SU(2) matrix")
    ctx.trivial = c["angle"] == 0


def s_group(hall):
    return st.fixed_dictionaries({"g": cm.st_point_group(hall), "lattice": gen.st_lattice()})


def run_group(c, ctx):
    R = cm.make_point_group(c["g"])
    L = gen.make_lattice(c["lattice"], R)
    n = len(R)
    z, U = sut(get_spinor_factor_system, L, R)
    oracle.check_spin_matrices(L, R, U)
    table = oracle.point_table(R)
    want = oracle.spin_factor(U, table)
    require(z.shape == (n, n) and np.abs(z - want).max() < oracle.FINE, "spinor factor system does not belong to the returned SU(2) matrices")
    for i in range(n):
        u = sut(get_spinor_unitary_rotation, L, R[i])
        require(np.abs(u - U[i]).max() < oracle.FINE, f"SU(2) matrix {i} depends on the group it is computed in")
        S = oracle.cartesian(L, R[i])
        S = S * np.sign(np.linalg.det(S))
        if (R[i] == np.eye(3)).all() or (R[i] == -np.eye(3)).all():
            require(np.abs(U[i] - np.eye(2)).max() < oracle.FINE, "identity or inversion is not mapped to the unit matrix")
            ctx.label("with inversion") if R[i][0, 0] < 0 else None
        elif abs(np.trace(S) + 1) < 1e-6:
            m = 1j * U[i]  # n.sigma
            nv = np.array([m[0, 1].real, -m[0, 1].imag, m[0, 0].real])
            require(axis_sign_ok(nv), f"two-fold axis {nv} is not in the stated direction")
            ctx.label("with a two-fold rotation or mirror")
    if np.linalg.det(L) < 0:
        ctx.label("left-handed basis")
    ctx.trivial = n == 1


CAMPAIGNS = [
    Campaign("single rotations", s_rotation, run_rotation, cm.numbered(48), 60, 800),
    Campaign("groups in oriented lattices", s_group, run_group, cm.pg_settings_strata, 10, 200),
]
REGRESSIONS = []
