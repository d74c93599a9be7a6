"""P08: physically irreducible representations of point groups."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen, oracle
from pbt.core import Campaign, require, sut
from pbt.props import common as cm

from spgrep.core import get_crystallographic_pointgroup_irreps_from_symmetry
from spgrep.irreps import enumerate_unitary_irreps, get_physically_irrep
from spgrep.representation import frobenius_schur_indicator

PROPERTY = "P08"
RULE = "non-trivial: the group has at least two operations"
ASSUMPTIONS = ["real projective representations are asked for only with factor systems of +1 and -1"]


def judge(irreps, ind, table, mult):
    n = len(table)
    for a, g in enumerate(irreps):
        oracle.check_shape(g, n, f"real irrep[{a}]")
        require(np.isrealobj(g), f"real irrep[{a}] has dtype {g.dtype}")
        oracle.check_unitary(g, oracle.FINE, what=f"real irrep[{a}] (orthogonality)")
        oracle.check_law(g, table, mult, tol=oracle.FINE, what=f"real irrep[{a}]")
    return oracle.check_real_complete_set(irreps, n, ind)


def run_linear(c, ctx):
    R = cm.make_point_group(c["g"])
    n = len(R)
    table = oracle.point_table(R)
    if c["entry"] == "api":
        irreps = sut(get_crystallographic_pointgroup_irreps_from_symmetry, R, real=True, method=c["method"])
        ind = None
    else:
        irreps, ind = sut(enumerate_unitary_irreps, R, real=True, method=c["method"])
    kinds = judge(irreps, ind, table, np.ones((n, n)))
    ctx.label(gen.point_group_symbol(c["g"]["hall"]))
    ctx.label(*sorted({f"type {k}" for k in kinds}))
    ctx.trivial = n == 1


def s_linear(hall):
    return st.fixed_dictionaries({"g": cm.st_point_group(hall), "method": cm.METHODS, "entry": st.sampled_from(["api", "low"])})


def s_signs(hall):
    return st.fixed_dictionaries({"g": cm.st_point_group(hall), "spin": st.booleans(), "signs": st.integers(0, 9999), "method": cm.METHODS})


def run_signs(c, ctx):
    import random

    R = cm.make_point_group(c["g"])
    n = len(R)
    table = oracle.point_table(R)
    omega = np.ones((n, n))
    if c["spin"]:
        L = gen.make_lattice({"diag": [10, 11, 13], "off": [0, 0, 0], "quat": [1, 0, 0, 0], "mirror": False, "scale": 1.0}, R)
        omega = np.rint(oracle.spin_factor(oracle.spin_matrices(L, R), table).real)
    r = random.Random(c["signs"])
    s = np.array([1 if (x == np.eye(3)).all() else r.choice([1, -1]) for x in R])
    omega = omega * s[:, None] * s[None, :] * s[table]
    irreps, ind = sut(enumerate_unitary_irreps, R, omega.astype(complex), real=True, method=c["method"])
    kinds = judge(irreps, ind, table, omega)
    ctx.label(*sorted({f"type {k}" for k in kinds}))
    ctx.trivial = n == 1


def s_rotated(hall):
    return st.fixed_dictionaries({"g": cm.st_point_group(hall), "seed": st.integers(0, 9999), "spin": st.booleans()})


def run_rotated(c, ctx):
    """Classification and realification must not depend on the unitary basis the complex irrep is given in."""
    R = cm.make_point_group(c["g"])
    n = len(R)
    table = oracle.point_table(R)
    omega = np.ones((n, n))
    if c["spin"]:
        L = gen.make_lattice({"diag": [10, 11, 13], "off": [0, 0, 0], "quat": [1, 0, 0, 0], "mirror": False, "scale": 1.0}, R)
        omega = np.rint(oracle.spin_factor(oracle.spin_matrices(L, R), table).real)
    irreps, _ = sut(enumerate_unitary_irreps, R, omega.astype(complex))
    for a, g in enumerate(irreps):
        d = g.shape[1]
        Q = oracle.haar(d, c["seed"] + a)
        h = Q @ g @ Q.conj().T
        nu = np.einsum("kij,kji->", h, h) / n
        ind = sut(frobenius_schur_indicator, h)
        require(abs(nu - ind) < 1e-6, f"indicator of irrep[{a}] in another basis is {ind}, sum of chi(g^2) is {nu:.4f}")
        real = sut(get_physically_irrep, h, ind)
        want = d if ind == 1 else 2 * d
        require(real.shape == (n, want, want), f"realified irrep[{a}] of type {ind} has shape {real.shape}")
        require(np.isrealobj(real), "realified irrep is not real")
        oracle.check_unitary(real, oracle.TOL, f"realified irrep[{a}]")
        oracle.check_law(real, table, omega, tol=oracle.TOL, what=f"realified irrep[{a}]")
        chi = np.einsum("kii->k", h)
        err = np.abs(np.einsum("kii->k", real) - (chi.real if ind == 1 else 2 * chi.real)).max()
        require(err < oracle.TOL, f"realified irrep[{a}] has the wrong character (error {err:.3g})")
        ctx.label(f"type {ind}, dimension {d}")
        if ind == 1:
            # what is already real is of the same type and may be given as real numbers
            require(sut(frobenius_schur_indicator, real) == 1, f"irrep[{a}] is of type 1, but not once it is real")
            again = sut(get_physically_irrep, real, 1)
            require(again.shape == real.shape and np.isrealobj(again), f"irrep[{a}]: a real irrep is not realified to one")
            oracle.check_law(again, table, omega, tol=oracle.TOL, what=f"irrep[{a}] realified twice")
            oracle.check_unitary(again, oracle.TOL, f"irrep[{a}] realified twice")
            err = np.abs(np.einsum("kii->k", again) - chi.real).max()
            require(err < oracle.TOL, f"irrep[{a}] realified twice has the wrong character (error {err:.3g})")
    ctx.trivial = n == 1


CAMPAIGNS = [
    Campaign("point groups", s_linear, run_linear, cm.pg_settings_strata, 12, 200),
    Campaign("factor systems of signs", s_signs, run_signs, cm.pg_settings_strata, 8, 120),
    Campaign("rotated bases", s_rotated, run_rotated, cm.pg_settings_strata, 8, 120),
]
REGRESSIONS = []
