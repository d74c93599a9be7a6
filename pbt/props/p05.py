"""P05: irreps and projective irreps of every crystallographic point group."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen, oracle
from pbt.core import Campaign, require, sut
from pbt.props import common as cm

from spgrep.core import get_crystallographic_pointgroup_irreps_from_symmetry
from spgrep.irreps import enumerate_unitary_irreps, enumerate_unitary_irreps_from_regular_representation
from spgrep.representation import get_projective_regular_representation

PROPERTY = "P05"
RULE = "non-trivial: the group has at least two operations"
ASSUMPTIONS = ["factor systems are normalised: the identity multiplies with factor one"]


def run_linear(c, ctx):
    R = cm.make_point_group(c["g"])
    n = len(R)
    table = oracle.point_table(R)
    if c["entry"] == "api":
        irreps = sut(get_crystallographic_pointgroup_irreps_from_symmetry, R, method=c["method"])
    else:
        irreps, ind = sut(enumerate_unitary_irreps, R, method=c["method"])
        require(len(ind) == len(irreps), "one indicator per irrep expected")
    for a, g in enumerate(irreps):
        oracle.check_shape(g, n, f"irrep[{a}]")
        oracle.check_unitary(g, oracle.FINE, what=f"irrep[{a}]")
        oracle.check_law(g, table, np.ones((n, n)), tol=oracle.FINE, what=f"irrep[{a}]")
    oracle.check_complete_set(irreps, n)
    if c["entry"] != "api":
        sq = np.diag(table)
        for a, (g, i) in enumerate(zip(irreps, ind)):
            fs = np.einsum("kii->k", g)[sq].sum() / n
            require(abs(fs - i) < 1e-6, f"indicator of irrep[{a}] is {i}, sum of chi(g^2)/|G| is {fs:.4f}")
    ctx.label(gen.point_group_symbol(c["g"]["hall"]))
    ctx.label(c["method"])
    ctx.trivial = n == 1


def s_linear(hall):
    return st.fixed_dictionaries({"g": cm.st_point_group(hall), "method": cm.METHODS, "entry": st.sampled_from(["api", "low"])})


def s_projective(hall):
    return st.fixed_dictionaries(
        {
            "ops": gen.st_primitive(hall),
            "k": gen.st_kpoint(),
            "spin": st.booleans(),
            "gauge": st.one_of(st.none(), st.integers(0, 9999), st.integers(0, 9999)),
            "method": cm.METHODS,
            "reg": st.booleans(),
        }
    )


def build_factor_system(c):
    """A factor system of the little co-group: non-symmorphic part, spin part, random gauge."""
    R, t, _ = gen.make_primitive(c["ops"])
    k = gen.make_kpoint(c["k"], R)
    idx = oracle.little_group(R, k)
    R, t = R[idx], t[idx]
    n = len(R)
    table, extra = oracle.composition(R, t)
    omega = oracle.factor_system(R, t, k)
    if c["spin"]:
        L = gen.make_lattice({"diag": [10, 11, 13], "off": [0, 0, 0], "quat": [1, 0, 0, 0], "mirror": False, "scale": 1.0}, R)
        omega = omega * np.rint(oracle.spin_factor(oracle.spin_matrices(L, R), table).real)
    if c["gauge"] is not None:
        g = oracle.random_gauge(n, c["gauge"])
        e = next(i for i in range(n) if (R[i] == np.eye(3)).all())
        g[e] = 1
        omega = omega * g[:, None] * g[None, :] / g[table]
    return R, table, omega


def run_projective(c, ctx):
    R, table, omega = build_factor_system(c)
    n = len(R)
    if c["reg"]:
        reg = sut(get_projective_regular_representation, R, omega)
        irreps = sut(enumerate_unitary_irreps_from_regular_representation, reg)
    else:
        irreps, ind = sut(enumerate_unitary_irreps, R, omega, method=c["method"])
        require(len(ind) == len(irreps), "one indicator per irrep expected")
    for a, g in enumerate(irreps):
        oracle.check_shape(g, n, f"irrep[{a}]")
        oracle.check_unitary(g, cm.entry_tol(c["k"]), what=f"irrep[{a}]")
        oracle.check_law(g, table, omega, tol=cm.entry_tol(c["k"]), what=f"irrep[{a}]")
    oracle.check_complete_set(irreps, n)
    ctx.label("from regular representation" if c["reg"] else c["method"])
    if np.abs(omega - 1).max() > 1e-6:
        ctx.label("non-trivial factor system")
    if all(g.shape[1] > 1 for g in irreps):
        ctx.label("no one-dimensional irrep")
    ctx.trivial = n == 1


CAMPAIGNS = [
    Campaign("point groups", s_linear, run_linear, cm.pg_settings_strata, 12, 200),
    Campaign("factor systems", s_projective, run_projective, cm.hall_strata, 6, 80),
]
REGRESSIONS = []
