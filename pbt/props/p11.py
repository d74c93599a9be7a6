"""P11: spinor irreps of point groups and their factor system."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen, oracle
from pbt.core import Campaign, require, sut
from pbt.props import common as cm

from spgrep.core import get_crystallographic_pointgroup_spinor_irreps_from_symmetry

PROPERTY = "P11"
RULE = "non-trivial: the group has at least two operations"
ASSUMPTIONS = ["entries compared to 1e-8 times the dimension (1e-7 for k a little off a special point)"]


def strategy(hall):
    return st.fixed_dictionaries({"g": cm.st_point_group(hall), "lattice": gen.st_lattice(), "method": cm.METHODS})


def check_factor(z, U, table, e, what="spinor factor system"):
    n = len(table)
    require(z.shape == (n, n), f"{what} has shape {z.shape}")
    require(np.abs(np.abs(z) - 1).max() < oracle.FINE and np.abs(z.imag).max() < oracle.FINE, f"{what} has entries other than +1 and -1")
    err = np.abs(z - oracle.spin_factor(U, table)).max()
    require(err < oracle.FINE, f"{what} does not belong to the returned matrices (error {err:.3g})")
    require(np.abs(z[e] - 1).max() < oracle.FINE and np.abs(z[:, e] - 1).max() < oracle.FINE, f"{what}: the identity does not multiply with factor one")
    require(oracle.cocycle_defect(z, table) < oracle.FINE, f"{what} violates the cocycle condition")


def run(c, ctx):
    R = cm.make_point_group(c["g"])
    L = gen.make_lattice(c["lattice"], R)
    n = len(R)
    irreps, z, U = sut(get_crystallographic_pointgroup_spinor_irreps_from_symmetry, L, R, method=c["method"])
    table = oracle.point_table(R)
    oracle.check_spin_matrices(L, R, U)
    e = next(i for i in range(n) if (R[i] == np.eye(3)).all())
    check_factor(z, U, table, e)
    for a, g in enumerate(irreps):
        oracle.check_shape(g, n, f"spinor irrep[{a}]")
        oracle.check_unitary(g, oracle.FINE, what=f"spinor irrep[{a}]")
        oracle.check_law(g, table, z, tol=oracle.FINE, what=f"spinor irrep[{a}]")
    oracle.check_complete_set(irreps, n, what="spinor irreps")
    # the spin-1/2 representation itself decomposes into them
    ch = np.array(oracle.characters(irreps))
    mult = (ch.conj() @ np.einsum("kii->k", U)) / n
    require(np.abs(mult - np.rint(mult.real)).max() < 1e-5, f"the SU(2) matrices do not decompose into the irreps: multiplicities {np.round(mult, 3)}")
    require(int(round(sum(m.real * g.shape[1] for m, g in zip(mult, irreps)))) == 2, "the SU(2) matrices do not decompose into the irreps")
    ctx.label(gen.point_group_symbol(c["g"]["hall"]), c["method"])
    ctx.trivial = n == 1


CAMPAIGNS = [Campaign("point groups in oriented lattices", strategy, run, cm.pg_settings_strata, 16, 300)]
REGRESSIONS = []
