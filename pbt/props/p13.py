"""P13: spinor irreps computed from a crystal structure in any cell."""

import numpy as np

from pbt import oracle
from pbt.core import Campaign, require, sut
from pbt.props import common as cm
from pbt.props.p11 import check_factor

from spgrep.core import get_spacegroup_spinor_irreps

PROPERTY = "P13"
RULE = "non-trivial: the little group contains at least two operations of the input cell"
ASSUMPTIONS = ["the symmetry operations themselves are spglib's", "entries compared to 1e-7 plus the rounding measured in spglib's translations"]


def run(c, ctx):
    case = cm.make_crystal_case(c, ctx)
    if case is None:
        return
    L, pos, num, k, ds = case
    # judged first: a k-point whose residuals straddle atol has no definite little group
    cents = cm.centring_vectors(ds["rotations"], ds["translations"])
    want = oracle.little_group(ds["rotations"], k, lattice_vecs=cents, atol=cm.atol_of(c["tol"]))
    kin, kw = cm.recip_args(c["recip"], L, k)
    if c["k"] is not None:
        kw["kpoint"] = cm.written(c["form"], kin)
    irreps, z, U, R, t, m = sut(
        get_spacegroup_spinor_irreps, *(cm.written(c["form"], x) for x in (L, pos, num)), method=c["method"], **kw, **cm.tol_args(c["tol"])
    )
    require(R.shape == ds["rotations"].shape and (R == ds["rotations"]).all(), "rotations are not those of the input cell")
    require(np.abs(t - ds["translations"]).max() < 1e-6, "translations are not those of the input cell")
    cm.check_mapping(m, want)
    table, extra = cm.crystal_composition(R, t, k)
    sub = cm.sub_table(table, m)
    oracle.check_spin_matrices(L, R[m], U)
    e = next(i for i, j in enumerate(m) if (R[j] == np.eye(3)).all() and np.abs(t[j] - np.rint(t[j])).max() < 1e-3)
    check_factor(z, U, sub, e)
    mult = z * np.exp(-2j * np.pi * (extra[np.ix_(m, m)] @ k))
    tol = cm.crystal_tol(extra, k) + cm.slack(c)
    for a, g in enumerate(irreps):
        oracle.check_shape(g, len(m), f"irrep[{a}]")
        oracle.check_unitary(g, oracle.TOL + cm.slack(c), f"irrep[{a}]")
        oracle.check_law(g, sub, mult, tol=tol, what=f"irrep[{a}]")
        for i, idx in enumerate(m):
            if (R[idx] == np.eye(3)).all():
                err = np.abs(g[i] - np.exp(-2j * np.pi * (k @ t[idx])) * np.eye(g.shape[1])).max()
                require(err < tol, f"irrep[{a}]: translation {t[idx]} is not represented by exp(-2 pi i k.t) (error {err:.3g})")
    oracle.check_complete_set(irreps, len(m), total=len(m) // len(cents), tol=1e-4 + cm.slack(c))
    cm.crystal_labels(ctx, c, R, len(cents), m, irreps)


CAMPAIGNS = [Campaign("crystals", lambda halls: cm.st_crystal_case(halls, cm.st_optional_k()), run, cm.hall_shards(96), 20, 20)]
REGRESSIONS = []
