"""P15: spinor co-representations computed from a collinear magnetic structure in any cell."""

import numpy as np
import spglib
from hypothesis import strategies as st

from pbt import gen, oracle
from pbt.core import Campaign, require, sut
from pbt.props import common as cm
from pbt.props.p14 import check_omega, labels

from spgrep.core import get_spacegroup_spinor_irreps

PROPERTY = "P15"
RULE = "non-trivial: the little group keeps an anti-unitary operation"
ASSUMPTIONS = ["the magnetic symmetry operations themselves are spglib's", "entries compared to 1e-7 plus the rounding measured in spglib's translations"]


def strategy(unis):
    return st.sampled_from(unis).flatmap(
        lambda u: st.fixed_dictionaries({"crystal": gen.st_magnetic_crystal(u), "k": cm.st_optional_k(), "recip": cm.st_recip(), "method": cm.METHODS, "tol": cm.st_tol(), "form": cm.st_form()})
    )


def run(c, ctx):
    cr = gen.make_magnetic_crystal(c["crystal"])
    if cr is None:
        ctx.trivial = True
        ctx.label("atoms overlap, skipped")
        return
    L, pos, num, mom = cr
    pos, mom = cm.displaced(c["tol"], L, pos, mom)
    ds = spglib.get_magnetic_symmetry_dataset((L, pos, num, mom), symprec=cm.symprec_of(c["tol"]))
    if ds is None:
        ctx.trivial = True
        ctx.label("spglib finds no dataset, skipped")
        return
    tr0 = np.array(ds["time_reversals"]).astype(int)
    k = cm.kpoint_of(c, ds["rotations"], tr0)
    # judged first: a k-point whose residuals straddle atol has no definite little group
    cents = cm.centring_vectors(ds["rotations"], ds["translations"], tr0)
    want = oracle.little_group(ds["rotations"], k, tr0, lattice_vecs=cents, atol=cm.atol_of(c["tol"]))
    kin, kw = cm.recip_args(c["recip"], L, k)
    if c["k"] is not None:
        kw["kpoint"] = cm.written(c["form"], kin)
    coreps, z, U, anti, R, t, tr, m = sut(
        get_spacegroup_spinor_irreps, *(cm.written(c["form"], x) for x in (L, pos, num, mom)), method=c["method"], **kw, **cm.tol_args(c["tol"])
    )
    require(R.shape == ds["rotations"].shape and (R == ds["rotations"]).all(), "rotations are not those of the input cell")
    require(np.abs(t - ds["translations"]).max() < 1e-6, "translations are not those of the input cell")
    require(np.array_equal(np.asarray(tr).astype(int), tr0), "time reversals are not those of the input structure")
    cm.check_mapping(m, want)
    table, extra = oracle.composition(R, t, tr0, tol=1e-3)
    tol = cm.crystal_tol(extra, k) + cm.slack(c)
    sub = cm.sub_table(table, m)
    oracle.check_spin_matrices(L, R[m], U, tr0[m])
    check_omega(z, U, sub, tr0[m], anti)
    kinds = oracle.check_coreps(coreps, sub, extra[np.ix_(m, m)], k, tr0[m], z, None, n_lattice=len(cents), tol=tol)
    for a, g in enumerate(coreps):
        for i, idx in enumerate(m):
            if (R[idx] == np.eye(3)).all() and not tr0[idx]:
                err = np.abs(g[i] - np.exp(-2j * np.pi * (k @ t[idx])) * np.eye(g.shape[1])).max()
                require(err < tol, f"corep[{a}]: translation {t[idx]} is not represented by exp(-2 pi i k.t) (error {err:.3g})")
    ctx.label(f"MSG type {ds['msg_type']}", c["method"])
    ctx.label("cell with centring or superlattice translations" if len(cents) > 1 else "primitive cell")
    labels(ctx, kinds, tr0[m], len(R))


CAMPAIGNS = [Campaign("collinear magnetic crystals", strategy, run, cm.uni_shards(112), 12, 16)]
REGRESSIONS = []
