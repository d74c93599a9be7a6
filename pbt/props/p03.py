"""P03: the small representations form a complete set of inequivalent irreps."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen, oracle
from pbt.core import Campaign, require, sut
from pbt.props import common as cm

from spgrep.core import get_spacegroup_irreps, get_spacegroup_irreps_from_primitive_symmetry
from spgrep.irreps import enumerate_small_representations

PROPERTY = "P03"
RULE = "non-trivial: the little group has at least two operations"
ASSUMPTIONS = ["character inner products compared to 1e-5"]


def s_prim(hall):
    return st.fixed_dictionaries({"ops": gen.st_primitive(hall), "k": gen.st_kpoint(eps=True), "method": cm.METHODS, "low": st.booleans()})


def run_prim(c, ctx):
    R, t, _ = gen.make_primitive(c["ops"])
    k = gen.make_kpoint(c["k"], R)
    want = oracle.little_group(R, k)
    if c["low"]:
        irreps, ind = sut(enumerate_small_representations, R[want], t[want], k, method=c["method"])
        require(len(ind) == len(irreps), "one indicator per irrep expected")
    else:
        irreps, m = sut(get_spacegroup_irreps_from_primitive_symmetry, R, t, k, method=c["method"])
        cm.check_mapping(m, want)
    for a, g in enumerate(irreps):
        oracle.check_shape(g, len(want), f"irrep[{a}]")
    oracle.check_complete_set(irreps, len(want))
    fs = oracle.factor_system(R[want], t[want], k)
    cm.group_labels(ctx, len(want), len(R), np.abs(fs - 1).max() > 1e-6, k)
    ctx.label(c["method"], f"largest irrep dimension {max(g.shape[1] for g in irreps)}")


# ---- crystals --------------------------------------------------------------------------------


def s_crystal(halls):
    return st.sampled_from(halls).flatmap(
        lambda h: st.fixed_dictionaries({"crystal": gen.st_crystal(h), "k": gen.st_kpoint(), "method": cm.METHODS})
    )


def run_crystal(c, ctx):
    case = cm.make_crystal_case({**c, "recip": None}, ctx)
    if case is None:
        return
    L, pos, num, k, ds = case
    irreps, R, t, m = sut(get_spacegroup_irreps, L, pos, num, k, method=c["method"])
    # a representation of the whole little group: several operations of the cell to one of the co-group
    cents = cm.centring_vectors(R, t)
    for a, g in enumerate(irreps):
        oracle.check_shape(g, len(m), f"irrep[{a}]")
    oracle.check_complete_set(irreps, len(m), total=len(m) // len(cents), tol=1e-4)
    ctx.label(f"{len(cents)} centring vectors", c["method"])
    ctx.trivial = len(m) == len(cents)


CAMPAIGNS = [
    Campaign("space groups and k-points", s_prim, run_prim, cm.hall_strata, 14, 180),
    Campaign("crystals", s_crystal, run_crystal, cm.hall_shards(48), 10, 16),
]
REGRESSIONS = []
