"""P02: small representations multiply as the space group does, with the stated convention for translations."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen, oracle
from pbt.core import Campaign, require, sut
from pbt.props import common as cm

from spgrep.core import get_spacegroup_irreps_from_primitive_symmetry
from spgrep.irreps import enumerate_small_representations

PROPERTY = "P02"
RULE = "non-trivial: the little group has at least two operations"
ASSUMPTIONS = ["entries compared to 1e-8 times the dimension (1e-7 for k a little off a special point)", "k is exactly rational (rounded once) or off a special point by 1e-10, 1e-6 or 3e-5"]


def s_prim(hall):
    return st.fixed_dictionaries(
        {
            "ops": gen.st_primitive(hall),
            "k": gen.st_kpoint(eps=True),
            "method": cm.METHODS,
            "aslist": st.booleans(),
            "lattice_step": st.lists(st.integers(-3, 3), min_size=3, max_size=3),
        }
    )


def run_prim(c, ctx):
    R, t, _ = gen.make_primitive(c["ops"])
    k = gen.make_kpoint(c["k"], R)
    kin = cm.written("list" if c["aslist"] else "array", k)
    want = oracle.little_group(R, k)
    irreps, m = sut(get_spacegroup_irreps_from_primitive_symmetry, R, t, kin, method=c["method"])
    cm.check_mapping(m, want)
    require(len(irreps) > 0, "no irrep returned")
    lr, lt = R[m], t[m]
    oracle.check_small_reps(irreps, lr, lt, k, tol=cm.entry_tol(c["k"]))
    # the same operations, each followed by a lattice translation T, get the same matrices times exp(-2 pi i k.T)
    step = np.array(c["lattice_step"])
    lt2 = lt + np.array([step * (i % 3 - 1) if i % 3 != 1 else step * 0 for i in range(len(lt))])
    for i in range(len(lt)):
        if (lr[i] == np.eye(3)).all():
            lt2[i] = lt[i]
    irreps2, _ = sut(enumerate_small_representations, lr, lt2, kin, method=c["method"])
    oracle.check_small_reps(irreps2, lr, lt2, k, tol=cm.entry_tol(c["k"]), what="enumerate_small_representations irrep")
    phase = np.exp(-2j * np.pi * ((lt2 - lt) @ k))
    cm.match_characters([g * phase[:, None, None] for g in irreps], irreps2, what="irreps after adding lattice translations to the representatives")
    fs = oracle.factor_system(lr, lt, k)
    cm.group_labels(ctx, len(m), len(R), np.abs(fs - 1).max() > 1e-6, k)
    ctx.label(c["method"])


CAMPAIGNS = [Campaign("space groups and k-points", s_prim, run_prim, cm.hall_strata, 10, 120)]
REGRESSIONS = []
