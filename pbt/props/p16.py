"""P16: factor system of the little co-group."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen, oracle
from pbt.core import Campaign, require, sut
from pbt.props import common as cm

from spgrep.group import get_factor_system_from_little_group
from spgrep.irreps import enumerate_small_representations

PROPERTY = "P16"
RULE = "non-trivial: at least two operations and some factor different from one"
ASSUMPTIONS = ["factors compared to 1e-7 (reciprocal shifts of k up to 40)"]


def s_prim(hall):
    return st.fixed_dictionaries({"ops": gen.st_primitive(hall), "k": gen.st_kpoint(), "aslist": st.booleans()})


def s_mag(unis):
    return st.fixed_dictionaries({"ops": st.sampled_from(unis).flatmap(gen.st_magnetic_primitive), "k": gen.st_kpoint(), "aslist": st.booleans()})


def common(R, t, k, tr, got, ctx):
    n = len(R)
    want = oracle.factor_system(R, t, k, tr)
    require(got.shape == (n, n), f"factor system has shape {got.shape}")
    err = np.abs(got - want).max()
    require(err < 1e-7, f"factor system differs from exp(-2 pi i g_i.w_j) by {err:.3g}")
    table, extra = oracle.composition(R, t, tr)
    defect = oracle.cocycle_defect(got, table, None if tr is None else tr.astype(bool))
    require(defect < 1e-6, f"cocycle condition violated by {defect:.3g}")
    require(np.abs(np.abs(got) - 1).max() < 1e-9, "factors are not of modulus one")
    ctx.trivial = n == 1 or np.abs(want - 1).max() < 1e-6
    return table


def run_prim(c, ctx):
    R, t, _ = gen.make_primitive(c["ops"])
    k = gen.make_kpoint(c["k"], R)
    idx = oracle.little_group(R, k)
    R, t = R[idx], t[idx]
    kin = cm.written("list", k) if c["aslist"] else k
    got = sut(get_factor_system_from_little_group, R, t, kin)
    table = common(R, t, k, None, got, ctx)
    # it is the factor system of the small representations stripped of exp(-2 pi i k.w)
    if len(R) <= 16:
        irreps, _ = sut(enumerate_small_representations, R, t, k)
        phase = np.exp(2j * np.pi * (t @ k))
        for a, g in enumerate(irreps):
            oracle.check_law(g * phase[:, None, None], table, got, what=f"co-group representation {a}")


def run_mag(c, ctx):
    R, t, tr = gen.make_primitive(c["ops"])
    k = gen.make_kpoint(c["k"], R, tr)
    idx = oracle.little_group(R, k, tr)
    R, t, tr = R[idx], t[idx], tr[idx]
    kin = cm.written("list", k) if c["aslist"] else k
    got = sut(get_factor_system_from_little_group, R, t, kin, tr)
    common(R, t, k, tr, got, ctx)
    if tr.any():
        ctx.label("with anti-unitary operations")


CAMPAIGNS = [
    Campaign("space groups and k-points", s_prim, run_prim, cm.hall_strata, 8, 120),
    Campaign("magnetic space groups and k-points", s_mag, run_mag, cm.uni_shards(96), 20, 20),
]
REGRESSIONS = []
