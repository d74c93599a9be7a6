"""P24: coset decomposition of magnetic space groups by the maximal space subgroup."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen, oracle
from pbt.core import Campaign, require, sut
from pbt.props import common as cm

from spgrep.group import decompose_by_maximal_space_subgroup

PROPERTY = "P24"
RULE = "non-trivial: the group has anti-unitary operations and at least four operations"
ASSUMPTIONS = ["translations compared modulo lattice vectors to 1e-6"]


def s_prim(unis):
    return st.fixed_dictionaries({"ops": st.sampled_from(unis).flatmap(gen.st_magnetic_primitive), "k": st.one_of(st.none(), gen.st_kpoint()), "bool": st.booleans()})


def s_conv(unis):
    return st.fixed_dictionaries({"uni_number": st.sampled_from(unis), "shift": gen.st_shift(), "order": gen.st_order(), "bool": st.booleans()})


def judge(R, t, tr, c, ctx):
    n = len(R)
    arg = tr.astype(bool) if c["bool"] else tr
    got = sut(decompose_by_maximal_space_subgroup, R, t, arg)
    if not tr.any():
        require(got is None, f"a type-I group is decomposed: {got}")
        ctx.trivial = True
        ctx.label("no anti-unitary operation")
        return
    require(got is not None and len(got) == 3, "no decomposition returned for a group with anti-unitary operations")
    xsg, anti, a0 = got
    xsg, anti, a0 = [int(i) for i in xsg], [int(i) for i in anti], int(a0)
    require(sorted(xsg) == list(np.flatnonzero(tr == 0)), "xsg_indices are not the unitary operations")
    require(0 <= a0 < n and tr[a0] == 1, f"coset representative {a0} is not anti-unitary")
    require(len(anti) == len(xsg), f"{len(anti)} anti-unitary partners for {len(xsg)} unitary operations")
    require(sorted(anti) == list(np.flatnonzero(tr == 1)), "time_reversal_indices are not the anti-unitary operations")
    for i, j in zip(xsg, anti):
        require((R[i] @ R[a0] == R[j]).all() and oracle.rint_dist(R[i] @ t[a0] + t[i] - t[j]).max() < 1e-6, f"operation {j} is not operation {i} times the coset representative")
    if len(xsg) > 1:
        ctx.label("pure anti-translation" if any((R[i] == np.eye(3)).all() for i in anti) else "no pure anti-translation")
    ctx.trivial = n < 4


def run_prim(c, ctx):
    R, t, tr = gen.make_primitive(c["ops"])
    if c["k"] is not None:
        k = gen.make_kpoint(c["k"], R, tr)
        idx = oracle.little_group(R, k, tr)
        R, t, tr = R[idx], t[idx], tr[idx]
    judge(R, t, tr, c, ctx)


def run_conv(c, ctx):
    R, t, tr = gen.db_magnetic_ops(c["uni_number"])
    t = gen.shift_origin(R, t, c["shift"], tr)
    p = gen.make_order(len(R), c["order"])
    judge(R[p].copy(), t[p].copy(), tr[p].copy(), c, ctx)


CAMPAIGNS = [
    Campaign("primitive operations and little groups", s_prim, run_prim, cm.uni_shards(96), 30, 30),
    Campaign("tabulated conventional operations", s_conv, run_conv, cm.uni_shards(96), 10, 10),
]
REGRESSIONS = []
