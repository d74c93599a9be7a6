"""P12: spinor small representations of space groups."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen, oracle
from pbt.core import Campaign, require, sut
from pbt.props import common as cm
from pbt.props.p11 import check_factor

from spgrep.core import get_spacegroup_spinor_irreps_from_primitive_symmetry
from spgrep.spinor import enumerate_spinor_small_representations

PROPERTY = "P12"
RULE = "non-trivial: the little group has at least two operations"
ASSUMPTIONS = ["entries compared to 1e-8 times the dimension (1e-7 for k a little off a special point)"]


def strategy(hall):
    return st.fixed_dictionaries(
        {
            "ops": gen.st_primitive(hall),
            "k": st.one_of(gen.st_kpoint(eps=True), gen.st_kpoint(eps=True), gen.st_kpoint(eps=True), st.none()),
            "lattice": gen.st_lattice(),
            "method": cm.METHODS,
            "low": st.booleans(),
            "aslist": st.booleans(),
        }
    )


def run(c, ctx):
    R, t, _ = gen.make_primitive(c["ops"])
    L = gen.make_lattice(c["lattice"], R)
    k = np.zeros(3) if c["k"] is None else gen.make_kpoint(c["k"], R)
    kw = {} if c["k"] is None else {"kpoint": cm.written("list" if c["aslist"] else "array", k)}
    want = oracle.little_group(R, k)
    if c["low"]:
        m = want
        irreps, z, U = sut(enumerate_spinor_small_representations, L, R[m], t[m], method=c["method"], **kw)
    else:
        irreps, z, U, m = sut(get_spacegroup_spinor_irreps_from_primitive_symmetry, L, R, t, method=c["method"], **kw)
        cm.check_mapping(m, want)
    lr, lt = R[m], t[m]
    table, extra = oracle.composition(lr, lt)
    oracle.check_spin_matrices(L, lr, U)
    e = next(i for i in range(len(m)) if (lr[i] == np.eye(3)).all())
    check_factor(z, U, table, e)
    oracle.check_small_reps(irreps, lr, lt, k, spin=z, comp=(table, extra), tol=cm.entry_tol(c["k"]), what="spinor small rep")
    oracle.check_complete_set(irreps, len(m), what="spinor small reps")
    cm.group_labels(ctx, len(m), len(R), np.abs(oracle.factor_system(lr, lt, k) - 1).max() > 1e-6, k)
    ctx.label(c["method"])


CAMPAIGNS = [Campaign("space groups and k-points", strategy, run, cm.hall_strata, 8, 100)]
REGRESSIONS = []
