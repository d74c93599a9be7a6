"""P18: regular representations and decomposition into irreps."""

import warnings

import numpy as np
from hypothesis import strategies as st

from pbt import gen, oracle
from pbt.core import Campaign, require, sut
from pbt.props import common as cm
from pbt.props.p05 import build_factor_system
from pbt.props.p17 import cap, direct_sum, permutations, s_natural

from spgrep.irreps import (
    decompose_representation,
    enumerate_unitary_irreps,
    enumerate_unitary_irreps_from_regular_representation,
)
from spgrep.representation import get_projective_regular_representation, get_regular_representation

PROPERTY = "P18"
RULE = "non-trivial: the group has at least two operations"
ASSUMPTIONS = ["representations given to decompose_representation are unitary, of dimension at most 48"]


def s_regular(hall):
    return st.fixed_dictionaries(
        {"ops": gen.st_primitive(hall), "k": gen.st_kpoint(), "spin": st.booleans(), "gauge": st.one_of(st.none(), st.integers(0, 9999)), "decompose": st.booleans()}
    )


def judge_irreps(out, table, omega, what):
    n = len(table)
    for a, g in enumerate(out):
        oracle.check_shape(g, n, f"{what}[{a}]")
        oracle.check_unitary(g, what=f"{what}[{a}]")
        oracle.check_law(g, table, omega, what=f"{what}[{a}]")


def run_regular(c, ctx):
    R, table, omega = build_factor_system(c)
    n = len(R)
    reg = sut(get_regular_representation, R)
    want = np.zeros((n, n, n))
    for k in range(n):
        want[k, table[k], np.arange(n)] = 1
    require(reg.shape == (n, n, n) and np.array_equal(reg, want), "regular representation differs from its definition")
    preg = sut(get_projective_regular_representation, R, omega)
    for k in range(n):
        want[k, table[k], np.arange(n)] = 1
    pwant = want * np.array(omega)[:, None, :]
    require(preg.shape == (n, n, n) and np.abs(preg - pwant).max() < 1e-9, "projective regular representation differs from its definition")
    oracle.check_law(preg, table, omega, what="projective regular representation")
    if c["decompose"] or n > 24:
        out = sut(enumerate_unitary_irreps_from_regular_representation, preg)
        ctx.label("regular representation decomposed by its own routine")
    else:
        out = sut(decompose_representation, preg)
        ctx.label("regular representation decomposed by the general routine")
    judge_irreps(out, table, omega, "irrep of the regular representation")
    oracle.check_complete_set(out, n, what="irreps of the regular representation")
    ctx.trivial = n == 1


def s_sum(hall):
    return st.fixed_dictionaries(
        {
            "ops": gen.st_primitive(hall),
            "k": gen.st_kpoint(),
            "spin": st.booleans(),
            "gauge": st.one_of(st.none(), st.none(), st.integers(0, 9999)),
            "mult": st.lists(st.sampled_from([0, 0, 1, 1, 2, 3, 5]), min_size=12, max_size=12),
            "basis": st.one_of(st.none(), st.integers(0, 9999), st.integers(0, 9999)),
        }
    )


def run_sum(c, ctx):
    R, table, omega = build_factor_system(c)
    irreps, _ = sut(enumerate_unitary_irreps, R, omega)
    mult = cap((c["mult"] * 4)[: len(irreps)], irreps, 24)
    rep = direct_sum(irreps, mult, c["basis"])
    out = sut(decompose_representation, rep)
    judge_irreps(out, table, omega, "component")
    cm.match_characters(out, [g for g, m in zip(irreps, mult) if m], what="components found against components put in")
    if max(mult) > 1:
        ctx.label("repeated component")
    if np.abs(omega - 1).max() > 1e-6:
        ctx.label("projective")
    ctx.trivial = len(R) == 1 or rep.shape[1] == 1


def run_natural(c, ctx):
    """Permutation and displacement representations decompose into exactly the irreps they contain."""
    R = cm.make_point_group(c["g"])
    n = len(R)
    rep = permutations(R, c["site"])
    table = oracle.point_table(R)
    out = sut(decompose_representation, rep.astype(c["type"]))
    judge_irreps(out, table, np.ones((n, n)), "component")
    irreps, _ = sut(enumerate_unitary_irreps, R)
    chi = np.einsum("kii->k", rep)
    cm.match_characters(out, [g for g in irreps if abs(np.einsum("kii->k", g).conj() @ chi) / n > 0.5], what="components of a permutation representation")
    ctx.trivial = rep.shape[1] == 1


def s_loose(hall):
    return st.fixed_dictionaries(
        {
            "ops": gen.st_primitive(hall),
            "k": gen.st_kpoint(),
            "spin": st.booleans(),
            "gauge": st.one_of(st.none(), st.integers(0, 9999)),
            "rtol": st.sampled_from([1e-7, 1e-3, 1e-2, 0.05, 0.1, 0.2]),
            "trials": st.sampled_from([1, 2, 4, 300, 300]),
            "mult": st.lists(st.sampled_from([0, 0, 1, 1, 2]), min_size=12, max_size=12),
            "way": st.sampled_from(["regular", "general", "general"]),
        }
    )


def run_loose(c, ctx):
    """Whatever rtol and the number of trials: all irreps, or none with a warning."""
    R, table, omega = build_factor_system(c)
    n = len(R)
    few = c["trials"] < 300
    if n > (48 if few else 16):
        c = {**c, "trials": 4}
        few = True
    irreps, _ = sut(enumerate_unitary_irreps, R, omega)
    if c["way"] == "regular":
        f, rep = enumerate_unitary_irreps_from_regular_representation, sut(get_projective_regular_representation, R, omega)
        want = irreps
    else:
        mult = cap((c["mult"] * 4)[: len(irreps)], irreps, 12)
        f, rep = decompose_representation, direct_sum(irreps, mult, n)
        want = [g for g, m in zip(irreps, mult) if m]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        out = sut(f, rep, rtol=c["rtol"], max_num_random_generations=c["trials"])
    if len(out) == 0:
        require(len(w) > 0, "no irreps are returned and no warning is given")
        require(few or c["rtol"] > 0.1, f"no irreps found by {c['trials']} random matrices with rtol = {c['rtol']}")
        ctx.label("search given up with a warning")
    else:
        judge_irreps(out, table, omega, "component")
        cm.match_characters(out, want, tol=1e-3, what=f"components found with rtol = {c['rtol']}")
        ctx.label("few trials" if few else "many trials")
    ctx.trivial = n == 1


CAMPAIGNS = [
    Campaign("regular representations", s_regular, run_regular, cm.hall_strata, 4, 60),
    Campaign("direct sums", s_sum, run_sum, cm.hall_strata, 4, 60),
    Campaign("permutations of sites", s_natural, run_natural, cm.pg_settings_strata, 4, 40),
    Campaign("loose tolerance", s_loose, run_loose, cm.hall_strata, 3, 30),
]
REGRESSIONS = []
