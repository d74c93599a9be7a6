"""P31: irreps of an abstract solvable group from a chain of cyclic extensions."""

import numpy as np
from hypothesis import strategies as st

from pbt import groups, oracle
from pbt.core import Campaign, require, sut
from pbt.props import common as cm

from spgrep.irreps import (
    decompose_representation,
    enumerate_unitary_irreps_from_regular_representation,
    enumerate_unitary_irreps_from_solvable_group_chain,
)

PROPERTY = "P31"
RULE = "non-trivial: a group of at least four elements, or a relabelled one, or a non-trivial factor system"
ASSUMPTIONS = [
    "chains are split: each generator meets the group below it only in the identity",
    "factor systems are normalised, mu(E, g) = mu(g, E) = 1",
]


def strategy(name):
    return st.fixed_dictionaries(
        {
            "name": st.just(name),
            "relabel": st.one_of(st.none(), st.integers(0, 9999), st.integers(0, 9999)),
            "pick": st.one_of(st.none(), st.integers(0, 9999)),
            "gauge": st.one_of(st.none(), st.integers(0, 9999)),
            "twist": st.integers(0, 4),
            "method": st.sampled_from(["chain", "chain", "chain", "regular", "decompose"]),
        }
    )


def factor_system(c, table, coords, e):
    """Bicharacter of two cyclic factors (when the group has them), times a random gauge."""
    n = len(table)
    w = np.ones((n, n), dtype=complex)
    info = groups.BICYCLIC.get(c["name"])
    twisted = False
    if info is not None:
        a, b, p = info
        q = c["twist"] % p
        x = np.array([co[a] for co in coords])
        y = np.array([co[b] for co in coords])
        w = np.exp(2j * np.pi * q * np.outer(y, x) / p)
        twisted = q != 0
    if c["gauge"] is not None:
        g = oracle.random_gauge(n, c["gauge"])
        g[e] = 1
        w = w * g[:, None] * g[None, :] / g[table]
    return w, twisted


def regular(table, w):
    n = len(table)
    out = np.zeros((n, n, n), dtype=complex)
    for i in range(n):
        out[i, table[i], np.arange(n)] = w[i]
    return out


def run(c, ctx):
    table, chain, coords = groups.make(c["name"], c["relabel"], c["pick"])
    n = len(table)
    e = next(i for i in range(n) if (table[i] == np.arange(n)).all())
    w, twisted = factor_system(c, table, coords, e)
    keep_t, keep_w, keep_c = table.copy(), w.copy(), list(chain)
    if c["method"] == "chain":
        irreps = sut(enumerate_unitary_irreps_from_solvable_group_chain, table, w, chain)
    elif c["method"] == "regular" or n > 24:
        irreps = sut(enumerate_unitary_irreps_from_regular_representation, regular(table, w))
    else:
        irreps = sut(decompose_representation, regular(table, w))
    require((keep_t == table).all() and (keep_w == w).all() and keep_c == list(chain), "the arguments are changed")
    for a, g in enumerate(irreps):
        oracle.check_shape(g, n, f"irrep[{a}]")
        oracle.check_unitary(g, oracle.FINE, f"irrep[{a}]")
        oracle.check_law(g, table, w, tol=oracle.FINE, what=f"irrep[{a}]")
    oracle.check_complete_set(irreps, n)
    ctx.label(c["method"])
    if twisted:
        ctx.label("cocycle that no gauge removes")
        require(all(g.shape[1] > 1 for g in irreps), "a one-dimensional irrep for a non-trivial cocycle")
    if max(g.shape[1] for g in irreps) > 1:
        ctx.label("irrep of dimension > 1")
    ctx.trivial = n < 4 and c["relabel"] is None and c["gauge"] is None


def s_cut(name):
    return st.fixed_dictionaries(
        {
            "name": st.just(name),
            "relabel": st.one_of(st.none(), st.integers(0, 9999)),
            "pick": st.one_of(st.none(), st.integers(0, 9999)),
            "gauge": st.one_of(st.none(), st.integers(0, 9999)),
            "twist": st.integers(0, 4),
            "cut": st.integers(1, 6),
        }
    )


def run_cut(c, ctx):
    """A chain that stops before the whole group gives no irreps, never those of a subgroup."""
    table, chain, coords = groups.make(c["name"], c["relabel"], c["pick"])
    if not chain:
        ctx.trivial = True
        return
    e = next(i for i in range(len(table)) if (table[i] == np.arange(len(table))).all())
    w, _ = factor_system(c, table, coords, e)
    cut = list(chain)[min(c["cut"], len(chain)) :]
    try:
        out = enumerate_unitary_irreps_from_solvable_group_chain(table, w, cut)
    except ValueError:
        out = []
    require(len(out) == 0, f"{len(out)} irreps from a chain that does not reach the group")
    ctx.label("no generators" if not cut else "chain of a proper subgroup")


CAMPAIGNS = [
    Campaign("solvable groups", strategy, run, cm.const(*groups.NAMES), 120, 1500),
    Campaign("chains that do not reach the group", s_cut, run_cut, cm.const(*groups.NAMES), 8, 80),
]
REGRESSIONS = []
