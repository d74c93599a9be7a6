"""P20: symmetry-adapted tensors span exactly the invariants."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen, oracle
from pbt.core import Campaign, require, sut
from pbt.props import common as cm
from pbt.props.p17 import direct_sum, permutations

from spgrep.irreps import enumerate_unitary_irreps
from spgrep.tensor import get_symmetry_adapted_tensors

PROPERTY = "P20"
RULE = "non-trivial: the group has at least two operations and some invariant exists"
ASSUMPTIONS = ["the vector representation is real orthogonal of dimension three (Cartesian axes in any orientation), rank one to four"]


def strategy(hall):
    return st.fixed_dictionaries(
        {
            "g": cm.st_point_group(hall),
            "lattice": gen.st_lattice(),
            "rank": st.sampled_from([1, 2, 2, 2, 3]),
            "real": st.booleans(),
            "axial": st.booleans(),
        }
    )


def act(g, T):
    for ax in range(T.ndim):
        T = np.moveaxis(np.tensordot(g, T, (1, ax)), 0, ax)
    return T


def run(c, ctx):
    R = cm.make_point_group(c["g"])
    L = gen.make_lattice(c["lattice"], R)
    rep = np.array([oracle.cartesian(L, r) for r in R])
    if c["axial"]:
        rep = rep * np.linalg.det(rep)[:, None, None]
        ctx.label("axial vectors")
    rank = c["rank"]
    judge(rep, R, rank, c["real"], ctx)


def judge(rep, R, rank, real, ctx):
    tensors = sut(get_symmetry_adapted_tensors, rep, R, rank, real=real)
    chi = np.einsum("kii->k", rep)
    want = (chi**rank).sum().real / len(R)
    require(len(tensors) == int(round(want)), f"{len(tensors)} tensors of rank {rank} returned, the space of invariants has dimension {want:.3f}")
    for a, T in enumerate(tensors):
        require(T.shape == (rep.shape[1],) * rank, f"tensor {a} has shape {T.shape}")
        size = np.linalg.norm(T)
        require(np.isfinite(size) and size > 1e-6, f"tensor {a} vanishes")
        if real:
            require(np.abs(np.imag(T)).max() < 1e-8, f"tensor {a} is not real")
        for i, g in enumerate(rep):
            err = np.abs(act(g, T) - T).max()
            require(err < oracle.TOL * max(1, size), f"tensor {a} of rank {rank} is changed by operation {i} ({err:.3g})")
    if tensors:
        B = np.array([T.ravel() / np.linalg.norm(T) for T in tensors])
        require(np.linalg.matrix_rank(B, tol=1e-5) == len(B), f"the {len(B)} tensors are linearly dependent")
    ctx.label(f"rank {rank}, " + ("real" if real else "complex"))
    ctx.trivial = len(R) == 1 or not tensors


def s_high(hall):
    return st.fixed_dictionaries(
        {"g": cm.st_point_group(hall), "lattice": gen.st_lattice(), "rank": st.just(4), "real": st.just(False), "axial": st.booleans()}
    )


def high_strata(tier):
    # high-symmetry groups: few vector components per irrep, rank four stays cheap
    out, seen = [], set()
    for s, h in gen.point_group_settings():
        if s in ("432", "-43m", "m-3m", "m-3", "23", "-42m", "422", "4mm", "622", "32") and s not in seen:
            seen.add(s)
            out.append(h)
    return out


def s_other(hall):
    return st.fixed_dictionaries(
        {
            "g": cm.st_point_group(hall),
            "kind": st.sampled_from(["sites", "sites", "sites in a basis", "irrep", "irreps"]),
            "site": st.lists(st.integers(-1, 1), min_size=3, max_size=3),
            "integer": st.booleans(),
            "pick": st.lists(st.integers(0, 99), min_size=2, max_size=2),
            "basis": st.integers(0, 9999),
            "rank": st.sampled_from([1, 2, 2, 3]),
            "real": st.booleans(),
        }
    )


def run_other(c, ctx):
    """Permutations of equivalent points, irreps and sums of two of them, in any basis."""
    R = cm.make_point_group(c["g"])
    irreps, _ = sut(enumerate_unitary_irreps, R)
    real = c["real"]
    if c["kind"].startswith("sites"):
        rep = permutations(R, c["site"])
        if rep.shape[1] > 8:
            ctx.trivial = True
            ctx.label("more than eight sites, skipped")
            return
        if c["kind"] == "sites in a basis":
            Q, _ = np.linalg.qr(np.random.default_rng(c["basis"]).normal(size=rep.shape[1:]))
            rep = Q @ rep @ Q.T
        elif c["integer"]:
            rep = rep.astype(int)
    else:
        real = False
        mult = [0] * len(irreps)
        for i in c["pick"][: 1 if c["kind"] == "irrep" else 2]:
            mult[i % len(irreps)] += 1
        rep = direct_sum(irreps, mult, c["basis"])
    chi = np.einsum("kii->k", rep)
    mult = [np.rint((np.einsum("kii->k", g).conj() @ chi).real / len(R)) for g in irreps]
    if max(mult) > 3:
        ctx.trivial = True
        ctx.label("an irrep occurs more than three times, skipped")
        return
    rank = c["rank"] if rep.shape[1] <= 4 else min(c["rank"], 2)
    judge(rep, R, rank, real, ctx)
    ctx.label(c["kind"], f"dimension {rep.shape[1]}")


CAMPAIGNS = [
    Campaign("point groups, rank 1 to 3", strategy, run, cm.pg_settings_strata, 6, 40),
    Campaign("other representations", s_other, run_other, cm.pg_settings_strata, 12, 100),
    Campaign("point groups, rank 4", s_high, run, high_strata, 2, 12),
]
REGRESSIONS = []
