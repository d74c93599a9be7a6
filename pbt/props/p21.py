"""P21: intrinsic (permutation) symmetry of tensors."""

from itertools import permutations

import numpy as np
from hypothesis import strategies as st

from pbt import gen, oracle
from pbt.core import Campaign, require, sut
from pbt.props import common as cm

from spgrep.tensor import apply_intrinsic_symmetry, get_symmetry_adapted_tensors

PROPERTY = "P21"
RULE = "non-trivial: rank at least two and at least one tensor with a non-vanishing symmetric part"
ASSUMPTIONS = [
    "completeness is required only when the symmetric parts are pairwise parallel or orthogonal (the documentation warns that tensors may be missed otherwise)",
    "symmetric parts between 1e-9 and 1e-3 of the tensor are not judged",
]


def symmetrise(T):
    perms = list(permutations(range(T.ndim)))
    return sum(np.transpose(T, p) for p in perms) / len(perms)


def judge(inputs, out, complete, ctx):
    """``complete``: expected number of results, or None."""
    shape = inputs[0].shape
    parts = [symmetrise(T / np.linalg.norm(T)) for T in inputs]
    sizes = [np.linalg.norm(p) for p in parts]
    for a, T in enumerate(out):
        require(T.shape == shape, f"result {a} has shape {T.shape}")
        require(abs(np.linalg.norm(T) - 1) < 1e-6, f"result {a} has norm {np.linalg.norm(T):.6f}")
        for p in permutations(range(T.ndim)):
            err = np.abs(np.transpose(T, p) - T).max()
            require(err < 1e-6, f"result {a} changes under index permutation {p} ({err:.3g})")
    big = [p for p, s in zip(parts, sizes) if s > 1e-9]
    if big:
        B = np.array([p.ravel() / np.linalg.norm(p) for p in big])
        u, s, vh = np.linalg.svd(B, full_matrices=False)
        V = vh[s > 1e-8]
        for a, T in enumerate(out):
            x = T.ravel()
            err = np.abs(x - (x @ V.conj().T) @ V).max()
            require(err < 1e-4, f"result {a} is not a combination of the symmetrised input tensors ({err:.3g})")
    if out:
        M = np.array([T.ravel() for T in out])
        require(np.linalg.matrix_rank(M, tol=1e-4) == len(out), "results are linearly dependent")
    if any(s > 1e-3 for s in sizes):
        require(len(out) > 0, "no result although an input has a non-vanishing symmetric part")
    if all(s < 1e-9 for s in sizes):
        require(len(out) == 0, "a result although no input has a symmetric part")
    if complete is not None:
        require(len(out) == complete, f"{len(out)} results for {complete} mutually orthogonal symmetric parts")
    ctx.trivial = inputs[0].ndim == 1 or not out


def s_invariants(hall):
    return st.fixed_dictionaries({"g": cm.st_point_group(hall), "lattice": gen.st_lattice(), "rank": st.sampled_from([1, 2, 2, 3]), "real": st.booleans()})


def run_invariants(c, ctx):
    R = cm.make_point_group(c["g"])
    L = gen.make_lattice(c["lattice"], R)
    rep = np.array([oracle.cartesian(L, r) for r in R])
    tensors = sut(get_symmetry_adapted_tensors, rep, R, c["rank"], real=c["real"])
    if not tensors:
        ctx.trivial = True
        return
    copies = [T.copy() for T in tensors]
    out = sut(apply_intrinsic_symmetry, tensors)
    sizes = [np.linalg.norm(symmetrise(T)) / np.linalg.norm(T) for T in copies]
    judge(copies, out, None, ctx)
    for a, T in enumerate(out):
        for i, g in enumerate(rep):
            x = T
            for ax in range(x.ndim):
                x = np.moveaxis(np.tensordot(g, x, (1, ax)), 0, ax)
            require(np.abs(x - T).max() < 1e-4 / max(min(s for s in sizes if s > 1e-9), 1e-2), f"symmetrised tensor {a} is changed by operation {i}")
    ctx.label(f"rank {c['rank']}")


def s_random(_):
    return st.fixed_dictionaries(
        {
            "dim": st.integers(1, 4),
            "rank": st.sampled_from([1, 2, 2, 3, 3, 4, 4, 5]),
            "number": st.integers(1, 5),
            "seed": st.integers(0, 9999),
            "complex": st.booleans(),
            "kind": st.sampled_from(["orthogonal", "orthogonal", "generic", "repeated", "antisymmetric"]),
            "scale": st.sampled_from([1.0, 1e-3, 250.0, 1e-9, 1e8]),
        }
    )


def run_random(c, ctx):
    rng = np.random.default_rng(c["seed"])
    # tensors of rank five are kept small
    shape = (c["dim"] if c["rank"] < 5 else 1 + c["dim"] % 2,) * c["rank"]

    def rnd():
        T = rng.normal(size=shape)
        return T + 1j * rng.normal(size=shape) if c["complex"] else T

    complete = None
    if c["kind"] == "generic":
        tensors = [rnd() for _ in range(c["number"])]
        complete = None if len(tensors) > 1 else 1
    elif c["kind"] == "antisymmetric":
        tensors = [T - symmetrise(T) for T in (rnd() for _ in range(c["number"]))]
        tensors = [T for T in tensors if np.linalg.norm(T) > 1e-3]
        if not tensors:
            ctx.trivial = True
            return
        complete = 0
    else:
        # orthonormal symmetric parts plus a part without symmetric component
        basis = []
        for _ in range(c["number"]):
            T = symmetrise(rnd())
            for b in basis:
                T = T - np.vdot(b, T) * b
            if np.linalg.norm(T) > 1e-2:
                basis.append(T / np.linalg.norm(T))
        tensors = []
        for b in basis:
            A = rnd()
            A = A - symmetrise(A)
            tensors.append(b + A * rng.choice([0.0, 0.3, 1.0]))
        complete = len(basis)
        if c["kind"] == "repeated":
            tensors = tensors + [T * -2.0 for T in tensors]
        if not tensors:
            ctx.trivial = True
            return
    tensors = [T * c["scale"] for T in tensors]
    copies = [T.copy() for T in tensors]
    out = sut(apply_intrinsic_symmetry, tensors)
    for a, b in zip(tensors, copies):
        require(np.array_equal(a, b), "input tensors were modified")
    judge(copies, out, complete, ctx)
    ctx.label(c["kind"], f"rank {c['rank']}")


CAMPAIGNS = [
    Campaign("invariant tensors of point groups", s_invariants, run_invariants, cm.pg_settings_strata, 4, 40),
    Campaign("constructed tensors", s_random, run_random, cm.numbered(48), 40, 400),
]
REGRESSIONS = []
