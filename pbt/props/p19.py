"""P19: intertwiners, characters and equivalence."""

import warnings

import numpy as np
from hypothesis import strategies as st

from pbt import gen, oracle
from pbt.core import Campaign, require, sut
from pbt.props import common as cm
from pbt.props.p05 import build_factor_system

from spgrep.irreps import enumerate_unitary_irreps, is_equivalent_irrep
from spgrep.representation import get_character, get_direct_product, get_intertwiner

PROPERTY = "P19"
RULE = "non-trivial: the group has at least two operations"
ASSUMPTIONS = ["intertwiner equation judged to 1e-7"]


def strategy(hall):
    return st.fixed_dictionaries(
        {
            "ops": gen.st_primitive(hall),
            "k": gen.st_kpoint(eps=False),
            "spin": st.booleans(),
            "gauge": st.one_of(st.none(), st.integers(0, 9999)),
            "basis": st.one_of(st.none(), st.integers(0, 9999), st.integers(0, 9999)),
        }
    )


def run(c, ctx):
    R, table, omega = build_factor_system(c)
    n = len(R)
    irreps, _ = sut(enumerate_unitary_irreps, R, omega)
    chars = []
    for a, g in enumerate(irreps):
        d = g.shape[1]
        Q = np.eye(d) if c["basis"] is None else oracle.haar(d, c["basis"] + a)
        h = Q.conj().T @ g @ Q
        M = sut(get_intertwiner, g, h)
        require(M.shape == (d, d), f"intertwiner has shape {M.shape}")
        err = np.abs(g @ M - M @ h).max()
        require(err < oracle.TOL, f"irrep {a}: rep1 M differs from M rep2 by {err:.3g}")
        require(abs(np.linalg.det(M) - 1) < oracle.TOL, f"irrep {a}: intertwiner has determinant {np.linalg.det(M):.4f}")
        err = np.abs(M @ M.conj().T - np.eye(d)).max()
        require(err < oracle.TOL, f"irrep {a}: intertwiner between unitary irreps is not unitary ({err:.3g})")
        x, y = sut(get_character, g), sut(get_character, h)
        require(np.abs(x - np.einsum("kii->k", g)).max() < 1e-9, "character is not the trace")
        require(np.abs(x - y).max() < oracle.TOL, "character depends on the basis")
        require(bool(sut(is_equivalent_irrep, x, y)), f"irrep {a} is not found equivalent to itself in another basis")
        for turn in (-1, 1j, np.exp(2j * np.pi / 3)):
            # the same matrices times a phase are irreps of another factor system
            require(not sut(is_equivalent_irrep, x, turn * x), f"irrep {a} is found equivalent to itself times a phase")
        if np.abs(g.imag).max() < 1e-12:
            # the same in real (for one-dimensional ones: whole) numbers, on either side
            r = np.rint(g.real).astype(int) if np.abs(g - np.rint(g.real)).max() < 1e-12 else g.real
            for left, right in ((r, h), (h, r), (r, r)):
                M = sut(get_intertwiner, left, right)
                err = np.abs(left @ M - M @ right).max()
                require(M.shape == (d, d) and err < oracle.TOL, f"irrep {a} in real numbers: rep1 M differs from M rep2 by {err:.3g}")
                require(abs(np.linalg.det(M) - 1) < oracle.TOL, f"irrep {a} in real numbers: intertwiner has determinant {np.linalg.det(M):.4f}")
            require(np.abs(sut(get_character, r) - x).max() < 1e-9, f"irrep {a} in real numbers has another character")
            prod = sut(get_direct_product, r, h)
            require(np.abs(prod - np.array([np.kron(u, v) for u, v in zip(r, h)])).max() < 1e-9, "direct product of real and complex matrices is wrong")
            ctx.label(f"{r.dtype.kind} matrices")
        chars.append(x)
        if d > 1:
            ctx.label("dimension above one")
    for a in range(len(irreps)):
        for b in range(len(irreps)):
            require(bool(sut(is_equivalent_irrep, chars[a], chars[b])) == (a == b), f"equivalence of irreps {a} and {b} misjudged")
            if a < b and irreps[a].shape == irreps[b].shape and (a, b) in ((0, 1), (1, 2), (len(irreps) - 2, len(irreps) - 1)):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    M = sut(get_intertwiner, irreps[a], irreps[b])
                require(np.abs(M).max() < 1e-6, f"non-zero intertwiner between inequivalent irreps {a} and {b}")
    a, b = len(irreps) - 1, 0
    prod = sut(get_direct_product, irreps[a], irreps[b])
    want = np.array([np.kron(x, y) for x, y in zip(irreps[a], irreps[b])])
    require(prod.shape == want.shape and np.abs(prod - want).max() < 1e-9, "direct product differs from the Kronecker product")
    oracle.check_law(prod, table, omega * omega, what="direct product")
    ctx.trivial = n == 1


CAMPAIGNS = [Campaign("irreps of factor systems", strategy, run, cm.hall_strata, 6, 100)]
REGRESSIONS = []
