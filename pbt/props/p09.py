"""P09: physically irreducible small representations of space groups."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen, oracle
from pbt.core import Campaign, Violation, require, sut
from pbt.props import common as cm

from spgrep.core import get_spacegroup_irreps_from_primitive_symmetry
from spgrep.irreps import enumerate_small_representations

PROPERTY = "P09"
RULE = "non-trivial: the little group has at least two operations"
ASSUMPTIONS = [
    "for 2k not a reciprocal-lattice vector, which irreps may be left out is known finding PIR-PAIR; everything returned is judged",
]
PAIR = "PIR-PAIR"


def k_invariant():
    """k equivalent to -k."""
    return st.fixed_dictionaries(
        {
            "s": st.lists(st.sampled_from([0, 12]), min_size=3, max_size=3),
            "line": st.none(),
            "x": st.none(),
            "G": st.lists(st.integers(-2, 2), min_size=3, max_size=3),
            "eps": st.just(0),
        }
    )


def strategy(hall):
    return st.fixed_dictionaries(
        {"ops": gen.st_primitive(hall), "k": st.one_of(k_invariant(), gen.st_kpoint()), "method": cm.METHODS, "low": st.booleans(), "aslist": st.booleans()}
    )


def call(c, R, t, k, ctx, want):
    """Both entry points for the same (little) group."""
    kin = cm.written("list", k) if c["aslist"] else k
    ind = None
    if c["low"]:
        R, t = R[want], t[want]
        irreps, ind = sut(enumerate_small_representations, R, t, kin, real=True, method=c["method"])
        require(len(ind) == len(irreps), "one indicator per irrep expected")
    else:
        irreps, m = sut(get_spacegroup_irreps_from_primitive_symmetry, R, t, kin, real=True, method=c["method"])
        cm.check_mapping(m, want)
        R, t = R[m], t[m]
    return R, t, irreps, ind


def run(c, ctx):
    R, t, _ = gen.make_primitive(c["ops"])
    k = gen.make_kpoint(c["k"], R)
    want = oracle.little_group(R, k)
    R, t, irreps, ind = call(c, R, t, k, ctx, want)
    n = len(R)
    table, extra = oracle.composition(R, t)
    extra = np.rint(extra)
    require(len(irreps) > 0, "no irrep returned")
    for a, g in enumerate(irreps):
        oracle.check_shape(g, n, f"real irrep[{a}]")
        require(np.isrealobj(g), f"real irrep[{a}] has dtype {g.dtype}")
        oracle.check_unitary(g, what=f"real irrep[{a}] (orthogonality)")
    ctx.trivial = n == 1
    if np.abs(2 * k - np.rint(2 * k)).max() < 1e-9:
        mult = np.rint(np.cos(2 * np.pi * (extra @ k)))
        for a, g in enumerate(irreps):
            oracle.check_law(g, table, mult, what=f"real irrep[{a}]")
        kinds = oracle.check_real_complete_set(irreps, n, ind)
        ctx.label("2k = 0")
        ctx.label(*sorted({f"2k = 0, type {x}" for x in kinds}))
        if np.abs(mult - 1).max() > 0.5:
            ctx.label("2k = 0, translations represented by -1")
        return
    # complex pair: D = [[Re G, Im G], [-Im G, Re G]] with D(E, T) the stated rotation by 2 pi k.T
    require(ind is None or all(int(i) == 0 for i in ind), f"indicators {ind} for 2k not equivalent to zero")
    theta = 2 * np.pi * (extra @ k)
    small = []
    for a, g in enumerate(irreps):
        d2 = g.shape[1]
        require(d2 % 2 == 0, f"real irrep[{a}] has odd dimension {d2} although k and -k are inequivalent")
        d = d2 // 2
        J = np.kron(np.array([[0.0, -1.0], [1.0, 0.0]]), np.eye(d))
        for i in range(n):
            rhs = np.cos(theta[i])[:, None, None] * np.eye(d2) + np.sin(theta[i])[:, None, None] * J
            err = np.abs(g[i] @ g - rhs @ g[table[i]]).max()
            require(err < oracle.TOL * d2, f"real irrep[{a}]: multiplication law with translations as stated rotations broken at operation {i} by {err:.3g}")
        small.append(g[:, :d, :d] + 1j * g[:, :d, d:])
    mult = np.exp(-1j * theta)
    for a, g in enumerate(small):
        oracle.check_law(g, table, mult, what=f"complex block of real irrep[{a}]")
    ch = np.array(oracle.characters(small))
    gram = ch @ ch.conj().T / n
    require(np.abs(gram - np.eye(len(small))).max() < 1e-5, "real irreps at k not equivalent to -k are reducible or repeated")
    ctx.label("2k != 0")
    total = sum(g.shape[1] ** 2 for g in small)
    if total == n:
        return
    # known finding: an irrep whose coset character is the conjugate of a returned one is left out
    full, _ = sut(enumerate_small_representations, R, t, k)
    for g in full:
        x = np.einsum("kii->k", g)
        if np.abs(ch @ x.conj()).max() / n > 0.5:
            continue
        pair = ch @ x  # the code pairs x with a returned irrep when this rounds to the group order
        if not (np.abs(pair.real - n) < 0.5 + 1e-6).any():
            raise Violation(f"an irrep of dimension {g.shape[1]} at k not equivalent to -k is missing, and it is not the conjugate of a returned one")
        total += g.shape[1] ** 2
    require(total == n, f"returned and left-out irreps do not make a complete set: {total} for {n}")
    ctx.known.append(PAIR)
    ctx.label("2k != 0, irreps left out (known finding)")


def saved(hall, s, **kw):
    return {"ops": {"hall": hall, "uni": [], "shift": None, "order": None, "wrap": 0, **kw}, "k": {"s": s, "line": None, "x": None, "G": [0, 0, 0], "eps": 0}, "method": "Neto", "low": False, "aslist": False}


NAME = "space groups and k-points"
CAMPAIGNS = [Campaign(NAME, strategy, run, cm.hall_strata, 8, 120)]
REGRESSIONS = [
    (NAME, saved(463, [8, 8, 12])),  # H of P6_1 (known finding)
    (NAME, saved(124, [6, 6, 6])),  # W of I2_12_12_1: indicator used to be evaluated where it is undefined
    (NAME, {**saved(124, [6, 6, 6]), "aslist": True}),
    (NAME, saved(341, [6, 6, 6], shift=[0.125, 0.125, 0.125])),
    (NAME, saved(345, [6, 6, 6], shift=[0.125, 0.125, 0.125])),
]
