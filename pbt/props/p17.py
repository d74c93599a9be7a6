"""P17: projection of a representation onto an irrep."""

import warnings

import numpy as np
from hypothesis import strategies as st

from pbt import gen, oracle
from pbt.core import Campaign, require, sut
from pbt.props import common as cm
from pbt.props.p05 import build_factor_system

from spgrep.irreps import enumerate_unitary_irreps
from spgrep.representation import project_to_irrep

PROPERTY = "P17"
RULE = "non-trivial: some irrep of dimension or multiplicity above one is contained"
ASSUMPTIONS = [
    "representations are unitary",
    "for multiplicity above three the routine may instead warn that it found another number of copies",
]


def call(rep, irrep, **kw):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        out = sut(project_to_irrep, rep, irrep, **kw)
    return out, [str(x.message) for x in w]


def judge(rep, irreps, mult, ctx):
    n, dim, _ = rep.shape
    for a, (g, m) in enumerate(zip(irreps, mult)):
        basis, warned = call(rep, g)
        d = g.shape[1]
        if len(basis) != m and m > 3:
            require(any("Inconsistent number" in x for x in warned), f"irrep {a}: {len(basis)} copies found of {m}, without a warning")
            ctx.label("multiplicity above three, warned")
            continue
        require(len(basis) == m, f"irrep {a} (dim {d}): {len(basis)} copies found, it is contained {m} times")
        # adjusted tolerances may be reported on the way, but not that the outcome is doubtful
        doubt = [x for x in warned if "Inconsistent number" in x or "should return an integer" in x]
        require(not doubt, f"irrep {a}: {len(basis)} copies found, as many as contained, and yet a warning: {doubt[:1]}")
        if m == 0:
            continue
        # isotypic projector, from the definition
        chi = np.einsum("kii->k", g)
        P = d / n * np.einsum("k,kij->ij", chi.conj(), rep)
        for b, x in enumerate(basis):
            x = np.asarray(x)
            require(x.shape == (d, dim), f"irrep {a}: basis {b} has shape {x.shape}")
            err = np.abs(x @ x.conj().T - np.eye(d)).max()
            require(err < oracle.TOL, f"irrep {a}: basis {b} is not orthonormal ({err:.3g})")
            # g phi_i = sum_j phi_j D_ji(g)
            err = np.abs(np.einsum("gmn,in->gim", rep, x) - np.einsum("gji,jm->gim", g, x)).max()
            require(err < oracle.TOL, f"irrep {a}: basis {b} does not transform as the irrep ({err:.3g})")
            err = np.abs(x @ P.T - x).max()
            require(err < oracle.TOL, f"irrep {a}: basis {b} leaves the isotypic subspace ({err:.3g})")
        B = np.concatenate([np.asarray(x) for x in basis])
        require(np.linalg.matrix_rank(B, tol=1e-5) == d * m, f"irrep {a}: the {m} copies are linearly dependent")
        if m > 1:
            ctx.label("multiplicity above one")
        if d > 1:
            ctx.label("dimension above one")
    ctx.trivial = not any(m and (m > 1 or g.shape[1] > 1) for g, m in zip(irreps, mult))


def direct_sum(irreps, mult, seed):
    n = irreps[0].shape[0]
    dim = sum(m * g.shape[1] for m, g in zip(mult, irreps))
    rep = np.zeros((n, dim, dim), dtype=complex)
    o = 0
    for m, g in zip(mult, irreps):
        for _ in range(m):
            d = g.shape[1]
            rep[:, o : o + d, o : o + d] = g
            o += d
    if seed is None:
        return rep
    Q = oracle.haar(dim, seed)
    return Q @ rep @ Q.conj().T


def cap(mult, irreps, limit):
    out, total = [], 0
    for m, g in zip(mult, irreps):
        m = min(m, max(0, (limit - total) // g.shape[1]))
        out.append(m)
        total += m * g.shape[1]
    if total == 0:
        out[0] = 1
    return out


def s_sum(hall):
    return st.fixed_dictionaries(
        {
            "ops": gen.st_primitive(hall),
            "k": gen.st_kpoint(),
            "spin": st.booleans(),
            "gauge": st.one_of(st.none(), st.none(), st.integers(0, 9999)),
            "mult": st.lists(st.sampled_from([0, 0, 1, 1, 2, 3, 5]), min_size=12, max_size=12),
            "basis": st.one_of(st.none(), st.integers(0, 9999), st.integers(0, 9999)),
        }
    )


def run_sum(c, ctx):
    R, table, omega = build_factor_system(c)
    irreps, _ = sut(enumerate_unitary_irreps, R, omega)
    mult = cap((c["mult"] * 4)[: len(irreps)], irreps, 14)
    rep = direct_sum(irreps, mult, c["basis"])
    judge(rep, irreps, mult, ctx)
    if np.abs(omega - 1).max() > 1e-6:
        ctx.label("projective")


def permutations(R, site):
    """Permutations of the points equivalent to a site."""
    pts = []
    for r in R:
        y = tuple(int(v) for v in r @ np.array(site))
        if y not in pts:
            pts.append(y)
    perm = np.zeros((len(R), len(pts), len(pts)))
    for i, r in enumerate(R):
        for j, p in enumerate(pts):
            perm[i, pts.index(tuple(int(v) for v in r @ np.array(p))), j] = 1
    return perm


def s_natural(hall):
    return st.fixed_dictionaries(
        {
            "g": cm.st_point_group(hall),
            "site": st.lists(st.integers(-2, 2), min_size=3, max_size=3),
            "vector": st.booleans(),
            "type": st.sampled_from(["complex", "float", "int", "float"]),
        }
    )


def run_natural(c, ctx):
    """Permutations of the points equivalent to a site, alone or times displacements (molecular vibrations)."""
    R = cm.make_point_group(c["g"])
    n = len(R)
    perm = permutations(R, c["site"])
    npts = perm.shape[1]
    rep = perm.astype(c["type"])
    if c["vector"] and npts <= 12:
        L = gen.make_lattice({"diag": [10, 11, 13], "off": [0, 0, 0], "quat": [1, 2, 0, 1], "mirror": False, "scale": 1.0}, R)
        cart = np.array([oracle.cartesian(L, r) for r in R])
        rep = np.einsum("kij,kab->kiajb", perm, cart).reshape(n, 3 * npts, 3 * npts)
        ctx.label("displacements")
    elif npts > 24:
        ctx.trivial = True
        return
    irreps, _ = sut(enumerate_unitary_irreps, R)
    chi = np.einsum("kii->k", rep)
    mult = [int(round((np.einsum("kii->k", g).conj() @ chi).real / n)) for g in irreps]
    judge(rep, irreps, mult, ctx)


# ---- representations known to finite precision, tolerances of the caller -----------------------------

# (size of the noise, tolerance given or None): "a bit large tolerance setting to handle numerical noise"
NOISE = [(0, 1e-9), (0, 1e-8), (0, 1e-4), (0, 1e-3), (1e-9, None), (1e-9, 1e-4), (1e-8, None), (1e-7, 1e-4), (1e-5, 1e-3), (1e-5, None), (1e-4, 1e-5), (1e-6, 1e-8)]


def s_noise(hall):
    return st.fixed_dictionaries(
        {
            "ops": gen.st_primitive(hall),
            "k": gen.st_kpoint(eps=False),
            "spin": st.booleans(),
            "gauge": st.none(),
            "mult": st.lists(st.sampled_from([0, 0, 1, 1, 2]), min_size=12, max_size=12),
            "basis": st.integers(0, 9999),
            "blocks": st.booleans(),
            "noise": st.sampled_from(NOISE),
        }
    )


def run_noise(c, ctx):
    R, table, omega = build_factor_system(c)
    irreps, _ = sut(enumerate_unitary_irreps, R, omega)
    mult = cap((c["mult"] * 4)[: len(irreps)], irreps, 14)
    noise, atol = c["noise"]
    beyond = noise > 0.05 * (1e-6 if atol is None else atol)
    if beyond:
        mult[-1] += 12 // irreps[-1].shape[1]
    rep = direct_sum(irreps, mult, None if c["blocks"] else c["basis"])
    dim = rep.shape[1]
    rng = np.random.default_rng(c["basis"] + 1)
    rep = rep + noise * (rng.uniform(-1, 1, rep.shape) + 1j * rng.uniform(-1, 1, rep.shape))
    kw = {} if atol is None else {"atol": atol}
    seen = False
    for a, (g, m) in enumerate(zip(irreps, mult)):
        d = g.shape[1]
        if m > 3 or (beyond and dim < 8 + d * (m + 3)):
            # noise above the tolerance is told apart by adjusting the tolerance, provided there is room for too many copies
            continue
        basis, warned = call(rep, g, **kw)
        require(len(basis) == m, f"irrep {a} (dim {d}): {len(basis)} copies found of {m}; noise {noise}, atol {atol}")
        doubt = [x for x in warned if "Inconsistent number" in x]
        require(not doubt, f"irrep {a}: as many copies found as contained, and yet a warning: {doubt[:1]}")
        for b, x in enumerate(basis):
            tol = oracle.TOL + 1000 * noise
            err = np.abs(x @ x.conj().T - np.eye(d)).max()
            require(err < tol, f"irrep {a}: basis {b} is not orthonormal ({err:.3g}); noise {noise}, atol {atol}")
            err = np.abs(np.einsum("gmn,in->gim", rep, x) - np.einsum("gji,jm->gim", g, x)).max()
            require(err < tol, f"irrep {a}: basis {b} does not transform as the irrep ({err:.3g}); noise {noise}, atol {atol}")
        if m:
            seen = True
            B = np.concatenate([np.asarray(x) for x in basis])
            require(np.linalg.svd(B, compute_uv=False)[d * m - 1] > 1e-3, f"irrep {a}: the {m} copies are linearly dependent; noise {noise}, atol {atol}")
    ctx.label("noise beyond the tolerance" if beyond else "noise within the tolerance" if noise else "no noise")
    ctx.trivial = not seen or len(R) == 1


CAMPAIGNS = [
    Campaign("direct sums", s_sum, run_sum, cm.hall_strata, 5, 60),
    Campaign("sites and displacements", s_natural, run_natural, cm.pg_settings_strata, 6, 60),
    Campaign("noise and tolerances", s_noise, run_noise, cm.hall_strata, 3, 40),
]
REGRESSIONS = []
