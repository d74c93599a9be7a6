"""P26: the checking predicates accept what is valid and reject what is not."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen, oracle
from pbt.core import Ambiguous, Campaign, require, sut
from pbt.props import common as cm
from pbt.props.p05 import build_factor_system
from pbt.props.p17 import cap, direct_sum

from spgrep.group import check_cocycle_condition
from spgrep.irreps import enumerate_small_representations, enumerate_unitary_irreps
from spgrep.representation import check_spacegroup_representation, is_representation, is_unitary

PROPERTY = "P26"
RULE = "non-trivial: the group has at least two operations; for plain lists of matrices, dimension at least two"
ASSUMPTIONS = ["corruptions change the judged identity by at least 1e-3; smaller ones are not judged"]

CORRUPTIONS = ["none", "none", "phase", "entry", "swap", "scale", "conj", "factor", "identity"]


def corrupt(rep, how, seed):
    rng = np.random.default_rng(seed)
    n, d, _ = rep.shape
    out = rep.copy()
    i = int(rng.integers(n))
    if how == "phase":
        out[i] = out[i] * np.exp(1j * rng.uniform(0.05, 3.0))
    elif how == "entry":
        a, b = rng.integers(d, size=2)
        out[i, a, b] += rng.choice([0.01, -0.3, 0.5j])
    elif how == "swap":
        j = int(rng.integers(n))
        out[[i, j]] = out[[j, i]]
    elif how == "scale":
        out[i] = out[i] * rng.choice([0.97, 1.05, 2.0])
    elif how == "conj":
        out[i] = out[i].conj()
    elif how == "identity":
        out[i] = np.eye(d)
    return out


def defect(rep, table, mult):
    n = len(table)
    return max(np.abs(rep[i] @ rep - mult[i][:, None, None] * rep[table[i]]).max() for i in range(n))


def verdict(x, what, got, ok_below=1e-9, bad_above=1e-3):
    if x < ok_below:
        require(bool(got) is True, f"{what} rejects a valid input (defect {x:.2g})")
        return "valid"
    if x > bad_above:
        require(bool(got) is False, f"{what} accepts an invalid input (defect {x:.2g})")
        return "invalid"
    raise Ambiguous


def s_rep(hall):
    return st.fixed_dictionaries(
        {
            "ops": gen.st_primitive(hall),
            "k": gen.st_kpoint(),
            "spin": st.booleans(),
            "gauge": st.one_of(st.none(), st.integers(0, 9999)),
            "mult": st.lists(st.sampled_from([0, 1, 1, 2]), min_size=6, max_size=6),
            "basis": st.one_of(st.none(), st.integers(0, 9999)),
            "how": st.sampled_from(CORRUPTIONS),
            "seed": st.integers(0, 9999),
            "stretch": st.booleans(),
        }
    )


def clean(g):
    """Project numerically computed unitary matrices back onto exact unitaries."""
    u, _, vh = np.linalg.svd(g)
    return u @ vh


def run_rep(c, ctx):
    R, table, omega = build_factor_system(c)
    n = len(R)
    if n > 24:
        ctx.trivial = True
        ctx.label("more than 24 operations, skipped")
        return
    irreps, _ = sut(enumerate_unitary_irreps, R, omega)
    irreps = [clean(g) for g in irreps]
    rep = direct_sum(irreps, cap((c["mult"] * 8)[: len(irreps)], irreps, 6), c["basis"])
    if c["stretch"] and rep.shape[1] > 1:
        # a similarity transformation keeps the law and spoils unitarity
        S = np.eye(rep.shape[1]) + 0.3 * np.diag(np.ones(rep.shape[1] - 1), 1)
        rep = np.linalg.inv(S) @ rep @ S
    w = omega.astype(complex)
    if c["how"] == "factor":
        rng = np.random.default_rng(c["seed"])
        i, j = rng.integers(n, size=2)
        w = w.copy()
        w[i, j] *= np.exp(1j * rng.choice([np.pi, 0.4, 2 * np.pi / 3]))
    else:
        rep = corrupt(rep, c["how"], c["seed"])
    x = defect(rep, table, w)
    v1 = verdict(x, "is_representation", sut(is_representation, rep, table, w))
    if np.abs(w - 1).max() < 1e-9:
        verdict(x, "is_representation without a factor system", sut(is_representation, rep, table))
    u = np.abs(rep @ np.conj(np.swapaxes(rep, 1, 2)) - np.eye(rep.shape[1])).max()
    v2 = verdict(u, "is_unitary", sut(is_unitary, rep))
    if np.abs(rep.imag).max() < 1e-12 and np.abs(w.imag).max() < 1e-12:
        verdict(x, "is_representation (real numbers)", sut(is_representation, rep.real, table, w.real))
        verdict(u, "is_unitary (real numbers)", sut(is_unitary, rep.real))
        ctx.label("real numbers")
    ctx.label(f"law {v1}", f"unitarity {v2}")
    ctx.trivial = n == 1


def s_space(hall):
    return st.fixed_dictionaries(
        {
            "ops": gen.st_primitive(hall),
            "k": gen.st_kpoint(),
            "how": st.sampled_from(CORRUPTIONS + ["k"]),
            "spin": st.booleans(),
            "seed": st.integers(0, 9999),
        }
    )


def run_space(c, ctx):
    R, t, _ = gen.make_primitive(c["ops"])
    k = gen.make_kpoint(c["k"], R)
    idx = oracle.little_group(R, k)
    R, t = R[idx], t[idx]
    n = len(R)
    if n > 24:
        ctx.trivial = True
        ctx.label("more than 24 operations, skipped")
        return
    table, extra = oracle.composition(R, t)
    extra = np.rint(extra)
    z = None
    w = oracle.factor_system(R, t, k)
    if c["spin"]:
        L = gen.make_lattice({"diag": [10, 11, 13], "off": [0, 0, 0], "quat": [1, 0, 0, 0], "mirror": False, "scale": 1.0}, R)
        z = np.rint(oracle.spin_factor(oracle.spin_matrices(L, R), table).real)
        w = w * z
        irreps, _ = sut(enumerate_unitary_irreps, R, w)
    else:
        irreps, _ = sut(enumerate_unitary_irreps, R, w)
    g = clean(irreps[c["seed"] % len(irreps)]) * np.exp(-2j * np.pi * (t @ k))[:, None, None]
    if c["how"] == "factor":
        if z is None:
            ctx.trivial = True
            return
        rng = np.random.default_rng(c["seed"])
        i, j = rng.integers(n, size=2)
        z = z.copy()
        z[i, j] *= -1
    elif c["how"] == "k":
        k = k + np.array([0.21, 0.13, -0.07])
    else:
        g = corrupt(g, c["how"], c["seed"])
    mult = np.exp(-2j * np.pi * (extra @ k)) * (1 if z is None else z)
    x = defect(g, table, mult)
    args = (R, t, k, g) if z is None else (R, t, k, g, z)
    v = verdict(x, "check_spacegroup_representation", sut(check_spacegroup_representation, *args), 1e-8)
    if np.abs(g.imag).max() < 1e-12:
        args = (R, t, k, g.real) if z is None else (R, t, k, g.real, z)
        verdict(x, "check_spacegroup_representation (real numbers)", sut(check_spacegroup_representation, *args), 1e-8)
        ctx.label("real numbers")
    ctx.label(v, "with spinor factor system" if z is not None else "without spinor factor system")
    ctx.trivial = n == 1


def s_conv(halls):
    return st.fixed_dictionaries({"hall": st.sampled_from(halls), "k": gen.st_kpoint(), "how": st.sampled_from(CORRUPTIONS[:-2]), "seed": st.integers(0, 9999)})


def run_conv(c, ctx):
    """Conventional cell: the operations include the centring translations."""
    R, t = gen.db_ops(c["hall"])
    cents = np.array([gen.fl(v) for v in gen._centring_vectors(R, t)])
    k = gen.make_kpoint(c["k"], R)
    idx = oracle.little_group(R, k, lattice_vecs=cents)
    R, t = R[idx], t[idx]
    if len(R) > 24:
        ctx.trivial = True
        ctx.label("more than 24 operations, skipped")
        return
    # small representation of the conventional operations from one of the coset representatives
    first = {}
    for i, r in enumerate(R):
        first.setdefault(r.tobytes(), i)
    reps = sorted(first.values())
    rows = [reps.index(first[r.tobytes()]) for r in R]
    # small representation of the coset representatives: multiplication modulo the full lattice
    P = gen.fl(gen.primitive_basis_of([list(v) for v in gen._centring_vectors(*gen.db_ops(c["hall"]))]))
    Pi = np.linalg.inv(P)
    pr = np.array([np.rint(Pi @ R[i] @ P).astype(int) for i in reps])
    pt = np.array([Pi @ t[i] for i in reps])
    pk = P.T @ k
    irreps, _ = sut(enumerate_small_representations, pr, pt, pk)
    g0 = irreps[c["seed"] % len(irreps)]
    g0 = clean(g0)
    phase = np.exp(-2j * np.pi * np.array([k @ (t[i] - t[reps[rows[i]]]) for i in range(len(R))]))
    g = g0[rows] * phase[:, None, None]
    g = corrupt(g, c["how"], c["seed"])
    table, extra = oracle.composition(R, t)
    x = defect(g, table, np.exp(-2j * np.pi * (np.rint(extra) @ k)))
    # every translation of the crystal, centring included, has to act as its Bloch phase
    x = max(x, np.abs(g - g[[first[r.tobytes()] for r in R]] * phase[:, None, None]).max())
    v = verdict(x, "check_spacegroup_representation (conventional cell)", sut(check_spacegroup_representation, R, t, k, g), 1e-8)
    if len(cents) > 1:
        ctx.label(f"{v}, centred cell")
    ctx.trivial = len(R) == 1


def s_cocycle(halls):
    return st.sampled_from(halls).flatmap(s_cocycle_one)


def s_cocycle_one(hall):
    return st.fixed_dictionaries(
        {
            "ops": gen.st_primitive(hall),
            "k": gen.st_kpoint(),
            "spin": st.booleans(),
            "gauge": st.one_of(st.none(), st.integers(0, 9999)),
            "how": st.sampled_from(["none", "one", "sign", "row", "random", "drop"]),
            "seed": st.integers(0, 9999),
        }
    )


def run_cocycle(c, ctx):
    R, table, omega = build_factor_system(c)
    n = len(R)
    if n > 12:
        ctx.trivial = True
        ctx.label("more than 12 operations, skipped")
        return
    rng = np.random.default_rng(c["seed"])
    w = omega.astype(complex).copy()
    i, j = rng.integers(n, size=2)
    if c["how"] == "one":
        w[i, j] *= np.exp(1j * rng.uniform(0.1, 3))
    elif c["how"] == "sign":
        w[i, j] *= -1
    elif c["how"] == "row":
        w[i] *= -1
    elif c["how"] == "random":
        w = np.exp(2j * np.pi * rng.random((n, n)))
    elif c["how"] == "drop":
        if n < 3:
            ctx.trivial = True
            return
        keep = [a for a in range(n) if a != i]
        got = sut(check_cocycle_condition, R[keep], w[np.ix_(keep, keep)])
        require(bool(got) is False, "check_cocycle_condition accepts operations that do not form a group")
        ctx.label("not a group")
        return
    x = oracle.cocycle_defect(w, table)
    v = verdict(x, "check_cocycle_condition", sut(check_cocycle_condition, R, w))
    ctx.label(v)
    ctx.trivial = n == 1


def s_tolerance(hall):
    return st.fixed_dictionaries(
        {
            "ops": gen.st_primitive(hall),
            "k": gen.st_kpoint(eps=False),
            "basis": st.one_of(st.none(), st.integers(0, 9999)),
            "which": st.sampled_from(["rtol", "atol", "space group rtol"]),
            "exponent": st.floats(-6.0, -1.5),
            "ratio": st.sampled_from([0.02, 0.1, 10, 100]),
            "pick": st.integers(0, 99),
            "seed": st.integers(0, 9999),
        }
    )


def run_tolerance(c, ctx):
    """One matrix is multiplied by 1 + delta: every product deviates by delta or twice that, relatively."""
    R, t, _ = gen.make_primitive(c["ops"])
    k = gen.make_kpoint(c["k"], R)
    idx = oracle.little_group(R, k)
    R, t = R[idx], t[idx]
    n = len(R)
    if n > 24:
        ctx.trivial = True
        ctx.label("more than 24 operations, skipped")
        return
    table, extra = oracle.composition(R, t)
    w = oracle.factor_system(R, t, k)
    irreps, _ = sut(enumerate_unitary_irreps, R, w)
    g = clean(irreps[c["pick"] % len(irreps)])
    if c["basis"] is not None:
        Q = oracle.haar(g.shape[1], c["basis"])
        g = Q @ g @ Q.conj().T
    if c["which"] == "space group rtol":
        g = g * np.exp(-2j * np.pi * (t @ k))[:, None, None]
        w = np.exp(-2j * np.pi * (np.rint(extra) @ k))
    if defect(g, table, w) > 1e-9:
        raise Ambiguous
    tol = 10 ** c["exponent"]
    g = g.copy()
    g[c["seed"] % n] *= 1 + c["ratio"] * tol
    if c["which"] == "rtol":
        got = sut(is_representation, g, table, w, rtol=tol)
    elif c["which"] == "atol":
        got = sut(is_representation, g, table, w, rtol=0.0, atol=tol)
    else:
        got = sut(check_spacegroup_representation, R, t, k, g, rtol=tol)
    want = c["ratio"] < 1
    require(bool(got) is want, f"{c['which']} = {tol:.2g}: a deviation of {c['ratio']} times as much is {'rejected' if want else 'accepted'}")
    ctx.label(f"{c['which']}: {'within' if want else 'beyond'}")
    ctx.trivial = n == 1


def s_unitary(_):
    return st.fixed_dictionaries(
        {
            "n": st.integers(1, 6),
            "dim": st.integers(1, 5),
            "how": st.sampled_from(["none", "none", "rows", "columns", "shear", "diagonal", "entry", "singular", "noise", "transpose", "phase"]),
            "real": st.booleans(),
            "seed": st.integers(0, 99999),
            "size": st.sampled_from([0.01, 0.1, 1.0]),
        }
    )


def run_unitary(c, ctx):
    """One member of a list of unitary matrices is replaced by something that resembles one."""
    rng = np.random.default_rng(c["seed"])
    n, d = c["n"], c["dim"]
    x = rng.normal(size=(n, d, d)) + (0 if c["real"] else 1j) * rng.normal(size=(n, d, d))
    g = np.array([clean(y) for y in x])
    i, how = int(rng.integers(n)), c["how"]
    extra = c["size"] * (rng.normal(size=(d, d)) + (0 if c["real"] else 1j) * rng.normal(size=(d, d)))
    m = g[i]
    if how == "rows":
        m = m + extra
        m = m / np.linalg.norm(m, axis=1, keepdims=True)
    elif how == "columns":
        m = m + extra
        m = m / np.linalg.norm(m, axis=0, keepdims=True)
    elif how == "shear":
        m = m @ (np.eye(d) + np.triu(extra, 1))
    elif how == "diagonal":
        s = np.exp(c["size"] * rng.normal(size=d))
        m = m @ np.diag(s / np.prod(s) ** (1 / d))
    elif how == "entry":
        m = m.copy()
        m[rng.integers(d), rng.integers(d)] += c["size"]
    elif how == "singular":
        m = m.copy()
        m[rng.integers(d)] = 0
    elif how == "noise":
        m = m + 1e-12 * extra
    elif how == "transpose":
        m = m.T
    elif how == "phase":
        m = m * np.exp(2j * np.pi * rng.random())
        g = g.astype(complex)
    g[i] = m
    u = np.abs(g @ np.conj(np.swapaxes(g, 1, 2)) - np.eye(d)).max()
    v = verdict(u, "is_unitary", sut(is_unitary, g))
    ctx.label(f"{how}: {v}")
    ctx.trivial = d == 1


CAMPAIGNS = [
    Campaign("projective representations", s_rep, run_rep, cm.hall_strata, 5, 60),
    Campaign("small representations", s_space, run_space, cm.hall_strata, 5, 60),
    Campaign("small representations in conventional cells", s_conv, run_conv, cm.hall_shards(96), 12, 12),
    Campaign("the caller's tolerances", s_tolerance, run_tolerance, cm.hall_strata, 3, 30),
    Campaign("lists of matrices", s_unitary, run_unitary, cm.numbered(16), 60, 1500),
    Campaign("factor systems", s_cocycle, run_cocycle, cm.hall_shards(96), 16, 16),
]
REGRESSIONS = []
