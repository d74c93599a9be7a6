"""P27: the numerical helpers compute what their documentation says."""

import itertools

import numpy as np
from hypothesis import strategies as st

from pbt import gen, oracle
from pbt.core import Campaign, require, sut
from pbt.props import common as cm

from spgrep.irreps import is_equivalent_irrep, purify_irrep_value, purify_real_irrep_value
from spgrep.representation import get_character, get_direct_product
from spgrep.utils import (
    get_symmetry_from_hall_number,
    grassmann_distance,
    is_integer_array,
    is_prime,
    mode_dot,
    ndarray2d_to_integer_tuple,
    nroot,
)

PROPERTY = "P27"
RULE = "non-trivial: not a number 0 or 1, a one-dimensional space, an empty tensor or a one-by-one matrix"
ASSUMPTIONS = [
    "roots on the boundary of the principal sector may come from either side",
    "values within a factor 1.2 of a tolerance are not judged",
]

seeds = st.integers(0, 10**6)


# ---- roots ----------------------------------------------------------------------------------


def s_root(_):
    return st.fixed_dictionaries(
        {
            "n": st.integers(1, 13),
            "arg": st.one_of(st.integers(-12, 12).map(lambda a: a / 12), st.integers(-999, 999).map(lambda a: a / 1000)),
            "abs": st.sampled_from([1.0, 1.0, 1.0, 1e-6, 0.3, 7.0, 1e5]),
            "eps": st.sampled_from([0, 0, 1e-15, -1e-15, 1e-9, -1e-9]),
            "kind": st.sampled_from(["complex", "np"]),
        }
    )


def run_root(c, ctx):
    z = c["abs"] * np.exp(1j * (np.pi * c["arg"] + c["eps"]))
    z = complex(z) if c["kind"] == "complex" else np.complex128(z)
    n = c["n"]
    w = sut(nroot, z, n)
    require(np.isfinite(w) and abs(w**n - z) < 1e-9 * abs(z), f"nroot({z}, {n})={w} is not an n-th root")
    require(abs(np.angle(w)) < np.pi / n + 1e-7, f"nroot({z}, {n})={w} has angle {np.angle(w)}, not the smallest one")
    ctx.trivial = n == 1
    if abs(c["arg"]) == 1:
        ctx.label("negative real number")


# ---- subspaces ------------------------------------------------------------------------------


def s_space(_):
    return st.fixed_dictionaries(
        {
            "n": st.integers(2, 8),
            "k": st.integers(1, 5),
            "l": st.integers(1, 5),
            "common": st.integers(0, 4),
            "complex": st.lists(st.booleans(), min_size=2, max_size=2),
            "ord": st.sampled_from(["min", "projection"]),
            "seed": seeds,
        }
    )


def rand(rng, shape, cplx):
    x = rng.normal(size=shape)
    return x + 1j * rng.normal(size=shape) if cplx else x


def projector(b):
    q, _ = np.linalg.qr(b.T)
    return q @ q.conj().T, q.T


def run_space(c, ctx):
    rng = np.random.default_rng(c["seed"])
    n = c["n"]
    k, l = min(c["k"], n), min(c["l"], n)
    cplx1, cplx2 = c["complex"]
    b1 = rand(rng, (k, n), cplx1)
    b2 = rand(rng, (l, n), cplx2)
    m = min(c["common"], k, l)
    if cplx1 and not cplx2:
        m = 0
    if m:
        # share m directions, mixed into both bases
        b2[:m] = rand(rng, (m, k), cplx2) @ b1
        mix = rand(rng, (l, l), cplx2)
        if np.linalg.cond(mix) < 50:
            b2 = mix @ b2
    if np.linalg.cond(b1) > 1e3 or np.linalg.cond(b2) > 1e3:
        ctx.trivial = True
        return
    P1, q1 = projector(b1)
    P2, q2 = projector(b2)
    d = min(k, l)
    cos2 = np.clip(np.sort(np.linalg.eigvalsh(P1 @ P2 @ P1))[::-1][:d], 0, 1)
    sin2 = np.clip(1 - cos2, 0, 1)
    want = np.sqrt(sin2[-1]) if c["ord"] == "min" else np.sqrt(np.mean(np.arcsin(np.sqrt(sin2)) ** 2))
    a1, a2 = b1.copy(), b2.copy()
    got = sut(grassmann_distance, b1, b2, c["ord"])
    tol = 1e-6
    require(np.ndim(got) == 0 and np.isfinite(got), f"distance {got}")
    require(abs(got - want) < tol, f"grassmann_distance({c['ord']}) = {got:.9f}, principal angles give {want:.9f}")
    require((a1 == b1).all() and (a2 == b2).all(), "grassmann_distance changed its arguments")
    require(abs(sut(grassmann_distance, b2, b1, ord=c["ord"]) - want) < tol, "grassmann_distance is not symmetric")
    got = sut(grassmann_distance, q1, q2, c["ord"], True)
    require(abs(got - want) < tol, f"with orthonormal bases and no orthonormalisation: {got:.9f} instead of {want:.9f}")
    mix = rand(rng, (k, k), cplx1)
    if np.linalg.cond(mix) < 50:
        got = sut(grassmann_distance, mix @ b1, b2, c["ord"])
        require(abs(got - want) < 1e-5, f"the distance depends on the basis: {got:.9f} instead of {want:.9f}")
    if c["ord"] == "min":
        ctx.label("default")
        require(abs(sut(grassmann_distance, b1, b2) - want) < tol, "the default distance is not 'min'")
    ctx.label("one space contains the other" if want < 1e-6 else "orthogonal directions" if abs(cos2[-1]) < 1e-9 else "generic")
    if k != l:
        ctx.label("different dimensions")
    if cplx1 != cplx2:
        ctx.label("a real and a complex basis")
    ctx.trivial = n < 2


# ---- mode products --------------------------------------------------------------------------


def s_mode(_):
    dims = st.lists(st.tuples(st.integers(1, 4), st.integers(1, 4)).map(list), min_size=1, max_size=4)
    kind = st.sampled_from(["real", "complex", "integer"])
    return st.fixed_dictionaries({"dims": dims, "tensor": kind, "kinds": st.lists(kind, min_size=4, max_size=4), "seed": seeds})


def rand_kind(rng, shape, kind):
    if kind == "integer":
        return rng.integers(-4, 5, size=shape)
    return rand(rng, shape, kind == "complex")


def run_mode(c, ctx):
    rng = np.random.default_rng(c["seed"])
    T = rand_kind(rng, tuple(a for a, _ in c["dims"]), c["tensor"])
    mats = [rand_kind(rng, m, kind) for m, kind in zip(c["dims"], c["kinds"])]
    keep = [T.copy()] + [m.copy() for m in mats]
    got = sut(mode_dot, T, mats)
    want = T
    for axis, m in enumerate(mats):
        want = np.moveaxis(np.tensordot(want, m, axes=(axis, 0)), -1, axis)
    require(got.shape == want.shape, f"mode_dot returns shape {got.shape}, expected {want.shape}")
    require(np.abs(got - want).max() < 1e-9, "mode_dot differs from the contraction it stands for")
    require(all((a == b).all() for a, b in zip(keep, [T] + mats)), "mode_dot changed its arguments")
    ctx.label(f"rank {len(mats)}", f"{c['tensor']} tensor")
    if len({c["tensor"], *c["kinds"][: len(mats)]}) > 1:
        ctx.label("mixed types")
    ctx.trivial = T.size == 1


# ---- integers -------------------------------------------------------------------------------


def s_integer(_):
    return st.fixed_dictionaries(
        {
            "values": st.lists(st.integers(-9, 9), min_size=1, max_size=12),
            "delta": st.sampled_from([0, 0, 1e-12, -1e-10, 3e-9, 1e-3, -0.01, 0.5, -0.49, 0.3]),
            "where": st.integers(0, 20),
            "tol": st.sampled_from([None, None, [0, 1e-2], [0, 1e-12], [1e-5, 1e-4]]),
            "shape": st.sampled_from(["flat", "matrix", "stack"]),
        }
    )


def run_integer(c, ctx):
    v = np.array(c["values"], dtype=float)
    i = c["where"] % len(v)
    v[i] += c["delta"]
    err = abs(v[i] - np.rint(v[i]))
    rtol, atol = c["tol"] or (1e-5, 1e-8)
    limit = atol + rtol * abs(v[i])
    arr = v if c["shape"] == "flat" else v[None, :] if c["shape"] == "matrix" else v[:, None, None]
    kw = {} if c["tol"] is None else {"rtol": rtol, "atol": atol}
    got = sut(is_integer_array, arr, **kw)
    if err < limit / 1.2:
        require(bool(got) is True, f"is_integer_array({v.tolist()}, {kw}) is False")
        ctx.label("integers within the tolerance")
    elif err > 1.2 * limit:
        require(bool(got) is False, f"is_integer_array({v.tolist()}, {kw}) is True")
        ctx.label("not integers")
    else:
        ctx.trivial = True
    if err < 0.4:
        m = np.resize(v, (3, 3))
        tup = sut(ndarray2d_to_integer_tuple, m)
        want = tuple(tuple(int(x) for x in row) for row in np.rint(m))
        require(tup == want and type(tup) is tuple and all(type(r) is tuple and all(type(x) is int for x in r) for r in tup), f"ndarray2d_to_integer_tuple gives {tup}")
        hash(tup)
        back = sut(ndarray2d_to_integer_tuple, np.rint(m).astype(int))
        require(back == want, "ndarray2d_to_integer_tuple differs between integer and float arrays")


def s_prime(_):
    return st.one_of(
        st.integers(-2, 400),
        st.tuples(st.integers(2, 30), st.integers(2, 30)).map(lambda p: p[0] * p[1]),
        st.sampled_from([p * p for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37)]),
    ).map(lambda n: {"n": n})


def run_prime(c, ctx):
    n = c["n"]
    want = n >= 2 and not any(n % d == 0 for d in itertools.takewhile(lambda d: d * d <= n, itertools.count(2)))
    require(bool(sut(is_prime, n)) is want, f"is_prime({n}) is {not want}")
    ctx.label("prime" if want else "not prime")
    ctx.trivial = n < 2


# ---- representations ------------------------------------------------------------------------


def s_product(_):
    return st.fixed_dictionaries(
        {"n": st.integers(1, 12), "d1": st.integers(1, 5), "d2": st.integers(1, 5), "c1": st.booleans(), "c2": st.booleans(), "seed": seeds}
    )


def run_product(c, ctx):
    rng = np.random.default_rng(c["seed"])
    a = rand(rng, (c["n"], c["d1"], c["d1"]), c["c1"])
    b = rand(rng, (c["n"], c["d2"], c["d2"]), c["c2"])
    got = sut(get_direct_product, a, b)
    want = np.array([np.kron(x, y) for x, y in zip(a, b)])
    require(got.shape == want.shape, f"direct product of shape {got.shape}, expected {want.shape}")
    require(np.abs(got - want).max() < 1e-10, "the direct product differs from the Kronecker products")
    ca, cb, cc = (sut(get_character, x) for x in (a, b, got))
    require(np.abs(ca - np.array([np.trace(x) for x in a])).max() < 1e-10, "the character is not the trace")
    require(np.abs(cc - ca * cb).max() < 1e-9, "the character of a direct product is not the product of characters")
    ctx.trivial = c["d1"] * c["d2"] == 1


# ---- purification ---------------------------------------------------------------------------

ROOTS = [0] + [np.exp(2j * np.pi * q / p) for p in (1, 2, 3, 4, 6) for q in range(p)]
REALS = [0, 1, -1, 0.5, -0.5, np.sqrt(3) / 2, -np.sqrt(3) / 2]


def s_purify(_):
    return st.fixed_dictionaries(
        {
            "n": st.integers(1, 6),
            "d": st.integers(1, 3),
            "real": st.booleans(),
            "atol": st.sampled_from([None, 1e-8, 1e-4]),
            "seed": seeds,
        }
    )


def run_purify(c, ctx):
    rng = np.random.default_rng(c["seed"])
    atol = c["atol"] or 1e-8
    kw = {} if c["atol"] is None else {"atol": c["atol"]}
    table = np.array(REALS if c["real"] else ROOTS)
    shape = (c["n"], c["d"], c["d"])
    base = table[rng.integers(len(table), size=shape)]
    noise = rng.choice([0, 0.3, 0.7, 5.0, 2e3], size=shape) * atol
    noise = noise * (rng.choice([-1.0, 1.0], size=shape) if c["real"] else np.exp(2j * np.pi * rng.random(shape)))
    x = base + noise
    f = purify_real_irrep_value if c["real"] else purify_irrep_value
    got = sut(f, x.copy(), **kw)
    require(got.shape == shape and np.all(np.isfinite(got)), "purified values are not finite")
    near = np.abs(x[..., None] - table).min(axis=-1)
    val = table[np.abs(x[..., None] - table).argmin(axis=-1)]
    snapped = near < atol / 1.2
    require(np.abs(got - val)[snapped].max(initial=0) < 1e-14, "a value within the tolerance was not replaced by the exact one")
    require((got == x)[near > 1.2 * atol].all(), "a value outside the tolerance was changed")
    again = sut(f, got.copy(), **kw)
    require((again == got).all(), "purification is not idempotent")
    ctx.label("real" if c["real"] else "complex")
    ctx.trivial = shape == (1, 1, 1)


# ---- database -------------------------------------------------------------------------------


def s_hall(hall):
    return st.just({"hall": hall})


def run_hall(c, ctx):
    R, t = sut(get_symmetry_from_hall_number, c["hall"])
    r, v = gen.db_ops(c["hall"])
    require(np.issubdtype(np.asarray(R).dtype, np.integer) and np.shape(R) == r.shape and (R == r).all(), "rotations differ from the tabulated ones")
    require(np.shape(t) == v.shape and np.abs(t - v).max() < 1e-8, "translations differ from the tabulated ones")
    oracle.composition(np.asarray(R), np.asarray(t))
    ctx.trivial = c["hall"] == 1


CAMPAIGNS = [
    Campaign("n-th roots", s_root, run_root, cm.numbered(8), 150, 2000),
    Campaign("distances of subspaces", s_space, run_space, cm.numbered(32), 100, 2000),
    Campaign("mode products", s_mode, run_mode, cm.numbered(16), 100, 1500),
    Campaign("integer arrays", s_integer, run_integer, cm.numbered(16), 100, 1500),
    Campaign("primes", s_prime, run_prime, cm.numbered(8), 150, 1000),
    Campaign("direct products", s_product, run_product, cm.numbered(16), 60, 1000),
    Campaign("purification", s_purify, run_purify, cm.numbered(16), 100, 1500),
    Campaign("symmetry database", s_hall, run_hall, cm.hall_strata, 1, 1),
]
REGRESSIONS = [("primes", {"n": 1}), ("primes", {"n": 0}), ("primes", {"n": -1})]
_ = is_equivalent_irrep
