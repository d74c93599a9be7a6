"""P29: inputs outside the documented domain are rejected instead of answered wrongly."""

import warnings

import numpy as np
from hypothesis import strategies as st

from pbt import gen, groups, oracle
from pbt.core import Campaign, Violation, require, sut
from pbt.props import common as cm
from pbt.props.p14 import make_magnetic_point_group

import spgrep
from spgrep.corep import enumerate_spinor_small_corepresentations
from spgrep.irreps import (
    enumerate_small_representations,
    enumerate_unitary_irreps,
    enumerate_unitary_irreps_from_solvable_group_chain,
)
from spgrep.representation import frobenius_schur_indicator, get_direct_product, project_to_irrep
from spgrep.spinor import enumerate_spinor_small_representations
from spgrep.transform import get_crystal_system, get_primitive_transformation_matrix
from spgrep.utils import grassmann_distance

PROPERTY = "P29"
RULE = "non-trivial: the input differs from an acceptable one and has at least two operations or a dimension above one"
ASSUMPTIONS = ["centring translations differ from lattice vectors by at least 1e-3", "only ValueError counts as a rejection"]

LATTICE = {"diag": [10, 11, 13], "off": [0, 0, 0], "quat": [1, 0, 0, 0], "mirror": False, "scale": 1.0}


def rejected(f, what, *args, **kwargs):
    """The call must end in ValueError; returns its message."""
    name = getattr(f, "__name__", str(f))
    try:
        out = f(*args, **kwargs)
    except ValueError as e:
        return str(e)
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{name} raises {type(e).__name__} ({e}) instead of ValueError for {what}") from e
    raise Violation(f"{name} accepts {what} (returns {type(out).__name__})")


# ---- more than one pure translation ----------------------------------------------------------


def s_centred(halls):
    return st.sampled_from(halls).flatmap(
        lambda h: st.fixed_dictionaries(
            {
                "ops": gen.st_primitive(h),
                "k": gen.st_kpoint(),
                "source": st.sampled_from(["table", "insert", "insert"]),
                "vec": st.one_of(
                    st.lists(st.sampled_from([0, 6, 12, 8, 16]), min_size=3, max_size=3).map(lambda v: [a / 24 for a in v]),
                    st.lists(st.integers(-99, 99), min_size=3, max_size=3).map(lambda v: [a / 101 for a in v]),
                    st.sampled_from([[0.001, 0, 0], [0, 0, -0.002], [0, 0.0015, 0]]),
                ),
                "where": st.integers(0, 99),
                "replace": st.booleans(),
                "api": st.sampled_from(["linear", "linear", "real", "spinor", "spinor default k", "gray"]),
                "method": st.sampled_from(["Neto", "random"]),
            }
        )
    )


def run_centred(c, ctx):
    if c["source"] == "table":
        R, t = gen.db_ops(c["ops"]["hall"])
        p = gen.make_order(len(R), c["ops"]["order"])
        R, t = R[p].copy(), t[p].copy()
        if len(cm.centring_vectors(R, t)) < 2:
            ctx.trivial = True
            ctx.label("tabulated cell is primitive")
            return
    else:
        R, t, _ = gen.make_primitive(c["ops"])
        v = np.array(c["vec"])
        if np.abs(v - np.rint(v)).max() < 5e-4:
            ctx.trivial = True
            ctx.label("no translation added")
            return
        e = next(i for i in range(len(R)) if (R[i] == np.eye(3)).all())
        if c["replace"]:
            t[e] = v  # the only pure translation is not a lattice vector
        else:
            at = c["where"] % (len(R) + 1)
            R = np.insert(R, at, np.eye(3, dtype=int), axis=0)
            t = np.insert(t, at, v, axis=0)
    k = gen.make_kpoint(c["k"], R)
    kw = {"method": c["method"]}
    what = "operations with a translation that is not a lattice vector"
    if c["api"] in ("linear", "real"):
        rejected(spgrep.get_spacegroup_irreps_from_primitive_symmetry, what, R, t, k, real=c["api"] == "real", **kw)
    else:
        L = gen.make_lattice(LATTICE, R)
        if c["api"] == "gray":
            n = len(R)
            R, t = np.concatenate([R, R]), np.concatenate([t, t])
            p = gen.make_order(2 * n, c["where"])
            tr = np.array([0] * n + [1] * n)[p]
            rejected(spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry, what, L, R[p], t[p], tr, k, **kw)
        elif c["api"] == "spinor":
            rejected(spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry, what, L, R, t, kpoint=k, **kw)
        else:
            rejected(spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry, what, L, R, t, **kw)
    ctx.label(c["source"], c["api"])


# ---- unknown method --------------------------------------------------------------------------

APIS = [
    "prim", "prim real", "spinor", "spinor magnetic", "point", "point real", "spinor point", "spinor point magnetic",
    "small", "small spinor", "small corep", "unitary", "projective", "crystal", "spinor crystal", "magnetic crystal",
]  # fmt: skip


def s_method(halls):
    return st.sampled_from(halls).flatmap(
        lambda h: st.fixed_dictionaries(
            {
                "ops": gen.st_primitive(h),
                "k": gen.st_kpoint(),
                "api": st.sampled_from(APIS),
                "method": st.one_of(
                    st.sampled_from(["neto", "NETO", "Random", "RANDOM", "", " Neto", "Neto ", "random ", "neto-random", "Net", "rando", "chain", "regular", "None", "default"]),
                    st.text(min_size=0, max_size=8),
                ),
            }
        )
    )


def run_method(c, ctx):
    if c["method"] in ("Neto", "random"):
        ctx.trivial = True
        return
    R, t, _ = gen.make_primitive(c["ops"])
    L = gen.make_lattice(LATTICE, R)
    k = gen.make_kpoint(c["k"], R)
    m = oracle.little_group(R, k)
    lR, lt = R[m], t[m]
    n = len(R)
    gR, gt, gtr = np.concatenate([R, R]), np.concatenate([t, t]), np.array([0] * n + [1] * n)
    kw = {"method": c["method"]}
    what = f"the unknown method {c['method']!r}"
    a = c["api"]
    cell = (np.diag([3.0, 3.1, 3.4]), np.array([[0.0, 0, 0], [0.31, 0.12, 0.43]]), np.array([1, 2]))
    calls = {
        "prim": lambda: rejected(spgrep.get_spacegroup_irreps_from_primitive_symmetry, what, R, t, k, **kw),
        "prim real": lambda: rejected(spgrep.get_spacegroup_irreps_from_primitive_symmetry, what, R, t, k, real=True, **kw),
        "spinor": lambda: rejected(spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry, what, L, R, t, kpoint=k, **kw),
        "spinor magnetic": lambda: rejected(spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry, what, L, gR, gt, gtr, k, **kw),
        "point": lambda: rejected(spgrep.get_crystallographic_pointgroup_irreps_from_symmetry, what, R, **kw),
        "point real": lambda: rejected(spgrep.get_crystallographic_pointgroup_irreps_from_symmetry, what, R, real=True, **kw),
        "spinor point": lambda: rejected(spgrep.get_crystallographic_pointgroup_spinor_irreps_from_symmetry, what, L, R, **kw),
        "spinor point magnetic": lambda: rejected(spgrep.get_crystallographic_pointgroup_spinor_irreps_from_symmetry, what, L, gR, gtr, **kw),
        "small": lambda: rejected(enumerate_small_representations, what, lR, lt, k, **kw),
        "small spinor": lambda: rejected(enumerate_spinor_small_representations, what, L, lR, lt, k, **kw),
        "small corep": lambda: rejected(enumerate_spinor_small_corepresentations, what, L, gR, gt, gtr, np.zeros(3), **kw),
        "unitary": lambda: rejected(enumerate_unitary_irreps, what, lR, **kw),
        "projective": lambda: rejected(enumerate_unitary_irreps, what, lR, oracle.factor_system(lR, lt, k), **kw),
        "crystal": lambda: rejected(spgrep.get_spacegroup_irreps, what, *cell, k, **kw),
        "spinor crystal": lambda: rejected(spgrep.get_spacegroup_spinor_irreps, what, *cell, kpoint=k, **kw),
        "magnetic crystal": lambda: rejected(spgrep.get_spacegroup_spinor_irreps, what, *cell, np.array([1.0, 0.0]), kpoint=k, **kw),
    }
    calls[a]()
    ctx.label(a)


# ---- operations that are not a group ---------------------------------------------------------


def s_open(halls):
    return st.sampled_from(halls).flatmap(
        lambda h: st.fixed_dictionaries(
            {
                "ops": gen.st_primitive(h),
                "drop": st.integers(0, 99),
                "k": gen.st_kpoint(),
                "api": st.sampled_from(["point", "point real", "spinor point", "gray", "prim", "spinor", "small", "unitary"]),
                "method": st.sampled_from(["Neto", "random"]),
            }
        )
    )


def run_open(c, ctx):
    R, t, _ = gen.make_primitive(c["ops"])
    k = gen.make_kpoint(c["k"], R)
    if c["api"] in ("prim", "spinor", "small", "unitary"):
        m = oracle.little_group(R, k)
        R, t = R[m], t[m]
    else:
        k = np.zeros(3)
    n = len(R)
    L = gen.make_lattice(LATTICE, R)
    if n < 3:
        ctx.trivial = True
        return
    keep = [i for i in range(n) if i != c["drop"] % n]
    R, t = R[keep], t[keep]
    kw = {"method": c["method"]}
    what = "operations that are not closed under multiplication"
    a = c["api"]
    if a == "point":
        rejected(spgrep.get_crystallographic_pointgroup_irreps_from_symmetry, what, R, **kw)
    elif a == "point real":
        rejected(spgrep.get_crystallographic_pointgroup_irreps_from_symmetry, what, R, real=True, **kw)
    elif a == "spinor point":
        rejected(spgrep.get_crystallographic_pointgroup_spinor_irreps_from_symmetry, what, L, R, **kw)
    elif a == "gray":
        gR, gtr = np.concatenate([R, R]), np.array([0] * len(R) + [1] * len(R))
        rejected(spgrep.get_crystallographic_pointgroup_spinor_irreps_from_symmetry, what, L, gR, gtr, **kw)
    elif a == "prim":
        rejected(spgrep.get_spacegroup_irreps_from_primitive_symmetry, what, R, t, k, **kw)
    elif a == "spinor":
        rejected(spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry, what, L, R, t, kpoint=k, **kw)
    elif a == "small":
        rejected(enumerate_small_representations, what, R, t, k, **kw)
    else:
        rejected(enumerate_unitary_irreps, what, R, **kw)
    ctx.label(a)


# ---- shapes ----------------------------------------------------------------------------------


def s_shape(_):
    shape = st.tuples(st.integers(1, 6), st.integers(1, 4), st.integers(1, 4)).map(list)
    return st.fixed_dictionaries({"a": shape, "b": shape, "near": st.booleans(), "f": st.sampled_from(["product", "project"]), "seed": st.integers(0, 9999)})


def run_shape(c, ctx):
    a, b = list(c["a"]), list(c["b"])
    if c["near"]:
        # break exactly one condition
        which = c["seed"] % 3
        a = [a[0], a[1], a[1] + (which == 0)]
        b = [a[0] + (which == 1), b[1], b[1] + (which == 2)]
    if a[0] == b[0] and a[1] == a[2] and b[1] == b[2]:
        ctx.trivial = True
        return
    rng = np.random.default_rng(c["seed"])
    x, y = rng.normal(size=a) + 0j, rng.normal(size=b) + 0j
    f = get_direct_product if c["f"] == "product" else project_to_irrep
    rejected(f, f"arrays of shapes {tuple(a)} and {tuple(b)}", x, y)
    ctx.label("different orders" if a[0] != b[0] else "not square")


# ---- numbers and names -----------------------------------------------------------------------


def s_hall(_):
    return st.one_of(st.integers(-5, 0), st.integers(531, 540), st.integers(531, 10**6), st.integers(-(10**6), 0)).map(lambda h: {"hall": h})


def run_hall(c, ctx):
    rejected(get_crystal_system, f"Hall number {c['hall']}", c["hall"])
    rejected(get_primitive_transformation_matrix, f"Hall number {c['hall']}", c["hall"])


def s_ord(_):
    return st.fixed_dictionaries(
        {"ord": st.one_of(st.sampled_from(["max", "Min", "MIN", "", "proj", "projection ", "chordal", "mins"]), st.text(max_size=6)), "skip": st.booleans(), "seed": st.integers(0, 99)}
    )


def run_ord(c, ctx):
    if c["ord"] in ("min", "projection"):
        ctx.trivial = True
        return
    rng = np.random.default_rng(c["seed"])
    rejected(grassmann_distance, f"the unknown distance {c['ord']!r}", rng.normal(size=(2, 4)), rng.normal(size=(3, 4)), ord=c["ord"], skip_orthonormalization=c["skip"])


# ---- incomplete chains -----------------------------------------------------------------------


def s_chain(name):
    return st.fixed_dictionaries({"name": st.just(name), "relabel": st.one_of(st.none(), st.integers(0, 9999)), "drop": st.integers(1, 5)})


def run_chain(c, ctx):
    table, chain, _ = groups.make(c["name"], c["relabel"], None)
    short = chain[min(c["drop"], len(chain)) :]
    n = len(table)
    if not short:
        # an empty chain only reaches the trivial group
        ctx.trivial = True
        return
    with warnings.catch_warnings(record=True) as got:
        warnings.simplefilter("always")
        out = sut(enumerate_unitary_irreps_from_solvable_group_chain, table, np.ones((n, n), dtype=complex), short)
    require(len(out) == 0, f"{len(out)} irreps returned for a chain that does not reach the whole group")
    require(len(got) > 0, "no warning for a chain that does not reach the whole group")
    ctx.label("chain cut")


# ---- reducible input to the indicator ---------------------------------------------------------


def s_reducible(hall):
    return st.fixed_dictionaries(
        {"g": cm.st_point_group(hall), "a": st.integers(0, 30), "b": st.integers(0, 30), "copies": st.integers(2, 3), "seed": st.integers(0, 999)}
    )


def run_reducible(c, ctx):
    R = cm.make_point_group(c["g"])
    irreps, ind = sut(enumerate_unitary_irreps, R)
    real = [g for g, i in zip(irreps, ind) if i == 1]
    parts = [real[c["a"] % len(real)]] + [real[c["b"] % len(real)]] * (c["copies"] - 1)
    d = sum(g.shape[1] for g in parts)
    rep = np.zeros((len(R), d, d), dtype=complex)
    at = 0
    for g in parts:
        e = at + g.shape[1]
        rep[:, at:e, at:e] = g
        at = e
    S = oracle.haar(d, c["seed"])
    rejected(frobenius_schur_indicator, f"a sum of {len(parts)} irreps", S.conj().T @ rep @ S)
    ctx.trivial = len(R) == 1


CAMPAIGNS = [
    Campaign("operations of a non-primitive cell", s_centred, run_centred, cm.hall_shards(96), 40, 200),
    Campaign("unknown method", s_method, run_method, cm.hall_shards(48), 48, 60),
    Campaign("operations that are not a group", s_open, run_open, cm.hall_shards(48), 24, 60),
    Campaign("inconsistent shapes", s_shape, run_shape, cm.numbered(8), 100, 1000),
    Campaign("Hall numbers out of range", s_hall, run_hall, cm.numbered(2), 50, 500),
    Campaign("unknown distance", s_ord, run_ord, cm.numbered(2), 50, 500),
    Campaign("incomplete chains", s_chain, run_chain, cm.const(*groups.NAMES), 6, 60),
    Campaign("reducible representations", s_reducible, run_reducible, cm.pg_settings_strata, 4, 60),
]
REGRESSIONS = []
_ = make_magnetic_point_group
