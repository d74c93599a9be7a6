"""P04: the two methods return the same irreps up to equivalence."""

import warnings

import numpy as np
from hypothesis import strategies as st

from pbt import gen, oracle
from pbt.core import Campaign, require, sut
from pbt.props import common as cm

import spglib

from spgrep.core import (
    get_crystallographic_pointgroup_irreps_from_symmetry,
    get_crystallographic_pointgroup_spinor_irreps_from_symmetry,
    get_spacegroup_irreps,
    get_spacegroup_irreps_from_primitive_symmetry,
    get_spacegroup_spinor_irreps,
    get_spacegroup_spinor_irreps_from_primitive_symmetry,
)
from spgrep.corep import enumerate_spinor_small_corepresentations
from spgrep.irreps import enumerate_small_representations, enumerate_unitary_irreps
from spgrep.spinor import enumerate_spinor_small_representations
from pbt.props.p05 import build_factor_system

PROPERTY = "P04"
RULE = "non-trivial: the (little) group has at least two operations"
ASSUMPTIONS = ["equivalence is judged by characters, to 1e-6 (loose rtol: 1e-3)"]


def s_prim(hall):
    return st.fixed_dictionaries({"ops": gen.st_primitive(hall), "k": gen.st_kpoint()})


def run_prim(c, ctx):
    R, t, _ = gen.make_primitive(c["ops"])
    k = gen.make_kpoint(c["k"], R)
    a, m = sut(get_spacegroup_irreps_from_primitive_symmetry, R, t, k, method="Neto")
    b, m2 = sut(get_spacegroup_irreps_from_primitive_symmetry, R, t, k, method="random")
    cm.check_mapping(m2, m, "little group of the two methods")
    a = [g[np.argsort(m)] for g in a]
    b = [g[np.argsort(m2)] for g in b]
    cm.match_characters(a, b, what="'Neto' against 'random'")
    fs = oracle.factor_system(R[m], t[m], k)
    cm.group_labels(ctx, len(m), len(R), np.abs(fs - 1).max() > 1e-6, k)


def run_spin(c, ctx):
    R, t, _ = gen.make_primitive(c["ops"])
    k = gen.make_kpoint(c["k"], R)
    L = gen.make_lattice(c["lattice"], R)
    a, za, ua, m = sut(get_spacegroup_spinor_irreps_from_primitive_symmetry, L, R, t, kpoint=k, method="Neto")
    b, zb, ub, m2 = sut(get_spacegroup_spinor_irreps_from_primitive_symmetry, L, R, t, kpoint=k, method="random")
    cm.check_mapping(m2, m, "little group of the two methods")
    a = [g[np.argsort(m)] for g in a]
    b = [g[np.argsort(m2)] for g in b]
    cm.match_characters(a, b, what="spinor 'Neto' against 'random'")
    cm.group_labels(ctx, len(m), len(R), True, k)


def s_spin(halls):
    return st.sampled_from(halls).flatmap(
        lambda h: st.fixed_dictionaries({"ops": gen.st_primitive(h), "k": gen.st_kpoint(), "lattice": gen.st_lattice()})
    )


def run_point(c, ctx):
    R = cm.make_point_group(c)
    for real in (False, True):
        a = sut(get_crystallographic_pointgroup_irreps_from_symmetry, R, real=real, method="Neto")
        b = sut(get_crystallographic_pointgroup_irreps_from_symmetry, R, real=real, method="random")
        cm.match_characters(a, b, what=f"point group, real={real}, 'Neto' against 'random'")
    ctx.trivial = len(R) == 1


# ---- factor systems -------------------------------------------------------------------------------


def s_factor(hall):
    return st.fixed_dictionaries(
        {"ops": gen.st_primitive(hall), "k": gen.st_kpoint(), "spin": st.booleans(), "gauge": st.one_of(st.none(), st.integers(0, 9999), st.integers(0, 9999)), "real": st.booleans()}
    )


def run_factor(c, ctx):
    R, _, omega = build_factor_system(c)
    real = c["real"] and np.abs(omega.imag).max() < 1e-9
    if real:
        omega = omega.real + 0j
    kw = {"real": True} if real else {}
    a, ia = sut(enumerate_unitary_irreps, R, omega, method="Neto", **kw)
    b, ib = sut(enumerate_unitary_irreps, R, omega, method="random", **kw)
    cm.match_characters(a, b, what=f"factor system{', over the reals' if real else ''}, 'Neto' against 'random'")
    require(sorted(map(int, ia)) == sorted(map(int, ib)), f"indicators {ia} for 'Neto', {ib} for 'random'")
    ctx.label("over the reals" if real else "complex")
    if np.abs(omega - 1).max() > 1e-6:
        ctx.label("non-trivial factor system")
    ctx.trivial = len(R) == 1


# ---- co-representations ---------------------------------------------------------------------------


def s_corep(unis):
    return st.sampled_from(unis).flatmap(
        lambda u: st.fixed_dictionaries({"ops": gen.st_magnetic_primitive(u), "k": gen.st_kpoint(), "lattice": gen.st_lattice()})
    )


def run_corep(c, ctx):
    R, t, tr = gen.make_primitive(c["ops"])
    k = gen.make_kpoint(c["k"], R, tr)
    L = gen.make_lattice(c["lattice"], R)
    f = get_spacegroup_spinor_irreps_from_primitive_symmetry
    a, ia, _, _, _, m = sut(f, L, R, t, tr, k, method="Neto")
    b, ib, _, _, _, m2 = sut(f, L, R, t, tr, k, method="random")
    cm.check_mapping(m2, m, "little group of the two methods")
    u = tr[m] == 0
    require(sorted(map(str, ia)) == sorted(map(str, ib)), "different indicators of the two methods")
    cm.match_characters([g[u] for g in a], [g[u] for g in b], what="co-representations on unitary operations, 'Neto' against 'random'")
    if (~u).any():
        ctx.label("anti-unitary operations in the little group")
    ctx.trivial = len(m) <= 1


# ---- loose tolerance, many trials ---------------------------------------------------------------

# With a loose rtol different eigenvalues of a random matrix are taken for one, and the first random
# matrices fail; the documented remedy is a larger max_num_random_generations.
SMALL = [h for h in gen.HALLS if len(gen.prim_ops(h)[0]) <= 16]


def s_loose(kinds):
    def build(halls):
        return st.sampled_from(halls).flatmap(
            lambda h: st.fixed_dictionaries(
                {
                    "ops": gen.st_primitive(h),
                    "k": gen.st_kpoint(eps=False),
                    "lattice": gen.st_lattice(),
                    "kind": st.sampled_from(kinds),
                    "rtol": st.sampled_from([1e-3, 1e-2, 0.05, 0.1, 0.1]),
                }
            )
        )

    return build


def two_ways(f, pick, rtol, *args, **kw):
    a = pick(sut(f, *args, method="Neto", **kw))
    b = pick(sut(f, *args, method="random", rtol=rtol, max_num_random_generations=400, **kw))
    require(len(b) > 0, f"no irreps found by 400 random matrices with rtol = {rtol}")
    cm.match_characters(a, b, tol=1e-3, what=f"'Neto' against 'random' with rtol = {rtol}")
    # the number of random matrices is the caller's: without any, nothing can be found
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        none = pick(sut(f, *args, method="random", max_num_random_generations=0, **kw))
    require(len(none) == 0 and len(w) > 0, "irreps found, or no warning given, although no random matrix was to be tried")
    return a


def run_loose(c, ctx):
    R, t, tr = gen.make_primitive(c["ops"])
    k = gen.make_kpoint(c["k"], R, tr)
    L = gen.make_lattice(c["lattice"], R)
    kind, rtol = c["kind"], c["rtol"]
    if kind.startswith("small"):
        # the same through the functions that take a little group
        idx = oracle.little_group(R, k)
        R, t = R[idx], t[idx]
        if kind == "small":
            a = two_ways(enumerate_small_representations, lambda out: out[0], rtol, R, t, k)
        elif kind == "small spinor":
            a = two_ways(enumerate_spinor_small_representations, lambda out: out[0], rtol, L, R, t, k)
        elif kind == "small factor system":
            a = two_ways(enumerate_unitary_irreps, lambda out: out[0], rtol, R, oracle.factor_system(R, t, k))
        else:
            # gray little group at -k = k only; otherwise time reversal is not in it
            if np.abs(2 * k - np.rint(2 * k)).max() > 1e-9:
                k = np.rint(2 * k) / 2
                idx = oracle.little_group(R, k)
                R, t = R[idx], t[idx]
            n = len(R)
            a = two_ways(
                enumerate_spinor_small_corepresentations, lambda out: [g[:n] for g in out[0]], rtol, L,
                np.concatenate([R, R]), np.concatenate([t, t]), np.repeat([0, 1], n), k,
            )
        ctx.label(kind)
        ctx.trivial = len(a[0]) <= 2
        return
    if kind in ("gray", "gray point"):
        R, t, tr = np.concatenate([R, R]), np.concatenate([t, t]), np.repeat([0, 1], len(R))

    def first(out):
        return out[0]

    def unitary(out):
        m = out[-1] if kind == "gray" else np.arange(len(R))
        return [g[tr[m] == 0] for g in out[0]]

    if kind == "linear":
        a = two_ways(get_spacegroup_irreps_from_primitive_symmetry, first, rtol, R, t, k)
    elif kind == "spinor":
        a = two_ways(get_spacegroup_spinor_irreps_from_primitive_symmetry, first, rtol, L, R, t, kpoint=k)
    elif kind == "gray":
        a = two_ways(get_spacegroup_spinor_irreps_from_primitive_symmetry, unitary, rtol, L, R, t, tr, k)
    elif kind == "point":
        a = two_ways(get_crystallographic_pointgroup_irreps_from_symmetry, list, rtol, R)
    elif kind == "spinor point":
        a = two_ways(get_crystallographic_pointgroup_spinor_irreps_from_symmetry, first, rtol, L, R)
    else:
        a = two_ways(get_crystallographic_pointgroup_spinor_irreps_from_symmetry, unitary, rtol, L, R, tr)
    ctx.label(kind)
    ctx.trivial = len(a[0]) <= 2


def s_crystal(halls):
    return st.sampled_from(halls).flatmap(
        lambda h: st.fixed_dictionaries(
            {"crystal": gen.right_handed(gen.st_crystal(h)), "k": gen.st_kpoint(eps=False), "kind": st.sampled_from(["linear", "spinor", "magnetic"]), "rtol": st.sampled_from([0.05, 0.1])}
        )
    )


def run_crystal(c, ctx):
    case = cm.make_crystal_case(c, ctx)
    if case is None:
        return
    L, pos, num, k, ds = case
    if len({r.tobytes() for r in ds["rotations"]}) > 16:
        ctx.trivial = True
        ctx.label("higher symmetry than meant, skipped")
        return
    kind = c["kind"]
    if kind == "linear":
        a = two_ways(get_spacegroup_irreps, lambda out: out[0], c["rtol"], L, pos, num, k)
    elif kind == "spinor":
        a = two_ways(get_spacegroup_spinor_irreps, lambda out: out[0], c["rtol"], L, pos, num, kpoint=k)
    else:
        mom = np.where(np.asarray(num) % 2 == 1, 1.0, 0.0)
        if spglib.get_magnetic_symmetry_dataset((L, pos, num, mom)) is None:
            ctx.trivial = True
            return
        a = two_ways(
            get_spacegroup_spinor_irreps, lambda out: [g[np.asarray(out[6])[out[7]] == 0] for g in out[0]], c["rtol"], L, pos, num, mom, kpoint=k
        )
    ctx.label(kind)
    ctx.trivial = len(a[0]) <= 2


def small_shards(n):
    return lambda tier: cm.shard(SMALL, n if tier == "quick" else 2 * n)


LOOSE = ["linear", "spinor", "gray", "point", "spinor point", "gray point"]
SMALL_KINDS = ["small", "small spinor", "small factor system", "small corep"]
CAMPAIGNS = [
    Campaign("space groups and k-points", s_prim, run_prim, cm.hall_strata, 8, 80),
    Campaign("spinors", s_spin, run_spin, cm.hall_shards(48), 16, 16),
    Campaign("factor systems", s_factor, run_factor, cm.hall_strata, 4, 50),
    Campaign("co-representations", s_corep, run_corep, cm.uni_shards(112), 8, 16),
    Campaign("point groups", cm.st_point_group, run_point, cm.pg_settings_strata, 4, 30),
    Campaign("loose tolerance, many trials", s_loose(LOOSE), run_loose, small_shards(56), 20, 60),
    Campaign("loose tolerance, many trials, little groups", s_loose(SMALL_KINDS), run_loose, small_shards(28), 10, 40),
    Campaign("loose tolerance, many trials, crystals", s_crystal, run_crystal, small_shards(28), 10, 20),
]
REGRESSIONS = []
