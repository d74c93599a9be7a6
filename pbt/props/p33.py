"""P33: restriction to a nearby k-point (compatibility relations) or to a subgroup (correlation tables)."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen, oracle
from pbt.core import Ambiguous, Campaign, require, sut
from pbt.props import common as cm

import spgrep

PROPERTY = "P33"
RULE = "non-trivial: the larger little group has an operation the smaller one lacks, and the smaller has at least two"
ASSUMPTIONS = ["multiplicities are computed from characters on unitary operations; nearby k-points are 1e-5 apart, multiplicities good to 1e-6"]


def decompose(big, small, what, tol=1e-6):
    """Characters of the larger group on shared operations against families of the smaller one: whole multiplicities, nothing left."""
    norm = [(b.conj() @ b).real / len(b) for b in small]
    for a, x in enumerate(big):
        left = x.astype(complex)
        for b, (y, v) in enumerate(zip(small, norm)):
            m = (y.conj() @ x) / len(y) / v
            require(abs(m - round(m.real)) < tol and m.real > -tol, f"{what}: irrep {a} contains irrep {b} of the smaller group {m:.4f} times")
            left = left - round(m.real) * y
        require(np.abs(left).max() < 10 * tol, f"{what}: irrep {a} is not a sum of the irreps of the smaller group (characters left over: {np.abs(left).max():.3g})")


def positions(outer, inner, index, what):
    """Where in `outer` (a little group) the operations index[inner] of the smaller call are."""
    pos = {int(j): a for a, j in enumerate(outer)}
    for i in inner:
        require(int(index[i]) in pos, f"{what}: operation {int(index[i])} fixes the k-point in the smaller group only")
    return np.array([pos[int(index[i])] for i in inner])


def families(kind, R, t, tr, k, L, c):
    """Characters on the unitary operations of the little group, which operations those are, and their spin matrices."""
    if kind == "linear":
        irreps, m = sut(spgrep.get_spacegroup_irreps_from_primitive_symmetry, R, t, k, method=c["method"])
        U = None
    elif kind == "real":
        irreps, m = sut(spgrep.get_spacegroup_irreps_from_primitive_symmetry, R, t, k, real=True, method=c["method"])
        U = None
    elif kind == "spinor":
        irreps, _, U, m = sut(spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry, L, R, t, kpoint=k, method=c["method"])
    else:
        irreps, _, _, U, _, m = sut(spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry, L, R, t, tr, k, method=c["method"])
        u = np.flatnonzero(np.asarray(tr)[m] == 0)
        return [x[u] for x in oracle.characters(irreps)], m[u], U[u], m
    return oracle.characters(irreps), m, U, m


def decide_little(R, k, tr=None):
    """Raises Ambiguous before the code is called when k is on a tolerance."""
    return oracle.little_group(R, k, tr)


def st_symmetric_k(eps=False):
    """Mostly special points, where there is something to restrict."""
    special = gen.st_kpoint(eps=eps).map(lambda d: {**d, "x": None})
    return st.one_of(special, special, gen.st_kpoint(eps=eps))


PICK = st.integers(0, 95).map(lambda i: [i])


# ---- compatibility relations -----------------------------------------------------------------


def s_near(kinds, ops):
    return st.fixed_dictionaries(
        {
            "ops": ops,
            "k": st_symmetric_k(),
            "kind": st.sampled_from(kinds),
            "along": st.one_of(st.none(), st.integers(0, 95), st.integers(0, 95)),
            "direction": st.lists(st.integers(-9, 9), min_size=3, max_size=3),
            "lattice": gen.st_lattice(),
            "method": cm.METHODS,
        }
    )


def run_near(c, ctx):
    R, t, tr = gen.make_primitive(c["ops"])
    k = gen.make_kpoint(c["k"], R, tr)
    magnetic = tr if c["kind"] == "magnetic" else None
    fixed = decide_little(R, k, magnetic)
    v = np.array(c["direction"] if any(c["direction"]) else [3, 1, -2], dtype=float)
    if c["along"] is not None:
        # keep an operation of the little group: a symmetry line or plane through k
        lines = []
        for i in fixed:
            M = R[i].T * (-1 if magnetic is not None and tr[i] else 1)
            x = sum(np.linalg.matrix_power(M, p) for p in range(12)) @ v
            if x.any() and (M != gen.I3).any():
                lines.append(x)
        if lines:
            v = lines[c["along"] % len(lines)]
    k1 = k + 1e-5 * v / np.abs(v).max()
    near = decide_little(R, k1, magnetic)
    if not set(near) <= set(fixed):
        raise Ambiguous
    L = gen.make_lattice(c["lattice"], R)
    big, m, U, whole = families(c["kind"], R, t, tr, k, L, c)
    small, m1, U1, whole1 = families(c["kind"], R, t, tr, k1, L, c)
    cm.check_mapping(whole, fixed)
    cm.check_mapping(whole1, near)
    w = positions(m, range(len(m1)), m1, c["kind"])
    if U is not None:
        require(np.abs(U[w] - U1).max() < 1e-6, "spin rotations of one operation differ between k-points")
    # moving along a direction its operations leave invariant changes the phase of translations only
    shift = np.exp(-2j * np.pi * (t[np.asarray(m1)] @ (k1 - k)))
    decompose([x[w] * shift for x in big], small, f"{c['kind']}, k + 1e-5")
    ctx.label(c["kind"], "on a symmetry line or plane" if len(near) > 1 else "general direction")
    ctx.trivial = len(near) in (1, len(fixed))


# ---- subgroups -------------------------------------------------------------------------------


def subgroup(table, picks):
    """Closure of the picked elements."""
    n = len(table)
    got = {int(i) % n for i in picks}
    while True:
        new = {int(table[a, b]) for a in got for b in got} - got
        if not new:
            return sorted(got)
        got |= new


def s_subgroup(kinds, ops):
    return st.fixed_dictionaries(
        {
            "ops": ops,
            "k": st_symmetric_k(eps=True),
            "kind": st.sampled_from(kinds),
            "picks": st.one_of(PICK, PICK, st.tuples(st.integers(0, 95), st.integers(0, 95)).map(list)),
            "order": gen.st_order(),
            "lattice": gen.st_lattice(),
            "method": cm.METHODS,
        }
    )


def run_subgroup(c, ctx):
    R, t, tr = gen.make_primitive(c["ops"])
    k = gen.make_kpoint(c["k"], R, tr)
    kind = c["kind"]
    if kind == "real" and np.abs(2 * k - np.rint(2 * k)).max() > 1e-9:
        kind = "linear"
    magnetic = tr if kind == "magnetic" else None
    fixed = decide_little(R, k, magnetic)
    L = gen.make_lattice(c["lattice"], R)
    # picked among the operations leaving k invariant, so that the subgroups are not all trivial there
    table = oracle.point_table(R, tr)
    others = [i for i in fixed if (R[i] != gen.I3).any() or tr[i]] or fixed
    H = np.array(subgroup(table, [others[i % len(others)] for i in c["picks"]]))
    H = H[gen.make_order(len(H), c["order"])]
    big, m, U, whole = families(kind, R, t, tr, k, L, c)
    cm.check_mapping(whole, fixed)
    if kind == "magnetic" and not tr[H].any():
        small, m1, U1, whole1 = families("spinor", R[H], t[H], tr[H], k, L, c)
        ctx.label("unitary subgroup of a magnetic group")
    else:
        small, m1, U1, whole1 = families(kind, R[H], t[H], tr[H], k, L, c)
    require(len(whole1) == len(H), "the subgroup leaves k invariant, its little group is smaller")
    w = positions(m, m1, H, kind)
    if U is not None:
        require(np.abs(U[w] - U1).max() < 1e-6, "spin rotations of one operation differ between a group and its subgroup")
    decompose([x[w] for x in big], small, f"{kind}, subgroup of order {len(H)} of {len(R)}")
    ctx.label(kind)
    ctx.trivial = len(H) in (1, len(fixed))


# ---- point groups ----------------------------------------------------------------------------


def s_point(hall):
    return st.fixed_dictionaries(
        {
            "g": cm.st_point_group(hall),
            "kind": st.sampled_from(["gray", "real", "spinor", "linear"]),
            "picks": st.one_of(PICK, PICK, st.tuples(st.integers(0, 95), st.integers(0, 95)).map(list)),
            "order": gen.st_order(),
            "lattice": gen.st_lattice(),
            "method": cm.METHODS,
        }
    )


def run_point(c, ctx):
    R = cm.make_point_group(c["g"])
    L = gen.make_lattice(c["lattice"], R)
    tr = np.zeros(len(R), dtype=int)
    kind = c["kind"]
    if kind == "gray":
        R, tr = np.concatenate([R, R]), np.concatenate([tr, tr + 1])
    others = [i for i in range(len(R)) if (R[i] != gen.I3).any() or tr[i]] or [0]
    H = np.array(subgroup(oracle.point_table(R, tr), [others[i % len(others)] for i in c["picks"]]))
    H = H[gen.make_order(len(H), c["order"])]

    def fam(r, s):
        if kind in ("linear", "real"):
            irreps = sut(spgrep.get_crystallographic_pointgroup_irreps_from_symmetry, r, real=kind == "real", method=c["method"])
            return oracle.characters(irreps), None, np.arange(len(r))
        if kind == "spinor" or not s.any():
            irreps, _, U = sut(spgrep.get_crystallographic_pointgroup_spinor_irreps_from_symmetry, L, r, method=c["method"])
            return oracle.characters(irreps), U, np.arange(len(r))
        irreps, _, _, U, _ = sut(spgrep.get_crystallographic_pointgroup_spinor_irreps_from_symmetry, L, r, s, method=c["method"])
        u = np.flatnonzero(s == 0)
        return [x[u] for x in oracle.characters(irreps)], U[u], u

    big, U, u = fam(R, tr)
    small, U1, u1 = fam(R[H], tr[H])
    w = positions(u, u1, H, kind)
    if U is not None:
        require(np.abs(U[w] - U1).max() < 1e-6, "spin rotations of one operation differ between a group and its subgroup")
    decompose([x[w] for x in big], small, f"{kind} point group, subgroup of order {len(H)} of {len(R)}")
    ctx.label(kind)
    ctx.trivial = len(H) in (1, len(R))


def magnetic(builder):
    return lambda unis: st.sampled_from(unis).flatmap(lambda u: builder(["magnetic"], gen.st_magnetic_primitive(u)))


CAMPAIGNS = [
    Campaign("nearby k-points", lambda h: s_near(["spinor", "linear"], gen.st_primitive(h)), run_near, cm.hall_strata, 4, 60),
    Campaign("nearby k-points, magnetic", magnetic(s_near), run_near, cm.uni_shards(112), 10, 20),
    Campaign("subgroups", lambda h: s_subgroup(["spinor", "real", "linear"], gen.st_primitive(h)), run_subgroup, cm.hall_strata, 4, 60),
    Campaign("subgroups, magnetic", magnetic(s_subgroup), run_subgroup, cm.uni_shards(112), 10, 20),
    Campaign("point groups", s_point, run_point, cm.pg_settings_strata, 6, 60),
]
REGRESSIONS = []
