"""P01: the little group is exactly the stabiliser of k."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen, oracle
from pbt.core import Campaign, require, sut
from pbt.props import common as cm

import spglib

from spgrep.core import (
    get_spacegroup_irreps,
    get_spacegroup_irreps_from_primitive_symmetry,
    get_spacegroup_spinor_irreps,
    get_spacegroup_spinor_irreps_from_primitive_symmetry,
)
from spgrep.group import get_little_group

PROPERTY = "P01"
RULE = "non-trivial: the group has at least two operations and k is not the origin"
ASSUMPTIONS = ["residuals between 0.3 and 30 times the tolerance are not judged"]


LATTICE = {"diag": [9, 10, 12], "off": [1, 2, 1], "quat": [1, 0, 0, 0], "mirror": False, "scale": 1.0}


def case_strategy(inner):
    return st.fixed_dictionaries(
        {"ops": inner, "k": gen.st_kpoint(eps=True), "atol": st.sampled_from([None, None, None, 1e-8, 1e-5, 1e-4]), "aslist": st.booleans()}
    )


def s_prim(hall):
    return case_strategy(gen.st_primitive(hall))


def s_mag(unis):
    return case_strategy(st.sampled_from(unis).flatmap(gen.st_magnetic_primitive))


def s_conv(halls):
    return st.fixed_dictionaries(
        {"hall": st.sampled_from(halls), "k": gen.st_kpoint(eps=True), "shift": gen.st_shift(), "order": gen.st_order(), "aslist": st.booleans()}
    )


def judge(R, t, tr, k, atol, ctx, aslist):
    want = oracle.little_group(R, k, tr, atol=1e-8 if atol is None else atol)
    kw = {} if atol is None else {"atol": atol}
    if tr is not None:
        kw["time_reversals"] = tr
    lr, lt, m = sut(get_little_group, R, t, cm.written("list", k) if aslist else k, **kw)
    cm.check_mapping(m, want)
    require(lr.shape == (len(m), 3, 3) and (lr == R[m]).all(), "little_rotations differ from rotations[mapping]")
    require(lt.shape == (len(m), 3) and (lt == t[m]).all(), "little_translations differ from translations[mapping]")
    ctx.label("stabiliser is " + ("whole group" if len(m) == len(R) else "identity only" if len(m) == 1 else "proper subgroup"))
    if tr is not None and tr.any():
        ctx.label("keeps an anti-unitary operation" if tr[m].any() else "drops all anti-unitary operations")
    ctx.trivial = len(R) == 1 or not np.any(k)
    return want


def run_prim(c, ctx):
    R, t, _ = gen.make_primitive(c["ops"])
    k = gen.make_kpoint(c["k"], R)
    want = judge(R, t, None, k, c["atol"], ctx, c["aslist"])
    kw = {} if c["atol"] is None else {"atol": c["atol"]}
    if len(want) <= 8:
        irreps, m = sut(get_spacegroup_irreps_from_primitive_symmetry, R, t, k, **kw)
        cm.check_mapping(m, want, "get_spacegroup_irreps_from_primitive_symmetry")
        require(all(g.shape[0] == len(m) for g in irreps), "irreps do not run over the little group")
        if c["aslist"]:
            L = gen.make_lattice(LATTICE, R)
            irreps, _, _, m = sut(get_spacegroup_spinor_irreps_from_primitive_symmetry, L, R, t, kpoint=k, **kw)
            cm.check_mapping(m, want, "get_spacegroup_spinor_irreps_from_primitive_symmetry")
            ctx.label("spinor irreps as well")


def run_mag(c, ctx):
    R, t, tr = gen.make_primitive(c["ops"])
    k = gen.make_kpoint(c["k"], R, tr)
    want = judge(R, t, tr, k, c["atol"], ctx, c["aslist"])
    kw = {} if c["atol"] is None else {"atol": c["atol"]}
    if len(want) <= 8:
        L = gen.make_lattice(LATTICE, R)
        m = sut(get_spacegroup_spinor_irreps_from_primitive_symmetry, L, R, t, tr, kpoint=k, **kw)[-1]
        cm.check_mapping(m, want, "get_spacegroup_spinor_irreps_from_primitive_symmetry with time reversals")


def run_conv(c, ctx):
    R, t = gen.db_ops(c["hall"])
    t = gen.shift_origin(R, t, c["shift"])
    p = gen.make_order(len(R), c["order"])
    R, t = R[p].copy(), t[p].copy()
    k = gen.make_kpoint(c["k"], R)
    judge(R, t, None, k, None, ctx, c["aslist"])


# ---- crystals: the tolerance on k is the caller's ----------------------------------------------------

SMALL = [h for h in gen.HALLS if len(gen.prim_ops(h)[0]) <= 16]


def s_crystal(halls):
    return st.sampled_from(halls).flatmap(
        lambda h: st.fixed_dictionaries(
            {
                "crystal": gen.right_handed(gen.st_crystal(h)),
                "k": st.tuples(gen.st_kpoint(eps=False), st.sampled_from([0, 1e-6, 1e-6, -3e-5, 2e-4, -3e-3])).map(lambda p: {**p[0], "eps": p[1]}),
                "kind": st.sampled_from(["linear", "spinor", "magnetic"]),
                "atol": st.sampled_from([None, 1e-8, 1e-5, 1e-4, 1e-4, 1e-3]),
            }
        )
    )


def run_crystal(c, ctx):
    case = cm.make_crystal_case(c, ctx)
    if case is None:
        return
    L, pos, num, k, ds = case
    if len({r.tobytes() for r in ds["rotations"]}) > 16 or len(ds["rotations"]) > 64:
        ctx.trivial = True
        ctx.label("higher symmetry than meant, skipped")
        return
    atol = 1e-8 if c["atol"] is None else c["atol"]
    kw = {} if c["atol"] is None else {"atol": c["atol"]}
    R, t, tr = np.asarray(ds["rotations"]), np.asarray(ds["translations"]), None
    if c["kind"] == "magnetic":
        mom = np.where(np.asarray(num) % 2 == 1, 1.0, 0.0)
        md = spglib.get_magnetic_symmetry_dataset((L, pos, num, mom))
        if md is None:
            ctx.trivial = True
            return
        R, t, tr = np.asarray(md["rotations"]), np.asarray(md["translations"]), np.asarray(md["time_reversals"])
    pure = (R == np.eye(3, dtype=int)).all(axis=(1, 2)) & (True if tr is None else ~tr.astype(bool))
    want = oracle.little_group(R, k, tr, lattice_vecs=t[pure], atol=atol)
    if c["kind"] == "linear":
        out = sut(get_spacegroup_irreps, L, pos, num, k, **kw)
    elif c["kind"] == "spinor":
        out = sut(get_spacegroup_spinor_irreps, L, pos, num, kpoint=k, **kw)
    else:
        out = sut(get_spacegroup_spinor_irreps, L, pos, num, mom, kpoint=k, **kw)
    cm.check_mapping(out[-1], want, f"crystal ({c['kind']}), atol = {c['atol']}")
    require(all(g.shape[0] == len(want) for g in out[0]), "irreps do not run over the little group")
    ctx.label(c["kind"])
    if c["k"]["eps"] and len(want) > pure.sum():
        ctx.label("k off its special point, or on a line through it")
    ctx.trivial = len(R) == 1 or not np.any(k)


CAMPAIGNS = [
    Campaign("primitive operations", s_prim, run_prim, cm.hall_strata, 6, 60),
    Campaign("magnetic operations", s_mag, run_mag, cm.uni_shards(96), 16, 20),
    Campaign("tabulated conventional operations", s_conv, run_conv, cm.hall_shards(48), 12, 12),
    Campaign("crystals, tolerance of the caller", s_crystal, run_crystal, lambda tier: cm.shard(SMALL, 56 if tier == "quick" else 112), 12, 30),
]
REGRESSIONS = []
