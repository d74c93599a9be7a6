"""P14: spinor co-representations of magnetic space and point groups."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen, oracle
from pbt.core import Campaign, require, sut
from pbt.props import common as cm

from spgrep.core import (
    get_crystallographic_pointgroup_spinor_irreps_from_symmetry,
    get_spacegroup_spinor_irreps_from_primitive_symmetry,
)
from spgrep.corep import enumerate_spinor_small_corepresentations, get_corep_spinor_factor_system

PROPERTY = "P14"
RULE = "non-trivial: the little group keeps an anti-unitary operation"
ASSUMPTIONS = ["entries compared to 1e-8 times the dimension (1e-7 for k a little off a special point)", "tr(G(a)G(a)^*) and characters compared to 1e-4"]


def strategy(unis):
    return st.sampled_from(unis).flatmap(
        lambda u: st.fixed_dictionaries(
            {
                "ops": gen.st_magnetic_primitive(u),
                "k": st.one_of(gen.st_kpoint(), gen.st_kpoint(), gen.st_kpoint(), st.none()),
                "lattice": gen.st_lattice(),
                "method": cm.METHODS,
                "low": st.booleans(),
                "aslist": st.booleans(),
                "bool": st.booleans(),
            }
        )
    )


def check_omega(z, U, table, tr, anti):
    n = len(table)
    tr = np.asarray(tr).astype(bool)
    require(np.asarray(anti).shape == (n,) and (np.asarray(anti).astype(bool) == tr).all(), "anti_linear does not mark the anti-unitary operations")
    require(z.shape == (n, n), f"factor system has shape {z.shape}")
    require(np.abs(np.abs(z) - 1).max() < oracle.FINE and np.abs(z.imag).max() < oracle.FINE, "spinor factor system has entries other than +1 and -1")
    err = np.abs(z - oracle.spin_factor(U, table, tr)).max()
    require(err < oracle.FINE, f"spinor factor system does not belong to the returned (anti-)unitary operators (error {err:.3g})")


def labels(ctx, kinds, tr, n_all):
    tr = np.asarray(tr)
    if tr.any():
        ctx.label(*sorted({f"corep of type {x}" for x in kinds}))
    else:
        ctx.label("no anti-unitary operation in the little group")
        ctx.trivial = True
    if len(tr) < n_all:
        ctx.label("k moved by some operation")


def run(c, ctx):
    R, t, tr = gen.make_primitive(c["ops"])
    L = gen.make_lattice(c["lattice"], R)
    k = np.zeros(3) if c["k"] is None else gen.make_kpoint(c["k"], R, tr)
    kw = {} if c["k"] is None else {"kpoint": cm.written("list" if c.get("aslist") else "array", k)}
    want = oracle.little_group(R, k, tr)
    arg = tr.astype(bool) if c.get("bool") else tr
    if c["low"]:
        m = want
        coreps, ind, z, U, anti = sut(enumerate_spinor_small_corepresentations, L, R[m], t[m], arg[m], **{"kpoint": k, **kw}, method=c["method"])
    else:
        coreps, ind, z, U, anti, m = sut(get_spacegroup_spinor_irreps_from_primitive_symmetry, L, R, t, arg, method=c["method"], **kw)
        cm.check_mapping(m, want)
    table, extra = oracle.composition(R[m], t[m], tr[m])
    oracle.check_spin_matrices(L, R[m], U, tr[m])
    check_omega(z, U, table, tr[m], anti)
    kinds = oracle.check_coreps(coreps, table, np.rint(extra), k, tr[m], z, ind, tol=cm.entry_tol(c["k"]))
    ctx.label(f"MSG type {gen.magnetic_type(c['ops']['uni_number'])}", c["method"])
    labels(ctx, kinds, tr[m], len(R))


def s_point(unis):
    return st.sampled_from(unis).flatmap(
        lambda u: st.fixed_dictionaries(
            {
                "uni_number": st.just(u),
                "uni": gen.st_unimodular(2),
                "order": gen.st_order(),
                "gray": st.sampled_from([False, False, True]),
                "lattice": gen.st_lattice(),
                "method": cm.METHODS,
            }
        )
    )


def make_magnetic_point_group(c):
    """Magnetic point group of a UNI number (colour group), or its gray extension."""
    R, _, tr, _ = gen.prim_magnetic_ops(c["uni_number"])
    keys = {}
    for r, s in zip(R, tr):
        keys[(r.tobytes(), int(s))] = (r, int(s))
        if c["gray"]:
            keys[(r.tobytes(), 1 - int(s))] = (r, 1 - int(s))
    ops = list(keys.values())
    R = np.array([o[0] for o in ops])
    tr = np.array([o[1] for o in ops])
    R, _, _ = gen.change_basis(R, np.zeros((len(R), 3)), c["uni"])
    p = gen.make_order(len(R), c["order"])
    return R[p].copy(), tr[p].copy()


def run_point(c, ctx):
    R, tr = make_magnetic_point_group(c)
    L = gen.make_lattice(c["lattice"], R)
    coreps, ind, z, U, anti = sut(get_crystallographic_pointgroup_spinor_irreps_from_symmetry, L, R, tr, method=c["method"])
    table = oracle.point_table(R, tr)
    oracle.check_spin_matrices(L, R, U, tr)
    check_omega(z, U, table, tr, anti)
    z2, U2, anti2 = sut(get_corep_spinor_factor_system, L, R, tr)
    require(np.abs(z2 - z).max() < 1e-6 and np.abs(U2 - U).max() < 1e-6 and (anti2 == anti).all(), "get_corep_spinor_factor_system disagrees with the factor system returned with the co-irreps")
    kinds = oracle.check_coreps(coreps, table, np.zeros((len(R), len(R), 3)), np.zeros(3), tr, z, ind)
    labels(ctx, kinds, tr, len(R))


def saved(uni, s, **kw):
    return {
        "ops": {"uni_number": uni, "uni": [], "shift": None, "order": None, "wrap": 0},
        "k": {"s": s, "line": None, "x": None, "G": [0, 0, 0], "eps": 0},
        "lattice": {"diag": [10, 11, 13], "off": [0, 0, 0], "quat": [1, 0, 0, 0], "mirror": False, "scale": 1.0},
        "method": "Neto",
        "low": False,
        **kw,
    }


NAME = "magnetic space groups and k-points"
CAMPAIGNS = [
    Campaign(NAME, strategy, run, cm.uni_shards(112), 24, 24),
    Campaign("magnetic point groups", s_point, run_point, cm.uni_shards(48), 24, 24),
]
REGRESSIONS = [
    (NAME, saved(u, s))
    for u in (2, 8, 18, 104, 337, 1000, 1255, 1594, 1642)
    for s in ([0, 0, 0], [0, 0, 12], [8, 8, 0], [6, 6, 6])
]
