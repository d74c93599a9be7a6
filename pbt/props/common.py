"""Case builders and strata shared by the property modules."""

from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from pbt import gen, oracle
from pbt.core import Violation, require, sut

METHODS = st.sampled_from(["Neto", "Neto", "random"])


def hall_strata(tier):
    return list(gen.HALLS)


def shard(items, n):
    """n interleaved lists covering items."""
    items = list(items)
    return [items[i::n] for i in range(min(n, len(items)))]


def hall_shards(n):
    return lambda tier: shard(gen.HALLS, n) if tier == "quick" else list([h] for h in gen.HALLS)


def uni_shards(n):
    return lambda tier: shard(gen.UNIS, n) if tier == "quick" else shard(gen.UNIS, 8 * n)


def const(*names):
    return lambda tier: list(names)


def numbered(n):
    """n strata that differ only in their random seed."""
    return lambda tier: list(range(n))


def pg_settings_strata(tier):
    return [h for _, h in gen.point_group_settings()]


def st_point_group(hall):
    return st.fixed_dictionaries(
        {"hall": st.just(hall), "uni": gen.st_unimodular(), "order": gen.st_order()}
    )


def make_point_group(c):
    R, _, _ = gen.prim_ops(c["hall"])
    R, _, _ = gen.change_basis(R, np.zeros((len(R), 3)), c["uni"])
    p = gen.make_order(len(R), c["order"])
    return R[p].copy()


def entry_tol(kspec):
    """How exactly matrix entries are known at this k-point: less well where k is a little off a special point."""
    return oracle.FINE if kspec is None or kspec["eps"] == 0 else oracle.TOL


def little(R, t, k, tr=None, atol=1e-8):
    idx = oracle.little_group(R, k, tr, atol=atol)
    return idx


def check_mapping(mapping, expected, what="little group"):
    """The reported index set is exactly the expected one, without repetition."""
    m = np.asarray(mapping)
    require(m.ndim == 1 and np.issubdtype(m.dtype, np.integer), f"{what}: mapping has dtype {m.dtype} and shape {m.shape}")
    got = sorted(int(i) for i in m)
    want = sorted(int(i) for i in expected)
    if got != want:
        missing = sorted(set(want) - set(got))
        extra = sorted(set(got) - set(want))
        raise Violation(f"{what}: mapping wrong: missing {missing[:6]}, extra {extra[:6]}, repeated {len(got) - len(set(got))}")


def group_labels(ctx, n_little, n_all, projective, k):
    ctx.label("little group of order " + ("1" if n_little == 1 else "2-7" if n_little < 8 else "8-23" if n_little < 24 else "24+"))
    if n_little < n_all:
        ctx.label("k moved by some operation")
    if projective:
        ctx.label("non-trivial factor system")
    if n_little == 1:
        ctx.trivial = True


def match_characters(a, b, tol=1e-6, what="sets"):
    """Two families of irreps of the same group have the same characters, one to one."""
    require(len(a) == len(b), f"{what}: {len(a)} versus {len(b)} irreps")
    cb = oracle.characters(b)
    used = [False] * len(b)
    for i, ca in enumerate(oracle.characters(a)):
        for j, c in enumerate(cb):
            if not used[j] and np.abs(ca - c).max() < tol:
                used[j] = True
                break
        else:
            raise Violation(f"{what}: irrep {i} (dim {a[i].shape[1]}) has no counterpart")


__all__ = [n for n in dir() if not n.startswith("_")]
_ = sut


# ---------------------------------------------------------------------------------------------
# Crystals
# ---------------------------------------------------------------------------------------------


def centring_vectors(R, t, tr=None):
    """Pure translations among the operations, snapped to multiples of 1/n."""
    sel = [i for i in range(len(R)) if (R[i] == gen.I3).all() and (tr is None or not tr[i])]
    n = len(sel)
    return np.rint(np.array([t[i] for i in sel]) * n) / n


def st_recip():
    return st.one_of(st.none(), st.none(), gen.st_unimodular(2), st.sampled_from(["scaled", "identity"]))


def recip_args(c, lattice, k):
    """Keyword arguments expressing the same k in another reciprocal basis."""
    if c is None:
        return k, {}
    dual = np.linalg.inv(lattice).T
    if c == "scaled":
        B = dual * np.array([[2.0], [-0.5], [1.25]])
    elif c == "identity":
        B = np.eye(3)
    else:
        B = gen.make_unimodular(c) @ dual
    return k @ dual @ np.linalg.inv(B), {"reciprocal_lattice": B}


def st_crystal_case(halls, k=None):
    return st.sampled_from(halls).flatmap(
        lambda h: st.fixed_dictionaries(
            {"crystal": gen.st_crystal(h), "k": k or gen.st_kpoint(), "recip": st_recip(), "method": METHODS, "tol": st_tol(), "form": st_form()}
        )
    )


def st_optional_k():
    """A k-point, or none: the caller leaves the argument out, which stands for Gamma."""
    return st.one_of(gen.st_kpoint(), gen.st_kpoint(), gen.st_kpoint(), st.none())


def st_form():
    """How the caller writes crystal and k: numpy arrays, nested lists (as in the README) or tuples."""
    return st.sampled_from(["array", "array", "list", "tuple"])


def written(form, x):
    """In lists and tuples whole numbers are written as such: [0, 0.5, 0]."""

    def nest(y):
        if isinstance(y, list):
            return [nest(z) for z in y] if form == "list" else tuple(nest(z) for z in y)
        return int(y) if isinstance(y, float) and y == round(y) else y

    x = np.asarray(x)
    return x if form == "array" else nest(x.tolist())


def kpoint_of(c, R, tr=None):
    return np.zeros(3) if c["k"] is None else gen.make_kpoint(c["k"], R, tr)


def st_tol():
    """Sometimes: atoms displaced by up to a tenth of a looser symprec; sometimes a looser atol."""
    return st.one_of(
        st.none(),
        st.fixed_dictionaries(
            {
                "symprec": st.sampled_from([None, 1e-4, 1e-3, 1e-2]),
                "seed": st.integers(0, 9999),
                "atol": st.sampled_from([None, None, 1e-7, 1e-5, 1e-4]),
            }
        ),
    )


def displaced(tol, L, pos, mom=None):
    """Atoms (and moments) moved within a tenth of the symprec that the case prescribes."""
    if tol is None or tol["symprec"] is None:
        return pos, mom
    rng = np.random.default_rng(tol["seed"])
    d = rng.uniform(-1, 1, pos.shape) * 0.05 * tol["symprec"]
    pos = pos + d @ np.linalg.inv(L)
    if mom is not None:
        mom = mom + rng.uniform(-1, 1, mom.shape) * 0.05 * tol["symprec"]
    return pos, mom


def tol_args(tol):
    """Keyword arguments that go with such a case."""
    return {n: tol[n] for n in ("symprec", "atol") if tol is not None and tol[n] is not None}


def atol_of(tol):
    return 1e-8 if tol is None or tol["atol"] is None else tol["atol"]


def symprec_of(tol):
    return 1e-5 if tol is None or tol["symprec"] is None else tol["symprec"]


def slack(c):
    """What a k-point off by less than atol, and rounding within atol, add to the errors of the representation."""
    eps, atol = 0.0 if c["k"] is None else abs(c["k"]["eps"]), atol_of(c.get("tol"))
    return (500 * eps if 1e-9 < eps < atol else 0.0) + (20 * atol if atol > 1e-8 else 0.0)


def make_crystal_case(c, ctx):
    """lattice, positions, numbers, k in the dual basis, call arguments; None when there is no crystal to test."""
    import spglib

    cr = gen.make_crystal(c["crystal"])
    if cr is None:
        ctx.trivial = True
        ctx.label("atoms overlap, skipped")
        return None
    L, pos, num = cr
    tol = c.get("tol")
    pos, _ = displaced(tol, L, pos)
    ds = spglib.get_symmetry_dataset((L, pos, num), symprec=symprec_of(tol))
    if ds is None:
        ctx.trivial = True
        ctx.label("spglib finds no dataset, skipped")
        return None
    k = kpoint_of(c, ds["rotations"])
    return L, pos, num, k, ds


def crystal_composition(R, t, k, tr=None):
    """Multiplication table among all operations of the cell, and phases of the lattice translations left over."""
    table, extra = oracle.composition(R, t, tr, tol=1e-3)
    return table, extra


def crystal_tol(extra, k):
    """Tolerance for phases: spglib's translations compose up to the rounding measured here."""
    dev = oracle.rint_dist(extra).max()
    return oracle.TOL + 60 * dev * (1 + np.abs(k).max())


def sub_table(table, idx):
    pos = np.full(len(table), -1)
    pos[idx] = np.arange(len(idx))
    sub = pos[table[np.ix_(idx, idx)]]
    require((sub >= 0).all(), "the reported little group is not closed under multiplication")
    return sub


def crystal_labels(ctx, c, R, n_cent, m, irreps):
    ctx.label("cell with centring or superlattice translations" if n_cent > 1 else "primitive cell")
    if symprec_of(c.get("tol")) != 1e-5:
        ctx.label("displaced atoms, looser symprec")
    ctx.label("k in another reciprocal basis" if c["recip"] is not None else "k in the dual basis")
    ctx.label(c["method"])
    if c["k"] is None:
        ctx.label("k left out")
    if c.get("form", "array") != "array":
        ctx.label(f"arguments written as {c['form']}s")
    if len(m) < len(R):
        ctx.label("k moved by some operation")
    if max(g.shape[1] for g in irreps) > 1:
        ctx.label("has an irrep of dimension > 1")
    ctx.trivial = len(m) <= 1
