"""P07: the description of the crystal (cell, origin, orientation, atom order, reciprocal basis) does not matter."""

import numpy as np
import spglib
from hypothesis import strategies as st

from pbt import gen, oracle
from pbt.core import Campaign, Violation, require, sut
from pbt.props import common as cm

from spgrep.core import get_spacegroup_irreps, get_spacegroup_spinor_irreps

PROPERTY = "P07"
RULE = "non-trivial: the two descriptions differ and the little group has at least two operations"
ASSUMPTIONS = ["compared only when spglib finds the same operations in both descriptions", "characters compared to 1e-5 and the accuracy of the translations"]


def second():
    return {
        "recip": cm.st_recip(),
        "method": cm.METHODS,
        "cell2": st.one_of(st.integers(0, len(gen.CELLS) - 1), gen.st_unimodular(2)),
        "shift2": st.one_of(st.none(), st.lists(st.integers(-48, 48), min_size=3, max_size=3)),
        "quat": st.one_of(st.none(), st.lists(st.integers(-4, 4), min_size=4, max_size=4)),
        "order2": gen.st_order(),
    }


def strategy(halls):
    return st.sampled_from(halls).flatmap(
        lambda h: st.fixed_dictionaries({"crystal": gen.st_crystal(h), "k": gen.st_kpoint(), "spin": st.booleans(), **second()})
    )


def second_description(c, L, pos, code, k):
    """The same crystal and k in another cell: (L2, pos2, code2, k2, columns M of the new basis, displacement s)."""
    s = np.zeros(3) if c["shift2"] is None else np.array(c["shift2"]) / 97
    M = np.array(gen.CELLS[c["cell2"]], dtype=float) if isinstance(c["cell2"], int) else gen.make_unimodular(c["cell2"]).astype(float)
    if np.linalg.det(M) < 0:
        M = -M
    if len(pos) * abs(np.linalg.det(M)) > c.get("most", 200):
        M = np.eye(3)
    L2, pos2, code2 = gen.recell(L, pos + s, code, M)
    p = gen.make_order(len(pos2), c["order2"])
    pos2, code2 = pos2[p], code2[p]
    if c["quat"] is not None:
        L2 = L2 @ gen.quat_rotation(c["quat"]).T
    return L2, pos2, code2, M.T @ k, M, s


def compare(c, ctx, k, M, s, first, second):
    """first, second: (irreps, R, t, tr, m, U).  Characters agree on the operations both descriptions list."""
    irreps, R, t, tr, m, U = first
    irreps2, R2, t2, tr2, m2, U2 = second
    cents = cm.centring_vectors(R, t, tr)
    cents2 = cm.centring_vectors(R2, t2, tr2)
    if len(R) * len(cents2) != len(R2) * len(cents):
        ctx.label("the second cell keeps fewer operations, skipped")
        ctx.trivial = True
        return
    oracle.little_group(R, k, tr, lattice_vecs=cents)  # no verdict on the edge of the tolerance
    where = {}
    for a, i in enumerate(m):
        where.setdefault((R[i].tobytes(), int(tr[i])), []).append((a, i))
    Mi = np.linalg.inv(M)
    require(len(m) * len(cents2) == len(m2) * len(cents), f"little co-groups differ: {len(m)}/{len(cents)} and {len(m2)}/{len(cents2)}")
    rows, phases, dev = [], [], 0.0
    for i in m2:
        r = np.rint(M @ R2[i] @ Mi).astype(R.dtype)
        v = M @ t2[i] - s + r @ s
        best = None
        for a, j in where.get((r.tobytes(), int(tr2[i])), []):
            d = v - t[j]
            if oracle.rint_dist(d).max() < 1e-3:
                best = (a, d)
                break
        if best is None:
            raise Violation(f"operation {i} of the second description is not in the little group of the first")
        rows.append(best[0])
        dev = max(dev, oracle.rint_dist(best[1]).max())
        phases.append(np.exp(-2j * np.pi * (k @ best[1])))
    f = np.array(phases)
    if U is not None:
        # rotating the crystal turns U into +-V U V^-1; the sign is a choice of each description
        V = np.eye(2) if c["quat"] is None else oracle.spin_matrices(np.eye(3), [gen.quat_rotation(c["quat"])])[0]
        sign = np.array([np.trace((V @ U[a] @ np.linalg.inv(V)) @ U2[i].conj().T).real / 2 if not tr[m[a]] else 1.0 for i, a in enumerate(rows)])
        require(np.abs(np.abs(sign) - 1).max() < 1e-5, "SU(2) matrices of the two descriptions differ by more than a sign")
        f = f * np.sign(sign)
    unitary = np.array([i for i, a in enumerate(rows) if not tr[m[a]]])
    a = [g[rows][unitary] * f[unitary][:, None, None] for g in irreps]
    cm.match_characters(a, [g[unitary] for g in irreps2], tol=1e-5 + 100 * dev * (1 + np.abs(k).sum()), what="irreps of the two descriptions")
    ctx.label("same volume" if abs(abs(np.linalg.det(M)) - 1) < 1e-6 else "superlattice")
    if len(m) < len(R):
        ctx.label("k moved by some operation")
    ctx.trivial = len(m) <= 1


def run(c, ctx):
    case = cm.make_crystal_case(c, ctx)
    if case is None:
        return
    L, pos, num, k, ds = case
    L2, pos2, num2, k2, M, s = second_description(c, L, pos, num, k)
    kin, kw = cm.recip_args(c["recip"], L2, k2)
    if c["spin"]:
        g, _, U, R, t, m = sut(get_spacegroup_spinor_irreps, L, pos, num, kpoint=k)
        g2, _, U2, R2, t2, m2 = sut(get_spacegroup_spinor_irreps, L2, pos2, num2, kpoint=kin, method=c["method"], **kw)
        ctx.label("spinors")
    else:
        (g, R, t, m), U = sut(get_spacegroup_irreps, L, pos, num, k), None
        (g2, R2, t2, m2), U2 = sut(get_spacegroup_irreps, L2, pos2, num2, kin, method=c["method"], **kw), None
    compare(c, ctx, k, M, s, (g, R, t, np.zeros(len(R), dtype=int), m, U), (g2, R2, t2, np.zeros(len(R2), dtype=int), m2, U2))


def magnetic(unis):
    return st.sampled_from(unis).flatmap(
        lambda u: st.fixed_dictionaries({"crystal": gen.st_magnetic_crystal(u), "k": gen.st_kpoint(), **second()})
    )


def run_magnetic(c, ctx):
    cr = gen.make_magnetic_crystal(c["crystal"], max_atoms=40)
    if cr is None:
        ctx.trivial = True
        ctx.label("atoms overlap, skipped")
        return
    L, pos, num, mom = cr
    ds = spglib.get_magnetic_symmetry_dataset((L, pos, num, mom), symprec=1e-5)
    if ds is None:
        ctx.trivial = True
        ctx.label("spglib finds no dataset, skipped")
        return
    k = gen.make_kpoint(c["k"], ds["rotations"], np.array(ds["time_reversals"]).astype(int))
    code = num * 100 + np.rint(mom * 10).astype(int)
    L2, pos2, code2, k2, M, s = second_description({**c, "most": 100}, L, pos, code, k)
    num2 = np.rint(code2 / 100).astype(int)
    mom2 = (code2 - num2 * 100) / 10.0
    if spglib.get_magnetic_symmetry_dataset((L2, pos2, num2, mom2), symprec=1e-5) is None:
        ctx.trivial = True
        ctx.label("spglib finds no dataset, skipped")
        return
    kin, kw = cm.recip_args(c["recip"], L2, k2)
    g, _, U, _, R, t, tr, m = sut(get_spacegroup_spinor_irreps, L, pos, num, mom, kpoint=k)
    g2, _, U2, _, R2, t2, tr2, m2 = sut(get_spacegroup_spinor_irreps, L2, pos2, num2, mom2, kpoint=kin, method=c["method"], **kw)
    compare(c, ctx, k, M, s, (g, R, t, tr, m, U), (g2, R2, t2, tr2, m2, U2))
    if tr[m].any():
        ctx.label("keeps an anti-unitary operation")


CAMPAIGNS = [
    Campaign("crystals in two descriptions", strategy, run, cm.hall_shards(96), 18, 24),
    Campaign("collinear magnetic crystals in two descriptions", magnetic, run_magnetic, cm.uni_shards(96), 5, 8),
]
REGRESSIONS = []
