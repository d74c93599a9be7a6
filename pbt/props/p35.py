"""P35: over a mesh of k-points the irreps are all irreps of the space group with periodic boundary conditions."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen, oracle
from pbt.core import Ambiguous, Campaign, require, sut
from pbt.props import common as cm

import spgrep

PROPERTY = "P35"
RULE = "non-trivial: the star of some k-point of the mesh has several arms, and more than one operation leaves it invariant"
ASSUMPTIONS = ["meshes n/N of N = 2, 3 and 4 (group orders up to 3072)", "co-representations are counted by their dimensions and norms only"]


def s_mesh(kinds, ops):
    return st.fixed_dictionaries(
        {
            "ops": ops,
            "kind": st.sampled_from(kinds),
            "N": st.sampled_from([2, 3, 2, 3, 4]),
            "arm": st.integers(0, 47),
            "recip": st.lists(st.integers(-2, 2), min_size=3, max_size=3),
            "lattice": gen.st_lattice(),
            "method": cm.METHODS,
        }
    )


def mesh(N):
    return np.array(np.meshgrid(*[np.arange(N)] * 3, indexing="ij")).reshape(3, -1).T


def stars(R, N, tr=None):
    """Orbits of the mesh (integer vectors modulo N) under R^-T, reversed by anti-unitary operations."""
    A = np.rint(np.linalg.inv(R)).astype(int).transpose(0, 2, 1)
    if tr is not None:
        A = A * np.where(np.asarray(tr) == 1, -1, 1)[:, None, None]
    code = np.array([N * N, N, 1])
    seen, out = set(), []
    for v in mesh(N):
        if int(code @ v) in seen:
            continue
        orbit = np.unique((A @ v) % N, axis=0)
        seen |= {int(x) for x in orbit @ code}
        out.append(orbit)
    return out


def count_classes(R, table, extra, N, sign=None):
    """Number of conjugacy classes of the space group modulo N times its lattice (with ``sign``: of the double group)."""
    n, M = len(R), mesh(N)
    code = np.array([N * N, N, 1])
    nm = N**3
    one = [i for i in range(n) if (R[i] == gen.I3).all()][0]
    J = np.repeat(np.arange(n), nm)
    P = np.tile(M, (n, 1))
    right = np.argsort(table, axis=0)  # right[l, i] = r with table[r, i] = l
    perms = []
    for i, m in [(i, np.zeros(3, int)) for i in range(n)] + [(one, e) for e in gen.I3]:
        ell = table[i, J]
        r = right[ell, i]
        q = extra[i, J] + m + P @ R[i].T - extra[r, i] - (R[r] @ m)
        to = r * nm + ((q % N) @ code)
        if sign is not None:
            s = np.where(sign[i, J] * sign[r, i] < 0, 1, 0)
            to = np.concatenate([to + s * n * nm, to + (1 - s) * n * nm])
        perms.append(to)
    lab = np.arange(len(perms[0]))
    while True:
        new = lab.copy()
        for p in perms:
            new = np.minimum(new, new[p])
        if (new == lab).all():
            return len(np.unique(lab))
        lab = new


def run(c, ctx):
    R, t, tr = gen.make_primitive(c["ops"])
    N, kind = c["N"], c["kind"]
    magnetic = tr if kind == "magnetic" else None
    L = gen.make_lattice(c["lattice"], R)
    total, number, wide = 0.0, 0, False
    for orbit in stars(R, N, magnetic):
        k = orbit[c["arm"] % len(orbit)] / N + np.array(c["recip"])
        fixed = oracle.little_group(R, k, magnetic)
        require(len(fixed) * len(orbit) == len(R), "internal: orbit-stabiliser")
        if kind == "linear":
            irreps, m = sut(spgrep.get_spacegroup_irreps_from_primitive_symmetry, R, t, k, method=c["method"])
        elif kind == "spinor":
            irreps, _, _, m = sut(spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry, L, R, t, kpoint=k, method=c["method"])
        else:
            irreps, _, _, _, _, m = sut(spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry, L, R, t, tr, k, method=c["method"])
        cm.check_mapping(m, fixed)
        unitary = np.flatnonzero(np.asarray(tr)[m] == 0) if kind == "magnetic" else slice(None)
        weight = len(orbit)
        # a unitary little group of a magnetic group: what is induced holds two irreps of the unitary subgroup
        doubled = 2 if kind == "magnetic" and tr.any() and not np.asarray(tr)[m].any() else 1
        for x in oracle.characters(irreps):
            x = x[unitary]
            norm = (x.conj() @ x).real / len(x)
            total += weight**2 * x[_one(R, m, unitary)].real ** 2 / norm / doubled
            number += 1
        wide |= len(orbit) > 1 and len(fixed) > 1
    n_unitary = len(R) if kind != "magnetic" else int((tr == 0).sum())
    want = n_unitary * N**3
    require(abs(total - want) < 1e-4 * want, f"{kind} irreps over the {N}x{N}x{N} mesh: sum of squared dimensions {total:.3f}, group of order {want}")
    if kind != "magnetic":
        table, extra = oracle.composition(R, t)
        extra = np.rint(extra).astype(int)
        sign = None
        classes = count_classes(R, table, extra, N)
        if kind == "spinor":
            sign = oracle.spin_factor(oracle.spin_matrices(L, R), table)
            classes = count_classes(R, table, extra, N, sign.real) - classes
        require(number == classes, f"{kind} irreps over the {N}x{N}x{N} mesh: {number}, the group has {classes} classes")
    ctx.label(kind, f"N = {N}")
    ctx.trivial = not wide


def _one(R, m, unitary):
    Rm = R[np.asarray(m)][unitary]
    return [i for i in range(len(Rm)) if (Rm[i] == gen.I3).all()][0]


def magnetic(unis):
    return st.sampled_from(unis).flatmap(lambda u: s_mesh(["magnetic"], gen.st_magnetic_primitive(u)))


CAMPAIGNS = [
    Campaign("space groups", lambda h: s_mesh(["linear", "spinor"], gen.st_primitive(h)), run, cm.hall_strata, 2, 20),
    Campaign("magnetic space groups", magnetic, run, cm.uni_shards(112), 6, 60),
]
REGRESSIONS = []
