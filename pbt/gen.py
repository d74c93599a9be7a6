"""Generators: group data from spglib's tables, bases, k-points, lattices, crystals.

Nothing here uses spgrep.  All cases are plain JSON-able dictionaries; the ``make_*`` functions
expand them deterministically.
"""

from __future__ import annotations

import random
from fractions import Fraction as F
from functools import lru_cache

import numpy as np
import spglib
from hypothesis import strategies as st

HALLS = list(range(1, 531))
UNIS = list(range(1, 1652))
I3 = np.eye(3, dtype=int)

# ITA primitive bases (column-wise), by centring letter
STD_PRIM = {
    "P": [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    "A": [[1, 0, 0], [0, F(1, 2), -F(1, 2)], [0, F(1, 2), F(1, 2)]],
    "B": [[F(1, 2), 0, -F(1, 2)], [0, 1, 0], [F(1, 2), 0, F(1, 2)]],
    "C": [[F(1, 2), F(1, 2), 0], [-F(1, 2), F(1, 2), 0], [0, 0, 1]],
    "I": [[-F(1, 2), F(1, 2), F(1, 2)], [F(1, 2), -F(1, 2), F(1, 2)], [F(1, 2), F(1, 2), -F(1, 2)]],
    "F": [[0, F(1, 2), F(1, 2)], [F(1, 2), 0, F(1, 2)], [F(1, 2), F(1, 2), 0]],
    "R": [[F(2, 3), -F(1, 3), -F(1, 3)], [F(1, 3), F(1, 3), -F(2, 3)], [F(1, 3), F(1, 3), F(1, 3)]],
}


def fl(m):
    return np.array(m, dtype=float)


@lru_cache(maxsize=None)
def db_ops(hall):
    d = spglib.get_symmetry_from_database(hall)
    return np.array(d["rotations"], dtype=int), np.array(d["translations"], dtype=float)


@lru_cache(maxsize=None)
def db_magnetic_ops(uni):
    d = spglib.get_magnetic_symmetry_from_database(uni)
    return (
        np.array(d["rotations"], dtype=int),
        np.array(d["translations"], dtype=float),
        np.array(d["time_reversals"]).astype(int),
    )


@lru_cache(maxsize=None)
def magnetic_type(uni):
    return int(spglib.get_magnetic_spacegroup_type(uni)["type"])


def _centring_vectors(R, t, tr=None):
    out = []
    for i in range(len(R)):
        if (R[i] == I3).all() and (tr is None or tr[i] == 0):
            out.append([F(int(round(x * 24)), 24) for x in t[i]])
    return out


def _in_lattice(P, vecs):
    Pi = np.linalg.inv(fl(P))
    return all(np.abs(Pi @ fl(v) - np.rint(Pi @ fl(v))).max() < 1e-9 for v in vecs)


def primitive_basis_of(cents):
    """Columns of a primitive basis for the lattice generated by Z^3 and the centring vectors."""
    n = len(cents)
    for P in STD_PRIM.values():
        if abs(abs(np.linalg.det(fl(P))) * n - 1) < 1e-9 and _in_lattice(P, cents) and _in_lattice(P, I3):
            return P
    # general case: integer column reduction of 24*(I | cents)
    rows = [[24 if i == j else 0 for j in range(3)] for i in range(3)]
    rows += [[int(x * 24) for x in c] for c in cents]
    basis = []
    for col in range(3):
        piv = None
        while True:
            nz = [r for r in rows if r[col]]
            if len(nz) <= 1:
                piv = nz[0]
                break
            nz.sort(key=lambda r: abs(r[col]))
            p = nz[0]
            for r in nz[1:]:
                q = r[col] // p[col]
                for c in range(3):
                    r[c] -= q * p[c]
        basis.append(piv)
        rows = [r for r in rows if r is not piv]
    return [[F(basis[j][i], 24) for j in range(3)] for i in range(3)]


def _reduce(R, t, tr, P):
    """Transform to basis P and keep one operation per (rotation, time reversal)."""
    Pf = fl(P)
    Pi = np.linalg.inv(Pf)
    seen, rr, tt, ss = set(), [], [], []
    for i in range(len(R)):
        r = np.rint(Pi @ R[i] @ Pf).astype(int)
        s = 0 if tr is None else int(tr[i])
        key = (r.tobytes(), s)
        if key in seen:
            continue
        seen.add(key)
        v = Pi @ t[i]
        v = v - np.floor(v + 1e-9)
        v[np.abs(v) < 1e-9] = 0
        if (r == I3).all() and s == 0:
            v = np.zeros(3)
        rr.append(r)
        tt.append(v)
        ss.append(s)
    return np.array(rr), np.array(tt), np.array(ss)


@lru_cache(maxsize=None)
def prim_ops(hall):
    """Primitive (rotations, translations) for a Hall setting, in ITA's primitive basis, and that basis."""
    R, t = db_ops(hall)
    P = primitive_basis_of(_centring_vectors(R, t))
    r, v, _ = _reduce(R, t, None, P)
    return r, v, P


@lru_cache(maxsize=None)
def prim_magnetic_ops(uni):
    R, t, tr = db_magnetic_ops(uni)
    P = primitive_basis_of(_centring_vectors(R, t, tr))
    r, v, s = _reduce(R, t, tr, P)
    return r, v, s, P


@lru_cache(maxsize=None)
def point_group_symbol(hall):
    R, _, _ = prim_ops(hall)
    return spglib.get_pointgroup(R)[0].strip()


@lru_cache(maxsize=None)
def point_group_settings():
    """Distinct primitive-basis matrix groups over all Hall settings: [(symbol, hall)]."""
    out = []
    seen = set()
    for h in HALLS:
        R, _, _ = prim_ops(h)
        key = frozenset(r.tobytes() for r in R)
        if key not in seen:
            seen.add(key)
            out.append((point_group_symbol(h), h))
    return out


# ---------------------------------------------------------------------------------------------
# Bases, origins, orders
# ---------------------------------------------------------------------------------------------

UNI_STEP = st.tuples(st.integers(0, 2), st.integers(0, 2), st.sampled_from([1, -1]))


def st_unimodular(maxlen=3):
    """Sequence of elementary column operations; [i, i, -1] flips the sign of column i."""
    return st.one_of(st.just([]), st.lists(UNI_STEP.map(list), min_size=1, max_size=maxlen))


def make_unimodular(steps):
    M = np.eye(3, dtype=int)
    for i, j, s in steps:
        E = np.eye(3, dtype=int)
        E[i, j] = s
        M = M @ E
    return M


def st_shift():
    special = st.lists(st.sampled_from([0, 6, 12, 8, 3, 5, 18]), min_size=3, max_size=3).map(lambda v: [x / 24 for x in v])
    generic = st.lists(st.integers(-500, 500), min_size=3, max_size=3).map(lambda v: [x / 997 for x in v])
    return st.one_of(st.none(), special, generic)


def st_order():
    """None: tabulated order; otherwise the seed of a deterministic shuffle."""
    return st.one_of(st.none(), st.integers(0, 9999))


def make_order(n, seed):
    idx = list(range(n))
    if seed is not None:
        random.Random(seed).shuffle(idx)
    return np.array(idx)


def change_basis(R, t, steps):
    U = make_unimodular(steps)
    Ui = np.rint(np.linalg.inv(U)).astype(int)
    return np.array([Ui @ r @ U for r in R]), np.array([Ui @ v for v in t]), U


def shift_origin(R, t, shift, tr=None):
    """(R, t) -> (R, t + R d - d); the identity keeps translation zero."""
    if shift is None:
        return t.copy()
    d = np.array(shift, dtype=float)
    out = np.array([v + r @ d - d for r, v in zip(R, t)])
    for i in range(len(R)):
        if (R[i] == I3).all() and (tr is None or tr[i] == 0):
            out[i] = t[i]
    return out


def st_primitive(hall):
    return st.fixed_dictionaries(
        {
            "hall": st.just(hall),
            "uni": st_unimodular(),
            "shift": st_shift(),
            "order": st_order(),
            "wrap": st.one_of(st.just(0), st.integers(0, 999)),
        }
    )


def make_primitive(c):
    """Expand st_primitive / st_magnetic_primitive: rotations, translations(, time reversals)."""
    if "uni_number" in c:
        R, t, s, _ = prim_magnetic_ops(c["uni_number"])
    else:
        R, t, _ = prim_ops(c["hall"])
        s = np.zeros(len(R), dtype=int)
    R, t, U = change_basis(R, t, c["uni"])
    t = shift_origin(R, t, c["shift"], s)
    if c["wrap"]:
        # add lattice translations to the representatives (never to the identity)
        rnd = random.Random(c["wrap"])
        for i in range(len(R)):
            w = [rnd.choice([0, 0, 1, -1, 2]) for _ in range(3)]
            if not ((R[i] == I3).all() and s[i] == 0):
                t[i] = t[i] + w
    p = make_order(len(R), c["order"])
    return R[p].copy(), t[p].copy(), s[p].copy()


def st_magnetic_primitive(uni):
    return st.fixed_dictionaries(
        {
            "uni_number": st.just(uni),
            "uni": st_unimodular(2),
            "shift": st_shift(),
            "order": st_order(),
            "wrap": st.one_of(st.just(0), st.integers(0, 999)),
        }
    )


# ---------------------------------------------------------------------------------------------
# k-points
# ---------------------------------------------------------------------------------------------

SPECIAL = [F(0), F(1, 2), F(1, 4), F(1, 3), F(3, 4), F(2, 3), F(1, 6), F(5, 6), F(1, 8), F(3, 8), F(5, 8)]
SPECIAL24 = [0, 12, 6, 8, 18, 16, 4, 20, 3, 9, 15]  # the same, in units of 1/24


def st_kpoint(eps=True):
    """Special point + (optionally) a component along a fixed subspace or a generic one + reciprocal shift.

    ``eps``: sometimes a little off that point, within or beyond the documented tolerances.
    """
    spec = st.one_of(
        st.lists(st.sampled_from([0, 12]), min_size=3, max_size=3),
        st.lists(st.sampled_from([0, 12]), min_size=3, max_size=3),
        st.lists(st.sampled_from([0, 12, 6, 18]), min_size=3, max_size=3),
        st.lists(st.sampled_from(SPECIAL24), min_size=3, max_size=3),
        st.sampled_from([[0, 0, 0], [8, 8, 0], [8, 8, 12], [6, 6, 6], [12, 12, 12], [8, 16, 0], [16, 8, 12], [18, 18, 18], [12, 0, 6], [6, 18, 6]]),
    )
    x = st.lists(st.integers(-504, 504), min_size=3, max_size=3)
    small = st.lists(st.integers(-2, 2), min_size=3, max_size=3)
    return st.fixed_dictionaries(
        {
            "s": spec,
            "line": st.one_of(st.integers(0, 47), st.integers(0, 47), st.none()),
            "x": st.one_of(st.none(), st.none(), x),
            "G": st.one_of(st.just([0, 0, 0]), small, small, st.lists(st.integers(-40, 40), min_size=3, max_size=3)),
            "eps": st.sampled_from([0] * 17 + [1e-10, 1e-6, -3e-5, 2e-4, -3e-3]) if eps else st.just(0),
        }
    )


def make_kpoint(c, R, tr=None):
    """Exact rational construction, then rounded to floats once."""
    s = [F(a, 24) for a in c["s"]]
    M = [[[int(a) for a in row] for row in (r.T if tr is None or not tr[i] else -r.T)] for i, r in enumerate(R)]

    def act(m, v):
        return [sum(m[i][j] * v[j] for j in range(3)) for i in range(3)]

    k = list(s)
    if c["x"] is not None:
        x = [F(a, 1009) for a in c["x"]]
        if c["line"] is None:
            k = [a + b for a, b in zip(k, x)]
        else:
            stab = [i for i in range(len(R)) if all((a - b).denominator == 1 for a, b in zip(act(M[i], s), s))]
            m = M[stab[c["line"] % len(stab)]]
            acc, v, n = [F(0)] * 3, x, 12
            for _ in range(n):
                acc = [a + b for a, b in zip(acc, v)]
                v = act(m, v)
            k = [a + b / n for a, b in zip(k, acc)]
    k = [a + g for a, g in zip(k, c["G"])]
    out = np.array([float(a) for a in k])
    if c["eps"]:
        out = out + c["eps"] * np.array([1.0, -0.7, 0.45])
    return out


# ---------------------------------------------------------------------------------------------
# Lattices
# ---------------------------------------------------------------------------------------------


def st_lattice():
    return st.fixed_dictionaries(
        {
            "diag": st.lists(st.integers(8, 20), min_size=3, max_size=3),
            "off": st.one_of(st.just([0, 0, 0]), st.lists(st.integers(-9, 9), min_size=3, max_size=3)),
            "quat": st.one_of(st.just([1, 0, 0, 0]), st.lists(st.integers(-4, 4), min_size=4, max_size=4)),
            "mirror": st.sampled_from([False, False, False, True]),
            "scale": st.sampled_from([1.0, 1.0, 1.0, 0.05, 25.0, 1e-10, 1e6]),
        }
    )


def quat_rotation(q):
    if not any(q):
        q = [1, 0, 0, 0]
    w, x, y, z = np.array(q, dtype=float) / np.linalg.norm(q)
    return np.array(
        [
            [1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
            [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
            [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)],
        ]
    )


def make_lattice(c, R, allow_mirror=True):
    """Row-wise lattice whose metric is invariant under R (fractional rotations)."""
    A = np.diag(np.array(c["diag"]) / 10.0)
    A[1, 0], A[2, 0], A[2, 1] = np.array(c["off"]) / 10.0
    G = A @ A.T
    G = sum(r.T @ G @ r for r in R) / len(R)
    L = np.linalg.cholesky(G)  # rows are lattice vectors: L L^T = G
    L = L @ quat_rotation(c["quat"]).T
    if c["mirror"] and allow_mirror:
        L = L @ np.diag([1.0, 1.0, -1.0])
    return L * c["scale"]


# ---------------------------------------------------------------------------------------------
# Crystals
# ---------------------------------------------------------------------------------------------


def st_site():
    coord = st.one_of(st.sampled_from([0, 12, 6, 18, 8]).map(lambda a: a / 24), st.integers(1, 96).map(lambda a: a / 97))
    gen = st.lists(st.integers(1, 96), min_size=3, max_size=3).map(lambda v: [a / 97 for a in v])
    return st.one_of(gen, st.lists(coord, min_size=3, max_size=3))


CELLS = [
    [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    [[0, 1, 0], [0, 0, 1], [1, 0, 0]],
    [[0, 1, 0], [1, 0, 0], [0, 0, -1]],
    [[1, 1, 0], [0, 1, 0], [0, 0, 1]],
    [[1, 0, 0], [0, 1, 0], [0, 0, 2]],
    [[2, 0, 0], [0, 1, 0], [0, 0, 1]],
    [[1, -1, 0], [1, 1, 0], [0, 0, 1]],
    [[1, 0, 1], [0, 1, 0], [-1, 0, 1]],
    [[2, 0, 0], [0, 2, 0], [0, 0, 1]],
    [[0, 1, 1], [1, 0, 1], [1, 1, 0]],
]


def st_crystal(hall):
    return st.fixed_dictionaries(
        {
            "hall": st.just(hall),
            "lattice": st_lattice(),
            "sites": st.lists(st_site(), min_size=1, max_size=2),
            "cell": st.sampled_from(["conv", "conv", "prim", "cell"]),
            "mat": st.integers(0, len(CELLS) - 1),
            "uni": st_unimodular(2),
            "shift": st.one_of(st.none(), st.lists(st.integers(-48, 48), min_size=3, max_size=3).map(lambda v: [a / 97 for a in v])),
            "order": st_order(),
        }
    )


def _orbit(R, t, x, tol=1e-3):
    pts = []
    for r, v in zip(R, t):
        y = (r @ x + v) % 1.0
        if not any(np.abs((y - p) - np.rint(y - p)).max() < tol for p in pts):
            pts.append(y)
    return pts


def _min_image(L, d):
    d = d - np.rint(d)
    best = None
    for a in (-1, 0, 1):
        for b in (-1, 0, 1):
            for c in (-1, 0, 1):
                v = (d + np.array([a, b, c])) @ L
                n = np.linalg.norm(v, axis=-1)
                best = n if best is None else np.minimum(best, n)
    return best


def well_separated(L, pos, dmin):
    pos = np.array(pos)
    if len(pos) == 1:
        return True
    i, j = np.triu_indices(len(pos), 1)
    return _min_image(L, pos[i] - pos[j]).min() > dmin


def right_handed(crystals):
    """spglib 2.4 crashes on magnetic structures with a left-handed basis."""
    return crystals.map(lambda d: {**d, "lattice": {**d["lattice"], "mirror": False}})


def make_crystal(c, max_atoms=110):
    """Return (lattice rows, positions, numbers) or None when atoms would overlap."""
    R, t = db_ops(c["hall"])
    L = make_lattice({**c["lattice"], "scale": 1.0}, R) * 6.0
    pos, num = [], []
    for n, x in enumerate(c["sites"]):
        o = _orbit(R, t, np.array(x))
        if pos and (len(pos) + len(o) > max_atoms or not well_separated(L, pos + o, 0.25)):
            continue
        if not pos and not well_separated(L, o, 0.25):
            continue
        pos += o
        num += [n + 1] * len(o)
    if not pos:
        return None
    pos = np.array(pos)
    num = np.array(num)
    if c["shift"] is not None:
        pos = pos + np.array(c["shift"])
    # another cell: new basis vectors (columns) in the conventional basis
    if c["cell"] == "conv":
        M = np.eye(3)
    elif c["cell"] == "prim":
        M = fl(prim_ops(c["hall"])[2]) @ make_unimodular(c["uni"])
    else:
        M = np.array(CELLS[c["mat"]], dtype=float)
    if np.linalg.det(M) < 0:
        M = -M
    L, pos, num = recell(L, pos, num, M)
    p = make_order(len(pos), c["order"])
    return L, pos[p], num[p]


def recell(L, pos, num, M):
    """Describe the same crystal in the cell whose basis vectors are the columns of M."""
    Mi = np.linalg.inv(M)
    n_expected = int(round(len(pos) * abs(np.linalg.det(M))))
    out, onum = [], []
    rng = range(-4, 5) if not np.allclose(M, np.eye(3)) else range(0, 1)
    seen = {}
    for a in rng:
        for b in rng:
            for d in rng:
                q = (pos + np.array([a, b, d])) @ Mi.T
                q = q - np.floor(q + 1e-9)
                for y, z in zip(q, num):
                    key = (tuple(np.rint(y * 10**6).astype(int) % 10**6), int(z))
                    if key not in seen:
                        seen[key] = 1
                        out.append(y)
                        onum.append(z)
                if len(out) >= n_expected:
                    break
            if len(out) >= n_expected:
                break
        if len(out) >= n_expected:
            break
    assert len(out) == n_expected, (len(out), n_expected, M)
    return M.T @ L, np.array(out), np.array(onum)


def st_magnetic_crystal(uni):
    return st.fixed_dictionaries(
        {
            "uni_number": st.just(uni),
            "lattice": st_lattice(),
            "sites": st.lists(st.tuples(st_site(), st.sampled_from([1.0, 1.0, 2.5, -1.0, 0.0])).map(list), min_size=1, max_size=2),
            "cell": st.sampled_from(["conv", "conv", "prim", "cell"]),
            "mat": st.integers(0, len(CELLS) - 1),
            "uni": st_unimodular(2),
            "shift": st.one_of(st.none(), st.lists(st.integers(-48, 48), min_size=3, max_size=3).map(lambda v: [a / 97 for a in v])),
            "order": st_order(),
        }
    )


def make_magnetic_crystal(c, max_atoms=60):
    """(lattice rows, positions, numbers, collinear moments) or None; moments only flip with time reversal."""
    R, t, tr = db_magnetic_ops(c["uni_number"])
    L = make_lattice({**c["lattice"], "scale": 1.0}, R, allow_mirror=False) * 6.0
    pos, num, mom = [], [], []
    for n, (x, m) in enumerate(c["sites"]):
        o, mo = [], []
        for r, v, s in zip(R, t, tr):
            y = (r @ np.array(x) + v) % 1.0
            mm = -m if s else m
            for q, p in enumerate(o):
                if np.abs((y - p) - np.rint(y - p)).max() < 1e-3:
                    if mo[q] != mm:
                        mo[q] = 0.0
                    break
            else:
                o.append(y)
                mo.append(mm)
        if any(z == 0 for z in mo):
            mo = [0.0] * len(mo)
        if pos and (len(pos) + len(o) > max_atoms or not well_separated(L, pos + o, 0.25)):
            continue
        if not pos and (len(o) > max_atoms * 2 or not well_separated(L, o, 0.25)):
            continue
        pos += o
        num += [n + 1] * len(o)
        mom += mo
    if not pos:
        return None
    pos, num, mom = np.array(pos), np.array(num), np.array(mom)
    if c["shift"] is not None:
        pos = pos + np.array(c["shift"])
    if c["cell"] == "conv":
        M = np.eye(3)
    elif c["cell"] == "prim":
        M = fl(prim_magnetic_ops(c["uni_number"])[3]) @ make_unimodular(c["uni"])
    else:
        M = np.array(CELLS[c["mat"]], dtype=float)
    if np.linalg.det(M) < 0:
        M = -M
    if len(pos) * abs(np.linalg.det(M)) > 130:
        M = np.eye(3)
    code = num * 100 + np.rint(mom * 10).astype(int)
    L, pos, code = recell(L, pos, code, M)
    num = np.rint(code / 100).astype(int)
    mom = (code - num * 100) / 10.0
    p = make_order(len(pos), c["order"])
    return L, pos[p], num[p], mom[p]
