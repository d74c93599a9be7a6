"""P30: results follow the description of the group: relabelling, k + G, origin, basis, star, conjugation, rigid motion."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen, oracle
from pbt.core import Campaign, require, sut
from pbt.props import common as cm

import spgrep
from spgrep.irreps import enumerate_unitary_irreps

PROPERTY = "P30"
RULE = "non-trivial: the little group has at least two operations and the second description differs from the first"
ASSUMPTIONS = ["families are compared by their characters on unitary operations, to 1e-6; crystals to 1e-5 and the accuracy of the translations", "the symmetry operations of crystals are spglib's"]

I3 = np.eye(3, dtype=int)
RELATIONS = ["order", "shift-k", "origin", "basis", "star", "star", "minus-k", "several"]


def match(a, b, what, tol=1e-6):
    """Two families of characters agree, one to one."""
    require(len(a) == len(b), f"{what}: {len(a)} irreps become {len(b)}")
    used = [False] * len(b)
    for x in a:
        for j, y in enumerate(b):
            if not used[j] and np.abs(x - y).max() < tol:
                used[j] = True
                break
        else:
            require(False, f"{what}: the irrep with characters {np.round(x, 4).tolist()[:12]} has no counterpart")


def relation(c, R, t, tr, k, L):
    """Another description (R2, t2, tr2, k2, L2), where operation i went (to[i], phase[i], conjugated?), and SU(2) frame."""
    n = len(R)
    name = c["relation"]
    to = np.arange(n)
    phase = np.ones(n, dtype=complex)
    conj = False
    frame = None
    R2, t2, tr2, k2, L2 = R.copy(), t.copy(), tr.copy(), k.copy(), L.copy()
    if name in ("origin", "several"):
        p = np.array(c["shift"])
        # (E, p)(R, t)(E, -p)
        t2 = t2 + p - R2 @ p
    if name in ("basis", "several"):
        R2, t2, U = gen.change_basis(R2, t2, c["uni"])
        k2 = U.T @ k2
        L2 = U.T @ L2
    if name in ("shift-k", "several"):
        k2 = k2 + np.array(c["G"])
    if name in ("order", "several"):
        perm = gen.make_order(n, c["perm"])
        R2, t2, tr2 = R2[perm].copy(), t2[perm].copy(), tr2[perm].copy()
        to = np.argsort(perm)
    if name == "minus-k":
        k2 = -k2
        conj = True
    if name == "star":
        g = c["g"] % n
        S, s = R[g], t[g]
        Si = np.rint(np.linalg.inv(S)).astype(int)
        k2 = Si.T @ k * (-1 if tr[g] else 1)
        keys = {(r.tobytes(), int(a)): [] for r, a in zip(R, tr)}
        for i in range(n):
            keys[(R[i].tobytes(), int(tr[i]))].append(i)
        for i in range(n):
            r = S @ R[i] @ Si
            v = s + S @ t[i] - r @ s
            cand = keys[(np.ascontiguousarray(r).tobytes(), int(tr[i]))]
            j = min(cand, key=lambda a: np.abs(v - t[a] - np.rint(v - t[a])).max())
            T = np.rint(v - t[j])
            to[i] = j
            phase[i] = np.exp(-2j * np.pi * k2 @ T)
        conj = bool(tr[g])
        frame = g
    return R2, t2, tr2, k2, L2, to, phase, conj, frame


def s_relation(extra, ops):
    return st.fixed_dictionaries(
        {
            "ops": ops,
            "k": gen.st_kpoint(),
            "relation": st.sampled_from(RELATIONS + extra),
            "shift": st.lists(st.integers(-60, 60), min_size=3, max_size=3).map(lambda v: [a / 53 for a in v]),
            "uni": gen.st_unimodular(2),
            "G": st.lists(st.integers(-5, 5), min_size=3, max_size=3),
            "perm": st.integers(0, 9999),
            "g": st.integers(0, 95),
            "lattice": gen.st_lattice(),
            "quat": st.lists(st.integers(-4, 4), min_size=4, max_size=4),
            "scale": st.sampled_from([1e-10, 0.1, 0.7, 3.0, 40.0, 1e6]),
            "method": cm.METHODS,
        }
    )


def little_map(m, m2, to, tr, what):
    """Positions in the second little group of the operations of the first."""
    require(sorted(int(to[i]) for i in m) == sorted(int(i) for i in m2), f"{what}: the little group does not follow")
    pos = {int(j): a for a, j in enumerate(m2)}
    return np.array([pos[int(to[i])] for i in m])


# ---- linear ----------------------------------------------------------------------------------


def s_linear(hall):
    return s_relation([], gen.st_primitive(hall))


def run_linear(c, ctx):
    R, t, tr = gen.make_primitive(c["ops"])
    k = gen.make_kpoint(c["k"], R)
    R2, t2, _, k2, _, to, phase, conj, _ = relation(c, R, t, tr, k, np.eye(3))
    f = spgrep.get_spacegroup_irreps_from_primitive_symmetry
    a, m = sut(f, R, t, k, method=c["method"])
    b, m2 = sut(f, R2, t2, k2, method=c["method"])
    w = little_map(m, m2, to, tr, c["relation"])
    ca = [x * 1 for x in oracle.characters(a)]
    cb = [x[w] * phase[m] for x in oracle.characters(b)]
    if conj:
        cb = [x.conj() for x in cb]
    match(ca, cb, c["relation"])
    if np.abs(2 * k - np.rint(2 * k)).max() < 1e-9:
        ra, _ = sut(f, R, t, k, real=True, method=c["method"])
        rb, _ = sut(f, R2, t2, k2, real=True, method=c["method"])
        match(oracle.characters(ra), [x[w] * phase[m].real for x in oracle.characters(rb)], f"{c['relation']}, over the reals")
        ctx.label("over the reals too")
    ctx.label(c["relation"])
    finish(ctx, c, m, R)


def finish(ctx, c, m, R):
    if len(m) < len(R) and c["relation"] == "star":
        ctx.label("to another arm of the star or by an operation of the little group")
    ctx.trivial = len(m) == 1 or (c["relation"] == "basis" and not c["uni"]) or (c["relation"] == "shift-k" and not any(c["G"]))


# ---- spinors ---------------------------------------------------------------------------------


def s_spinor(hall):
    return s_relation(["rotate", "rotate", "scale"], gen.st_primitive(hall))


def spin_signs(U1, U2, conj, V):
    """s_i = +-1 with U2_i = s_i V U1_i(*) V^dagger."""
    ref = U1.conj() if conj else U1
    ref = V @ ref @ V.conj().T
    s = np.einsum("kij,kij->k", U2, ref.conj()) / 2
    require(np.abs(np.abs(s.real) - 1).max() < 1e-5 and np.abs(s.imag).max() < 1e-5, "spin rotations do not follow the change of description")
    return np.sign(s.real)


def run_spinor(c, ctx):
    R, t, tr = gen.make_primitive(c["ops"])
    k = gen.make_kpoint(c["k"], R)
    L = gen.make_lattice(c["lattice"], R)
    R2, t2, _, k2, L2, to, phase, conj, g = relation(c, R, t, tr, k, L)
    V = np.eye(2, dtype=complex)
    if c["relation"] == "rotate":
        Q = gen.quat_rotation(c["quat"])
        L2 = L @ Q.T
        V = oracle.spin_matrices(np.eye(3), [Q])[0]
    elif c["relation"] == "scale":
        L2 = L * c["scale"]
    elif g is not None:
        V = oracle.spin_matrices(L, R[g][None])[0]
    elif conj:
        # U* is U in another frame: sigma_y U* sigma_y = U
        V = oracle.SY
    f = spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry
    a, z, U, m = sut(f, L, R, t, kpoint=k, method=c["method"])
    b, z2, U2, m2 = sut(f, L2, R2, t2, kpoint=k2, method=c["method"])
    w = little_map(m, m2, to, tr, c["relation"])
    s = spin_signs(U, U2[w], conj, V)
    cb = [x[w] * phase[m] * s for x in oracle.characters(b)]
    if conj:
        cb = [x.conj() for x in cb]
    match(oracle.characters(a), cb, c["relation"])
    ctx.label(c["relation"])
    finish(ctx, c, m, R)


# ---- magnetic --------------------------------------------------------------------------------


def s_magnetic(unis):
    return st.sampled_from(unis).flatmap(lambda u: s_relation(["rotate", "scale"], gen.st_magnetic_primitive(u)))


def run_magnetic(c, ctx):
    R, t, tr = gen.make_primitive(c["ops"])
    k = gen.make_kpoint(c["k"], R, tr)
    L = gen.make_lattice(c["lattice"], R)
    if c["relation"] == "minus-k":
        # -k is conjugate to k, for co-representations of the same group
        pass
    R2, t2, tr2, k2, L2, to, phase, conj, g = relation(c, R, t, tr, k, L)
    V = np.eye(2, dtype=complex)
    if c["relation"] == "rotate":
        Q = gen.quat_rotation(c["quat"])
        L2 = L @ Q.T
        V = oracle.spin_matrices(np.eye(3), [Q])[0]
    elif c["relation"] == "scale":
        L2 = L * c["scale"]
    elif g is not None:
        V = oracle.spin_matrices(L, R[g][None])[0]
        if tr[g]:
            V = V @ (-1j * oracle.SY)
    elif conj:
        V = oracle.SY
    f = spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry
    a, _, _, U, _, m = sut(f, L, R, t, tr, k, method=c["method"])
    b, _, _, U2, _, m2 = sut(f, L2, R2, t2, tr2, k2, method=c["method"])
    w = little_map(m, m2, to, tr, c["relation"])
    u = np.flatnonzero(np.asarray(tr)[m] == 0)
    s = spin_signs(U[u], U2[w][u], conj, V)
    cb = [x[w][u] * phase[m][u] * s for x in oracle.characters(b)]
    if conj:
        cb = [x.conj() for x in cb]
    match([x[u] for x in oracle.characters(a)], cb, c["relation"])
    ctx.label(c["relation"])
    if tr[m].any():
        ctx.label("anti-unitary operations in the little group")
    if g is not None and tr[g]:
        ctx.label("moved by an anti-unitary operation")
    finish(ctx, c, m, R)


# ---- gauge -----------------------------------------------------------------------------------


def s_gauge(hall):
    return st.fixed_dictionaries({"ops": gen.st_primitive(hall), "k": gen.st_kpoint(), "spin": st.booleans(), "gauge": st.integers(0, 9999), "method": cm.METHODS})


def run_gauge(c, ctx):
    from pbt.props.p05 import build_factor_system

    R, table, w1 = build_factor_system({**c, "gauge": None})
    if np.abs(w1.imag).max() < 1e-9:
        # over the reals the gauge is a choice of signs
        h = np.random.default_rng(c["gauge"]).choice([-1.0, 1.0], size=len(R))
        h[next(i for i in range(len(R)) if (R[i] == I3).all())] = 1
        a, ia = sut(enumerate_unitary_irreps, R, w1, real=True, method=c["method"])
        b, ib = sut(enumerate_unitary_irreps, R, w1 * h[:, None] * h[None, :] / h[table], real=True, method=c["method"])
        match([x * h for x in oracle.characters(a)], oracle.characters(b), "change of signs, over the reals")
        ctx.label("over the reals too")
    _, _, w2 = build_factor_system(c)
    n = len(R)
    g = oracle.random_gauge(n, c["gauge"])
    g[next(i for i in range(n) if (R[i] == I3).all())] = 1
    a, _ = sut(enumerate_unitary_irreps, R, w1, method=c["method"])
    b, _ = sut(enumerate_unitary_irreps, R, w2, method=c["method"])
    match([x * g for x in oracle.characters(a)], oracle.characters(b), "change of gauge")
    ctx.trivial = n == 1


# ---- crystals --------------------------------------------------------------------------------


def s_crystal(halls):
    return st.sampled_from(halls).flatmap(
        lambda h: st.fixed_dictionaries(
            {
                "crystal": gen.st_crystal(h),
                "k": gen.st_kpoint(),
                "relation": st.sampled_from(["rotate", "atoms", "species", "wrap", "scale", "k", "origin", "basis"]),
                "quat": st.lists(st.integers(-4, 4), min_size=4, max_size=4),
                "perm": st.integers(0, 9999),
                "shift": st.lists(st.integers(-48, 48), min_size=3, max_size=3).map(lambda v: [a / 101 for a in v]),
                "uni": gen.st_unimodular(2),
                "spin": st.booleans(),
                "method": cm.METHODS,
            }
        )
    )


def run_crystal(c, ctx):
    case = cm.make_crystal_case({**c, "recip": None}, ctx)
    if case is None:
        return
    L, pos, num, k, ds = case
    L2, pos2, num2, k2 = L.copy(), pos.copy(), num.copy(), k.copy()
    U = np.eye(3, dtype=int)
    p = np.zeros(3)
    V = np.eye(2, dtype=complex)
    rel = c["relation"]
    if rel == "rotate":
        Q = gen.quat_rotation(c["quat"])
        L2 = L @ Q.T
        V = oracle.spin_matrices(np.eye(3), [Q])[0]
    elif rel == "atoms":
        q = gen.make_order(len(num), c["perm"])
        pos2, num2 = pos[q], num[q]
    elif rel == "species":
        num2 = np.where(num == 1, 17, 4)
    elif rel == "wrap":
        rng = np.random.default_rng(c["perm"])
        pos2 = pos + rng.integers(-2, 3, size=pos.shape)
    elif rel == "scale":
        L2 = L * 1.3
    elif rel == "k":
        rng = np.random.default_rng(c["perm"])
        cents = cm.centring_vectors(ds["rotations"], ds["translations"])
        G = rng.integers(-4, 5, size=3) * 1.0
        # keep to reciprocal vectors of the primitive lattice
        if np.abs(cents @ G - np.rint(cents @ G)).max() > 1e-9:
            G = G * len(cents)
        k2 = k + G
    elif rel == "origin":
        p = np.array(c["shift"])
        pos2 = pos + p
    elif rel == "basis":
        U = gen.make_unimodular(c["uni"])
        if np.linalg.det(U) < 0:
            U = U @ np.diag([1, 1, -1])
        L2 = U.T @ L
        Ui = np.rint(np.linalg.inv(U)).astype(int)
        pos2 = pos @ Ui.T
        k2 = U.T @ k
    f = spgrep.get_spacegroup_spinor_irreps if c["spin"] else spgrep.get_spacegroup_irreps
    out = sut(f, L, pos, num, kpoint=k, method=c["method"])
    out2 = sut(f, L2, pos2, num2, kpoint=k2, method=c["method"])
    (a, R, t, m), (b, R2, t2, m2) = [(o[0], *o[-3:]) for o in (out, out2)]
    require(len(R) == len(R2), "the number of symmetry operations changes")
    Ui = np.rint(np.linalg.inv(U)).astype(int)
    Rn = np.array([Ui @ r @ U for r in R])
    tn = (t + p - R @ p) @ Ui.T
    to, shift, dev = np.zeros(len(R), dtype=int), np.zeros((len(R), 3)), 0.0
    for i in range(len(R)):
        cand = np.flatnonzero((R2 == Rn[i]).all(axis=(1, 2)))
        d = tn[i] - t2[cand]
        e = np.abs(d - np.rint(d)).max(axis=1)
        if not len(e) or e.min() > 1e-3:
            ctx.trivial = True
            ctx.label("spglib finds other operations, no verdict")
            return
        to[i] = cand[e.argmin()]
        shift[i] = np.rint(d[e.argmin()])
        dev = max(dev, e.min())
    w = little_map(m, m2, to, np.zeros(len(R)), rel)
    phase = np.exp(-2j * np.pi * (shift[m] @ k2))
    cb = [x[w] * phase for x in oracle.characters(b)]
    if c["spin"]:
        s = spin_signs(out[2], out2[2][w], False, V)
        cb = [x * s for x in cb]
    match(oracle.characters(a), cb, rel, 1e-5 + 100 * dev * (1 + np.abs(k2).sum()))
    ctx.label(rel, "spinor" if c["spin"] else "linear")
    ctx.trivial = len(m) == 1


CAMPAIGNS = [
    Campaign("space groups", s_linear, run_linear, cm.hall_strata, 6, 80),
    Campaign("spinors", s_spinor, run_spinor, cm.hall_strata, 5, 60),
    Campaign("magnetic space groups", s_magnetic, run_magnetic, cm.uni_shards(112), 14, 20),
    Campaign("factor systems", s_gauge, run_gauge, cm.hall_strata, 2, 30),
    Campaign("crystals", s_crystal, run_crystal, cm.hall_shards(48), 12, 12),
]
REGRESSIONS = []
