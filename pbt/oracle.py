"""Independent judgements: written from the definitions, vectorised, tolerance-based, no spgrep code."""

from __future__ import annotations

import numpy as np

from pbt.core import Ambiguous, Violation, require

TOL = 1e-7  # entries, per dimension
FINE = 1e-8  # the same where nothing in the arguments is rounded away
I3 = np.eye(3, dtype=int)
SY = np.array([[0, -1j], [1j, 0]])


def rint_dist(x):
    return np.abs(x - np.rint(x))


def little_group(R, k, tr=None, lattice_vecs=None, atol=1e-8):
    """Indices of operations leaving k invariant modulo reciprocal-lattice vectors.

    ``lattice_vecs``: additional lattice translations (centrings) a reciprocal vector must pair
    integrally with.  Raises Ambiguous when a residual is too close to ``atol`` to call.
    """
    idx = []
    vecs = np.eye(3) if lattice_vecs is None else np.vstack([np.eye(3), lattice_vecs])
    for i in range(len(R)):
        s = -1 if (tr is not None and tr[i]) else 1
        d = rint_dist(vecs @ (s * R[i].T @ k - k)).max()
        if d < 0.3 * atol:
            idx.append(i)
        elif d < 30 * atol:
            raise Ambiguous
    return np.array(idx, dtype=int)


def _codes(R):
    return [r.tobytes() for r in np.ascontiguousarray(np.asarray(R, dtype=np.int64))]


def composition(R, t, tr=None, tol=1e-4):
    """table[i, j] = index of (R_i,t_i)(R_j,t_j) modulo lattice Z^3, and the lattice translation left over."""
    R = np.asarray(R, dtype=np.int64)
    n = len(R)
    s = np.zeros(n, dtype=np.int64) if tr is None else np.asarray(tr).astype(np.int64)
    flat = np.concatenate([R.reshape(n, 9), s[:, None]], axis=1)
    kinds, first, kind = np.unique(flat, axis=0, return_index=True, return_inverse=True)
    kind = kind.reshape(-1)
    m = len(kinds)
    members = [np.flatnonzero(kind == a) for a in range(m)]
    width = max(len(x) for x in members)
    padded = np.array([np.concatenate([x, np.full(width - len(x), x[0])]) for x in members])
    where = {row.tobytes(): a for a, row in enumerate(kinds)}
    Rk, sk = kinds[:, :9].reshape(m, 3, 3), kinds[:, 9]
    prod = np.einsum("iab,jbc->ijac", Rk, Rk).reshape(m, m, 9)
    kk = np.empty((m, m), dtype=int)
    for i in range(m):
        for j in range(m):
            a = where.get(np.append(prod[i, j], sk[i] ^ sk[j]).tobytes())
            if a is None:
                raise Ambiguous
            kk[i, j] = a
    kindtab = kk[np.ix_(kind, kind)]
    tt = np.einsum("iab,jb->ija", R, t) + np.asarray(t)[:, None, :]
    if width == 1:
        table = padded[kindtab][:, :, 0]
    else:
        cand = padded[kindtab]
        dist = rint_dist(tt[:, :, None, :] - np.asarray(t)[cand]).max(axis=3)
        best = dist.argmin(axis=2)
        if np.take_along_axis(dist, best[:, :, None], axis=2).max() > tol:
            raise Ambiguous
        table = np.take_along_axis(cand, best[:, :, None], axis=2)[:, :, 0]
    return table, tt - np.asarray(t)[table]


def point_table(R, tr=None):
    return composition(R, np.zeros((len(R), 3)), tr)[0]


def sign_characters(table):
    """All homomorphisms of a group (given by its table) to {0, 1}, the trivial one first."""
    n = len(table)
    e = next(i for i in range(n) if (table[i] == np.arange(n)).all())
    gens, closed = [], {e}
    for i in range(n):
        if i not in closed:
            gens.append(i)
            closed, new = set(closed) | {i}, True
            while new:
                new = {int(table[a, b]) for a in closed for b in closed} - closed
                closed |= new
    out = []
    for bits in range(2 ** len(gens)):
        x = np.full(n, -1)
        x[e] = 0
        todo, ok = [e], True
        while todo and ok:
            a = todo.pop()
            for q, g in enumerate(gens):
                v, b = x[a] ^ (bits >> q & 1), table[a, g]
                if x[b] < 0:
                    x[b] = v
                    todo.append(b)
                elif x[b] != v:
                    ok = False
        if ok and (x[table] == (x[:, None] ^ x[None, :])).all():
            out.append(x)
    return out


def check_shape(irrep, n, what="irrep"):
    require(isinstance(irrep, np.ndarray) and irrep.ndim == 3, f"{what} is not a 3-dimensional array")
    require(irrep.shape[0] == n and irrep.shape[1] == irrep.shape[2] and irrep.shape[1] >= 1, f"{what} has shape {irrep.shape} for {n} operations")
    require(bool(np.all(np.isfinite(irrep))), f"{what} contains non-finite values")


def check_law(G, table, mult, conj_left=None, tol=TOL, what="representation"):
    """G_i (G_j or conj G_j) == mult_ij G_table[i,j]."""
    n, d, _ = G.shape
    for i in range(n):
        right = np.conj(G) if (conj_left is not None and conj_left[i]) else G
        lhs = G[i] @ right
        rhs = mult[i][:, None, None] * G[table[i]]
        err = np.abs(lhs - rhs).max()
        if not err < tol * max(1, d):
            j = int(np.abs(lhs - rhs).reshape(n, -1).max(axis=1).argmax())
            raise Violation(f"{what}: multiplication law broken at operations ({i},{j}) by {err:.3g}")


def check_unitary(G, tol=TOL, what="representation"):
    d = G.shape[1]
    err = np.abs(G @ np.conj(np.swapaxes(G, 1, 2)) - np.eye(d)).max()
    require(err < tol * max(1, d), f"{what} is not unitary (deviation {err:.3g})")


def characters(irreps):
    return [np.einsum("kii->k", g) for g in irreps]


def check_complete_set(irreps, order, weight=None, total=None, tol=1e-5, what="irreps"):
    """Irreducible, pairwise inequivalent, and sum of squared dimensions equal to the group order.

    ``weight`` restricts/averages the characters (default: all operations).
    """
    ch = np.array(characters(irreps)) if irreps else np.zeros((0, order))
    gram = ch @ np.conj(ch).T / order
    for a in range(len(irreps)):
        require(abs(gram[a, a] - 1) < tol, f"{what}[{a}] (dim {irreps[a].shape[1]}) is not irreducible: <chi,chi>={gram[a, a].real:.6f}")
        for b in range(a):
            require(abs(gram[a, b]) < tol, f"{what}[{b}] and {what}[{a}] are not orthogonal: <chi,chi'>={abs(gram[a, b]):.6f}")
    s = sum(g.shape[1] ** 2 for g in irreps)
    want = order if total is None else total
    require(s == want, f"{what}: sum of squared dimensions is {s}, group order is {want} (dims {[g.shape[1] for g in irreps]})")


def small_rep_multiplier(extra, k, spin=None):
    m = np.exp(-2j * np.pi * (extra @ k))
    return m if spin is None else m * spin


def check_small_reps(irreps, R, t, k, spin=None, tol=TOL, comp=None, what="small rep"):
    table, extra = composition(R, t) if comp is None else comp
    mult = small_rep_multiplier(extra, k, spin)
    for a, g in enumerate(irreps):
        check_shape(g, len(R), f"{what}[{a}]")
        check_unitary(g, tol, f"{what}[{a}]")
        check_law(g, table, mult, tol=tol, what=f"{what}[{a}]")


def factor_system(R, t, k, tr=None):
    """mu_ij = exp(-2 pi i g_i . w_j), g_i = R_i^T k -+ k."""
    n = len(R)
    s = np.ones(n) if tr is None else 1 - 2 * np.asarray(tr).astype(int)
    g = np.einsum("iba,b->ia", R, k) - s[:, None] * k
    return np.exp(-2j * np.pi * (g @ np.asarray(t).T))


def random_gauge(n, seed):
    """Unit-modulus numbers, deterministic in the drawn seed."""
    import random

    r = random.Random(seed)
    return np.exp(2j * np.pi * np.array([r.random() for _ in range(n)]))


def su2_axis_angle(axis, theta):
    n = np.asarray(axis, dtype=float) / np.linalg.norm(axis)
    c, s = np.cos(theta / 2), np.sin(theta / 2)
    sx = np.array([[0, 1], [1, 0]], dtype=complex)
    sz = np.array([[1, 0], [0, -1]], dtype=complex)
    return c * np.eye(2) - 1j * s * (n[0] * sx + n[1] * SY + n[2] * sz)


def so3_of_su2(U):
    """Rotation matrix R with U (v.sigma) U^dagger = (R v).sigma."""
    sig = [np.array([[0, 1], [1, 0]], dtype=complex), SY, np.array([[1, 0], [0, -1]], dtype=complex)]
    R = np.empty((3, 3))
    for j in range(3):
        M = U @ sig[j] @ U.conj().T
        for i in range(3):
            R[i, j] = 0.5 * np.trace(sig[i] @ M).real
    return R


def cartesian(L, r):
    """Cartesian matrix of a fractional rotation for row-wise lattice L."""
    A = np.asarray(L).T
    return A @ r @ np.linalg.inv(A)


def check_spin_matrices(L, R, U, tr=None, tol=FINE):
    """U(S) in SU(2) covers the proper part of S; anti-unitary ones are U(S)(-i sigma_y)."""
    n = len(R)
    require(U.shape == (n, 2, 2), f"unitary rotations have shape {U.shape} for {n} operations")
    msy = np.array([[0, -1], [1, 0]], dtype=complex)  # -i sigma_y
    for i in range(n):
        u = U[i]
        if tr is not None and tr[i]:
            u = u @ np.linalg.inv(msy)
        require(np.abs(u @ u.conj().T - np.eye(2)).max() < tol, f"U[{i}] not unitary")
        require(abs(np.linalg.det(u) - 1) < tol, f"U[{i}] has determinant {np.linalg.det(u):.4f}")
        S = cartesian(L, R[i])
        S = S * np.sign(np.linalg.det(S))
        err = np.abs(so3_of_su2(u) - S).max()
        require(err < tol, f"U[{i}] does not cover the proper part of operation {i} (error {err:.3g})")
        # angle convention 0 <= theta <= pi: cos(theta/2) = Re tr U / 2 >= 0
        require(np.trace(u).real > -tol, f"U[{i}] has rotation angle beyond pi")


def spin_factor(U, table, tr=None):
    """z_ij with U_i U_j(*) = z_ij U_table[i,j] computed from the returned matrices."""
    n = len(U)
    z = np.empty((n, n), dtype=complex)
    for i in range(n):
        right = U.conj() if (tr is not None and tr[i]) else U
        prod = U[i] @ right
        z[i] = np.einsum("jab,jab->j", prod, U[table[i]].conj()) / 2
    return z


def cocycle_defect(omega, table, conj_left=None):
    """max |w(i,jk) w(j,k)^(*) - w(ij,k) w(i,j)| (conj of w(j,k) when i is anti-unitary)."""
    n = len(table)
    worst = 0.0
    for i in range(n):
        wjk = omega.conj() if (conj_left is not None and conj_left[i]) else omega
        lhs = omega[i][table] * wjk
        rhs = omega[table[i]] * omega[i][:, None]
        worst = max(worst, np.abs(lhs - rhs).max())
    return worst


def spin_matrices(L, R):
    """SU(2) cover of the proper parts, sign chosen arbitrarily but deterministically."""
    out = []
    for r in R:
        S = cartesian(L, r)
        S = S * np.sign(np.linalg.det(S))
        w, v = np.linalg.eig(S)
        axis = np.real(v[:, np.argmin(np.abs(w - 1))])
        axis = axis / np.linalg.norm(axis)
        c = np.clip((np.trace(S) - 1) / 2, -1, 1)
        theta = np.arccos(c)
        U = su2_axis_angle(axis, theta)
        if np.abs(so3_of_su2(U) - S).max() > 1e-5:
            U = su2_axis_angle(-axis, theta)
        out.append(U)
    return np.array(out)


def haar(d, seed):
    """Random unitary matrix, deterministic in the drawn seed."""
    rng = np.random.default_rng([seed, d])
    q, r = np.linalg.qr(rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d)))
    return q * (np.diag(r) / np.abs(np.diag(r)))


def check_real_complete_set(irreps, n, indicators=None, tol=1e-5):
    """Irreducible over the reals, pairwise inequivalent, complete; returns the Frobenius-Schur types.

    Works for any factor system of signs: tr(D(g)^2) carries the factor itself.
    """
    kinds = []
    total = 0.0
    ch = np.array([np.einsum("kii->k", g) for g in irreps])
    for a, g in enumerate(irreps):
        c = (ch[a] @ ch[a]) / n
        nu = np.einsum("kij,kji->", g, g) / n
        kind = {(1, 1): 1, (2, 0): 0, (4, -2): -1}.get((int(round(c)), int(round(nu))))
        require(kind is not None and abs(c - round(c)) < tol and abs(nu - round(nu)) < tol, f"real irrep[{a}] (dim {g.shape[1]}) is reducible over the reals: <chi,chi>={c:.4f}, sum tr(D^2)/|G|={nu:.4f}")
        if indicators is not None:
            require(int(indicators[a]) == kind, f"real irrep[{a}] has indicator {indicators[a]}, its type is {kind}")
        kinds.append(kind)
        total += g.shape[1] ** 2 / c
        for b in range(a):
            require(abs(ch[a] @ ch[b]) / n < tol, f"real irreps {b} and {a} share a component")
    require(abs(total - n) < 1e-3, f"real irreps: sum of d^2/<chi,chi> is {total:.3f}, group order is {n} (dims {[g.shape[1] for g in irreps]})")
    if indicators is not None:
        require(len(indicators) == len(irreps), "one indicator per irrep expected")
    return kinds


def rotation_matrix(n, theta):
    """Rodrigues."""
    n = np.asarray(n, dtype=float)
    K = np.array([[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]])
    return np.eye(3) + np.sin(theta) * K + (1 - np.cos(theta)) * (K @ K)


def check_coreps(coreps, table, extra, k, tr, omega, indicators=None, n_lattice=1, tol=TOL, what="corep"):
    """Unitary co-irreps: law with conjugation right of anti-linear operators, irreducible, inequivalent, complete.

    ``n_lattice``: number of pure lattice translations among the operations.
    Returns the types found (1, -1, 0), or None entries when there is no anti-unitary operation.
    """
    n = len(table)
    tr = np.asarray(tr).astype(bool)
    D = np.flatnonzero(~tr)
    nd = len(D)
    anti = np.flatnonzero(tr)
    mult = omega * np.exp(-2j * np.pi * (extra @ k))
    for a, g in enumerate(coreps):
        check_shape(g, n, f"{what}[{a}]")
        check_unitary(g, tol, f"{what}[{a}]")
        check_law(g, table, mult, conj_left=tr, tol=tol, what=f"{what}[{a}]")
    ch = np.array([np.einsum("kii->k", g[D]) for g in coreps])
    kinds, total = [], 0.0
    for a, g in enumerate(coreps):
        c = (ch[a] @ ch[a].conj()).real / nd
        if len(anti):
            # Dimmock: sum_u |chi(u)|^2 + sum_a tr(G(a) G(a)^*) = 2 |D| for irreducible coreps
            # (a lattice translation in a changes neither term)
            dim = (np.einsum("kij,kji->", g[anti], g[anti].conj())).real / nd
            require(abs(c + dim - 2) < 1e-4, f"{what}[{a}] (dim {g.shape[1]}) is reducible: Dimmock sum {c + dim:.4f}, not 2")
            kind = {1: 1, 4: -1, 2: 0}.get(int(round(c)))
            require(kind is not None and abs(c - round(c)) < 1e-4, f"{what}[{a}] restricted to the unitary subgroup has <chi,chi>={c:.4f}")
        else:
            kind = None
            require(abs(c - 1) < 1e-4, f"{what}[{a}] is reducible: <chi,chi>={c:.4f}")
        kinds.append(kind)
        total += g.shape[1] ** 2 / c
        for b in range(a):
            require(abs(ch[a] @ ch[b].conj()) / nd < 1e-4, f"{what}[{b}] and {what}[{a}] share a component")
    require(abs(total - nd / n_lattice) < 1e-3, f"{what}s: sum of d^2/<chi,chi> is {total:.3f}, the unitary subgroup has order {nd / n_lattice:g} (dims {[g.shape[1] for g in coreps]})")
    if indicators is not None and len(anti):
        require([int(i) for i in indicators] == kinds, f"indicators {list(indicators)} returned for {what}s of types {kinds}")
    return kinds
