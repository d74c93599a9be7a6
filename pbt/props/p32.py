"""P32: Bloch functions and lattice vibrations of a crystal decompose into the irreps returned for it."""

import itertools

import numpy as np
from hypothesis import strategies as st

from pbt import gen, oracle
from pbt.core import Ambiguous, Campaign, require, sut
from pbt.props import common as cm
from pbt.props.p17 import call

from spgrep import get_spacegroup_irreps, get_spacegroup_spinor_irreps

PROPERTY = "P32"
RULE = "non-trivial: the little group has at least two operations and the functions span at least two dimensions"
ASSUMPTIONS = [
    "the symmetry operations themselves are spglib's",
    "for multiplicity above three the projection may instead warn that it found another number of copies",
]


def strategy(halls):
    return st.sampled_from(halls).flatmap(
        lambda h: st.fixed_dictionaries(
            {
                "crystal": gen.st_crystal(h),
                "k": gen.st_kpoint(eps=False),
                "functions": st.sampled_from(["displacements", "displacements", "orbitals", "plane waves", "spinor plane waves", "spinor orbitals"]),
                "G": st.integers(0, 124),
                "method": cm.METHODS,
                "seed": st.integers(0, 9999),
                "project": st.booleans(),
            }
        )
    )


def site_action(R, t, pos, num):
    """perm[i, a] = atom that operation i moves atom a to, and the lattice vector picked up."""
    to = np.einsum("iab,nb->ina", R, pos) + t[:, None, :]
    d = to[:, :, None, :] - pos[None, None, :, :]
    dist = oracle.rint_dist(d).max(axis=3)
    dist = np.where(num[None, :, None] == num[None, None, :], dist, 1.0)
    perm = dist.argmin(axis=2)
    if np.take_along_axis(dist, perm[:, :, None], axis=2).max() > 1e-3:
        raise Ambiguous
    n, a = perm.shape
    shift = np.rint(d[np.arange(n)[:, None], np.arange(a)[None, :], perm])
    return perm, shift


def sites(R, t, pos, num, k):
    """Bloch sums of one orbital per atom: atom a of cell 0 goes to atom a' of cell T, which is exp(-2 pi i k.T) times a'."""
    perm, shift = site_action(R, t, pos, num)
    n, a = perm.shape
    rep = np.zeros((n, a, a), dtype=complex)
    ph = np.exp(-2j * np.pi * (shift @ k))
    for i in range(n):
        rep[i, perm[i], np.arange(a)] = ph[i]
    return rep


def waves(R, t, k, G):
    """exp(2 pi i q.r) -> exp(-2 pi i q'.t) exp(2 pi i q'.r), q' = R^-T q, on the shell of q = k + G."""
    Rit = np.rint(np.linalg.inv(R)).transpose(0, 2, 1)
    shell = []
    todo = [k + G]
    while todo:
        q = todo.pop()
        if any(np.abs(q - p).max() < 1e-6 for p in shell):
            continue
        shell.append(q)
        todo += list(Rit @ q)
    S = np.array(shell)
    n, a = len(R), len(S)
    if a > 48:
        return None
    rep = np.zeros((n, a, a), dtype=complex)
    for i in range(n):
        Q = S @ Rit[i].T
        j = np.abs(Q[:, None, :] - S[None, :, :]).max(axis=2).argmin(axis=1)
        rep[i, j, np.arange(a)] = np.exp(-2j * np.pi * (Q @ t[i]))
    return rep


def reciprocal_vector(cents, which):
    """A vector of the reciprocal lattice of the crystal, in the basis dual to the cell."""
    box = sorted(itertools.product(range(-2, 3), repeat=3), key=lambda g: (sum(x * x for x in g), g))
    ok = [g for g in box if oracle.rint_dist(cents @ np.array(g)).max() < 1e-6]
    return np.array(ok[which % len(ok)])


def run(c, ctx):
    cr = gen.make_crystal(c["crystal"], max_atoms=24)
    if cr is None:
        ctx.trivial = True
        ctx.label("atoms overlap, skipped")
        return
    L, pos, num = cr
    import spglib

    ds = spglib.get_symmetry_dataset((L, pos, num), symprec=1e-5)
    if ds is None or len(ds["rotations"]) > 192:
        ctx.trivial = True
        ctx.label("no dataset or more than 192 operations, skipped")
        return
    k = gen.make_kpoint(c["k"], ds["rotations"])
    # judged first: k close to a tolerance has no definite little group
    cents = cm.centring_vectors(ds["rotations"], ds["translations"])
    oracle.little_group(ds["rotations"], k, lattice_vecs=cents)
    kind = c["functions"]
    spin = kind.startswith("spinor")
    if spin:
        irreps, z, U, R, t, m = sut(get_spacegroup_spinor_irreps, L, pos, num, kpoint=k, method=c["method"])
    else:
        irreps, R, t, m = sut(get_spacegroup_irreps, L, pos, num, k, method=c["method"])
    R, t = R[m], t[m]
    if kind.endswith("waves"):
        rep = waves(R, t, k, reciprocal_vector(cents, c["G"]))
    else:
        rep = sites(R, t, pos, num, k)
        if kind == "displacements":
            rep = np.einsum("kij,kab->kiajb", rep, np.array([oracle.cartesian(L, r) for r in R])).reshape(len(R), 3 * len(pos), 3 * len(pos))
    if spin and rep is not None:
        rep = np.einsum("kij,kab->kiajb", rep, U).reshape(len(R), 2 * rep.shape[1], 2 * rep.shape[1])
    if rep is None or rep.shape[1] > 72 or len(m) * rep.shape[1] ** 2 > 400000:
        ctx.trivial = True
        ctx.label("too many functions, skipped")
        return
    n, dim, _ = rep.shape
    chi = np.einsum("kii->k", rep)
    mult = []
    for a, g in enumerate(irreps):
        oracle.check_shape(g, n, f"irrep[{a}]")
        x = np.einsum("kii,k->", g.conj(), chi) / n
        require(abs(x - round(x.real)) < 1e-3, f"{kind}: irrep {a} is contained {x:.4f} times")
        mult.append(int(round(x.real)))
    # functions that the pure translations multiply by exp(-2 pi i k.t); the others belong to other k-points of this cell
    E = [i for i in range(n) if (R[i] == gen.I3).all()]
    if spin:
        bloch = np.mean([np.exp(2j * np.pi * (k @ t[i])) * np.trace(rep[i]) / (np.trace(U[i]) / 2) for i in E])
    else:
        bloch = np.mean([np.exp(2j * np.pi * (k @ t[i])) * np.trace(rep[i]) for i in E])
    require(len(E) == len(cents), "the little group lacks a pure translation")
    total = sum(x * g.shape[1] for x, g in zip(mult, irreps))
    require(abs(bloch - total) < 1e-3, f"{kind}: the irreps account for {total} of {bloch.real:.3f} functions")
    # an arbitrary operator with the symmetry of the crystal
    rng = np.random.default_rng(c["seed"])
    H = rng.normal(size=(dim, dim)) + 1j * rng.normal(size=(dim, dim))
    H = H + H.conj().T
    H = np.einsum("kij,jl,kml->im", rep, H, rep.conj(), optimize=True) / n
    H /= max(1.0, np.abs(H).max())
    if not c["project"] or dim > 48:
        ctx.label("counted only")
    else:
        project(rep, irreps, mult, H, kind, ctx)
    ctx.label(kind, "primitive cell" if len(cents) == 1 else "cell with centring or superlattice translations")
    if max(mult, default=0) > 1:
        ctx.label("multiplicity above one")
    if any(x and g.shape[1] > 1 for x, g in zip(mult, irreps)):
        ctx.label("dimension above one")
    ctx.trivial = n == 1 or dim == 1


def project(rep, irreps, mult, H, kind, ctx):
    spaces = []
    for a, (g, x) in enumerate(zip(irreps, mult)):
        basis, warned = call(rep, g)
        d = g.shape[1]
        if len(basis) != x and x > 3:
            require(any("Inconsistent number" in w for w in warned), f"{kind}: irrep {a}: {len(basis)} copies found of {x}, without a warning")
            ctx.label("multiplicity above three, warned")
            continue
        require(len(basis) == x, f"{kind}: irrep {a} (dim {d}): {len(basis)} copies found, it is contained {x} times")
        if not x:
            continue
        B = np.array([np.asarray(b) for b in basis])
        require(B.shape == (x, d, rep.shape[1]), f"{kind}: irrep {a}: bases have shape {B.shape}")
        err = np.abs(np.einsum("gmn,xin->gxim", rep, B) - np.einsum("gji,xjm->gxim", g, B)).max()
        require(err < 1e-4, f"{kind}: irrep {a}: a basis does not transform as the irrep ({err:.3g})")
        err = np.abs(np.einsum("xim,xjm->xij", B.conj(), B) - np.eye(d)).max()
        require(err < 1e-4, f"{kind}: irrep {a}: a basis is not orthonormal ({err:.3g})")
        spaces.append((a, B))
    for (a, A), (b, B) in itertools.combinations_with_replacement(spaces, 2):
        M = np.einsum("xim,mn,yjn->xyij", A.conj(), H, B, optimize=True)
        if a == b:
            M = M - np.einsum("xyii->xy", M)[:, :, None, None] / A.shape[1] * np.eye(A.shape[1])
        err = np.abs(M).max()
        require(err < 1e-4, f"{kind}: a symmetric operator has a forbidden element between irreps {a} and {b} ({err:.3g})")
    ctx.label("projected")


CAMPAIGNS = [Campaign("crystals", strategy, run, cm.hall_shards(96), 20, 20)]
REGRESSIONS = []
