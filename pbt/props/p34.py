"""P34: products of irreps decompose into the irreps at the sum of the k-points (selection rules)."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen, oracle
from pbt.core import Ambiguous, Campaign, require, sut
from pbt.props import common as cm
from pbt.props.p33 import decompose, st_symmetric_k

import spgrep
from spgrep.representation import get_direct_product

PROPERTY = "P34"
RULE = "non-trivial: at least two operations leave both k-points invariant"
ASSUMPTIONS = ["multiplicities are computed from characters, good to 1e-6"]
PRODUCTS = ["spinor x linear", "spinor x spinor", "linear x linear", "spin x linear", "linear x conjugate"]


def strategy(hall):
    return st.fixed_dictionaries(
        {
            "ops": gen.st_primitive(hall),
            "k1": st_symmetric_k(),
            "k2": st_symmetric_k(),
            "product": st.sampled_from(PRODUCTS),
            "lattice": gen.st_lattice(),
            "method": cm.METHODS,
            "real": st.booleans(),
        }
    )


def product(x, y, real):
    """The product as the library gives it, compared with the Kronecker product of the matrices.

    With ``real``, factors without imaginary part are handed over as real arrays, and the matrices
    of a vector representation (real, or integer) are tried on either side too.
    """

    def kron(x, y):
        before = x.copy(), y.copy()
        p = sut(get_direct_product, x, y)
        want = np.array([np.kron(a, b) for a, b in zip(*before)])
        require(np.shape(p) == want.shape, "the direct product has the wrong shape")
        require(np.abs(p - want).max() < 1e-9, "the direct product is not the Kronecker product")
        require(np.array_equal(x, before[0]) and np.array_equal(y, before[1]), "the direct product changed a factor")
        return p

    if real:
        x, y = [z.real.copy() if not np.any(np.imag(z)) else z for z in (x, y)]
    return kron(x, y)


def vector_products(R, reps):
    """Vector representation (real or integer matrices) times a representation, on either side."""
    for V in (R, R.astype(float)):
        for g in reps:
            for x, y in ((V, g), (g, V)):
                product(x, y, False)


def exact_little(R, ks):
    H = set(range(len(R)))
    for k in ks:
        H &= set(oracle.little_group(R, k))
    return sorted(H)


def run(c, ctx):
    R, t, _ = gen.make_primitive(c["ops"])
    k1, k2 = gen.make_kpoint(c["k1"], R), gen.make_kpoint(c["k2"], R)
    name = c["product"]
    if name == "spin x linear":
        k2 = np.zeros(3)
    if name == "linear x conjugate":
        k2 = k1
    k3 = k1 - k2 if name == "linear x conjugate" else k1 + k2
    H = exact_little(R, [k1, k2])
    if len(exact_little(R[H], [k3])) != len(H):
        raise Ambiguous
    R, t = R[H], t[H]
    L = gen.make_lattice(c["lattice"], R)

    def linear(k):
        irreps, m = sut(spgrep.get_spacegroup_irreps_from_primitive_symmetry, R, t, k, method=c["method"])
        cm.check_mapping(m, range(len(R)))
        return [g[np.argsort(m)] for g in irreps]

    def spinor(k):
        irreps, _, U, m = sut(spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry, L, R, t, kpoint=k, method=c["method"])
        cm.check_mapping(m, range(len(R)))
        return [g[np.argsort(m)] for g in irreps], U[np.argsort(m)]

    if name == "spin x linear":
        target, U = spinor(k1)
        a, b = [U], linear(k1)
    elif name == "spinor x linear":
        a, b = spinor(k1)[0], linear(k2)
        target = spinor(k3)[0]
    elif name == "spinor x spinor":
        a, b = spinor(k1)[0], spinor(k2)[0]
        target = linear(k3)
    elif name == "linear x linear":
        a, b = linear(k1), linear(k2)
        target = linear(k3)
    else:
        a = linear(k1)
        b = [g.conj() for g in a]
        target = linear(k3)
    products = []
    for x in a:
        for y in b:
            p = product(x, y, c["real"])
            oracle.check_shape(p, len(R), "product")
            products.append(np.einsum("kii->k", p))
    decompose(products, oracle.characters(target), name)
    if name == "linear x conjugate":
        # the trivial representation occurs in x times conjugate of y exactly for x = y
        n = len(a)
        triv = np.array([p.mean() for p in products]).reshape(n, n)
        require(np.abs(triv - np.eye(n)).max() < 1e-6, "the trivial representation is not contained exactly once in irrep times its own conjugate, or in another product")
    if c["real"]:
        vector_products(R, [a[0], b[-1]])
        ctx.label("real factors")
    ctx.label(name)
    if max(g.shape[1] for g in [*a, *b]) > 1:
        ctx.label("dimension above one")
    if np.abs(oracle.factor_system(R, t, k3) - 1).max() > 1e-6:
        ctx.label("non-trivial factor system")
    ctx.trivial = len(R) == 1


# ---- point groups ----------------------------------------------------------------------------


def s_point(hall):
    return st.fixed_dictionaries({"g": cm.st_point_group(hall), "product": st.sampled_from(PRODUCTS[:4]), "lattice": gen.st_lattice(), "method": cm.METHODS, "real": st.booleans()})


def run_point(c, ctx):
    R = cm.make_point_group(c["g"])
    L = gen.make_lattice(c["lattice"], R)
    lin = sut(spgrep.get_crystallographic_pointgroup_irreps_from_symmetry, R, method=c["method"])
    spin, _, U = sut(spgrep.get_crystallographic_pointgroup_spinor_irreps_from_symmetry, L, R, method=c["method"])
    name = c["product"]
    a = {"spinor": spin, "spin": [U], "linear": lin}[name.split(" x ")[0]]
    b = {"spinor": spin, "linear": lin}[name.split(" x ")[1]]
    target = lin if name in ("spinor x spinor", "linear x linear") else spin
    products = [np.einsum("kii->k", product(x, y, c["real"])) for x in a for y in b]
    decompose(products, oracle.characters(target), name)
    if c["real"]:
        vector_products(R, [a[0], b[-1]])
        ctx.label("real factors")
    ctx.label(name)
    ctx.trivial = len(R) == 1


CAMPAIGNS = [
    Campaign("space groups", strategy, run, cm.hall_strata, 5, 80),
    Campaign("point groups", s_point, run_point, cm.pg_settings_strata, 6, 60),
]
REGRESSIONS = []
