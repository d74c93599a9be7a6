"""P22: multiplication tables, inverses, orders and the group test."""

import random

import numpy as np
from hypothesis import strategies as st

from pbt import gen, groups, oracle
from pbt.core import Campaign, require, sut
from pbt.props import common as cm
from pbt.props.p14 import make_magnetic_point_group

from spgrep.group import get_cayley_table, get_identity_index, get_inverse_index, get_order, is_matrix_group

PROPERTY = "P22"
RULE = "non-trivial: at least two elements"
ASSUMPTIONS = ["sets of matrices given to is_matrix_group are sets of 3x3 integer matrices, invertible or not"]


def judge_table(table, ctx):
    n = len(table)
    e = sut(get_identity_index, table)
    require((table[e] == np.arange(n)).all() and (table[:, e] == np.arange(n)).all(), f"element {e} is reported as the identity and is not")
    for i in range(n):
        inv = sut(get_inverse_index, table, i)
        require(table[i, inv] == e and table[inv, i] == e, f"element {inv} is reported as the inverse of {i} and is not")
        o, x = 1, i
        while x != e:
            x, o = table[x, i], o + 1
        got = sut(get_order, table, i)
        require(got == o, f"order of element {i} is {o}, reported {got}")
    ctx.trivial = n == 1


def run_point(c, ctx):
    R = cm.make_point_group(c)
    table = sut(get_cayley_table, R)
    require(np.array_equal(table, oracle.point_table(R)), "multiplication table differs from the matrix products")
    judge_table(table, ctx)
    require(bool(sut(is_matrix_group, R)), "a point group is not recognised as a group")


def s_mag(unis):
    return st.sampled_from(unis).flatmap(
        lambda u: st.fixed_dictionaries({"uni_number": st.just(u), "uni": gen.st_unimodular(2), "order": gen.st_order(), "gray": st.booleans(), "bool": st.booleans()})
    )


def run_mag(c, ctx):
    R, tr = make_magnetic_point_group(c)
    table = sut(get_cayley_table, R, tr.astype(bool) if c["bool"] else tr)
    require(np.array_equal(table, oracle.point_table(R, tr)), "multiplication table with time reversal differs from the products")
    judge_table(table, ctx)
    if tr.any():
        ctx.label("with time reversal")


def s_abstract(name):
    return st.fixed_dictionaries({"name": st.just(name), "relabel": st.one_of(st.none(), st.integers(0, 9999))})


def run_abstract(c, ctx):
    table, _, _ = groups.make(c["name"], c["relabel"], None)
    judge_table(table, ctx)


def s_subset(hall):
    return st.fixed_dictionaries({"g": cm.st_point_group(hall), "how": st.sampled_from(["drop", "repeat", "swap", "subset", "negate", "foreign", "plane", "annihilate", "zero", "project"]), "seed": st.integers(0, 9999)})


def run_subset(c, ctx):
    """Closed under multiplication or not: the verdict must follow."""
    R = [r for r in cm.make_point_group(c["g"])]
    rnd = random.Random(c["seed"])
    singular = False
    i = rnd.randrange(len(R))
    if c["how"] == "drop":
        if len(R) == 1:
            ctx.trivial = True
            return
        R.pop(i)
    elif c["how"] == "repeat":
        R.insert(rnd.randrange(len(R) + 1), R[i].copy())
    elif c["how"] == "swap":
        R[i] = R[rnd.randrange(len(R))].copy()
    elif c["how"] == "subset":
        R = rnd.sample(R, rnd.randint(1, len(R)))
    elif c["how"] == "negate":
        R[i] = -R[i]
    elif c["how"] == "foreign":
        R[i] = R[i] @ np.array([[1, 1, 0], [0, 1, 0], [0, 0, 1]])
    else:
        # closed sets with singular members: a monoid that holds an identity, or a projected group
        P = np.diag(rnd.choice([[1, 1, 0], [0, 0, 1], [1, 0, 0]]))
        if c["how"] == "project":
            # projections onto one subspace along several directions: a @ b == b
            Q = [np.array([[1, x, y], [0, 0, 0], [0, 0, 0]]) for x, y in rnd.sample([(0, 0), (1, 0), (-1, 0), (0, 1), (1, 1), (2, 0)], rnd.randint(1, 4))]
            R = [s * q for q in Q for s in rnd.choice([[1], [1, -1]])]
            if rnd.random() < 0.5:
                R = [r.T.copy() for r in R]
        elif c["how"] == "zero":
            R = R + [np.zeros((3, 3), dtype=R[0].dtype)]
        else:
            keep = [r for r in R if (r @ P == P @ r).all()]
            if c["how"] == "plane":
                R = keep + list({(r @ P).tobytes(): r @ P for r in keep}.values())
            else:
                R = list({(r @ P).tobytes(): r @ P for r in keep}.values())
        R = list({r.tobytes(): r for r in R}.values())
        rnd.shuffle(R)
        singular = True
    codes = [r.tobytes() for r in R]
    closed = all((a @ b).tobytes() in set(codes) for a in R for b in R)
    want = closed and len(set(codes)) == len(codes)
    if want and singular:
        # closed: a group if and only if every row and every column of the table is a permutation
        pos = {x: a for a, x in enumerate(codes)}
        T = [[pos[(a @ b).tobytes()] for b in R] for a in R]
        want = all(len(set(x)) == len(R) for x in [*T, *zip(*T)])
        ctx.label("singular members")
    got = sut(is_matrix_group, np.array(R))
    require(bool(got) == want, f"is_matrix_group returned {got} for a set that {'is' if want else 'is not'} a group ({c['how']})")
    ctx.label("is a group" if want else "is not a group")
    ctx.trivial = len(R) == 1


CAMPAIGNS = [
    Campaign("point groups", cm.st_point_group, run_point, cm.pg_settings_strata, 6, 100),
    Campaign("magnetic point groups", s_mag, run_mag, cm.uni_shards(48), 16, 20),
    Campaign("abstract groups", s_abstract, run_abstract, cm.const(*groups.NAMES), 3, 40),
    Campaign("sets of matrices", s_subset, run_subset, cm.pg_settings_strata, 12, 200),
]
REGRESSIONS = []
