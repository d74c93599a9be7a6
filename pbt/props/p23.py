"""P23: chains of generators for point groups."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen, oracle
from pbt.core import Campaign, require, sut
from pbt.props import common as cm

from spgrep.pointgroup import get_pointgroup_chain_generators

PROPERTY = "P23"
RULE = "non-trivial: the group has at least two operations"
ASSUMPTIONS = []


def st_skewed(hall):
    return st.fixed_dictionaries({"hall": st.just(hall), "uni": gen.st_unimodular(6), "order": gen.st_order()})


def run(c, ctx):
    R = cm.make_point_group(c)
    n = len(R)
    gens = sut(get_pointgroup_chain_generators, R)
    gens = [int(g) for g in gens]
    require(all(0 <= g < n for g in gens), f"generators {gens} are not indices of the given operations")
    table = oracle.point_table(R)
    e = next(i for i in range(n) if (R[i] == np.eye(3)).all())
    low = {e}
    for g in reversed(gens):
        require(g not in low, f"generator {g} adds nothing to the chain")
        require({int(table[g, s]) for s in low} == {int(table[s, g]) for s in low}, f"the subgroup below generator {g} is not normal")
        new, x, o = set(low), g, 1
        while x != e:
            new |= {int(table[x, s]) for s in low}
            x, o = int(table[x, g]), o + 1
        require(len(new) == o * len(low), f"generator {g} of order {o} extends a group of order {len(low)} to one of order {len(new)}")
        require(o in (2, 3) or len(low) == 1 and o == 4, f"generator {g} has order {o} over a subgroup of order {len(low)}")
        low = new
    require(len(low) == n, f"the chain reaches {len(low)} of {n} operations")
    ctx.label(gen.point_group_symbol(c["hall"]))
    ctx.trivial = n == 1


CAMPAIGNS = [
    Campaign("point groups", cm.st_point_group, run, cm.hall_strata, 6, 100),
    Campaign("far from reduced bases", st_skewed, run, cm.pg_settings_strata, 8, 200),
]
REGRESSIONS = [
    ("far from reduced bases", {"hall": 462, "uni": [[0, 1, 1], [0, 2, -1], [1, 2, 1], [2, 0, 1], [0, 1, 1]], "order": None}),
    ("far from reduced bases", {"hall": 489, "uni": [[0, 1, 1], [1, 2, 1], [2, 0, 1]], "order": 3}),
]
