"""Abstract finite groups given by permutations, with split chains of cyclic extensions."""

from __future__ import annotations

import random
from functools import lru_cache

import numpy as np


def cyc(n, *cycles):
    p = list(range(n))
    for c in cycles:
        for a, b in zip(c, c[1:] + c[:1]):
            p[a] = b
    return tuple(p)


def mul(a, b):
    return tuple(a[i] for i in b)


# name -> (degree, generators from the top of the chain down to the last one).
# Going up from the trivial group, every generator normalises the group below it, meets it only in the
# identity, and has prime order (or any order, when it comes first).
LIBRARY = {
    "C1": (1, []),
    "C2": (2, [cyc(2, [0, 1])]),
    "C3": (3, [cyc(3, [0, 1, 2])]),
    "C4": (4, [cyc(4, [0, 1, 2, 3])]),
    "C5": (5, [cyc(5, [0, 1, 2, 3, 4])]),
    "C7": (7, [cyc(7, list(range(7)))]),
    "C8": (8, [cyc(8, list(range(8)))]),
    "C9": (9, [cyc(9, list(range(9)))]),
    "C6": (5, [cyc(5, [0, 1]), cyc(5, [2, 3, 4])]),
    "C2xC2": (4, [cyc(4, [0, 1]), cyc(4, [2, 3])]),
    "C2^3": (6, [cyc(6, [0, 1]), cyc(6, [2, 3]), cyc(6, [4, 5])]),
    "C3xC3": (6, [cyc(6, [0, 1, 2]), cyc(6, [3, 4, 5])]),
    "C5xC5": (10, [cyc(10, [0, 1, 2, 3, 4]), cyc(10, [5, 6, 7, 8, 9])]),
    "C4xC2": (6, [cyc(6, [4, 5]), cyc(6, [0, 1, 2, 3])]),
    "S3": (3, [cyc(3, [0, 1]), cyc(3, [0, 1, 2])]),
    "D4": (4, [cyc(4, [1, 3]), cyc(4, [0, 1, 2, 3])]),
    "D5": (5, [cyc(5, [1, 4], [2, 3]), cyc(5, [0, 1, 2, 3, 4])]),
    "D7": (7, [cyc(7, [1, 6], [2, 5], [3, 4]), cyc(7, list(range(7)))]),
    "D8": (8, [cyc(8, [1, 7], [2, 6], [3, 5]), cyc(8, list(range(8)))]),
    "D6": (5, [cyc(5, [0, 1]), cyc(5, [2, 3]), cyc(5, [2, 3, 4])]),
    "F21": (7, [cyc(7, [1, 2, 4], [3, 6, 5]), cyc(7, list(range(7)))]),
    "F55": (11, [cyc(11, [1, 3, 9, 5, 4], [2, 6, 7, 10, 8]), cyc(11, list(range(11)))]),
    "A4": (4, [cyc(4, [0, 1, 2]), cyc(4, [0, 1], [2, 3]), cyc(4, [0, 2], [1, 3])]),
    "S4": (4, [cyc(4, [0, 1]), cyc(4, [0, 1, 2]), cyc(4, [0, 1], [2, 3]), cyc(4, [0, 2], [1, 3])]),
    "A4xC2": (6, [cyc(6, [4, 5]), cyc(6, [0, 1, 2]), cyc(6, [0, 1], [2, 3]), cyc(6, [0, 2], [1, 3])]),
    "S3xS3": (6, [cyc(6, [0, 1]), cyc(6, [3, 4]), cyc(6, [0, 1, 2]), cyc(6, [3, 4, 5])]),
    "S3xC3": (6, [cyc(6, [0, 1]), cyc(6, [3, 4, 5]), cyc(6, [0, 1, 2])]),
    "He3": (9, None),
    "D4xC2": (6, [cyc(6, [4, 5]), cyc(6, [1, 3]), cyc(6, [0, 1, 2, 3])]),
    "D4xC3": (7, [cyc(7, [4, 5, 6]), cyc(7, [1, 3]), cyc(7, [0, 1, 2, 3])]),
    "C3^2:C2": (6, [cyc(6, [0, 1], [3, 4]), cyc(6, [0, 1, 2]), cyc(6, [3, 4, 5])]),
    "S4xC2": (6, [cyc(6, [4, 5]), cyc(6, [0, 1]), cyc(6, [0, 1, 2]), cyc(6, [0, 1], [2, 3]), cyc(6, [0, 2], [1, 3])]),
    "wreath C2wrC3": (6, [cyc(6, [0, 2, 4], [1, 3, 5]), cyc(6, [0, 1]), cyc(6, [2, 3]), cyc(6, [4, 5])]),
    "wreath C3wrC2": (6, [cyc(6, [0, 3], [1, 4], [2, 5]), cyc(6, [0, 1, 2]), cyc(6, [3, 4, 5])]),
    "C4xC3": (7, [cyc(7, [4, 5, 6]), cyc(7, [0, 1, 2, 3])]),
}
# Heisenberg group modulo 3 acting on pairs: (x, y) -> shifts and shear
LIBRARY["He3"] = (
    9,
    [
        tuple(((i // 3) + (i % 3)) % 3 * 3 + i % 3 for i in range(9)),  # (x, y) -> (x + y, y)
        tuple((i // 3) * 3 + (i % 3 + 1) % 3 for i in range(9)),  # y -> y + 1
        tuple(((i // 3) + 1) % 3 * 3 + i % 3 for i in range(9)),  # x -> x + 1
    ],
)
NAMES = sorted(LIBRARY)
# product of two cyclic groups of equal order at given generator positions: carries a non-trivial cocycle
BICYCLIC = {"C2xC2": (0, 1, 2), "C2^3": (0, 2, 2), "C3xC3": (0, 1, 3), "C5xC5": (0, 1, 5), "D4xC2": None, "C4xC2": (0, 1, 2)}


def order(p):
    e = tuple(range(len(p)))
    q, n = p, 1
    while q != e:
        q, n = mul(q, p), n + 1
    return n


@lru_cache(maxsize=None)
def build(name):
    """elements, coordinates (exponents in the chain), chain of generators; checks the chain itself."""
    deg, gens = LIBRARY[name]
    elems = [tuple(range(deg))]
    coords = [()]
    for g in reversed(gens):
        p = order(g)
        low = set(elems)
        ginv = g
        while order(mul(ginv, g)) != 1:
            ginv = mul(ginv, g)
        assert all(mul(mul(g, h), ginv) in low for h in elems), (name, "not normal")
        new, nc = [], []
        gm = tuple(range(deg))
        for m in range(p):
            for h, c in zip(elems, coords):
                new.append(mul(gm, h))
                nc.append((m,) + c)
            gm = mul(g, gm)
        assert len(set(new)) == len(new), (name, "not split")
        elems, coords = new, nc
    return elems, coords, gens


def make(name, relabel, pick):
    """Table, chain generators (indices, top first), coordinates, after relabelling and re-picking generators."""
    elems, coords, gens = build(name)
    n = len(elems)
    idx = list(range(n))
    if relabel is not None:
        random.Random(relabel).shuffle(idx)
    elems = [elems[i] for i in idx]
    coords = [coords[i] for i in idx]
    where = {e: i for i, e in enumerate(elems)}
    table = np.array([[where[mul(a, b)] for b in elems] for a in elems])
    chain = [where[g] for g in gens]
    if pick is not None:
        # another generator of the same extension: any element of the coset g^m H with the same order
        rnd = random.Random(pick)
        e = where[tuple(range(len(elems[0])))]
        orders = []
        for a in range(n):
            b, o = a, 1
            while b != e:
                b, o = int(table[b, a]), o + 1
            orders.append(o)
        out = []
        for lvl, g in enumerate(chain):
            depth = len(chain) - 1 - lvl
            p = orders[g]
            same = [
                a
                for a in range(n)
                if all(x == 0 for x in coords[a][:lvl]) and np.gcd(coords[a][lvl], p) == 1 and coords[a][lvl] != 0 and orders[a] == p
            ]
            out.append(rnd.choice(same) if depth >= 0 and same else g)
        chain = out
    return table, chain, coords
