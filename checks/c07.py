"""Combinatorial helpers enumerate every object exactly once."""
import itertools
from collections import Counter
from math import comb
import numpy as np
from vlib.runner import Job

LEVEL = "exploration"
RULE = ("every helper on element lists of every length up to a bound (distinct, repeated, negative, unsorted, empty), outputs compared as exact "
        "multisets and orders with an independent enumeration; binomials for every (n,k) of a square around the triangle; non-trivial = distinct (helper, input)")
ASSUMPTIONS = ["sums and binomials are judged where the exact result fits a 32-bit int", "the order of partitions with equally many blocks is left open"]
MIN_DISTINCT = 300
FACTOR = 1      # the case number sets the size of some inputs


def jobs(tier):
    q = tier == "quick"
    return [Job("partitions", n=90 if q else 400), Job("two_part", n=160 if q else 600), Job("permutations", n=9 if q else 10, chunks=3),
            Job("combinations", n=150 if q else 1000), Job("product", n=200 if q else 2000, vh=True), Job("indices", n=80 if q else 120),
            Job("binomial", n=31 if q else 35, chunks=8, timeout=600), Job("sums", n=400 if q else 4000),
            Job("partitions", flavour="asan", n=40, chunks=2), Job("two_part", flavour="asan", n=60, chunks=2),
            Job("product", flavour="asan", n=60, chunks=2, vh=True), Job("combinations", flavour="asan", n=40, chunks=2),
            Job("sums", flavour="asan", n=60, chunks=2), Job("permutations", flavour="asan", n=7, chunks=1)]


def elements(rng, n):
    k = int(rng.integers(5))
    if k == 0:
        return list(range(n))
    if k == 1:
        return [int(x) for x in rng.permutation(n)]
    if k == 2:
        return [int(x) for x in rng.integers(0, max(1, n // 2 + 1), n)]
    if k == 3:
        return [int(x) for x in rng.integers(-2**31, 2**31, n)]
    return [int(rng.integers(-3, 4))] * n


def set_partitions(n):
    """all set partitions of range(n) as lists of blocks of positions"""
    def rec(i, blocks):
        if i == n:
            yield [list(b) for b in blocks]
            return
        for b in blocks:
            b.append(i)
            yield from rec(i + 1, blocks)
            b.pop()
        blocks.append([i])
        yield from rec(i + 1, blocks)
        blocks.pop()
    yield from rec(0, [])


def norm(p):
    return tuple(sorted(tuple(b) for b in p))


def partitions(ctx, i):
    import symmetrix as S
    n = i % (9 if i < 9 * 3 else 8)
    v = elements(ctx.rng, n)
    ctx.desc = dict(v=v)
    got = ctx.call(S._partitions, v, what="_partitions")
    want = [] if n == 0 else [[[v[q] for q in b] for b in p] for p in set_partitions(n)]
    ctx.true(Counter(map(norm, got)) == Counter(map(norm, want)), "partitions", f"partitions of {v} wrong: {len(got)} vs {len(want)}")
    sizes = [len(p) for p in got]
    ctx.true(sizes == sorted(sizes), "partition-order", "partitions not listed by number of blocks")
    ctx.event("partitions checked", len(got))
    ctx.seen("partitions", tuple(v))
    ctx.sample(dict(input=v, partitions=len(got)))


def two_part(ctx, i):
    import symmetrix as S
    n = i % 13
    v = elements(ctx.rng, n)
    ctx.desc = dict(v=v)
    got = ctx.call(S._two_part_partitions, v, what="_two_part_partitions")
    want = []
    for mask in range(2 ** max(n - 1, 0) - 1 if n > 0 else 0):
        a = [v[0]] + [v[q] for q in range(1, n) if mask >> (q - 1) & 1]
        b = [v[q] for q in range(1, n) if not mask >> (q - 1) & 1]
        want.append([a, b])
    ctx.true(Counter(map(norm, got)) == Counter(map(norm, want)), "two-part-partitions", f"two-part partitions of {v} wrong")
    ctx.event("two-block partitions checked", len(got))
    ctx.seen("two", tuple(v))


def permutations(ctx, i):
    import symmetrix as S
    got = ctx.call(S._permutations, i, what="_permutations")
    want = [list(p) for p in itertools.permutations(range(i))]
    ctx.true([list(p) for p in got] == want, "permutations", f"permutations of {i}")
    ctx.event("permutations checked", len(want))
    ctx.seen("perm", i)


def combinations(ctx, i):
    import symmetrix as S
    v = elements(ctx.rng, i % 60 if i % 25 else int(ctx.rng.choice([128, 129, 255, 257, 300])))
    ctx.desc = dict(v=v)
    got = ctx.call(S._combinations, v, 2, what="_combinations")
    ctx.true([list(p) for p in got] == [list(p) for p in itertools.combinations(v, 2)], "combinations", f"pairs of {v}")
    k = int(ctx.rng.choice([-1, 0, 1, 3, 4, 7]))
    ctx.expect_raise(ValueError, S._combinations, v, k, what="combinations with k!=2", key="combinations-k")
    ctx.event("pairs checked", len(got))
    ctx.seen("comb", tuple(v))


def product(ctx, i):
    import symmetrix as S
    import vh
    rng = ctx.rng
    rep = int(rng.integers(0, 6))
    v = elements(rng, int(rng.integers(0, {0: 9, 1: 40, 2: 20, 3: 10, 4: 7, 5: 5}[rep])) if rng.random() < .9 else {0: 300, 1: 300, 2: 60, 3: 17, 4: 9, 5: 6}[rep])
    ctx.desc = dict(v=v, rep=rep)
    got = ctx.call(S._product_repeat, v, rep, what="_product_repeat")
    ctx.true([list(p) for p in got] == [list(p) for p in itertools.product(v, repeat=rep)], "product-repeat", f"{v}^{rep}")
    lists = [elements(rng, int(rng.integers(0 if rng.random() < .1 else 1, 6))) for _ in range(int(rng.integers(0, 5)))]
    ctx.true([list(p) for p in ctx.call(vh.product, lists, what="_product")] == [list(p) for p in itertools.product(*lists)],
             "product", f"product of {lists}")
    fl = [[float(x) / 3 for x in l] for l in lists]
    ctx.true([list(p) for p in ctx.call(vh.product_d, fl, what="_product<double>")] == [list(p) for p in itertools.product(*fl)],
             "product-double", f"product of {fl}")
    ctx.event("tuples checked", len(got))
    ctx.seen("prod", tuple(v), rep)


def indices(ctx, i):
    import symmetrix as S
    dim, mx = i % 6, i // 6
    if mx ** dim > 60000:
        mx = 6
    got = ctx.call(S._generate_indices, dim, mx, what="_generate_indices")
    ctx.true([list(p) for p in got] == [list(p) for p in itertools.product(range(mx), repeat=dim)], "indices", f"dim={dim} max={mx}")
    ctx.event("index tuples checked", len(got))
    ctx.seen("ind", dim, mx)


def binomial(ctx, i):
    import symmetrix as S
    n = i
    if n <= 24:
        ks = range(-3, n + 5)
    else:
        ks = [-1, 0, 1, 2, n // 2 - (n > 30), n - 2, n - 1, n, n + 1]
    for k in ks:
        want = comb(n, k) if 0 <= k <= n else 0
        if want < 2**31:
            ctx.true(ctx.call(S._binomial_coefficient, n, k, what="_binomial_coefficient") == want, "binomial", f"C({n},{k})")
            ctx.seen("binom", n, k)
    for n2, k in [(-1 - i, 0), (-1 - i, -1), (0, 0), (0, i + 1), (i, -1 - i), (1000 + i, 1), (1500, 1499), (90 + i, 2), (70, 67)]:
        want = comb(n2, k) if 0 <= k <= n2 else 0
        ctx.true(ctx.call(S._binomial_coefficient, n2, k, what="_binomial_coefficient") == want, "binomial", f"C({n2},{k})")
    ctx.event("binomials checked", len(ks) + 9)


def sums(ctx, i):
    import symmetrix as S
    rng = ctx.rng
    n = i % 130 if i % 20 else int(rng.choice([255, 256, 257, 1000, 4097, 20000]))
    lim = max(1, (2**31 - 1) // max(n, 1))
    v = [int(x) for x in rng.integers(-lim, lim + 1, n)] if rng.random() < .5 else elements(rng, n % 2)
    ctx.desc = dict(v=v)
    ctx.true(ctx.call(S._sum, v, what="_sum") == sum(v), "sum", f"sum of {v}")
    ctx.seen("sum", n, sum(v))
