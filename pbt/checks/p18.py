"""P18: similarity ranks and nearest neighbours."""
from hypothesis import strategies as st
import numpy as np
from lib import fakemp
fakemp.install()
from lib import gen, large, model
from lib.core import Law
from nephosem import TypeTokenMatrix
from nephosem.specutils import mxcalc

val = st.one_of(st.integers(0, 3), st.integers(-4, 9), st.integers(0, 8).map(lambda x: x / 8), st.floats(-1, 1))


@st.composite
def cases(draw):
    labels = draw(gen.unique_labels(1, 9))
    n = len(labels)
    pool = draw(st.lists(val, min_size=1, max_size=6))
    up = draw(st.lists(st.sampled_from(pool), min_size=n * (n + 1) // 2, max_size=n * (n + 1) // 2))
    return {"labels": labels, "up": up, "diag": draw(st.sampled_from(["any", "zero", "one"])), "dtype": draw(st.sampled_from(["float64", "float32", "int64"])),
            "k": draw(st.integers(1, 10)), "sym": draw(st.sampled_from([True, True, True, False]))}


def body(case, ctx):
    labels, n = case["labels"], len(case["labels"])
    a = np.zeros((n, n), dtype=case["dtype"])
    it = iter(case["up"])
    for i in range(n):
        for j in range(i, n):
            v = next(it)
            a[i, j] = v
            a[j, i] = v if case["sym"] else -v
        if case["diag"] != "any":
            a[i, i] = 0 if case["diag"] == "zero" else 1
    m = TypeTokenMatrix(a, list(labels), list(labels))
    before = model.frozen(m)
    for rev in (False, True):
        r, c, ranks, _ = model.snapshot(mxcalc.compute_simrank(m, reverse=rev) if rev else mxcalc.compute_simrank(m))
        assert r == labels and c == labels, "labels of the ranks"
        for i, x in enumerate(labels):
            row = [ranks[x, y] for y in labels]
            assert sorted(row) == list(range(1, n + 1)), "ranks of %r: %r" % (x, row)
            by_rank = [a[i, j].item() for j in sorted(range(n), key=lambda j: row[j])]
            assert by_rank == sorted(by_rank, reverse=not rev), "values of %r in the order of the ranks (reverse=%r): %r" % (x, rev, by_rank)
    symmetric = np.array_equal(a, a.T)
    if symmetric:
        for x in labels:
            i = labels.index(x)
            for desc in (False, True):
                near = list(m.most_similar(x, k=case["k"], descending=desc))
                assert x not in near, "%r is among its own neighbours" % x
                assert len(near) == min(case["k"], n - 1), "%d neighbours of %r for k=%d among %d items" % (len(near), x, case["k"], n)
                assert len(set(near)) == len(near) and set(near) <= set(labels)
                inside = [a[i, labels.index(y)] for y in near]
                outside = [a[i, labels.index(y)] for y in labels if y != x and y not in near]
                if inside and outside:
                    ok = min(inside) >= max(outside) if desc else max(inside) <= min(outside)
                    assert ok, "neighbours of %r (descending=%r): %r with values %r, left out %r" % (x, desc, near, inside, outside)
    assert model.frozen(m) == before
    ties = any(len(set(a[i].tolist())) < n for i in range(n))
    ctx.nontrivial(n >= 3 and len(set(case["up"])) >= 2)
    ctx.label("ties" if ties else "no ties", "symmetric" if symmetric else "not symmetric", "k>=n" if case["k"] >= n else "k<n")


@st.composite
def large_cases(draw):
    return {"n": draw(large.size.filter(lambda n: n > 100)), "seed": draw(st.integers(0, 10 ** 6)), "diag": draw(st.sampled_from(["any", "zero", "one"])),
            "values": draw(st.sampled_from([3, 100, 10 ** 6])), "dtype": draw(st.sampled_from(["float64", "float32", "int64"])), "k": draw(st.sampled_from([1, 5, 127, 128, 200, 255, 256, 299])),
            "sym": draw(st.booleans())}


def large_body(case, ctx):
    import random
    rnd = random.Random(case["seed"])
    n = case["n"]
    up = [rnd.randrange(case["values"]) for _ in range(n * (n + 1) // 2)]
    body(dict(case, labels=large.labels(n, 0, rnd, True), up=up), ctx)


LAWS = [Law("ranks", cases(), body, quick=8000, thorough=200000, shards=8,
            rule="a square matrix of similarities or distances, mostly with ties, and k; non-trivial with three or more items and two or more values"),
        Law("large", large_cases(), large_body, quick=64, thorough=1600, shards=8,
            rule="the same with 126 to 300 items; non-trivial as above")]
ASSUMPTIONS = ["k is at least 1", "neighbours are asked of symmetric matrices (others are not implemented)", "no order among the returned neighbours is promised"]
