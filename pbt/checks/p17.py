"""P17: distances and cosines."""
import math
import numpy as np
from hypothesis import strategies as st
from lib import fakemp
fakemp.install()
from lib import gen, large, model
from lib.core import Law
from nephosem.specutils import mxcalc

METRICS = ["cosine", "cosine", "euclidean", "cityblock", "l1", "l2", "manhattan", "cos"]
cases = st.fixed_dictionaries({"m": gen.matrix(max_rows=6, max_cols=6, dense_ok=True, kinds=("int", "float", "count")), "metric": st.sampled_from(METRICS), "axis": st.sampled_from([0, 0, 1]),
                               "dup": st.lists(st.tuples(st.integers(0, 5), st.integers(0, 5), st.sampled_from([0, 1, 2, -1, 0.5])), max_size=2), "square": st.booleans()})


def dist(metric, x, y):
    if metric in ("cosine", "cos"):
        nx, ny = math.sqrt(math.fsum(a * a for a in x)), math.sqrt(math.fsum(a * a for a in y))
        return 1.0 - (math.fsum(a / nx * (b / ny) for a, b in zip(x, y)) if nx and ny else 0.0)
    if metric in ("euclidean", "l2"):
        return math.sqrt(math.fsum((a - b) ** 2 for a, b in zip(x, y)))
    return math.fsum(abs(a - b) for a, b in zip(x, y))


def body(case, ctx):
    d = dict(case["m"])
    if d["dtype"].startswith("float"):      # (no magnitudes whose squares underflow)
        d["cells"] = [[i, j, v if abs(v) > 1e-3 else 0.0] for i, j, v in d["cells"]]
    if case["square"] and d["fmt"] == "dense":
        n = min(len(d["rows"]), len(d["cols"]))
        d["rows"] = d["cols"] = d["rows"][:n]
        up = [c for c in d["cells"] if c[0] <= c[1] < n]
        d["cells"] = up + [[j, i, v] for i, j, v in up if i != j]
    for a, b, f in case["dup"]:             # a row that is a multiple of another one
        a, b = a % len(d["rows"]), b % len(d["rows"])
        if a != b and (d["dtype"].startswith("float") or f == int(f)):
            d["cells"] = [c for c in d["cells"] if c[0] != a] + [[a, j, v * f] for i, j, v in d["cells"] if i == b]
    m = model.build(d)
    vals = model.table(d)
    before = model.frozen(m)
    axis, metric = case["axis"], case["metric"]
    items, dims = (d["rows"], d["cols"]) if axis == 0 else (d["cols"], d["rows"])
    vec = {i: [float(vals[(i, k) if axis == 0 else (k, i)]) for k in dims] for i in items}
    size = max([1.0] + [abs(x) for v in vec.values() for x in v])
    f32 = d["dtype"] == "float32"
    tol = (2e-3 if f32 else 2e-7) * (size if metric not in ("cosine", "cos") else 1)
    got = mxcalc.compute_distance(m, axis=axis, metric=metric)
    r, c, v, _ = model.snapshot(got)
    assert r == items and c == items, "labels of the distances: %r x %r, expected %r" % (r, c, items)
    cosm = mxcalc.compute_cosine(m, axis=axis)
    r2, c2, cv, _ = model.snapshot(cosm)
    assert r2 == items and c2 == items, "labels of the cosines"
    zero = {i for i in items if not any(vec[i])}
    for i in items:
        assert abs(v[i, i]) <= (1e-12 if not f32 else 1e-5), "distance of %r to itself: %r" % (i, v[i, i])
        assert cv[i, i] == 1.0, "cosine of %r with itself: %r" % (i, cv[i, i])
        for k in items:
            assert abs(v[i, k] - v[k, i]) <= tol and abs(cv[i, k] - cv[k, i]) <= tol
            if i != k:
                w = dist(metric, vec[i], vec[k])
                assert abs(v[i, k] - w) <= tol, "%s of %r and %r: %r, expected %r (%r, %r)" % (metric, i, k, v[i, k], w, vec[i], vec[k])
                w = 1.0 - dist("cosine", vec[i], vec[k])
                assert abs(cv[i, k] - w) <= (2e-3 if f32 else 2e-7), "cosine of %r and %r: %r, expected %r" % (i, k, cv[i, k], w)
    cd = model.snapshot(mxcalc.compute_distance(m, axis=axis))[2]
    for i in items:
        for k in items:
            if i not in zero and k not in zero:
                assert abs(cd[i, k] + cv[i, k] - 1) <= (1e-4 if f32 else 1e-9), "cosine distance and similarity of %r, %r: %r, %r" % (i, k, cd[i, k], cv[i, k])
    # sparse and dense input
    o = dict(d, fmt="csr" if d["fmt"] == "dense" else "dense")
    other = mxcalc.compute_distance(model.build(o), axis=axis, metric=metric)
    assert list(other.row_items) == items == list(other.col_items)
    assert np.allclose(np.asarray(other.matrix), np.asarray(got.matrix), rtol=0, atol=tol), "sparse and dense input give different distances"
    assert model.frozen(m) == before
    ctx.nontrivial(len(items) >= 3 and len(d["cells"]) >= 3)
    ctx.label(metric, "axis %d" % axis, "dense" if d["fmt"] == "dense" else "sparse", "zero vectors" if zero else "no zero vector")


LAWS = [Law("distances", cases, body, quick=4000, thorough=100000, shards=8,
            rule="a matrix with zero, equal and proportional rows, an axis and a metric; non-trivial if three or more vectors with three or more values are compared"),
        Law("large", large.swapped(cases, dense_ok=True), large.running(body, "m"), quick=64, thorough=1600, shards=8,
            rule="the same with matrices of up to 300 rows or columns; non-trivial as above")]
ASSUMPTIONS = ["values are 0 or between 1e-3 and 1e2 in size", "tolerance 2e-7 (2e-3 for float32) times the largest value"]
