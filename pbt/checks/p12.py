"""P12: comparisons with numbers and multiplication by the masks."""
import operator
import numpy as np
from hypothesis import strategies as st
from lib import fakemp
fakemp.install()
from lib import gen, large, model
from lib.core import Law

OPS = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}
thr = st.one_of(st.integers(-5, 10), st.just(0), st.just(0.0), st.integers(-8, 8).map(lambda x: x / 2), st.integers(-30, 30).map(lambda x: x / 7.0), st.floats(-4, 4))
filters = st.lists(st.tuples(st.sampled_from(sorted(OPS)), thr, st.booleans()), min_size=1, max_size=4)
cases = st.fixed_dictionaries({"m": gen.matrix(max_rows=5, max_cols=5, dense_ok=True), "filters": filters, "other": st.lists(st.tuples(st.integers(0, 24), st.one_of(st.integers(-3, 5), st.integers(-6, 6).map(lambda x: x / 4))), max_size=12),
                               "ofmt": st.sampled_from(["csr", "csc", "coo"]), "swap": st.booleans()})


def body(case, ctx):
    d = case["m"]
    m = model.build(d)
    rows, cols, vals, stored = model.snapshot(m)
    if d["fmt"] == "dense" and rows == cols:
        return
    f32 = d["dtype"] == "float32"
    kept = []
    for sym, t, from_cell in case["filters"]:
        if from_cell and stored:
            v = stored[sorted(stored)[int(abs(t) * 7) % len(stored)]]
            t = int(v) if isinstance(v, int) else float(v)
        if f32:
            t = float(np.float32(t))        # otherwise it is a matter of taste what a float32 number is compared with
        cmp = OPS[sym]
        mask = cmp(m, t)
        rows2, cols2, got, _ = model.snapshot(mask)
        assert (rows2, cols2) == (rows, cols), "labels of the mask"
        _, _, cur, st2 = model.snapshot(m)
        for k in cur:
            if k in st2 or not cmp(0, t):
                assert bool(got[k]) == bool(cmp(cur[k], t) and (k in st2 or d["fmt"] == "dense")), "mask %s %r at %r (value %r, %s): %r" % (
                    sym, t, k, cur[k], "stored" if k in st2 else "not stored", got[k])
        new = mask.multiply(m) if case["swap"] else m.multiply(mask)
        rows3, cols3, v3, st3 = model.snapshot(new)
        assert (rows3, cols3) == (rows, cols), "labels of the filtered matrix"
        want = {k: (v if cmp(v, t) else 0) for k, v in cur.items()}
        model.same_table(v3, want, what="filtered by %s %r: cell" % (sym, t))
        if d["fmt"] != "dense" and not case["swap"]:
            kept3 = {k for k in st2 if cmp(st2[k], t)}
            assert set(st3) == kept3, "filtered by %s %r: stored are %r, expected %r" % (sym, t, sorted(st3), sorted(kept3))
        kept.append(sum(1 for k, v in want.items() if v != cur[k]))
        m = new
        ctx.label(sym)
    n = len(cols)
    o = {"rows": rows, "cols": cols, "fmt": "dense" if d["fmt"] == "dense" else case["ofmt"], "dtype": "float64", "cells": []}
    cells = {i: v for i, v in case["other"] if i < len(rows) * n}
    o["cells"] = [[i // n, i % n, float(v)] for i, v in cells.items()]
    b = model.build(o)
    a = model.build(d)
    tb = model.table(o)
    if case["swap"]:
        a, b = b, a
    r4, c4, v4, _ = model.snapshot(a.multiply(b))
    assert (r4, c4) == (rows, cols)
    model.same_table(v4, {k: vals[k] * tb[k] for k in vals}, rtol=1e-6 if f32 else 1e-14, what="product: cell")
    ctx.nontrivial(any(kept) and len(stored) >= 3)
    ctx.label("dense" if d["fmt"] == "dense" else "sparse", "stored zeros" if any(v == 0 for v in stored.values()) and d["fmt"] != "dense" else "no stored zeros")


LAWS = [Law("filters", cases, body, quick=12000, thorough=300000, shards=8,
            rule="a matrix, a chain of filters whose thresholds are often values of the matrix, and a second matrix; non-trivial if a filter removed a value of a matrix with at least three"),
        Law("large", large.swapped(cases, dense_ok=True), large.running(body, "m"), quick=240, thorough=6000, shards=8,
            rule="the same with matrices of up to 300 rows or columns (sizes around powers of two), values around the limits of small types; non-trivial as above")]
ASSUMPTIONS = ["thresholds are int or float (others are rejected by the code)", "for thresholds that zero satisfies, nothing is claimed about cells that are not stored",
               "dense matrices with equal row and column labels are left out (comparisons are not implemented for them)"]
