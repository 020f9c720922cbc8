"""P15: tables, csv files and nested dictionaries of matrices."""
import os
import random
import numpy as np
import pandas as pd
import scipy.sparse as sp
from hypothesis import strategies as st
from lib import fakemp
fakemp.install()
from lib import gen, large, model
from lib.core import Law
from nephosem import TypeTokenMatrix
from nephosem.specutils import mxutils

POOL = ["a", "b/N", "é", "x y", "日", "q\"t", "a,b", "c;d", "tab\tx", "l\nm", "#x", "'", " lead", "A", "ab/N", "Ω", "-x", "a|b"]
tables = st.fixed_dictionaries({"m": gen.matrix(max_rows=5, max_cols=5, dense_ok=True, pool=POOL, kinds=("int", "float", "count", "bool")), "square": st.booleans(), "huge": st.booleans(),
                                "sep": st.sampled_from(["\t", ",", ";", "|"]), "enc": st.sampled_from(["utf-8", "utf-16", "latin-1"]), "sparse": st.booleans()})


def kind(m):
    return "sparse" if sp.issparse(m.matrix) else "dense"


def table_body(case, ctx):
    d = dict(case["m"])
    if case.get("huge") and d["dtype"] == "int64":     # whole numbers that floating point numbers do not have
        d["cells"] = [[i, j, v * (2 ** 53 + 1) if abs(v) < 500 else v] for i, j, v in d["cells"]]
    if case["square"] and d["fmt"] == "dense":
        n = min(len(d["rows"]), len(d["cols"]))
        d["rows"] = d["cols"] = d["rows"][:n]
        up = [c for c in d["cells"] if c[0] <= c[1] < n]
        d["cells"] = up + [[j, i, v] for i, j, v in up if i != j]
    enc = case["enc"]
    try:
        for x in d["rows"] + d["cols"]:
            x.encode(enc)
    except UnicodeError:
        enc = "utf-8"
    m = model.build(d)
    vals = model.table(d)
    before = model.frozen(m)
    df = m.dataframe
    assert df.index.tolist() == d["rows"] and df.columns.tolist() == d["cols"], "labels of the table: %r, %r" % (df.index.tolist(), df.columns.tolist())
    got = {(r, c): df.values[i, j] for i, r in enumerate(d["rows"]) for j, c in enumerate(d["cols"])}
    model.same_table(got, vals, what="table cell")
    rtol = 1e-6 if d["dtype"] == "float32" else 1e-12
    for issparse in (True, False):
        m2 = TypeTokenMatrix.from_dataframe(df, issparse=issparse)
        r, c, v, s = model.snapshot(m2)
        assert (r, c) == (d["rows"], d["cols"]) and kind(m2) == ("sparse" if issparse else "dense")
        model.same_table(v, vals, what="matrix of the table: cell")
        if d["dtype"] == "int64":
            odd = {k: (x, v[k]) for k, x in vals.items() if int(v[k]) != int(x)}
            assert not odd, "matrix of the table: cells %r" % odd
    f = os.path.join(ctx.dir(), "t é.csv")
    m.to_csv(f, sep=case["sep"], encoding=enc)
    m3 = TypeTokenMatrix.read_csv(f, sep=case["sep"], encoding=enc, index_col=0, issparse=case["sparse"])
    r, c, v, s = model.snapshot(m3)
    assert r == d["rows"] and c == d["cols"], "labels read back: %r x %r, written %r x %r" % (r, c, d["rows"], d["cols"])
    assert kind(m3) == ("sparse" if case["sparse"] else "dense")
    model.same_table(v, vals, rtol=rtol, atol=1e-40 if d["dtype"] == "float32" else 1e-300, what="cell read back:")
    assert model.frozen(m) == before, "exporting changed the matrix"
    ctx.nontrivial(len(d["cells"]) >= 2)
    ctx.label(kind(m), "enc " + enc, "sep %r" % case["sep"], d["dtype"])


num = st.one_of(st.integers(-5, 40), st.integers(-6, 6).map(lambda x: x / 4), st.booleans(), st.sampled_from([0.1, 1e-7, 300, 40000]))
typed = st.one_of(st.tuples(st.just("py"), num), st.tuples(st.sampled_from(["int8", "int16", "int32", "int64", "float32", "float64", "bool"]), st.integers(0, 100)))
dicts = st.fixed_dictionaries({"nr": st.integers(1, 6), "nc": st.sampled_from([1, 2, 5, 140, 300]), "one": st.one_of(st.none(), st.sampled_from(["py-int", "int8", "bool", "float32"])),
                               "cells": st.lists(st.tuples(st.integers(0, 10 ** 4), st.integers(0, 10 ** 4), typed), min_size=1, max_size=14), "extra": st.booleans(), "perm": st.booleans()})


def dict_body(case, ctx):
    rows = ["r%d" % i for i in range(case["nr"])]
    cols = ["c%03d" % i for i in range(case["nc"])]
    data = {}
    for i, j, (t, v) in case["cells"]:
        x = v if t == "py" else np.dtype(t).type(v)
        if case["one"] == "py-int":
            x = int(v)
        elif case["one"]:
            x = np.dtype(case["one"]).type(int(v) % 100)
        data.setdefault(rows[i % len(rows)], {})[cols[j % len(cols)]] = x
    if case["extra"]:
        data.setdefault(rows[0], {})
    if case["perm"]:
        rows, cols = rows[::-1], cols[::-1]
    want = {(r, c): v for r, vec in data.items() for c, v in vec.items()}
    spmx = mxutils.transform_dict_to_spmatrix(data, rows, cols)
    assert sp.issparse(spmx) and spmx.shape == (len(rows), len(cols))
    m = TypeTokenMatrix(spmx, rows, cols)
    stored = model.snapshot(m)[3]
    loose = any(isinstance(v, np.float32) for v in want.values())
    model.same_table({k: v for k, v in stored.items()}, {k: (v.item() if hasattr(v, "item") else v) for k, v in want.items()}, rtol=1e-6 if loose else 0, what="stored cell")
    for back in (mxutils.transform_spmatrix_to_dict(spmx, rows, cols), mxutils.transform_spmatrix_to_dict(spmx.tocsc(), rows, cols), m.spmatrix_to_dict()):
        flat = {(r, c): v for r, vec in back.items() for c, v in vec.items()}
        model.same_table(flat, stored, what="key pair")
        assert all(vec for vec in back.values()), "a row without values in the dictionary"
    ctx.nontrivial(len(want) >= 3 and len({type(v) for v in want.values()}) >= 2)
    ctx.label("%d columns" % case["nc"], "mixed types" if len({type(v) for v in want.values()}) > 1 else "one type")


def large_tables(case, ctx):
    m = large.expand(case["m"])
    ok = {x: ("x%d" % i if x in ("10", "2", "a") else x) for i, x in enumerate(gen.LABEL_POOL)}     # (labels pandas leaves alone)
    table_body(dict(case, m=dict(m, rows=[ok.get(x, x) for x in m["rows"]], cols=[ok.get(x, x) for x in m["cols"]])), ctx)


big = st.fixed_dictionaries({"nr": large.size, "nc": large.size, "fill": st.sampled_from([0.02, 0.1, 0.5, 1]), "kind": st.sampled_from(["int", "float", "count", "bool"]),
                             "zeros": st.sampled_from([0, 1, 40]), "seed": st.integers(0, 10 ** 6), "shuffle": st.booleans()})


def big_body(case, ctx):
    """Dictionaries of thousands of values, some of them zero."""
    rnd = random.Random(case["seed"])
    rows, cols = ["r%d" % i for i in range(case["nr"])], ["c%d" % i for i in range(case["nc"])]
    want = {(r, c): large.value(case["kind"], rnd) for r in rows for c in cols if rnd.random() < case["fill"]}
    for at in rnd.sample(sorted(want), min(case["zeros"], len(want))) + sorted(want)[-case["zeros"]:][:1]:
        want[at] = want[at] * 0 if case["zeros"] and case["kind"] != "bool" else want[at]
    if not want:
        return
    data = {}
    for r, c in (rnd.sample(sorted(want), len(want)) if case["shuffle"] else want):
        data.setdefault(r, {})[c] = want[r, c]
    spmx = mxutils.transform_dict_to_spmatrix(data, rows, cols)
    assert spmx.shape == (len(rows), len(cols))
    m = TypeTokenMatrix(spmx, rows, cols)
    for back in (mxutils.transform_spmatrix_to_dict(spmx, rows, cols), m.spmatrix_to_dict()):
        flat = {(r, c): v for r, vec in back.items() for c, v in vec.items()}
        model.same_table(flat, want, what="key pair")
    ctx.nontrivial(len(want) > 256)
    ctx.label("more than 4096" if len(want) > 4096 else "fewer", case["kind"])


LAWS = [Law("tables", tables, table_body, quick=2500, thorough=60000, shards=8,
            rule="a matrix, separator and encoding; non-trivial if two or more cells are stored"),
        Law("dicts", dicts, dict_body, quick=6000, thorough=150000, shards=4,
            rule="a nested dictionary of numbers of mixed types over up to 300 columns; non-trivial if it has three or more values of at least two types"),
        Law("bigdicts", big, big_body, quick=160, thorough=4000, shards=8,
            rule="a nested dictionary of up to 300 x 300 values, some of them stored zeros, to a matrix and back; non-trivial if it has more than 256 values"),
        Law("large", large.swapped(tables, dense_ok=True, kinds=("int", "float", "count", "bool")), large_tables, quick=120, thorough=3000, shards=8,
            rule="the same with matrices of up to 300 rows or columns (sizes around powers of two), values around the limits of small types; non-trivial if two or more cells are stored")]
ASSUMPTIONS = ["labels that pandas would read as numbers, as missing values or as duplicates of others are left out of csv files", "csv files keep 12 significant digits (6 for float32)", "an empty dictionary is rejected with an error"]
