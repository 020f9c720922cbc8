"""P14: matrices saved and loaded, over histories of saves in one directory."""
import os
import numpy as np
from hypothesis import strategies as st
from lib import fakemp
fakemp.install()
from lib import gen, large, model
from lib.core import Law
from nephosem import TypeTokenMatrix

POOL = ["a/N", "b/N", "ab", "é", "日/V", "x y", "\"q\"", "a\\n", "tab\tx", "nl\nx", "cr\rx", "10", "1.5", "null", "", " a", "{", "a\x85b", "\u2028", "ÿ", "\x00", "A"]
NAMES = ["m", "m", "m.wcmx.freq", "m.pac", "m 1", "é.x", "sub/m", "n", "m.npz"]
names = st.sampled_from(NAMES)
mats = gen.matrix(max_rows=4, max_cols=4, dense_ok=True, pool=POOL, kinds=("int", "float", "count", "bool", "float"))
extreme = st.sampled_from(["nan", "inf", "-inf", "1e308", "5e-324", "-0.0"])
save = st.tuples(st.just("save"), names, st.booleans(), mats, st.sampled_from(["new", "transpose", "concat", "sub", "dense", "filter"]), st.one_of(st.none(), st.none(), st.none(), extreme))
op = st.one_of(save, save, st.tuples(st.just("load"), names, st.booleans()), st.tuples(st.just("foreign"), st.sampled_from(["m.txt", "m", "n.freq", "sub/other.npz"])), st.tuples(st.just("rename"), names))
cases = st.fixed_dictionaries({"ops": st.lists(op, min_size=1, max_size=8), "enc": st.sampled_from(["utf-8", "utf-8", "utf-16", "latin-1", "cp1252"]), "relative": st.booleans()})


def derived(m, how):
    if how == "transpose" and not (isinstance(m.matrix, np.ndarray) and list(m.row_items) == list(m.col_items)):
        return m.transpose()
    if how == "sub":
        return m.submatrix(row=list(reversed(m.row_items)))
    if isinstance(m.matrix, np.ndarray):
        return m
    if how == "concat":
        o = TypeTokenMatrix(m.matrix, ["2" + r for r in m.row_items], m.col_items)
        return m.concatenate(o)
    if how == "dense":
        return m.todense()
    if how == "filter":
        return m.multiply(m > 0)
    return m


def body(case, ctx):
    root = ctx.dir()
    os.mkdir(os.path.join(root, "sub"))
    enc = case["enc"]
    slots, foreign = {}, {}
    old = os.getcwd()
    os.chdir(root)
    try:
        run(case, ctx, root, enc, slots, foreign)
    finally:
        os.chdir(old)


def key(name, pack):
    return (name[:-4] if pack and name.endswith(".pac") else name, pack)


def verify(slots, foreign, path, enc, n):
    for (name, pack), f in slots.items():
        got = model.frozen(TypeTokenMatrix.load(path(name), encoding=enc, pack=pack))
        want = f
        assert got == want, "after step %d, %r (%s): loaded %r, saved %r" % (n, name, "packed" if pack else "unpacked", got, want)
    for name, data in foreign.items():
        with open(path(name), "rb") as fh:
            assert fh.read() == data, "file %r was changed" % name


def run(case, ctx, root, enc, slots, foreign):
    path = (lambda n: n) if case["relative"] else (lambda n: os.path.join(root, n))
    for n, o in enumerate(case["ops"]):
        if o[0] == "save":
            _, name, pack, d, how, ext = o
            labels = d["rows"] + d["cols"]
            try:
                ok = all(x.encode(enc).decode(enc) == x for x in labels)
            except UnicodeError:
                ok = False
            if not ok:
                d = dict(d, rows=["r%d" % i for i in range(len(d["rows"]))], cols=["c%d" % i for i in range(len(d["cols"]))])
            m = model.build(d)
            m = derived(m, how)
            if m is None:
                continue
            if ext is not None and m.matrix.dtype.kind == "f" and m.matrix.size:
                data = m.matrix if isinstance(m.matrix, np.ndarray) else m.matrix.data
                data[tuple(0 for _ in data.shape)] = float(ext)
            before = model.frozen(m)
            m.item2rowid        # (a cache that is part of the meta data)
            m.save(path(name), encoding=enc, pack=pack, verbose=False)
            assert model.frozen(m) == before, "saving changed the matrix"
            k = key(name, pack)
            if k in slots:
                ctx.label("overwritten")
                if slots[k][2:3] and (isinstance(slots[k][2], list) and isinstance(before[2], list)) and (slots[k][2][:1] and isinstance(slots[k][2][0], list)) != (before[2][:1] and isinstance(before[2][0], list)):
                    ctx.label("overwritten by the other kind")
            slots[k] = before
            ctx.label("packed" if pack else "unpacked", how)
        elif o[0] == "load":
            pass
        elif o[0] == "rename":
            k = key(o[1], True)
            if k in slots:
                os.rename(path(k[0] + ".pac"), path("renamed.pac"))
                slots["renamed", True] = slots.pop(k)
                ctx.label("renamed package")
        else:
            foreign[o[1]] = b"foreign %d" % n
            with open(path(o[1]), "wb") as f:
                f.write(foreign[o[1]])
        verify(slots, foreign, path, enc, n)
    ctx.nontrivial(len(slots) >= 2 or "overwritten" in ctx.labels)
    ctx.label("enc " + enc)


@st.composite
def large_cases(draw):
    c = draw(cases)
    c["ops"] = [o if o[0] != "save" else o[:3] + (draw(large.spec(dense_ok=True, kinds=("int", "float", "count", "bool"))),) + o[4:] for o in c["ops"][:3]]
    return c


def large_body(case, ctx):
    body(dict(case, ops=[o if o[0] != "save" else tuple(o[:3]) + (large.expand(o[3]),) + tuple(o[4:]) for o in case["ops"]]), ctx)


wide_cases = st.fixed_dictionaries({"n": st.sampled_from([255, 256, 32767, 32768, 65535, 65536, 70000, 140000]), "rows": st.integers(1, 3), "turn": st.booleans(), "pack": st.booleans(),
                                    "at": st.lists(st.tuples(st.integers(0, 2), st.integers(-4, 4)), min_size=1, max_size=8), "dtype": st.sampled_from(["int64", "float64", "bool"])})


def wide_body(case, ctx):
    """Very many columns (or rows), a few of them filled, some near the end."""
    n, k = case["n"], case["rows"]
    cells = {(i % k, (j * (n // 9)) % n if a % 2 else j % n): a + 1 for a, (i, j) in enumerate(case["at"])}
    cells[k - 1, n - 1] = 3
    d = {"rows": ["r%d" % i for i in range(k)], "cols": ["c%d" % j for j in range(n)], "cells": [[i, j, v] for (i, j), v in sorted(cells.items())], "dtype": case["dtype"], "fmt": "csr"}
    if case["turn"]:
        d = dict(d, rows=d["cols"], cols=d["rows"], cells=[[j, i, v] for i, j, v in d["cells"]])
    m = model.build(d)
    f = os.path.join(ctx.dir(), "m")
    m.save(f, pack=case["pack"], verbose=False)
    b = TypeTokenMatrix.load(f, pack=case["pack"])
    assert list(b.row_items) == d["rows"] and list(b.col_items) == d["cols"], "labels of the loaded matrix"
    c = b.matrix.tocoo()
    got = {(int(i), int(j)): v for i, j, v in zip(c.row, c.col, c.data.tolist())}
    want = {(i, j): v if case["dtype"] != "bool" else True for i, j, v in d["cells"]}
    assert got == want and b.matrix.dtype == m.matrix.dtype, "loaded %r, saved %r" % (got, want)
    assert b.matrix.shape == (len(d["rows"]), len(d["cols"]))
    ctx.nontrivial(len(want) >= 2)
    ctx.label("n=%d" % n, "rows" if case["turn"] else "columns")


LAWS = [Law("files", cases, body, quick=4500, thorough=120000, shards=8,
            rule="a history of packed and unpacked saves of matrices (new, transposed, concatenated, selected, dense, filtered) under a few names; everything saved is loaded after each step; non-trivial if two names are in use or one was overwritten"),
        Law("large", large_cases(), large_body, quick=96, thorough=2400, shards=8,
            rule="the same with matrices of up to 300 rows or columns; non-trivial as above"),
        Law("wide", wide_cases, wide_body, quick=64, thorough=1600, shards=8,
            rule="a matrix with up to 140000 columns or rows and a few values, saved and loaded; non-trivial with two values")]
ASSUMPTIONS = ["labels can be written in the encoding", "packed and unpacked files of one name are kept apart"]
