"""P10: labelled values through histories of selections, reorderings, transpositions, concatenations, samples."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st
from lib import fakemp
fakemp.install()
from lib import gen, large, model
from lib.core import Law
from nephosem import TypeTokenMatrix

MORE = ["m1", "m2", "m3", "Q/N", "q", "é/V", "z z"]
lab = st.sampled_from(gen.LABEL_POOL + ["zz", "unknown"])
some = st.one_of(st.none(), st.lists(lab, min_size=1, max_size=6, unique=True), st.lists(st.integers(0, 6), min_size=1, max_size=5, unique=True))
bound = st.one_of(st.none(), st.integers(-6, 7))
index = st.one_of(st.tuples(st.just("label"), st.integers(0, 9)), st.tuples(st.just("pos"), st.integers(-5, 5)),
                  st.tuples(st.just("slice"), bound, bound, st.sampled_from([None, None, 1, 2, -1])))
big_sample = st.tuples(st.just("sample"), st.sampled_from([0.5, 0.99, 0.999, 60, 130, 250, 257, 299]), st.integers(-1, 30), st.sampled_from([False, False, True]))
pick = st.tuples(st.just("pick"), st.sampled_from([0, 1]), st.sampled_from(["sub", "sub", "reorder"]), st.integers(0, 400), st.sampled_from([1, 1, -1, -1, 2, -3, 7]), st.integers(1, 400))
op = st.one_of(
    st.tuples(st.just("sub"), some, some, st.sampled_from(["list", "tuple"])),
    st.tuples(st.just("sub"), some, some, st.just("list")),
    st.tuples(st.just("reorder"), st.sampled_from([0, 1]), st.integers(0, 10 ** 6)),
    pick,
    st.tuples(st.just("transpose")),
    st.tuples(st.just("concat"), st.sampled_from([0, 1]), st.lists(st.sampled_from(MORE), min_size=1, max_size=3, unique=True),
              st.lists(st.integers(-3, 6), min_size=1, max_size=6), st.sampled_from(["int64", "float64", "int32"]), st.sampled_from(["csr", "csc", "coo"])),
    st.tuples(st.just("mismatch"), st.sampled_from([0, 1]), st.lists(st.integers(-3, 6), min_size=1, max_size=6), st.sampled_from(["rotated", "rotated", "swapped", "renamed"])),
    st.tuples(st.just("sample"), st.one_of(st.integers(1, 4), st.sampled_from([0.1, 0.3, 0.5, 0.99, 0.99, 60, 130, 250, 257, 299])), st.integers(-1, 30), st.booleans()),
    st.tuples(st.just("back"), st.integers(0, 5)), st.tuples(st.just("back"), st.integers(0, 5)),
    st.tuples(st.just("value"), st.integers(0, 99), st.integers(1, 9)), st.tuples(st.just("todense")), st.tuples(st.just("copy")), st.tuples(st.just("deepcopy")))
cases = st.fixed_dictionaries({"m": gen.matrix(max_rows=5, max_cols=5, dense_ok=True, kinds=("int", "float", "count", "int", "bool")),
                               "square": st.booleans(), "ops": st.lists(op, min_size=1, max_size=7),
                               "reads": st.lists(st.tuples(index, st.one_of(st.none(), index)), min_size=1, max_size=4)})


def permutation(items, n):
    items, out = list(items), []
    while items:
        n, k = divmod(n, len(items))
        out.append(items.pop(k))
    return out


class Model:
    def __init__(self, rows, cols, vals, stored, dense):
        self.rows, self.cols, self.vals, self.stored, self.dense = list(rows), list(cols), dict(vals), set(stored), dense

    def pick(self, rows, cols):
        return Model(rows, cols, {(r, c): self.vals[r, c] for r in rows for c in cols},
                     {(r, c) for r, c in self.stored if r in rows and c in cols}, self.dense)

    def check(self, m, what):
        rows, cols, vals, stored = model.snapshot(m)
        assert rows == self.rows, "%s: row labels %r, expected %r" % (what, rows, self.rows)
        assert cols == self.cols, "%s: column labels %r, expected %r" % (what, cols, self.cols)
        assert tuple(m.shape) == (len(rows), len(cols))
        model.same_table(vals, self.vals, what=what + ": cell")
        assert isinstance(m.matrix, np.ndarray) == self.dense, "%s: %s" % (what, type(m.matrix))
        if not self.dense:
            assert set(stored) == self.stored, "%s: stored cells %r, expected %r" % (what, sorted(stored), sorted(self.stored))
        assert list(m.rowid2item) == self.rows and list(m.colid2item) == self.cols
        assert m.item2rowid == {r: i for i, r in enumerate(self.rows)} and m.item2colid == {r: i for i, r in enumerate(self.cols)}


def names(sel, labels):
    """A selection of a case (labels, or positions) as labels."""
    if sel is None:
        return None
    if isinstance(sel[0], str):
        return list(sel)
    return list(dict.fromkeys(labels[i % len(labels)] for i in sel))


def is_square(mod):
    """Dense matrices with equal labels and symmetric values: these may not be reordered or transposed (documented)."""
    return mod.dense and mod.rows == mod.cols and all(model.close(mod.vals[r, c], mod.vals[c, r], 1e-4, 1e-7) for r in mod.rows for c in mod.cols)


def apply(m, mod, o, ctx):
    """(new matrix, new model) or None when the operation says nothing about the result."""
    kind = o[0]
    if kind == "sub":
        rs, cs = names(o[1], mod.rows), names(o[2], mod.cols)
        if rs is None and cs is None and mod.dense:
            return None
        f = tuple if o[3] == "tuple" else list
        got = m.submatrix(row=None if rs is None else f(rs), col=None if cs is None else f(cs))
        rows = mod.rows if rs is None else [r for r in rs if r in mod.rows]
        cols = mod.cols if cs is None else [c for c in cs if c in mod.cols]
        if not rows or not cols:
            assert got is None or 0 in got.shape, "nothing was selected but there is a result"
            ctx.label("nothing selected")
            return None
        return got, mod.pick(rows, cols)
    if kind == "reorder":
        if is_square(mod):
            return None
        if o[1] == 0:
            rows = permutation(mod.rows, o[2])
            return m.reorder(rows, axis=0), mod.pick(rows, mod.cols)
        cols = permutation(mod.cols, o[2])
        return m.reorder(cols, axis=1), mod.pick(mod.rows, cols)
    if kind == "pick":      # some, many or all labels, in one of many orders
        axis, how, start, step, count = o[1:]
        labels = mod.cols if axis else mod.rows
        turned = labels[start % len(labels):] + labels[:start % len(labels)]
        chosen = list(dict.fromkeys(turned[::step] + turned))[:count]
        rows, cols = (mod.rows, chosen) if axis else (chosen, mod.cols)
        if how == "sub":
            return (m.submatrix(col=chosen) if axis else m.submatrix(row=chosen)), mod.pick(rows, cols)
        if is_square(mod):
            return None
        return m.reorder(chosen, axis=axis), mod.pick(rows, cols)
    if kind == "transpose":
        if is_square(mod):
            return None
        return m.transpose(), Model(mod.cols, mod.rows, {(c, r): v for (r, c), v in mod.vals.items()}, {(c, r) for r, c in mod.stored}, mod.dense)
    if kind == "concat":
        axis, labels, nums, dtype, fmt = o[1:]
        new = [x for x in labels if x not in (mod.rows if axis == 0 else mod.cols)]
        if not new or is_square(mod):
            return None
        d = {"rows": new if axis == 0 else mod.rows, "cols": mod.cols if axis == 0 else new, "dtype": dtype, "fmt": "dense" if mod.dense else fmt, "cells": []}
        for i in range(len(d["rows"])):
            for j in range(len(d["cols"])):
                v = nums[(i * len(d["cols"]) + j) % len(nums)]
                if v:
                    d["cells"].append([i, j, v])
        second = Model(d["rows"], d["cols"], model.table(d), model.stored(d), mod.dense)
        if is_square(second):
            return None
        other = model.build(d)
        got = m.concatenate(other, axis=axis)
        second.check(other, "right operand of the concatenation")
        return got, Model(mod.rows + new if axis == 0 else mod.rows, mod.cols if axis == 0 else mod.cols + new,
                          {**mod.vals, **second.vals}, mod.stored | second.stored, mod.dense)
    if kind == "mismatch":      # the labels of the two matrices differ: rejected, or combined by label
        axis, nums, how = o[1:]
        shared = mod.cols if axis == 0 else mod.rows
        if is_square(mod) or len(shared) < 2 and how != "renamed":
            return None
        theirs = {"rotated": shared[1:] + shared[:1], "swapped": shared[:-2] + shared[:-3:-1], "renamed": shared[:-1] + ["<other>"]}[how]
        rows, cols = (["<new>"], theirs) if axis == 0 else (theirs, ["<new>"])
        if "<new>" in mod.rows + mod.cols or "<other>" in shared or (mod.dense and rows == cols):
            return None
        d = {"rows": rows, "cols": cols, "dtype": "int64", "fmt": "dense" if mod.dense else "csr",
             "cells": [[i, j, nums[(i + j) % len(nums)]] for i in range(len(rows)) for j in range(len(cols)) if nums[(i + j) % len(nums)]]}
        try:
            got = m.concatenate(model.build(d), axis=axis)
        except Exception:
            return None
        want = model.table(d)
        r, c, v, _ = model.snapshot(got)
        assert all(v.get((x, y), 0) == mod.vals.get((x, y), want.get((x, y), 0)) for x in r for y in c), \
            "concatenated with labels %r (this matrix has %r): %r" % (theirs, shared, v)
        return None
    if kind == "sample":
        p, seed, repl = o[1:]
        n = len(mod.rows)
        if p > 4:       # for large matrices
            p = min(p, n)
        if p > n:
            return None
        got = m.sample(percent=p, seed=seed, replace=repl)
        want = p if p >= 1 else max(1, int(n * p))
        rows = list(got.row_items)
        assert len(rows) == want and list(got.col_items) == mod.cols, "sample of %r of %d rows has %d" % (p, n, len(rows))
        pos = [mod.rows.index(r) for r in rows]
        assert pos == sorted(pos), "sampled rows out of order"
        if seed >= 0:
            again = m.sample(percent=p, seed=seed, replace=repl)
            assert list(again.row_items) == rows, "same seed, other sample"
        a = got.matrix.toarray() if sp.issparse(got.matrix) else got.matrix
        for i, r in enumerate(rows):
            for j, c in enumerate(mod.cols):
                assert a[i, j] == mod.vals[r, c], "sampled cell %r" % ((r, c),)
        if len(set(rows)) < len(rows):
            assert repl, "a row was sampled twice without replacement"
            return None
        return got, mod.pick(rows, mod.cols)
    if kind == "value":         # another matrix that differs in one stored value
        if not mod.stored:
            return None
        k = sorted(mod.stored)[o[1] % len(mod.stored)]
        v = mod.vals[k] + o[2]
        a = m.matrix.copy()
        if a.dtype == bool or (a.dtype.kind == "i" and abs(v) > 30000):
            return None
        i, j = mod.rows.index(k[0]), mod.cols.index(k[1])
        a[i, j] = v
        v = a[i, j].item()
        new = Model(mod.rows, mod.cols, {**mod.vals, k: v}, mod.stored if not mod.dense else {c for c, x in {**mod.vals, k: v}.items() if x != 0}, mod.dense)
        return TypeTokenMatrix(a, list(mod.rows), list(mod.cols)), new
    if kind == "todense":
        if mod.dense:
            return None
        return m.todense(), Model(mod.rows, mod.cols, mod.vals, {k for k, v in mod.vals.items() if v != 0}, True)
    return (m.copy() if kind == "copy" else m.deepcopy()), mod


def resolve(ix, labels):
    """(argument, list of positions) or None when out of range."""
    n = len(labels)
    if ix[0] == "label":
        return labels[ix[1] % n], [ix[1] % n]
    if ix[0] == "pos":
        return (ix[1], [ix[1] % n]) if -n <= ix[1] < n else None
    s = slice(*ix[1:])
    pos = list(range(n))[s]
    return (s, pos) if pos else None


def read(m, mod, a, b):
    ra = resolve(a, mod.rows)
    rb = ("", list(range(len(mod.cols)))) if b is None else resolve(b, mod.cols)
    if ra is None or rb is None:
        return 0
    got = m[ra[0]] if b is None else m[ra[0], rb[0]]
    want = [mod.vals[mod.rows[i], mod.cols[j]] for i in ra[1] for j in rb[1]]
    if b is not None and not isinstance(ra[0], slice) and not isinstance(rb[0], slice):
        assert np.ndim(got) == 0, "a single cell has shape %r" % (np.shape(got),)
    flat = np.asarray(got).ravel().tolist()
    assert len(flat) == len(want) and all(x == y for x, y in zip(flat, want)), "reading %r gives %r, expected %r" % ((ra[0], None if b is None else rb[0]), flat, want)
    return 1


def queries(x, y, old):
    """Contexts of the rows, and equality with the other matrices of the history."""
    if not y.dense:
        for r in y.rows[:20]:
            got = list(x.get_colloc_contexts(r))
            stored = {c for a, c in y.stored if a == r}
            full = {c for c in stored if y.vals[r, c] != 0}
            assert len(set(got)) == len(got) and full <= set(got) <= stored, "contexts of %r: %r, expected %r" % (r, got, sorted(full))
    if not y.dense and x.matrix.dtype.kind == "f" and any(y.vals[k] for k in y.stored):
        tiny = x.matrix.copy()      # equality of sparse matrices is exact, at any scale
        tiny.data = tiny.data * 1e-10 / max(abs(v) for v in y.vals.values())
        other = tiny.copy()
        other.data[int(np.argmax(np.abs(tiny.data)))] *= 2
        z = TypeTokenMatrix(tiny, y.rows, y.cols)
        assert z.equal(TypeTokenMatrix(tiny.copy(), y.rows, y.cols)), "a matrix of tiny values is not equal to its copy"
        assert not z.equal(TypeTokenMatrix(other, y.rows, y.cols)), "matrices with other tiny values are equal"
    for z, w in old:
        if y.dense != w.dense:
            continue
        if (y.rows, y.cols) != (w.rows, w.cols):
            assert not x.equal(z), "matrices with other labels are equal"
        elif y.vals == w.vals and y.stored == w.stored:
            assert x.equal(z), "matrices with the same values are not equal"
        elif any(abs(v - w.vals[k]) > 1e-3 * max(1, abs(v)) for k, v in y.vals.items()):
            assert not x.equal(z), "matrices with other values are equal"


def body(case, ctx):
    d = dict(case["m"])
    if case["square"] and d["fmt"] == "dense" and len(d["rows"]) <= len(d["cols"]):
        n = len(d["rows"])
        d["cols"] = d["rows"]
        up = [c for c in d["cells"] if c[0] < c[1] < n]
        d["cells"] = up + [[j, i, v] for i, j, v in up]
    m = model.build(d)
    mod = Model(d["rows"], d["cols"], model.table(d), model.stored(d), d["fmt"] == "dense")
    mod.check(m, "constructor")
    done = 0
    old = [(m, mod)]
    for n, o in enumerate(case["ops"]):
        if o[0] == "back":          # go on with an earlier matrix
            m, mod = old[o[1] % len(old)]
            ctx.label("back")
            continue
        res = apply(m, mod, o, ctx)
        if res is None:
            continue
        m, mod = res
        done += 1
        mod.check(m, "step %d, %s" % (n, o[0]))
        old.append(res)
        ctx.label(o[0])
    reads = sum(read(m, mod, a, b) for a, b in case["reads"])
    for r in mod.rows:
        for c in mod.cols:
            assert m[r, c] == mod.vals[r, c], "cell %r" % ((r, c),)
    for n, (x, y) in enumerate(old):
        y.check(x, "matrix %d of the history, at its end" % n)
    for x, y in old[-3:]:
        queries(x, y, old)
    ctx.label("dense" if mod.dense else "sparse", "steps %d" % done)
    ctx.nontrivial(done >= 2 and reads and len(mod.stored) >= 2 and max(len(mod.rows), len(mod.cols)) >= 2)


LAWS = [Law("history", cases, body, quick=12000, thorough=300000, shards=8,
            rule="a matrix (csr/csc/coo/dense) and a history of operations, the labelled table compared after each; non-trivial if at least two operations applied and the last matrix has two or more stored cells"),
        Law("large", large.swapped(st.builds(lambda c, more: dict(c, ops=more + c["ops"]), cases, st.lists(st.one_of(pick, pick, big_sample), max_size=4)), kinds=("int", "float", "count", "bool"), dense_ok=True), large.running(body, "m"), quick=480, thorough=9600, shards=8,
            rule="the same with matrices of up to 300 rows or columns (sizes around powers of two), values around the limits of small types; non-trivial as above")]
ASSUMPTIONS = ["labels of a matrix are unique", "dense symmetric matrices with equal labels cannot be reordered, transposed or concatenated (documented by NotImplementedError)"]
