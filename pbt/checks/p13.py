"""P13: merging matrices."""
import random
from hypothesis import strategies as st
from lib import fakemp
fakemp.install()
from lib import gen, large, model
from lib.core import Law
from nephosem.specutils import mxutils

POOL = ["a", "b", "ab/N", "c", "B", "é", "日", "10", "2"]


@st.composite
def cases(draw):
    n = draw(st.integers(1, 4))
    kinds = draw(st.sampled_from([("int",), ("float",), ("int", "float"), ("count", "int")]))
    same_rows, same_cols = draw(st.booleans()), draw(st.booleans())
    rows = draw(gen.unique_labels(1, 4, POOL)) if same_rows else None
    cols = draw(gen.unique_labels(1, 5, POOL)) if same_cols else None
    turn = draw(st.sampled_from(["", "", "rows", "cols", "both"]))     # the same labels in another order

    def axis(labels, name):
        return labels and (list(draw(st.permutations(labels))) if turn in (name, "both") else labels)
    ms = [gen.roomy(draw(gen.matrix(max_rows=4, max_cols=5, rows=axis(rows, "rows"), cols=axis(cols, "cols"), kinds=kinds, pool=POOL))) for _ in range(n)]
    return {"ms": ms, "order": draw(st.permutations(list(range(n)))), "transposed": draw(st.booleans())}


def check(got, tables, rows, cols, what):
    r, c, v, _ = got
    assert r == rows, "%s: rows %r, expected %r" % (what, r, rows)
    assert c == cols, "%s: columns %r, expected %r" % (what, c, cols)
    for k in v:
        parts = [t[k] for t in tables if k in t]
        want = sum(parts)
        tol = 1e-5 * sum(abs(x) for x in parts) if any(isinstance(x, float) for x in parts) else 0
        assert abs(v[k] - want) <= tol, "%s: cell %r is %r, expected %r = %r" % (what, k, v[k], want, parts)


def union(lists):
    return lists[0] if all(l == lists[0] for l in lists) else sorted(set().union(*lists))


def body(case, ctx):
    ds = case["ms"]
    ms = [model.build(d) for d in ds]
    if case["transposed"]:
        ms = [m.transpose() for m in ms]
    snaps = [model.snapshot(m) for m in ms]
    before = [model.frozen(m) for m in ms]
    tables = [s[2] for s in snaps]
    rowl, coll = [s[0] for s in snaps], [s[1] for s in snaps]
    same = all(r == rowl[0] for r in rowl) and all(c == coll[0] for c in coll)
    empty = not any(s[3] for s in snaps)
    srows, scols = sorted(set().union(*rowl)), sorted(set().union(*coll))

    def wrap(res):
        spmx, r, c = res
        from nephosem import TypeTokenMatrix
        return model.snapshot(TypeTokenMatrix(spmx, r, c))
    if same or not empty:
        exp = (rowl[0], coll[0]) if same else (srows, scols)
        check(wrap(mxutils.merge_matrices(ms)), tables, exp[0], exp[1], "merge_matrices")
        perm = [ms[i] for i in case["order"]]
        check(wrap(mxutils.merge_matrices(perm)), tables, exp[0], exp[1], "merge_matrices in another order")
    if len(ms) >= 2:
        a, b = ms[0], ms[1]
        if rowl[0] == rowl[1]:
            for x, y in ((a, b), (b, a)):
                m = mxutils.merge_two_matrices(x, y)
                check(model.snapshot(m), tables[:2], rowl[0], union(coll[:2]), "merge_two_matrices")
            # and on: the result is a matrix like any other
            if len(ms) > 2 and rowl[2] == rowl[0]:
                m = mxutils.merge_two_matrices(m, ms[2])
                check(model.snapshot(m), tables[:3], rowl[0], union([union(coll[:2]), coll[2]]), "merge of a merge")
            ctx.label("merge_two_matrices")
        if snaps[0][3] or snaps[1][3]:
            for x, y in ((a, b), (b, a)):
                check(model.snapshot(x.merge(y)), tables[:2], sorted(set(rowl[0]) | set(rowl[1])), sorted(set(coll[0]) | set(coll[1])), "merge")
    for i, (m, f) in enumerate(zip(ms, before)):
        assert model.frozen(m) == f, "matrix %d was changed by merging" % i
    ctx.nontrivial(len(ms) >= 2 and len(set.intersection(*[set(s[3]) for s in snaps])) > 0 and any(s[2] for s in snaps))
    ctx.label("%d matrices" % len(ms), "same labels" if same else "same labels in another order" if all(set(r) == set(rowl[0]) for r in rowl) and all(set(c) == set(coll[0]) for c in coll) else "different labels", "some empty" if any(not s[3] for s in snaps) else "none empty")


@st.composite
def large_cases(draw):
    """Matrices that share the labels of one large table: all of them, or a part each; together all."""
    n, k = draw(large.size), draw(st.sampled_from([1, 2, 3, 6, 64]))
    c = {"labels": [n, k] if draw(st.integers(0, 3)) == 0 else [k, n], "seed": draw(st.integers(0, 10 ** 6)), "sorted": draw(st.booleans()), "transposed": draw(st.booleans())}
    m = draw(st.integers(2, 4))
    axes = st.sampled_from(["same", "part", "part", "halves", "turned"])
    c["ms"] = [dict(draw(large.spec(dtype="int64", kinds=("int", "count"))), axes=[draw(st.sampled_from(["same", "same", "same", "part"])), draw(axes)]) for _ in range(m)]
    c["order"] = draw(st.permutations(list(range(m))))
    return c


def expanded(case):
    rnd = random.Random(case["seed"])
    names = [("w%d" if case["sorted"] else "w%03d") % i for i in range(300)]
    univ = [names[:case["labels"][0]], names[:case["labels"][1]]]
    out = []
    for i, d in enumerate(case["ms"]):
        own = []
        for labels, how in zip(univ, d["axes"]):
            ls = list(labels)
            if how == "turned":
                ls = ls[::-1]
            elif how == "halves":
                ls = ls[i % 2::2] or ls
            elif how == "part":
                a, b = sorted(rnd.sample(range(len(ls) + 1), 2)) if len(ls) > 1 else (0, 1)
                ls = ls[:max(a, 1)] if i % 2 else ls[min(a, len(ls) - 1):]
            own.append(ls)
        out.append(large.expand(dict(d, seed=d["seed"] + i), rows=own[0], cols=own[1]))
    return dict(case, ms=out)


LAWS = [Law("merge", cases(), body, quick=7000, thorough=250000, shards=8,
            rule="one to four matrices with equal, overlapping or disjoint labels and mixed number types; non-trivial if at least two share a stored cell"),
        Law("large", large_cases(), lambda c, ctx: body(expanded(c), ctx), quick=480, thorough=9600, shards=8,
            rule="the same with matrices of up to 300 rows or columns (sizes around powers of two), values around the limits of small types; non-trivial as above")]
ASSUMPTIONS = ["the type of the matrices has room for the sums", "merge_two_matrices is used for equal row labels only (others are not implemented)",
               "Boolean matrices are not merged (True + True is True there)", "matrices with different labels that store nothing at all are rejected with an error"]
