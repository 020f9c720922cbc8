"""P20: token vectors."""
import math
import random
from hypothesis import strategies as st
from lib import fakemp
fakemp.install()
from lib import gen, large, model
from lib.core import Law
from nephosem.specutils import mxcalc


@st.composite
def cases(draw):
    mid = draw(gen.unique_labels(1, 6))
    left = draw(gen.matrix(max_rows=4, cols=mid, kinds=("float", "count", "float")))
    if draw(st.integers(0, 2)):
        left["cells"] = [[i, j, abs(v)] for i, j, v in left["cells"]]
    right = draw(gen.matrix(rows=mid, max_cols=5, kinds=("float", "count", "float")))
    right["cells"] = [[i, j, v if abs(v) > 1e-3 else 0] for i, j, v in right["cells"]]
    left["cells"] = [[i, j, v if abs(v) > 1e-3 else 0] for i, j, v in left["cells"]]
    op = draw(st.sampled_from(["addition", "weightedmean", "multiplication"]))
    left, right = (gen.roomy(d, 30 if op == "multiplication" else 2 ** 24 + 1) for d in (left, right))
    return {"l": left, "r": right, "op": op, "norm": draw(st.sampled_from(["l1", "l2", "no"])),
            "perm": draw(st.integers(0, 10 ** 6)), "bad": draw(st.sampled_from(["no"] * 8 + ["missing", "more", "other"])), "defaults": draw(st.booleans())}


def reorder_rows(d, n):
    p = list(range(len(d["rows"])))
    random.Random(n).shuffle(p)
    inv = {old: new for new, old in enumerate(p)}
    return dict(d, rows=[d["rows"][i] for i in p], cells=[[inv[i], j, v] for i, j, v in d["cells"]])


def body(case, ctx):
    l, r = case["l"], case["r"]
    op, norm = case["op"], case["norm"]
    tl, tr = model.table(l), model.table(r)
    for t in l["rows"]:
        total, size = math.fsum(tl[t, w] for w in l["cols"]), math.fsum(abs(tl[t, w]) for w in l["cols"])
        if op == "weightedmean" and abs(total) < 1e-3 * size:       # weights that cancel out have no mean
            ctx.label("weights cancel out")
            return
    if case["bad"] != "no":
        rows = list(r["rows"])
        if case["bad"] == "missing":
            if len(rows) == 1:
                return
            bad = dict(r, rows=rows[:-1], cells=[c for c in r["cells"] if c[0] < len(rows) - 1])
        else:
            bad = dict(r, rows=rows + ["<more>"] if case["bad"] == "more" else rows[:-1] + ["<other>"])
        try:
            mxcalc.compute_token_vectors(model.build(l), model.build(reorder_rows(bad, case["perm"])), operation=op, normalization=norm)
        except ValueError:
            ctx.label("rejected")
            return
        raise AssertionError("matrices over %r and %r were combined" % (l["cols"], bad["rows"]))
    r2 = reorder_rows(r, case["perm"])
    a, b = model.build(l), model.build(r2)
    fa, fb = model.frozen(a), model.frozen(b)
    kw = {"operation": op, "normalization": norm}
    if case["defaults"]:
        kw = {k: v for k, v in kw.items() if v not in ("addition", "l1")}
    got = mxcalc.compute_token_vectors(a, b, **kw)
    rows, cols, v, _ = model.snapshot(got)
    assert rows == l["rows"] and cols == r["cols"], "labels"
    f32 = "float32" in (l["dtype"], r["dtype"])
    rtol = 1e-4 if f32 else 1e-9
    for t in rows:
        want, scale = {}, {}
        total = math.fsum(tl[t, w] for w in l["cols"])
        for k in cols:
            fs = [(tl[t, w], tr[w, k]) for w in l["cols"]]
            if op == "multiplication":
                want[k] = math.prod(x * y for x, y in fs if x and y)
                scale[k] = abs(want[k])
            else:
                s, ab = math.fsum(x * y for x, y in fs), math.fsum(abs(x * y) for x, y in fs)
                if op == "weightedmean":
                    s, ab = (s / total, ab / abs(total)) if total else (0.0, 0.0)
                want[k], scale[k] = s, ab
        if norm != "no":
            n = math.fsum(abs(x) for x in want.values()) if norm == "l1" else math.sqrt(math.fsum(x * x for x in want.values()))
            err = sum(scale.values())
            if n and n < 1e-3 * err:
                continue        # cancellation: the direction is numerical noise
            if not n and err:
                continue
            if n:
                want = {k: x / n for k, x in want.items()}
                scale = {k: err / n for k in scale}
        for k in cols:
            assert abs(v[t, k] - want[k]) <= 1e-12 + rtol * max(scale[k], abs(want[k])), "%s/%s of token %r in %r: %r, expected %r" % (op, norm, t, k, v[t, k], want[k])
    assert (model.frozen(a), model.frozen(b)) == (fa, fb), "the input matrices were changed"
    ctx.nontrivial(len(l["cols"]) >= 2 and sum(1 for w in l["cols"] for t in rows for k in cols if tl[t, w] and tr[w, k]) >= 3)
    ctx.label(op, norm, "permuted" if r2["rows"] != l["cols"] else "same order", "empty token" if any(not any(tl[t, w] for w in l["cols"]) for t in rows) else "no empty token")


@st.composite
def large_cases(draw):
    c = draw(cases())
    kinds = ("float",) if c["op"] == "multiplication" else ("float", "count")
    n, k = draw(large.size), draw(large.size)
    c["l"], c["r"] = (draw(large.spec(kinds=kinds)) for _ in "lr")
    c["dims"] = draw(st.sampled_from([[3, n, 4], [2, n, 1], [n, 5, 3], [4, 3, n], [1, n, 6]]))
    return c


def large_body(case, ctx):
    t, n, k = case["dims"]
    import random
    lab = lambda m, s: large.labels(m, 0, random.Random(s), True)
    mid = lab(n, 1)
    small = lambda d: dict(d, cells=[[i, j, abs(v) if abs(v) > 1e-3 else 0] for i, j, v in d["cells"]])
    left, right = small(large.expand(case["l"], lab(t, 2), mid)), small(large.expand(case["r"], mid, lab(k, 3)))
    if case["op"] == "multiplication":      # products of a few factors only
        left["cells"] = [c for c in left["cells"] if c[1] % max(1, n // 8) == 0]
    left, right = (gen.roomy(d, 2 ** 24 + 1) for d in (left, right))
    body(dict(case, l=left, r=right), ctx)


LAWS = [Law("vectors", cases(), body, quick=6000, thorough=150000, shards=8,
            rule="token weights and second-order values over the same (permuted) or different context words, operation and norm; non-trivial if at least three pairs of non-zero factors meet"),
        Law("large", large_cases(), large_body, quick=120, thorough=3000, shards=8,
            rule="the same with up to 300 context words, tokens or columns; non-trivial as above")]
ASSUMPTIONS = ["the type of the matrices has room for the products and sums", "weights of a token do not cancel out in a weighted mean", "both matrices are sparse", "the product over no factors is 1"]
