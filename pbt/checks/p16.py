"""P16: association scores against the formulas on each cell's contingency table."""
import math
import random
import scipy.sparse as sp
from hypothesis import strategies as st
from lib import fakemp
fakemp.install()
from lib import gen, large, model
from lib.core import Law
from nephosem import Vocab
from nephosem.specutils import mxcalc

MEAS = ["pmi", "ppmi", "lik", "llik", "chisq", "zscore", "dice", "deltap", "deltapColl", "logratio"]


@st.composite
def cases(draw):
    m = draw(gen.matrix(max_rows=5, max_cols=5, kinds=("count",), zeros=False))
    big = draw(st.sampled_from([1, 1, 1, 1000, 10 ** 6]))
    if big > 1:
        m["cells"] = [[i, j, v * draw(st.sampled_from([1, 7, big]))] for i, j, v in m["cells"]]
        m["dtype"] = "int64"
    ext = st.lists(st.integers(0, 40), min_size=5, max_size=5)
    if big == 1 and draw(st.integers(0, 4)) == 0:      # frequencies that are no whole numbers
        m["dtype"] = "float64"
        m["cells"] = [[i, j, v + draw(st.sampled_from([0, 0.25, 0.5, -0.75]))] for i, j, v in m["cells"]]
    return {"m": m, "rx": draw(ext), "cx": draw(ext), "zr": draw(st.integers(0, 60)), "zc": draw(st.integers(0, 60)), "N": draw(st.one_of(st.none(), st.integers(0, 500))),
            "meas": draw(st.sampled_from(MEAS)), "rows": draw(st.one_of(st.none(), st.integers(0, 10 ** 6))), "cols": draw(st.one_of(st.none(), st.integers(0, 10 ** 6))),
            "zero": draw(st.booleans()), "levels": draw(st.one_of(st.none(), st.lists(st.integers(0, 6), min_size=2, max_size=3))),
            "flat": draw(st.booleans()), "parts": draw(st.sampled_from([None, None, 2, 4, 10]))}


def score(meas, o11, R1, C1, N):
    o12, o21 = R1 - o11, C1 - o11
    R2, C2 = N - R1, N - C1
    o22 = R2 - o21
    e11 = R1 * C1 / N
    if meas in ("pmi", "ppmi"):
        p = math.log(o11 * N / (R1 * C1)) if o11 else -math.inf
        return p if meas == "pmi" else max(0.0, p)
    if meas in ("lik", "llik"):
        return 2 * sum(o * math.log(o * N / (r * c)) for o, r, c in ((o11, R1, C1), (o12, R1, C2), (o21, R2, C1), (o22, R2, C2)) if o)
    if meas == "chisq":
        return sum((o - r * c / N) ** 2 / (r * c / N) for o, r, c in ((o11, R1, C1), (o12, R1, C2), (o21, R2, C1), (o22, R2, C2)))
    if meas == "zscore":
        return (o11 - e11) / math.sqrt(e11)
    if meas == "dice":
        return 2 * o11 / (R1 + C1)
    if meas == "deltap":
        return o11 / R1 - o21 / R2
    if meas == "deltapColl":
        return o11 / C1 - o12 / C2
    if meas == "logratio":
        return math.log((o11 / R1) / (o21 / R2)) if o21 else 0.0
    raise KeyError(meas)


def some(labels, n):
    if n is None:
        return list(labels)
    r = random.Random(n)
    return r.sample(list(labels), r.randint(1, len(labels)))


def near(got, want, scale, what):
    assert abs(got - want) <= 2e-6 * max(1e-3, abs(want), scale), "%s: %r, expected %r" % (what, got, want)


def body(case, ctx):
    d = case["m"]
    meas = case["meas"]
    rows, cols = d["rows"], d["cols"]
    if case.get("flat"):
        d = dict(d, cells=[[i, j, 2] for i, j, v in d["cells"]])
    freq = model.stored(d)
    nf = {r: sum(v for (a, _), v in freq.items() if a == r) + case["rx"][i % 5] for i, r in enumerate(rows)}
    cf = {c: sum(v for (_, b), v in freq.items() if b == c) + case["cx"][j % 5] for j, c in enumerate(cols)}
    lv = case.get("levels")
    if lv:
        # a few frequencies shared by rows and columns
        base = max(list(nf.values()) + list(cf.values()) + [0])
        nf = {r: base + lv[case["rx"][i % 5] % len(lv)] for i, r in enumerate(rows)}
        cf = {c: base + lv[case["cx"][j % 5] % len(lv)] for j, c in enumerate(cols)}
    if case.get("parts"):
        # frequencies that are no whole numbers
        nf = {r: v + (case["rx"][i % 5] % case["parts"]) / case["parts"] for i, (r, v) in enumerate(nf.items())}
        cf = {c: v + (case["cx"][j % 5] % case["parts"]) / case["parts"] for j, (c, v) in enumerate(cf.items())}
    nf["<other>"], cf["<other>"] = case["zr"], case["zc"]
    # the grand total has to leave room for every table
    need = max([nf[r] + cf[c] - freq.get((r, c), 0) + 1 for r in rows for c in cols] + [x + 1 for x in list(nf.values())[:-1] + list(cf.values())[:-1]])
    big = "<other>"
    lack = need - max(sum(nf.values()), sum(cf.values()))
    if lack > 0:
        marg = nf if case["zero"] else cf
        marg[big] += need - sum(marg.values())
    N = max(sum(nf.values()), sum(cf.values()))
    given = None
    if case["N"] is not None:
        given = N = need + case["N"]
    m = model.build(d)
    rs, cs = some(rows, case["rows"]), some(cols, case["cols"])
    if case["rows"] is not None or case["cols"] is not None:
        m = m.submatrix(row=rs, col=cs)
        ctx.label("selected")
    nv, cv = Vocab(nf), Vocab(cf)
    kw = {} if given is None else {"N": given}
    got = mxcalc.compute_association(m, nfreq=nv, cfreq=cv, meas=meas, **kw)
    r2, c2, v2, st2 = model.snapshot(got)
    assert (r2, c2) == (rs, cs), "labels"
    want = {}
    for (r, c), v in freq.items():
        if r in rs and c in cs:
            want[r, c] = score(meas, v, nf[r], cf[c], N)
    assert set(st2) == set(want), "scored cells %r, stored frequencies %r" % (sorted(st2), sorted(want))
    for k, w in want.items():
        near(st2[k], w, N if meas in ("lik", "llik", "chisq") and N > 10 ** 5 else 1, "%s of %r (o11=%r, R1=%r, C1=%r, N=%r)" % (meas, k, freq[k], nf[k[0]], cf[k[1]], N))
    # one table at a time
    for (r, c), w in list(want.items())[:3] if meas != "llik" else ():
        o, R, C = freq[r, c], nf[r], cf[c]
        one = mxcalc.pairwise_association(o, C - o, R - o, N - R - C + o, meas=meas)
        near(one, w, N if meas in ("lik", "chisq") and N > 10 ** 5 else 1, "%s of the single table of %r" % (meas, (r, c)))
    # the routine for (p)pmi only takes the sum of the row marginals as total
    T = sum(nf.values())
    if T >= need:
        a = model.snapshot(mxcalc.compute_ppmi(m, nv, cv))
        b = model.snapshot(mxcalc.compute_association(m, nfreq=nv, cfreq=cv, N=T, meas="ppmi"))
        c = model.snapshot(mxcalc.compute_ppmi(m, nv, cv, positive=False))
        e = model.snapshot(mxcalc.compute_association(m, nfreq=nv, cfreq=cv, N=T, meas="pmi"))
        assert a[:2] == (rs, cs) == c[:2], "labels of compute_ppmi"
        for k in want:
            pmi = score("pmi", freq[k], nf[k[0]], cf[k[1]], T)
            near(a[3].get(k, 0), max(0, pmi), 1, "compute_ppmi of %r" % (k,))
            near(b[3].get(k, 0), max(0, pmi), 1, "ppmi of %r" % (k,))
            near(c[3].get(k, 0), pmi, 1, "pmi of compute_ppmi of %r" % (k,))
            near(e[3].get(k, 0), pmi, 1, "pmi of %r" % (k,))
            near(b[3].get(k, 0), max(0.0, e[3].get(k, 0)), 1, "ppmi against pmi without negatives at %r" % (k,))
        assert set(a[3]) <= set(want) and set(c[3]) <= set(want)
        # default marginals: those of the matrix itself
        sub = {k: v for k, v in freq.items() if k in want}
        if sub:
            s = model.snapshot(mxcalc.compute_ppmi(m))
            S = sum(sub.values())
            for (x, y), v in sub.items():
                R = sum(w for (i, _), w in sub.items() if i == x)
                C = sum(w for (_, j), w in sub.items() if j == y)
                near(s[3].get((x, y), 0), max(0, math.log(v * S / (R * C))), 1, "compute_ppmi without marginals of %r" % ((x, y),))
            z = mxcalc.calc_association(m.matrix, meas="dice").tocoo()
            for i, j, v in zip(z.row, z.col, z.data):
                x, y = rs[i], cs[j]
                R = sum(w for (a_, _), w in sub.items() if a_ == x)
                C = sum(w for (_, b_), w in sub.items() if b_ == y)
                near(v, 2 * sub[x, y] / (R + C), 1, "dice without marginals")
    ctx.nontrivial(len(want) >= 2)
    ctx.label(meas, "shared levels" if lv else "margins apart", "fractions" if case.get("parts") else "whole", "N given" if given else "N default", "large" if N > 10 ** 5 else "small")


@st.composite
def large_cases(draw):
    c = draw(cases())
    c["m"] = draw(large.spec(kinds=("count",), dtype="int64"))
    return c


LAWS = [Law("scores", cases(), body, quick=5000, thorough=120000, shards=8,
            rule="a frequency matrix with marginals and total, a measure, a selection of rows and columns; non-trivial if two or more cells are scored"),
        Law("large", large_cases(), large.running(body, "m"), quick=96, thorough=2400, shards=8,
            rule="the same with up to 300 rows or columns; non-trivial as above")]
ASSUMPTIONS = ["every contingency table is proper: no negative cell and no zero margin", "scores are single precision numbers", "log-ratio of a pair where the collocate never occurs elsewhere is 0"]
