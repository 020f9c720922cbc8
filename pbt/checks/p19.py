"""P19: token weights."""
import numpy as np
from hypothesis import strategies as st
from lib import fakemp
fakemp.install()
from lib import gen, large, model
from lib.core import Law
from nephosem.specutils import mxcalc

LEMMAS = ["a", "b", "ab", "é", "A"]
POSS = ["N", "V", "a"]
FIDS = ["f1", "d/f1", "d/e/f3.x", "N/V"]


@st.composite
def cases(draw):
    fmt = draw(st.sampled_from(["lemma/pos", "lemma/pos", "lemma"]))
    types = [l + "/" + p for l in LEMMAS for p in POSS] if fmt == "lemma/pos" else LEMMAS
    some = draw(st.lists(st.sampled_from(types), min_size=1, max_size=4, unique=True))
    toks = draw(st.lists(st.tuples(st.sampled_from(some + types[:3] + [t.swapcase() for t in some] + [t + "x" for t in some]), st.sampled_from(FIDS), st.integers(1, 20)), min_size=1, max_size=6, unique=True))
    toks = list(dict.fromkeys("%s/%s/%d" % t for t in toks))
    cols = draw(gen.unique_labels(1, 6))
    tc = draw(gen.matrix(rows=toks, cols=cols, kinds=("int", "int", "float"), zeros=False))
    tc["cells"] = [[i, j, v or 1] for i, j, v in tc["cells"]]
    tw = draw(gen.matrix(rows=some, cols=cols, kinds=("float", "int", "float")))
    tc, tw = gen.roomy(tc), gen.roomy(tw)
    return {"tc": tc, "tw": tw, "fmt": fmt, "bool": draw(st.booleans()), "cols": draw(st.sampled_from(["same", "same", "same", "permuted", "missing", "more", "other"])), "defaults": draw(st.booleans())}


def body(case, ctx):
    tc, tw = case["tc"], dict(case["tw"])
    cols = list(tw["cols"])
    how = case["cols"]
    if how == "permuted":
        tw["cols"] = cols[1:] + cols[:1]
    elif how == "missing" and len(cols) > 1:
        tw["cols"] = cols[:-1]
        tw["cells"] = [c for c in tw["cells"] if c[1] < len(cols) - 1]
    elif how == "more":
        tw["cols"] = cols + ["<more>"]
    elif how == "other":
        tw["cols"] = cols[:-1] + ["<other>"]
    a, b = model.build(tc), model.build(tw)
    fa, fb = model.frozen(a), model.frozen(b)
    kw = {"booleanize": case["bool"], "tokenFormat": case["fmt"]}
    if case["defaults"]:
        if kw["booleanize"]:
            del kw["booleanize"]
        if kw["tokenFormat"] == "lemma/pos":
            del kw["tokenFormat"]
    if tw["cols"] != tc["cols"]:
        try:
            mxcalc.compute_token_weights(a, b, **kw)
        except ValueError:
            ctx.label("rejected")
            return
        raise AssertionError("matrices over %r and %r were combined" % (tc["cols"], tw["cols"]))
    got = mxcalc.compute_token_weights(a, b, **kw)
    r, c, v, _ = model.snapshot(got)
    assert (r, c) == (tc["rows"], tc["cols"]), "labels"
    pos, wgt = model.table(tc), model.table(tw)
    depth = 2 if case["fmt"] == "lemma/pos" else 1
    want = {}
    for t in r:
        ty = "/".join(t.split("/")[:depth])
        for k in c:
            w = wgt.get((ty, k), 0) if pos[t, k] else 0
            want[t, k] = w * (1 if case["bool"] else pos[t, k])
    model.same_table(v, want, rtol=1e-6 if "float32" in (tw["dtype"], tc["dtype"]) else 1e-12, what="weight")
    assert (model.frozen(a), model.frozen(b)) == (fa, fb), "the input matrices were changed"
    ctx.nontrivial(sum(1 for x in want.values() if x) >= 2)
    ctx.label(case["fmt"], "booleanized" if case["bool"] else "stored values", "unknown types" if any("/".join(t.split("/")[:depth]) not in tw["rows"] for t in r) else "all types known")


@st.composite
def dict_cases(draw):
    c = draw(cases())
    c["tc"]["rows"] = list(dict.fromkeys("%s/%s/%s" % ("/".join(t.split("/")[:2 if c["fmt"] == "lemma/pos" else 1]), "f%d" % i, t.split("/")[-1]) for i, t in enumerate(c["tc"]["rows"])))
    c["tc"]["cells"] = [[i, j, 1 + (i + 2 * j) % 7] for i, j, v in c["tc"]["cells"]]
    return c


def dict_body(case, ctx):
    """build_tc_weight_matrix: the same by labels, for columns in any order (the columns are those of the weights)."""
    from nephosem.models.typetoken import build_tc_weight_matrix
    tc, tw = case["tc"], dict(case["tw"])
    cols, how = list(tw["cols"]), case["cols"]
    if how == "permuted":
        tw["cols"] = cols[1:] + cols[:1]
    elif how == "missing" and len(cols) > 1:
        tw["cols"], tw["cells"] = cols[:-1], [c for c in tw["cells"] if c[1] < len(cols) - 1]
    elif how in ("more", "other"):
        tw["cols"] = cols[:len(cols) - (how == "other")] + ["<%s>" % how]
    a, b = model.build(tc), model.build(tw)
    fa, fb = model.frozen(a), model.frozen(b)
    pos, wgt = model.table(tc), model.table(tw)
    try:
        m = build_tc_weight_matrix(a, b)
    except ValueError:      # nothing there to transfer
        assert not any(v and wgt.get(("/".join(t.split("/")[:-2]), k), 0) for (t, k), v in pos.items()), "rejected, although there are weights"
        ctx.label("rejected")
        return
    r, c, v, _ = model.snapshot(m)
    assert (r, c) == (tc["rows"], tw["cols"]), "labels"
    want = {(t, k): wgt.get(("/".join(t.split("/")[:-2]), k), 0) if pos.get((t, k)) else 0 for t in r for k in c}
    model.same_table(v, want, what="weight")
    assert (model.frozen(a), model.frozen(b)) == (fa, fb), "the input matrices were changed"
    ctx.nontrivial(sum(1 for x in want.values() if x) >= 2)
    ctx.label(how)


@st.composite
def large_cases(draw):
    c = draw(cases())
    c["cols"] = draw(st.sampled_from(["same", "same", "same", c["cols"]]))
    c["tc"] = draw(large.spec(kinds=("int",), dtype="int64"))
    c["tw"] = draw(large.spec(kinds=("float", "count"), dtype="float64"))
    n = draw(large.size)
    c["dims"] = draw(st.sampled_from([[n, 3, 4], [5, n, 3], [n, n, 2], [4, 3, n]]))
    return c


def large_body(case, ctx):
    import random
    ntok, ntyp, ncol = case["dims"]
    cut = 2 if case["fmt"] == "lemma/pos" else 1
    types = ["/".join(["w%d" % i, POSS[i % 3]][:cut]) for i in range(ntyp)]
    random.Random(1).shuffle(types)
    toks = ["%s/%s/%d" % (types[(i * 7) % ntyp], FIDS[i % 4], i * 101) for i in range(ntok)]
    cols = large.labels(ncol, 0, random.Random(2), True)
    tc, tw = large.expand(case["tc"], toks, cols), large.expand(case["tw"], types, cols)
    tc["cells"] = [[i, j, v or 1] for i, j, v in tc["cells"]]
    body(dict(case, tc=gen.roomy(tc), tw=gen.roomy(tw)), ctx)


LAWS = [Law("weights", cases(), body, quick=6000, thorough=150000, shards=8,
            rule="token positions and type weights over equal, permuted or different columns; non-trivial if two or more weights are transferred"),
        Law("by-dictionary", dict_cases(), dict_body, quick=2000, thorough=50000, shards=4,
            rule="build_tc_weight_matrix over equal, permuted or different columns; non-trivial if two or more weights are transferred"),
        Law("large", large_cases(), large_body, quick=160, thorough=4000, shards=8,
            rule="the same with up to 300 tokens, types or context words; non-trivial as above")]
ASSUMPTIONS = ["the type of the matrices has room for the products and sums", "token labels are lemma/pos/file/line or lemma/file/line (file names may contain slashes)", "positions are not 0", "both matrices are sparse"]
