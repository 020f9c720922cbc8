"""P32: the vectorizers give what their steps give one after another, computed from the corpus by the definitions."""
import math
import re
from hypothesis import strategies as st
from lib import corp, fakemp
fakemp.install()
from lib import gen, model as M
from lib.core import Law
from checks.p16 import score, MEAS
from checks.p04 import enrich
from nephosem import Vocab
from nephosem.models.typetoken import TypeVectorizer, TokenVectorizer


def base(draw, slash):
    c = draw(gen.corpus(max_files=3, max_lines=12, min_files=1, slash=slash))
    c["settings"]["colloc"] = c["settings"]["type"]
    if draw(st.booleans()):
        del c["settings"]["colloc"]
    if draw(st.integers(0, 3)):
        for k in ("left-span", "right-span"):
            c["settings"][k] = max(1, c["settings"][k])
    enrich(c, "freq", draw)
    lm = re.compile(c["settings"]["line-machine"])
    lines = sorted({l for f in c["files"] for l in f[1] if lm.match(l.strip())})
    names = draw(st.permutations(["a", "b", "ab", "A", "the", "c"]))
    for k in range(draw(st.sampled_from([0, 2, 3, 4]))):
        lines.append("\t".join("NVn"[k % 3] if col == "pos" else names[k] for col in c["cols"]))
    if lines:
        for f in c["files"]:
            f[1] = f[1] + draw(st.lists(st.sampled_from(lines), min_size=2, max_size=14))
    c["sched"] = draw(gen.schedule)
    c["cpus"] = draw(st.sampled_from([1, 2, 4, 9]))
    return c


@st.composite
def type_cases(draw):
    c = base(draw, True)
    types = sorted({t.type for _, d in M.read_docs(c) for t in d})
    pick = lambda: draw(st.lists(st.sampled_from(types + ["zz"]), min_size=1, max_size=4, unique=True))
    c["rows"] = pick() if draw(st.booleans()) else None
    c["cols"] = pick() if draw(st.integers(0, 2)) == 0 else None
    c["meas"] = draw(st.sampled_from(MEAS))
    c["how"] = draw(st.sampled_from(["list", "none"]))
    return c


def type_body(case, ctx):
    sett, names = M.write_corpus(case, ctx.dir())
    freq = M.item_freq(case)
    rows = case["rows"] if case["rows"] is not None else sorted(freq)
    cols = case["cols"] if case["cols"] is not None else rows
    want = M.cooc(case, rows, cols)
    kw = {}
    if case["rows"] is not None:
        kw["row_vocab"] = corp.vocab(case["rows"])
    if case["cols"] is not None:
        kw["col_vocab"] = corp.vocab(case["cols"])
    fn = names if case["how"] == "list" else None
    with fakemp.scheduled(case["sched"], case["cpus"]) as s:
        tv = TypeVectorizer(settings=sett, **kw)
        if case["rows"] is None:
            v = tv.build_vocab(fnames=fn)
            assert {k: v[k] for k in v.keys()} == freq, "vocabulary %r, expected %r" % ({k: v[k] for k in v.keys()}, freq)
        m = tv.fit(fnames=fn)
    if not want:
        assert m is None or not M.snapshot(m)[3], "counts out of nowhere"
        ctx.label("nothing counted")
        return
    r, c, cells, _ = M.snapshot(m)
    assert r == sorted(rows) and c == sorted(cols), "labels %r x %r; worker errors %s" % (r, c, s.crashes)
    M.same_table(cells, {(a, b): want.get((a, b), 0) for a in r for b in c})
    R, C, N = {}, {}, sum(want.values())
    for (a, b), n in want.items():
        R[a], C[b] = R.get(a, 0) + n, C.get(b, 0) + n
    meas = case["meas"]
    try:
        vec = tv.vectorize(meas=meas)
    except ZeroDivisionError:
        if max(list(R.values()) + list(C.values())) < N:
            raise
        ctx.label("improper tables")
        return
    vr, vc, _, st2 = M.snapshot(vec)
    assert (vr, vc) == (r, c), "labels of the vectors"
    assert set(st2) == set(want), "scored cells"
    checked = 0
    for (a, b), n in want.items():
        if R[a] == N or C[b] == N:
            continue
        w = score(meas, n, R[a], C[b], N)
        checked += 1
        assert abs(st2[a, b] - w) <= 2e-6 * max(1e-3, abs(w), 1), "%s of %r: %r, expected %r" % (meas, (a, b), st2[a, b], w)
    ctx.nontrivial(checked >= 2)
    ctx.label(meas, "vocabularies given" if kw else "no vocabulary given")


@st.composite
def token_cases(draw):
    c = base(draw, False)
    parts = c["settings"]["type"].split("/")[:2]
    c["settings"]["type"] = "/".join(parts)
    c["settings"].pop("colloc", None)
    c["settings"]["token"] = c["settings"]["type"] + "/fid/lid"
    types = sorted({t.type for _, d in M.read_docs(c) for t in d}) or ["zz"]
    c["concepts"] = {}
    for name in draw(st.lists(st.sampled_from(["A", "B", "é"]), min_size=1, max_size=2, unique=True)):
        c["concepts"][name] = draw(st.lists(st.sampled_from(types), min_size=1, max_size=3, unique=True))
    c["cut"] = [draw(st.sampled_from([0, 0, 1])), draw(st.sampled_from([0.0, 0.0, 0.31, 0.7])), draw(st.sampled_from([0.0, 0.0, 0.37, 1.1]))]
    c["defaults"] = draw(st.booleans())
    return c


def token_model(case, variants, freq, R, C, N):
    """None if a value lies on a threshold or a table is improper, otherwise (rows, columns, {token: weights}, second-order values)."""
    fcut, pcut, lcut = case["cut"]
    keep = {}
    for (a, b), n in freq.items():
        if a not in variants or n <= fcut:
            continue
        if R[a] == N or C[b] == N:
            return None
        p, l = score("pmi", n, R[a], C[b], N), score("lik", n, R[a], C[b], N)
        if abs(p - pcut) < 1e-5 or abs(l - lcut) < 1e-4:
            return None
        if p > pcut and l > lcut:
            keep[a, b] = p
    toks = M.tokens(case, variants)
    seen = {c.colloc for _, _, left, right in toks for c in left + right}
    cols = {b for _, b in keep} & seen
    weights = {}
    for label, ty, left, right in toks:
        w = {c.colloc: keep[ty, c.colloc] for c in left + right if c.colloc in cols and (ty, c.colloc) in keep}
        if w:
            weights[label] = w
    soc = {}
    for (a, b), n in freq.items():
        if a in cols:
            soc[a, b] = score("ppmi", n, R[a], C[b], N)
    return cols, weights, soc


def token_body(case, ctx):
    sett, names = M.write_corpus(case, ctx.dir())
    allv = sorted({v for vs in case["concepts"].values() for v in vs})
    toks = M.tokens(case, allv)
    labels = [w[0] for w in toks]
    if len(set(labels)) != len(labels):
        ctx.label("ambiguous labels")
        return
    types = sorted(M.item_freq(case))
    freq = M.cooc(case, types)
    if not any(w[2] or w[3] for w in toks):
        ctx.label("no contexts")
        return
    R, C, N = {}, {}, sum(freq.values())
    for (a, b), n in freq.items():
        R[a], C[b] = R.get(a, 0) + n, C.get(b, 0) + n
    want = {}
    for name, vs in case["concepts"].items():
        t = token_model(case, vs, freq, R, C, N)
        if t is None:
            ctx.label("value on a threshold or improper table")
            return
        if not t[1]:
            ctx.label("nothing left")
            return
        want[name] = t
    f, p, l = case["cut"]
    kw = {} if case["defaults"] and not any(case["cut"]) else {"freq_cutoff": f, "ppmi_cutoff": p, "llr_cutoff": l}
    with fakemp.scheduled(case["sched"], case["cpus"]) as s:
        freqm = TypeVectorizer(settings=sett).fit(fnames=names)
        before = M.frozen(freqm)
        tk = TokenVectorizer(case["concepts"], settings=sett)
        nodes = tk.retrieve_tokens(fnames=names)
    assert set(nodes) == set(case["concepts"]), "concepts %r" % (sorted(nodes),)
    for name, vs in case["concepts"].items():
        assert [str(v) for v in nodes[name]] == list(vs), "variants of %r: %r, expected %r" % (name, nodes[name], vs)
        for v in nodes[name]:
            assert sorted(str(t) for t in v.tokens) == sorted(w[0] for w in toks if w[1] == str(v)), "tokens of %r; worker errors %s" % (v, s.crashes)
    got = tk.generate_vectors(freqm, **kw)
    assert M.frozen(freqm) == before, "the frequency matrix was altered"
    assert set(got) == set(want)
    checked = 0
    for name, (cols, weights, soc) in want.items():
        r, c, cells, _ = M.snapshot(got[name])
        assert sorted(r) == sorted(weights), "%r: tokens %r, expected %r" % (name, sorted(r), sorted(weights))
        assert sorted(c) == types, "%r: columns %r, expected %r" % (name, c, types)
        for t, w in weights.items():
            vec = {b: math.fsum(x * soc[a, b] for a, x in w.items() if (a, b) in soc) for b in types}
            n = math.fsum(abs(x) for x in vec.values())
            if n < 1e-4:        # nothing but second-order associations of zero
                continue
            checked += 1
            for b in types:
                assert abs(cells[t, b] - vec[b] / n) <= 2e-5, "%r, token %r, column %r: %r, expected %r" % (name, t, b, cells[t, b], vec[b] / n)
    ctx.nontrivial(checked >= 2)
    ctx.label("cutoffs %s" % ("default" if not any(case["cut"]) else "given"), "concepts=%d" % len(want))


LAWS = [Law("types", type_cases(), type_body, quick=700, thorough=15000, shards=8,
            rule="frequency list, co-occurrence matrix and association scores of a type vectorizer with and without vocabularies; non-trivial if at least two scores are compared"),
        Law("tokens", token_cases(), token_body, quick=900, thorough=20000, shards=8,
            rule="token vectors of concepts with their variants and generated cutoffs; non-trivial if at least two token vectors are compared")]
ASSUMPTIONS = ["token labels start with the type, which has one or two parts (as the transfer of weights presumes)", "collocates and types have the same format (the rows of the second-order matrix are collocates)",
               "cases with a score within 1e-5 of a cutoff, or with a type that accounts for all co-occurrences, are skipped",
               "token vectors that consist of (numerically) zero associations only are not compared"]
