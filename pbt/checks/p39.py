"""P39: the same question asked another way gets the same answer: other divisions and orders of a corpus, detours on the way from counts to distances."""
import os
import re
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st
from lib import fakemp
fakemp.install()
from lib import corp, dep, gen, model as M
from lib.core import Law
from checks.p04 import enrich
from checks import p05
from nephosem import TypeTokenMatrix, Vocab
from nephosem.specutils import mxcalc, mxutils


# ------------------------------------------------------------------ relations between corpora
def own_sep(case):
    return re.compile(case["settings"]["separator-line-machine"])


def divide(case, lines):
    """The documents of a file: lists of lines, each ending with its separator line (but for the last)."""
    lm, sep = re.compile(case["settings"]["line-machine"]), own_sep(case)
    out = [[]]
    for l in lines:
        out[-1].append(l)
        if lm.match(l.strip()) is None and sep.match(l.strip()):
            out.append([])
    return out


def answers(case, root, rows, cols, spans=None, fnames=None):
    """Everything the corpus tasks say about a corpus: frequencies, co-occurrences, the contexts of all tokens."""
    os.makedirs(root)
    sett, names = M.write_corpus(case, root)
    if spans:
        sett["left-span"], sett["right-span"] = spans
    if fnames:
        names = [names[i] for i in fnames]
    v, s = corp.item_freq(sett, names, case["workers"], case["sched"])
    freq = {k: v[k] for k in v.keys()}
    m, s = corp.col_freq(sett, names, rows, cols, case["workers"], case["sched"])
    counts = {} if m is None else {k: x for k, x in M.snapshot(m)[2].items() if x}
    return freq, counts, sett, names


def contexts(sett, names, case, queries, cols):
    """{type: sorted [(left words, right words)]} of all tokens, and {(token, collocate)} with a value."""
    try:
        m, h, s = corp.tokens(sett, names, queries, cols, case["workers"], case["sched"])
    except ValueError as e:
        if "empty" not in str(e):
            raise
        return None
    r, c, cells, _ = M.snapshot(m)
    ctxs = {q: sorted(([x.to_colloc() for x in t.lcollocs], [x.to_colloc() for x in t.rcollocs]) for t in h.type2toks[q].tokens) for q in h.type2toks}
    own = {str(t): q for q in h.type2toks for t in h.type2toks[q].tokens}
    return ctxs, {(own[a], b) for (a, b), x in cells.items() if x}


def added(*ts):
    out = {}
    for t in ts:
        for k, n in t.items():
            out[k] = out.get(k, 0) + n
    return out


@st.composite
def corpora(draw):
    c = draw(gen.corpus(max_files=3, max_lines=10, min_files=1, slash=False))
    enrich(c, "freq", draw)
    c["workers"] = draw(st.integers(1, 4))
    c["sched"] = draw(gen.schedule)
    types = sorted({t.type for _, d in M.read_docs(c) for t in d})
    cols = sorted({t.colloc for _, d in M.read_docs(c) for t in d})
    pick = lambda xs: draw(st.lists(st.sampled_from(xs), min_size=1, max_size=4, unique=True)) if xs and draw(st.booleans()) else xs
    c["rows"], c["colv"] = pick(types), pick(cols)
    c["relation"] = draw(st.sampled_from(["divided", "joined", "parts", "twice", "mirrored", "turned", "windows", "wider", "renamed", "junk", "tokens", "selection"]))
    c["num"] = draw(st.integers(0, 10 ** 4))
    return c


def renaming(case):
    """A renaming of words that keeps what the patterns of the corpus see of them."""
    words = sorted({x for _, d in M.read_docs(case) for t in d for x in t.cols.values()})
    by = {}
    for w in words:     # only words of the same sort change places
        by.setdefault((bool(re.fullmatch(r"[\w/-]+", w)), len(w) == 1, w[:1] == "<"), []).append(w)
    out = {}
    for ws in by.values():
        k = case["num"] % len(ws)
        out.update(zip(ws, ws[k:] + ws[:k]))
    return out


def corpora_body(case, ctx):
    root = ctx.dir()
    rel, rows, cols, n = case["relation"], case["rows"], case["colv"], case["num"]
    ctx.label(rel)
    if not rows:
        ctx.label("no words")
        return
    L, R = case["settings"]["left-span"], case["settings"]["right-span"]
    freq, counts, sett, names = answers(case, os.path.join(root, "0"), rows, cols)
    other = lambda files, k=1, **kw: answers(dict(case, files=files), os.path.join(root, str(k)), rows, cols, **kw)[:2]
    big = len(counts) >= 2 and sum(counts.values()) >= 3
    ctx.nontrivial(big)
    if rel == "divided":
        files = []
        for p, lines, eol, final in case["files"]:
            for k, doc in enumerate(divide(case, lines)):
                files.append(["x%d/%s" % (k, p), doc, eol, True])
        assert other(files) == (freq, counts), "divided at its separators the corpus gives %r, else %r" % (other(files, 2), (freq, counts))
        ctx.nontrivial(big and len(files) > len(case["files"]))
    elif rel == "joined":
        sep = next((l for l in gen.SEPLINES if own_sep(case).match(l) and not re.match(sett["line-machine"], l)), None)
        if sep is None:
            return
        lines = []
        for p, ls, eol, final in case["files"]:
            lines += ls + [sep]
        assert other([["all.txt", lines, "\n", True]]) == (freq, counts), "all in one file the corpus gives %r, else %r" % (other([["all.txt", lines, "\n", True]], 2), (freq, counts))
        ctx.nontrivial(big and len(case["files"]) > 1)
    elif rel == "parts":
        parts = [other([f], k + 1) for k, f in enumerate(case["files"])]
        got = (added(*[p[0] for p in parts]), added(*[p[1] for p in parts]))
        assert got == (freq, counts), "file by file: %r, at once: %r" % (got, (freq, counts))
        ctx.nontrivial(big and len(case["files"]) > 1)
    elif rel == "twice":
        got = other(case["files"] + [["again/" + f[0]] + f[1:] for f in case["files"]])
        assert got == (added(freq, freq), added(counts, counts)), "everything twice: %r, once: %r" % (got, (freq, counts))
    elif rel == "mirrored":
        files = [[p, ls[::-1], eol, True] for p, ls, eol, final in case["files"]]
        got = other(files, spans=(R, L))
        assert got == (freq, counts), "read backwards: %r, forwards: %r" % (got, (freq, counts))
        ctx.nontrivial(big and L != R)
    elif rel == "turned":
        if case["settings"].get("colloc", case["settings"]["type"]) != case["settings"]["type"]:
            return
        got = answers(case, os.path.join(root, "1"), cols, rows, spans=(R, L))[1]
        assert {(b, a): x for (a, b), x in got.items()} == counts, "from the collocates: %r, from the types: %r" % (got, counts)
    elif rel == "windows":
        k = n % (L + 1)
        one, two, three = (other(case["files"], i + 1, spans=s)[1] for i, s in enumerate(((L, 0), (0, R), (k, R))))
        assert added(one, two) == counts, "left %r and right %r windows do not add up to %r" % (one, two, counts)
        assert all(x <= counts.get(p, 0) for p, x in three.items()), "a narrower window counts more: %r, %r" % (three, counts)
    elif rel == "wider":
        longest = max((len(d) for _, d in M.read_docs(case)), default=0)
        a, b = (other(case["files"], i + 1, spans=(longest + i, longest + 5 * i))[1] for i in (0, 1))
        assert a == b, "windows beyond the end of the documents change the counts: %r, %r" % (a, b)
    elif rel == "renamed":
        new = renaming(case)
        lm, columns = re.compile(case["settings"]["line-machine"]), M.columns(case["settings"])
        if any("$" not in lm.pattern and "[^\t])[^\t]*" in p for p in lm.pattern.split("\t")):
            ctx.label("patterns that see one letter")
            return
        ren = lambda label: "/".join(new[x] for x in label.split("/"))
        files = []
        for p, ls, eol, final in case["files"]:
            out = []
            for l in ls:
                m = lm.match(l.strip())
                if m:
                    l = "\t".join(new[x] for x in m.groups())
                out.append(l)
            files.append([p, out, eol, final])
        if any((lm.match(a.strip()) is None) != (lm.match(b.strip()) is None) for f, g in zip(case["files"], files) for a, b in zip(f[1], g[1])):
            return
        c2 = dict(case, files=files)
        got = answers(c2, os.path.join(root, "1"), [ren(x) for x in rows], [ren(x) for x in cols])[:2]
        want = ({ren(k): x for k, x in freq.items()}, {(ren(a), ren(b)): x for (a, b), x in counts.items()})
        assert got == want, "renamed by %r: %r, expected %r" % (new, got, want)
        ctx.nontrivial(big and any(a != b for a, b in new.items()))
    elif rel == "junk":
        lm, sep = re.compile(sett["line-machine"]), own_sep(case)
        junk = [l for l in ["", "   ", "no columns here", "# a remark", "%"] if not lm.match(l.strip()) and not sep.match(l.strip())]
        files = []
        for i, (p, ls, eol, final) in enumerate(case["files"]):
            out = list(ls)
            for j in range(3):
                out.insert((n * (j + 1) + i) % (len(out) + 1), junk[(n + j) % len(junk)])
            files.append([p, out, eol, True])
        assert other(files) == (freq, counts), "with lines that are no tokens: %r, without: %r" % (other(files, 2), (freq, counts))
    elif rel == "selection":
        one = sorted(rows)[n % len(rows)]
        got = answers(case, os.path.join(root, "1"), [one], None)[1]
        assert {k: x for k, x in got.items() if k[1] in cols} == {k: x for k, x in counts.items() if k[0] == one}, "%r alone: %r, among others: %r" % (one, got, counts)
    elif rel == "tokens":
        labels = [w[0] for w in M.tokens(case, rows, cols)]
        res = contexts(sett, names, case, rows, cols)
        if res is None:
            assert not counts, "tokens have no contexts, but types co-occur: %r" % (counts,)
            return
        ctxs, hits = res
        got = {}
        for q, ts in ctxs.items():
            assert len(ts) == freq.get(q, 0), "%d tokens of %r, frequency %r" % (len(ts), q, freq.get(q, 0))
            for l, r in ts:
                for c in l + r:
                    got[q, c] = got.get((q, c), 0) + 1
        assert got == counts, "contexts of the tokens add up to %r, co-occurrences %r" % (got, counts)
        if len(set(labels)) == len(labels):
            assert hits == set(counts), "cells of the token matrix %r, co-occurrences %r" % (sorted(hits), sorted(counts))


# ------------------------------------------------------------------ the same for dependency corpora
@st.composite
def treebanks(draw):
    c = draw(p05.cases())
    c["mode"] = "type"
    c["macros"] = [m for m in c["macros"]]
    c["relation"] = draw(st.sampled_from(["divided", "shuffled", "twice", "parts", "macros"]))
    c["num"] = draw(st.integers(0, 10 ** 4))
    return c


def table_of(case, root):
    os.makedirs(root)
    sett, names = M.write_corpus(case, root)
    try:
        m, s = corp.dependency(sett, names, case)
    except ValueError as e:
        if "empty" not in str(e):
            raise
        return {}
    return {k: x for k, x in M.snapshot(m)[2].items() if x}


def treebank_body(case, ctx):
    root, rel, n = ctx.dir(), case["relation"], case["num"]
    ctx.label(rel)
    base = table_of(case, os.path.join(root, "0"))
    docs = [(f[0], d) for f in case["files"] for d in divide(case, f[1]) if d]
    ctx.nontrivial(sum(base.values()) >= 2)
    if rel == "divided":
        got = table_of(dict(case, files=[["s%d.txt" % i, d, "\n", True] for i, (_, d) in enumerate(docs)]), os.path.join(root, "1"))
    elif rel == "shuffled":
        docs = [d for _, d in docs]
        out = []
        while docs:
            d = docs.pop(n % len(docs))
            out += d if own_sep(case).match(d[-1].strip()) else d + ["</s>"]
            n = n // 3 + 1
        got = table_of(dict(case, files=[["all.txt", out, "\n", True]]), os.path.join(root, "1"))
    elif rel == "twice":
        got = table_of(dict(case, files=case["files"] + [["again/" + f[0]] + f[1:] for f in case["files"]]), os.path.join(root, "1"))
        base = added(base, base)
    elif rel == "parts":
        got = added(*[table_of(dict(case, files=[f]), os.path.join(root, str(i + 1))) for i, f in enumerate(case["files"])])
    else:
        got = added(*[table_of(dict(case, macros=[m]), os.path.join(root, str(i + 1))) for i, m in enumerate(case["macros"])])
    if rel != "macros" and not ties(case):
        assert got == base, "%s: %r, expected %r" % (rel, got, base)
    else:       # siblings with the same text may be written in any order
        assert sum(got.values()) == sum(base.values()), "%s: %r, expected %r" % (rel, got, base)
        if not ties(case):
            assert got == base, "%s: %r, expected %r" % (rel, got, base)


def ties(case):
    return any(len(fs) > 1 for _, fs in dep.expected_counts(dict(case, targets=None)))


# ------------------------------------------------------------------ detours on the way from counts to distances
dets = st.sampled_from(["pack", "files", "copy", "deepcopy", "rows", "cols", "sub", "transpose", "halves", "sides", "csc", "coo", "dense", "frame", "dict", "merge", "sample", "all", "index"])
detour = st.tuples(dets, st.integers(0, 10 ** 4))


def permuted(items, n):
    items, out = list(items), []
    while items:
        out.append(items.pop(n % len(items)))
        n = n // 2 + 3
    return out


def go(m, det, root):
    """Another matrix that says the same as m."""
    how, n = det
    rows, cols = list(m.row_items), list(m.col_items)
    T = TypeTokenMatrix
    if how in ("pack", "files"):
        f = os.path.join(root, "m%d" % len(os.listdir(root)))
        m.save(f, pack=how == "pack", verbose=False)
        return T.load(f, pack=how == "pack")
    if how == "copy":
        return m.copy()
    if how == "deepcopy":
        return m.deepcopy()
    if how == "rows":
        return m.reorder(permuted(rows, n))
    if how == "cols":
        return m.reorder(permuted(cols, n), axis=1)
    if how == "sub":
        return m.submatrix(row=permuted(rows, n), col=permuted(cols, n + 5))
    if how == "all":
        return m.submatrix(row=rows + ["<nowhere>"], col=["<nowhere>"] + cols)
    if how == "index":
        return m.submatrix(row=permuted(rows, n)).submatrix(col=permuted(cols, n))
    if how == "transpose":
        return m.transpose().submatrix(row=permuted(cols, n)).transpose()
    if how == "halves" and len(rows) > 1:
        k = 1 + n % (len(rows) - 1)
        return m.submatrix(row=rows[k:]).concatenate(m.submatrix(row=rows[:k]))
    if how == "sides" and len(cols) > 1:
        k = 1 + n % (len(cols) - 1)
        return m.submatrix(col=cols[k:]).concatenate(m.submatrix(col=cols[:k]), axis=1)
    if how in ("csc", "coo"):
        return T(m.matrix.tocsc() if how == "csc" else m.matrix.tocoo(), rows, cols)
    if how == "dense":
        return T(sp.csr_matrix(np.asarray(m.todense().matrix)), rows, cols)
    if how == "frame":
        return T.from_dataframe(m.dataframe)
    if how == "dict" and m.matrix.nnz:
        r, c = permuted(rows, n), permuted(cols, n)
        return T(mxutils.transform_dict_to_spmatrix(m.spmatrix_to_dict(), r, c), r, c)
    if how == "merge" and m.matrix.nnz:
        a = m.matrix.tocoo()
        one = np.array([(i * 7 + n) % 2 == 0 for i in range(a.nnz)], dtype=bool)
        part = lambda s: T(sp.csr_matrix((a.data[s], (a.row[s], a.col[s])), shape=a.shape), rows, cols)
        return part(one).merge(part(~one))
    if how == "sample":
        return m.sample(percent=len(rows), seed=n, replace=False) if len(rows) > 1 else m
    return m


def vocab_go(v, det, root):
    how, n = det
    if how in ("pack", "files", "rows"):
        f = os.path.join(root, "v%d" % len(os.listdir(root)))
        v.save(f)
        return Vocab.load(f)
    if how in ("copy", "dense"):
        return v.copy()
    if how == "deepcopy":
        return v.deepcopy()
    if how == "frame":
        return Vocab(v.dataframe)
    if how in ("dict", "csc", "coo"):
        return Vocab({k: v[k] for k in permuted(list(v.keys()), n)})
    if how == "halves":
        ks = sorted(v.keys())
        return Vocab({k: v[k] for k in ks[::-1]})
    return v


@st.composite
def routes(draw):
    parts = draw(st.sampled_from([["a/N", "b/N", "ab/V", "c/V", "é/N", "A/N", "the/D"], ["a", "b", "ab", "c", "é", "A", "the"]]))
    c = {"fmt": "lemma/pos" if "/" in parts[0] else "lemma"}
    items = draw(st.lists(st.sampled_from(parts), min_size=3, max_size=6, unique=True))
    c["items"] = items
    dens = draw(st.sampled_from([1, 2, 3]))
    c["counts"] = [[i, j, draw(st.integers(1, 40))] for i in range(len(items)) for j in range(len(items)) if draw(st.integers(0, 3)) < dens or (i + 1) % len(items) == j]
    c["tokens"] = draw(st.lists(st.tuples(st.integers(0, len(items) - 1), st.lists(st.tuples(st.integers(0, len(items) - 1), st.sampled_from([-3, -2, -1, 1, 2, 3])), min_size=1, max_size=4)), min_size=2, max_size=6))
    c["meas"] = draw(st.sampled_from(["ppmi", "pmi", "lik", "chisq", "zscore", "dice", "logratio", "deltap"]))
    c["rows"] = draw(st.lists(st.sampled_from(items), min_size=1, max_size=6, unique=True))
    c["op"] = draw(st.sampled_from(["addition", "addition", "weightedmean"]))
    c["detours"] = [draw(st.lists(detour, max_size=2)) for _ in range(9)]
    c["metric"] = draw(st.sampled_from(["cosine", "euclidean", "cityblock"]))
    c["axis"] = draw(st.sampled_from([0, 0, 0, 1]))
    c["bool"] = draw(st.booleans())
    return c


def walk(case, det, root):
    """All intermediate results of the way from counts to distances, with the given detours after each step."""
    out = {}

    def step(k, name, m):
        for d in det[k]:
            m = go(m, d, root)
        out[name] = M.snapshot(m)[2]
        return m

    def voc(k, v):
        for d in det[k]:
            v = vocab_go(v, d, root)
        return v
    n = len(case["items"])
    i, j, x = zip(*case["counts"])
    F = TypeTokenMatrix(sp.csr_matrix((np.array(x, dtype=np.int64), (i, j)), shape=(n, n)), case["items"], case["items"])
    F = step(0, "counts", F)
    nf, cf = voc(1, Vocab(F.sum(axis=1))), voc(2, Vocab(F.sum(axis=0)))
    out["sums"] = {("row", k): nf[k] for k in nf.keys()}
    out["sums"].update({("column", k): cf[k] for k in cf.keys()})
    W = mxcalc.compute_association(F.submatrix(row=case["rows"]), nfreq=nf, cfreq=cf, meas=case["meas"])
    W = step(3, "weights", W)
    S = step(4, "second order", mxcalc.compute_association(F, nfreq=nf, cfreq=cf, meas="ppmi"))
    cells = {}
    for t, (k, ctx) in enumerate(case["tokens"]):
        for c, p in ctx:
            cells[t, c] = p
    labels = ["%s/f%d/%d" % (case["items"][k], t % 2, t) for t, (k, _) in enumerate(case["tokens"])]
    i, j = zip(*cells)
    T = TypeTokenMatrix(sp.csr_matrix((np.array(list(cells.values()), dtype=np.int64), (i, j)), shape=(len(labels), n)), labels, case["items"])
    T = step(5, "tokens", T)
    W = W.submatrix(col=T.col_items)
    TW = step(6, "token weights", mxcalc.compute_token_weights(T, W, booleanize=case["bool"], tokenFormat=case["fmt"]))
    TV = step(7, "token vectors", mxcalc.compute_token_vectors(TW, S, operation=case["op"], normalization="no"))
    D = mxcalc.compute_distance(TV, metric=case["metric"], axis=case["axis"])
    out["distances"] = M.snapshot(D)[2]
    C = mxcalc.compute_cosine(TV, axis=case["axis"])
    out["similarities"] = M.snapshot(C)[2]
    return out, D


def routes_body(case, ctx):
    root = ctx.dir()
    if case["op"] == "weightedmean":    # weights that cancel out have no mean
        case = dict(case, meas="ppmi", bool=True)
    base, d0 = walk(case, [[]] * 9, root)
    got, d1 = walk(case, case["detours"], root)
    # directions of vectors that are (numerically) zero are noise
    tv = base["token vectors"]
    small = set()
    for ax in (0, 1):
        for lab in {k[ax] for k in tv}:
            v = [abs(x) for k, x in tv.items() if k[ax] == lab]
            if 0 < max(v) < 1e-4:
                small.add(lab)
    for name in base:
        a, b = base[name], got[name]
        assert set(a) == set(b), "%s: %r, expected %r" % (name, sorted(set(a) ^ set(b)), "the same labels")
        for k in a:
            if name in ("distances", "similarities") and (k[0] in small or k[1] in small):
                continue
            tol = 3e-6 * max(1.0, abs(a[k]))
            if name in ("distances", "similarities", "token vectors"):
                tol = 3e-6 * max(1.0, max(abs(x) for x in a.values()))
            if name == "distances" and case["metric"] == "euclidean":
                tol = max(tol, 2e-3 * max(1.0, max(abs(x) for x in tv.values())) if a[k] < 1e-2 else tol)
            assert abs(a[k] - b[k]) <= tol, "%s of %r: %r straight, %r with detours %r" % (name, k, a[k], b[k], case["detours"])
    labels = sorted({k[0] for k in base["distances"]})
    if not small and len(labels) >= 2:
        for lab in labels:
            ds = sorted(x for k, x in base["distances"].items() if k[0] == lab and k[1] != lab)
            if all(y - x > 1e-3 for x, y in zip(ds, ds[1:])) and (not ds or ds[0] > 1e-3):
                a, b = (set(d.most_similar(lab, k=max(1, len(labels) // 2))) for d in (d0, d1))
                assert a == b, "neighbours of %r: %r straight, %r with detours, distances %r" % (lab, a, b, {k: (x, got["distances"][k]) for k, x in base["distances"].items() if k[0] == lab})
                ctx.label("neighbours")
                break
    used = [d[0] for k in range(8) for d in case["detours"][k]]
    ctx.nontrivial(len(used) >= 3 and sum(1 for x in tv.values() if abs(x) > 1e-4) >= 2)
    ctx.label(*("via " + u for u in set(used)))


LAWS = [Law("corpora", corpora(), corpora_body, quick=900, thorough=20000, shards=8,
            rule="a corpus and a second one (divided, joined, file by file, twice, mirrored, renamed, with junk, with other spans) whose frequencies and co-occurrences follow from the first; non-trivial if three or more co-occurrences in two cells are compared"),
        Law("treebanks", treebanks(), treebank_body, quick=500, thorough=12000, shards=8,
            rule="a corpus of sentences, divided, shuffled, doubled, file by file or macro by macro; non-trivial if two or more embeddings are counted"),
        Law("routes", routes(), routes_body, quick=2500, thorough=60000, shards=8,
            rule="the way from counts to distances, straight and with detours (files, orders, parts, formats) after its steps, every step compared; non-trivial with three or more detours and two token vector values")]
ASSUMPTIONS = ["words are renamed to words of the same kind", "vectors that are numerically zero have no direction", "siblings with the same text may be written in any order"]
