"""P03: token retrieval."""
from hypothesis import strategies as st
from lib import corp, gen, large, model as M
from lib.core import Law


@st.composite
def cases(draw):
    c = draw(gen.corpus(max_files=3, max_lines=10, min_files=1, slash=False))
    docs = M.read_docs(c)
    types = sorted({t.type for _, d in docs for t in d})
    collocs = sorted({t.colloc for _, d in docs for t in d})
    unseen = "/".join("zz" for _ in c["settings"]["type"].split("/"))
    pick = lambda xs, u, lo: draw(st.lists(st.sampled_from(xs + [u]), min_size=lo, max_size=3, unique=True))
    c["queries"] = pick(types, unseen, 1)
    c["colv"] = None if draw(st.booleans()) else pick(collocs, "zz", 1)
    c["workers"] = draw(st.integers(1, 3))
    c["sched"] = draw(gen.schedule)
    c["spell"] = draw(st.sampled_from(["", "", "", "/", "//", "/.", "/../corpus"]))
    c["links"] = draw(st.sampled_from([0, 0, 0, 1, 2, 6, 62]))
    return c


def run(case, root):
    sett, names = M.write_corpus(case, root)
    return sett, corp.tokens(sett, names, case["queries"], case["colv"], case["workers"], case["sched"])


def positions(toks):
    """{(token label, colloc): set of admissible signed positions}"""
    out = {}
    for label, _, left, right in toks:
        for i, c in enumerate(left):
            out.setdefault((label, c.colloc), set()).add(i - len(left))
        for i, c in enumerate(right):
            out.setdefault((label, c.colloc), set()).add(i + 1)
    return out


def body(case, ctx):
    root = ctx.dir()
    want = M.tokens(case, case["queries"], case["colv"])
    labels = [w[0] for w in want]
    if len(set(labels)) != len(labels):     # e.g. d/f1 and d/f1.txt: token labels coincide by configuration
        ctx.label("ambiguous labels")
        return
    pos = positions(want)
    try:
        sett, (m, h, s) = run(case, root)
    except ValueError as e:
        if pos:
            raise
        assert "empty" in str(e), "rejected with an unrelated error: %r" % e
        ctx.label("no collocates at all: rejected")
        return
    rows, cols, cells, stored = M.snapshot(m)
    assert len(rows) == len(set(rows)) and set(rows) == set(labels), "rows %r, expected %r; worker errors %s" % (sorted(rows), sorted(labels), s.crashes)
    wcols = {c for _, c in pos}
    assert len(cols) == len(set(cols)) and set(cols) == wcols, "columns %r, expected %r" % (sorted(cols), sorted(wcols))
    nonzero = {k: v for k, v in cells.items() if v != 0}
    assert set(nonzero) == set(pos), "cells with a value: unexpected %r, missing %r" % (set(nonzero) - set(pos), set(pos) - set(nonzero))
    for k, v in nonzero.items():
        assert v in pos[k], "cell %r: got %r, occurrences at %r" % (k, v, sorted(pos[k]))
    # the type nodes
    assert set(h.type2toks) == set(case["queries"]), "types %r" % sorted(h.type2toks)
    for q in case["queries"]:
        got = sorted((str(t), [c.to_colloc() for c in t.lcollocs], [c.to_colloc() for c in t.rcollocs]) for t in h.type2toks[q].tokens)
        exp = sorted((w[0], [c.colloc for c in w[2]], [c.colloc for c in w[3]]) for w in want if w[1] == q)
        assert got == exp, "tokens of %r: got %r, expected %r" % (q, got, exp)
        assert h.type2toks[q].freq == len(exp)
        assert h.type2toks[q].collocs is not None
    ctx.nontrivial(len(labels) >= 2 and len(pos) >= 2)
    ctx.label("colvocab" if case["colv"] is not None else "no colvocab", "repeated colloc" if any(len(p) > 1 for p in pos.values()) else "no repeats",
              "token without context" if any(not w[2] and not w[3] for w in want) else "all tokens with context",
              "right-span 0" if case["settings"]["right-span"] == 0 else "right-span>0")


LAWS = [Law("tokens", cases(), body, quick=1200, thorough=25000, shards=8,
            rule="corpus, spans, queries, column vocabulary; non-trivial if two tokens and two context cells exist"),
        Law("large", large.corpus(), large.on_corpus(body), quick=96, thorough=1600, shards=8,
            rule="the same with files of up to 66000 lines, hundreds of files, thousands of types, windows of up to 1000 words; non-trivial as above")]
ASSUMPTIONS = ["query types have as many '/'-parts as the type format (words contain no '/')",
               "corpora in which the configured token labels of two lines coincide are skipped",
               "if no query token has any context word, the task may reject (ValueError) instead of returning a matrix without columns"]
