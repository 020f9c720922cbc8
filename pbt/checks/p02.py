"""P02: co-occurrence matrices against the position-pair model."""
from hypothesis import strategies as st
from lib import corp, gen, large, model as M
from lib.core import Law


@st.composite
def cases(draw):
    c = draw(gen.corpus(max_files=3, max_lines=10, min_files=1))
    docs = M.read_docs(c)
    types = sorted({t.type for _, d in docs for t in d})
    collocs = sorted({t.colloc for _, d in docs for t in d})
    pick = lambda xs, lo: draw(st.lists(st.sampled_from(xs + ["zz/unseen"]), min_size=lo, max_size=len(xs) + 1, unique=True))
    c["rows"] = types if types and draw(st.booleans()) else pick(types, 1)
    how = draw(st.sampled_from(["none", "none", "all", "some"]))
    c["colv"] = None if how == "none" else (collocs or ["zz"]) if how == "all" else pick(collocs, 1)
    c["workers"] = draw(st.integers(1, 3))
    c["sched"] = draw(gen.schedule)
    c["links"] = draw(st.sampled_from([0, 0, 0, 1, 2, 6, 62]))
    c["via_init"] = draw(st.booleans())
    return c


def check_result(m, case, want):
    """m: result of the code (None if nothing was counted)."""
    if m is None:
        assert not want, "no matrix although these pairs were counted: %r" % (want,)
        return
    rows, cols, cells, _ = M.snapshot(m)
    assert rows == sorted(case["rows"]), "rows %r, expected %r" % (rows, sorted(case["rows"]))
    wcols = sorted(case["colv"]) if case["colv"] is not None else sorted({c for _, c in want})
    assert cols == wcols, "columns %r, expected %r" % (cols, wcols)
    M.same_table(cells, {(r, c): want.get((r, c), 0) for r in rows for c in cols})


def body(case, ctx):
    sett, names = M.write_corpus(case, ctx.dir())
    want = M.cooc(case, case["rows"], case["colv"])
    m, s = corp.col_freq(sett, names, case["rows"], case["colv"], case["workers"], case["sched"], via_init=case["via_init"])
    try:
        check_result(m, case, want)
    except AssertionError as e:
        raise AssertionError("%s; worker errors: %s" % (e, s.crashes))
    L, R = sett["left-span"], sett["right-span"]
    docs = [d for _, d in M.read_docs(case)]
    ctx.nontrivial(sum(want.values()) >= 2)
    ctx.label("colvocab" if case["colv"] is not None else "no colvocab", "spans %s" % ("0" if not (L and R) else "wide" if max(L, R) > 3 else "small"),
              "short doc" if any(0 < len(d) <= max(L, R) for d in docs) else "no short doc",
              "multi-doc file" if len(docs) > len(case["files"]) else "one doc per file",
              "colloc!=type" if sett.get("colloc", sett["type"]) != sett["type"] else "colloc=type", "empty result" if not want else "counts")


@st.composite
def uneven(draw):
    """Files of very different vocabularies, with no or a short list of collocates: what each worker has met is put together."""
    words = ["w%d" % i for i in range(draw(st.integers(4, 14)))]
    files = []
    for n in range(draw(st.integers(2, 4))):
        a, b = draw(st.integers(0, len(words) - 1)), draw(st.integers(1, len(words)))
        own = (words + words)[a:a + b]
        ws = draw(st.lists(st.sampled_from(own), max_size=4)) + (own if draw(st.booleans()) else []) + draw(st.lists(st.sampled_from(own), max_size=8))
        files.append(["f%d" % n, ["%s\t%s\tN" % (w, w) for w in ws], "\n", True])
    sett = {"line-machine": "([^\t]+)\t([^\t]+)\t([^\t]+)", "global-columns": "word,lemma,pos", "type": "lemma/pos", "token": "lemma/pos/fid/lid", "colloc": "lemma/pos",
            "boundary-detection-mechanism": "single", "separator-line-machine": "</s>", "single-boundary-machine": "</s>",
            "left-span": draw(st.integers(0, 3)), "right-span": draw(st.integers(0, 12))}
    types = sorted({l.split("\t")[1] + "/N" for f in files for l in f[1]}) or ["w0/N"]
    rows = types if draw(st.booleans()) else draw(st.lists(st.sampled_from(types), min_size=1, max_size=3, unique=True))
    colv = draw(st.sampled_from([None, None, "few"])) and draw(st.lists(st.sampled_from(types), min_size=1, max_size=2, unique=True))
    return {"settings": sett, "cols": ["word", "lemma", "pos"], "files": files, "rows": rows,
            "colv": colv, "workers": draw(st.integers(2, 4)), "sched": draw(gen.schedule), "via_init": draw(st.booleans())}


LAWS = [Law("window", cases(), body, quick=1200, thorough=25000, shards=8,
            rule="corpus, spans 0..6, row/column vocabularies; non-trivial if at least two pairs are counted"),
        Law("uneven", uneven(), body, quick=400, thorough=10000, shards=8,
            rule="two to four files with few or many words in common, no column vocabulary or one of one or two words, two to four workers; non-trivial as above"),
        Law("large", large.corpus(), large.on_corpus(body, via_init=False), quick=64, thorough=1600, shards=8,
            rule="the same with files of up to 66000 lines, hundreds of files, thousands of types, windows of up to 1000 words; non-trivial as above")]
ASSUMPTIONS = ["a carriage return alone does not stand within a line; spaces around a line do not count", "when nothing at all is counted the task may return None instead of an all-zero matrix"]
