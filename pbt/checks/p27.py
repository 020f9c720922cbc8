"""P27: word-query files."""
import os
from hypothesis import strategies as st
from lib.core import Law
from nephosem.utils import read_word_queries, get_word_str

WORDS = ["appel/noun", "rust_oord/noun", "a", "é/N", "x y/V", "1/2", "a#b", "_DEFAULT_", "日/N", "a=b", "-", "a\u2028b", "n\x85m/N", "f\x0cg", ""]
CORPORA = ["LeNC", "TwNC", "a", "é", "c 1", "_DEFAULT_", "D", "lenc", ""]
IGNORED = ["", "   ", "#", "# LeNC:a\tTwNC:b", "#appel/noun", "  # x", "\t"]
NOFIELDS = ["x", "x/N", "LeNC:a:b", "a:b:c", "d:e:f/N", "::", "#", "x x"]
blank = st.sampled_from(["", "", "", " ", "  "])


@st.composite
def cases(draw):
    lines = []
    for _ in range(draw(st.integers(0, 7))):
        k = draw(st.sampled_from(["word", "map", "map", "map", "skip"]))
        if k == "word":
            lines.append([k, draw(st.sampled_from(WORDS[:-1] + ["LeNC:appel/noun"])), draw(blank), draw(blank)])
        elif k == "map":
            cs = draw(st.lists(st.sampled_from(CORPORA), min_size=2, max_size=4, unique=True))
            lines.append([k, [[c, draw(st.sampled_from(WORDS)), draw(blank), draw(blank)] for c in cs]])
            if draw(st.integers(0, 3)) == 0:    # a field that is no corpus:word
                lines[-1].append([draw(st.integers(1, len(cs))), draw(st.sampled_from(NOFIELDS))])
        else:
            lines.append([k, draw(st.sampled_from(IGNORED))])
    return {"lines": lines, "enc": draw(st.sampled_from([None, "utf-8", "utf-16", "utf-8"])), "key": draw(st.sampled_from([None, None, "D", "LeNC", "*"])),
            "eol": draw(st.sampled_from(["\n", "\n", "\r\n"])), "end": draw(st.booleans()), "ask": draw(st.lists(st.sampled_from(CORPORA + ["none"]), min_size=1, max_size=4))}


def body(case, ctx):
    fn = os.path.join(ctx.dir(), "queries.txt")
    text, want = [], []
    key = case["key"] or "_DEFAULT_"
    for l in case["lines"]:
        if l[0] == "word":
            text.append(l[2] + l[1] + l[3])
            want.append(l[1])
        elif l[0] == "map":
            fields = [a + c + ":" + w + b for c, w, a, b in l[1]]
            if len(l) > 2:
                fields.insert(*l[2])
                ctx.label("a field that is none")
            t = "\t".join(fields)
            if t.strip() != t or t.startswith("#"):     # blanks around the line belong to nothing
                t = t.strip()
            text.append(t)
            d = {c.strip(): w for c, w, _, _ in l[1]}
            d.setdefault(key, l[1][0][1])
            want.append(d)
        else:
            text.append(l[1])
    with open(fn, "w", encoding=case["enc"] or "utf-8", newline="") as f:
        f.write(case["eol"].join(text) + (case["eol"] if case["end"] else ""))
    kw = {}
    if case["enc"]:
        kw["encoding"] = case["enc"]
    if case["key"]:
        kw["wquery_default_key"] = case["key"]
    got = read_word_queries(fn, **kw)
    assert got == want, "lines %r: %r, expected %r" % (text, got, want)
    for q, w in zip(got, want):
        for c in case["ask"]:
            for specific in (True, False):
                exp = w if isinstance(w, str) else (w[c] if specific and c in w else w[key])
                res = get_word_str(q, specific=specific, corpus_name=c, def_key=key)
                assert res == exp, "query %r for corpus %r (specific: %r): %r, expected %r" % (q, c, specific, res, exp)
        assert get_word_str(q, def_key=key) == (w if isinstance(w, str) else w[key])
    assert got == want, "looking up changed the queries"
    ctx.nontrivial(sum(isinstance(w, dict) for w in want) >= 2)
    ctx.label("entries=%d" % len(want), "own default key" if case["key"] else "usual default key",
              "explicit default" if any(l[0] == "map" and any(c == key for c, _, _, _ in l[1][1:]) for l in case["lines"]) else "first is default")


LAWS = [Law("queries", cases(), body, quick=6000, thorough=150000, shards=4,
            rule="a word-query file; non-trivial if two of its lines give a corpus-specific mapping")]
ASSUMPTIONS = ["corpus names and words contain no colon, tab or line end, and the fields of a line with tabs name different corpora; fields that do not have the form corpus:word give nothing, and no line consists of such fields only"]
