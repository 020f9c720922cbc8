"""P01: frequency lists."""
from hypothesis import strategies as st
from lib import corp, gen, large, model as M
from lib.core import Law


@st.composite
def cases(draw):
    c = draw(gen.corpus(max_files=5, max_lines=12))
    c["workers"] = draw(st.integers(1, 3))
    c["sched"] = draw(gen.schedule)
    c["links"] = draw(st.sampled_from([0, 0, 0, 1, 2, 6, 62]))
    c["how"] = draw(st.sampled_from(["list", "list", "dir"]))
    return c


def body(case, ctx):
    root = ctx.dir()
    sett, names = M.write_corpus(case, root)
    want = M.item_freq(case)
    v, _ = corp.item_freq(sett, names if case["how"] == "list" else None, case["workers"], case["sched"])
    got = {k: v[k] for k in v.keys()}
    assert got == want, "frequency list: got %r, expected %r" % (got, want)
    assert len(v) == len(want) and v.sum() == sum(want.values())
    ntok = sum(want.values())
    ctx.nontrivial(ntok >= 2 and len(case["files"]) >= 1)
    ctx.label("files=%d" % len(case["files"]), "types=%d" % min(len(want), 5), "encoding=%s" % case["settings"].get("file-encoding"),
              "junk" if any(len(M.read_docs(dict(case, files=[f]))[0][1]) < len(f[1]) for f in case["files"]) else "all lines match")


LAWS = [Law("frequency", cases(), body, quick=900, thorough=20000, shards=8,
            rule="corpus of files with matching, junk and separator lines; non-trivial if at least two lines match"),
        Law("large", large.corpus(), large.on_corpus(body, how="list"), quick=96, thorough=1600, shards=8,
            rule="the same with files of up to 66000 lines, hundreds of files, thousands of types, windows of up to 1000 words; non-trivial as above")]
ASSUMPTIONS = ["a carriage return alone does not stand within a line; spaces around a line do not count"]
