"""P05: dependency matrices against brute-force embedding counts."""
from hypothesis import strategies as st
from lib import corp, dep, gen, model as M
from lib.core import Law


@st.composite
def cases(draw, **kw):
    c = draw(dep.dep_corpus(**{"max_files": 3, "max_sents": 4, "max_nodes": 6, **kw}))
    npatt = draw(st.integers(1, 3))
    c["patterns"] = [draw(dep.pattern(4, root1=True, bias=3)) for _ in range(npatt)]
    c["mode"] = draw(st.sampled_from(["type", "type", "token"]))
    macros = []
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.integers(0, npatt - 1))
        mac = draw(dep.macro([n[0] for n in c["patterns"][k]["nodes"]], token=c["mode"] == "token"))
        mac["pattern"] = k
        macros.append(mac)
    c["macros"] = macros
    if draw(st.booleans()):
        c["targets"] = None
    else:
        full = sorted(expected_targets(c))
        c["targets"] = draw(st.lists(st.sampled_from(full + ["a/N", "b", "N/a"]), max_size=4, unique=True))
        if draw(st.integers(0, 3)) == 0:
            c["targets"] = full
    c["targets_as"] = draw(st.sampled_from(["list", "vocab"]))
    c["workers"] = draw(st.integers(1, 4))
    c["sched"] = draw(gen.schedule)
    c["order"] = draw(st.permutations(range(len(c["files"]))))
    return c


def expected_targets(c):
    out = set()
    for base, toks, lids in dep.corpus_sentences(c):
        nodes, edges = dep.sent_graph(toks, lids)
        if dep.is_tree(nodes, edges):
            for mac in c["macros"]:
                for emb in dep.embeddings(nodes, edges, c["patterns"][mac["pattern"]]):
                    out.add(dep.target_full(mac, emb, nodes))
    return out


def compare(m, case):
    """m: labelled counts {(target, feature): n} of the code. Siblings whose texts tie may be written in any order, so the
    observed features are first assigned to the classes of admissible spellings."""
    want = dep.expected_counts(case)
    got = dict(m)
    classes = {}
    for (t, fs), n in want.items():
        classes.setdefault(t, []).append([set(fs), n])
    for t, cl in classes.items():       # merge overlapping spelling classes
        merged = []
        for fs, n in cl:
            for x in [x for x in merged if x[0] & fs]:
                fs, n = fs | x[0], n + x[1]
                merged.remove(x)
            merged.append([fs, n])
        for fs, n in merged:
            obs = sum(got.pop((t, f), 0) for f in fs)
            assert obs == n, "target %r, feature %r: counted %r, expected %r" % (t, sorted(fs)[:3], obs, n)
    left = {k: v for k, v in got.items() if v != 0}
    assert not left, "counts that no embedding gives: %r" % (left,)
    return want


def body(case, ctx):
    sett, names = M.write_corpus(case, ctx.dir())
    names = [names[i] for i in case["order"]]
    want = dep.expected_counts(case)
    try:
        m, s = corp.dependency(sett, names, case)
    except ValueError as e:
        if want:
            raise
        assert "empty" in str(e), "rejected with an unrelated error: %r" % e
        ctx.label("no match at all: rejected")
        return
    rows, cols, cells, _ = M.snapshot(m)
    assert len(set(rows)) == len(rows) and len(set(cols)) == len(cols), "labels are not unique"
    try:
        compare(cells, case)
    except AssertionError as e:
        raise AssertionError("%s; worker errors: %s" % (e, s.crashes))
    assert set(rows) == {t for t, _ in want}, "rows %r, expected %r" % (rows, sorted({t for t, _ in want}))
    for c in cols:
        assert any(cells[r, c] for r in rows), "column %r without any count" % c
    ctx.nontrivial(sum(want.values()) >= 2)
    ctx.label("mode " + case["mode"], "targets" if case["targets"] is not None else "no target list", "macros=%d" % len(case["macros"]),
              "counts>1" if any(v > 1 for v in want.values()) else "counts 1",
              "non-tree sentences" if any(not dep.is_tree(*dep.sent_graph(t)) for _, t, _ in dep.corpus_sentences(case)) else "trees only")


@st.composite
def large_cases(draw):
    kind = draw(st.integers(0, 2))
    c_pad = [draw(st.sampled_from([60, 126, 130, 250, 300])), draw(st.sampled_from([40, 100, 300]))]
    if kind == 2:
        c = draw(cases(max_files=2, max_sents=2, max_nodes=5, kinds=("tree",)))
        c["times"], c["pad"] = 1, c_pad
    elif kind == 0:
        c = draw(cases(max_files=2, max_sents=2, max_nodes=draw(st.sampled_from([12, 18, 25])), kinds=("tree",)))
        c["times"] = 1
    else:
        c = draw(cases(max_files=2, max_sents=3, max_nodes=5))
        c["times"] = draw(st.sampled_from([40, 127, 129, 257, 300]))
    return c


def large_body(case, ctx):
    files = [[p, (ls + ["</s>"]) * case["times"], eol, True] for p, ls, eol, final in case["files"]]
    case = dict(case, files=files)
    if case.get("pad"):
        case = dep.padded(case, *case["pad"])
        ctx.label("long sentences")
    body(case, ctx)


LAWS = [Law("dependency", cases(), body, quick=2400, thorough=60000, shards=8,
            rule="corpus of sentences (trees and non-trees), 1-3 patterns, 1-3 macros, with/without target list, type/token mode; non-trivial if at least two embeddings are counted"),
        Law("large", large_cases(), large_body, quick=160, thorough=3000, shards=8,
            rule="the same with sentences of up to 25 (or 300) words, or each sentence up to 300 times; non-trivial as above")]
ASSUMPTIONS = ["when nothing at all matches the task may reject (ValueError) instead of returning an empty matrix",
               "siblings are sorted by relation and node text; ties may be written in any order",
               "every display attribute is an attribute of the pattern's nodes/edges"]
