"""P06: pattern matching = all embeddings, each once."""
from hypothesis import strategies as st
from lib import fakemp
fakemp.install()
from lib import dep
from lib.core import Law


@st.composite
def planted(draw, toks, attrs):
    """A pattern that has the shape of a sentence: all of it, or one of its connected parts."""
    ids = {t[3]: t for t in toks}
    start = draw(st.sampled_from(toks))[3]
    keep, todo = [], [start]
    limit = draw(st.sampled_from([2, 3, 4, 8, 8]))
    if limit == 8:
        todo = [t[3] for t in toks if t[4] not in ids][:1] or [start]
    while todo and len(keep) < limit:
        v = todo.pop(0)
        if v not in keep:
            keep.append(v)
            todo += draw(st.permutations([t[3] for t in toks if t[4] == v]))
    keep = keep[:6]
    nodes = [[v, {a: draw(st.sampled_from([r"(\w+)", ".*", "^" + ids[v][1] + "$" if a == "lemma" else r"\w+"])) for a in attrs}] for v in keep]
    edges = [[ids[v][4], v, {"deprel": draw(st.sampled_from([r"(\w+)", ".*", ids[v][5]]))}] for v in keep if ids[v][4] in keep and ids[v][4] != v]
    new = dict(zip(keep, draw(st.permutations(range(1, len(keep) + 1)))))
    if len(edges) != len(keep) - 1:     # not a tree
        nodes, edges, new = nodes[:1], [], {keep[0]: 1}
    return {"nodes": [[new[v], a] for v, a in nodes], "edges": [[new[a], new[b], x] for a, b, x in edges]}


@st.composite
def cases(draw):
    sents = draw(st.lists(dep.sentence(8, ("tree", "tree", "tree", "missing", "cycle")), min_size=1, max_size=3))
    attrs = draw(st.sampled_from([(), (), ("lemma",), ("lemma", "pos")]))
    patt = draw(planted(draw(st.sampled_from(sents)), attrs)) if draw(st.integers(0, 2)) == 0 else draw(dep.pattern(5, all_attrs=attrs))
    for n in patt["nodes"]:
        if not n[1] and draw(st.integers(0, 3)):
            n[1]["lemma"] = draw(st.sampled_from(dep.REGEX["lemma"]))
    return {"sents": sents, "pattern": patt, "target": draw(st.sampled_from([n[0] for n in patt["nodes"]])),
            "how": draw(st.sampled_from(["graph", "lines", "bare"]))}


FMT_SETTINGS = {"line-machine": "\t".join(["([^\t]+)"] * 6), "type": "lemma/pos", "token": "lemma/pos/fid/lid", "colloc": "lemma",
                "boundary-detection-mechanism": "single", "separator-line-machine": "</s>", "single-boundary-machine": "</s>",
                "node-attr": "word,lemma,pos", "edge-attr": "deprel", "line-format": ",".join(dep.COLS)}


def make_sentence(toks, how):
    from nephosem.core.graph import SentenceGraph
    from nephosem.core.terms import CorpusFormatter
    if how == "lines":
        lines = [(10 + n, "\t".join(map(str, t))) for n, t in enumerate(toks)]
        return SentenceGraph(sentence=lines, formatter=CorpusFormatter(dict(FMT_SETTINGS))), [10 + n for n in range(len(toks))]
    nodes, edges = dep.sent_graph(toks)
    if how == "bare":
        nodes, edges = strip_root(nodes, edges)
    return SentenceGraph(nodes=nodes, edges=edges), None


def strip_root(nodes, edges):
    """The graph without its artificial root, where something is left."""
    n = {v: a for v, a in nodes.items() if v != 0}
    e = {x: a for x, a in edges.items() if 0 not in x}
    return (n, e) if n and e else (nodes, edges)


def key(nodes, edges):
    return (tuple(sorted((i, tuple(sorted(map(repr, a.items())))) for i, a in nodes.items())),
            tuple(sorted((e, tuple(sorted((k, v) for k, v in a.items() if k != "id"))) for e, a in edges.items())))


def body(case, ctx):
    from nephosem.core.graph import MacroGraph
    patt = case["pattern"]
    mac = MacroGraph(dep.build_pattern(patt), target_idx=case["target"])
    mac.target_filter = None
    want, sizes, prefix = [], [], []
    for toks in case["sents"]:
        s, lids = make_sentence(toks, case["how"])
        nodes, edges = dep.sent_graph(toks, lids)
        if case["how"] == "bare":
            nodes, edges = strip_root(nodes, edges)
        embs = dep.embeddings(nodes, edges, patt) if dep.is_tree(nodes, edges) else []
        before = len(mac.matched_nodes)
        s.match_pattern(mac)
        got = [key(n, e) for n, e in zip(mac.matched_nodes[before:], mac.matched_edges[before:])]
        exp = [key({p: nodes[v] for p, v in m.items()}, {(a, b): edges[m[a], m[b]] for a, b, _ in patt["edges"]}) for m in embs]
        assert len(mac.matched_nodes) == len(mac.matched_edges)
        assert sorted(got) == sorted(exp), "sentence %r: %d matches reported, %d embeddings; unexpected %r, missing %r" % (
            toks, len(got), len(exp), [g for g in got if g not in exp][:2], [x for x in exp if x not in got][:2])
        now = [key(n, e) for n, e in zip(mac.matched_nodes, mac.matched_edges)]
        assert now[:before] == prefix, "earlier matches changed"
        prefix = now
        want += exp
        sizes.append(len(exp))
    ctx.nontrivial(len(want) >= 1 and len(patt["nodes"]) >= 2)
    ctx.label("matches=%s" % ("0" if not want else "1" if len(want) == 1 else "2-5" if len(want) <= 5 else "many"),
              "pattern nodes=%d" % len(patt["nodes"]), "unconstrained node" if any(not n[1] for n in patt["nodes"]) else "constrained",
              "how " + case["how"], "whole sentence" if any(len(patt["nodes"]) == len(t) >= 2 for t in case["sents"]) and want else "part",
              "branching" if len({a for a, _, _ in patt["edges"]}) < len(patt["edges"]) else "linear")


LAWS = [Law("embeddings", cases(), body, quick=6000, thorough=150000, shards=8,
            rule="1-3 sentence trees (also non-trees) and a pattern tree; non-trivial if at least one embedding exists and the pattern has two nodes")]
ASSUMPTIONS = ["the artificial root (a head that is no token of the sentence) has no attributes and never matches",
               "pattern attributes are attributes of the sentence nodes/edges"]
