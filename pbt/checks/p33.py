"""P33: template graphs of nephosem.deprel.basic record exactly the embeddings of the template in a sentence."""
import logging
from hypothesis import strategies as st
from lib import fakemp
fakemp.install()
from lib import dep
from lib.core import Law
from nephosem.deprel.basic import SentenceGraph, TemplateGraph, FeatureGraph, tree_match

NODES = [r"(\w+/(N))\w*", r"(\w+/(V))\w*", r"\w+/\w+", ".*", "a/N", "(a|b)/", r"\w*b/V", r"(\w+)/NN$", r"\w+/\w+$", "ROOT"]
RELS = [r"\w*(obj)", r"\w+", ".*", "r", "r$", "(r|s)", "nsubj", "nsubj:pass", r"s", r"\w+$", "r\\w$"]


@st.composite
def template(draw, linear):
    n = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5] if linear else [2, 2, 3, 3, 3, 4, 5]))
    if linear:
        # a path: the top node somewhere in it, the branches below it
        top = draw(st.integers(0, n - 1))
        par = [i + 1 if i < top else i - 1 for i in range(n)]
        par[top] = None
    else:
        par = [None] + [draw(st.integers(0, i - 1)) for i in range(1, n)]
    ids = list(draw(st.permutations(range(1, n + 1))))
    easy = draw(st.booleans())
    node = st.sampled_from([r"\w+/\w+", ".*", r"(\w+/(N))\w*"] if easy else NODES)
    rel = st.sampled_from([r"\w+", ".*", r"\w+$"] if easy else RELS)
    nodes = [[ids[i], {"label": draw(node)}] for i in draw(st.permutations(range(n)))]
    edges = [[ids[par[i]], ids[i], {"rel": draw(rel)}] for i in draw(st.permutations(range(n))) if par[i] is not None]
    return {"nodes": nodes, "edges": edges, "target": ids[0] if linear else draw(st.sampled_from(ids))}


@st.composite
def cases(draw):
    linear = draw(st.integers(0, 2)) == 0
    kinds = ("tree",) if linear else ("tree",) * 6 + ("cycle", "missing", "random")
    return {"linear": linear, "t": draw(template(linear)), "sents": [draw(dep.sentence(7, kinds)) for _ in range(draw(st.integers(1, 3)))],
            "as": draw(st.sampled_from(["lines", "dicts"])), "junk": draw(st.booleans())}


def sent_graph(toks):
    nodes, edges = {}, {}
    for word, lemma, pos, i, head, rel in toks:
        nodes[i] = {"label": "%s/%s" % (lemma, pos)}
        edges[head, i] = {"rel": rel}
    for h, _ in edges:
        nodes.setdefault(h, {"label": "ROOT"})
    return nodes, edges


def key(nodes, edges):
    return repr((sorted(nodes.items()), sorted(edges.items())))


def body(case, ctx):
    t = case["t"]
    tplt = TemplateGraph({i: a["label"] for i, a in t["nodes"]}, {(a, b): x["rel"] for a, b, x in t["edges"]})
    feature = FeatureGraph(tplt, target=t["target"])
    other = FeatureGraph(tplt, target=t["target"])
    want, sizes = [], []
    logging.disable(logging.CRITICAL)
    try:
        for toks in case["sents"]:
            nodes, edges = sent_graph(toks)
            if case["as"] == "lines":
                lines = ["\t".join([w, p, l, str(i), str(h), r]) for w, l, p, i, h, r in toks]
                if case["junk"]:
                    lines.insert(len(lines) // 2, "junk\tx")
                s = SentenceGraph(sentence=lines)
            else:
                s = SentenceGraph(nodes={i: a["label"] for i, a in nodes.items() if a["label"] != "ROOT"}, edges={e: a["rel"] for e, a in edges.items()})
            assert s.istree == dep.is_tree(nodes, edges), "istree is %r for %r" % (s.istree, sorted(edges))
            if dep.is_tree(nodes, edges):
                embs = dep.embeddings(nodes, edges, t)
                want += [key({i: nodes[v]["label"] for i, v in e.items()}, {(a, b): edges[e[a], e[b]]["rel"] for a, b, _ in t["edges"]}) for e in embs]
                sizes.append(len(embs))
            if case["linear"]:
                r = s.match_target_feature(feature)
                assert r is feature
            else:
                s.match_feature(feature)
    finally:
        logging.disable(logging.NOTSET)
    got = [key(n, e) for n, e in zip(feature.matched_nodes, feature.matched_edges)]
    assert len(feature.matched_nodes) == len(feature.matched_edges)
    assert sorted(got) == sorted(want), "recorded %r, embeddings %r" % (sorted(got), sorted(want))
    assert not other.matched_nodes, "a match was recorded on another feature of the template"
    ctx.nontrivial(len(want) >= 2 and len(t["nodes"]) >= 2)
    ctx.label("path from its end" if case["linear"] else "tree", "size %d" % len(t["nodes"]),
              "non-tree sentence" if len(sizes) < len(case["sents"]) else "trees only", "several" if any(n > 1 for n in sizes) else "at most one each")


LAWS = [Law("templates", cases(), body, quick=10000, thorough=200000, shards=8,
            rule="a template tree matched against 1-3 sentences, level by level or (paths) from its target; non-trivial if at least two embeddings of two or more nodes exist")]
ASSUMPTIONS = ["template nodes are numbered from 1", "the artificial root (head 0) counts as a node with the label ROOT",
               "matching from the target is defined for path templates whose target is one of the two ends"]
