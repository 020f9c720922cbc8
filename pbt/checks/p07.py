"""P07: target/feature labels, and loading of pattern and macro definition files."""
import os
from xml.sax.saxutils import escape
from hypothesis import strategies as st
from lib import fakemp
fakemp.install()
from lib import dep
from lib.core import Law


@st.composite
def label_cases(draw):
    patt = draw(dep.pattern(5, root1=True, bias=3))
    mac = draw(dep.macro([n[0] for n in patt["nodes"]], token=draw(st.booleans())))
    sents = draw(st.lists(dep.sentence(8), min_size=1, max_size=3))
    return {"pattern": patt, "macro": mac, "sents": sents}


def check_labels(m, mac, patt, toks, lids, fid="file"):
    """Matches the sentence with the macro `m` of the code and compares every label."""
    from nephosem.core.graph import SentenceGraph
    nodes, edges = dep.sent_graph(toks, lids)
    s = SentenceGraph(nodes=nodes, edges=edges, mode="token", fname=fid)
    before = len(m.matched_nodes)
    s.match_pattern(m)
    embs = dep.embeddings(nodes, edges, patt)
    assert len(m.matched_nodes) - before == len(embs)
    for mode in ("type", "token"):
        want = {}
        for e in embs:
            k = (dep.target_label(mac, patt, e, nodes, mode, fid), frozenset(dep.feature_labels(mac, patt, e, nodes, edges)))
            want[k] = want.get(k, 0) + 1
        for i in range(before, len(m.matched_nodes)):
            t, f = m.target(index=i, mode=mode), m.feature(index=i)
            # an embedding of this match (the same labels may come from several)
            ks = [k for k in want if k[0] == t and f in k[1] and want[k] > 0]
            assert ks, "%s mode: target %r with feature %r, expected (left) %r" % (mode, t, f, [(a, sorted(b)[:2]) for (a, b), n in want.items() if n])
            k = min(ks, key=lambda k: len(k[1]))
            want[k] -= 1
    return embs


def label_body(case, ctx):
    mac, patt = case["macro"], case["pattern"]
    m = dep.build_macro(mac, patt)
    n = 0
    for toks in case["sents"]:
        n += len(check_labels(m, mac, patt, toks, [10 + i for i in range(len(toks))]))
    ctx.nontrivial(n >= 1 and len(patt["nodes"]) >= 2)
    kids = [a for a, _, _ in patt["edges"]]
    ctx.label("matches" if n else "no match", "feature node" if mac["feature"] != -1 else "tree label",
              "siblings" if len(set(kids)) < len(kids) else "no siblings", "target is root" if mac["target"] == 1 else "target below root",
              "missing group" if any(g == 2 for _, g in mac["target_fmt"] + mac["feature_fmt"]) else "groups 0/1")


# ------------------------------------------------------------------ files
UP = {"word": "WORD", "lemma": "LEMMA", "pos": "POS", "deprel": "DEPREL"}


@st.composite
def file_cases(draw):
    npatt = draw(st.integers(1, 4))
    patts = [draw(dep.pattern(4, root1=True, bias=3)) for _ in range(npatt)]
    node_def = {a: draw(st.sampled_from(dep.REGEX[a])) for a in draw(st.lists(st.sampled_from(["lemma", "pos"]), max_size=2, unique=True))}
    edge_def = {"deprel": draw(st.sampled_from(dep.REGEX["deprel"]))} if draw(st.booleans()) else {}
    # omitted data: filled by the defaults
    omit = [[draw(st.booleans()) for _ in p["nodes"]] for p in patts]
    eomit = [[draw(st.booleans()) for _ in p["edges"]] for p in patts]
    for p, o, eo in zip(patts, omit, eomit):
        for (nid, attrs), x in zip(p["nodes"], o):
            if x:
                attrs.update(node_def)
        for (a, b, attrs), x in zip(p["edges"], eo):
            if x:
                attrs.update(edge_def)
    ids = draw(st.permutations([1, 2, 3, 4, 7, 12]))[:npatt]
    fmt = draw(dep.macro([1]))
    fmt["edge_fmt"] = [["deprel", 1]]
    macs = []
    for k in range(draw(st.integers(1, 4))):
        i = draw(st.integers(0, npatt - 1))
        m = draw(dep.macro([n[0] for n in patts[i]["nodes"]]))
        m.update(pattern=i, target_fmt=fmt["target_fmt"], feature_fmt=fmt["feature_fmt"], edge_fmt=fmt["edge_fmt"],
                 tdesc=draw(st.sampled_from([None, "noun", "é & <x>"])), fdesc=draw(st.sampled_from([None, "subject of verb"])))
        macs.append(m)
    mids = draw(st.permutations([1, 2, 3, 5, 9]))[:len(macs)]
    return {"patterns": patts, "node_def": node_def, "edge_def": edge_def, "omit": omit, "eomit": eomit, "ids": list(ids),
            "macros": macs, "mids": list(mids), "sents": draw(st.lists(dep.sentence(7), min_size=1, max_size=2)), "upper": draw(st.booleans()),
            "blank": draw(st.booleans())}


def write_files(case, d):
    nm = (lambda a: UP.get(a, a)) if case["upper"] else (lambda a: a)
    L = ['<graphml xmlns="http://graphml.graphdrawing.org/xmlns">']
    keys = {}
    for n, a in enumerate(["word", "lemma", "pos"]):
        keys["node", a] = "n%d" % n
        dflt = case["node_def"].get(a)
        L.append('<key id="n%d" for="node" attr.name="%s" attr.type="string"%s' % (n, nm(a), "/>" if dflt is None else ">"))
        if dflt is not None:
            L += ["    <default>%s</default>" % escape(dflt), "</key>"]
    keys["edge", "deprel"] = "e1"
    dflt = case["edge_def"].get("deprel")
    L.append('<key id="e1" for="edge" attr.name="%s" attr.type="string"%s' % (nm("deprel"), "/>" if dflt is None else "><default>%s</default></key>" % escape(dflt)))
    for p, gid, om, eom in zip(case["patterns"], case["ids"], case["omit"], case["eomit"]):
        if case["blank"]:
            L.append("")
        L.append('    <graph id="%d" edgedefault="directed">' % gid)
        for (nid, attrs), o in zip(p["nodes"], om):
            L.append('        <node id="%d">' % nid)
            for a, rx in attrs.items():
                if not (o and case["node_def"].get(a) == rx):
                    L.append('            <data key="%s">%s</data>' % (keys["node", a], escape(rx)))
            L.append("        </node>")
        for (a, b, attrs), o in zip(p["edges"], eom):
            L.append('        <edge source="%d" target="%d">' % (a, b))
            for x, rx in attrs.items():
                if not (o and case["edge_def"].get(x) == rx):
                    L.append('            <data key="%s">%s</data>' % (keys["edge", x], escape(rx)))
            L.append("        </edge>")
        L.append("    </graph>")
    L.append("</graphml>")
    gml = os.path.join(d, "p.graphml")
    with open(gml, "w", encoding="utf-8") as f:
        f.write("\n".join(L) + "\n")

    def fmt(tag, items):
        return ["<node-fmt>"] + ['<%s group="%d"/>' % (nm(a), g) for a, g in items] + [
            '<string connector="/">%s</string>' % "/".join(nm(a) for a, _ in items), "</node-fmt>"]
    m0 = case["macros"][0]
    X = ['<?xml version="1.0" encoding="UTF-8"?>', "<target-feature-list>", "<target-fmt>"] + fmt("t", m0["target_fmt"]) + ["</target-fmt>", "<feature-fmt>"]
    X += fmt("f", m0["feature_fmt"]) + ["<edge-fmt>%s</edge-fmt>" % nm("deprel"), "</feature-fmt>"]
    for m, mid in zip(case["macros"], case["mids"]):
        desc = lambda t: "" if t is None else "<description>%s</description>" % escape(t)
        X += ['<target-feature-macro id="%d">' % mid, '<sub-graph-pattern id="%d"/>' % case["ids"][m["pattern"]],
              '<target nodeID="%d">%s</target>' % (m["target"], desc(m["tdesc"])),
              '<feature%s>%s</feature>' % ("" if m["feature"] == -1 else ' featureID="%d"' % m["feature"], desc(m["fdesc"])), "</target-feature-macro>"]
    X.append("</target-feature-list>")
    xml = os.path.join(d, "m.xml")
    with open(xml, "w", encoding="utf-8") as f:
        f.write("\n".join(X) + "\n")
    return gml, xml


def file_body(case, ctx):
    from nephosem.core.graph import PatternGraph, MacroGraph
    gml, xml = write_files(case, ctx.dir())
    up = (lambda d: {UP.get(a, a): v for a, v in d.items()}) if case["upper"] else (lambda d: dict(d))
    expect = []
    for p, om, eom in zip(case["patterns"], case["omit"], case["eomit"]):
        # every default of the file applies wherever the attribute is not given
        nodes = {i: dict(case["node_def"], **a) for i, a in p["nodes"]}
        edges = {(a, b): dict(case["edge_def"], **x) for a, b, x in p["edges"]}
        expect.append((nodes, edges))
    patts = PatternGraph.read_graphml(gml)
    assert [p.id for p in patts] == case["ids"], "pattern ids %r, expected %r" % ([p.id for p in patts], case["ids"])
    for p, (nodes, edges) in zip(patts, expect):
        got = {i: dict(a) for i, a in p.nodes}
        assert got == {i: up(a) for i, a in nodes.items()}, "pattern %r nodes %r, expected %r" % (p.id, got, nodes)
        gote = {e: {k: v for k, v in p.edges[e].items() if k != "id"} for e in p.edges}
        assert gote == {e: up(a) for e, a in edges.items()}, "pattern %r edges %r, expected %r" % (p.id, gote, edges)
    macs = MacroGraph.read_xml(xml, patts)
    assert [m.id for m in macs] == case["mids"]
    n = 0
    for m, mac in zip(macs, case["macros"]):
        nodes, edges = expect[mac["pattern"]]
        assert {i: dict(a) for i, a in m.nodes} == {i: up(a) for i, a in nodes.items()}, "macro %r refers to another pattern" % m.id
        assert m.target_idx == mac["target"] and m.feature_idx == mac["feature"]
        assert m.target_desc == (mac["tdesc"] if mac["tdesc"] is not None else "no description")
        patt = {"nodes": [[i, a] for i, a in nodes.items()], "edges": [[a, b, x] for (a, b), x in edges.items()]}
        for toks in case["sents"]:
            if case["upper"]:
                n += upper_labels(m, mac, patt, toks)
            else:
                n += len(check_labels(m, mac, patt, toks, [5 + i for i in range(len(toks))]))
    ctx.nontrivial(n >= 1)
    ctx.label("matches" if n else "no match", "node defaults" if case["node_def"] else "no node defaults", "edge default" if case["edge_def"] else "no edge default",
              "patterns=%d" % len(patts), "macros=%d" % len(macs))


def upper_labels(m, mac, patt, toks):
    """check_labels for capitalised attribute names (the sentence's attributes are capitalised as well)."""
    from nephosem.core.graph import SentenceGraph
    nodes, edges = dep.sent_graph(toks)
    s = SentenceGraph(nodes={i: {UP[k]: v for k, v in a.items()} for i, a in nodes.items()}, edges={e: {UP[k]: v for k, v in a.items()} for e, a in edges.items()})
    before = len(m.matched_nodes)
    s.match_pattern(m)
    embs = dep.embeddings(nodes, edges, patt)
    got = sorted((m.target(index=i), m.feature(index=i)) for i in range(before, len(m.matched_nodes)))
    assert len(got) == len(embs)
    adm = [(dep.target_label(mac, patt, e, nodes), dep.feature_labels(mac, patt, e, nodes, edges)) for e in embs]
    for t, f in got:
        assert any(t == a and f in b for a, b in adm), "label %r, admissible %r" % ((t, f), adm[:4])
    for a, b in adm:
        assert any(t == a and f in b for t, f in got), "no match is labelled %r" % ((a, sorted(b)[:3]),)
    return len(embs)


LAWS = [Law("labels", label_cases(), label_body, quick=3500, thorough=80000, shards=8,
            rule="pattern, macro (groups, formats, feature node) and sentences; non-trivial if a pattern of two nodes or more matches"),
        Law("files", file_cases(), file_body, quick=1600, thorough=30000, shards=8,
            rule="pattern/macro files with defaults, several graphs and macros; non-trivial if a loaded macro matches")]
ASSUMPTIONS = ["every display attribute is an attribute of the pattern's nodes/edges; labels are joined by '/'",
               "siblings are sorted by relation and node text; ties may be written in any order",
               "tags of the definition files stand on lines of their own, as in the shipped files"]
