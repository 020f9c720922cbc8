"""P28: arrow notation of patterns -> numbered trees; tables of patterns."""
import os
from hypothesis import strategies as st
from lib import fakemp
fakemp.install()
from lib.core import Law
from nephosem.core.graph import PatternGraph, MacroGraph
from nephosem.specutils.deputils import parse_pattern

NODES = [r"(\w+)/(N)\w*", r"\w+/(V)\w*", "by/IN", r"(\w+)/(JJ)", r"\w+/\w+", "a", r"(\w+)/[NV]\w*", r"x y/(N)", r"([^/]+)/(N|V)", "(b)/N$", "."]
RELS = ["(nsubj)", "(nsubj)$", "pobj", r"(\w+)", ".*", "nsubj:pass", "(r|s)$", "r[st]$"]
ATTRS = ["LEMMA", "POS", "lemma", "word", "x_1"]
REGEX = [r"\w+", "N", "[NV]", "a|b", ".", "JJ$", r"[^\t]*", "é", "by"]
SLASHES = ["a/b", r"[^/]+", r"\w+/?\w*"]
ARROWS = [["<-", "->"]] * 5 + [["<", ">"], ["<=", "=>"], ["<~~", "~~>"]]


@st.composite
def named(draw, n):
    """Regexes with named groups: (text, {attribute: pattern})."""
    parts, attrs = [], {}
    for k, a in enumerate(draw(st.lists(st.sampled_from(ATTRS), min_size=n, max_size=n, unique=True))):
        rx = draw(st.sampled_from(REGEX + (SLASHES if k < n - 1 else [])))  # the last slash is the one between the groups
        form = draw(st.integers(0, 2))
        parts.append(["(?P<%s>%s)", "?P<%s>%s", r"(?P<%s>%s)\w*"][form] % (a, rx))
        attrs[a] = ["(%s)", "%s", r"(%s)\w*"][form] % rx
    return "/".join(parts), attrs


@st.composite
def tree(draw, depth, node, rel):
    """[node, children]; children: [] | [[arrow 0/1, relation, subtree]] | several with one arrow (in brackets)."""
    kids = []
    if depth > 0:
        n = draw(st.sampled_from([0, 1, 1, 1, 2, 3] if depth < 4 else [1, 1, 2, 3]))
        arrow = draw(st.integers(0, 1))
        kids = [[arrow, draw(rel), draw(tree(depth - 1, node, rel))] for _ in range(n)]
    return [draw(node), kids, draw(st.booleans()), draw(st.sampled_from(["", "", " ", "  "])), draw(st.sampled_from(["", "", " "]))]


def render(t, arrows):
    """What follows the node of `t` in the notation."""
    node, kids, bracket, sp, after = t
    if not kids:
        return ""
    parts = [show(rel) + " " + show(sub[0]) + render(sub, arrows) for _, rel, sub in kids]
    text = parts[0] if len(kids) == 1 and not bracket else "[" + ("," + sp if sp else ",").join(parts) + "]"
    return sp + arrows[kids[0][0]] + after + text


def show(x):
    return x if isinstance(x, str) else x[0]


def numbered(t):
    """({number: node}, {(from, to): relation}) in reading order."""
    nodes, edges = {}, {}

    def walk(t):
        n = len(nodes) + 1
        nodes[n] = t[0]
        for arrow, rel, sub in t[1]:
            k = walk(sub)
            edges[(k, n) if arrow == 0 else (n, k)] = rel
        return n
    walk(t)
    return nodes, edges


def is_path(n, edges):
    deg = [sum(v in e for e in edges) for v in range(1, n + 1)]
    return n >= 2 and max(deg) <= 2


@st.composite
def cases(draw):
    return {"tree": draw(tree(4, st.sampled_from(NODES), st.sampled_from(RELS))), "arrows": draw(st.sampled_from(ARROWS)),
            "pad": [draw(st.sampled_from(["", " "])) for _ in range(4)]}


def body(case, ctx):
    t, arrows, pad = case["tree"], case["arrows"], case["pad"]
    target, feature = pad[0] + t[0] + pad[1], pad[2] + render(t, arrows) + pad[3]
    nodes, edges = numbered(t)
    default = arrows == ["<-", "->"]
    got = parse_pattern(target, feature) if default else parse_pattern(target, feature, larrow=arrows[0], rarrow=arrows[1])
    assert got[0] == nodes, "nodes of %r %r: %r, expected %r" % (target, feature, got[0], nodes)
    assert got[1] == edges, "edges of %r %r: %r, expected %r" % (target, feature, got[1], edges)
    ctx.nontrivial(len(nodes) >= 3)
    ctx.label("nodes=%d" % min(len(nodes), 9), "default arrows" if default else "other arrows", "both directions" if len({a for a, b in ((a < b, 0) for a, b in edges)}) == 2 else "one direction",
              "nested lists" if nested(t) else "flat")


def nested(t, inside=False):
    return any(nested(k[2], inside or len(t[1]) > 1) for k in t[1]) or (inside and len(t[1]) > 1)


@st.composite
def tables(draw):
    rows = [draw(tree(draw(st.integers(1, 3)), st.integers(1, 2).flatmap(named), named(1))) for _ in range(draw(st.integers(1, 4)))]
    return {"rows": rows, "cols": draw(st.sampled_from([["Target Regex", "Feature Regex"], ["T", "F"]])), "sep": draw(st.sampled_from(["\t", "\t", ";"])),
            "extra": draw(st.booleans()), "macro": draw(st.booleans())}


def table_body(case, ctx):
    fn = os.path.join(ctx.dir(), "patterns.tsv")
    cols, sep = case["cols"], case["sep"]
    rows = [t for t in case["rows"] if t[1]]        # an empty cell is no pattern
    head, lines = (["ID"] if case["extra"] else []) + cols, []
    for n, t in enumerate(rows):
        lines.append(([str(n + 1)] if case["extra"] else []) + [show(t[0]), render(t, ["<-", "->"])])
    with open(fn, "w", encoding="utf-8") as f:
        f.write("".join(sep.join(x) + "\n" for x in [head] + lines))
    if not rows:
        return
    kw = {}
    if cols != ["Target Regex", "Feature Regex"]:
        kw.update(target_colname=cols[0], feature_colname=cols[1])
    if sep != "\t":
        kw["sep"] = sep
    got = (MacroGraph if case["macro"] else PatternGraph).read_csv(fn, **kw)
    assert len(got) == len(rows), "%d patterns from %d rows" % (len(got), len(rows))
    for n, (g, t, line) in enumerate(zip(got, rows, lines)):
        nodes, edges = numbered(t)
        gn, ge = {v: dict(a) for v, a in g.graph.nodes(data=True)}, {(a, b): {k: v for k, v in x.items() if k != "id"} for a, b, x in g.graph.edges(data=True)}
        assert gn == {v: a[1] for v, a in nodes.items()}, "row %d %r: nodes %r" % (n, line, gn)
        assert ge == {e: a[1] for e, a in edges.items()}, "row %d %r: edges %r" % (n, line, ge)
        assert g.repr_ == line[-1].strip()
        if len(nodes) >= 2:
            assert (not g.nonlinear) == is_path(len(nodes), edges), "row %d %r: linear %r" % (n, line, not g.nonlinear)
        if case["macro"]:
            assert g.target_idx == 1 and g.matched_nodes == [] and g.matched_edges == []
    ctx.nontrivial(len(rows) >= 2 and any(len(numbered(t)[0]) >= 3 for t in rows))
    ctx.label("rows=%d" % len(rows), "macros" if case["macro"] else "patterns")


LAWS = [Law("notation", cases(), body, quick=8000, thorough=200000, shards=4,
            rule="a pattern tree written in arrow notation and parsed; non-trivial if it has three nodes"),
        Law("tables", tables(), table_body, quick=1600, thorough=40000, shards=4,
            rule="a table of patterns with named groups; non-trivial if it has two patterns and one of three nodes")]
ASSUMPTIONS = ["expressions contain no arrow, no comma and no unbalanced bracket, and a relation does not start with a bracket (that opens a list)", "nodes of a table have one or two named groups, edges one; the last slash of a node is the one between its groups"]
