"""Generators and brute-force oracle for dependency patterns, macros and sentences (plain data)."""
import itertools
import re
from hypothesis import strategies as st

LEMMAS = ["a", "b", "ab", "é", "c", "a\x85b", "B", " a"]
POSS = ["N", "V", "NN", "VB"]
RELS = ["r", "s", "rs", "nsubj", "nsubj:pass", "ré", "r:s:t"]
REGEX = {"word": [r"(\w+)", r"\w+", ".*", "(A)", r"(.)(.*)"],
         "lemma": [r"(\w+)", "(a)|(b)", r"(\w+)", r"\w+", "(a)", "(a)$", "(a|b)", r"a(\w*)", "b", r"(.)(.*)", "(x*)", "(a?)b?"],
         "pos": [r"(N)\w*", r"(V)\w*", r"(\w+)", r"\w+", r"(N|V)", "N$", r"(\w)(\w*)", "(X?)", r"(N)|V\w*"],
         "deprel": [r"(\w+)", r"(r)", r"r", r"(\w*)", ".*", "(r|s)$", r"(n\w+)", r"([\w:]+)", r"s(.*)", "(nsubj:pass)", "(x*)", "(r)|(s)", r"(\w)(\w+)?"]}
VALUES = {"word": ["A", "aa", "b", "é"], "lemma": LEMMAS, "pos": POSS, "deprel": RELS}


@st.composite
def tree_parents(draw, n):
    """parent index (0 = none) of each node 1..n, parents before children in a drawn order"""
    return [0 if i == 0 else draw(st.integers(0, i - 1)) + 1 for i in range(n)]


@st.composite
def sentence(draw, max_nodes=7, kinds=("tree",), min_nodes=1):
    """{'tokens': [[word, lemma, pos, id, head, deprel]...]} in line order; head 0 is the artificial root."""
    kind = draw(st.sampled_from(list(kinds)))
    n = max(draw(st.integers(min_nodes, max_nodes)), draw(st.integers(min_nodes, max_nodes)))
    par = draw(tree_parents(n))
    ids = draw(st.permutations(range(1, n + 1)))
    shift = draw(st.sampled_from([0, 0, 0, 10]))
    ids = [i + shift for i in ids]
    bushy = draw(st.booleans())
    if bushy:
        par = [0] + [1 + (p - 1) % min(2, i) if i else 0 for i, p in list(enumerate(par))[1:]]
    few = draw(st.booleans())
    toks = []
    for i in range(n):
        v = {a: draw(st.sampled_from(VALUES[a][:2] if few else VALUES[a])) for a in ("word", "lemma", "pos", "deprel")}
        toks.append([v["word"], v["lemma"], v["pos"], ids[i], ids[par[i] - 1] if par[i] else 0, v["deprel"]])
    if kind != "tree" and n >= 2:
        k = draw(st.integers(0, n - 1))
        if kind == "cycle":
            toks[k][4] = toks[k][3]
            toks[0][4] = toks[draw(st.integers(0, n - 1))][3]
        elif kind == "missing":
            toks[k][4] = 99
        elif kind == "random":
            for t in toks:
                t[4] = draw(st.sampled_from([0] + ids))
    toks = draw(st.permutations(toks))
    return [list(t) for t in toks]


def sent_graph(toks, lids=None):
    """nodes {id: attrs}, edges {(head, dep): attrs} as a sentence graph has them (attribute-less nodes for bare heads)."""
    nodes, edges = {}, {}
    for n, (word, lemma, pos, i, head, rel) in enumerate(toks):
        nodes.setdefault(i, {}).update(word=word, lemma=lemma, pos=pos)
        if lids:
            nodes[i]["lid"] = lids[n]
        edges[head, i] = {"deprel": rel}
    for h, d in list(edges):
        nodes.setdefault(h, {})
        nodes.setdefault(d, {})
    return nodes, edges


def is_tree(nodes, edges):
    if len(edges) != len(nodes) - 1:
        return False
    adj = {v: set() for v in nodes}
    for a, b in edges:
        adj[a].add(b)
        adj[b].add(a)
    seen, todo = set(), [next(iter(nodes))]
    while todo:
        v = todo.pop()
        if v not in seen:
            seen.add(v)
            todo.extend(adj[v] - seen)
    return len(seen) == len(nodes)


@st.composite
def pattern(draw, max_nodes=5, root1=False, all_attrs=("lemma", "pos"), optional=True, bias=2):
    """{'nodes': [[id, {attr: regex}]...], 'edges': [[from, to, {deprel: regex}]...]}"""
    n = draw(st.sampled_from([1, 2, 2, 2, 3, 3, 3, 4, 4, 5][:10 if max_nodes >= 5 else 8]))
    par = draw(tree_parents(n))
    if draw(st.booleans()) and n > 2:
        par = [0] + [1] * (n - 1)
    names = list(range(1, n + 1)) if root1 else draw(st.permutations(range(1, n + 1)))
    general = draw(st.integers(0, 3)) < bias
    nodes = []
    for i in range(n):
        attrs = {}
        for a in all_attrs:
            attrs[a] = draw(st.sampled_from([r"(\w+)", r"\w+", ".*"] if general and draw(st.booleans()) else REGEX[a]))
        if optional and not (general and draw(st.booleans())):
            for a in draw(st.lists(st.sampled_from(["word", "lemma", "pos"]), max_size=2, unique=True)):
                attrs.setdefault(a, draw(st.sampled_from(REGEX[a])))
        nodes.append([names[i], attrs])
    order = draw(st.permutations(range(n)))
    edges = []
    for i in range(1, n):
        rel = {"deprel": draw(st.sampled_from([r"(\w+)", ".*", r"([\w:]+)"] if general and draw(st.booleans()) else REGEX["deprel"]))}
        if optional and not all_attrs and draw(st.integers(0, 7)) == 0:
            rel = {}
        edges.append([names[par[i] - 1], names[i], rel])
    return {"nodes": [nodes[i] for i in order], "edges": list(draw(st.permutations(edges))) if len(edges) > 1 else edges}


def embeddings(nodes, edges, patt):
    """All injective, edge-, direction- and attribute-preserving mappings {pattern node: sentence node} (brute force)."""
    pn = {i: a for i, a in patt["nodes"]}
    cand = {}
    for i, attrs in pn.items():
        cand[i] = [v for v, val in nodes.items() if val and all(re.match(rx, val[a]) for a, rx in attrs.items())]
    order = []       # every node after one it is connected to
    while len(order) < len(pn):
        near = [i for i in pn if i not in order and any(i in e[:2] and (e[0] in order or e[1] in order) for e in patt["edges"])]
        order.append((near or [i for i in pn if i not in order])[0])
    out = []

    def rec(k, cur):
        if k == len(order):
            for a, b, attrs in patt["edges"]:
                e = edges.get((cur[a], cur[b]))
                if e is None or not all(re.match(rx, e[x]) for x, rx in attrs.items()):
                    return
            out.append(dict(cur))
            return
        for v in cand[order[k]]:
            if v in cur.values():
                continue
            ok = True
            for a, b, _ in patt["edges"]:       # prune early: edges among the assigned nodes
                if a == order[k] and b in cur and (v, cur[b]) not in edges or b == order[k] and a in cur and (cur[a], v) not in edges:
                    ok = False
                    break
            if ok:
                cur[order[k]] = v
                rec(k + 1, cur)
                del cur[order[k]]
    rec(0, {})
    return out


def group(regex, value, gid):
    m = re.match(regex, value)
    try:
        g = m.group(gid)
    except IndexError:
        return "*"
    return "*" if g is None else g


def node_label(fmt, patt_attrs, attrs):
    return "/".join(group(patt_attrs[a], attrs[a], g) for a, g in fmt)


def target_label(macro, patt, emb, nodes, mode="type", fid=None):
    pn = {i: a for i, a in patt["nodes"]}
    t = macro["target"]
    vals = []
    for a, g in macro["target_fmt"]:
        if a in ("fid", "lid"):
            if mode == "token":
                vals.append(str(fid if a == "fid" else nodes[emb[t]]["lid"]))
            continue
        vals.append(group(pn[t][a], nodes[emb[t]][a], g))
    return "/".join(vals)


def target_full(macro, emb, nodes):
    return "/".join(nodes[emb[macro["target"]]][a] for a, _ in macro["target_fmt"] if a not in ("fid", "lid"))


def feature_labels(macro, patt, emb, nodes, edges):
    """Set of admissible feature labels (siblings are sorted by their 'relation:node' text - the target's own or '#T#' -; ties may come in any order)."""
    pn = {i: a for i, a in patt["nodes"]}
    fmt = macro["feature_fmt"]
    if macro["feature"] != -1:
        f = macro["feature"]
        return {node_label(fmt, pn[f], nodes[emb[f]])}
    kids = {}
    eat = {}
    for a, b, attrs in patt["edges"]:
        kids.setdefault(a, []).append(b)
        eat[a, b] = attrs

    def text(v):
        return node_label(fmt, pn[v], nodes[emb[v]])

    def shown(v):
        return "#T#" if v == macro["target"] else text(v)

    def rel(a, b):
        e = edges[emb[a], emb[b]]
        return "/".join(group(eat[a, b][x], e[x], g) for x, g in macro["edge_fmt"])

    def sub(v):
        ks = kids.get(v, [])
        if not ks:
            return {""}
        if len(ks) == 1:
            k = ks[0]
            return {"->" + rel(v, k) + ":" + shown(k) + s for s in sub(k)}
        keys = [{k: rel(v, k) + ":" + f(k) for k in ks} for f in (text, shown)]
        out = set()
        for perm in itertools.permutations(ks):
            if all(any(key[perm[i]] > key[perm[i + 1]] for i in range(len(perm) - 1)) for key in keys):
                continue
            parts = [{rel(v, k) + ":" + shown(k) + s for s in sub(k)} for k in perm]
            for combo in itertools.product(*parts):
                out.add("->[" + ",".join(combo) + "]")
        return out
    return {shown(1) + s for s in sub(1)}


def padded(case, n, spread):
    """The same corpus; every sentence that is a tree has n more words in front of it. They hang, in chains of `spread`, from its first word."""
    lm, sepm = (re.compile(case["settings"][k]) for k in ("line-machine", "separator-line-machine"))
    pos = {c: i for i, c in enumerate(case["cols"])}
    files = []
    for p, lines, eol, final in case["files"]:
        out, cur = [], []
        for raw in lines + [None]:
            line = raw and raw.strip()
            if raw is not None and not sepm.match(line):
                cur.append(raw)
                continue
            toks = [m.groups() for m in (lm.match(x.strip()) for x in cur) if m]
            got = [[v[pos[c]] for c in COLS] for v in toks]
            got = [g[:3] + [int(g[3]), int(g[4]), g[5]] for g in got]
            if got and is_tree(*sent_graph(got)):
                for k in range(n):
                    head = got[0][3] if k % spread == 0 else 1000 + k - 1
                    t = dict(zip(COLS, map(str, [VALUES["word"][k % 3], LEMMAS[k % 4], POSS[k * k % 4], 1000 + k, head, RELS[k % 5]])))
                    out.append("\t".join(t[c] for c in case["cols"]))
            out += cur
            cur = []
            if raw is not None:
                out.append(raw)
        files.append([p, out, eol, final])
    return dict(case, files=files)


@st.composite
def macro(draw, npatt_nodes, token=False):
    target = draw(st.sampled_from(npatt_nodes))
    feature = draw(st.sampled_from([-1, -1] + npatt_nodes))
    attrs = st.sampled_from([["lemma", "pos"], ["lemma", "pos"], ["pos", "lemma"], ["lemma"], ["pos"]])
    tf = [[a, draw(st.sampled_from([1, 1, 1, 0, 2]))] for a in draw(attrs)]
    if token:
        tf += [["fid", 1], ["lid", 1]] if draw(st.booleans()) else [["lid", 1]]
        if draw(st.integers(0, 3)) == 0:
            tf = [tf[-1]] + tf[:-1]
    ff = [[a, draw(st.sampled_from([1, 1, 1, 0, 2]))] for a in draw(attrs)]
    return {"target": target, "feature": feature, "target_fmt": tf, "feature_fmt": ff,
            "edge_fmt": [["deprel", draw(st.sampled_from([1, 1, 1, 0]))]]}


def build_pattern(patt, id=1):
    from nephosem.core.graph import PatternGraph
    p = PatternGraph(nodes={i: dict(a) for i, a in patt["nodes"]}, edges={(a, b): dict(x) for a, b, x in patt["edges"]})
    p.id = id
    return p


def build_macro(mac, patt, id=1):
    from nephosem.core.graph import MacroGraph
    m = MacroGraph(build_pattern(patt, id), target_idx=mac["target"], feature_idx=mac["feature"])
    m.id = id
    m.target_node_attrs = {a: g for a, g in mac["target_fmt"]}
    m.feature_node_attrs = {a: g for a, g in mac["feature_fmt"]}
    m.feature_edge_attrs = {a: g for a, g in mac["edge_fmt"]}
    return m


# ------------------------------------------------------------------ corpora of sentences
COLS = ["word", "lemma", "pos", "id", "head", "deprel"]


@st.composite
def dep_corpus(draw, max_files=3, max_sents=4, max_nodes=6, min_files=1, kinds=("tree",) * 7 + ("cycle", "missing", "random")):
    cols = list(draw(st.permutations(COLS)))
    sep = draw(st.sampled_from(["</s>", r"<[^\t>]+>$", "</?s"]))
    sett = {"line-machine": "\t".join(["([^\t]+)"] * 6), "type": "lemma/pos", "token": "lemma/pos/fid/lid", "colloc": "lemma",
            "boundary-detection-mechanism": "single", "separator-line-machine": sep, "single-boundary-machine": sep,
            "node-attr": ",".join(draw(st.permutations(["word", "lemma", "pos"]))), "edge-attr": "deprel",
            "left-span": 2, "right-span": 2}
    sett[draw(st.sampled_from(["line-format", "global-columns"]))] = ",".join(cols)
    names = [("id", "head")] * 3 + [("ID", "HEAD")]
    idn, hn = draw(st.sampled_from(names))
    if idn == "ID":
        cols2 = ["ID" if c == "id" else "HEAD" if c == "head" else c for c in cols]
        for k in ("line-format", "global-columns"):
            if k in sett:
                sett[k] = ",".join(cols2)
        sett["currID"], sett["headID"] = "ID", "HEAD"
    enc = draw(st.sampled_from([None, "utf-8", "latin-1"]))
    if enc:
        sett["file-encoding"] = enc
    from lib.gen import PATHS
    paths = draw(st.lists(st.sampled_from(PATHS[:9]), min_size=min_files, max_size=max_files, unique=True))
    files = []
    for p in paths:
        lines = []
        n = max(draw(st.integers(0, max_sents)), draw(st.integers(0, max_sents)))
        for k in range(n):
            if draw(st.integers(0, 4)) == 0:
                lines.append("<s>")
            for t in draw(sentence(max_nodes, kinds)):
                d = dict(zip(COLS, map(str, t)))
                lines.append("\t".join(d[c] for c in cols))
                if draw(st.integers(0, 14)) == 0:
                    lines.append(draw(st.sampled_from(["junk", "", "a\tb\tc", "x\x0cy", "q\x85"])))
            if k < n - 1 or draw(st.booleans()):
                lines.append("</s>")
                if draw(st.integers(0, 9)) == 0:
                    lines.append("</s>")
        files.append([p, lines, "\n", draw(st.booleans())])
    return {"settings": sett, "cols": cols, "files": files}


def corpus_sentences(case):
    """[(file base name, toks, lids)] by independent reading."""
    sett = case["settings"]
    lm, sepm = re.compile(sett["line-machine"]), re.compile(sett["separator-line-machine"])
    pos = {c: i for i, c in enumerate(case["cols"])}
    out = []
    for path, lines, _, _ in case["files"]:
        base = path.rsplit("/", 1)[-1]
        base = base.rsplit(".", 1)[0]
        cur, lids = [], []
        for n, raw in enumerate(lines, 1):
            line = raw.strip()
            if sepm.match(line):
                out.append((base, cur, lids))
                cur, lids = [], []
                continue
            m = lm.match(line)
            if m:
                v = [m.group(pos[c] + 1) for c in COLS]
                cur.append([v[0], v[1], v[2], int(v[3]), int(v[4]), v[5]])
                lids.append(n)
        out.append((base, cur, lids))
    return [s for s in out if s[1]]


def expected_counts(case):
    """{(target, frozenset of admissible feature labels): count}"""
    out = {}
    targets = None if case["targets"] is None else set(case["targets"])
    for base, toks, lids in corpus_sentences(case):
        nodes, edges = sent_graph(toks, lids)
        if not is_tree(nodes, edges):
            continue
        for mac in case["macros"]:
            patt = case["patterns"][mac["pattern"]]
            for emb in embeddings(nodes, edges, patt):
                if targets is not None and target_full(mac, emb, nodes) not in targets:
                    continue
                k = (target_label(mac, patt, emb, nodes, case["mode"], base), frozenset(feature_labels(mac, patt, emb, nodes, edges)))
                out[k] = out.get(k, 0) + 1
    return out
