"""P22: type nodes and their tokens."""
import os
import random
from hypothesis import strategies as st
from lib import fakemp
fakemp.install()
from lib.core import Law
from nephosem.core.terms import ItemNode, TypeNode, TokenNode
from nephosem import utils

W = ["a", "b", "é", "日", "x y", "A", "1"]
FMT = ["lemma/pos", "word", "word/lemma/pos", "lemma", "pos/lemma"]
item = st.tuples(st.sampled_from(W), st.sampled_from(["N", "V"]), st.sampled_from(W))
tok = st.tuples(st.sampled_from(["f1", "f2", "é", "d/e/f1", "f.1"]), st.integers(1, 30), st.lists(item, max_size=3), st.lists(item, max_size=3))
cases = st.fixed_dictionaries({"main": item, "other": item, "toks": st.lists(tok, max_size=9, unique_by=lambda t: t[:2]) | st.lists(tok, max_size=9).map(lambda ts: ts + ts[:2]), "cuts": st.lists(st.integers(0, 9), max_size=4), "fmt": st.sampled_from(FMT),
                               "fmt2": st.sampled_from(FMT), "last": st.booleans(), "mixed": st.booleans(), "n": st.integers(0, 12), "method": st.sampled_from(["random", "random", "first"]), "seed": st.integers(0, 99),
                               "colloc": st.sampled_from(["lemma", "word", "lemma/pos", "word/pos"]), "enc": st.sampled_from(["utf-8", "utf-16"])})


def node(i):
    return ItemNode(word=i[0], pos=i[1], lemma=i[2])


def make(main, fmt, toks):
    val = {"word": main[0], "pos": main[1], "lemma": main[2]}
    objs = [TokenNode(word=main[0], pos=main[1], lemma=main[2], token_fmt="word/pos/lemma/fid/lid", fid=f, lid=l, lcollocs=[node(i) for i in lc], rcollocs=[node(i) for i in rc]) for f, l, lc, rc in toks]
    return TypeNode(type_str="/".join(val[c] for c in fmt.split("/")), type_fmt=fmt, tokens=objs)


def view(n):
    side = lambda xs: [(x.word, x.pos, x.lemma) for x in xs]
    return str(n), n.format, [(str(t), t.fid, t.lid, side(t.lcollocs), side(t.rcollocs)) for t in n.tokens]


def body(case, ctx):
    main, fmt, toks = case["main"], case["fmt"], case["toks"]
    val = {"word": main[0], "pos": main[1], "lemma": main[2]}
    name = "/".join(val[c] for c in fmt.split("/"))
    full = (name, fmt, [("/".join((main[0], main[1], main[2], f, str(l))), f, str(l), lc, rc) for f, l, lc, rc in toks])
    cuts = sorted(c % (len(toks) + 1) for c in case["cuts"])
    parts = [toks[i:j] for i, j in zip([0] + cuts, cuts + [len(toks)])]
    nodes = [make(main, fmt, p) for p in parts]
    before = [view(n) for n in nodes]
    m = TypeNode.merge(nodes)
    assert view(m) == full, "merged %r, expected %r" % (view(m), full)
    assert m.freq == len(toks)
    assert [view(n) for n in nodes] == before, "merging changed a node"
    assert len(m.get_collocs()) == len(m.collocs) == sum(len(t[2]) + len(t[3]) for t in toks)
    o = make(case["other"], fmt, toks[:2])
    oval = {"word": case["other"][0], "pos": case["other"][1], "lemma": case["other"][2]}
    other = "/".join(oval[c] for c in fmt.split("/"))
    try:
        TypeNode.merge(nodes + [o])
    except ValueError:
        assert other != name, "merging nodes of one type %r was rejected" % name
        ctx.label("rejected")
    else:
        assert other == name, "nodes of the types %r and %r were merged" % (name, other)
    try:        # the same name in another format is another type
        TypeNode.merge([TypeNode(type_str=name, type_fmt=f, tokens=n.tokens) for f, n in zip([fmt] * (len(nodes) - 1) + [case.get("fmt2", fmt)], nodes)] + ([TypeNode(type_str=name, type_fmt=fmt)] if case.get("last") else []))
    except ValueError:
        assert case.get("fmt2", fmt) != fmt, "merging nodes of one type %r was rejected" % name
    else:
        assert case.get("fmt2", fmt) == fmt or len(nodes) == 1 and not case.get("last"), "nodes of the type %r in the formats %r and %r were merged" % (name, fmt, case.get("fmt2", fmt))
    # samples
    random.seed(case["seed"])
    s = m.sample(n=case["n"], method=case["method"])
    vs = view(s)
    k = min(case["n"], len(toks))
    assert vs[:2] == full[:2] and s.freq == k == len(vs[2]), "sample of %d of %d tokens: %r" % (case["n"], len(toks), vs)
    rest = iter(full[2])
    assert all(any(t == u for u in rest) for t in vs[2]), "sampled tokens %r of %r" % (vs[2], full[2])
    if case["method"] == "first":
        assert vs[2] == full[2][:k], "the first %d tokens were asked for, got %r" % (k, vs[2])
    assert view(m) == full, "sampling changed the node"
    if s.tokens:        # independent of the original
        s.append_token(s.tokens[0])
        s.tokens[0].fid = "changed"
        assert view(m) == full, "changing the sample changed the node"
    # concordance
    f = os.path.join(ctx.dir(), "c.txt")
    utils.save_concordance(f, {name: m}, colloc_fmt=case["colloc"], encoding=case["enc"])
    with open(f, "rb") as fh:
        text = fh.read().decode(case["enc"])
    show = lambda i: "/".join({"word": i[0], "pos": i[1], "lemma": i[2]}[c] for c in case["colloc"].split("/"))
    want = "".join("%s\t%s\t%s\t%s\n" % (t[0], " ".join(map(show, t[3])), show(main), " ".join(map(show, t[4]))) for t in full[2])
    assert text == want, "concordance %r, expected %r" % (text, want)
    # files
    g = os.path.join(ctx.dir(), "n.json")
    m2 = TypeNode(word=main[0], pos=main[1], lemma=main[2], type_fmt=fmt, tokens=m.tokens)
    m2.save(g, encoding=case["enc"], verbose=False)
    back = TypeNode.load(g, encoding=case["enc"])
    assert view(back) == full and (back.word, back.pos, back.lemma) == main, "loaded %r, saved %r" % (view(back), full)
    if m.tokens:        # independent of the merged ones
        m.append_token(m.tokens[0])
        m.tokens[0].fid = "changed"
        m.tokens[0].lcollocs.append(node(main))
    else:
        m.append_token(make(main, fmt, [["f9", 1, [], []]]).tokens[0])
    assert [view(n) for n in nodes] == before, "changing the merged node changed a node it was merged from"
    ctx.nontrivial(len(toks) >= 3 and len(parts) >= 2)
    ctx.label(case["method"], "%d nodes" % len(parts), "n>freq" if case["n"] > len(toks) else "n<=freq", fmt)


pos_cases = st.fixed_dictionaries({"main": item, "toks": st.lists(tok, max_size=6, unique_by=lambda t: t[:2]), "colloc": st.sampled_from(["lemma", "word", "lemma/pos", "word/pos"]),
                                   "spans": st.tuples(st.integers(0, 4), st.integers(0, 4)), "known": st.one_of(st.none(), st.lists(item, max_size=5))})


def pos_body(case, ctx):
    """read_token_colloc: the positions of the context words within the spans."""
    from nephosem import Vocab
    from nephosem.models.typetoken import read_token_colloc
    main, toks, (ls, rs) = case["main"], case["toks"], case["spans"]
    show = lambda i: "/".join({"word": i[0], "pos": i[1], "lemma": i[2]}[c] for c in case["colloc"].split("/"))
    known = None if case["known"] is None else sorted({show(i) for i in case["known"]}) or None
    n = make(main, "lemma/pos", toks)
    before = view(n)
    got = read_token_colloc(n, colloc_vocab=Vocab({k: 1 for k in known}) if known else None, settings={"left-span": ls, "right-span": rs, "colloc": case["colloc"]})
    want = {}
    for f, l, lc, rc in toks:
        name = "/".join((main[0], main[1], main[2], f, str(l)))
        near = [(-i - 1, show(x)) for i, x in enumerate(lc[::-1][:ls])] + [(i + 1, show(x)) for i, x in enumerate(rc[:rs])]
        for at, x in near:
            if known is None or x in known:
                want.setdefault(name, {}).setdefault(x, set()).add(at)
    assert {k: set(v) for k, v in got.items()} == {k: set(v) for k, v in want.items()}, "context words %r, expected %r" % (got, want)
    for k in want:
        for x in want[k]:
            assert got[k][x] in want[k][x], "%r of %r at %r, it is at %r" % (x, k, got[k][x], want[k][x])
    assert view(n) == before, "the node was changed"
    ctx.nontrivial(sum(len(v) for v in want.values()) >= 3)
    ctx.label("vocabulary" if known else "all words", "cut" if any(len(t[2]) > ls or len(t[3]) > rs for t in toks) else "whole")


LAWS = [Law("positions", pos_cases, pos_body, quick=2000, thorough=40000, shards=2, rule="context words of the tokens of a node within spans; non-trivial with three or more positions"),
        Law("nodes", cases, body, quick=6000, thorough=150000, shards=8, rule="tokens of a type split into nodes, sample size and method; non-trivial with three or more tokens in two or more nodes")]
ASSUMPTIONS = ["saved nodes have word, part of speech and lemma"]
