"""P21: corpus lines as types, collocates and tokens; accepted and rejected settings."""
from copy import deepcopy
from hypothesis import strategies as st
from lib import fakemp
fakemp.install()
from lib import gen
from lib.core import Law
from nephosem.core.terms import CorpusFormatter, ItemNode, TypeNode, TokenNode

PAT = {"any": "([^\t]+)", "first": "([^\t])[^\t]*", "skip": "[^\t]+"}
words = st.one_of(st.sampled_from(["a", "b", "é", "日本", "x y", "a/b", "1", "</s>", "\\w", "A"]), st.text(st.characters(blacklist_characters="\t\n\r", blacklist_categories=("Cs", "Zs", "Cc")), min_size=1, max_size=4))


@st.composite
def cases(draw):
    cols = draw(st.lists(st.sampled_from(["word", "lemma", "pos", "id", "x", "morph"]), min_size=1, max_size=6, unique=True))
    pats = [draw(st.sampled_from(["any", "any", "any", "first"])) for _ in cols]
    fmt = lambda: "/".join(draw(st.lists(st.sampled_from(cols), min_size=1, max_size=3, unique=True)))
    return {"cols": cols, "pats": pats, "key": draw(st.sampled_from(["line-format", "global-columns"])), "type": fmt(), "token": fmt() + "/fid/lid",
            "colloc": draw(st.sampled_from([None, fmt()])),
            "line": [draw(words) for _ in cols], "extra": draw(st.booleans()), "fid": draw(st.sampled_from(["f1", "d/f2", "é.x"])), "lid": draw(st.integers(1, 10 ** 6))}


def body(case, ctx):
    cols = case["cols"]
    sett = {"line-machine": "\t".join(PAT[p] for p in case["pats"]), case["key"]: ",".join(cols), "type": case["type"], "token": case["token"],
            "boundary-detection-mechanism": "single", "separator-line-machine": "</s>", "single-boundary-machine": "</s>"}
    if case["colloc"]:
        sett["colloc"] = case["colloc"]
    f = CorpusFormatter(deepcopy(sett))
    line = "\t".join(case["line"]) + ("\textra" if case["extra"] else "")
    m = f.match_line(line)
    assert m, "the line %r does not match" % line
    val = {c: (v if p == "any" else v[0]) for c, v, p in zip(cols, case["line"], case["pats"])}
    join = lambda fmt: "/".join(val[c] for c in fmt.split("/"))
    fid, lid = case["fid"], str(case["lid"])
    ty, co = join(case["type"]), join(case["colloc"] or case["type"])
    tk = join(case["token"][:-len("/fid/lid")]) + "/" + fid + "/" + lid
    got = (f.get_type(m), f.get_colloc(m), f.get_token(m, fid, lid))
    assert got == (ty, co, tk), "type, collocate, token: %r, expected %r" % (got, (ty, co, tk))
    assert (f.get(m, "type"), f.get(m, "colloc"), f.get(m, "token", fid, lid)) == (ty, co, tk)
    for c in cols:
        assert f.get(m, c) == val[c], "column %r: %r, expected %r" % (c, f.get(m, c), val[c])
    assert f.type_format == case["type"] and f.token_format == case["token"] and f.colloc_format == (case["colloc"] or case["type"])
    plain = {"word", "lemma", "pos"}
    fmts = set(case["type"].split("/")) | set((case["colloc"] or case["type"]).split("/")) | set(case["token"].split("/")[:-2])
    if fmts <= plain:
        it = ItemNode(match=m, formatter=f)
        assert (it.to_type(), it.to_colloc()) == (ty, co), "node: %r" % ((it.to_type(), it.to_colloc()),)
        for c in plain & set(cols):
            assert getattr(it, c) == val[c]
            assert it.to_type(c) == val[c] and it.to_colloc(c) == val[c]
        tn = TypeNode(match=m, formatter=f)
        assert str(tn) == tn.type == ty and tn.freq == 0
        kn = TokenNode(match=m, formatter=f, fid=fid, lid=case["lid"])
        assert str(kn) == kn.token == tk, "token node %r, expected %r" % (kn.token, tk)
        # back from the strings
        if not any("/" in val[c] for c in fmts):
            a = TypeNode(type_str=ty, type_fmt=case["type"])
            assert a.type == ty and all(getattr(a, c) == (val[c] if c in case["type"].split("/") else None) for c in plain), "parsed type %r as %r" % (ty, a.__dict__)
            if "/" not in fid:
                b = TokenNode(token_str=tk, token_fmt=case["token"])
                assert b.token == tk and b.fid == fid and b.lid == lid and all(getattr(b, c) == val[c] for c in case["token"].split("/")[:-2])
                b2 = TokenNode(token_fmt=case["token"], fid=fid, lid=case["lid"], **{c: val[c] for c in case["token"].split("/")[:-2]})
                assert b2.token == tk
            for bad in (ty + "/more", "/".join(ty.split("/")[:-1])):
                if bad:
                    try:
                        TypeNode(type_str=bad, type_fmt=case["type"])
                    except ValueError:
                        pass
                    else:
                        raise AssertionError("type string %r was accepted for the format %r" % (bad, case["type"]))
            ctx.label("parsed back")
    ctx.nontrivial(len(cols) >= 2 and case["type"] != ",".join(cols).replace(",", "/"))
    ctx.label("%d columns" % len(cols), "colloc given" if case["colloc"] else "colloc default", case["key"])


OPT = ["line-machine", "type-line-machine", "colloc-line-machine", "token-line-machine", "global-columns", "line-format", "separator-line-machine", "single-boundary-machine",
       "left-boundary-machine", "right-boundary-machine", "colloc"]
settings_cases = st.fixed_dictionaries({"keys": st.lists(st.sampled_from(OPT), min_size=1, max_size=11, unique=True), "mech": st.sampled_from(["single", "single", "left-right", "other", None]),
                                        "line": st.sampled_from(["<a>", "</a>", "<b>", "x\ty"])})
VALUES = {"line-machine": "(\\w+)\t(\\w+)", "type-line-machine": "(\\w+)\t(\\w+)", "colloc-line-machine": "(\\w+)\t(\\w+)", "token-line-machine": "(\\w+)\t(\\w+)", "global-columns": "word,pos",
          "line-format": "word,pos", "separator-line-machine": "</a>", "single-boundary-machine": "</a>", "left-boundary-machine": "<a>", "right-boundary-machine": "</a>", "colloc": "word"}


def settings_body(case, ctx):
    keys = set(case["keys"])
    sett = {k: VALUES[k] for k in keys}
    sett.update({"type": "word/pos", "token": "word/fid/lid"})
    if case["mech"]:
        sett["boundary-detection-mechanism"] = case["mech"]
    line_ok = keys & {"line-machine", "type-line-machine", "colloc-line-machine", "token-line-machine"}
    cols_ok = keys & {"global-columns", "line-format"}
    if case["mech"] == "single":
        bound_ok = keys & {"separator-line-machine", "single-boundary-machine"}
    elif case["mech"] == "left-right":
        bound_ok = {"left-boundary-machine", "right-boundary-machine"} <= keys
    else:
        bound_ok = False
    ok = bool(line_ok and cols_ok and bound_ok)
    try:
        f = CorpusFormatter(dict(sett))
    except (ValueError, KeyError) as e:
        assert not ok, "complete settings %r rejected: %r" % (sett, e)
        ctx.label("rejected")
    else:
        assert ok, "incomplete settings %r accepted" % sett
        ctx.label("accepted")
        line = case["line"]
        if case["mech"] == "single":
            assert bool(f.separator_line_machine(line)) == (line == "</a>") and bool(f.single_bound_machine(line)) == (line == "</a>")
        else:
            assert bool(f.left_bound_machine(line)) == (line == "<a>") and bool(f.right_bound_machine(line)) == (line == "</a>")
        for form in (None, "type", "colloc", "token"):
            key = (form + "-" if form else "") + "line-machine"
            first = [k for k in ("line-machine", "type-line-machine", "colloc-line-machine", "token-line-machine") if k in keys][0]
            if key == first:
                m = f.match_line(line, form)
                assert bool(m) == (line == "x\ty")
                if m:
                    assert f.get_type(m) == "x/y" and f.get_token(m, "f", "3") == "x/f/3" and f.get_colloc(m) == ("x" if "colloc" in keys else "x/y")
    ctx.nontrivial(len(keys) >= 3)


LAWS = [Law("lines", cases(), body, quick=6000, thorough=150000, shards=6, rule="column order, patterns, formats and a line; non-trivial with two or more columns that are not all of the type in file order"),
        Law("settings", settings_cases, settings_body, quick=4000, thorough=60000, shards=2, rule="settings with required keys present or missing; non-trivial with three or more of them")]
ASSUMPTIONS = ["column values contain no tab or line end and no surrounding blanks", "strings are parsed back if their components contain no '/'",
               "of the two column keys one is given; if both boundary machines are given they are equal"]
