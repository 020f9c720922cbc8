"""P25: which corpus files a task processes."""
import os
from hypothesis import strategies as st
from lib import fakemp
fakemp.install()
from lib import corp
from lib.core import Law
from nephosem import ItemFreqHandler
from nephosem.utils import read_fnames

NAMES = ["a.txt", "b.txt", "c d.txt", "é.txt", "noext", ".hidden", "a.conll", "#x.txt", "list.fnames", "1", "A.txt", "日.txt", "a.txt.bak", "x#y", "p\x85q.txt", "l\u2028f.txt", "f\x0cg"]
DIRS = ["", "d", "d/e", "z", "é", "d d", "a.txt.d", ".h"]
ENC = [None, "utf-8", "utf-8", "latin-1", "utf-16"]
COMMENTS = ["# a.txt", "#", "  # x", "", "   ", "\t", "#x.txt", "##"]


@st.composite
def cases(draw):
    paths = draw(st.lists(st.tuples(st.sampled_from(DIRS), st.sampled_from(NAMES)).map(lambda x: (x[0] + "/" + x[1]).lstrip("/")), max_size=8, unique=True))
    enc = draw(st.sampled_from(ENC))
    how = draw(st.sampled_from(["all", "file", "file", "file", "list"]))
    n = len(paths)
    lines = []
    if how != "all":
        for i in draw(st.lists(st.integers(-1, max(0, n - 1)), max_size=9)):
            if i < 0 or not n:
                lines.append(["text", draw(st.sampled_from(COMMENTS))])
            else:
                lines.append(["path", i, draw(st.sampled_from(["", "", "", " ", "\t"])), draw(st.sampled_from(["", "", "", " ", " \t"])), draw(st.sampled_from(["full", "full", "relative", "dotted"]))])
    return {"paths": paths, "enc": enc, "how": how, "lines": lines, "eol": draw(st.sampled_from(["\n", "\n", "\r\n"])), "end": draw(st.booleans()),
            "ext": draw(st.booleans()), "listname": draw(st.sampled_from(["sel", "sel.v1", "s l", "sel.txt"])), "ask": draw(st.sampled_from(["dir", "plain"])),
            "workers": draw(st.sampled_from([1, 1, 2, 3])), "slash": draw(st.booleans())}


def body(case, ctx):
    here = os.getcwd()
    root = ctx.dir()
    os.chdir(root)
    try:
        inside(case, ctx, root)
    finally:
        os.chdir(here)


def inside(case, ctx, root):
    cp = os.path.join(root, "corpus")
    os.makedirs(cp)
    enc = case["enc"] or "utf-8"
    paths = [p for p in case["paths"] if enc != "latin-1" or "日" not in p and "\u2028" not in p]
    made, words = [], {}
    for n, p in enumerate(paths):
        f = os.path.join(cp, p)
        try:
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, "w", encoding=enc) as out:
                out.write("w%d\tN\n" % n)
        except (FileExistsError, NotADirectoryError, IsADirectoryError):     # a file and a directory of one name
            continue
        made.append(p)
        words[p] = "w%d/N" % n
    if not made:
        return
    sett = {"line-machine": "([^\t]+)\t([^\t]+)", "line-format": "word,pos", "type": "word/pos", "token": "word/pos/fid/lid", "boundary-detection-mechanism": "single",
            "separator-line-machine": "</s>", "single-boundary-machine": "</s>", "corpus-path": cp, "output-path": os.path.join(root, "out"), "tmp-path": os.path.join(root, "tmp")}
    if case["enc"]:
        sett["file-encoding"] = case["enc"]
    listed, text = [], []
    for l in case["lines"]:
        if l[0] == "text":
            text.append(l[1])
            continue
        p = made[l[1] % len(made)]
        plain = "/" not in p
        if plain and p.startswith("#"):
            plain = case["how"] == "list"
        name = p if plain and case["how"] == "file" else {"full": cp + "/", "relative": "corpus/", "dotted": "./corpus/"}[l[4] if len(l) > 4 else "full"] + p
        listed.append((name, p))
        text.append(l[2] + name + l[3])
    h = ItemFreqHandler(sett, workers=case["workers"])
    if case["how"] == "all":
        want, arg = [os.path.join(cp, p) for p in made], None
        got = h.prepare_fnames(arg)
        assert sorted(got) == sorted(want), "files without a list: %r, expected %r" % (got, want)
        picked = made
    elif case["how"] == "list":
        arg = [n for n, _ in listed]
        got = h.prepare_fnames(list(arg))
        assert got == arg, "given list %r, processed %r" % (arg, got)
        picked = [p for _, p in listed]
    else:
        base = os.path.join(root, case["listname"])
        with open(base + ".fnames", "w", encoding=enc, newline="") as f:
            f.write(case["eol"].join(text) + (case["eol"] if case["end"] else ""))
        arg = base + ".fnames" if case["ext"] else base
        want = [n if "/" in n else cp + "/" + n for n, _ in listed]
        got = h.prepare_fnames(arg)
        assert got == want, "file list %r gives %r, expected %r" % (text, got, want)
        d = cp if case["ask"] == "dir" else "x/y"
        got = read_fnames(arg, dirname=d, encoding=enc)
        want2 = [n if "/" in n else d + "/" + n for n, _ in listed]
        assert got == want2, "file list %r relative to %r gives %r, expected %r" % (text, d, got, want2)
        with open(base + ".fnames", "rb") as f:
            assert f.read().decode(enc) == case["eol"].join(text) + (case["eol"] if case["end"] else "")
        picked = [p for _, p in listed]
    with fakemp.scheduled([], 9):
        v = h.build_item_freq(fnames=arg)
    exp = {}
    for p in picked:
        exp[words[p]] = exp.get(words[p], 0) + 1
    got = {k: v[k] for k in v.keys()}
    assert got == exp, "words of the processed files %r, expected %r" % (got, exp)
    ctx.nontrivial(len(picked) >= 2 and (case["how"] != "file" or len(text) > len(listed) or any("/" not in n for n, _ in listed)))
    ctx.label("how " + case["how"], "encoding %s" % case["enc"], "repeated" if len(set(picked)) < len(picked) else "once", "relative" if any(n[0] != "/" and "/" in n for n, _ in listed) else "no relative paths", "nested" if any("/" in p for p in picked) else "top level")


LAWS = [Law("selection", cases(), body, quick=1600, thorough=40000, shards=8,
            rule="a directory tree and a way to select files; non-trivial if two files are selected, through a list with comments, blank lines or base names where a list is used")]
ASSUMPTIONS = ["file names in a list do not start or end with blanks and contain no line end", "a listed name that starts with '#' is a comment"]
