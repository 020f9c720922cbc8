"""Generators shared by the checks. Every strategy yields plain data (dict/list/tuple/str/int/float/bool/None)."""
import re
from hypothesis import strategies as st

# ------------------------------------------------------------------ labels and text
LABEL_POOL = ["a", "b", "ab", "c", "B", "a/N", "b/N", "ab/V", "c/V", "é", "日", "x y", "Ω/N", "10", "2", "a/N/f1/3", "#", "A"]
labels = st.one_of(st.sampled_from(LABEL_POOL[:10]), st.sampled_from(LABEL_POOL))


@st.composite
def unique_labels(draw, lo, hi, pool=None):
    return draw(st.lists(st.sampled_from(pool or LABEL_POOL), min_size=lo, max_size=hi, unique=True))


# ------------------------------------------------------------------ corpora
WORDS = ["a", "b", "ab", "é", "A", "the", "c", "x y", "1/2", "d.", "ß", "k-l", "a\x85b", "p\x0cq", "a\x1cb", "#5", "x_", '"q']   # only \n and \r end a line
UWORDS = WORDS + ["日", "Ω", "a\u2028b", "u\u2029v", "z\u3000"]
POS = ["N", "V", "NN", "VB", "Vz", "n"]
COLPAT = {"any": "([^\t]+)", "first": "([^\t])[^\t]*", "wordy": r"([\w/-]+)"}
SEPS = ["</s>", "<s", r"</?art>", r"<[^>\t]+>$"]
SEPLINES = ["</s>", "<s id=1>", "</art>", "<art>", "<x>"]
JUNK = ["junk", "", "  ", "a b", "x</s>", "#", "a\tb", "<!-- -->", "  <k", "\t", "a\t", "</ s>", "x\x85a\tN\tb", "a\tb\x0cc\td", "\x0c"]
PATHS = ["f1.txt", "f2.txt", "d/f1.txt", "d/e/f3.x.txt", "noext", "d/f 4.txt", "é.txt", "f1.conll", "e/f2.txt", "d/f1"]


@st.composite
def corpus_settings(draw, min_cols=2):
    cols = draw(st.permutations(["word", "lemma", "pos"]))
    cols = cols[:draw(st.sampled_from([3, 3, 3, 2]))] if min_cols <= 2 else cols
    for extra in draw(st.lists(st.sampled_from(["x", "id"]), max_size=2, unique=True)):
        cols = list(cols)
        cols.insert(draw(st.integers(0, len(cols))), extra)
    pats = [draw(st.sampled_from(["any", "any", "first"])) if c == "pos" else
            draw(st.sampled_from(["any", "any", "any", "wordy"])) for c in cols]
    machine = "\t".join(COLPAT[p] for p in pats)
    if draw(st.integers(0, 4)) == 0:
        machine += "$" if pats[-1] != "first" else ""
    named = [c for c in cols if c in ("word", "lemma", "pos")]
    combos = st.lists(st.sampled_from(named), min_size=1, max_size=len(named), unique=True).map("/".join)
    sett = {"line-machine": machine, "type": draw(combos), "token": draw(combos) + "/fid/lid",
            "boundary-detection-mechanism": "single"}
    sett[draw(st.sampled_from(["line-format", "global-columns"]))] = ",".join(cols)
    if draw(st.booleans()):
        sett["colloc"] = draw(combos)
    sep = draw(st.sampled_from(SEPS))
    sett["separator-line-machine"] = sep
    sett["single-boundary-machine"] = sep
    enc = draw(st.sampled_from([None, "utf-8", "latin-1", "utf-16", "utf-8"]))
    if enc:
        sett["file-encoding"] = enc
    sett["left-span"] = draw(st.sampled_from([0, 1, 1, 2, 2, 3, 4, 6]))
    sett["right-span"] = draw(st.sampled_from([0, 1, 1, 2, 2, 3, 4, 6]))
    return {"settings": sett, "cols": list(cols)}


@st.composite
def corpus(draw, max_files=4, max_lines=10, min_files=0, min_cols=2, slash=True):
    cs = draw(corpus_settings(min_cols))
    enc = cs["settings"].get("file-encoding", "utf-8")
    words = WORDS if enc == "latin-1" else UWORDS
    if not slash:
        words = [w for w in words if "/" not in w]
    k = draw(st.integers(1, 5))
    tokens = []
    for _ in range(k):
        tokens.append("\t".join(draw(st.sampled_from(POS if c == "pos" else words[:7] if draw(st.booleans()) else words)) for c in cs["cols"]))
    tok = st.sampled_from(tokens)
    line = st.one_of(tok, tok, tok, tok, tok, st.sampled_from(SEPLINES), st.sampled_from(JUNK), tok.map(lambda t: "  " + t + "\textra"))
    paths = draw(st.lists(st.sampled_from(PATHS), min_size=min_files, max_size=max_files, unique=True))
    # a path must not be a directory of another one
    paths = [p for p in paths if not any(q != p and q.startswith(p + "/") for q in paths)]
    files = []
    for p in paths:
        ls = draw(st.lists(line, max_size=max_lines))
        files.append([p, ls, draw(st.sampled_from(["\n", "\n", "\n", "\r\n"])), draw(st.booleans())])
    cs["files"] = files
    return cs


schedule = st.lists(st.integers(0, 11), max_size=24)


# ------------------------------------------------------------------ matrices
EDGES = [127, 128, 255, 256, 300, -128, -129, 20000, 32767, -32768]          # fit every integer type generated
LARGE = [127, 255, 256, 32767, 32768, 65535, 65536, 1000003, 2 ** 24 + 1, 2 ** 31 - 1]


@st.composite
def values(draw, kind):
    if kind == "int":
        return draw(st.one_of(st.integers(1, 5), st.integers(1, 5), st.integers(-4, 9), st.integers(-4, 9), st.sampled_from(EDGES)))
    if kind == "count":
        return draw(st.one_of(st.integers(1, 30), st.integers(1, 30), st.integers(1, 30), st.sampled_from(LARGE)))
    if kind == "bool":
        return True
    return draw(st.one_of(st.integers(-8, 8).map(lambda x: x / 2), st.integers(-30, 30).map(lambda x: x / 7.0),
                          st.floats(-4, 4, allow_nan=False)))


DTYPES = {"int": ["int64", "int32", "int16"], "count": ["int64", "int32"], "float": ["float64", "float32"], "bool": ["bool"]}


def roomy(d, most=2 ** 31):
    """The description with a type that has room for sums and products of its integers."""
    cells = [[i, j, v if isinstance(v, (bool, float)) or abs(v) <= most else most] for i, j, v in d["cells"]]
    if d["dtype"].startswith("int") and any(abs(v) > 30 for _, _, v in cells):
        return dict(d, cells=cells, dtype="int64")
    return dict(d, cells=cells)


@st.composite
def matrix(draw, max_rows=5, max_cols=5, min_rows=1, min_cols=1, kinds=("int", "float", "count"), dense_ok=False,
           rows=None, cols=None, square=False, zeros=True, formats=("csr", "csr", "csr", "csc", "coo"), pool=None):
    """Plain description of a labelled matrix: cells = [[i, j, value]...] are the *stored* cells (for dense: non-zeros)."""
    rows = draw(unique_labels(min_rows, max_rows, pool)) if rows is None else list(rows)
    cols = list(rows) if square else (draw(unique_labels(min_cols, max_cols, pool)) if cols is None else list(cols))
    kind = draw(st.sampled_from(list(kinds)))
    dtype = draw(st.sampled_from(DTYPES[kind]))
    cells = []
    density = draw(st.sampled_from([0, 1, 2, 3, 3, 4]))
    for i in range(len(rows)):
        for j in range(len(cols)):
            if draw(st.integers(0, 3)) < density:
                v = draw(values(kind))
                if zeros and kind != "bool" and draw(st.integers(0, 9)) == 0:
                    v = 0 if kind != "float" else 0.0
                cells.append([i, j, v])
    fmt = draw(st.sampled_from(list(formats)))
    if dense_ok and draw(st.integers(0, 3)) == 0:
        fmt = "dense"
    return {"rows": rows, "cols": cols, "cells": cells, "dtype": dtype, "fmt": fmt}
