"""Matrices and corpora of hundreds or thousands of items, described by a few numbers and expanded when a case is run."""
import random
from hypothesis import strategies as st
from lib import gen

SIZES = [64, 100, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 257, 258, 300, 300]
size = st.sampled_from(SIZES)


@st.composite
def spec(draw, kinds=("int", "float", "count"), like=None, dense_ok=False, both=False, max_n=300, dtype=None):
    n, k = draw(size.filter(lambda x: x <= max_n)), draw(st.integers(1, 6))
    if both and draw(st.booleans()):
        k = draw(st.sampled_from([x for x in SIZES if x <= 130]))
    nr, nc = (n, k) if draw(st.booleans()) else (k, n)
    kind = draw(st.sampled_from(list(kinds)))
    fmt = draw(st.sampled_from(["csr", "csr", "csc", "coo"] + (["dense"] if dense_ok else [])))
    return {"large": [nr, nc], "n": draw(st.sampled_from([0, 1, 5, 40, 200, 1200])), "seed": draw(st.integers(0, 10 ** 6)), "kind": kind,
            "dtype": dtype or draw(st.sampled_from(gen.DTYPES[kind])), "fmt": fmt, "off": draw(st.sampled_from([0, 0, 0, 1, 50])),
            "order": draw(st.booleans()), "full": draw(st.sampled_from([0, 0, 1, 2]))}


def labels(n, off, rnd, order):
    out = (gen.LABEL_POOL + ["w%d/N" % i for i in range(400)])[off:off + n]
    if order:
        rnd.shuffle(out)
    return out


def value(kind, rnd):
    if kind == "bool":
        return True
    if kind == "count":
        return rnd.choice([rnd.randint(1, 30), rnd.randint(1, 30), rnd.choice(gen.LARGE)])
    if kind == "int":
        return rnd.choice([rnd.randint(1, 5), rnd.randint(-4, 9), rnd.choice(gen.EDGES)])
    return rnd.choice([rnd.randint(-8, 8) / 2, rnd.randint(-30, 30) / 7.0, rnd.uniform(-4, 4), 0.0])


def expand(d, rows=None, cols=None):
    """The plain description (as of gen.matrix) of a large matrix; others are returned as they are."""
    if "large" not in d:
        return d
    rnd = random.Random(d["seed"])
    nr, nc = d["large"]
    rows = labels(nr, d["off"], rnd, d["order"]) if rows is None else list(rows)
    cols = labels(nc, d["off"], rnd, d["order"]) if cols is None else list(cols)
    nr, nc = len(rows), len(cols)
    cells = {}
    for _ in range(d["n"]):
        cells[rnd.randrange(nr), rnd.randrange(nc)] = value(d["kind"], rnd)
    for _ in range(d.get("full", 0)):      # full rows and columns (at most one value is missing)
        i, j, gap = rnd.randrange(nr), rnd.randrange(nc), rnd.choice([-1, 0])
        cells.update({(i, k): value(d["kind"], rnd) for k in range(nc) if k != gap})
        if min(nr, nc) <= 130:
            cells.update({(k, j): value(d["kind"], rnd) for k in range(nr) if k != gap})
    if d.get("full", 0) > 1 and cells and d["kind"] != "count":      # some stored zeros
        for at in rnd.sample(sorted(cells), min(3, len(cells))):
            cells[at] = False if d["kind"] == "bool" else 0.0 if d["kind"] == "float" else 0
    if d["n"]:      # the ends
        for i, j in ((0, 0), (nr - 1, nc - 1), (0, nc - 1), (nr - 1, 0)):
            if rnd.random() < 0.7:
                cells[i, j] = value(d["kind"], rnd)
    return {"rows": rows, "cols": cols, "cells": [[i, j, v] for (i, j), v in sorted(cells.items())], "dtype": d["dtype"], "fmt": d["fmt"]}


@st.composite
def swapped(draw, cases, key="m", **kw):
    """Cases of a check with large matrices in place of the small ones."""
    c = dict(draw(cases))
    c[key] = draw(spec(**kw)) if not isinstance(c[key], list) else [draw(spec(**kw)) for _ in c[key]]
    return c


def running(body, *keys):
    def f(case, ctx):
        case = dict(case)
        for k in keys:
            case[k] = [expand(d) for d in case[k]] if isinstance(case[k], list) else expand(case[k])
        body(case, ctx)
    return f


# ------------------------------------------------------------------ corpora
SPANS = [99, 100, 127, 128, 130, 255, 256, 257, 300, 1000]


@st.composite
def corpus(draw, sorts=("long", "span", "wide", "files")):
    c = {"sort": draw(st.sampled_from(list(sorts))), "seed": draw(st.integers(0, 10 ** 6)), "type": draw(st.sampled_from(["lemma/pos", "lemma", "word/pos"])),
         "workers": draw(st.sampled_from([1, 2, 3, 9])), "sched": draw(gen.schedule), "every": draw(st.sampled_from([0, 7, 50, 1000]))}
    c["spans"] = [draw(st.sampled_from([0, 1, 2, 3])), draw(st.sampled_from([0, 1, 2, 3]))]
    if c["sort"] == "long":
        c["lines"] = draw(st.sampled_from([300, 2000, 10000, 33000, 66000]))
        c["words"], c["files"] = draw(st.integers(2, 4)), 1
    elif c["sort"] == "span":
        c["spans"] = [draw(st.sampled_from(SPANS + [1])), draw(st.sampled_from(SPANS + [1]))]
        c["lines"], c["words"], c["files"] = draw(st.sampled_from([100, 300, 600])), draw(st.integers(2, 40)), draw(st.integers(1, 2))
    elif c["sort"] == "wide":
        c["lines"] = draw(st.sampled_from([300, 1000, 4000]))
        c["words"], c["files"] = c["lines"] // draw(st.integers(1, 3)), draw(st.integers(1, 3))
    else:
        c["files"] = draw(st.sampled_from([30, 100, 127, 128, 129, 256, 257, 300]))
        c["lines"], c["words"] = c["files"] * draw(st.integers(1, 4)), draw(st.integers(2, 6))
    c["colv"] = draw(st.sampled_from([None, None, 1, 2, 300]))
    c["pick"] = draw(st.sampled_from([1, 2, 3, 40, 400]))
    return c


def expand_corpus(d):
    """The plain description (as of gen.corpus) with rows, colv and queries."""
    if "sort" not in d:
        return d
    rnd = random.Random(d["seed"])
    words = ["w%d" % i for i in range(d["words"])]
    rnd.shuffle(words)
    lines = []
    for i in range(d["lines"]):
        if d["every"] and i % d["every"] == d["every"] - 1:
            lines.append("</s>")
            continue
        k = min(int(rnd.expovariate(1.0) * d["words"] / 4), d["words"] - 1) if d["sort"] != "wide" else rnd.randrange(d["words"])
        w = words[k]
        lines.append("%s\t%s\t%s" % (w + "s" * (i % 2), w, "NV"[k % 2]))
    cut = sorted(rnd.randrange(d["lines"] + 1) for _ in range(d["files"] - 1))
    files = []
    for n, (a, b) in enumerate(zip([0] + cut, cut + [d["lines"]])):
        files.append(["d%d/f%d.txt" % (n % 7, n), lines[a:b], "\n", True])
    sett = {"line-machine": "([^\t]+)\t([^\t]+)\t([^\t]+)", "global-columns": "word,lemma,pos", "type": d["type"], "token": d["type"] + "/fid/lid", "colloc": d["type"],
            "boundary-detection-mechanism": "single", "separator-line-machine": "</s>", "single-boundary-machine": "</s>",
            "left-span": d["spans"][0], "right-span": d["spans"][1]}
    case = dict(d, settings=sett, cols=["word", "lemma", "pos"], files=files)
    from lib import model
    freq = model.item_freq(case)
    types = sorted(freq, key=lambda t: (freq[t], t))      # rare ones first
    case["rows"] = sorted(types) if d["pick"] > 40 else types[:d["pick"]]
    case["colv"] = None if d["colv"] is None else types[-d["colv"]:]
    room, qs = 400, []
    for t in types:
        if freq[t] <= room and len(qs) < d["pick"]:
            qs.append(t)
            room -= freq[t]
    case["queries"] = qs or types[:1]
    return case


def on_corpus(body, **more):
    return lambda case, ctx: body(dict(expand_corpus(case), **more), ctx)
