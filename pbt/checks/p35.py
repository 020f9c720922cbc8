"""P35: printed excerpts, descriptions and sorted lists show the true labels and values."""
import math
import os
import re
from hypothesis import strategies as st
from lib import fakemp
fakemp.install()
from lib import dep, gen, large, model
from lib.core import Law
from nephosem import Vocab, utils
from nephosem.core.graph import SentenceGraph
from nephosem.deprel import basic

POOL = ["a/N", "b/N", "ab", "é", "日/V", "\"q\"", "10", "1.50", "1e3", "0x1", "007", "NaN", "nan", "None", "True", "-", "...", "[1,2]", "A", "1_000", "inf", "b/V/f/1", "+3", "9" * 20] + ["w%d" % i for i in range(8)]
big = st.sampled_from([123456.789, 1234567, 0.00004, -0.5, 1e12 + 0.5, 10 ** 15, 3, 0.12345, 99999.99996, 1e-9, float("nan"), float("inf")])
mats = gen.matrix(max_rows=11, max_cols=11, dense_ok=True, pool=POOL, kinds=("int", "float", "count", "bool", "float"))


@st.composite
def mat_cases(draw):
    m = draw(mats)
    if m["dtype"].startswith("float64") or m["dtype"] == "int64":
        for c in m["cells"]:
            if draw(st.integers(0, 3)) == 0:
                v = draw(big)
                c[2] = v if m["dtype"] == "float64" else int(v) if math.isfinite(v) else 7
    return {"m": m, "n": draw(st.one_of(st.none(), st.tuples(st.one_of(st.none(), st.integers(1, 12)), st.one_of(st.none(), st.integers(1, 12))))), "sq": draw(st.integers(0, 3)) == 0}


def mat_body(case, ctx):
    d = case["m"]
    if case["sq"]:
        n = min(len(d["rows"]), len(d["cols"]))
        d = dict(d, rows=d["rows"][:n], cols=d["rows"][:n], cells=[c for c in d["cells"] if c[0] < n and c[1] < n])
    m = model.build(d)
    r, c, cells, stored = model.snapshot(m)
    dense = d["fmt"] == "dense"
    before = model.frozen(m)
    if case["n"] is None:
        nr = nc = 7
        text = repr(m)
        assert str(m) == text
    else:
        nr, nc = (len(x) if n is None else n for n, x in zip(case["n"], (r, c)))
        text = m.print_matrix(*case["n"])
    nr, nc = min(nr, len(r)), min(nc, len(c))
    lines = text.split("\n")
    head = "[%d, %d]" % (len(r), len(c))
    assert lines[0].startswith(head), "first line %r, expected %r" % (lines[0], head)
    grid = [[head] + lines[0][len(head):].split()] + [l.split() for l in lines[1:]]
    want = [[head] + [str(x) for x in c[:nc]]]
    for a in r[:nr]:
        row = [str(a)]
        for b in c[:nc]:
            if not dense and (a, b) not in stored:
                row.append(None)
            else:
                row.append((cells if dense else stored)[a, b])
        want.append(row)
    if nc < len(c):
        for row in want:
            row.append("...")
    if nr < len(r):
        want.append(["..."] * len(want[0]))
    assert len(grid) == len(want), "%d lines, expected %d:\n%s" % (len(grid), len(want), text)
    for g, w in zip(grid, want):
        assert len(g) == len(w), "%r, expected %r in\n%s" % (g, w, text)
        for x, y in zip(g, w):
            if y is None:
                ok = x.lower() == "nan"
            elif isinstance(y, str):
                ok = x == y
            elif isinstance(y, bool) or type(y).__name__ == "bool_":
                ok = x == str(bool(y))
            else:
                y = float(y)
                ok = re.fullmatch(r"-?(\d+(\.\d*)?([eE][-+]?\d+)?|inf|nan)", x) is not None and (math.isnan(y) and x == "nan" or float(x) == y or abs(float(x) - y) <= 0.5001e-4 + 1e-7 * abs(y))
                if ok and math.isfinite(y):       # no fewer digits than four decimals
                    ok = abs(float(x) - y) <= 0.50001e-4 + 4e-8 * abs(y) * (d["dtype"] == "float32") + 1e-15 * abs(y)
            assert ok, "%r is printed for %r in\n%s" % (x, y, text)
    s = m.describe()
    assert re.search(r"shape:\s*%d X %d\s" % (len(r), len(c)), s), s
    assert re.search(r"is sparse:\s*%s\s" % (not dense), s), s
    n = len(r) * len(c) if dense else len(stored)
    assert re.search(r"num of eles:\s*%d\s" % n, s), "%s\n%d values" % (s, n)
    got = float(re.search(r"density:\s*([\d.]+)%", s).group(1))
    assert abs(got - 100.0 * n / (len(r) * len(c))) <= 0.0051, s
    assert model.frozen(m) == before, "printing changed the matrix"
    ctx.nontrivial(len(stored) >= 2)
    ctx.label("cut" if nr < len(r) or nc < len(c) else "whole", "dense" if dense else "sparse", d["dtype"])


@st.composite
def large_cases(draw):
    m = draw(large.spec(dense_ok=True, kinds=("int", "float", "count", "bool")))
    size = st.one_of(st.none(), st.sampled_from([1, 7, 99, 100, 101, 127, 128, 129, 150, 199, 200, 250, 255, 256, 257, 299]))
    return {"m": m, "n": draw(st.one_of(st.none(), st.tuples(size, size), st.tuples(size, size))), "sq": False}


def large_body(case, ctx):
    m = large.expand(case["m"])
    mat_body(dict(case, m=dict(m, rows=[x.replace(" ", "_") for x in m["rows"]], cols=[x.replace(" ", "_") for x in m["cols"]])), ctx)


freqs = st.one_of(st.integers(0, 6), st.integers(0, 10 ** 7), st.floats(0, 100).map(lambda x: round(x, 3)))
vocs = st.lists(st.tuples(st.sampled_from(POOL + ["x y", "a,b", "('q', 3)"]), freqs), max_size=14, unique_by=lambda x: x[0])


def voc_body(case, ctx):
    d = dict(case["v"])
    v = Vocab(dict(d))
    text = str(v)
    assert repr(v) == text
    if len(d) <= 7:
        want = "[" + ",".join(str(x) for x in d.items()) + "]"
        assert text == want, "%r, expected %r" % (text, want)
    else:
        inner = re.fullmatch(r"\[(.*) \.\.\. (.*)\]", text)
        assert inner, text
        first, last = (list(eval("[%s]" % inner.group(k))) for k in (1, 2))
        assert len(first) == len(last) == 3 and not set(first) & set(last), text
        for x in first + last:
            assert d[x[0]] == x[1], "%r is shown for %r" % (x, d[x[0]])
        order = sorted(d.values(), reverse=True)
        assert [x[1] for x in first] == order[:3] and [x[1] for x in last] == order[-3:], "%r, frequencies %r" % (text, order)
    if d:
        s = v.describe()
        assert re.search(r"Total items: %d\n" % len(d), s), s
        tot = re.search(r"Total freqs: (\S+)", s)
        assert abs(float(tot.group(1)) - math.fsum(d.values())) <= 1e-9 * (1 + math.fsum(d.values())), "%s\ntotal %r" % (s, sum(d.values()))
        for name, x in (("mean", math.fsum(d.values()) / len(d)), ("min", min(d.values())), ("max", max(d.values()))):
            got = float(re.search(r"%s\s+(\S+)" % name, s).group(1))
            assert abs(got - x) <= 5.1e-4 * (1 + abs(x)), "%s %r, expected %r" % (name, got, x)
    for how in ("freq", "alpha"):
        for desc in (True, False):
            got = utils.sort_dict(d, sorting=how, descending=desc)
            if how == "alpha":
                want = sorted(d, reverse=desc)
            else:
                want = sorted(d, key=lambda w: (-d[w] if desc else d[w], w))
            assert got == want, "sorted by %s (descending: %s) %r, expected %r" % (how, desc, got, want)
            assert v.get_item_list(sorting=how, descending=desc) == want
    if d:
        f = os.path.join(ctx.dir(), "x")
        for order in ("freq", "alpha"):
            utils.save_dict_plain(d, f, order=order)
            want = sorted(d, key=lambda w: (-d[w], w)) if order == "freq" else sorted(d)
            with open(f, encoding="utf-8", newline="") as fh:
                assert fh.read() == "".join("%s\t%s\n" % (w, d[w]) for w in want)
    utils.count_values({w: {} for w in d})
    assert dict(v.items()) == d
    ctx.nontrivial(len(d) >= 2)
    ctx.label("cut" if len(d) > 7 else "whole")


def sent_body(case, ctx):
    toks = case["s"]
    nodes = {i: "%s/%s" % (l, p) for _, l, p, i, _, _ in toks}
    for h in (t[4] for t in toks):
        nodes.setdefault(h, "ROOT")
    want = " ".join(nodes[i] for i in sorted(nodes))
    s = basic.SentenceGraph(nodes={i: l for i, l in nodes.items() if l != "ROOT"}, edges={(t[4], t[3]): t[5] for t in toks})
    assert str(s) == repr(s) == want, "%r, expected %r" % (str(s), want)
    s = SentenceGraph(nodes={i: {"label": l} for i, l in nodes.items() if l != "ROOT"}, edges={(t[4], t[3]): {"rel": t[5]} for t in toks})
    assert str(s) == repr(s) == want, "%r, expected %r" % (str(s), want)
    ctx.nontrivial(len(toks) >= 2)


LAWS = [Law("matrices", mat_cases(), mat_body, quick=2500, thorough=60000, shards=8,
            rule="the printed excerpt parsed and compared with labels, values and their number, and the description; non-trivial if two values are stored"),
        Law("large", large_cases(), large_body, quick=64, thorough=1200, shards=8,
            rule="the same with up to 300 rows or columns"),
        Law("vocabularies", st.fixed_dictionaries({"v": vocs}), voc_body, quick=1500, thorough=40000, shards=8,
            rule="the printed form, description and all sorted lists of a vocabulary; non-trivial for two items"),
        Law("sentences", st.fixed_dictionaries({"s": dep.sentence(6, ("tree", "tree", "missing"))}), sent_body, quick=800, thorough=20000, shards=4,
            rule="printed sentence graphs; non-trivial for two tokens")]
ASSUMPTIONS = ["labels without blanks", "the printed value of a matrix has four decimals for floating-point numbers"]
