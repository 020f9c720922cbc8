"""P08: vocabularies against a plain dict, over operation histories."""
import operator
import re
from hypothesis import strategies as st
from lib import fakemp
fakemp.install()
from lib import large
from lib.core import Law
from nephosem import Vocab

ITEMS = ["a/N", "a/V", "b/N", "ab/N", "B/N", "é/N", "a", "10", "x y/N", "a/b/N", "", "日/V", "a/N/f1/3", "Z"]
items = st.sampled_from(ITEMS)
freqs = st.one_of(st.integers(0, 5), st.integers(0, 5), st.integers(-3, 200), st.sampled_from([0.5, 2.0, 2.5, 1e3]))
CMP = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "==": operator.eq}
REGEX = [".", "a", ".*/N", "a|b", r"\w+/", "(?!a)", "^$", "b$", r"[^\W\d]+/V", "N"]
k = st.integers(0, 5)
nums = st.one_of(st.integers(-1, 6), st.sampled_from([0.5, 2.5, 2.0]))
idx = st.one_of(st.none(), st.integers(-6, 8))
conds = st.tuples(st.sampled_from(sorted(CMP)), nums)
dicts = st.dictionaries(items, freqs, max_size=7).map(lambda d: sorted(d.items()))
op = st.one_of(
    st.tuples(st.just("new"), dicts), st.tuples(st.just("frame"), k), st.tuples(st.just("copy"), k), st.tuples(st.just("deepcopy"), k),
    st.tuples(st.just("inc"), k, items, st.sampled_from([None, 1, 2, 5, 0.5])), st.tuples(st.just("set"), k, items, freqs),
    st.tuples(st.just("inc"), k, items, st.sampled_from([None, 1, 2, 5, 0.5])), st.tuples(st.just("set"), k, items, freqs),
    st.tuples(st.just("byitems"), k, st.lists(items, max_size=5)), st.tuples(st.just("byfreqs"), k, st.lists(st.integers(0, 6), max_size=3)),
    st.tuples(st.just("freqdups"), k, st.lists(st.integers(0, 6), min_size=1, max_size=6)),
    st.tuples(st.just("swap"), k, st.integers(0, 6), st.integers(0, 6), st.sampled_from([None, 1, 2])), st.tuples(st.just("query"), k),
    st.tuples(st.just("swap"), k, st.integers(0, 6), st.integers(0, 6), st.sampled_from([None, 1, 2])), st.tuples(st.just("query"), k),
    st.tuples(st.just("cond"), k, conds), st.tuples(st.just("conds"), k, st.lists(conds, min_size=2, max_size=3)),
    st.tuples(st.just("slice"), k, idx, idx, st.sampled_from([None, None, 1, 2, -1, 3])),
    st.tuples(st.just("match"), k, st.sampled_from(REGEX)), st.tuples(st.just("lemma"), k, st.sampled_from(["a", "b", "a/b", "ab", "", "a/N"])),
    st.tuples(st.just("sub"), k, st.lists(items, max_size=5)), st.tuples(st.just("dict"), k), st.tuples(st.just("lists"), k))
cases = st.lists(op, min_size=1, max_size=14)


def ranked(d, descending=True):
    out = sorted(d.items(), key=lambda kv: kv[0])
    return sorted(out, key=lambda kv: -kv[1] if descending else kv[1])


def agree(v, d):
    """Every query of the vocabulary against the dict."""
    assert len(v) == len(d), "size %r, expected %r" % (len(v), len(d))
    assert sorted(v.items()) == sorted(d.items()), "items %r, expected %r" % (sorted(v.items()), sorted(d.items()))
    assert sorted(v.keys()) == sorted(d) and sorted(v.values()) == sorted(d.values())
    for i in ITEMS:
        assert (i in v) == (i in d), "membership of %r" % i
        if i in d:
            assert v[i] == d[i], "frequency of %r: %r, expected %r" % (i, v[i], d[i])
    assert v.sum() == sum(d.values()) and v.sum_freq() == v.sum()
    assert bool(v.isEmpty()) == (not d)
    assert v.get_item_list() == sorted(d), "alphabetical list %r" % (v.get_item_list(),)
    assert v.get_item_list(sorting="alpha", descending=True) == sorted(d, reverse=True)
    assert v.get_item_list(sorting="freq", descending=True) == [i for i, _ in ranked(d)], "frequency list %r of %r" % (v.get_item_list(sorting="freq", descending=True), d)
    asc = v.get_item_list(sorting="freq", descending=False)
    assert sorted(asc) == sorted(d) and [d[i] for i in asc] == sorted(d.values()), "ascending frequency list %r" % (asc,)
    df = v.dataframe
    assert list(zip(df["item"].tolist(), df["freq"].tolist())) == ranked(d), "table %r, expected %r" % (df.values.tolist(), ranked(d))
    assert v.get_dict() == d


def compare(v, c):
    o, x = c
    return {"<": lambda: v.freq < x, "<=": lambda: v.freq <= x, ">": lambda: v.freq > x, ">=": lambda: v.freq >= x, "==": lambda: v.freq == x}[o]()


def body(case, ctx):
    vs, ds = [Vocab()], [{}]
    last = None
    for o in case:
        name, args = o[0], o[1:]
        i = args[0] % len(vs) if name != "new" else None
        v, d = (vs[i], ds[i]) if i is not None else (None, None)
        new = None
        if name == "new":
            src = dict(args[0])
            new = (Vocab(src), dict(src))
            src["a/N"] = -77            # the vocabulary has its own copy
        elif name == "frame":
            new = (Vocab(v.dataframe), dict(d))
        elif name == "copy":
            new = (v.copy(), dict(d))
        elif name == "deepcopy":
            new = (v.deepcopy(), dict(d))
        elif name == "inc":
            if args[2] is None:
                v.increment(args[1])
            else:
                v.increment(args[1], args[2])
            d[args[1]] = d.get(args[1], 0) + (1 if args[2] is None else args[2])
        elif name == "set":
            v[args[1]] = args[2]
            d[args[1]] = args[2]
        elif name == "byitems":
            new = (v[list(args[1])], {k: x for k, x in d.items() if k in args[1]})
        elif name == "byfreqs":
            new = (v[list(args[1])], {k: x for k, x in d.items() if x in args[1]})
        elif name == "freqdups":        # frequencies that occur, with repetitions
            have = sorted({x for x in d.values() if isinstance(x, int)}) or [0]
            fs = [have[n % len(have)] for n in args[1]]
            new = (v[fs], {k: x for k, x in d.items() if x in fs})
        elif name == "swap":            # same size, same sum
            have = sorted(d)
            if have:
                a, b = have[args[1] % len(have)], have[args[2] % len(have)]
                if args[3] is None:
                    v[a], v[b] = d[b], d[a]
                    d[a], d[b] = d[b], d[a]
                else:
                    v.increment(a, args[3])
                    v.increment(b, -args[3])
                    d[a] += args[3]
                    d[b] -= args[3]
        elif name == "query":
            agree(v, d)
        elif name == "cond":
            got = compare(v, args[1])
            want = [k for k, x in d.items() if CMP[args[1][0]](x, args[1][1])]
            assert sorted(got) == sorted(want), "comparison %r: %r, expected %r" % (args[1], got, want)
            new = (v[got], {k: d[k] for k in want})
        elif name == "conds":
            new = (v[tuple(compare(v, c) for c in args[1])], {k: x for k, x in d.items() if all(CMP[o](x, n) for o, n in args[1])})
        elif name == "slice":
            s = slice(*args[1:])
            new = (v[s], dict(ranked(d)[s]))
        elif name == "match":
            got = v.match("item", args[1])
            want = [k for k, _ in ranked(d) if re.match(args[1], k)]
            assert sorted(got) == sorted(want), "matching %r: %r, expected %r" % (args[1], got, want)
            new = (v[list(got)], {k: d[k] for k in want})
        elif name == "lemma":
            new = (v.select_items(args[1]), {k: x for k, x in d.items() if k.rsplit("/", 1)[0] == args[1]})
        elif name == "sub":
            new = (v.subvocab(list(args[1])), {k: d.get(k, 0) for k in args[1]})
        elif name == "dict":
            x = v.get_dict()
            x["a/N"] = -5
            x.pop("b/N", None)
        elif name == "lists":
            for x in (v.keys(), v.values(), v.items(), v.get_item_list()):
                x.append("x")
        if new is not None:
            agree(*new)
            if len(vs) < 6:
                vs.append(new[0])
                ds.append(new[1])
            else:
                last = new
    for n, (v, d) in enumerate(zip(vs, ds)):
        try:
            agree(v, d)
        except AssertionError as e:
            raise AssertionError("vocabulary %d at the end of the history: %s" % (n, e))
    for v, d in zip(vs, ds):
        for w, e in zip(vs, ds):
            assert bool(v.equal(w)) == (d == e), "equality of %r and %r" % (d, e)
    ctx.nontrivial(len(vs) >= 3 and any(len(d) >= 2 for d in ds))
    ctx.label(*{"op " + o[0] for o in case})


@st.composite
def large_cases(draw):
    return {"ops": [("new", draw(dicts))] + draw(st.lists(op, min_size=1, max_size=8)), "n": draw(st.sampled_from([100, 127, 128, 255, 256, 257, 1000, 3000])), "f": draw(st.sampled_from([1, 7, 5000]))}


def large_body(case, ctx):
    more = [("w%d/%s" % (i, "NV"[i % 2]), (i * 7919) % case["f"]) for i in range(case["n"])]
    body([("new", list(o[1]) + more) if o[0] == "new" else o for o in case["ops"]], ctx)


LAWS = [Law("history", cases, body, quick=4000, thorough=120000, shards=8,
            rule="histories of up to 14 operations on up to 6 vocabularies; non-trivial if two were derived and one has two items"),
        Law("large", large_cases(), large_body, quick=120, thorough=3000, shards=8,
            rule="the same with vocabularies of up to 3000 items; non-trivial as above")]
ASSUMPTIONS = ["reading the frequency of an unknown item is not constrained",
               "the order of items of equal frequency in an ascending frequency list is not constrained"]
