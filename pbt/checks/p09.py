"""P09: vocabularies saved and loaded."""
import os
from hypothesis import strategies as st
from lib import fakemp
fakemp.install()
from lib import large
from lib.core import Law
from nephosem import Vocab

ITEMS = ["a/N", "b/N", "ab/N", "B", "é/N", "10", "1.5", "x y/N", "日/V", "#", "# a", "Ω", "\"q\"", "a\\n", "null", " a", "a ", "a\xa0", "\u3000x", "",
         "a\x85b", "a\u2028b", "{", "a,b", "ÿ", "a\x0cb", "a\x1cb"]
chars = st.text(st.characters(blacklist_characters="\t\n\r", blacklist_categories=("Cs",)), max_size=4)
items = st.one_of(st.sampled_from(ITEMS[:14]), st.sampled_from(ITEMS), chars)
freqs = st.one_of(st.integers(0, 6), st.integers(-5, 10 ** 18), st.floats(allow_nan=False, allow_infinity=False), st.integers(-8, 8).map(lambda x: x / 4),
                  st.sampled_from([1e16, 1e22, -1e-7, 5e-324, 1e300]))
cases = st.fixed_dictionaries({
    "items": st.lists(st.tuples(items, freqs), max_size=8, unique_by=lambda x: x[0]),
    "old": st.one_of(st.none(), st.lists(st.tuples(items, st.integers(1, 9)), max_size=30, unique_by=lambda x: x[0])),
    "fmt": st.sampled_from(["json", "plain", "txt", None]),
    "enc": st.sampled_from(["utf-8", "utf-8", "latin-1", "utf-16", "utf-8-sig", "cp1252"]),
    "give": st.sampled_from(["save", "init", "copy"])})


def body(case, ctx):
    d = ctx.dir()
    f = os.path.join(d, "v é.freq")
    enc, fmt = case["enc"], case["fmt"]

    def representable(x):
        try:
            return x.encode(enc).decode(enc) == x
        except UnicodeError:
            return False
    data = {k: v for k, v in case["items"] if representable(k)}
    kw = {} if fmt is None else {"fmt": fmt}

    def save(dd):
        v = Vocab(dict(dd)) if case["give"] == "save" else Vocab(dict(dd), encoding=enc)
        if case["give"] == "copy":
            v = v.copy()
        v.save(f, **kw) if case["give"] != "save" else v.save(f, encoding=enc, **kw)
        assert dict(v.items()) == dd, "saving changed the vocabulary"
    if case["old"] is not None:
        save({k: v for k, v in case["old"] if representable(k)})
    save(data)
    w = Vocab.load(f, encoding=enc, **kw)
    got = dict(w.items())
    assert got == data, "loaded %r, saved %r" % (got, data)
    assert w.equal(Vocab(dict(data)))
    for k in data:
        assert type(got[k]) is type(data[k]) , "frequency of %r: loaded %r, saved %r" % (k, got[k], data[k])
    if fmt in ("plain", "txt"):
        text = open(f, encoding=enc, newline="").read()
        order = sorted(sorted(data.items(), key=lambda kv: kv[0]), key=lambda kv: -kv[1])
        assert text == "".join("%s\t%s\n" % kv for kv in order), "plain file %r, expected order %r" % (text, order)
    assert os.listdir(d) == ["v é.freq"]
    ctx.nontrivial(len(data) >= 2)
    ctx.label("fmt %s" % fmt, "enc " + enc, "over an older file" if case["old"] is not None else "new file",
              "float" if any(isinstance(x, float) for x in data.values()) else "int")


@st.composite
def large_cases(draw):
    c = draw(cases)
    c["n"] = draw(st.sampled_from([0, 100, 255, 256, 257, 1000, 5000]))
    c["m"] = draw(st.sampled_from([0, 100, 3000])) if c["old"] is not None else 0
    return c


def large_body(case, ctx):
    more = lambda n, k: [("w%d %d" % (i, k), (i * 7919) % 1001 if i % 3 else i / 8) for i in range(n)]
    body(dict(case, items=list(case["items"]) + more(case["n"], 1), old=None if case["old"] is None else list(case["old"]) + more(case["m"], case["n"] % 2)), ctx)


LAWS = [Law("files", cases, body, quick=4000, thorough=100000, shards=8,
            rule="items (any characters but tab and line end), frequencies, format, encoding, file written before; non-trivial if two items are saved"),
        Law("large", large_cases(), large_body, quick=120, thorough=3000, shards=8,
            rule="the same with hundreds or thousands of items; non-trivial as above")]
ASSUMPTIONS = ["items contain no tab, LF or CR (they separate fields and lines of the plain format)"]
