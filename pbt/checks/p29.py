"""P29: objects with save support: saved to a path and loaded."""
import os
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st
from lib import fakemp
fakemp.install()
from lib import gen, model
from lib.core import Law
from nephosem.utils import SaveLoad


class Thing(SaveLoad):
    """An object with save support; its attributes are set from outside."""


class Other(Thing):
    kind = "other"


NAMES = ["a", "b", "data", "child", "x1", "matrix", "row_items", "val", "_p", "é"]
SHAPES = [[], [0], [1], [3], [2, 2], [2, 3], [3, 0], [1, 2, 2], [5], [1, 4], [4, 1], [1, 1], [1, 0], [2, 1, 3]]
DTYPES = ["int64", "float64", "float32", "int8", "bool", "U3", "complex128", "object", "uint16"]
PLAIN = [None, 0, 3, -1.5, "", "text", "日 é", True, ["l", 1], {"k": [1, 2]}, ("t", None), {"a", "b"}, b"\x00\xff"]


@st.composite
def value(draw, depth):
    what = draw(st.sampled_from(["plain", "array", "array", "sparse", "sparse"] + (["child", "child", "child"] if depth > 0 else []) + ["ref"]))
    if what == "plain":
        return ["plain", draw(st.integers(0, len(PLAIN) - 1))]
    if what == "array":
        return ["array", draw(st.sampled_from(SHAPES)), draw(st.sampled_from(DTYPES)), draw(st.sampled_from(["C", "C", "F", "T", "step"])), draw(st.integers(0, 99))]
    if what == "sparse":
        d = draw(gen.matrix(kinds=("count", "float", "bool"), pool=None, formats=("csr", "csr", "csc", "coo")))
        return ["sparse", len(d["rows"]), len(d["cols"]), d["cells"], d["dtype"], d["fmt"]]
    if what == "ref":
        return ["ref", draw(st.integers(0, 5))]
    return ["child", draw(thing(depth - 1))]


@st.composite
def thing(draw, depth):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4, unique=True))
    return [draw(st.booleans()), [[n, draw(value(depth))] for n in names]]


cases = st.fixed_dictionaries({
    "root": thing(2), "file": st.sampled_from(["o", "o", "o.pkl", "o.gz", "o.bz2", "o.x.gz", "é o"]),
    "separately": st.one_of(st.none(), st.none(), st.lists(st.sampled_from(NAMES), max_size=4, unique=True)),
    "ignore": st.one_of(st.just([]), st.just([]), st.lists(st.sampled_from(NAMES), max_size=2, unique=True)),
    "limit": st.sampled_from([None, 0, 1, 2, 4]), "protocol": st.sampled_from([None, 2, 4]), "mmap": st.sampled_from([None, None, "r", "c"]),
    "times": st.integers(1, 3), "over": st.integers(0, 3).map(lambda n: n == 3), "obstacle": st.one_of(st.none(), st.none(), st.integers(0, 12))})


def build(desc):
    """(root object, every object reachable)"""
    things, later = [], []

    def make(t):
        o = (Other if t[0] else Thing)()
        things.append(o)
        for name, v in t[1]:
            if v[0] == "plain":
                x = PLAIN[v[1]]
            elif v[0] == "array":
                x = array(v)
            elif v[0] == "sparse":
                x = model.build_array({"rows": [0] * v[1], "cols": [0] * v[2], "cells": v[3], "dtype": v[4], "fmt": v[5]})
            elif v[0] == "child":
                x = make(v[1])
            else:
                later.append((o, name, v[1]))
                x = None
            setattr(o, name, x)
        return o
    root = make(desc)
    for o, name, n in later:
        setattr(o, name, things[n % len(things)])
    return root


def array(v):
    _, shape, dtype, order, seed = v
    n = int(np.prod(shape)) if shape else 1
    nums = [(seed * 7 + 3 * i) % 11 - (2 if dtype != "uint16" else 0) for i in range(n)]
    if dtype == "object":
        nums = [["s", None, 3, "é"][(seed + i) % 4] for i in range(n)]
    if not shape:
        a = np.zeros((), dtype=dtype)
        a[()] = nums[0]
        return a
    a = np.array(nums, dtype=dtype).reshape(shape)
    if order == "F":
        return np.asfortranarray(a)
    if order == "T":
        return a.T
    if order == "step" and len(shape) == 1:
        return np.repeat(a, 2)[::2]
    return a


def picture(root, ignore=()):
    """A comparable picture: objects are numbered in order of first visit, so sharing and cycles are compared as well."""
    seen, out = {}, []

    def value(x):
        if isinstance(x, SaveLoad):
            if id(x) in seen:
                return ["object", seen[id(x)]]
            n = seen[id(x)] = len(seen)
            out.append(None)
            attrs = {k: x.__dict__[k] for k in sorted(x.__dict__) if not k.startswith("__")}
            out[n] = [type(x).__name__, {k: ("NoneType", "None") if k in ignore else value(y) for k, y in attrs.items()}]
            return ["object", n]
        if isinstance(x, np.ndarray):
            return ["array", x.shape, str(x.dtype), x.tolist()]
        if sp.issparse(x):
            c = x.tocoo()
            return ["sparse", x.format, x.shape, str(x.dtype), sorted(zip(c.row.tolist(), c.col.tolist(), c.data.tolist()))]
        return (type(x).__name__, repr(sorted(x)) if isinstance(x, set) else repr(x))
    value(root)
    return out


def arrays(root):
    seen, out, todo = set(), [], [root]
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        for x in o.__dict__.values():
            if isinstance(x, SaveLoad):
                todo.append(x)
            elif isinstance(x, np.ndarray) or sp.issparse(x):
                out.append(x)
    return out, len(seen)


def body(case, ctx):
    root = build(case["root"])
    d = ctx.dir()
    fn = os.path.join(d, case["file"])
    kw = {}
    if case["separately"] is not None:
        kw["separately"] = list(case["separately"])
    if case["ignore"]:
        kw["ignore"] = frozenset(case["ignore"])
    if case["limit"] is not None:
        kw["sep_limit"] = case["limit"]
    if case["protocol"] is not None:
        kw["pickle_protocol"] = case["protocol"]
    before = picture(root)
    inner, n_things = arrays(root)
    members = {id(x): x for x in inner}
    want = picture(root, set(case["ignore"]))
    times = case["times"] if case["obstacle"] is None else 1
    for n in range(times):
        root.save(fn, **kw)
        check_live(root, before, "saving")
        mmap = case["mmap"]
        if mmap and (case["file"].endswith(("gz", "bz2")) or any(x.size == 0 or x.dtype == object for x in inner)):
            mmap = None
        back = Thing.load(fn, **({"mmap": mmap} if mmap else {}))
        got = picture(back)
        assert got == want, "loaded %r, expected %r" % (got, want)
        # the same object can be saved again, elsewhere: what was loaded, or (first) the original
        if n == 0 and times > 1:
            fn2 = os.path.join(d, "again")
            back.save(fn2)
            assert picture(Thing.load(fn2)) == want, "loaded from a second copy %r, expected %r" % (picture(Thing.load(fn2)), want)
            check_live(back, want, "saving the loaded object")
    if case.get("over"):        # what was loaded (perhaps mapped from its files) is saved over its own files
        back = Thing.load(fn, **({"mmap": mmap} if mmap else {}))
        said = apart(lambda: resave(back, fn, kw, want))
        assert said is not None, "the process ended while a loaded object was saved over its own files"
        assert said == "ok", said
        check_live(back, want, "saving a loaded object over its own files")
        got = picture(Thing.load(fn))
        assert got == want, "loaded after saving it over its own files %r, expected %r" % (got, want)
        ctx.label("over its own files" + (", mapped" if mmap else ""))
    if "separately" in kw:
        assert kw["separately"] == case["separately"], "the list of attributes was changed"
    assert {id(x) for x in arrays(root)[0]} == set(members), "the live object holds other arrays"
    files = sorted(os.listdir(d))
    failed = False
    if case["obstacle"] is not None:       # saving fails at one of its files
        os.mkdir(os.path.join(d, "second"))
        os.mkdir(os.path.join(d, "second", files[case["obstacle"] % len(files)]))
        try:
            root.save(os.path.join(d, "second", case["file"]), **kw)
        except Exception:
            failed = True
        check_live(root, before, "saving that fails at %r" % files[case["obstacle"] % len(files)])
        assert failed, "no error although %r could not be written" % files[case["obstacle"] % len(files)]
        root.save(fn, **kw)
        got = picture(Thing.load(fn))
        assert got == want, "loaded after a failure %r, expected %r" % (got, want)
    ctx.nontrivial(len(files) >= 2)
    ctx.label("files=%d" % min(len(files), 9), "objects=%d" % min(n_things, 9), "compressed" if case["file"].endswith(("gz", "bz2")) else "plain", "ignored" if case["ignore"] else "all kept",
              "failure" if failed else "no failure", "separately" if case["separately"] is not None else "by size")


def resave(back, fn, kw, want):
    back.save(fn, **kw)
    check_live(back, want, "saving a loaded object over its own files")


def apart(f):
    """Run f in a process of its own: "ok", the text of an exception, or None if the process ended in it."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                f()
                said = "ok"
            except BaseException as e:
                said = "%s: %s" % (type(e).__name__, e)
            os.write(w, said.encode("utf-8", "replace")[:4000])
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as p:
        said = p.read()
    os.waitpid(pid, 0)
    return said.decode("utf-8", "replace") or None


def check_live(root, before, what):
    now = picture(root)
    assert now == before, "%s changed the live object: %r, before %r" % (what, now, before)


LAWS = [Law("objects", cases, body, quick=4000, thorough=100000, shards=8,
            rule="an object with plain, array, sparse and nested attributes saved and loaded; non-trivial if it took two files")]
ASSUMPTIONS = ["arrays are plain numpy arrays", "an ignored attribute is ignored in nested objects, too", "attributes whose names start with two underscores (the facility's own records) are not compared"]
