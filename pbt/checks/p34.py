"""P34: saves that fail or are cut off leave the old content, the new content or something that does not load."""
import errno
import os
import resource
import signal
import sys
from hypothesis import strategies as st
from lib import fakemp
fakemp.install()
from lib import gen, model
from lib.core import Law
from nephosem import TypeTokenMatrix, Vocab
from checks import p09, p14, p29

EVENTS = {"open", "os.rename", "os.remove", "os.mkdir", "os.rmdir", "os.truncate", "os.link", "os.symlink"}


@st.composite
def fault(draw):
    how = draw(st.sampled_from(["size", "size", "call", "call", "label"]))
    if how == "label":
        return ["label"]
    n = draw(st.one_of(st.integers(0, 400), st.integers(0, 1600))) if how == "size" else draw(st.integers(0, 9))
    return [how, n, draw(st.sampled_from(["error", "kill"]))]


@st.composite
def mat_cases(draw):
    a = draw(p14.mats)
    b = draw(p14.mats)
    if draw(st.integers(0, 2)):     # the same shape and kind of storage, other labels and values
        b = dict(a, rows=draw(st.permutations(a["rows"])), cols=["%sx" % c for c in a["cols"]],
                 cells=[[i, j, v if isinstance(v, bool) else v + 1] for i, j, v in a["cells"]])
    return {"a": a if draw(st.integers(0, 4)) else None, "b": b, "c": draw(p14.mats), "pack": draw(st.booleans()), "enc": draw(st.sampled_from(["utf-8", "utf-16", "latin-1"])),
            "name": draw(st.sampled_from(["m", "m.wcmx.freq", "é.x"])), "fault": draw(fault())}


vocs = st.lists(st.tuples(p09.items, p09.freqs), max_size=12, unique_by=lambda x: x[0])


@st.composite
def voc_cases(draw):
    return {"a": draw(st.one_of(st.none(), vocs, vocs, vocs)), "b": draw(vocs), "c": draw(vocs), "fmt": draw(st.sampled_from(["json", "plain", "plain", "txt"])),
            "enc": draw(st.sampled_from(["utf-8", "utf-16", "latin-1"])), "long": draw(st.sampled_from([0, 0, 0, 300, 3000])), "fault": draw(fault())}


@st.composite
def obj_cases(draw):
    a = draw(p29.thing(1))
    b = draw(p29.thing(1))
    if draw(st.integers(0, 2)):     # the same attributes with other numbers in the arrays

        def other(t):
            return [t[0], [[n, v[:4] + [v[4] + 1] if v[0] == "array" else ["child", other(v[1])] if v[0] == "child" else
                            v[:3] + [[[i, j, x if isinstance(x, bool) else x + 1] for i, j, x in v[3]]] + v[4:] if v[0] == "sparse" else v] for n, v in t[1]]]
        b = other(a)
    return {"a": a if draw(st.integers(0, 4)) else None, "b": b, "c": draw(p29.thing(1)), "file": draw(st.sampled_from(["o", "o.pkl", "o.gz"])),
            "limit": draw(st.sampled_from([None, 0, 0, 1, 2])), "separately": draw(st.sampled_from([None, None, p29.NAMES])), "fault": draw(fault())}


def interrupted(f, save):
    """Run `save` in a process of its own with a fault; True if it returned, False if it raised, None if the process ended in it."""
    sys.stdout.flush(), sys.stderr.flush()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.alarm(60)
            if f[0] == "size":
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL if f[2] == "kill" else signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (f[1], resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
            elif f[0] == "call":
                count = [f[1]]

                def hook(event, args):
                    if event not in EVENTS or event == "open" and (not isinstance(args[2], int) or not args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)):
                        return
                    count[0] -= 1
                    if count[0] == -1:
                        if f[2] == "kill":
                            os._exit(9)
                        raise OSError(errno.ENOSPC, "No space left on device")
                sys.addaudithook(hook)
            try:
                save()
                os.write(w, b"1")
            except Exception:
                os.write(w, b"0")
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as p:
        said = p.read()
    os.waitpid(pid, 0)
    return {b"1": True, b"0": False, b"": None}[said]


def judge(ctx, case, d, names, save, load):
    """save(which), load() -> comparable or an exception; names: files that belong to this object."""
    foreign = {}
    for n in ("other.txt", names + ".bak", names + ".tmp", names + "~"):
        foreign[n] = n.encode()
        with open(os.path.join(d, n), "wb") as f:
            f.write(foreign[n])
    states = {}
    if case["a"] is not None:
        save("a")
        states["a"] = load()
    ok = interrupted(case["fault"], lambda: save("b"))
    try:
        got = load()
    except Exception as e:
        got = None
        ctx.label("does not load: %s" % type(e).__name__)
    for n, data in foreign.items():
        with open(os.path.join(d, n), "rb") as f:
            assert f.read() == data, "file %r was changed" % n
    if case["fault"][0] == "label":
        assert ok is False, "labels that cannot be written in the encoding were saved"
        want = None
    else:
        want = case["want"]("b")
    if ok:
        assert got == want, "the save returned, but loaded %r, saved %r" % (got, want)
    elif got is not None:
        assert got in (states.get("a"), want), "loaded %r, which is neither the old %r nor the new %r" % (got, states.get("a"), want)
    save("c")
    got2 = load()
    assert got2 == case["want"]("c"), "after the next save: loaded %r, saved %r" % (got2, case["want"]("c"))
    differ = states.get("a") != want
    ctx.nontrivial(not ok and differ)
    ctx.label("%s %s" % (case["fault"][0], case["fault"][-1]), "returned" if ok else "raised" if ok is False else "killed",
              "old state" if got is not None and got == states.get("a") else "new state" if got is not None else "nothing")


def mat_body(case, ctx):
    d = ctx.dir()
    enc = case["enc"]
    ms = {}
    for k in "abc":
        x = case[k]
        if x is None:
            continue
        try:
            if any(l.encode(enc).decode(enc) != l for l in x["rows"] + x["cols"]):
                raise UnicodeError
        except UnicodeError:
            x = dict(x, rows=["r%s%d" % (k, i) for i in range(len(x["rows"]))], cols=["c%s%d" % (k, i) for i in range(len(x["cols"]))])
        ms[k] = model.build(x)
        if case["fault"][0] == "label" and k == "b":
            rows = list(x["rows"])
            if not rows:
                ctx.label("no labels")
                return
            rows[-1] = "日\ud800"
            ms[k] = TypeTokenMatrix(model.build_array(x), rows, x["cols"])
    f = os.path.join(d, case["name"])
    case = dict(case, want=lambda k: model.frozen(ms[k]))
    judge(ctx, case, d, case["name"], lambda k: ms[k].save(f, encoding=enc, pack=case["pack"], verbose=False),
          lambda: model.frozen(TypeTokenMatrix.load(f, encoding=enc, pack=case["pack"])))
    ctx.label("packed" if case["pack"] else "unpacked")


def voc_body(case, ctx):
    d = ctx.dir()
    enc = case["enc"]
    vs = {}
    for k in "abc":
        if case[k] is None:
            continue
        vs[k] = {}
        for w, n in case[k]:
            try:
                if w.encode(enc).decode(enc) == w:
                    vs[k][w] = n
            except UnicodeError:
                pass
        if k == "b":
            vs[k].update({"w%d" % i: 1 + i % 7 for i in range(case["long"])})
            if case["fault"][0] == "label":
                vs[k]["日\ud800"] = 1
    f = os.path.join(d, "v.freq")
    case = dict(case, want=lambda k: vs[k])
    judge(ctx, case, d, "v.freq", lambda k: Vocab(dict(vs[k])).save(f, encoding=enc, fmt=case["fmt"], verbose=False),
          lambda: dict(Vocab.load(f, encoding=enc, fmt=case["fmt"]).items()))
    ctx.label(case["fmt"])


def obj_body(case, ctx):
    d = ctx.dir()
    if case["fault"][0] == "label":
        case = dict(case, fault=["call", 1, "error"])
    f = os.path.join(d, case["file"])
    kw = {} if case["limit"] is None else {"sep_limit": case["limit"]}
    case = dict(case, want=lambda k: p29.picture(p29.build(case[k])))
    judge(ctx, case, d, case["file"], lambda k: p29.build(case[k]).save(f, separately=case["separately"], **kw), lambda: p29.picture(p29.Thing.load(f)))


FAULT = "a save that fails or whose process ends at a generated file size, file operation or label that cannot be encoded; "
RULE = "the name is loaded afterwards, then saved and loaded again; non-trivial if the save did not return and the content differed"
LAWS = [Law("matrices", mat_cases(), mat_body, quick=2400, thorough=80000, shards=8, rule=FAULT + RULE),
        Law("vocabularies", voc_cases(), voc_body, quick=2400, thorough=80000, shards=8, rule=FAULT + RULE),
        Law("objects", obj_cases(), obj_body, quick=1600, thorough=50000, shards=8, rule=FAULT + RULE)]
ASSUMPTIONS = ["a cut-off save is one whose process ends or whose file operation fails; data already handed to the operating system is kept",
               "the order of the file operations reaching the disk is that of the calls"]
