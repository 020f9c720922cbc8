"""P23: configuration files and settings dictionaries, as a history against plain dicts."""
import copy
import os
from hypothesis import strategies as st
from lib import fakemp
fakemp.install()
from lib.core import Law
from nephosem.conf import ConfigLoader
from nephosem import ItemFreqHandler, ColFreqHandler, TokenHandler, Vocab

SHIPPED = {"file-encoding": "utf-8", "outfile-encoding": "utf-8", "line-machine": r"([^\t]+)\t([^\t]+)\t([^\t]+)", "line-format": "word,pos,lemma",
           "type": "lemma/pos", "colloc": "lemma/pos", "token": "word/pos/fid/lid", "boundary-detection-mechanism": "single",
           "separator-line-machine": "</artikel>", "single-boundary-machine": "</artikel>",
           "left-boundary-machine": '^<artikel naam  =  "([^"]+)"   >   $', "right-boundary-machine": "^</artikel>$",
           "left-span": 10, "right-span": 10, "left-MWUspan": 0, "right-MWUspan": 0, "wqueries-default-key": "_DEFAULT_"}
SECTIONS = ["Corpus-Format", "Span", "Data", "Special", "Encoding", "corpus-format", "My Own", "x"]
OPTIONS = ["type", "Type", "TYPE", "colloc", "token", "left-span", "Left-Span", "file-encoding", "separator-line-machine", "line-machine", "new option",
           "x", "X", "a.b", "corpus-path", "line-format", "left-MWUspan", "wqueries-default-key", "lid"]
SPANS = ["left-span", "right-span", "left-MWUspan", "right-MWUspan", "Left-Span", "MWU"]
VALUES = ["lemma/pos", "4", "-1", "", "True", "None", r"([^\t]+)\t(\S*)", "^</?s>$", "a = b", "a: b", "word,pos,lemma", "utf-8", "x  y", "[a]", '"q"', "0.5",
          "a;b", "a#b", "first\nsecond", "w\n\\w+\nz", "{x}", "$HOME", "~", "1e3"]


@st.composite
def conf(draw):
    """[[section, [[option, value, delimiter]...]]...]"""
    out = []
    for s in draw(st.lists(st.sampled_from(SECTIONS), max_size=5, unique=True)):
        if s == "Span":
            opts = [[o, draw(st.integers(-2, 30)), draw(st.integers(0, 3))] for o in draw(st.lists(st.sampled_from(SPANS), max_size=4, unique=True))]
        else:
            opts = [[o, draw(st.sampled_from(VALUES)), draw(st.integers(0, 3))] for o in draw(st.lists(st.sampled_from(OPTIONS), max_size=6, unique=True))]
        out.append([s, opts])
    return {"sections": out, "noise": draw(st.integers(0, 3)), "crlf": draw(st.booleans()), "last": draw(st.booleans())}


k = st.integers(0, 5)
op = st.one_of(
    st.tuples(st.just("update"), k, k), st.tuples(st.just("update"), k, k), st.tuples(st.just("load"), k), st.tuples(st.just("settings"), k), st.tuples(st.just("settings"), k),
    st.tuples(st.just("set"), k, st.sampled_from(OPTIONS + ["left-span", "nested"]), st.sampled_from(["changed", 3, ["l"]])), st.tuples(st.just("del"), k, st.integers(0, 9)),
    st.tuples(st.just("clear"), k), st.tuples(st.just("loader"), k), st.tuples(st.just("task"), k, st.sampled_from(["item", "col", "token"])))
cases = st.fixed_dictionaries({"files": st.lists(conf(), min_size=1, max_size=4), "ops": st.lists(op, min_size=1, max_size=10)})


def write(fn, c):
    """The file's text; returns the settings it denotes (later sections win)."""
    want, lines = {}, []
    if c["noise"] & 1:
        lines += ["# a comment", "", "; type = wrong"]
    for s, opts in c["sections"]:
        lines.append("[%s]" % s)
        if c["noise"] & 2:
            lines += ["# colloc = wrong", ""]
        for o, v, d in opts:
            text = str(v).replace("\n", "\n    ")
            lines.append("%s%s%s" % (o, ["=", " = ", ":", ": "][d], text))
            want[o] = v
    text = "\n".join(lines) + ("\n" if c["last"] else "")
    with open(fn, "w", newline="", encoding="ascii") as f:
        f.write(text.replace("\n", "\r\n") if c["crlf"] else text)
    return want


def body(case, ctx):
    d = ctx.dir()
    files = []
    for n, c in enumerate(case["files"]):
        fn = os.path.join(d, "conf%d.ini" % n)
        files.append((fn, write(fn, c)))
    os.mkdir(d + "/corpus")
    with open(d + "/corpus/f1.txt", "w") as f:
        f.write("<artikel>\nThe\tDT\tthe\ncat\tNN\tcat\nsat\tV\tsit\n</artikel>\n")
    loaders, sets = [(ConfigLoader(), dict(SHIPPED))], []
    changed = overridden = tasks = 0
    for o in case["ops"]:
        name, args = o[0], o[1:]
        got = want = None
        if name == "update":
            (ld, model), (fn, opts) = loaders[args[0] % len(loaders)], files[args[1] % len(files)]
            got, want = ld.update_config(fn), {**model, **opts}
            overridden += any(x in model for x in opts)
        elif name == "load":
            fn, opts = files[args[0] % len(files)]
            got, want = ConfigLoader.load_config(fn), dict(opts)
        elif name == "settings":
            ld, model = loaders[args[0] % len(loaders)]
            got, want = ld.settings, copy.deepcopy(model)
        elif name == "loader":
            fn, opts = files[args[0] % len(files)]
            loaders.append((ConfigLoader(fn), dict(opts)))
        elif not sets:
            continue
        else:
            s, m = sets[args[0] % len(sets)]
            if name == "set":
                s[args[1]] = copy.deepcopy(args[2])
                m[args[1]] = copy.deepcopy(args[2])
            elif name == "del" and m:
                key = sorted(m)[args[1] % len(m)]
                del s[key], m[key]
            elif name == "clear":
                s.clear()
                m.clear()
            elif name == "task":
                tasks += task(s, args[1], d)
            changed += 1
        if got is not None:
            assert got == want, "%s: %r, expected %r" % (o, diff(got, want), diff(want, got))
            assert all(type(got[x]) is type(want[x]) for x in want), "%s: types %r" % (o, {x: type(got[x]) for x in want})
            sets.append((got, dict(want)))
        for n, (ld, model) in enumerate(loaders):
            assert ld.settings == model, "defaults of loader %d after %r: %r, expected %r" % (n, o, diff(ld.settings, model), diff(model, ld.settings))
        for n, (s, m) in enumerate(sets):
            assert s == m, "settings %d after %r: %r, expected %r" % (n, o, diff(s, m), diff(m, s))
    ctx.nontrivial(overridden and changed)
    ctx.label("changed" if changed else "read only", "overrides" if overridden else "no override", *(["task"] if tasks else []))


def diff(a, b):
    return {x: a[x] for x in a if x not in b or b[x] != a[x]}


def task(s, which, d):
    """Hands the caller's dictionary, completed for a corpus, to a task; it must come back as it was."""
    mine = dict(copy.deepcopy(s), **{x: SHIPPED[x] for x in ("line-machine", "line-format", "type", "token", "left-span", "right-span", "file-encoding", "separator-line-machine", "boundary-detection-mechanism", "single-boundary-machine")})
    mine.update({"corpus-path": d + "/corpus", "output-path": d + "/out"})
    mine.pop("outfile-encoding", None)
    if "colloc" in s:
        mine["colloc"] = "lemma"
    if isinstance(mine.get("global-columns"), str):
        mine.pop("global-columns")
    before = copy.deepcopy(mine)
    os.makedirs(d + "/out", exist_ok=True)
    with fakemp.scheduled([], 2):
        if which == "item":
            out = ItemFreqHandler(mine).build_item_freq()
            assert out.get_dict() == {"the/DT": 1, "cat/NN": 1, "sit/V": 1}, out.get_dict()
        elif which == "col":
            ColFreqHandler(mine).build_col_freq()
        else:
            TokenHandler(Vocab({"cat/NN": 1}), mine).retrieve_tokens()
    assert mine == before, "the caller's settings after a task: %r, before %r" % (diff(mine, before), diff(before, mine))
    return 1


LAWS = [Law("history", cases, body, quick=2400, thorough=60000, shards=6,
            rule="configuration files, loaders and settings dictionaries changed in turn; non-trivial if a file overrode a default and a returned dictionary was changed or used")]
ASSUMPTIONS = ["ASCII files without '%' (interpolation), [DEFAULT] sections or repeated names within a section", "spans are written as integers"]
