"""P04: corpus results do not depend on workers, scheduling or file order; corpus untouched, no leftovers, termination."""
import os
from hypothesis import strategies as st
from lib import corp, dep, gen, model as M
from lib.core import Law
from checks import p02, p03, p05
import nephosem
from nephosem import ItemFreqHandler, ColFreqHandler, TokenHandler, Vocab


@st.composite
def variant(draw, c, real=False):
    c["variants"] = []
    for _ in range(draw(st.integers(1, 3)) if not real else 1):
        c["variants"].append({"workers": draw(st.sampled_from([0, 2, 3, 4, 6, 9])) if not real else draw(st.sampled_from([2, 3, 5])),
                              "sched": draw(gen.schedule) if not real else [],
                              "order": list(draw(st.permutations(range(len(c["files"]))))),
                              "how": draw(st.sampled_from(["list", "list", "dir", "fnames"])),
                              "cpus": draw(st.sampled_from([1, 2, 4, 9, 9])),
                              "pids": draw(st.sampled_from([None, None, [7, 1], [98, 1], [1234, 1000], [11234, 100000], [70000, 65536]]))})
    c["foreign"] = draw(st.booleans())
    c["paths"] = draw(st.sampled_from(["both", "both", "tmp", "out", "none"]))
    return c


def enrich(c, task, draw):
    """More files with hits: repeats the lines of a file under further names, queries types that occur."""
    full = [f for f in c["files"] if len(f[1]) > 1]
    if not full:
        return
    free = [p for p in ("g1.txt", "g/g2.txt", "g/g3.txt") if all(p != f[0] for f in c["files"])]
    for p in free[:draw(st.integers(1, 3))]:
        src = draw(st.sampled_from(full))
        lines = list(src[1])
        if task != "dep":
            lines = lines[draw(st.integers(0, len(lines) // 2)):]
        c["files"].append([p, lines, src[2], src[3]])
    if task == "dep":
        c["targets"] = None
        return
    types = sorted({t.type for _, d in M.read_docs(c) for t in d})
    if types and task in ("cooc", "tokens"):
        c["rows" if task == "cooc" else "queries"] = types[:4]
        how = draw(st.integers(0, 4))
        if how < 2:
            c["colv"] = None
        elif how == 2:      # every partial result has the same columns
            c["colv"] = [draw(st.sampled_from(sorted({t.colloc for _, d in M.read_docs(c) for t in d})))]


@st.composite
def cases(draw, real=False):
    task = draw(st.sampled_from(["freq", "cooc", "cooc", "tokens", "tokens", "dep"] if not real else ["freq", "cooc", "tokens", "dep"]))
    base = {"freq": gen.corpus(max_files=5), "cooc": p02.cases(), "tokens": p03.cases(), "dep": p05.cases()}[task]
    c = draw(base if not real else base.filter(lambda c: sum(len(f[1]) > 2 for f in c["files"]) >= 1))
    if real or draw(st.integers(0, 3)):
        enrich(c, task, draw)
    elif len(c["files"]) > 1 and draw(st.booleans()):
        k = draw(st.integers(0, len(c["files"]) - 1))
        c["files"][k][1] = []
    c["task"] = task
    c["real"] = real
    return draw(variant(c, real))


def execute(case, sett, names, v):
    """Labelled result of the task: {key: value}, or None for 'nothing there' (empty / rejected as empty)."""
    from lib import fakemp
    import contextlib
    task = case["task"]
    ctx = contextlib.nullcontext() if case["real"] else fakemp.scheduled(v["sched"], v["cpus"], v.get("kills", ()), v.get("hooks", ()), v.get("pids"))
    v["scheduler"] = getattr(ctx, "s", None)
    fn = {"list": names, "dir": None}.get(v["how"])
    if v["how"] == "fnames":
        fn = os.path.join(os.path.dirname(os.path.normpath(sett["corpus-path"])), "list.fnames")
        with open(fn, "w", encoding=sett.get("file-encoding", "utf-8")) as f:
            f.write("".join(n + "\n" for n in names))
    voc = corp.vocab
    with ctx:
        if task == "freq":
            r = ItemFreqHandler(sett, workers=v["workers"]).build_item_freq(fnames=fn)
            return {k: r[k] for k in r.keys()}, None
        if task == "cooc":
            h = ColFreqHandler(sett, workers=v["workers"])
            r = h.build_col_freq(fnames=fn, row_vocab=voc(case["rows"]), col_vocab=voc(case["colv"]))
            if r is None:
                return {}, None
        elif task == "tokens":
            h = TokenHandler(voc(case["queries"]), settings=sett, workers=v["workers"], col_vocab=voc(case["colv"]))
            try:
                r = h.retrieve_tokens(fnames=fn)
            except ValueError as e:
                if "empty" not in str(e):
                    raise
                return {}, None
        else:
            from nephosem.models.deprel import DepRelHandler
            h = DepRelHandler(sett, workers=v["workers"], targets=case["targets"], mode=case["mode"])
            h.read_templates(macros=[dep.build_macro(m, case["patterns"][m["pattern"]], n + 1) for n, m in enumerate(case["macros"])])
            try:
                r = h.build_dependency(fnames=fn)
            except ValueError as e:
                if "empty" not in str(e):
                    raise
                return {}, None
    rows, cols, cells, _ = M.snapshot(r)
    assert len(set(rows)) == len(rows) and len(set(cols)) == len(cols), "labels are not unique"
    return cells, (sorted(rows), sorted(cols))


def body(case, ctx):
    root = ctx.dir()
    sett, names = M.write_corpus(case, root)
    if case["paths"] in ("tmp", "none"):
        del sett["output-path"]
    if case["paths"] in ("out", "none"):
        del sett["tmp-path"]
    if case["task"] == "tokens":
        labels = [w[0] for w in M.tokens(case, case["queries"], case["colv"])]
        if len(set(labels)) != len(labels):
            ctx.label("ambiguous labels")
            return
    corpus = M.listing(sett["corpus-path"])
    home = os.environ["HOME"]
    files = lambda d: {os.path.join(a, f) for a, _, fs in os.walk(d) for f in fs}
    foreign = {}
    for d in (sett.get("output-path"), sett.get("tmp-path"), sett.get("output-path") and os.path.join(sett["output-path"], "tmp")):
        for sub in ("", "item.freq", "col.freq", "tok.app", "tok.app/999999"):
            if d and case.get("foreign"):
                os.makedirs(os.path.join(d, sub), exist_ok=True)
                foreign[os.path.join(d, sub, "sub.1.keep")] = "kept %s" % sub
                foreign[os.path.join(d, sub, "other.npz")] = "kept as well %s" % sub
    for f, text in foreign.items():
        with open(f, "w") as out:
            out.write(text)
    before = files(root) | files(home)
    base = execute(case, sett, names, {"workers": 1, "sched": [], "how": "list", "cpus": 9})
    for v in map(dict, case["variants"]):
        got = execute(case, sett, [names[i] for i in v["order"]], v)
        assert got == base, "workers=%r order=%r how=%r schedule=%r: result %r, one worker in list order: %r" % (
            v["workers"], v["order"], v["how"], v["sched"], got, base)
    assert M.listing(sett["corpus-path"]) == corpus, "the corpus was altered"
    left = {f for f in (files(root) | files(home)) - before if not f.endswith("list.fnames")}
    assert not left, "temporary results left behind: %r" % sorted(left)
    for f, text in foreign.items():
        assert os.path.exists(f), "a file of somebody else was deleted: %r" % f
        with open(f) as inp:
            assert inp.read() == text, "a file of somebody else was overwritten: %r" % f
    vals = base[0]
    ctx.nontrivial(len(case["files"]) >= 2 and sum(1 for x in vals.values() if x) >= 2)
    ctx.label("task " + case["task"], "paths " + case["paths"], "files=%d" % len(case["files"]),
              "more workers than files" if any(v["workers"] > len(case["files"]) for v in case["variants"]) else "few workers",
              "other people's files" if foreign else "own directories",
              "empty result" if not vals else "result")


LAWS = [Law("schedules", cases(), body, quick=1100, thorough=25000, shards=8,
            rule="a corpus task of any kind run with 1-3 combinations of worker count, queue interleaving, file order and file selection, compared with one worker; non-trivial if there are two files and two counted values"),
        Law("real-processes", cases(real=True), body, quick=24, thorough=300, shards=4,
            rule="the same with the real multiprocessing module instead of the deterministic scheduler")]
ASSUMPTIONS = ["files of somebody else are placed in the configured directories (those in the home directory belong to P36)",
               "interleavings are those of the queue operations of the workers and the parent; one worker runs between two of them",
               "corpora in which the configured token labels of two lines coincide are skipped",
               "empty per-process directories may stay in the temporary directory"]
