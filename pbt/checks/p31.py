"""P31: every call of a handler gives what a fresh handler would give; calls, handlers and failures do not influence each other."""
import copy
import os
from hypothesis import strategies as st
from lib import corp, dep, fakemp, gen, model as M
from lib.core import Law
from checks import p02, p05
from nephosem import ItemFreqHandler, ColFreqHandler, TokenHandler, Vocab


@st.composite
def subset(draw, n):
    if n == 0:
        return []
    if draw(st.integers(0, 3)) == 0:
        return list(draw(st.permutations(range(n))))
    return draw(st.lists(st.integers(0, n - 1), max_size=n, unique=True))


@st.composite
def histories(draw):
    c = draw(gen.corpus(max_files=4, max_lines=8, min_files=1, slash=False))
    docs = M.read_docs(c)
    types = sorted({t.type for _, d in docs for t in d})
    collocs = sorted({t.colloc for _, d in docs for t in d})
    unseen = "/".join("zz" for _ in c["settings"]["type"].split("/"))
    pick = lambda xs, u: draw(st.lists(st.sampled_from(xs + xs + [u]), min_size=1, max_size=4, unique=True))
    c["handlers"] = []
    for _ in range(draw(st.integers(1, 3))):
        kind = draw(st.sampled_from(["freq", "cooc", "cooc", "tokens", "tokens"]))
        h = {"kind": kind, "workers": draw(st.sampled_from([1, 2, 3]))}
        if kind == "cooc":
            h["rows"] = pick(types, unseen) if draw(st.booleans()) else None
            h["cols"] = pick(collocs, "zz") if draw(st.integers(0, 2)) == 0 else None
        if kind == "tokens":
            h["rows"] = pick(types, unseen)
            h["cols"] = pick(collocs, "zz") if draw(st.integers(0, 2)) == 0 else None
        c["handlers"].append(h)
    n = len(c["files"])
    c["ops"] = []
    for _ in range(draw(st.integers(2, 6))):
        k = draw(st.integers(0, len(c["handlers"]) - 1))
        op = {"handler": k, "files": draw(subset(n)), "how": draw(st.sampled_from(["list", "list", "fnames", "dir", "dir", "missing"]))}
        if c["handlers"][k]["kind"] == "cooc":
            op["rows"] = pick(types, unseen) if draw(st.booleans()) else None
            op["cols"] = pick(collocs, "zz") if draw(st.integers(0, 2)) == 0 else None
        op.update(draw(on_disk(n, op["files"], op["how"])))
        c["ops"].append(op)
    c["late"] = draw(st.booleans())
    c["scribble"] = draw(st.booleans())
    c["sched"] = draw(gen.schedule)
    return c


@st.composite
def on_disk(draw, n, files, how):
    """Which files are away and whose contents they have at the time of a call: the corpus changes between calls."""
    if draw(st.booleans()):
        return {}
    away = list(range(n)) if how == "dir" else [i for i in range(n) if i not in files]
    return {"gone": draw(st.lists(st.sampled_from(away), min_size=draw(st.integers(0, 1)), max_size=2, unique=True)) if away else [], "turn": draw(st.sampled_from([0, 0, 1, n - 1]))}


def arrange(case, op, names=None):
    """The corpus as it is at the time of a call; written to disk when given the file names. A file away has no contents."""
    n = len(case["files"])
    turn, gone = op.get("turn", 0), op.get("gone") or []
    files = [[f[0]] + list(case["files"][(i + turn) % n][1:]) for i, f in enumerate(case["files"])]
    for i, full in enumerate(names or []):
        if os.path.exists(full):
            os.remove(full)
        if i not in gone:
            _, lines, eol, final = files[i]
            with open(full, "wb") as f:
                f.write((eol.join(lines) + (eol if final and lines else "")).encode(case["settings"].get("file-encoding", "utf-8")))
    return dict(case, files=files)


def select(case, files):
    return dict(case, files=[case["files"][i] for i in files])


def names_arg(op, names, sett):
    """The fnames argument of a call."""
    sub = [names[i] for i in op["files"]]
    if op["how"] == "dir":
        return None, [i for i in range(len(names)) if i not in (op.get("gone") or [])]
    if op["how"] == "fnames":
        fn = os.path.join(os.path.dirname(os.path.normpath(sett["corpus-path"])), "list.fnames")
        with open(fn, "w", encoding=sett.get("file-encoding", "utf-8")) as f:
            f.write("".join(n + "\n" for n in sub))
        return fn, op["files"]
    if op["how"] == "missing":
        sub.insert(len(sub) // 2, os.path.join(sett["corpus-path"], "no", "such.txt"))
    return sub, op["files"]


def vocab(xs):
    return corp.vocab(xs)


def check_tokens(r, case, queries, cols):
    want = M.tokens(case, queries, cols)
    pos = {}
    for label, _, left, right in want:
        for i, c in enumerate(left):
            pos.setdefault((label, c.colloc), set()).add(i - len(left))
        for i, c in enumerate(right):
            pos.setdefault((label, c.colloc), set()).add(i + 1)
    rows, cs, cells, _ = M.snapshot(r)
    labels = [w[0] for w in want]
    assert sorted(rows) == sorted(labels), "token rows %r, expected %r" % (sorted(rows), sorted(labels))
    assert sorted(cs) == sorted({c for _, c in pos}), "columns %r, expected %r" % (sorted(cs), sorted({c for _, c in pos}))
    nz = {k: v for k, v in cells.items() if v != 0}
    assert set(nz) == set(pos) and all(v in pos[k] for k, v in nz.items()), "cells %r, occurrences %r" % (nz, pos)
    return want, pos


def picture(r):
    if r is None:
        return None
    if isinstance(r, Vocab):
        return sorted((k, r[k]) for k in r.keys())
    return M.frozen(r)


def body(case, ctx):
    root = ctx.dir()
    sett, names = M.write_corpus(case, root)
    allq = sorted({q for h in case["handlers"] if h["kind"] == "tokens" for q in h["rows"]})
    for op in case["ops"]:
        labels = [w[0] for w in M.tokens(arrange(case, op), allq, None)]
        if len(set(labels)) != len(labels):
            ctx.label("ambiguous labels")
            return
    original = copy.deepcopy(sett)
    given, kept, handlers = [], [], {}
    effective = {}

    def make(k):
        h = case["handlers"][k]
        own = copy.deepcopy(sett)
        if h["kind"] == "freq":
            handlers[k] = ItemFreqHandler(own, workers=h["workers"])
        else:
            rv, cv = vocab(h["rows"]), vocab(h["cols"])
            given.extend([v for v in (rv, cv) if v is not None])
            if h["kind"] == "cooc":
                handlers[k] = ColFreqHandler(own, workers=h["workers"], row_vocab=rv, col_vocab=cv)
                effective[k] = [h["rows"], h["cols"]]
            else:
                handlers[k] = TokenHandler(rv, settings=own, workers=h["workers"], col_vocab=cv)
        assert own == original, "the settings were altered: %r" % own
        if case["scribble"]:        # what the caller does with its own dict afterwards is its own business
            own["left-span"], own["right-span"], own["type"] = 9, 9, "fid"
            own.pop("corpus-path")

    calls = {}
    with fakemp.scheduled(case["sched"], 9) as s:
        if not case["late"]:
            for k in range(len(case["handlers"])):
                make(k)
        for n, op in enumerate(case["ops"]):
            k = op["handler"]
            if k not in handlers:
                make(k)
            h, han = case["handlers"][k], handlers[k]
            arg, files = names_arg(op, names, sett)
            sub = select(arrange(case, op, names), files)
            if "turn" in op:
                ctx.label("files changed, " + op["how"])
            keep = list(arg) if isinstance(arg, list) else arg
            bad = op["how"] == "missing"
            where = "call %d (%s, %s, files %r)" % (n, h["kind"], op["how"], files)
            try:
                if h["kind"] == "freq":
                    r = han.build_item_freq(fnames=arg)
                elif h["kind"] == "cooc":
                    rv, cv = vocab(op["rows"]), vocab(op["cols"])
                    given.extend([v for v in (rv, cv) if v is not None])
                    eff = effective[k]
                    eff[0] = op["rows"] or eff[0]
                    eff[1] = op["cols"] or eff[1] if eff[0] else eff[1]     # a call without target items is refused as a whole
                    r = han.build_col_freq(fnames=arg, row_vocab=rv, col_vocab=cv)
                else:
                    r = han.retrieve_tokens(fnames=arg)
            except fakemp.Stuck:
                raise
            except Exception as e:
                if bad:
                    ctx.label("failed call")
                    calls[k] = calls.get(k, 0) + 1
                    continue
                if h["kind"] == "tokens" and isinstance(e, ValueError) and "empty" in str(e):
                    assert not any(w[2] or w[3] for w in M.tokens(sub, h["rows"], h["cols"])), "%s: rejected as empty" % where
                    calls[k] = calls.get(k, 0) + 1
                    continue
                raise
            if bad and not (h["kind"] == "cooc" and not effective[k][0]):
                raise AssertionError("%s: a missing file was not reported" % where)
            assert arg == keep, "the list of files was altered"
            try:
                if h["kind"] == "freq":
                    assert {w: r[w] for w in r.keys()} == M.item_freq(sub), "got %r, expected %r" % (r.dict if hasattr(r, "dict") else r, M.item_freq(sub))
                    size = sum(M.item_freq(sub).values())
                elif h["kind"] == "cooc":
                    rows, cols = effective[k]
                    if rows is None:
                        assert r is None
                        size = 0
                    else:
                        want = M.cooc(sub, rows, cols)
                        p02.check_result(r, dict(sub, rows=rows, colv=cols), want)
                        size = sum(want.values())
                else:
                    want, pos = check_tokens(r, sub, h["rows"], h["cols"])
                    assert sorted(str(t) for q in han.type2toks for t in han.type2toks[q].tokens) == sorted(w[0] for w in want), "tokens of the handler"
                    size = len(pos)
            except AssertionError as e:
                raise AssertionError("%s: %s; worker errors %s" % (where, e, s.crashes))
            calls[k] = calls.get(k, 0) + 1
            kept.append((where, r, picture(r)))
            if calls[k] >= 2 and size >= 2:
                ctx.nontrivial()
                ctx.label("reused " + h["kind"])
    for where, r, p in kept:
        assert picture(r) == p, "%s: its result was altered by later calls" % where
    assert sett == original
    for v, xs in zip(given, [picture(v) for v in given]):
        assert [c for _, c in sorted((c, k) for k, c in xs)] and sorted(c for _, c in xs) == list(range(1, len(xs) + 1)), "a vocabulary passed in was altered: %r" % xs


# ------------------------------------------------------------------ dependency
@st.composite
def dep_histories(draw):
    c = draw(p05.cases())
    n = len(c["files"])
    k = len(c["macros"])
    c["handlers"] = draw(st.integers(1, 2))
    c["ops"] = []
    for _ in range(draw(st.integers(2, 4))):
        op = {"handler": draw(st.integers(0, c["handlers"] - 1)), "files": draw(subset(n)),
              "how": draw(st.sampled_from(["list", "dir", "dir", "missing"]))}
        op["read"] = draw(st.lists(st.integers(0, k - 1), min_size=1, max_size=k, unique=True)) if draw(st.integers(0, 2)) == 0 else None
        op.update(draw(on_disk(n, op["files"], op["how"])))
        c["ops"].append(op)
    return c


def dep_body(case, ctx):
    from nephosem.models.deprel import DepRelHandler
    sett, names = M.write_corpus(case, ctx.dir())
    built = [dep.build_macro(m, case["patterns"][m["pattern"]], n + 1) for n, m in enumerate(case["macros"])]
    t = case["targets"]
    targets = lambda: t if t is None or case["targets_as"] == "list" else vocab(t)
    kept, active, calls = [], {}, {}
    with fakemp.scheduled(case["sched"], 9) as s:
        hs = []
        for k in range(case["handlers"]):
            hs.append(DepRelHandler(copy.deepcopy(sett), workers=case["workers"], targets=targets(), mode=case["mode"]))
            hs[-1].read_templates(macros=built)
            active[k] = case["macros"]
        for n, op in enumerate(case["ops"]):
            k = op["handler"]
            if op["read"] is not None:
                active[k] = [case["macros"][i] for i in op["read"]]
                hs[k].read_templates(macros=[built[i] for i in op["read"]])
            arg, files = names_arg(op, names, sett)
            sub = dict(select(arrange(case, op, names), files), macros=active[k])
            want = dep.expected_counts(sub)
            where = "call %d (%s, files %r, macros %d)" % (n, op["how"], files, len(active[k]))
            calls[k] = calls.get(k, 0) + 1
            try:
                r = hs[k].build_dependency(fnames=arg)
            except fakemp.Stuck:
                raise
            except Exception as e:
                if op["how"] == "missing":
                    ctx.label("failed call")
                    continue
                if want or "empty" not in str(e):
                    raise
                continue
            assert op["how"] != "missing", "%s: a missing file was not reported" % where
            try:
                p05.compare(M.snapshot(r)[2], sub)
            except AssertionError as e:
                raise AssertionError("%s: %s; worker errors %s" % (where, e, s.crashes))
            kept.append((where, r, M.frozen(r)))
            if calls[k] >= 2 and sum(want.values()) >= 2:
                ctx.nontrivial()
    for where, r, p in kept:
        assert M.frozen(r) == p, "%s: its result was altered by later calls" % where
    for m in built:
        assert not m.matched_nodes and not m.matched_edges, "a macro passed to read_templates was altered"
    ctx.label("mode " + case["mode"], "two handlers" if case["handlers"] > 1 else "one handler")


LAWS = [Law("histories", histories(), body, quick=1500, thorough=20000, shards=8,
            rule="2-6 calls on 1-3 handlers (frequency, co-occurrence, tokens) over generated subsets of a corpus, some of them failing, against the reference models; non-trivial if a handler used before counts at least two things"),
        Law("dependency-histories", dep_histories(), dep_body, quick=700, thorough=12000, shards=8,
            rule="2-4 calls on 1-2 dependency handlers with re-read templates; non-trivial if a handler used before counts at least two embeddings")]
ASSUMPTIONS = ["vocabularies given to a co-occurrence handler stay in force for its later calls until others are given",
               "corpora in which the configured token labels of two lines coincide are skipped"]
