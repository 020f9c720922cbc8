"""P26: operations leave their inputs alone; constructors, copies and vocabularies are independent of what they came from."""
import collections
import os
import random
import numpy as np
import pandas as pd
import scipy.sparse as sp
from hypothesis import strategies as st
from lib import fakemp
fakemp.install()
from lib import corp, gen, model
from lib.core import Law
from nephosem import TypeTokenMatrix, Vocab
from nephosem.specutils import mxcalc, mxutils

POOL = gen.LABEL_POOL[:9]
k = st.integers(0, 8)
MEAS = ["pmi", "ppmi", "llik", "chisq", "zscore", "dice", "deltap", "deltapColl", "logratio"]
mop = st.one_of(
    st.tuples(st.sampled_from(["build", "frame", "shallow"]), st.integers(0, 3)),
    st.tuples(st.sampled_from(["copy", "deepcopy", "transpose", "todense", "describe", "print", "dict", "dict2", "dataframe", "str", "take"]), k),
    st.tuples(st.just("sub"), k, st.integers(0, 3), st.integers(0, 63), st.integers(0, 63)),
    st.tuples(st.just("reorder"), k, st.integers(0, 1), st.integers(0, 99)),
    st.tuples(st.just("concat"), k, k, st.integers(0, 1)),
    st.tuples(st.just("merge"), k, k), st.tuples(st.just("merge2"), k, k), st.tuples(st.just("merges"), k, k, st.one_of(st.none(), k)),
    st.tuples(st.just("multiply"), k, k),
    st.tuples(st.just("cmp"), k, st.sampled_from(["<", "<=", ">", ">="]), st.sampled_from([0, 1, 2, 0.5, -1])),
    st.tuples(st.just("equal"), k, k), st.tuples(st.just("get"), k, st.integers(0, 5), st.integers(0, 5), st.integers(0, 3)),
    st.tuples(st.just("sum"), k, st.sampled_from([None, 0, 1])), st.tuples(st.just("nonzero"), k, st.integers(0, 1)),
    st.tuples(st.just("drop"), k, st.integers(0, 1), st.integers(0, 2)), st.tuples(st.just("dropempty"), k, st.integers(0, 1), st.booleans()),
    st.tuples(st.just("empties"), k, st.booleans()), st.tuples(st.just("contexts"), k, st.integers(0, 5)),
    st.tuples(st.just("sample"), k, st.sampled_from([0.3, 1, 2]), st.integers(-1, 5), st.booleans()),
    st.tuples(st.just("similar"), k, st.integers(0, 5), st.integers(1, 4), st.booleans()),
    st.tuples(st.just("csv"), k), st.tuples(st.just("save"), k, st.booleans()),
    st.tuples(st.just("assoc"), k, st.sampled_from(MEAS), st.booleans()), st.tuples(st.just("assoc"), k, st.sampled_from(MEAS), st.booleans()),
    st.tuples(st.just("ppmi"), k, st.booleans(), st.booleans()),
    st.tuples(st.just("dist"), k, st.integers(0, 1), st.sampled_from(["cosine", "euclidean", "cityblock"])), st.tuples(st.just("cosine"), k, st.integers(0, 1)),
    st.tuples(st.just("rank"), k, st.booleans()), st.tuples(st.just("weights"), k, k, st.booleans()),
    st.tuples(st.just("vectors"), k, k, st.sampled_from(["addition", "weightedmean", "multiplication"]), st.sampled_from(["l1", "l2", "no"])),
    st.tuples(st.just("change"), k, st.integers(0, 9)), st.tuples(st.just("change"), k, st.integers(0, 9)), st.tuples(st.just("changeraw"), k))


@st.composite
def cases(draw):
    cols = draw(gen.unique_labels(1, 4, POOL))
    rows = draw(gen.unique_labels(1, 4, POOL))
    ms = [draw(gen.matrix(rows=rows, cols=cols, kinds=("count", "int", "float"), dense_ok=True))]
    for n in range(draw(st.integers(1, 3))):
        shape = draw(st.integers(0, 4))
        kw = [{}, {"rows": rows, "cols": cols}, {"rows": cols}, {"cols": cols}, {"rows": cols, "square": True}][shape]
        ms.append(draw(gen.matrix(max_rows=4, max_cols=4, kinds=("count", "int", "float"), dense_ok=True, pool=POOL, **kw)))
    return {"ms": ms, "sym": draw(st.booleans()), "ops": draw(st.lists(mop, min_size=2, max_size=9))}


def raw_frozen(a):
    if isinstance(a, pd.DataFrame):
        return ("frame", list(a.index), list(a.columns), [list(map(repr, r)) for r in a.values.tolist()])
    if sp.issparse(a):
        c = a.tocoo()
        return (a.format, a.shape, str(a.dtype), sorted(zip(c.row.tolist(), c.col.tolist(), map(repr, c.data.tolist()))))
    if isinstance(a, np.ndarray):
        return (a.shape, str(a.dtype), [list(map(repr, r)) for r in a.tolist()])
    return list(a)


class Pool:
    """Objects with a picture taken when they were made, and the group of objects each may share its data with."""

    def __init__(self):
        self.objs, self.pics, self.group, self.kind, self.n = [], [], [], [], 0

    def add(self, obj, kind, groups=()):
        g = min(groups) if groups else self.n
        self.n += 1
        for i, h in enumerate(self.group):
            if h in groups:
                self.group[i] = g
        self.objs.append(obj)
        self.kind.append(kind)
        self.group.append(g)
        self.pics.append(self.picture(len(self.objs) - 1))
        return len(self.objs) - 1

    def picture(self, i):
        o = self.objs[i]
        return model.frozen(o) if self.kind[i] == "matrix" else dict(o.freq_dict) if self.kind[i] == "vocab" else raw_frozen(o)

    def check(self, what):
        for i, p in enumerate(self.pics):
            now = self.picture(i)
            assert now == p, "%s changed %s %d: %r, before %r" % (what, self.kind[i], i, now, p)

    def changed(self, i):
        """Object i was changed on purpose: those it may share with are pictured again."""
        for j, g in enumerate(self.group):
            if g == self.group[i]:
                self.pics[j] = self.picture(j)

    def of(self, kind, n):
        ids = [i for i, x in enumerate(self.kind) if x == kind]
        return ids[n % len(ids)]


def bits(labels, mask):
    return [x for i, x in enumerate(labels) if mask >> i & 1] or labels[:1]


def bump(a, at):
    a[at] = ~a[at] if a.dtype == bool else a[at] + 1


def change_raw(P, i):
    a = P.objs[i]
    if isinstance(a, list):
        a[0] = "changed"
        a.append("more")
    elif isinstance(a, pd.DataFrame):
        a.iloc[0, 0] += 1
    elif sp.issparse(a):
        a.data[:1] += 1
    else:
        a[0, 0] += 1
    P.changed(i)
    P.check("changing the data given to a constructor")


def body(case, ctx):
    P = Pool()
    d = ctx.dir()

    def make(n, how):
        desc = dict(case["ms"][n % len(case["ms"])])
        if case["sym"] and desc["rows"] == desc["cols"]:
            up = [c for c in desc["cells"] if c[0] < c[1]]
            desc["cells"] = up + [[j, i, v] for i, j, v in up]
        a, rows, cols = model.build_array(desc), list(desc["rows"]), list(desc["cols"])
        if how == "frame":
            a = pd.DataFrame(a.toarray() if sp.issparse(a) else a, index=rows, columns=cols)
            P.add(a, "raw")
            m = TypeTokenMatrix.from_dataframe(a, issparse=desc["fmt"] != "dense")
        else:
            for x in (a, rows, cols):
                P.add(x, "raw")
            m = TypeTokenMatrix(a, rows, cols, **({"deep": False} if how == "shallow" else {}))
        P.check("constructing")
        P.add(m, "matrix", {P.group[-3]} if how == "shallow" else ())       # the labels are always its own
    for n in range(len(case["ms"])):
        make(n, "build")
    derived = changes = raised = 0
    for o in case["ops"]:
        name, args = o[0], o[1:]
        if name in ("build", "frame", "shallow"):
            make(args[0], name)
            continue
        if name == "changeraw":
            change_raw(P, P.of("raw", args[0]))
            changes += 1
            continue
        i = P.of("matrix", args[0])
        m = P.objs[i]
        if name == "change":
            if args[1] % 3 == 0:
                (m.row_items if args[1] % 2 else m.col_items)[0] = "changed %d" % changes
                P.pics[i] = P.picture(i)        # no other object shares its labels
                P.check("changing the labels of matrix %d" % i)
                changes += 1
                continue
            if sp.issparse(m.matrix):
                bump(m.matrix.data, slice(args[1] % 2, None))
            else:
                bump(m.matrix, (-1, 0))
            P.changed(i)
            P.check("changing matrix %d" % i)
            changes += 1
            continue
        used = [i]
        try:
            res = run(P, m, name, args, d, used)
        except Exception as e:      # an operation that does not apply to these matrices: it must leave them alone, too
            res = None
            raised += 1
            ctx.label("raised " + name)
        P.check("%s %r" % (name, args))
        if name in ("copy", "deepcopy"):
            used = []
        if name == "take" and res is not None:
            P.add(res, "raw")
        for r in (res if isinstance(res, list) else [res]):
            if isinstance(r, TypeTokenMatrix) and len(P.objs) < 30:
                if not any(r is P.objs[j] for j in used):
                    P.add(r, "matrix", {P.group[j] for j in used})
                    derived += 1
            elif isinstance(r, Vocab):
                P.add(r, "vocab", {P.group[j] for j in used})
    for i, kind in enumerate(P.kind):       # whatever is changed in the end, all others keep what they have
        if kind == "raw":
            change_raw(P, i)
        elif kind == "matrix":
            for labels in (P.objs[i].row_items, P.objs[i].col_items):
                labels[0] = "changed in the end"
                labels.append("more")
                P.pics[i] = P.picture(i)
                P.check("changing the labels of matrix %d in the end" % i)
    ctx.nontrivial(derived >= 2)
    ctx.label(*{"op " + o[0] for o in case["ops"]}, "changes" if changes else "no changes", "raised" if raised else "none raised")


def run(P, m, name, args, d, used):
    def other(n):
        j = P.of("matrix", n)
        used.append(j)
        return P.objs[j]
    rows, cols = list(m.row_items), list(m.col_items)
    if name in ("copy", "deepcopy", "transpose", "todense", "describe"):
        return getattr(m, name)()
    if name == "take":
        return m.get_matrix()
    if name == "print":
        return m.print_matrix(2, 2)
    if name == "str":
        return (str(m), repr(m), m.shape, m.item2rowid, m.item2colid, m.meta_data, m.get_matrix())
    if name == "dict":
        return m.spmatrix_to_dict()
    if name == "dict2":
        dd = mxutils.transform_spmatrix_to_dict(m.matrix, m.row_items, m.col_items)
        return mxutils.transform_dict_to_spmatrix(dd, m.row_items, m.col_items)
    if name == "dataframe":
        return m.dataframe
    if name == "sub":
        kw = {}
        if args[1] != 1:
            kw["row"] = bits(rows, args[2])
        if args[1] != 2:
            kw["col"] = bits(cols, args[3])
        sel = {x: list(y) for x, y in kw.items()}
        res = m.submatrix(**kw)
        assert kw == sel, "the selection lists were changed"
        return res
    if name == "reorder":
        items = list(rows if args[1] == 0 else cols)
        random.Random(args[2]).shuffle(items)
        given = list(items)
        res = m.reorder(items, axis=args[1])
        assert items == given, "the new order was changed"
        return res
    if name == "concat":
        return m.concatenate(other(args[1]), axis=args[2])
    if name == "merge":
        return m.merge(other(args[1]))
    if name == "merge2":
        return mxutils.merge_two_matrices(m, other(args[1]))
    if name == "merges":
        ms = [m, other(args[1])] + ([other(args[2])] if args[2] is not None else [])
        spmx, r, c = mxutils.merge_matrices(ms)
        return TypeTokenMatrix(spmx, r, c)
    if name == "multiply":
        return m.multiply(other(args[1]))
    if name == "cmp":
        return {"<": lambda: m < args[2], "<=": lambda: m <= args[2], ">": lambda: m > args[2], ">=": lambda: m >= args[2]}[args[1]]()
    if name == "equal":
        return m.equal(other(args[1]))
    if name == "get":
        r, c = rows[args[1] % len(rows)], cols[args[2] % len(cols)]
        return (m[r], m[r, c], m[args[1] % len(rows), :], m[:2], m[:1, :2])[args[3]]
    if name == "sum":
        return m.sum(axis=args[1])
    if name == "nonzero":
        return m.count_nonzero(axis=args[1])
    if name == "drop":
        return m.drop(axis=args[1], n_nonzero=args[2])
    if name == "dropempty":
        return m.drop_empty(axis=args[1], explicit=args[2])
    if name == "empties":
        return m.empty_rows(explicit=args[1])
    if name == "contexts":
        return m.get_colloc_contexts(rows[args[1] % len(rows)])
    if name == "sample":
        return m.sample(percent=args[1], seed=args[2], replace=args[3])
    if name == "similar":
        return m.most_similar(rows[args[1] % len(rows)], k=args[2], descending=args[3])
    if name == "csv":
        return m.to_csv(os.path.join(d, "m.csv"), verbose=False)
    if name == "save":
        return m.save(os.path.join(d, "m"), pack=args[1], verbose=False)
    if name in ("assoc", "ppmi"):
        t = m.matrix.tocoo()
        n, c = {r: 1 for r in rows}, {x: 1 for x in cols}
        for i, j, v in zip(t.row.tolist(), t.col.tolist(), t.data.tolist()):
            n[rows[i]] += int(abs(v)) + 1
            c[cols[j]] += int(abs(v)) + 1
        n, c = Vocab(n), Vocab(c)
        for v in (n, c):
            used.append(P.add(v, "vocab"))
        if name == "assoc":
            return mxcalc.compute_association(m, nfreq=n, cfreq=c, meas=args[1], **({"N": 500} if args[2] else {}))
        return mxcalc.compute_ppmi(m, n, c, positive=args[1]) if args[2] else mxcalc.compute_ppmi(m, positive=args[1])
    if name == "dist":
        return mxcalc.compute_distance(m, axis=args[1], metric=args[2])
    if name == "cosine":
        return mxcalc.compute_cosine(m, axis=args[1])
    if name == "rank":
        return mxcalc.compute_simrank(m, reverse=args[1])
    if name == "weights":
        return mxcalc.compute_token_weights(m, other(args[1]), booleanize=args[2])
    if name == "vectors":
        return mxcalc.compute_token_vectors(m, other(args[1]), operation=args[2], normalization=args[3])
    raise AssertionError(name)


# token weights and vectors need matrices that fit together
@st.composite
def token_cases(draw):
    types, collocs, ctx = draw(gen.unique_labels(1, 3, ["a/N", "b/N", "ab/V"])), draw(gen.unique_labels(1, 4, POOL)), draw(gen.unique_labels(1, 4))
    toks = ["%s/f%d/%d" % (t, n % 2, n) for n, t in enumerate(draw(st.lists(st.sampled_from(types), min_size=1, max_size=4)))]
    pos = draw(gen.matrix(rows=toks, cols=collocs, kinds=("int",), zeros=False))
    return {"pos": pos, "w": draw(gen.matrix(rows=types, cols=collocs, kinds=("float", "count"))), "s": draw(gen.matrix(rows=draw(st.permutations(collocs)), cols=ctx, kinds=("float", "count"))),
            "bool": draw(st.booleans()), "op": draw(st.sampled_from(["addition", "weightedmean", "multiplication"])), "norm": draw(st.sampled_from(["l1", "l2", "no"]))}


def token_body(case, ctx):
    P = Pool()
    pos, w, s = (model.build(case[x]) for x in ("pos", "w", "s"))
    for m in (pos, w, s):
        P.add(m, "matrix")
    try:
        tw = mxcalc.compute_token_weights(pos, w, booleanize=case["bool"])
    except Exception:
        ctx.label("weights raised")
        tw = None
    P.check("computing token weights")
    if tw is not None:
        P.add(tw, "matrix")
        try:
            vec = mxcalc.compute_token_vectors(tw, s, operation=case["op"], normalization=case["norm"])
            P.add(vec, "matrix")
            P.check("computing token vectors (%s, %s)" % (case["op"], case["norm"]))
            dist = mxcalc.compute_distance(vec)
            P.add(dist, "matrix")
            P.check("computing distances")
            P.add(mxcalc.compute_simrank(dist), "matrix")
            dist.most_similar(dist.row_items[0], k=2)
        except Exception as e:
            if isinstance(e, AssertionError):
                raise
            ctx.label("vectors raised")
        P.check("computing token vectors, distances and ranks")
    ctx.nontrivial(bool(case["pos"]["cells"]) and bool(case["w"]["cells"]) and bool(case["s"]["cells"]))
    ctx.label(case["op"], case["norm"])


# vocabularies
vop = st.one_of(
    st.tuples(st.just("dict"), st.dictionaries(st.sampled_from(POOL), st.integers(0, 9), max_size=5).map(lambda x: sorted(x.items()))),
    st.tuples(st.sampled_from(["copy", "deepcopy", "frame", "getdict", "save", "table", "lists", "equal"]), k),
    st.tuples(st.sampled_from(["sub", "items"]), k, st.lists(st.sampled_from(POOL), max_size=4)), st.tuples(st.just("cond"), k, st.integers(0, 5)), st.tuples(st.just("conds"), k, st.integers(0, 3)),
    st.tuples(st.just("freqs"), k, st.lists(st.integers(0, 9), min_size=1, max_size=3)), st.tuples(st.just("slice"), k, st.integers(0, 5)), st.tuples(st.just("match"), k), st.tuples(st.just("lemma"), k),
    st.tuples(st.just("inc"), k, st.sampled_from(POOL)), st.tuples(st.just("set"), k, st.sampled_from(POOL), st.integers(0, 9)), st.tuples(st.just("changeraw"), k),
    st.tuples(st.just("inc"), k, st.sampled_from(POOL)))


def vocab_body(case, ctx):
    P = Pool()
    d = ctx.dir()
    P.add(Vocab({"a": 1, "b/N": 2}), "vocab")
    pictures = []
    derived = changes = 0

    def add(v):
        nonlocal derived
        derived += 1
        if len(P.objs) < 12:
            P.add(v, "vocab")
    for o in case:
        name, args = o[0], o[1:]
        if name == "dict":
            src = dict(args[0]) if len(args[0]) != 2 else collections.defaultdict(int, args[0])
            pictures.append([src, dict(src)])
            add(Vocab(src))
        elif name == "changeraw":
            if pictures:
                src = pictures[args[0] % len(pictures)]
                src[0]["changed"] = 1
                src[0].pop("a", None)
                src[1] = dict(src[0])
                changes += 1
        else:
            i = P.of("vocab", args[0])
            v = P.objs[i]
            if name in ("inc", "set"):
                v.increment(args[1]) if name == "inc" else v.__setitem__(args[1], args[2])
                P.changed(i)
                changes += 1
            elif name in ("copy", "deepcopy"):
                add(getattr(v, name)())
            elif name == "frame":
                add(Vocab(v.dataframe))
            elif name == "getdict":
                x = v.get_dict()
                pictures.append([x, dict(x)])
            elif name == "table":
                df = v.dataframe
                if len(df):
                    df.iloc[0, df.columns.get_loc("freq")] = 999
                    df.iloc[0, df.columns.get_loc("item")] = "changed"
            elif name == "lists":
                for x in (v.keys(), v.values(), v.items(), v.get_item_list(), v.get_item_list(sorting="freq", descending=True)):
                    x.append("changed")
                v.sum(), str(v), v.describe()
            elif name == "save":
                v.save(os.path.join(d, "v"), fmt=["json", "plain"][args[0] % 2], verbose=False)
                v.make_type_file(["a", "zz"], os.path.join(d, "t"))
            elif name == "equal":
                v.equal(P.objs[0])
            elif name == "sub":
                items = list(args[1])
                add(v.subvocab(items))
                assert items == args[1]
            elif name == "items":
                items = list(args[1])
                add(v[items])
                assert items == args[1]
            elif name == "cond":
                add(v[v.freq >= args[1]])
            elif name == "conds":
                add(v[v.freq >= args[1], v.freq < 8])
            elif name == "freqs":
                add(v[list(args[1])])
            elif name == "slice":
                add(v[:args[1]])
            elif name == "match":
                add(v[v.match("item", ".*")])
            else:
                add(v.select_items("b"))
        for x, pic in pictures:
            assert x == pic, "%r changed a dictionary: %r, before %r" % (o, x, pic)
        P.check(repr(o))
    ctx.nontrivial(derived >= 2 and changes >= 1)
    ctx.label(*{"op " + o[0] for o in case})


# corpus tasks
@st.composite
def task_cases(draw):
    c = draw(gen.corpus(max_files=2, max_lines=6, min_files=1, slash=False))
    docs = model.read_docs(c)
    types, collocs = sorted({t.type for _, x in docs for t in x}), sorted({t.colloc for _, x in docs for t in x})
    pick = lambda xs: sorted(draw(st.dictionaries(st.sampled_from(xs + ["zz"]), st.integers(0, 9), min_size=1, max_size=4)).items())
    c["rows"], c["colv"] = pick(types), pick(collocs)
    c["task"] = draw(st.sampled_from(["col", "token"]))
    c["workers"], c["sched"] = draw(st.integers(1, 2)), draw(gen.schedule)
    return c


def task_body(case, ctx):
    from nephosem import ColFreqHandler, TokenHandler
    sett, names = model.write_corpus(case, ctx.dir())
    P = Pool()
    rows, cols, given = Vocab(dict(case["rows"])), Vocab(dict(case["colv"])), list(names)
    for v in (rows, cols):
        P.add(v, "vocab")
    with fakemp.scheduled(case["sched"], 9):
        try:
            if case["task"] == "col":
                res = ColFreqHandler(sett, workers=case["workers"], row_vocab=rows, col_vocab=cols).build_col_freq(fnames=given)
            else:
                res = TokenHandler(rows, settings=sett, workers=case["workers"], col_vocab=cols).retrieve_tokens(fnames=given)
        except ValueError:      # no token has any collocate
            res = None
            ctx.label("rejected")
    P.check("the %s task" % case["task"])
    assert given == names, "the %s task changed the list of files" % case["task"]
    ctx.nontrivial(res is not None and bool(res.matrix.nnz))
    ctx.label(case["task"])


LAWS = [Law("matrices", cases(), body, quick=6000, thorough=150000, shards=6,
            rule="up to 9 operations on a pool of matrices, including changes on purpose of values and labels; non-trivial if two matrices were derived"),
        Law("tokens", token_cases(), token_body, quick=1200, thorough=40000, shards=1, rule="token weights, vectors, distances and ranks over matrices that fit together; non-trivial if none is empty"),
        Law("vocabularies", st.lists(vop, min_size=2, max_size=10), vocab_body, quick=3000, thorough=80000, shards=1,
            rule="up to 10 operations on a pool of vocabularies; non-trivial if two were derived and one was changed"),
        Law("tasks", task_cases(), task_body, quick=300, thorough=8000, shards=3, rule="corpus tasks given vocabularies and a list of files; non-trivial if something was counted")]
ASSUMPTIONS = ["a matrix derived by another operation than a constructor or copy may share its data with the operands; only unintended changes count there",
               "an operation that refuses its operands is not judged here beyond leaving them unchanged"]
