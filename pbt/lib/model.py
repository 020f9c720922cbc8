"""Reference models (dict tables, corpora) and conversions between plain descriptions and objects of the code under test."""
import os
import re
import numpy as np
import scipy.sparse as sp


# ------------------------------------------------------------------ matrices
def build_array(m):
    """numpy/scipy object of a plain matrix description."""
    dt = np.dtype(m["dtype"])
    shape = (len(m["rows"]), len(m["cols"]))
    if m["fmt"] == "dense":
        a = np.zeros(shape, dtype=dt)
        for i, j, v in m["cells"]:
            a[i, j] = v
        return a
    if m["cells"]:
        i, j, v = zip(*m["cells"])
    else:
        i, j, v = (), (), ()
    coo = sp.coo_matrix((np.array(v, dtype=dt), (np.array(i, dtype=np.int32), np.array(j, dtype=np.int32))), shape=shape)
    return {"coo": coo, "csr": coo.tocsr(), "csc": coo.tocsc()}[m["fmt"]]


def build(m, **kw):
    from nephosem import TypeTokenMatrix
    return TypeTokenMatrix(build_array(m), list(m["rows"]), list(m["cols"]), **kw)


def table(m):
    """dict (row label, col label) -> python value, of every cell of a description (absent = 0)."""
    dt = np.dtype(m["dtype"])
    t = {(r, c): dt.type(0).item() for r in m["rows"] for c in m["cols"]}
    for i, j, v in m["cells"]:
        t[m["rows"][i], m["cols"][j]] = dt.type(v).item()
    return t


def stored(m):
    """dict of the stored cells only."""
    dt = np.dtype(m["dtype"])
    return {(m["rows"][i], m["cols"][j]): dt.type(v).item() for i, j, v in m["cells"] if m["fmt"] != "dense" or v != 0}


def arr(obj):
    return obj.matrix if hasattr(obj, "matrix") else obj


def snapshot(obj):
    """(rows, cols, {(r, c): value} of all cells, set of stored cells) of a TypeTokenMatrix, read without its own methods."""
    a = obj.matrix
    rows, cols = list(obj.row_items), list(obj.col_items)
    assert a.shape == (len(rows), len(cols)), "matrix of shape %r with %d row and %d column labels" % (a.shape, len(rows), len(cols))
    if sp.issparse(a):
        c = a.tocoo()
        st = {}
        for i, j, v in zip(c.row.tolist(), c.col.tolist(), c.data.tolist()):
            st[rows[i], cols[j]] = st.get((rows[i], cols[j]), 0) + v if (rows[i], cols[j]) in st else v
        d = {(r, k): st.get((r, k), 0) for r in rows for k in cols}
        return rows, cols, d, st
    d = {}
    for i, r in enumerate(rows):
        for j, k in enumerate(cols):
            d[r, k] = a[i, j].item() if hasattr(a[i, j], "item") else a[i, j]
    return rows, cols, d, {k: v for k, v in d.items() if v != 0}


def frozen(obj):
    """A deep, comparable picture of a matrix object (values, stored pattern, dtype, labels)."""
    a = obj.matrix
    if sp.issparse(a):
        c = a.tocoo()
        cells = sorted(zip(c.row.tolist(), c.col.tolist(), map(repr, c.data.tolist())))
    else:
        cells = [list(map(repr, row)) for row in a.tolist()]
    return (list(obj.row_items), list(obj.col_items), cells, str(a.dtype), tuple(a.shape))


def close(x, y, rtol=1e-9, atol=1e-12):
    if x == y:
        return True
    try:
        if x != x and y != y:
            return True
        return abs(x - y) <= atol + rtol * max(abs(x), abs(y))
    except TypeError:
        return False


def same_table(got, want, rtol=0.0, atol=0.0, what="cell"):
    assert set(got) == set(want), "%s labels: unexpected %r, missing %r" % (what, sorted(map(repr, set(got) - set(want)))[:5], sorted(map(repr, set(want) - set(got)))[:5])
    for k, w in want.items():
        g = got[k]
        assert g == w or close(g, w, rtol, atol), "%s %r: got %r, expected %r" % (what, k, g, w)


# ------------------------------------------------------------------ corpora
def write_corpus(case, root):
    """Writes the files, returns (settings with paths, list of absolute file names in case order)."""
    cdir = os.path.join(root, "corpus")
    os.makedirs(cdir)
    sett = dict(case["settings"])
    enc = sett.get("file-encoding", "utf-8")
    names = []
    if case.get("links", 0) & 1:      # the corpus directory is a link to another one
        os.rename(cdir, os.path.join(root, "corpus-1"))
        os.symlink("corpus-1", cdir)
    for n, (path, lines, eol, final) in enumerate(case["files"]):
        full = os.path.join(cdir, path)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        text = eol.join(lines) + (eol if final and lines else "")
        real = full
        if case.get("links", 0) >> (n + 1) & 1:      # the file is a link to a file elsewhere
            real = os.path.join(root, "store", "s%d.x.dat" % n)
            os.makedirs(os.path.dirname(real), exist_ok=True)
            os.symlink(real, full)
        with open(real, "wb") as f:
            f.write(text.encode(enc))
        names.append(full)
    sett["corpus-path"] = cdir + case.get("spell", "")
    sett["output-path"] = os.path.join(root, "out")
    sett["tmp-path"] = os.path.join(root, "tmp")
    for d in (sett["output-path"], sett["tmp-path"]):
        os.makedirs(d)
    return sett, names


class Tok:
    __slots__ = ("m", "lid", "type", "colloc", "cols", "fid")


def columns(sett):
    return (sett.get("global-columns") or sett["line-format"]).split(",")


def read_docs(case, order=None):
    """Documents of a corpus: list of (fid, [Tok...]) - independent reading of the files' lines."""
    sett = case["settings"]
    cols = {c: i + 1 for i, c in enumerate(columns(sett))}
    lm, sepm = re.compile(sett["line-machine"]), re.compile(sett["separator-line-machine"])
    colloc = sett.get("colloc", sett["type"])
    docs = []
    for path, lines, eol, final in case["files"]:
        fid = path[:path.rindex(".")] if "." in path.rsplit("/", 1)[-1][1:] else path
        cur = []
        for n, raw in enumerate(lines, 1):
            line = raw.strip()
            m = lm.match(line)
            if m is None:
                if sepm.match(line):
                    docs.append((fid, cur))
                    cur = []
                continue
            t = Tok()
            t.lid, t.fid = n, fid
            t.cols = {c: m.group(i) for c, i in cols.items()}
            t.type = "/".join(t.cols[c] for c in sett["type"].split("/"))
            t.colloc = "/".join(t.cols[c] for c in colloc.split("/"))
            cur.append(t)
        docs.append((fid, cur))
    return docs


def token_label(sett, t):
    parts = dict(t.cols, fid=t.fid, lid=str(t.lid))
    return "/".join(parts[c] for c in sett["token"].split("/"))


def item_freq(case):
    out = {}
    for _, doc in read_docs(case):
        for t in doc:
            out[t.type] = out.get(t.type, 0) + 1
    return out


def cooc(case, row_items, col_items=None):
    """{(type, colloc): count} by the position-pair definition."""
    L, R = case["settings"]["left-span"], case["settings"]["right-span"]
    rows = set(row_items)
    cols = None if col_items is None else set(col_items)
    out = {}
    for _, doc in read_docs(case):
        for i, t in enumerate(doc):
            if t.type not in rows:
                continue
            for j in range(max(0, i - L), min(len(doc), i + R + 1)):
                if j == i:
                    continue
                c = doc[j]
                if cols is not None and c.colloc not in cols:
                    continue
                out[t.type, c.colloc] = out.get((t.type, c.colloc), 0) + 1
    return out


def tokens(case, queries, col_items=None):
    """[(label, type, left collocs in text order, right collocs)] of every occurrence of a query."""
    L, R = case["settings"]["left-span"], case["settings"]["right-span"]
    cols = None if col_items is None else set(col_items)
    out = []
    for _, doc in read_docs(case):
        for i, t in enumerate(doc):
            if t.type not in queries:
                continue
            left = [c for c in doc[max(0, i - L):i] if cols is None or c.colloc in cols]
            right = [c for c in doc[i + 1:i + 1 + R] if cols is None or c.colloc in cols]
            out.append((token_label(case["settings"], t), t.type, left, right))
    return out


def listing(root):
    """{relative path: content} of a directory tree."""
    out = {}
    for d, dirs, files in os.walk(root):
        rel = os.path.relpath(d, root)
        out[rel + "/"] = None
        for f in files:
            with open(os.path.join(d, f), "rb") as fh:
                out[os.path.join(rel, f)] = fh.read()
    return out
