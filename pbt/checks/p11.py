"""P11: totals, counts and removal of empty rows and columns."""
import math
from hypothesis import strategies as st
from lib import fakemp
fakemp.install()
from lib import gen, large, model
from lib.core import Law

cases = st.fixed_dictionaries({"m": st.one_of(gen.matrix(max_rows=6, max_cols=6, kinds=("int", "float", "count", "int", "bool"), dense_ok=True), gen.matrix(max_rows=1, kinds=("int", "float")), gen.matrix(max_cols=1, kinds=("int", "float"))),
                               "via": st.sampled_from(["new", "new", "transpose", "sub"]), "n": st.integers(0, 4)})


def total_ok(got, vals, what):
    want = math.fsum(vals)
    tol = 1e-5 * math.fsum(abs(v) for v in vals) if any(isinstance(v, float) for v in vals) else 0
    assert abs(got - want) <= tol, "%s: %r, expected %r" % (what, got, want)


def body(case, ctx):
    d = case["m"]
    m = model.build(d)
    if case["via"] == "transpose":
        if not (d["fmt"] == "dense" and d["rows"] == d["cols"]):
            m = m.transpose()
    elif case["via"] == "sub":
        m = m.submatrix(row=list(reversed(d["rows"])))
    rows, cols, vals, stored = model.snapshot(m)
    V = lambda r=None, c=None: [vals[i, j] for i in ([r] if r is not None else rows) for j in ([c] if c is not None else cols)]
    s1, s0 = m.sum(axis=1), m.sum(axis=0)
    assert sorted(s1) == sorted(rows) and sorted(s0) == sorted(cols), "labels of the totals"
    for r in rows:
        total_ok(s1[r], V(r=r), "total of row %r" % r)
    for c in cols:
        total_ok(s0[c], V(c=c), "total of column %r" % c)
    total_ok(m.sum(), V(), "grand total")
    nz = lambda xs: sum(1 for x in xs if x != 0)
    n0, n1 = list(m.count_nonzero(axis=0)), list(m.count_nonzero(axis=1))
    assert n0 == [nz(V(r=r)) for r in rows], "non-zero counts of rows %r, table %r" % (n0, vals)
    assert n1 == [nz(V(c=c)) for c in cols], "non-zero counts of columns %r, table %r" % (n1, vals)
    if d["fmt"] == "dense":
        ctx.nontrivial(len(vals) > 1)
        ctx.label("dense")
        return

    def rest(got, keep_r, keep_c, what):
        if not keep_r or not keep_c:
            assert got is None or 0 in got.shape, "%s: everything should be dropped" % what
            ctx.label("all dropped")
            return
        assert got is not None, "%s dropped everything, expected rows %r and columns %r" % (what, keep_r, keep_c)
        r2, c2, v2, st2 = model.snapshot(got)
        assert r2 == keep_r and c2 == keep_c, "%s keeps %r x %r, expected %r x %r" % (what, r2, c2, keep_r, keep_c)
        model.same_table(v2, {(r, c): vals[r, c] for r in keep_r for c in keep_c}, what=what)
        assert set(st2) == {k for k in stored if k[0] in keep_r and k[1] in keep_c}, what
    rest(m.drop(axis=0, n_nonzero=case["n"]), [r for r in rows if nz(V(r=r)) > case["n"]], cols, "drop rows")
    rest(m.drop(axis=1, n_nonzero=case["n"]), rows, [c for c in cols if nz(V(c=c)) > case["n"]], "drop columns")
    full_r, full_c = [r for r in rows if nz(V(r=r))], [c for c in cols if nz(V(c=c))]
    assert list(m.empty_rows()) == [r for r in rows if r not in full_r], "empty rows %r" % (m.empty_rows(),)
    rest(m.drop_empty(axis=0), full_r, cols, "drop empty rows")
    rest(m.drop_empty(axis=1), rows, full_c, "drop empty columns")
    rest(m.drop_empty_rows(), full_r, cols, "drop empty rows")
    ctx.nontrivial(0 < len(full_r) < len(rows) or 0 < len(full_c) < len(cols) or len(stored) > len([v for v in stored.values() if v]))
    ctx.label("shape 1xn" if len(rows) == 1 else "shape nx1" if len(cols) == 1 else "shape nxm", "stored zeros" if any(v == 0 for v in stored.values()) else "no stored zeros")


LAWS = [Law("totals", cases, body, quick=12000, thorough=300000, shards=8,
            rule="a matrix (also one row, one column, transposed, selected); non-trivial if some but not all rows or columns are empty or zeros are stored"),
        Law("large", large.swapped(cases, kinds=("int", "float", "count", "bool"), dense_ok=True, both=True), large.running(body, "m"), quick=240, thorough=6000, shards=8,
            rule="the same with matrices of up to 300 rows or columns (sizes around powers of two), values around the limits of small types; non-trivial as above")]
ASSUMPTIONS = ["values are finite", "`explicit=True` of empty_rows/drop_empty is not used: its documentation contradicts itself", "dropping everything gives None"]
