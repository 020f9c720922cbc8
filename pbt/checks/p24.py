"""P24: the steps of Cluster by Committee against their definitions, and whole runs."""
import collections
import itertools
import math
import random
import os
import numpy as np
from hypothesis import strategies as st
import scipy.cluster.hierarchy as sch
from lib import fakemp
fakemp.install()
from lib import gen, model
from lib.core import Law
from nephosem import TypeTokenMatrix
from nephosem.models import cbc

EPS = 1e-9
ELES = ["a/N", "b/N", "c/V", "é", "d", "e e", "10", "g/N", "h", "i", "j", "k"]
METRICS = ["without_size", "with_size", "with_size_sqrt"]
PRUNE = [["distance", "median"], ["distance", "mean"], ["distance", "25%"], ["distance", "80%"], ["distance", 0.3], ["distance", 0.7], ["distance", 1.0], ["minsize", 2], ["minsize", 3]]
THETAS = [0.0, 0.1, 0.25, 0.35, 0.5, 0.8, 0.99, 1.0]


# ---------------------------------------------------------------- distances
@st.composite
def distances(draw, lo=2, hi=8):
    """Condensed distances of n points."""
    n = draw(st.integers(lo, hi))
    if draw(st.booleans()):
        vals = st.sampled_from([0.0, 0.1, 0.2, 0.25, 0.5, 0.5, 0.75, 0.9, 1.0, 1.0])
    else:
        vals = st.integers(0, 1000).map(lambda x: x / 1000)
    return [n, draw(st.lists(vals, min_size=n * (n - 1) // 2, max_size=n * (n - 1) // 2))]


def square(n, cond):
    a = np.zeros((n, n))
    for (i, j), v in zip(itertools.combinations(range(n), 2), cond):
        a[i, j] = a[j, i] = v
    return a


def cut(Z, n, how, t):
    """Clusters after all merges up to the line, or None if rounding could move a merge across it."""
    heights = [z[2] for z in Z]
    if how == "minsize":
        line = next((z[2] for z in Z if z[3] >= t), None)
        if line is None:
            return None
    elif isinstance(t, str):
        line = float(np.mean(heights) if t == "mean" else np.median(heights) if t == "median" else np.percentile(heights, int(t[:-1])))
        if any(abs(h - line) < EPS and h != line for h in heights) or t != "median" and any(abs(h - line) < EPS for h in heights):
            return None
    else:
        line = t
        if any(abs(h - line) < EPS and h != line for h in heights):
            return None
    members = {i: [i] for i in range(n)}
    for i, (x, y, h, _) in enumerate(Z):
        if h <= line:
            members[n + i] = members.pop(int(x)) + members.pop(int(y))
        else:
            members[n + i] = None
    return {frozenset(m) for m in members.values() if m}


tree_cases = st.fixed_dictionaries({"d": distances(), "prune": st.sampled_from(PRUNE), "link": st.sampled_from(["average", "single", "complete"])})


def tree_body(case, ctx):
    n, cond = case["d"]
    how, t = case["prune"]
    Z = sch.linkage(np.array(cond), method=case["link"])
    got = list(cbc.flat_cluster(Z, t=t, criterion=how))
    assert len(got) == n, "%d elements, %d cluster numbers" % (n, len(got))
    groups = collections.defaultdict(list)
    for i, c in enumerate(got):
        groups[c].append(i)
    want = cut(Z.tolist(), n, how, t)
    if want is not None:
        assert {frozenset(g) for g in groups.values()} == want, "cut at %r: %r, expected %r" % (t, dict(groups), want)
    full = cbc.hierarchical_cluster(np.array(cond), prune_method=how, t=t)
    assert sorted(x for c in full.values() for x in c) == list(range(n)), "clusters %r are not a partition of %d elements" % (dict(full), n)
    want = cut(sch.linkage(np.array(cond), method="average").tolist(), n, how, t)
    if want is not None:
        assert {frozenset(g) for g in full.values()} == want, "clusters cut at %r: %r, expected %r" % (t, dict(full), want)
    ctx.nontrivial(want is not None and 1 < len(want) < n)
    ctx.label(how, str(t))


# ---------------------------------------------------------------- scores
@st.composite
def score_cases(draw):
    n = draw(st.integers(2, 8))
    sims = draw(st.lists(st.sampled_from([0.0, 0.1, 0.25, 0.5, 0.75, 1.0, -0.5, -2.0]) if draw(st.booleans()) else st.integers(-300, 1000).map(lambda x: x / 1000), min_size=n * (n - 1) // 2, max_size=n * (n - 1) // 2))
    return {"n": n, "sims": sims, "where": draw(st.lists(st.integers(1, 4), min_size=n, max_size=n)), "order": draw(st.permutations(range(n))),
            "metric": draw(st.sampled_from(METRICS)), "highest": draw(st.booleans()), "func": draw(st.integers(0, 3)) == 0, "plain": draw(st.booleans())}


def score_of(ids, S, metric):
    if len(ids) == 1:
        return -1
    pairs = list(itertools.combinations(ids, 2))
    avg = math.fsum(S[i, j] for i, j in pairs) / len(pairs)
    return avg * {"without_size": 1, "with_size": len(ids), "with_size_sqrt": math.sqrt(len(ids)), "func": len(ids) ** 2}[metric]


def score_body(case, ctx):
    n, sims = case["n"], np.array(case["sims"])
    S = square(n, sims)
    clusters = {} if case["plain"] else collections.defaultdict(list)
    for i in case["order"]:
        clusters.setdefault(case["where"][i], []).append(i)
    before = {c: list(x) for c, x in clusters.items()}
    metric = "func" if case["func"] else case["metric"]
    want = {c: score_of(x, S, metric) for c, x in before.items()}
    avg = cbc.cluster_avgsim(clusters, sims)
    for c, ids in before.items():
        if len(ids) > 1:
            assert model.close(avg[c], score_of(ids, S, "without_size"), 1e-9, 1e-9), "average similarity of %r: %r" % (ids, avg[c])
            assert model.close(cbc.average_similarity(ids, sims), avg[c], 1e-9, 1e-9)
    kw = {"score_func": lambda size, sim: size ** 2 * sim} if case["func"] else {}
    got = cbc.score_cluster(clusters, sims, metric=case["metric"], highest=case["highest"], **kw)
    assert {c: list(x) for c, x in clusters.items()} == before, "scoring changed the clusters: %r, before %r" % (dict(clusters), before)
    if case["highest"]:
        assert len(got) == 1, "highest scoring: %r" % (got,)
        s, c = got[0]
        assert list(c) in before.values(), "the highest scoring %r is none of the clusters %r" % (c, before)
        mine = score_of(list(c), S, metric)
        assert model.close(s, mine, 1e-9, 1e-9), "score of %r: %r, expected %r" % (c, s, mine)
        assert mine >= max(want.values()) - EPS, "%r with %r was chosen among %r" % (c, mine, want)
    else:
        assert sorted(list(c) for _, c in got) == sorted(before.values()), "scored %r of %r" % (got, before)
        for s, c in got:
            assert model.close(s, score_of(list(c), S, metric), 1e-9, 1e-9), "score of %r: %r, expected %r" % (c, s, score_of(list(c), S, metric))
    ctx.nontrivial(len(before) >= 2 and any(len(x) > 1 for x in before.values()))
    ctx.label(metric, "highest" if case["highest"] else "all", "all singletons" if len(before) == n else "some pairs")


# ---------------------------------------------------------------- similar elements
step1_cases = st.fixed_dictionaries({"d": distances(3, 7), "prune": st.sampled_from(PRUNE), "metric": st.sampled_from(METRICS), "k": st.sampled_from([2, 3, 4, 5, 100, 0.5, 0.7]), "highest": st.booleans(),
                                     "cpus": st.integers(1, 4), "multi": st.booleans()})


def step1_body(case, ctx):
    n, cond = case["d"]
    eles, D = ELES[:n], square(n, cond)
    m = TypeTokenMatrix(D.copy(), eles, eles)
    k = int(case["k"] * n) if case["k"] < 1 else case["k"]
    if k < 2:
        return
    how, t = case["prune"]
    kw = {"distmx": m, "k": case["k"], "prune_method": how, "t": t, "score_metric": case["metric"], "highest_score": case["highest"]}
    pos = {e: i for i, e in enumerate(eles)}
    count = 0
    everything = []
    for e in eles:
        L = cbc.cbc_step1_single([e], **kw)
        everything += L
        seen = [x for _, c in L for x in c]
        assert set(seen) <= set(eles) and len(set(seen)) == len(seen), "clusters %r" % (L,)
        if case["highest"]:
            assert len(L) == 1, "clusters for %r: %r" % (e, L)
        else:
            assert e not in seen and len(seen) == min(k, n - 1), "%d of %d similar elements of %r were clustered: %r" % (len(seen), min(k, n - 1), e, L)
            inside = max(D[pos[e], pos[x]] for x in seen)
            outside = [D[pos[e], pos[x]] for x in eles if x not in seen and x != e]
            assert not outside or inside <= min(outside) + EPS, "clustered %r, but not the most similar elements of %r" % (L, e)
        for s, c in L:
            want = score_of([pos[x] for x in c], 1.0 - D, case["metric"])
            assert model.close(s, want, 1e-9, 1e-9), "score of %r: %r, expected %r" % (c, s, want)
            count += len(c) > 1
    both = cbc.cbc_step1_single(list(eles), **kw)
    assert norm(both) == norm(everything), "clusters of all elements %r, of each %r" % (both, everything)
    ctx.nontrivial(count >= 2)
    ctx.label(how, case["metric"], "highest" if case["highest"] else "all")


def norm(L):
    return sorted((round(float(s), 9), sorted(c)) for s, c in L)


def multi_body(case, ctx):
    """The variant for several processes finds the same clusters."""
    n, cond = case["d"]
    eles = ELES[:n]
    m = TypeTokenMatrix(square(n, cond), eles, eles)
    how, t = case["prune"]
    kw = {"distmx": m, "k": max(2, int(case["k"])), "prune_method": how, "t": t, "score_metric": case["metric"], "highest_score": case["highest"]}
    want = cbc.cbc_step1_single(list(eles), **kw)
    with cpus(case["cpus"]):
        got = cbc.cbc_step1_multicore(list(eles), **kw)
    assert norm(got) == norm(want), "clusters with several processes %r, with one %r" % (norm(got), norm(want))
    ctx.nontrivial(case["cpus"] >= 3)
    ctx.label("cpus=%d" % case["cpus"])


class cpus:
    """A machine of n processors."""

    def __init__(self, n):
        self.n, self.old = n, {}

    def __enter__(self):
        import multiprocessing
        for mod in (cbc, os, multiprocessing):
            if hasattr(mod, "cpu_count"):
                self.old[mod] = mod.cpu_count
                mod.cpu_count = lambda: self.n

    def __exit__(self, *exc):
        for mod, f in self.old.items():
            mod.cpu_count = f


# ---------------------------------------------------------------- cleaning
@st.composite
def clean_cases(draw):
    base = st.lists(st.integers(0, 6), min_size=1, max_size=4, unique=True)
    sets = draw(st.lists(base, min_size=1, max_size=7))
    extra = draw(st.lists(st.integers(0, 6), max_size=5))
    L = [list(s) for s in sets] + [list(reversed(sets[i % len(sets)])) for i in extra]
    order = draw(st.permutations(range(len(L))))
    scores = {}
    for s in L:
        scores.setdefault(frozenset(s), draw(st.sampled_from([0.1, 0.2, 0.2, 0.5, 0.5, 0.9, 1.0, 2.5])))
    noise = draw(st.booleans())
    return [[-1 if len(L[i]) == 1 else scores[frozenset(L[i])] + (i * 1e-14 if noise else 0), [ELES[x] for x in L[i]]] for i in order]


def cleaned(L):
    """(minimal distinct clusters with their scores, singletons in no cluster)"""
    multi = {}
    for s, c in L:
        if len(c) > 1:
            multi.setdefault(frozenset(c), s)
    keep = {c: s for c, s in multi.items() if not any(d < c for d in multi)}
    single = {c[0] for _, c in L if len(c) == 1} - {e for c in multi for e in c}
    return keep, single


def clean_body(case, ctx):
    given = [(s, list(c)) for s, c in case]
    got, single = cbc.clean_clusters([(s, list(c)) for s, c in given])
    keep, alone = cleaned(given)
    sets = [frozenset(c) for _, c in got]
    assert len(set(sets)) == len(sets) and set(sets) == set(keep), "cleaned %r, expected %r" % (sorted(map(sorted, sets)), sorted(map(sorted, keep)))
    for s, c in got:
        assert abs(s - keep[frozenset(c)]) < 1e-11
    scores = [s for s, _ in got]
    assert scores == sorted(scores, reverse=True), "scores %r" % scores
    assert set(single) == alone, "singletons %r, expected %r" % (single, alone)
    multi = [frozenset(c) for _, c in given if len(c) > 1]
    ctx.nontrivial(len(keep) >= 1 and len(set(multi)) >= 2)
    ctx.label("duplicates" if len(set(multi)) < len(multi) else "distinct", "supersets" if len(keep) < len(set(multi)) else "no supersets", "singletons" if alone else "no singletons")


# ---------------------------------------------------------------- merging
@st.composite
def merge_cases(draw):
    n = draw(st.integers(1, 7))
    vals = st.sampled_from([0.0, 0.1, 0.3, 0.35, 0.5, 0.9, 1.0]) if draw(st.booleans()) else st.integers(0, 1000).map(lambda x: x / 1000)
    return {"n": n, "sims": draw(st.lists(vals, min_size=n * (n - 1) // 2, max_size=n * (n - 1) // 2)), "theta": draw(st.sampled_from(THETAS)), "noise": draw(st.booleans())}


def merge_body(case, ctx):
    n, theta = case["n"], case["theta"]
    S = square(n, case["sims"])
    for i in range(n):
        S[i, i] = 1.0 - (2.2e-16 if case["noise"] and i % 2 else 0)
    got = [(int(i), int(j)) for i, j in cbc.get_merged_committee(S.copy(), theta=theta)]
    check_merges(got, S, theta)
    ctx.nontrivial(n >= 3 and any(j >= 0 for _, j in got))
    ctx.label("n=%d" % n, "merged" if any(j >= 0 for _, j in got) else "none merged")


def check_merges(got, S, theta):
    n = len(S)
    flat = [x for p in got for x in p if x >= 0]
    assert sorted(flat) == list(range(n)), "committees in %r, %d committees" % (got, n)
    gone = set()
    assert [i for i, _ in got] == sorted(i for i, _ in got), "order of %r" % (got,)
    for i, j in got:
        later = [x for x in range(i + 1, n) if x not in gone]
        best = max((S[i, x] for x in later), default=-1)
        if j >= 0:
            assert j in later and S[i, j] >= theta and S[i, j] == best, "committee %d was merged with %d (%r), best is %r; pairs %r" % (i, j, S[i, j], best, got)
            gone.add(j)
        else:
            assert best < theta, "committee %d was left alone although a later free one has similarity %r >= %r; pairs %r" % (i, best, theta, got)


# ---------------------------------------------------------------- vectors, steps 2 and 3
def committee_vector(rows, ids):
    """PPMI of the centroid of some rows against the sum of the others."""
    m = len(rows[0])
    cent = [math.fsum(rows[i][c] for i in ids) / len(ids) for c in range(m)]
    rest = [math.fsum(r[c] for n, r in enumerate(rows) if n not in ids) for c in range(m)]
    tot, tsum = math.fsum(cent) + math.fsum(rest), math.fsum(cent)
    out = []
    for a, b in zip(cent, rest):
        out.append(max(0.0, math.log(a * tot / (tsum * (a + b)))) if a else 0.0)
    return out


def cosine(x, y):
    nx, ny = math.sqrt(math.fsum(a * a for a in x)), math.sqrt(math.fsum(b * b for b in y))
    return math.fsum(a * b for a, b in zip(x, y)) / (nx * ny) if nx and ny else 0.0


@st.composite
def table(draw, lo=3, hi=6):
    n, m = draw(st.integers(lo, hi)), draw(st.integers(2, 5))
    f = draw(st.lists(st.lists(st.sampled_from([0, 0, 1, 1, 2, 3, 5, 8]), min_size=m, max_size=m), min_size=n, max_size=n))
    f[0][0] = f[0][0] or 1
    if draw(st.integers(0, 2)) == 0:        # nearly equal similarities
        k = draw(st.sampled_from([30, 100, 250, 1000]))
        f = [[v and k * min(v, 2) + d for v, d in zip(r, draw(st.lists(st.integers(-2, 2), min_size=m, max_size=m)))] for r in f]
    return f


@st.composite
def between_cases(draw):
    """Committees on columns of their own and elements that are almost equally similar to several."""
    k = draw(st.integers(2, 3))
    unit = draw(st.sampled_from([1, 10, 100, 1000]))
    sizes = draw(st.lists(st.integers(2, 3), min_size=k, max_size=k))
    f = [[unit if j == i else 0 for j in range(k)] for i in range(k) for _ in range(sizes[i])]
    n = len(f)
    L, at = [], 0
    for i in range(k):
        L.append([(90 - 7 * i) / 100, list(range(at, at + sizes[i]))])
        at += sizes[i]
    for e in range(draw(st.integers(1, 10 - n if n < 9 else 1))):
        f.append([draw(st.sampled_from([0, unit, unit, unit])) for _ in range(k)])
        j = draw(st.integers(0, k - 1))
        f[-1][j] += draw(st.sampled_from([1, 2, 3, unit])) * (1 if unit > 1 else 0.004)
        L.append([-1, [n + e]])
    return {"f": f, "L": [L[i] for i in draw(st.permutations(range(len(L))))], "theta": draw(st.sampled_from(THETAS[:5])), "eles": draw(st.permutations(ELES[:len(f)]))}


@st.composite
def step2_cases(draw):
    f = draw(table(3, 7))
    n = len(f)
    L, scores = [], {}
    for _ in range(draw(st.integers(0, 6))):
        c = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=3, unique=True))
        s = draw(st.integers(1, 90)) / 100
        L.append([-1 if len(c) == 1 else scores.setdefault(frozenset(c), s), c])
    return {"f": f, "L": L, "theta": draw(st.sampled_from(THETAS)), "eles": draw(st.permutations(ELES[:n]))}


def ppmi(rows):
    tot = math.fsum(map(math.fsum, rows))
    cs = [math.fsum(r[c] for r in rows) for c in range(len(rows[0]))]
    return [[max(0.0, math.log(v * tot / (math.fsum(r) * cs[c]))) if v else 0.0 for c, v in enumerate(r)] for r in rows]


def step2_body(case, ctx):
    rows, theta = case["f"], case["theta"]
    eles = case.get("eles") or ELES[:len(rows)]
    pp = ppmi(rows)
    L = [(s, [eles[i] for i in c]) for s, c in case["L"]]
    res = cbc.cbc_step2([(s, list(c)) for s, c in L], elements=list(eles), freqmx=np.array(rows), ppmimx=np.array(pp), theta=theta)
    assert isinstance(res, tuple) and len(res) == 2, "step 2 on %r returns %r" % (L, res)
    comms, commx = res
    keep, alone = cleaned(L)
    assert len(comms) == np.shape(commx)[0], "%d committees, matrix of shape %r" % (len(comms), np.shape(commx))
    if not keep:
        assert len(comms) == 0, "committees %r from %r" % (comms, L)
        ctx.label("no committee")
        return
    for c, v in zip(comms, commx):
        want = committee_vector(rows, [eles.index(e) for e in c])
        assert all(model.close(x, y, 1e-9, 1e-9) for x, y in zip(v, want)), "vector of committee %r: %r, expected %r" % (c, list(v), want)
    # the merges, when no comparison is within rounding of the threshold and scores are distinct
    order = sorted(keep, key=lambda c: -keep[c])
    if len({keep[c] for c in order}) < len(order):
        ctx.label("equal scores")
        return
    ids = [sorted(eles.index(e) for e in c) for c in order]
    vec = [committee_vector(rows, c) for c in ids]
    if any(vague(v, [rows[i] for i in c]) for v, c in zip(vec, ids)):
        ctx.label("rounding")
        return
    S = [[cosine(x, y) for y in vec] for x in vec]
    merged, used = [], set()
    for i in range(len(ids)):
        if i in used:
            continue
        later = sorted(((S[i][j], j) for j in range(i + 1, len(ids)) if j not in used), reverse=True)
        if later and abs(later[0][0] - theta) < EPS or len(later) > 1 and later[0][0] - later[1][0] < EPS and later[0][0] >= theta - EPS:
            ctx.label("tie")
            return
        if later and later[0][0] >= theta:
            used.add(later[0][1])
            merged.append(set(ids[i]) | set(ids[later[0][1]]))
        else:
            merged.append(set(ids[i]))
    vec = [committee_vector(rows, sorted(c)) for c in merged]
    if any(vague(v, [rows[i] for i in c]) for v, c in zip(vec, merged)):
        ctx.label("rounding")
        return
    final = [set(c) for c in merged]
    for e in sorted(alone):
        i = eles.index(e)
        sims = sorted(((cosine(pp[i], v), n) for n, v in enumerate(vec)), reverse=True)
        if abs(sims[0][0] - theta) < EPS or len(sims) > 1 and sims[0][0] - sims[1][0] < EPS and sims[0][0] >= theta - EPS:
            ctx.label("tie")
            return
        if sims[0][0] >= theta:
            final[sims[0][1]].add(i)
    got = [frozenset(eles.index(e) for e in c) for c in comms]
    assert collections.Counter(got) == collections.Counter(map(frozenset, final)), "committees %r, expected %r" % (comms, [[eles[i] for i in sorted(c)] for c in final])
    assert all(len(set(c)) == len(c) for c in comms), "committee members repeat: %r" % comms
    ctx.nontrivial(len(keep) >= 2)
    ctx.label("merged" if len(merged) < len(ids) else "not merged", "with singletons" if sum(map(len, final)) > sum(map(len, merged)) else "no singletons added")


@st.composite
def step3_cases(draw):
    n, m, k = draw(st.integers(1, 6)), draw(st.integers(1, 4)), draw(st.integers(1, 4))
    num = st.sampled_from([0, 0, 1, 1, 2, 3, 0.5])
    mat = lambda r: draw(st.lists(st.lists(num, min_size=m, max_size=m), min_size=r, max_size=r))
    return {"meas": mat(n), "comm": mat(k), "members": draw(st.lists(st.lists(st.integers(0, n - 1), min_size=1, max_size=3, unique=True), min_size=k, max_size=k)), "theta": draw(st.sampled_from(THETAS))}


def step3_body(case, ctx):
    meas, comm, theta = case["meas"], case["comm"], case["theta"]
    eles = ELES[:len(meas)]
    comms = [[eles[i] for i in c] for c in case["members"]]
    before = [list(c) for c in comms]
    R, after = cbc.cbc_step3(list(eles), measmx=np.array(meas, dtype=float), comms=comms, commx=np.array(comm, dtype=float), theta=theta)
    assert comms == before, "the committees given were changed"
    check_residues(eles, meas, comm, theta, R)
    assert len(after) == len(before)
    added = [set(a) - set(b) for a, b in zip(after, before)]
    for n, (a, b) in enumerate(zip(after, before)):
        assert len(set(a)) == len(a) and set(b) <= set(a), "committee %r became %r" % (b, a)
    for i, e in enumerate(eles):
        sims = [cosine(meas[i], c) for c in comm]
        where = [n for n in range(len(comm)) if e in after[n]]
        new = [n for n in range(len(comm)) if e in added[n]]
        if max(sims) == theta == 0:      # (exact)
            assert where, "%r, not less similar than the threshold 0, is in no committee" % e
        if max(sims) < theta - EPS:
            assert not new, "the residue %r was added to %r" % (e, new)
        elif max(sims) > theta + EPS:
            assert any(sims[n] >= max(sims) - EPS for n in where), "%r with similarities %r is in committees %r" % (e, sims, where)
            assert len(new) <= 1 and all(sims[n] >= max(sims) - EPS for n in new), "%r with similarities %r was added to %r" % (e, sims, new)
    ctx.nontrivial(0 < len(R) < len(eles) and len(comm) >= 2)
    ctx.label("residues" if R else "no residues")


def check_residues(eles, meas, vec, theta, R):
    pos = [eles.index(e) for e in R]
    assert pos == sorted(set(pos)), "residues %r of %r" % (R, eles)
    for i, e in enumerate(eles):
        best = max(cosine(meas[i], v) for v in vec)
        if abs(best - theta) > EPS or best == theta == 0:
            assert (e in R) == (best < theta), "%r: best similarity %r, threshold %r, residues %r" % (e, best, theta, R)


# ---------------------------------------------------------------- whole runs
run_cases = st.fixed_dictionaries({"f": table(3, 9), "turn": st.integers(0, 11), "t1": st.sampled_from(THETAS), "t2": st.sampled_from(THETAS), "prune": st.sampled_from(PRUNE), "metric": st.sampled_from(METRICS), "k": st.sampled_from([2, 3, 4, 5, 100]),
                                   "highest": st.booleans(), "iter": st.sampled_from([1, 2, 3, 1000]), "num": st.sampled_from([-1, -1, -1, 3, 4, 100]), "given": st.sampled_from(["all", "all", "meas", "none"]),
                                   "multi": st.booleans(), "cpus": st.integers(1, 3), "pick": st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 99), st.integers(0, 3)))})


def run_body(case, ctx, multi=False):
    rows = case["f"]
    eles = [ELES[(i * 5 + case.get("turn", 0)) % 12] for i in range(len(rows))] if case.get("turn") else ELES[:len(rows)]
    cols = ["c%d" % i for i in range(len(rows[0]))]
    freq = model.build({"rows": eles, "cols": cols, "cells": [[i, j, v] for i, r in enumerate(rows) for j, v in enumerate(r) if v], "dtype": "int64", "fmt": "csr"})
    pp = ppmi(rows)
    meas = model.build({"rows": eles, "cols": cols, "cells": [[i, j, v] for i, r in enumerate(pp) for j, v in enumerate(r) if v], "dtype": "float64", "fmt": "csr"})
    n = len(eles)
    D = square(n, [min(1.0, max(0.0, 1.0 - cosine(pp[i], pp[j]))) for i, j in itertools.combinations(range(n), 2)])
    dist = TypeTokenMatrix(D, eles, eles)
    how, t = case["prune"]
    kw = {"k": case["k"], "theta1": case["t1"], "theta2": case["t2"], "prune_method": how, "t": t, "score_metric": case["metric"], "highest_score": case["highest"], "num_iter": case["iter"]}
    if case["given"] != "none":
        kw["measmx"] = meas
    if case["given"] == "all":
        kw["distmx"] = dist
    pictures = [model.frozen(x) for x in (freq, meas, dist)]
    given = list(eles)
    if case.get("pick"):        # elements in another order than the rows of the matrices, or not all of them
        given = random.Random(case["pick"][0]).sample(eles, max(2, len(eles) - case["pick"][1]))
    chosen = list(given)
    c = cbc.CBC(given, freq, **kw)
    with cpus(case["cpus"]):
        Cs, Rs = c.cluster(num_eles=case["num"], multicore=multi)
    assert [model.frozen(x) for x in (freq, meas, dist)] == pictures and given == chosen, "the run changed its input"
    assert len(Cs) == len(Rs) <= case["iter"]
    now = chosen[:case["num"]] if case["num"] > 0 else list(chosen)
    found = 0
    for n, (C, R) in enumerate(zip(Cs, Rs)):
        ids = [eles.index(e) for e in now]
        for comm in C:
            assert comm and len(set(comm)) == len(comm) and set(comm) <= set(now), "committee %r of round %d over %r" % (comm, n, now)
        if not C:
            assert list(R) == now, "no committee, but residues %r of %r" % (R, now)
        elif sum(rows[i][j] for i in ids for j in range(len(cols))):
            sub = [rows[i] for i in ids]
            vec = [committee_vector(sub, [now.index(e) for e in comm]) for comm in C]
            tol = EPS if case["given"] != "none" else 1e-6      # computed scores are single precision
            vagues = [vague(v, [rows[eles.index(e)] for e in comm]) for v, comm in zip(vec, C)]
            check_residues_tol(now, [pp[i] for i in ids], vec, case["t2"], R, tol, vagues, [vague(pp[i], [rows[i]]) for i in ids])
        if case["given"] == "all":
            check_round(case, now, C, freq, meas, dist)
        found += len(C)
        last = n == len(Cs) - 1
        assert last == (len(R) <= 2 or len(R) == len(now) or n + 1 == case["iter"]), "round %d of %d: residues %r of %r" % (n, len(Cs), R, now)
        now = list(R)
    ctx.nontrivial(found >= 2)
    ctx.label("some elements" if len(chosen) < len(eles) else "other order" if chosen != eles else "elements as rows", "rounds=%d" % len(Cs), "committees=%d" % min(found, 5), case["given"], "highest" if case["highest"] else "all")


def vague(vec, rows):
    """Scores that are zero but for rounding: their direction is not determined."""
    return math.sqrt(math.fsum(v * v for v in vec)) < 1e-6 and any(any(r) for r in rows)


def check_residues_tol(eles, meas, vec, theta, R, tol, vagues, vague_rows):
    pos = [eles.index(e) for e in R]
    assert pos == sorted(set(pos)), "residues %r of %r" % (R, eles)
    for i, e in enumerate(eles):
        if vague_rows[i]:
            continue
        best = max([cosine(meas[i], v) for v, x in zip(vec, vagues) if not x], default=-1)
        if abs(best - theta) > tol and (best > theta or not any(vagues)):
            assert (e in R) == (best < theta), "%r: best similarity %r, threshold %r, residues %r" % (e, best, theta, R)


def check_round(case, now, C, freq, meas, dist):
    """The committees of a round are those of its first two steps."""
    how, t = case["prune"]
    f, p, d = (freq, meas, dist) if now == list(freq.row_items) else (freq.submatrix(row=now), meas.submatrix(row=now), dist.submatrix(row=now, col=now))
    L = cbc.cbc_step1_single(list(now), distmx=d, k=case["k"], prune_method=how, t=t, score_metric=case["metric"], highest_score=case["highest"])
    want, _ = cbc.cbc_step2(L, elements=list(now), freqmx=f.matrix.toarray(), ppmimx=p.matrix.toarray(), theta=case["t1"])
    assert list(map(list, C)) == list(map(list, want)), "committees %r, expected from the steps %r" % (C, want)


def multirun_body(case, ctx):
    run_body(dict(case, given="all"), ctx, multi=True)


LAWS = [Law("tree", tree_cases, tree_body, quick=2000, thorough=60000, shards=1, rule="a cluster tree cut by distance or size; non-trivial if the cut is between all and none"),
        Law("scores", score_cases(), score_body, quick=3000, thorough=80000, shards=1, rule="clusters scored; non-trivial with two clusters, one of two elements"),
        Law("similar", step1_cases, step1_body, quick=700, thorough=20000, shards=2, rule="most similar elements clustered; non-trivial if two clusters have two elements"),
        Law("processes", step1_cases, multi_body, quick=40, thorough=1200, shards=2, rule="the same with several processes; non-trivial with at least two"),
        Law("cleaning", clean_cases(), clean_body, quick=3000, thorough=80000, shards=1, rule="lists of scored clusters cleaned; non-trivial with two distinct clusters of several elements"),
        Law("merging", merge_cases(), merge_body, quick=4000, thorough=100000, shards=1, rule="committees paired by similarity; non-trivial if a pair was merged among three"),
        Law("committees", step2_cases(), step2_body, quick=2500, thorough=60000, shards=2, rule="the second step; non-trivial with two committees before merging"),
        Law("between", between_cases(), step2_body, quick=1000, thorough=20000, shards=1, rule="the second step with elements almost equally similar to two committees; non-trivial as above"),
        Law("residues", step3_cases(), step3_body, quick=2500, thorough=60000, shards=1, rule="the third step; non-trivial if some but not all elements are residues of two committees"),
        Law("runs", run_cases, run_body, quick=700, thorough=20000, shards=3, rule="whole runs; non-trivial if two committees were found"),
        Law("multiruns", run_cases, multirun_body, quick=30, thorough=800, shards=2, rule="whole runs with several processes; non-trivial if two committees were found")]
ASSUMPTIONS = ["clusters of several elements have positive scores when they are cleaned", "comparisons within 1e-9 of a threshold, and ties between equally similar candidates, may go either way",
               "cutting by size where no cluster is large enough is not constrained beyond being a partition"]
