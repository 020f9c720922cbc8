"""P37: committee clusterings with several processes, at the same time as others, and with processes that end early."""
import errno
import json
import mmap
import os
import pickle
import signal
import sys
from hypothesis import strategies as st
from lib import fakemp
fakemp.install()
from lib import model
from lib.core import Law
from nephosem import TypeTokenMatrix
from nephosem.models import cbc
from checks import p24

EVENTS = {"open", "os.rename", "os.remove", "os.mkdir", "os.rmdir", "os.listdir", "os.scandir"}
LIMIT = 45


def inputs(case):
    rows = case["f"]
    eles = [p24.ELES[(i * 5 + case["turn"]) % 12] for i in range(len(rows))]
    cols = ["c%d" % i for i in range(len(rows[0]))]
    freq = model.build({"rows": eles, "cols": cols, "cells": [[i, j, v] for i, r in enumerate(rows) for j, v in enumerate(r) if v], "dtype": "int64", "fmt": "csr"})
    pp = p24.ppmi(rows)
    meas = model.build({"rows": eles, "cols": cols, "cells": [[i, j, v] for i, r in enumerate(pp) for j, v in enumerate(r) if v], "dtype": "float64", "fmt": "csr"})
    n = len(eles)
    D = p24.square(n, [min(1.0, max(0.0, 1.0 - p24.cosine(pp[i], pp[j]))) for i, j in p24.itertools.combinations(range(n), 2)])
    if case["ties"]:
        D = (D * 4).round() / 4
    return eles, freq, meas, TypeTokenMatrix(D, eles, eles)


def cluster(case, multi, cpus=1):
    eles, freq, meas, dist = inputs(case)
    how, t = case["prune"]
    c = cbc.CBC(list(eles), freq, measmx=meas, distmx=dist, k=case["k"], theta1=case["t1"], theta2=case["t2"], prune_method=how, t=t,
                score_metric=case["metric"], highest_score=case["highest"], num_iter=case["iter"])
    with p24.cpus(cpus):
        Cs, Rs = c.cluster(multicore=multi)
    return [[list(map(str, x)) for x in C] for C in Cs], [list(map(str, R)) for R in Rs]


one = st.fixed_dictionaries({"f": p24.table(4, 10), "turn": st.integers(0, 11), "t1": st.sampled_from(p24.THETAS), "t2": st.sampled_from(p24.THETAS), "prune": st.sampled_from(p24.PRUNE),
                             "metric": st.sampled_from(p24.METRICS), "k": st.sampled_from([2, 3, 4, 5, 100, 0.34, 0.5, 0.7]), "highest": st.booleans(), "iter": st.sampled_from([1, 2, 3]), "ties": st.booleans(),
                             "cpus": st.integers(2, 5)})


def foreign_files():
    """Files somebody has in ~/.cbc."""
    base = os.path.join(os.environ["HOME"], ".cbc")
    out = {}
    for sub in ("", "mine", "res.2020.01.01.10.10", "2020.01.01.10.10/L"):
        for f in ("notes.txt", "Cs", "distmx.meta"):
            out[os.path.join(base, sub, f)] = "%s of %s" % (f, sub)
    for f, text in out.items():
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, "w") as o:
            o.write(text)
    return out


def unchanged(foreign):
    for f, text in foreign.items():
        assert os.path.exists(f), "a file of somebody else was deleted: %r" % f[len(os.environ["HOME"]):]
        with open(f) as inp:
            assert inp.read() == text, "a file of somebody else was changed: %r" % f[len(os.environ["HOME"]):]


def stored():
    """{folder: its committees and residues} of the results stored in the home directory."""
    base, out = os.path.join(os.environ["HOME"], ".cbc"), {}
    for n in sorted(os.listdir(base)) if os.path.isdir(base) else []:
        d = os.path.join(base, n)
        if n.startswith("res.") and n != "res.2020.01.01.10.10":
            out[n] = []
            for f in ("Cs", "Rs"):
                try:
                    with open(os.path.join(d, f), encoding="utf-8") as inp:
                        out[n].append(json.load(inp))
                except (ValueError, OSError) as e:
                    out[n].append("unreadable: %s" % e)
    return out


def stores(case, res):
    """Only runs which use all their rounds store their results."""
    n, left = len(case["f"]), res[1][-1]
    before = len(res[1][-2]) if len(res[1]) > 1 else n
    return len(res[1]) == case["iter"] and len(left) > 2 and len(left) != before


# ---------------------------------------------------------------- one program
def same_body(case, ctx):
    foreign = foreign_files()
    base = cluster(case, False)
    had = stored()
    for cpus in (case["cpus"], 2):
        got = cluster(case, True, cpus)
        assert got == base, "with %d processors: committees and residues %r, with one process %r" % (cpus, got, base)
    new = [v for k, v in stored().items() if k not in had]
    for v in new:
        assert v == list(base), "stored %r, result %r" % (v, base)
    if stores(case, base):
        assert new, "the results were not stored"
    unchanged(foreign)
    ctx.nontrivial(sum(map(len, base[0])) >= 2 and case["cpus"] <= len(case["f"]))
    ctx.label("rounds=%d" % len(base[0]), "stored" if new else "not stored", "ties" if case["ties"] else "no ties")


# ---------------------------------------------------------------- several programs
@st.composite
def many(draw):
    a = draw(one)
    b = draw(st.one_of(one, st.just(dict(a, f=draw(p24.table(4, 10))))))
    return {"a": a, "b": b, "at": draw(st.integers(0, 25)), "again": draw(st.integers(0, 25))}


HOOK = {"on": False, "fn": None}


def audit(event, args):
    if HOOK["on"] and event in EVENTS:
        first = args[0] if args else None
        if isinstance(first, (str, bytes)) and ".cbc" in os.fsdecode(first):
            HOOK["on"] = False
            try:
                again = HOOK["fn"](event)
            finally:
                HOOK["on"] = True
            if again is False:
                HOOK["on"] = False


ADDED = []


def hooked(fn):
    if not ADDED:
        sys.addaudithook(audit)
        ADDED.append(1)
    HOOK["fn"] = fn
    HOOK["on"] = True


def at_once_body(case, ctx):
    foreign = foreign_files()
    want = {w: cluster(case[w], False) for w in "ab"}
    pid, count, ran = os.getpid(), [0], []
    had = stored()

    def moment(event):
        if os.getpid() != pid:
            return False
        count[0] += 1
        if count[0] - 1 in (case["at"], case["at"] + 1 + case["again"]):
            ok, got = fakemp.elsewhere(lambda: cluster(case["b"], True, case["b"]["cpus"]))
            assert ok, "a clustering failed while another one was running: %s" % got
            ran.append(got)
    hooked(moment)
    try:
        got = cluster(case["a"], True, case["a"]["cpus"])
    finally:
        HOOK["on"] = False
    assert got == want["a"], "while %d other clusterings ran: %r, alone %r" % (len(ran), got, want["a"])
    for r in ran:
        assert r == want["b"], "while another clustering was running: %r, alone %r" % (r, want["b"])
    new = [v for k, v in stored().items() if k not in had]
    for v in new:
        assert v in (list(want["a"]), list(want["b"])), "stored %r, results %r" % (v, want)
    need = [list(want["a"])] * stores(case["a"], want["a"]) + [list(want["b"])] * (len(ran) if stores(case["b"], want["b"]) else 0)
    for v in need:
        assert new.count(v) >= need.count(v), "%d runs with the results %r, stored %d times" % (need.count(v), v, new.count(v))
    unchanged(foreign)
    ctx.nontrivial(bool(ran) and case["a"]["cpus"] <= len(case["a"]["f"]) and sum(map(len, want["a"][0])) > 0)
    ctx.label("others: %d" % len(ran), "stored %d" % min(len(new), 3))


# ---------------------------------------------------------------- failures
fault_cases = st.fixed_dictionaries({"case": one, "where": st.sampled_from(["worker", "worker", "worker", "main"]), "n": st.one_of(st.integers(0, 12), st.integers(0, 60)), "how": st.sampled_from(["kill", "kill", "error"])})


def own_process(f):
    """f in a process group of its own: ("value", x), ("raised", text), ("killed", signal) or ("timeout",)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setpgid(0, 0)
            for s in (signal.SIGALRM, signal.SIGPROF):
                signal.signal(s, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.alarm(LIMIT)
            try:
                said = ("value", f())
            except Exception as e:
                said = ("raised", repr(e)[:300])
            os.write(w, pickle.dumps(said))
        finally:
            os._exit(0)
    os.close(w)
    _, status = os.waitpid(pid, 0)
    try:
        os.killpg(pid, signal.SIGKILL)     # processes it left behind
    except (ProcessLookupError, PermissionError):
        pass
    with os.fdopen(r, "rb") as p:
        data = p.read()
    if data:
        return pickle.loads(data)
    if os.WIFSIGNALED(status):
        return ("timeout",) if os.WTERMSIG(status) == signal.SIGALRM else ("killed", os.WTERMSIG(status))
    return ("killed", 0)


def fault_body(case, ctx):
    c = case["case"]
    cpus = min(c["cpus"], len(c["f"]))
    foreign = foreign_files()
    want = cluster(c, False)
    hits = mmap.mmap(-1, 8)     # shared with the processes

    def run():
        pid, count = os.getpid(), [0]

        def hook(event, args):
            inside = os.getpid() != pid
            if event == "sys._getframe" or inside != (case["where"] == "worker") or count[0] < 0:
                return
            if (not inside or case["how"] == "error") and (event not in EVENTS or not args or not isinstance(args[0], str) or ".cbc" not in args[0]):
                return
            count[0] += 1
            if count[0] - 1 == case["n"]:
                count[0] = -10 ** 9
                hits[0] = 1
                if case["how"] == "kill":
                    os.kill(os.getpid(), signal.SIGKILL)
                raise OSError(errno.EIO, "Input/output error")
        sys.addaudithook(hook)
        return cluster(c, True, cpus)
    if case["where"] == "main" and case["how"] == "kill":
        case["how"] = "error"
    got = own_process(run)
    hit = hits[0] == 1
    assert got[0] != "timeout", "%s of a process: the clustering does not come to an end" % case["how"]
    if got[0] == "value":
        Cs, Rs = got[1]
        if got[1] != want:
            assert hit, "%r, with one process %r" % (got[1], want)
            n = len(Cs)
            assert n == len(Rs) <= len(want[0]) and n > 0, "after a failure: rounds %r, without %r" % (got[1], want)
            eles = [p24.ELES[(i * 5 + c["turn"]) % 12] for i in range(len(c["f"]))]
            assert (Cs[:-1], Rs[:-1]) == (want[0][:n - 1], want[1][:n - 1]), "after a failure in round %d, the earlier rounds %r, without %r" % (n, (Cs, Rs), want)
            now = want[1][n - 2] if n > 1 else eles
            assert not Cs[-1] and Rs[-1] == now or (Cs[-1], Rs[-1]) == (want[0][n - 1], want[1][n - 1]), \
                "after a failure in round %d: committees %r and residues %r of %r, without %r" % (n, Cs[-1], Rs[-1], now, (want[0][n - 1], want[1][n - 1]))
    else:
        assert hit, "no failure, but %r" % (got,)
    unchanged(foreign)
    again = own_process(lambda: cluster(c, True, cpus))
    assert again == ("value", want), "the clustering after a failure: %r, with one process %r" % (again, want)
    unchanged(foreign)
    ctx.nontrivial(hit and sum(map(len, want[0])) > 0)
    ctx.label("%s in %s" % (case["how"], case["where"]), "hit" if hit else "not hit", got[0] if got[0] != "value" or got[1] != want else "complete")


LAWS = [Law("processes", one, same_body, quick=120, thorough=3000, shards=3, rule="a clustering with one process and with several on two numbers of processors; non-trivial if two committees were found and there are more elements than processes"),
        Law("programs", many(), at_once_body, quick=120, thorough=3000, shards=3, rule="a clustering during which another one is run at one or two generated file operations; non-trivial if it ran and committees were found"),
        Law("failures", fault_cases, fault_body, quick=160, thorough=4000, shards=4, rule="a worker is killed or gets an error at a generated operation, or the main process an error at a generated operation on the files of the clustering; non-trivial if that happened in a clustering with committees")]
ASSUMPTIONS = ["elements for which clustering raised are logged and left out by design; injected errors in the middle of the computation of an element only occur where it uses files"]
